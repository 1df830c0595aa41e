// C interface between the simulator (host executable) and the program under
// test (shared object built from the repository sources plus the stub headers).
#ifndef SIMAPI_H
#define SIMAPI_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif

// ---- log sink ---------------------------------------------------------
// level: -3 FATAL, -2 ERROR, -1 WARNING, 0 INFO, 9 MAX
void sim_log(int level, const char *file, int line, const char *msg);
int  sim_log_cutoff(void);
void sim_abort(void) __attribute__((noreturn));

// ---- storage (HDF5-like) ------------------------------------------------
// every function returns >=0 on success, <0 on failure (stub throws)
int  simh5_create(const char *path, int excl, int trunc, int mpio);  // H5Fcreate
int  simh5_open(const char *path, int rw, int mpio);                 // H5Fopen
void simh5_close(int h);
int  simh5_exist(int h, const char *path);
int  simh5_create_group(int h, const char *path);
int  simh5_open_group(int h, const char *path);
int  simh5_create_dataset(int h, const char *path, int nd, const size_t *dims,
                          const size_t *maxdims, const size_t *chunk);
int  simh5_open_dataset(int h, const char *path);
int  simh5_dims(int h, const char *path, size_t *dims);  // returns nd
int  simh5_resize(int h, const char *path, int nd, const size_t *dims);
int  simh5_write(int h, const char *path, int nd, const size_t *off,
                 const size_t *cnt, const double *data, size_t ndata);
int  simh5_create_attr(int h, const char *path, const char *name);
int  simh5_write_attr(int h, const char *path, const char *name,
                      const char *type, const char *val, size_t len);
int  simh5_flush(int h);

// ---- hook: phase boundaries of the main loop ------------------------------
enum SimPoint {
  SIM_SMB_READY = 0, SIM_DISTRIBUTED, SIM_STEP_BEGIN, SIM_INJECTED, SIM_MAXWELL,
  SIM_ADVANCED, SIM_CURRENT, SIM_OUTPUT, SIM_STEP_END, SIM_LOOP_END
};
void sim_point(int point, void *smb, void *timesim);

// ---- neutral view of the program state, filled by the in-SO probe ----------
struct SimGrid {           // one component on one domain
  double **g;              // raw storage, incl. overlay
  unsigned xs, ys, os;     // interior sizes and overlay width
};
struct SimSpecie {
  unsigned id;
  const char *name;
  int is_beam;
  double charge, mass;
  unsigned macro_amount;
  size_t n;
  void **p;                // Particle*
  void *vec;               // std::vector<Particle*>*
  void *sp;                // SpecieP*
};
struct SimDomain {
  unsigned i, j;
  size_t dims[4];          // r0 z0 r1 z1 in cells
  double dr, dz;
  unsigned nsp;
  struct SimSpecie *sp;
  struct SimGrid e[3], h[3], het[3], cur[3];
};
struct SimView {
  unsigned rd, zd;         // domain grid
  size_t dims[4];          // rank cell dims
  int walls[4];
  double t, dt, tend;
  unsigned nd;
  struct SimDomain *d;
};
// a plain copy of one particle
struct SimParticle {
  double pos[3], old[3], vel[3], weight, sin;
  size_t cell_r, cell_z, mark;
  unsigned short specie;
};

// implemented inside the shared object
typedef struct SimPutOps {
  int (*main_)(int, char **);
  struct SimView *(*view)(void *smb, void *timesim);   // caller frees with view_free
  void (*view_free)(struct SimView *);
  void (*get_particle)(void *p, struct SimParticle *out);
  void (*set_particle)(void *p, const struct SimParticle *in);
  void *(*new_particle)(void);
  void (*set_mark)(void *p, size_t m);
  size_t (*get_mark)(void *p);
  void (*vec_assign)(void *vec, void **p, size_t n);
  unsigned features;       // bit0 MPI, bit1 PML, bit2 collisions, bit3 external fields
} SimPutOps;
extern const SimPutOps sim_put_ops;

// wrapped libc calls
void sim_exit(int) __attribute__((noreturn));
void sim__exit(int) __attribute__((noreturn));
unsigned sim_sleep(unsigned);
long sim_time(long *);
int sim_mkdir(const char *, unsigned);
int sim_stat_isdir(const char *);      // 1 dir, 0 not found, -1 file
void *sim_signal(int, void *);
int sim_raise(int);
unsigned sim_random_device(void);

#ifdef __cplusplus
}
#endif
#endif
