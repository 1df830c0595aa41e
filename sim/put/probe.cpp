// In-SO probe: exposes the program's state to the simulator through neutral structs.
// Compiled without instrumentation, from the same headers as the program.
#include "defines.hpp"
#include "SMB.hpp"
#include "beamP.hpp"
#include "simapi.h"
#include <cstring>
extern int picopic_main(int, char **);
static SimGrid mkgrid(Grid<double> &g) {
  SimGrid s; s.g = g.get_grid(); s.xs = g.x_size; s.ys = g.y_size; s.os = g.o_s; return s;
}
static SimView *mkview(void *smb_, void *ts_) {
  SMB *smb = (SMB *)smb_; TimeSim *ts = (TimeSim *)ts_;
  SimView *v = (SimView *)calloc(1, sizeof *v);
  v->rd = smb->r_domains; v->zd = smb->z_domains; v->nd = v->rd * v->zd;
  v->t = ts->current; v->dt = ts->step; v->tend = ts->end;
  v->d = (SimDomain *)calloc(v->nd, sizeof(SimDomain));
  v->dims[0] = v->dims[1] = SIZE_MAX;
  for (unsigned i = 0; i < v->rd; ++i)
    for (unsigned j = 0; j < v->zd; ++j) {
      SimDomain &d = v->d[i * v->zd + j];
      Domain *dm = smb->domains(i, j);
      d.i = i; d.j = j;
      for (int k = 0; k < 4; ++k) d.dims[k] = dm->geometry.cell_dims[k];
      for (int k = 0; k < 2; ++k) if (d.dims[k] < v->dims[k]) v->dims[k] = d.dims[k];
      for (int k = 2; k < 4; ++k) if (d.dims[k] > v->dims[k]) v->dims[k] = d.dims[k];
      for (int k = 0; k < 4; ++k) if (dm->geometry.walls[k]) v->walls[k] = 1;
      d.dr = dm->geometry.cell_size[0]; d.dz = dm->geometry.cell_size[1];
      d.nsp = dm->species_p.size();
      d.sp = (SimSpecie *)calloc(d.nsp ? d.nsp : 1, sizeof(SimSpecie));
      for (unsigned k = 0; k < d.nsp; ++k) {
        SpecieP *sp = dm->species_p[k]; SimSpecie &s = d.sp[k];
        s.id = sp->id; s.name = sp->name.c_str(); s.is_beam = dynamic_cast<BeamP *>(sp) != nullptr;
        s.charge = sp->charge; s.mass = sp->mass; s.macro_amount = sp->macro_amount;
        s.n = sp->particles.size(); s.p = (void **)sp->particles.data(); s.vec = &sp->particles; s.sp = sp;
      }
      for (int k = 0; k < 3; ++k) {
        d.e[k] = mkgrid(dm->maxwell_solver->field_e[k]);
        d.h[k] = mkgrid(dm->maxwell_solver->field_h[k]);
        d.het[k] = mkgrid(dm->maxwell_solver->field_h_at_et[k]);
        d.cur[k] = mkgrid(dm->current->current[k]);
      }
    }
  return v;
}
static void freeview(SimView *v) {
  if (!v) return;
  for (unsigned i = 0; i < v->nd; ++i) free(v->d[i].sp);
  free(v->d); free(v);
}
static void getp(void *p_, SimParticle *o) {
  Particle &p = *(Particle *)p_;
  o->pos[0] = P_POS_R(p); o->pos[1] = P_POS_PHI(p); o->pos[2] = P_POS_Z(p);
  o->old[0] = P_POS_OLD_R(p); o->old[1] = P_POS_OLD_PHI(p); o->old[2] = P_POS_OLD_Z(p);
  o->vel[0] = P_VEL_R(p); o->vel[1] = P_VEL_PHI(p); o->vel[2] = P_VEL_Z(p);
  o->weight = P_WEIGHT(p); o->sin = P_SIN(p); o->cell_r = P_CELL_R(p); o->cell_z = P_CELL_Z(p);
  o->mark = P_MARK(p); o->specie = P_SPECIE_ID(p);
}
static void setp(void *p_, const SimParticle *o) {
  Particle &p = *(Particle *)p_;
  P_POS_R(p) = o->pos[0]; P_POS_PHI(p) = o->pos[1]; P_POS_Z(p) = o->pos[2];
  P_POS_OLD_R(p) = o->old[0]; P_POS_OLD_PHI(p) = o->old[1]; P_POS_OLD_Z(p) = o->old[2];
  P_VEL_R(p) = o->vel[0]; P_VEL_PHI(p) = o->vel[1]; P_VEL_Z(p) = o->vel[2];
  P_WEIGHT(p) = o->weight; P_SIN(p) = o->sin; P_CELL_R(p) = o->cell_r; P_CELL_Z(p) = o->cell_z;
  P_MARK(p) = o->mark; P_SPECIE_ID(p) = o->specie;
}
static void *newp() { return new Particle(); }
static void setm(void *p, size_t m) { P_MARK((*(Particle *)p)) = m; }
static size_t getm(void *p) { return P_MARK((*(Particle *)p)); }
static void vassign(void *vec, void **p, size_t n) {
  vector<Particle *> &v = *(vector<Particle *> *)vec;
  v.assign((Particle **)p, (Particle **)p + n);
}
extern "C" const SimPutOps sim_put_ops;
const SimPutOps sim_put_ops = {
  picopic_main, mkview, freeview, getp, setp, newp, setm, getm, vassign,
#ifdef ENABLE_MPI
  1u |
#endif
#ifdef ENABLE_PML
  2u |
#endif
  0u };
static thread_local volatile int sim_tls_anchor;
extern "C" void *sim_tls_touch() { sim_tls_anchor = 0; return (void *)&sim_tls_anchor; }
