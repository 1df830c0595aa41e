// Simulation stand-in for MPI (C API subset + the MPI-2 C++ bindings the repository uses).
#ifndef SIM_MPI_H
#define SIM_MPI_H
#include <stddef.h>
#include <stdint.h>
#include <limits.h>
#include <string>
extern "C" {
typedef int MPI_Datatype; typedef int MPI_Comm; typedef int MPI_Info; typedef int MPI_Op;
typedef int MPI_Request; typedef int MPI_Errhandler; typedef ptrdiff_t MPI_Aint;
typedef struct MPI_Status { int MPI_SOURCE, MPI_TAG, MPI_ERROR; size_t _bytes; } MPI_Status;
enum { MPI_SUCCESS = 0, MPI_ERR_COMM = 5, MPI_ERR_TYPE = 3, MPI_ERR_RANK = 6, MPI_ERR_TRUNCATE = 15, MPI_ERR_OTHER = 16 };
enum { MPI_COMM_NULL = -1, MPI_COMM_WORLD = 0, MPI_COMM_SELF = 1, MPI_INFO_NULL = -1, MPI_REQUEST_NULL = -1,
       MPI_DATATYPE_NULL = -1, MPI_ANY_SOURCE = -1, MPI_ANY_TAG = -1, MPI_PROC_NULL = -2,
       MPI_ERRORS_ARE_FATAL = 0, MPI_ERRORS_RETURN = 1, MPI_MAX_ERROR_STRING = 256, MPI_UNDEFINED = -32766,
       MPI_THREAD_SINGLE = 0, MPI_THREAD_FUNNELED = 1, MPI_THREAD_SERIALIZED = 2, MPI_THREAD_MULTIPLE = 3 };
enum { MPI_CHAR = 1, MPI_BYTE, MPI_SHORT, MPI_UNSIGNED_SHORT, MPI_INT, MPI_UNSIGNED, MPI_LONG, MPI_UNSIGNED_LONG,
       MPI_LONG_LONG, MPI_UNSIGNED_LONG_LONG, MPI_FLOAT, MPI_DOUBLE, MPI_UNSIGNED_CHAR, MPI_SIGNED_CHAR, MPI_C_BOOL,
       MPI_LONG_DOUBLE, MPI_UINT64_T, MPI_INT64_T, MPI_UINT32_T, MPI_INT32_T, MPI_UINT16_T, MPI_LAST_PREDEF };
#define MPI_LONG_LONG_INT MPI_LONG_LONG
enum { MPI_SUM = 1, MPI_MAX, MPI_MIN, MPI_LAND, MPI_LOR, MPI_BAND, MPI_BOR, MPI_PROD };
#define MPI_BOTTOM ((void *)0)
#define MPI_STATUS_IGNORE ((MPI_Status *)0)
#define MPI_STATUSES_IGNORE ((MPI_Status *)0)
#define MPI_IN_PLACE ((void *)-1)
int MPI_Init(int *, char ***); int MPI_Init_thread(int *, char ***, int, int *); int MPI_Finalize(void);
int MPI_Initialized(int *); int MPI_Finalized(int *);
int MPI_Comm_rank(MPI_Comm, int *); int MPI_Comm_size(MPI_Comm, int *);
int MPI_Abort(MPI_Comm, int); int MPI_Barrier(MPI_Comm);
int MPI_Send(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Ssend(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Rsend(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Bsend(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Buffer_attach(void *, int); int MPI_Buffer_detach(void *, int *);
int MPI_Recv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
int MPI_Isend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Issend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Irecv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Wait(MPI_Request *, MPI_Status *); int MPI_Waitall(int, MPI_Request *, MPI_Status *);
int MPI_Test(MPI_Request *, int *, MPI_Status *);
int MPI_Request_free(MPI_Request *);
int MPI_Sendrecv(const void *, int, MPI_Datatype, int, int, void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
int MPI_Probe(int, int, MPI_Comm, MPI_Status *); int MPI_Iprobe(int, int, MPI_Comm, int *, MPI_Status *);
int MPI_Get_count(const MPI_Status *, MPI_Datatype, int *);
int MPI_Bcast(void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Allreduce(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Reduce(const void *, void *, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Type_create_struct(int, const int *, const MPI_Aint *, const MPI_Datatype *, MPI_Datatype *);
int MPI_Type_contiguous(int, MPI_Datatype, MPI_Datatype *);
int MPI_Type_create_resized(MPI_Datatype, MPI_Aint, MPI_Aint, MPI_Datatype *);
int MPI_Type_commit(MPI_Datatype *); int MPI_Type_free(MPI_Datatype *); int MPI_Type_size(MPI_Datatype, int *);
int MPI_Get_address(const void *, MPI_Aint *);
int MPI_Error_string(int, char *, int *); int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler);
double MPI_Wtime(void);
}
namespace MPI {
class Exception { int c; public: explicit Exception(int e) : c(e) {} int Get_error_code() const { return c; }
  int Get_error_class() const { return c; } const char *Get_error_string() const { return "MPI error"; } };
struct Comm_ { operator MPI_Comm() const { return MPI_COMM_WORLD; }
  int Get_size() const { int n; MPI_Comm_size(MPI_COMM_WORLD, &n); return n; }
  int Get_rank() const { int n; MPI_Comm_rank(MPI_COMM_WORLD, &n); return n; }
  void Barrier() const { MPI_Barrier(MPI_COMM_WORLD); }
  void Abort(int c) const { MPI_Abort(MPI_COMM_WORLD, c); } };
static const Comm_ COMM_WORLD = Comm_();
inline void Init() { MPI_Init(0, 0); }
inline void Init(int &a, char **&b) { MPI_Init(&a, &b); }
inline void Finalize() { MPI_Finalize(); }
inline bool Is_initialized() { int f; MPI_Initialized(&f); return f; }
}
#endif
