// Plain, single-purpose runtime for demonstrations: the real program with real OpenMP threads, a file-like
// in-memory store dumped as text, and message passing between forked processes over shared memory.
#include "simapi.h"
#include "stubs/mpi.h"
#include <algorithm>
#include <atomic>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <sched.h>
int kit_rank = 0, kit_np = 1;
// ---------------------------------------------------------------- demonstration hooks (weak, overridden by demo.cpp)
extern "C" __attribute__((weak)) void sim_point(int, void *, void *) {}
extern "C" __attribute__((weak)) int demo_store(const char *, const char *, long) { return 0; }   // op, path, count -> nonzero: fail
extern "C" __attribute__((weak)) int demo_end(int code) { return code; }
// ---------------------------------------------------------------- log
extern "C" void sim_log(int v, const char *f, int l, const char *m) { if (v <= -2) fprintf(stderr, "[%d] %s:%d %s\n", kit_rank, f, l, m); }
extern "C" int sim_log_cutoff(void) { return getenv("KIT_DEBUG") ? 9 : 0; }
extern "C" void sim_abort(void) { abort(); }
// ---------------------------------------------------------------- store
struct Set { std::vector<size_t> d, m; std::vector<double> v; std::vector<int> w; };
struct Store { std::string path; std::map<std::string, Set> s; std::set<std::string> g; std::map<std::string, std::string> a; int opens = 0; };
static std::map<std::string, Store> stores; static std::vector<Store *> handles; static std::map<std::string, long> opn;
static std::string fname(const std::string &p) { return kit_np > 1 ? p + "." + std::to_string(kit_rank) : p; }
static int fails(const char *op, const char *path) { return demo_store(op, path ? path : "", ++opn[op]); }
static void dump(Store &s, bool closed) {
  FILE *f = fopen(fname(s.path).c_str(), "w"); if (!f) return;
  fprintf(f, "closed %d\n", closed ? 1 : 0);
  for (auto &x : s.a) fprintf(f, "attr %s %s\n", x.first.c_str(), x.second.c_str());
  for (auto &x : s.s) { fprintf(f, "set %s %zu", x.first.c_str(), x.second.d.size()); for (auto n : x.second.d) fprintf(f, " %zu", n); for (size_t i = 0; i < x.second.v.size(); ++i) fprintf(f, " %.17g*%d", x.second.v[i], x.second.w[i]); fprintf(f, "\n"); }
  fclose(f);
}
static bool there(const std::string &p) { struct stat st; return stat(fname(p).c_str(), &st) == 0; }
static std::string norm(const char *p) { std::string s = p; while (!s.empty() && s[0] == '/') s.erase(0, 1); return s; }
extern "C" {
int simh5_create(const char *p, int excl, int trunc, int) { (void)trunc; if (fails("create", p)) return -1; if (excl && there(p)) return -1; Store &s = stores[p]; s = Store(); s.path = p; s.opens = 1; dump(s, false); handles.push_back(&s); return (int)handles.size() - 1; }
int simh5_open(const char *p, int, int) { if (fails("open", p)) return -1; if (!stores.count(p)) return -1; stores[p].opens++; handles.push_back(&stores[p]); return (int)handles.size() - 1; }
void simh5_close(int h) { Store &s = *handles[h]; fails("close", s.path.c_str()); handles[h] = nullptr; if (--s.opens <= 0) dump(s, true); }
int simh5_flush(int h) { if (!handles[h]) return -1; Store &s = *handles[h]; if (fails("flush", s.path.c_str())) return -1; dump(s, false); return 0; }
#define OPEN(h) if (!handles[h]) return -1
int simh5_exist(int h, const char *p) { OPEN(h); std::string n = norm(p); return handles[h]->s.count(n) || handles[h]->g.count(n); }
int simh5_create_group(int h, const char *p) { OPEN(h); if (fails("group", p)) return -1; std::string n = norm(p); if (handles[h]->g.count(n)) return -1; for (size_t i = n.size(); i; --i) if (i == n.size() || n[i] == '/') handles[h]->g.insert(n.substr(0, i)); return 0; }
int simh5_open_group(int h, const char *p) { OPEN(h); std::string n = norm(p); return n.empty() || handles[h]->g.count(n) ? 0 : -1; }
int simh5_create_dataset(int h, const char *p, int nd, const size_t *d, const size_t *m, const size_t *) { OPEN(h); if (fails("dataset", p)) return -1; std::string n = norm(p); if (handles[h]->s.count(n)) return -1; Set &s = handles[h]->s[n]; s.d.assign(d, d + nd); s.m.assign(m, m + nd); size_t k = 1; for (auto x : s.d) k *= x; s.v.assign(k, 0); s.w.assign(k, 0); return 0; }
int simh5_open_dataset(int h, const char *p) { OPEN(h); return handles[h]->s.count(norm(p)) ? 0 : -1; }
int simh5_dims(int h, const char *p, size_t *d) { OPEN(h); auto i = handles[h]->s.find(norm(p)); if (i == handles[h]->s.end()) return -1; for (size_t k = 0; k < i->second.d.size(); ++k) d[k] = i->second.d[k]; return (int)i->second.d.size(); }
int simh5_resize(int h, const char *p, int nd, const size_t *d) { OPEN(h); if (fails("resize", p)) return -1; Set &s = handles[h]->s[norm(p)]; for (int i = 0; i < nd; ++i) if (s.m[i] != SIZE_MAX && d[i] > s.m[i]) return -1; for (int i = 1; i < nd; ++i) if (d[i] != s.d[i]) return -1; s.d.assign(d, d + nd); size_t k = 1; for (auto x : s.d) k *= x; s.v.resize(k, 0); s.w.resize(k, 0); return 0; }
int simh5_write(int h, const char *p, int nd, const size_t *o, const size_t *c, const double *v, size_t n) {
  OPEN(h); if (fails("write", p)) return -1; Set &s = handles[h]->s[norm(p)]; if ((int)s.d.size() != nd) return -1; size_t k = 1;
  for (int i = 0; i < nd; ++i) { if (o[i] + c[i] > s.d[i]) return -1; k *= c[i]; } if (k != n) return -1;
  for (size_t i = 0; i < n; ++i) { size_t r = i, ix = 0, mul = 1; for (int q = nd - 1; q >= 0; --q) { ix += (o[q] + r % c[q]) * mul; r /= c[q]; mul *= s.d[q]; } s.v[ix] = v[i]; s.w[ix]++; }
  return 0; }
int simh5_create_attr(int h, const char *, const char *n) { OPEN(h); if (fails("attr", n)) return -1; if (handles[h]->a.count(n)) return -1; handles[h]->a[n] = ""; return 0; }
int simh5_write_attr(int h, const char *, const char *n, const char *, const char *v, size_t l) { OPEN(h); if (fails("attrwrite", n)) return -1; std::string s(v, l); std::replace(s.begin(), s.end(), '\n', ' '); handles[h]->a[n] = s; return 0; }
}
// ---------------------------------------------------------------- message passing over shared memory
struct Box { std::atomic<size_t> head; std::atomic<size_t> taken; char data[64u << 20]; };
struct Msg { size_t bytes; int tag; std::atomic<int> read; };
static Box *boxes; static std::atomic<int> *bar; static double *red; static bool fin = false;
static Box &box(int s, int d) { return boxes[s * kit_np + d]; }
struct Ty { size_t size; std::vector<int> n; std::vector<MPI_Aint> off; std::vector<int> t; };
static std::vector<Ty> types;
static size_t prim(int t) { switch (t) { case MPI_CHAR: case MPI_BYTE: case MPI_UNSIGNED_CHAR: case MPI_SIGNED_CHAR: case MPI_C_BOOL: return 1; case MPI_SHORT: case MPI_UNSIGNED_SHORT: case MPI_UINT16_T: return 2; case MPI_INT: case MPI_UNSIGNED: case MPI_FLOAT: case MPI_UINT32_T: case MPI_INT32_T: return 4; default: return 8; } }
static size_t tsize(int t) { return t < 1000 ? prim(t) : types[t - 1000].size; }
static void pack(std::string &o, const char *p, int n, int t) { if (t < 1000) { o.append(p, n * prim(t)); return; } Ty &y = types[t - 1000]; for (int i = 0; i < n; ++i) for (size_t k = 0; k < y.n.size(); ++k) pack(o, p + y.off[k], y.n[k], y.t[k]); }
static const char *unpack(const char *s, char *p, int n, int t) { if (t < 1000) { memcpy(p, s, n * prim(t)); return s + n * prim(t); } Ty &y = types[t - 1000]; for (int i = 0; i < n; ++i) for (size_t k = 0; k < y.n.size(); ++k) s = unpack(s, p + y.off[k], y.n[k], y.t[k]); return s; }
static Msg *put(const void *b, int n, int t, int d, int tag) {
  std::string o; pack(o, (const char *)b, n, t); Box &x = box(kit_rank, d); size_t h = x.head, need = (sizeof(Msg) + o.size() + 63) / 64 * 64;
  if (h + need > sizeof x.data) { fprintf(stderr, "kit: mailbox full\n"); abort(); }
  Msg *m = (Msg *)(x.data + h); m->bytes = o.size(); m->tag = tag; m->read = 0; memcpy((char *)(m + 1), o.data(), o.size()); x.head = h + need; return m; }
static Msg *find(int s, int tag) { Box &x = box(s, kit_rank); for (size_t h = 0; h < x.head;) { Msg *m = (Msg *)(x.data + h); if (!m->read && (tag == MPI_ANY_TAG || m->tag == tag)) return m; h += (sizeof(Msg) + m->bytes + 63) / 64 * 64; } return nullptr; }
extern "C" {
int MPI_Init(int *, char ***) { return 0; } int MPI_Init_thread(int *, char ***, int, int *p) { *p = 3; return 0; }
int MPI_Finalize(void) { fin = true; return 0; } int MPI_Initialized(int *f) { *f = 1; return 0; } int MPI_Finalized(int *f) { *f = fin; return 0; }
int MPI_Comm_rank(MPI_Comm, int *r) { *r = kit_rank; return 0; } int MPI_Comm_size(MPI_Comm, int *r) { *r = kit_np; return 0; }
int MPI_Abort(MPI_Comm, int) { kill(0, SIGKILL); abort(); }
int MPI_Barrier(MPI_Comm) { int g = bar[1], a = ++bar[0]; if (a == kit_np) { bar[0] = 0; bar[1]++; } else while (bar[1] == g) sched_yield(); return 0; }
int MPI_Send(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm) { if (d == MPI_PROC_NULL) return 0; Msg *m = put(b, n, t, d, tag); if (getenv("KIT_RENDEZVOUS")) while (!m->read) sched_yield(); return 0; }
int MPI_Isend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm, MPI_Request *r) { *r = 0; if (d != MPI_PROC_NULL) put(b, n, t, d, tag); return 0; }
int MPI_Recv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm, MPI_Status *st) { if (s == MPI_PROC_NULL) { if (st) { st->MPI_SOURCE = s; st->_bytes = 0; } return 0; } Msg *m; while (!(m = find(s, tag))) sched_yield();
  size_t ts = tsize(t); if (m->bytes > n * ts) { fprintf(stderr, "kit: message truncated\n"); abort(); } unpack((const char *)(m + 1), (char *)b, ts ? (int)(m->bytes / ts) : 0, t); if (st) { st->MPI_SOURCE = s; st->MPI_TAG = m->tag; st->_bytes = m->bytes; } m->read = 1; return 0; }
int MPI_Wait(MPI_Request *r, MPI_Status *) { *r = -1; return 0; } int MPI_Waitall(int n, MPI_Request *r, MPI_Status *) { for (int i = 0; i < n; ++i) r[i] = -1; return 0; }
int MPI_Sendrecv(const void *a, int n, MPI_Datatype t, int d, int tag, void *b, int m, MPI_Datatype u, int s, int tg, MPI_Comm c, MPI_Status *st) { if (d != MPI_PROC_NULL) put(a, n, t, d, tag); return MPI_Recv(b, m, u, s, tg, c, st); }
int MPI_Probe(int s, int tag, MPI_Comm, MPI_Status *st) { Msg *m; while (!(m = find(s, tag))) sched_yield(); if (st) { st->MPI_SOURCE = s; st->MPI_TAG = m->tag; st->_bytes = m->bytes; } return 0; }
int MPI_Get_count(const MPI_Status *s, MPI_Datatype t, int *n) { *n = (int)(s->_bytes / tsize(t)); return 0; }
int MPI_Allreduce(const void *a, void *b, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { const void *s = a == MPI_IN_PLACE ? b : a; double v = t == MPI_INT ? *(const int *)s : t == MPI_DOUBLE ? *(const double *)s : (double)*(const unsigned char *)s; (void)n; red[kit_rank] = v; MPI_Barrier(c); double r = red[0]; for (int i = 1; i < kit_np; ++i) r = op == MPI_MAX ? std::max(r, red[i]) : op == MPI_MIN ? std::min(r, red[i]) : op == MPI_SUM ? r + red[i] : (double)(r || red[i]); MPI_Barrier(c); if (t == MPI_INT) *(int *)b = (int)r; else if (t == MPI_DOUBLE) *(double *)b = r; else *(unsigned char *)b = (unsigned char)r; return 0; }
int MPI_Type_create_struct(int n, const int *l, const MPI_Aint *o, const MPI_Datatype *t, MPI_Datatype *r) { Ty y; y.size = 0; for (int i = 0; i < n; ++i) { y.n.push_back(l[i]); y.off.push_back(o[i]); y.t.push_back(t[i]); y.size += l[i] * tsize(t[i]); } types.push_back(y); *r = 1000 + (int)types.size() - 1; return 0; }
int MPI_Type_commit(MPI_Datatype *) { return 0; } int MPI_Type_free(MPI_Datatype *) { return 0; } int MPI_Get_address(const void *p, MPI_Aint *a) { *a = (MPI_Aint)p; return 0; }
}
// the program takes as many threads as there are processors
extern "C" int omp_get_num_procs() { const char *e = getenv("OMP_NUM_THREADS"); return e ? atoi(e) : 4; }
extern "C" unsigned __wrap__ZNSt13random_device9_M_getvalEv(void *) { static std::atomic<unsigned> n{0}; return 12345 + 7919 * kit_rank + 104729 * n++; }
extern int picopic_main(int, char **);
int main(int argc, char **argv) {
  kit_np = getenv("KIT_NP") ? atoi(getenv("KIT_NP")) : 1; alarm(getenv("KIT_ALARM") ? atoi(getenv("KIT_ALARM")) : 120);
  if (kit_np == 1) { boxes = nullptr; }
  boxes = (Box *)mmap(nullptr, sizeof(Box) * kit_np * kit_np, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  bar = (std::atomic<int> *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); red = (double *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (kit_np == 1) { int c = picopic_main(argc, argv); return demo_end(c); }
  std::vector<pid_t> ps; for (int i = 0; i < kit_np; ++i) { pid_t p = fork(); if (!p) { kit_rank = i; alarm(getenv("KIT_ALARM") ? atoi(getenv("KIT_ALARM")) : 120); int c = picopic_main(argc, argv); exit(demo_end(c)); } ps.push_back(p); }
  int rc = 0; for (auto p : ps) { int st; waitpid(p, &st, 0); if (st) rc = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st); }
  return rc;
}
