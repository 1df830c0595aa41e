// Simulated message passing: point-to-point with MPI ordering rules, standard sends that may or may not
// be buffered (a seeded choice per message), barriers and reductions.
#include "sched.hpp"
#include "../stubs/mpi.h"
extern "C" void *sim_memcheck(const void *p, size_t n, int w);
struct Seg { long off; size_t len; };
struct DType { std::vector<Seg> seg; long extent = 0; bool committed = true, freed = false; };
static std::vector<DType> dtypes;
static size_t psize(int t) {
  switch (t) {
    case MPI_CHAR: case MPI_BYTE: case MPI_UNSIGNED_CHAR: case MPI_SIGNED_CHAR: case MPI_C_BOOL: return 1;
    case MPI_SHORT: case MPI_UNSIGNED_SHORT: case MPI_UINT16_T: return 2;
    case MPI_INT: case MPI_UNSIGNED: case MPI_FLOAT: case MPI_UINT32_T: case MPI_INT32_T: return 4;
    case MPI_LONG_DOUBLE: return 16;
    default: return 8;
  }
}
static const DType &dt(int t, bool need_commit = true) {
  static std::map<int, DType> pre;
  if (t > 0 && t < MPI_LAST_PREDEF) { DType &d = pre[t]; if (d.seg.empty()) { d.seg = {{0, psize(t)}}; d.extent = (long)psize(t); } return d; }
  int k = t - 1000;
  if (k < 0 || k >= (int)dtypes.size()) violation("mpi:invalid-datatype", "message passing call with an invalid datatype");
  if (dtypes[k].freed) violation("mpi:invalid-datatype", "message passing call with a datatype that was freed");
  if (need_commit && !dtypes[k].committed) violation("mpi:invalid-datatype", "message passing call with an uncommitted datatype");
  return dtypes[k];
}
static size_t tsize(const DType &d) { size_t n = 0; for (auto &s : d.seg) n += s.len; return n; }
static std::string pack(const void *b, int cnt, const DType &d) {
  std::string o;
  for (int c = 0; c < cnt; ++c) for (auto &s : d.seg) { const char *p = (const char *)b + c * d.extent + s.off; sim_memcheck(p, s.len, 0); o.append(p, s.len); }
  return o;
}
static void unpack(void *b, int cnt, const DType &d, const std::string &m) {
  size_t k = 0;
  for (int c = 0; c < cnt && k < m.size(); ++c) for (auto &s : d.seg) {
    char *p = (char *)b + c * d.extent + s.off; size_t n = std::min(s.len, m.size() - k); if (!n) return;
    sim_memcheck(p, n, 1); memcpy(p, m.data() + k, n); k += n;
  }
}
struct Req { bool used = false, done = false, send = false, sync = false; Rank *r = nullptr, *peer_rank = nullptr; void *buf = nullptr; int cnt = 0, type = 0, peer = 0, tag = 0; std::string data; bool packed = false; MPI_Status st{}; u64 id = 0; bool matched = false; };
static std::deque<Req> reqs;                 // stable references
static int new_req() { for (size_t i = 0; i < reqs.size(); ++i) if (!reqs[i].used) { reqs[i] = Req(); reqs[i].used = true; return (int)i; } reqs.emplace_back(); reqs.back().used = true; return (int)reqs.size() - 1; }
static std::map<Rank *, std::deque<int>> posted, unexpected;   // request indices, in order
struct MQuiet { bool m; MQuiet() : m(mem_active) { } };
static Rank *peer(Rank *r, int id) { for (auto q : ranks) if (q->group == r->group && q->id == id) return q; violation("mpi:invalid-rank", "message passing call names process %d of %d", id, r->size); }
static void check_init(const char *what) { Rank *r = cur->rank; if (!r->inited || r->finalized) violation("mpi:outside-session", "%s called outside the message passing session", what); }
static bool match(const Req &rv, const Req &sd) { return (rv.peer == MPI_ANY_SOURCE || rv.peer == sd.r->id) && (rv.tag == MPI_ANY_TAG || rv.tag == sd.tag); }
static void complete(Req &rv, Req &sd) {
  if (!sd.packed) { sd.data = pack(sd.buf, sd.cnt, dt(sd.type)); sd.packed = true; }
  const DType &d = dt(rv.type);
  if (sd.data.size() > tsize(d) * (size_t)rv.cnt) violation("mpi:truncated", "message of %zu bytes received into a buffer of %zu bytes", sd.data.size(), tsize(d) * (size_t)rv.cnt);
  Fiber *save = cur; (void)save;
  unpack(rv.buf, rv.cnt, d, sd.data);
  rv.st.MPI_SOURCE = sd.r->id; rv.st.MPI_TAG = sd.tag; rv.st.MPI_ERROR = 0; rv.st._bytes = sd.data.size();
  rv.done = true; sd.done = true; sd.matched = true;
  tr(mix(0x3E55, mix(sd.r->id * 64 + rv.r->id, hstr(std::to_string(sd.data.size()).c_str()))));
  u64 h = 1; for (unsigned char c : sd.data) h = h * 1099511628211ull ^ c; tr(h);
}
static int isend(const void *b, int cnt, int type, int dst, int tag, int mode) {      // mode 0 standard, 1 synchronous, 2 buffered
  Rank *r = cur->rank; dt(type);
  int ix = new_req(); Req &q = reqs[ix];
  q.send = true; q.r = r; q.buf = (void *)b; q.cnt = cnt; q.type = type; q.peer = dst; q.tag = tag;
  if (dst == MPI_PROC_NULL) { q.done = true; return ix; }
  Rank *d = peer(r, dst); q.peer_rank = d;
  if (tag < 0) violation("mpi:invalid-argument", "negative message tag");
  R->msgs++;
  bool rdv = mode == 1 || (mode == 0 && dec_bool(2, P.n("rendezvous", 0)));
  if (rdv) R->faults_fired[F_RENDEZVOUS]++, R->rendezvous++;
  else { q.data = pack(b, cnt, dt(type)); q.packed = true; q.done = true; }
  q.sync = rdv;
  auto &pq = posted[d];
  for (size_t i = 0; i < pq.size(); ++i) if (match(reqs[pq[i]], q)) { int k = pq[i]; pq.erase(pq.begin() + i); complete(reqs[k], q); return ix; }
  // parked at the receiver; a private copy keeps eager sends alive after the request is gone
  int px = ix;
  if (!rdv) { px = new_req(); reqs[px] = reqs[ix]; reqs[px].used = true; }
  unexpected[d].push_back(px);
  return ix;
}
static int irecv(void *b, int cnt, int type, int src, int tag) {
  Rank *r = cur->rank; dt(type);
  int ix = new_req(); Req &q = reqs[ix]; q.r = r; q.buf = b; q.cnt = cnt; q.type = type; q.peer = src; q.tag = tag;
  if (src == MPI_PROC_NULL) { q.done = true; q.st.MPI_SOURCE = src; return ix; }
  if (src != MPI_ANY_SOURCE) peer(r, src);
  auto &uq = unexpected[r];
  for (size_t i = 0; i < uq.size(); ++i) if (match(q, reqs[uq[i]])) { int k = uq[i]; uq.erase(uq.begin() + i); complete(q, reqs[k]); if (!reqs[k].sync) reqs[k].used = false; return ix; }
  posted[r].push_back(ix);
  return ix;
}
static void wait_req(int ix, MPI_Status *st, const char *why) {
  Req *q = &reqs[ix];
  block_until([q] { return q->done; }, why);
  if (st) *st = q->st;
  q->used = false;
}
struct CollState { int n = 0, left = 0; bool done = false; std::vector<std::string> in; std::string out; std::string sig; };
static std::map<std::pair<int, u64>, CollState> mcoll; static std::map<Rank *, u64> mseq;
static CollState *coll(const std::string &sig, const std::string &mine) {
  Rank *r = cur->rank; auto key = std::make_pair(r->group, mseq[r]++);
  CollState *c = &mcoll[key];
  if (!c->n) { c->sig = sig; c->in.resize(r->size); }
  else if (c->sig != sig) violation("mpi:collective-mismatch", "processes are in different collective calls: %s versus %s", c->sig.c_str(), sig.c_str());
  c->in[r->id] = mine;
  if (++c->n == r->size) c->done = true;
  else block_until([c] { return c->done; }, sig.c_str());
  return c;
}
template <class T> static void red(std::string &a, const std::string &b, int op) {
  T *x = (T *)&a[0]; const T *y = (const T *)b.data();
  for (size_t i = 0; i < a.size() / sizeof(T); ++i) x[i] = op == MPI_SUM ? x[i] + y[i] : op == MPI_MAX ? std::max(x[i], y[i]) : op == MPI_MIN ? std::min(x[i], y[i]) : op == MPI_PROD ? x[i] * y[i] : op == MPI_LAND ? (T)(x[i] && y[i]) : op == MPI_LOR ? (T)(x[i] || y[i]) : x[i];
}
static std::string reduce_all(CollState *c, int type, int op) {
  std::string a = c->in[0];
  for (size_t k = 1; k < c->in.size(); ++k) {
    const std::string &b = c->in[k];
    switch (type) { case MPI_DOUBLE: red<double>(a, b, op); break; case MPI_FLOAT: red<float>(a, b, op); break; case MPI_INT: case MPI_INT32_T: red<int>(a, b, op); break;
      case MPI_UNSIGNED: case MPI_UINT32_T: red<unsigned>(a, b, op); break; case MPI_UNSIGNED_LONG: case MPI_UNSIGNED_LONG_LONG: case MPI_UINT64_T: red<u64>(a, b, op); break;
      case MPI_C_BOOL: case MPI_UNSIGNED_CHAR: red<u8>(a, b, op); break; default: red<int64_t>(a, b, op); } }
  return a;
}
#define IN(n) check_init(n); yield_rank(n)
extern "C" {
int MPI_Init(int *, char ***) { Rank *r = cur->rank; r->inited = true; yield_rank("MPI_Init"); return 0; }
int MPI_Init_thread(int *a, char ***b, int want, int *got) { if (got) *got = want; return MPI_Init(a, b); }
int MPI_Finalize(void) {
  IN("MPI_Finalize");
  coll("MPI_Finalize", "");
  Rank *r = cur->rank;
  for (int k : unexpected[r]) violation("mpi:unreceived-message", "a message from process %d (tag %d, %zu bytes) was never received", reqs[k].r->id, reqs[k].tag, reqs[k].data.size());
  if (!posted[r].empty()) violation("mpi:unmatched-receive", "a posted receive was never matched");
  for (auto &q : reqs) if (q.used && q.r == r && q.send && q.sync && !q.done) violation("mpi:unreceived-message", "a synchronous send was never completed");
  r->finalized = true; return 0;
}
int MPI_Initialized(int *f) { *f = cur->rank->inited; return 0; }
int MPI_Finalized(int *f) { *f = cur->rank->finalized; return 0; }
int MPI_Comm_rank(MPI_Comm, int *n) { check_init("MPI_Comm_rank"); *n = cur->rank->id; return 0; }
int MPI_Comm_size(MPI_Comm, int *n) { check_init("MPI_Comm_size"); *n = cur->rank->size; return 0; }
int MPI_Abort(MPI_Comm, int c) { tr("MPI_Abort"); rank_die(c & 0xff ? c & 0xff : 1, false); }
int MPI_Barrier(MPI_Comm) { IN("MPI_Barrier"); coll("MPI_Barrier", ""); return 0; }
int MPI_Send(const void *b, int n, MPI_Datatype t, int d, int g, MPI_Comm) { IN("MPI_Send"); wait_req(isend(b, n, t, d, g, 0), nullptr, "MPI_Send"); return 0; }
int MPI_Ssend(const void *b, int n, MPI_Datatype t, int d, int g, MPI_Comm) { IN("MPI_Ssend"); wait_req(isend(b, n, t, d, g, 1), nullptr, "MPI_Ssend"); return 0; }
int MPI_Rsend(const void *b, int n, MPI_Datatype t, int d, int g, MPI_Comm) { IN("MPI_Rsend"); wait_req(isend(b, n, t, d, g, 0), nullptr, "MPI_Rsend"); return 0; }
int MPI_Bsend(const void *b, int n, MPI_Datatype t, int d, int g, MPI_Comm) { IN("MPI_Bsend"); wait_req(isend(b, n, t, d, g, 2), nullptr, "MPI_Bsend"); return 0; }
int MPI_Buffer_attach(void *, int) { return 0; }
int MPI_Buffer_detach(void *b, int *n) { *(void **)b = nullptr; *n = 0; return 0; }
int MPI_Recv(void *b, int n, MPI_Datatype t, int s, int g, MPI_Comm, MPI_Status *st) { IN("MPI_Recv"); wait_req(irecv(b, n, t, s, g), st, "MPI_Recv"); return 0; }
int MPI_Isend(const void *b, int n, MPI_Datatype t, int d, int g, MPI_Comm, MPI_Request *q) { IN("MPI_Isend"); *q = isend(b, n, t, d, g, 0); return 0; }
int MPI_Issend(const void *b, int n, MPI_Datatype t, int d, int g, MPI_Comm, MPI_Request *q) { IN("MPI_Issend"); *q = isend(b, n, t, d, g, 1); return 0; }
int MPI_Irecv(void *b, int n, MPI_Datatype t, int s, int g, MPI_Comm, MPI_Request *q) { IN("MPI_Irecv"); *q = irecv(b, n, t, s, g); return 0; }
int MPI_Wait(MPI_Request *q, MPI_Status *st) { IN("MPI_Wait"); if (*q >= 0) wait_req(*q, st, "MPI_Wait"); *q = MPI_REQUEST_NULL; return 0; }
int MPI_Waitall(int n, MPI_Request *q, MPI_Status *st) { for (int i = 0; i < n; ++i) MPI_Wait(q + i, st ? st + i : nullptr); return 0; }
int MPI_Test(MPI_Request *q, int *f, MPI_Status *st) { IN("MPI_Test"); *f = 0; if (*q < 0) { *f = 1; return 0; } if (reqs[*q].done) { *f = 1; if (st) *st = reqs[*q].st; reqs[*q].used = false; *q = MPI_REQUEST_NULL; } return 0; }
int MPI_Request_free(MPI_Request *q) { *q = MPI_REQUEST_NULL; return 0; }
int MPI_Sendrecv(const void *sb, int sn, MPI_Datatype stp, int d, int sg, void *rb, int rn, MPI_Datatype rt, int s, int rg, MPI_Comm, MPI_Status *st) {
  IN("MPI_Sendrecv"); int r = irecv(rb, rn, rt, s, rg), q = isend(sb, sn, stp, d, sg, 0);
  wait_req(q, nullptr, "MPI_Sendrecv(send)"); wait_req(r, st, "MPI_Sendrecv(recv)"); return 0; }
static int find_msg(int s, int g) { Req q; q.peer = s; q.tag = g; for (int k : unexpected[cur->rank]) if (match(q, reqs[k])) return k; return -1; }
static void fill(int k, MPI_Status *st) { if (!st) return; Req &q = reqs[k]; st->MPI_SOURCE = q.r->id; st->MPI_TAG = q.tag; st->MPI_ERROR = 0; st->_bytes = q.packed ? q.data.size() : tsize(dt(q.type)) * q.cnt; }
int MPI_Probe(int s, int g, MPI_Comm, MPI_Status *st) { IN("MPI_Probe"); block_until([s, g] { return find_msg(s, g) >= 0; }, "MPI_Probe"); fill(find_msg(s, g), st); return 0; }
int MPI_Iprobe(int s, int g, MPI_Comm, int *f, MPI_Status *st) { IN("MPI_Iprobe"); int k = find_msg(s, g); *f = k >= 0; if (k >= 0) fill(k, st); return 0; }
int MPI_Get_count(const MPI_Status *st, MPI_Datatype t, int *n) { size_t z = tsize(dt(t)); *n = z && st->_bytes % z == 0 ? (int)(st->_bytes / z) : MPI_UNDEFINED; return 0; }
int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm) {
  IN("MPI_Bcast"); Rank *r = cur->rank; CollState *c = coll("MPI_Bcast root " + std::to_string(root), r->id == root ? pack(b, n, dt(t)) : "");
  if (r->id != root) unpack(b, n, dt(t), c->in[root]); return 0; }
int MPI_Allreduce(const void *s, void *d, int n, MPI_Datatype t, MPI_Op op, MPI_Comm) {
  IN("MPI_Allreduce"); CollState *c = coll("MPI_Allreduce", pack(s == MPI_IN_PLACE ? d : s, n, dt(t))); unpack(d, n, dt(t), reduce_all(c, t, op)); return 0; }
int MPI_Reduce(const void *s, void *d, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm) {
  IN("MPI_Reduce"); CollState *c = coll("MPI_Reduce", pack(s == MPI_IN_PLACE ? d : s, n, dt(t))); if (cur->rank->id == root) unpack(d, n, dt(t), reduce_all(c, t, op)); return 0; }
int MPI_Type_create_struct(int n, const int *bl, const MPI_Aint *of, const MPI_Datatype *ty, MPI_Datatype *out) {
  DType d; d.committed = false; long hi = 0, al = 1;
  for (int i = 0; i < n; ++i) { DType e = dt(ty[i], false); for (int k = 0; k < bl[i]; ++k) for (auto &s : e.seg) { d.seg.push_back({of[i] + k * e.extent + s.off, s.len}); hi = std::max(hi, (long)(of[i] + k * e.extent + s.off + (long)s.len)); al = std::max(al, std::min(8L, e.extent)); } }
  d.extent = (hi + al - 1) / al * al;
  dtypes.push_back(d); *out = 1000 + (int)dtypes.size() - 1; return 0; }
int MPI_Type_contiguous(int n, MPI_Datatype t, MPI_Datatype *out) { MPI_Aint z = 0; return MPI_Type_create_struct(1, &n, &z, &t, out); }
int MPI_Type_create_resized(MPI_Datatype t, MPI_Aint, MPI_Aint ext, MPI_Datatype *out) { DType d = dt(t, false); d.extent = ext; d.committed = false; dtypes.push_back(d); *out = 1000 + (int)dtypes.size() - 1; return 0; }
int MPI_Type_commit(MPI_Datatype *t) { dt(*t, false); if (*t >= 1000) dtypes[*t - 1000].committed = true; return 0; }
int MPI_Type_free(MPI_Datatype *t) { dt(*t, false); if (*t >= 1000) { /* pending operations keep the type alive */ } *t = MPI_DATATYPE_NULL; return 0; }
int MPI_Type_size(MPI_Datatype t, int *n) { *n = (int)tsize(dt(t, false)); return 0; }
int MPI_Get_address(const void *p, MPI_Aint *a) { *a = (MPI_Aint)p; return 0; }
int MPI_Error_string(int e, char *s, int *n) { *n = sprintf(s, "error %d", e); return 0; }
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0; }
double MPI_Wtime(void) { return sim_now; }
}
