#include "h5.hpp"
#include "sched.hpp"
#include <errno.h>
std::map<std::string, H5File> disk;
std::vector<H5Write> h5_writes;
std::vector<H5Op> h5_fail_log;
std::set<std::string> dirs;
u64 h5_opno = 0;
static u64 seqno = 0;
struct Handle { H5File *f = nullptr; bool open = false, rw = false, mpio = false; int group = 0; std::vector<Rank *> owners; u64 coll = 0; int refs = 0; };
static std::vector<Handle> handles;
std::string disk_key(int group, const std::string &p) { return std::to_string(group) + ":" + p; }
bool h5_open_by(Rank *r) { for (auto &h : handles) if (h.open && std::find(h.owners.begin(), h.owners.end(), r) != h.owners.end()) return true; return false; }
u64 h5_hash(const H5File &f, bool wa) {
  u64 h = 7;
  for (auto &g : f.groups) h = mix(h, hstr(g.c_str()));
  for (auto &s : f.sets) { h = mix(h, hstr(s.first.c_str())); for (auto d : s.second.dims) h = mix(h, d); for (auto v : s.second.data) h = mix(h, dbits(v)); }
  if (wa) for (auto &a : f.attrs) h = mix(h, mix(hstr(a.first.c_str()), hstr(a.second.second.c_str())));
  return h;
}
// --- one storage call: not re-entrant, possible signal inside, possible injected failure
struct Op {
  bool fail = false; Rank *r;
  Op(const char *kind, const char *path, bool mutating, FaultId fid) : r(cur->rank) {
    bool ma = mem_active; mem_active = false;
    if (r->h5_busy) violation("store:reentered", "storage call %s(%s) entered while this process is already inside storage call %s", kind, path, r->h5_op.c_str());
    r->h5_busy = 1; r->h5_op = kind; r->h5_op += " "; r->h5_op += path;
    ++R->h5ops; tr(kind); tr(path);
    if (mutating && r->group == 0 && !serial_mode) {
      ++h5_opno; R->h5_mut = h5_opno;
      for (auto &f : P.faults)
        if ((f.kind == "h5_error" && f.at == h5_opno) || (f.kind == "h5_full" && f.at <= h5_opno && (f.arg == 0 || h5_opno < f.at + (u64)f.arg))) fail = true;
      if (fail) { R->faults_fired[fid]++; h5_fail_log.push_back({kind, path, r->id, true}); tr("fail"); }
    }
    mem_active = ma;
    storage_point(0);
    check_h5_kill();
  }
  void check_h5_kill() {
    if (serial_mode || r->group) return;
    for (auto &f : P.faults) if (f.kind == "kill_store" && f.at == R->h5ops) { R->faults_fired[F_RESTART]++; rank_die(137, false); }
  }
  ~Op() { storage_point(1); r->h5_busy = 0; }
};
static Handle *hd(int h) { if (h < 0 || h >= (int)handles.size()) return nullptr; return &handles[h]; }
static Handle *live(int h, const char *what, const char *path) {
  Handle *H = hd(h);
  if (!H || !H->open || H->refs <= 0) violation("store:use-after-close", "%s(%s) through a handle whose file has been closed", what, path);
  return H;
}
// --- collective calls on files opened by several processes together
struct Coll { int arrived = 0, left = 0; bool done = false; int result = 0; std::string sig; };
static std::map<std::pair<int, u64>, Coll> colls;     // (group, sequence)
static int collective(Rank *r, bool mpio, const std::string &sig, std::function<int()> fn) {
  if (!mpio || r->size < 2) return fn();
  auto key = std::make_pair(r->group, r->coll_seq++);
  Coll *c = &colls[key];
  if (c->arrived == 0) c->sig = sig;
  else if (c->sig != sig) violation("store:collective-mismatch", "processes issue different collective storage calls: %s versus %s", c->sig.c_str(), sig.c_str());
  if (++c->arrived == r->size) { c->result = fn(); c->done = true; }
  else block_until([c] { return c->done; }, "collective storage call");
  return c->result;
}
void h5_process_end(Rank *r, bool graceful) {
  if (r->h5_busy && graceful && !job_abort[r->group])
    violation("store:exit-inside-operation", "process terminated from inside storage call %s", r->h5_op.c_str());
  for (auto &h : handles) {
    auto it = std::find(h.owners.begin(), h.owners.end(), r);
    if (!h.open || it == h.owners.end()) continue;
    h.owners.erase(it);
    h.f->opens--; h.refs--;
    if (!graceful) h.f->unclean = true;     // exit() closes files from the library's own exit hook
    if (h.refs <= 0) h.open = false;
  }
}
static std::string norm(const char *p) { std::string s(p); while (s.size() > 1 && s[0] == '/') s.erase(0, 1); while (s.size() > 1 && s.back() == '/') s.pop_back(); std::string o; for (char c : s) if (!(c == '/' && !o.empty() && o.back() == '/')) o += c; return o; }
static bool parents_ok(const std::string &p) { size_t k = p.find_last_of('/'); if (k == std::string::npos) return true; std::string d = p.substr(0, k); while (d.size() > 1 && d.back() == '.') break; return dirs.count(d) || d == "." || d.empty(); }
static void add_groups(H5File *f, const std::string &p, bool self) {
  for (size_t k = p.find('/'); k != std::string::npos; k = p.find('/', k + 1)) f->groups.insert(p.substr(0, k));
  if (self) f->groups.insert(p);
}
static int open_handle(Rank *r, H5File *f, bool rw, bool mpio) {
  Handle h; h.f = f; h.open = true; h.rw = rw; h.mpio = mpio; h.group = r->group;
  if (mpio) { for (auto q : ranks) if (q->group == r->group && !q->exited) h.owners.push_back(q); } else h.owners.push_back(r);
  h.refs = (int)h.owners.size(); f->opens += h.refs;
  handles.push_back(h); return (int)handles.size() - 1;
}
#define QUIET struct Q_ { bool m = mem_active; Q_() { mem_active = false; } ~Q_() { mem_active = m; } } q_;
extern "C" {
int simh5_create(const char *path, int excl, int trunc, int mpio) {
  Op op("create-file", path, true, F_H5_CREATE); QUIET Rank *r = cur->rank;
  return collective(r, mpio, std::string("create ") + path, [&]() -> int {
    if (op.fail) return -1;
    std::string k = disk_key(r->group, path);
    if (!parents_ok(path)) return -1;
    if (disk.count(k)) {
      if (excl) return -1;
      if (disk[k].opens) return -1;
      if (trunc) disk[k] = H5File();
    }
    H5File &f = disk[k]; f.path = path; f.created_seq = ++seqno; f.dirty = true;
    return open_handle(r, &f, true, mpio);
  });
}
int simh5_open(const char *path, int rw, int mpio) {
  Op op("open-file", path, true, F_H5_OPEN); QUIET Rank *r = cur->rank;
  return collective(r, mpio, std::string("open ") + path, [&]() -> int {
    if (op.fail) return -1;
    std::string k = disk_key(r->group, path);
    auto i = disk.find(k);
    if (i == disk.end() || i->second.unclean) return -1;
    if (i->second.opens && !mpio) return -1;       // locked by another handle
    return open_handle(r, &i->second, rw, mpio);
  });
}
void simh5_close(int h) {
  Op op("close-file", "", true, F_H5_CLOSE); QUIET Rank *r = cur->rank;
  Handle *H = live(h, "close", "");
  if (std::find(H->owners.begin(), H->owners.end(), r) == H->owners.end()) violation("store:use-after-close", "file closed twice by the same process");
  // closing a file that several processes opened together is collective: it ends when all of them have called it
  bool fail = op.fail;
  collective(r, H->mpio, "close", [&]() -> int { return 0; });
  H = hd(h); auto it = std::find(H->owners.begin(), H->owners.end(), r);
  H->owners.erase(it); H->refs--; H->f->opens--;
  if (fail && H->f->dirty) H->f->unclean = true;      // the cache could not be written out
  if (H->refs <= 0) { H->open = false; H->f->dirty = false; }
  ++seqno;
}
int simh5_exist(int h, const char *path) { Op op("exists", path, false, F_H5_OPEN); QUIET Handle *H = live(h, "exists", path); std::string p = norm(path); if (p == "/") return 1; return H->f->groups.count(p) || H->f->sets.count(p); }
int simh5_create_group(int h, const char *path) {
  Op op("create-group", path, true, F_H5_GROUP); QUIET Handle *H = live(h, "create-group", path);
  return collective(cur->rank, H->mpio, std::string("group ") + path, [&]() -> int {
    std::string p = norm(path);
    if (op.fail || !H->rw || H->f->groups.count(p) || H->f->sets.count(p)) return -1;
    add_groups(H->f, p, true); H->f->dirty = true; return 0; });
}
int simh5_open_group(int h, const char *path) { Op op("open-group", path, true, F_H5_OPEN); QUIET Handle *H = live(h, "open-group", path); if (op.fail) return -1; std::string p = norm(path); return p == "/" || H->f->groups.count(p) ? 0 : -1; }
int simh5_create_dataset(int h, const char *path, int nd, const size_t *dims, const size_t *maxd, const size_t *chunk) {
  Op op("create-dataset", path, true, F_H5_DSET); QUIET Handle *H = live(h, "create-dataset", path);
  std::string sig = std::string("dataset ") + path; for (int i = 0; i < nd; ++i) sig += " " + std::to_string(dims[i]);
  return collective(cur->rank, H->mpio, sig, [&]() -> int {
    std::string p = norm(path);
    if (op.fail || !H->rw || H->f->sets.count(p) || H->f->groups.count(p)) return -1;
    H5Set s; size_t n = 1; bool ext = false;
    for (int i = 0; i < nd; ++i) { if (!chunk[i]) return -1; s.dims.push_back(dims[i]); s.maxd.push_back(maxd[i]); s.chunk.push_back(chunk[i]); n *= dims[i]; if (maxd[i] != dims[i]) ext = true; }
    (void)ext; if (n > 50000000) return -1;
    s.data.assign(n, 0.); s.wc.assign(n, 0);
    add_groups(H->f, p, false); H->f->sets[p] = s; H->f->dirty = true; return 0; });
}
int simh5_open_dataset(int h, const char *path) { Op op("open-dataset", path, true, F_H5_OPEN); QUIET Handle *H = live(h, "open-dataset", path); if (op.fail) return -1; return H->f->sets.count(norm(path)) ? 0 : -1; }
int simh5_dims(int h, const char *path, size_t *d) { Op op("dims", path, true, F_H5_OPEN); QUIET Handle *H = live(h, "dims", path); if (op.fail) return -1; auto i = H->f->sets.find(norm(path)); if (i == H->f->sets.end()) return -1; for (size_t k = 0; k < i->second.dims.size(); ++k) d[k] = i->second.dims[k]; return (int)i->second.dims.size(); }
int simh5_resize(int h, const char *path, int nd, const size_t *d) {
  Op op("resize", path, true, F_H5_RESIZE); QUIET Handle *H = live(h, "resize", path);
  std::string sig = std::string("resize ") + path; for (int i = 0; i < nd; ++i) sig += " " + std::to_string(d[i]);
  return collective(cur->rank, H->mpio, sig, [&]() -> int {
    auto i = H->f->sets.find(norm(path));
    if (op.fail || !H->rw || i == H->f->sets.end()) return -1;
    H5Set &s = i->second; if ((int)s.dims.size() != nd) return -1;
    for (int k = 0; k < nd; ++k) if (s.maxd[k] != SIZE_MAX && d[k] > s.maxd[k]) return -1;
    for (int k = 1; k < nd; ++k) if (d[k] != s.dims[k]) return -1;   // only the frame axis changes in this model
    size_t n = 1; for (int k = 0; k < nd; ++k) n *= d[k];
    s.dims.assign(d, d + nd); s.data.resize(n, 0.); s.wc.resize(n, 0); ++seqno; H->f->dirty = true; return 0; });
}
int simh5_write(int h, const char *path, int nd, const size_t *off, const size_t *cnt, const double *data, size_t nn) {
  Op op("write", path, true, F_H5_WRITE); QUIET Handle *H = live(h, "write", path); Rank *r = cur->rank;
  H5Write w; w.seq = ++seqno; w.step = r->step; w.rank = r->id; w.group = r->group; w.path = norm(path); w.off.assign(off, off + nd); w.cnt.assign(cnt, cnt + nd); w.ok = false;
  auto i = H->f->sets.find(norm(path));
  bool good = !op.fail && H->rw && i != H->f->sets.end() && (int)i->second.dims.size() == nd;
  if (good) for (int k = 0; k < nd; ++k) if (off[k] + cnt[k] > i->second.dims[k]) good = false;
  size_t n = 1; for (int k = 0; k < nd; ++k) n *= cnt[k];
  if (n != nn) good = false;
  bool torn = false;
  if (op.fail && i != H->f->sets.end() && (int)i->second.dims.size() == nd && P.n("torn", 0) > 0) { torn = true; for (int k = 0; k < nd; ++k) if (off[k] + cnt[k] > i->second.dims[k]) torn = false; }
  if (good || torn) {
    H->f->dirty = true;
    H5Set &s = i->second; std::vector<size_t> ix(nd, 0);
    size_t lim = torn ? n / 2 : n; if (torn) R->faults_fired[F_H5_TORN]++;
    for (size_t e = 0; e < lim; ++e) {
      size_t lin = 0; for (int k = 0; k < nd; ++k) lin = lin * s.dims[k] + off[k] + ix[k];
      s.data[lin] = data[e]; if (s.wc[lin] < 65535) s.wc[lin]++;
      for (int k = nd - 1; k >= 0; --k) { if (++ix[k] < cnt[k]) break; ix[k] = 0; }
      if (e == n / 2) storage_point(2);
    }
  }
  w.ok = good; h5_writes.push_back(w); if (good) R->frames++;
  for (size_t e = 0; e < nn; e += 1 + nn / 16) tr(dbits(data[e]));
  return good ? 0 : -1;
}
int simh5_create_attr(int h, const char *path, const char *name) {
  Op op("create-attr", name, true, F_H5_ATTR); QUIET Handle *H = live(h, "create-attr", name); (void)path;
  return collective(cur->rank, H->mpio, std::string("attr ") + name, [&]() -> int { if (op.fail || !H->rw || H->f->attrs.count(name)) return -1; H->f->attrs[name]; H->f->dirty = true; return 0; });
}
int simh5_write_attr(int h, const char *, const char *name, const char *type, const char *v, size_t n) {
  Op op("write-attr", name, true, F_H5_ATTR); QUIET Handle *H = live(h, "write-attr", name);
  std::string val(v, n);
  return collective(cur->rank, H->mpio, std::string("wattr ") + name, [&]() -> int { if (op.fail || !H->rw || !H->f->attrs.count(name)) return -1; H->f->attrs[name] = {type, val}; H->f->dirty = true; return 0; });
}
int simh5_flush(int h) {
  Op op("flush", "", true, F_H5_FLUSH); QUIET Handle *H = live(h, "flush", "");
  return collective(cur->rank, H->mpio, "flush", [&]() -> int { if (op.fail) return -1; hd(h)->f->dirty = false; return 0; });
}
// --- directories
static std::string dnorm(const char *p) { std::string s(p); while (s.size() > 1 && s.back() == '/') s.pop_back(); return s; }
int sim_mkdir(const char *path, unsigned) {
  QUIET tr("mkdir"); std::string p = dnorm(path);
  if (!serial_mode) for (auto &f : P.faults) if (f.kind == "mkdir") { R->faults_fired[F_MKDIR]++; errno = f.arg ? (int)f.arg : EACCES; return -1; }
  if (p.empty() || p == "." || p == "/" || dirs.count(p)) { errno = EEXIST; return -1; }
  size_t k = p.find_last_of('/');
  if (k != std::string::npos && k > 0) { std::string d = p.substr(0, k); if (d != "." && !dirs.count(d)) { errno = ENOENT; return -1; } }
  dirs.insert(p); return 0;
}
int sim_stat_isdir(const char *path) { std::string p = dnorm(path); if (p == "." || p == "/" || dirs.count(p)) return 1; if (disk.count(disk_key(cur->rank->group, p))) return -1; return 0; }
}
