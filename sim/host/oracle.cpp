// Invariants evaluated at the phase boundaries of the main loop and over the recorded history.
#include "oracle.hpp"
#include "sched.hpp"
#include "h5.hpp"
#include "scen.hpp"
#include "model.hpp"
#include <unordered_map>
#include <unordered_set>
static const char *PN[] = {"setup", "distribution", "step start", "injection", "field solution", "particle advance", "current deposition", "output", "step end", "end"};
struct Quiet { bool m; Quiet() : m(mem_active) { mem_active = false; } ~Quiet() { mem_active = m; } };
static bool chk(const char *k) { return P.n(k) > 0; }
// ---------------------------------------------------------------- logging
static int log_cut = 0;
extern "C" int sim_log_cutoff(void) { return log_cut; }
extern "C" void sim_log(int level, const char *file, int line, const char *msg) {
  Quiet q; (void)file; (void)line;
  Rank *r = cur->rank; if (!r) return;
  if (level == -3) { r->fatal_logs++; r->last_fatal = msg; tr("FATAL"); }
  else if (level == -2) { r->error_logs++; r->last_error = msg; }
}
// ---------------------------------------------------------------- state
int NR, NZ;
static std::map<std::pair<int, std::pair<long, int>>, Snap> snaps;     // (group,(step,point))
static std::unordered_map<Rank *, std::unordered_set<void *>> known_ptr;
static std::unordered_map<Rank *, u64> mark_ctr;
static std::map<long, size_t> wr_begin;
static std::map<std::string, std::map<int, u64>> frame_at_write;      // path -> frame -> digest at the time it became complete
static std::map<std::string, long> initial_count;                     // plasma population per specie
static long main_steps = 0;
static double num_t(double v) { return v; }
void oracle_begin() {
  NR = P.n("nr"); NZ = P.n("nz");
  if (P.n("debug_log") > 0) { log_cut = 9; R->faults_fired[F_DEBUGLOG]++; }
}
static void add_grid(std::vector<double> &o, const SimGrid &g, const size_t *d) {
  if (o.empty()) o.assign((size_t)NR * NZ, NAN);
  for (unsigned i = 0; i < g.xs; ++i) for (unsigned j = 0; j < g.ys; ++j) {
    size_t r = d[0] + i, z = d[1] + j; if (r < (size_t)NR && z < (size_t)NZ && i < d[2] - d[0] && j < d[3] - d[1]) o[r * NZ + z] = g.g[i + g.os][j + g.os]; }
}
static void put_grid(const std::vector<double> &o, const SimGrid &g, const size_t *d) {
  for (unsigned i = 0; i < g.xs; ++i) for (unsigned j = 0; j < g.ys; ++j) {
    size_t r = d[0] + i, z = d[1] + j; if (r < (size_t)NR && z < (size_t)NZ) g.g[i + g.os][j + g.os] = o[r * NZ + z]; }
}
static SimGrid *grids(SimDomain &d, int w) { return w == 0 ? d.e : w == 1 ? d.h : w == 2 ? d.het : d.cur; }
static void collect(Rank *r, SimView *v, Snap &s, bool fields, bool parts) {
  for (unsigned k = 0; k < v->nd; ++k) {
    SimDomain &d = v->d[k];
    DomBox b; b.rank = r->id; b.i = d.i; b.j = d.j; memcpy(b.d, d.dims, sizeof b.d); b.dr = d.dr; b.dz = d.dz;
    int bi = (int)s.boxes.size(); s.boxes.push_back(b);
    if (fields) for (int w = 0; w < 4; ++w) for (int c = 0; c < 3; ++c) add_grid(s.f[w][c], grids(d, w)[c], d.dims);
    if (parts) for (unsigned q = 0; q < d.nsp; ++q) {
      SimSpecie &sp = d.sp[q];
      for (size_t n = 0; n < sp.n; ++n) { Part p; r->ops->get_particle(sp.p[n], &p.s); p.rank = r->id; p.dom = bi; p.beam = sp.is_beam; p.sp = sp.name; p.spid = sp.id; p.ptr = sp.p[n]; p.ops = r->ops; s.parts.push_back(p); }
    }
  }
  s.t = v->t; s.reported++;
}
static u64 phash(const SimParticle &p) { u64 h = 3; for (int k = 0; k < 3; ++k) { h = mix(h, dbits(p.pos[k])); h = mix(h, dbits(p.vel[k])); } h = mix(h, dbits(p.weight)); h = mix(h, p.cell_r * 100003 + p.cell_z); return mix(h, p.specie); }
struct Parts { u64 f = 1, j = 1, p = 1; };
static std::map<Rank *, Parts> last_parts;
// the three parts of the state separately: fields, current, particles (in any order)
static Parts part_hash(Rank *r, SimView *v) {
  Parts h;
  for (unsigned k = 0; k < v->nd; ++k) {
    SimDomain &d = v->d[k];
    for (int w = 0; w < 4; ++w) for (int c = 0; c < 3; ++c) { SimGrid &g = grids(d, w)[c]; u64 &o = w == 3 ? h.j : h.f; for (unsigned i = 0; i < g.xs; ++i) for (unsigned j = 0; j < g.ys; ++j) o = mix(o, dbits(g.g[i + g.os][j + g.os])); }
    for (unsigned q = 0; q < d.nsp; ++q) { u64 s = 0; for (size_t n = 0; n < d.sp[q].n; ++n) { SimParticle p; r->ops->get_particle(d.sp[q].p[n], &p); s += phash(p); } h.p = mix(h.p, s); }
  }
  return h;
}
// nothing but its own phase changes a part of the state
static void check_quiet_phases(Rank *r, SimView *v, int point) {
  Parts h = part_hash(r, v), o = last_parts[r]; bool first = point == SIM_DISTRIBUTED;
  auto bad = [&](const char *what) { violation("state:changed-elsewhere", "step %ld: %s changed during the %s phase, which has no business with it", r->step, what, PN[point]); };
  if (!first) {
    if (point != SIM_MAXWELL && h.f != o.f) bad("electromagnetic fields");
    if (point != SIM_MAXWELL && point != SIM_ADVANCED && point != SIM_CURRENT && h.j != o.j) bad("the current density");
    if (point != SIM_INJECTED && point != SIM_ADVANCED && h.p != o.p) bad("particles");
  }
  last_parts[r] = h; R->probes[60]++;
}
static u64 view_hash(Rank *r, SimView *v) {
  u64 h = 11;
  for (unsigned k = 0; k < v->nd; ++k) {
    SimDomain &d = v->d[k];
    for (int w = 0; w < 4; ++w) for (int c = 0; c < 3; ++c) { SimGrid &g = grids(d, w)[c]; for (unsigned i = 0; i < g.xs; ++i) for (unsigned j = 0; j < g.ys; ++j) h = mix(h, dbits(g.g[i + g.os][j + g.os])); }
    for (unsigned q = 0; q < d.nsp; ++q) { u64 s = 0; for (size_t n = 0; n < d.sp[q].n; ++n) { SimParticle p; r->ops->get_particle(d.sp[q].p[n], &p); s += phash(p); } h = mix(h, s); }
  }
  return h;
}
std::string pstr(const Part &p) {
  char b[400]; snprintf(b, sizeof b, "%s particle %lx at (r=%.6g cells, z=%.6g cells) velocity (%.4g,%.4g,%.4g) cell (%ld,%ld)", p.sp.c_str(), (unsigned long)p.s.mark,
    p.s.pos[0] / P.n("dr"), p.s.pos[2] / P.n("dz"), p.s.vel[0], p.s.vel[1], p.s.vel[2], (long)p.s.cell_r, (long)p.s.cell_z); return b;
}
static void mark_new(Rank *r, SimView *v) {
  auto &known = known_ptr[r]; u64 &c = mark_ctr[r];
  for (unsigned k = 0; k < v->nd; ++k) for (unsigned q = 0; q < v->d[k].nsp; ++q) { SimSpecie &sp = v->d[k].sp[q];
    for (size_t n = 0; n < sp.n; ++n) if (known.insert(sp.p[n]).second) r->ops->set_mark(sp.p[n], ((u64)(r->id + 1) << 40) | ++c); }
}
static bool near_int(double x, double eps) { return std::fabs(x - std::floor(x + 0.5)) < eps; }
// ---------------------------------------------------------------- C01: every particle is carried forward exactly once
static void check_particles(long step) {
  Snap &a = snaps[{0, {step, SIM_INJECTED}}], &b = snaps[{0, {step, SIM_ADVANCED}}];
  double dr = P.n("dr"), dz = P.n("dz");
  std::unordered_map<u64, const Part *> before; std::unordered_map<u64, int> seen;
  std::unordered_map<u64, u64> bykey;
  auto key = [](const double *pos, unsigned sp) { return mix(mix(dbits(pos[0]), dbits(pos[2])), sp); };
  for (auto &p : a.parts) { before[p.s.mark] = &p; bykey[key(p.s.pos, p.spid)] = p.s.mark; }
  for (auto &p : b.parts) {
    auto it = before.find(p.s.mark);
    if (it == before.end()) {           // identity not carried across a process boundary: fall back on where it came from
      auto k = bykey.find(key(p.s.old, p.spid));
      if (k == bykey.end()) violation("particles:invented", "step %ld: %s was not present before the step", step, pstr(p).c_str());
      it = before.find(k->second);
    }
    if (seen[it->first]++) violation("particles:duplicated", "step %ld: %s exists more than once after the step", step, pstr(p).c_str());
    const Part &o = *it->second;
    if (o.sp != p.sp || o.s.specie != p.s.specie) violation("particles:species-changed", "step %ld: %s belonged to %s before the step", step, pstr(p).c_str(), o.sp.c_str());
    if (dbits(o.s.weight) != dbits(p.s.weight)) violation("particles:weight-changed", "step %ld: weight of %s changed from %.17g to %.17g", step, pstr(p).c_str(), o.s.weight, p.s.weight);
    double cr = p.s.pos[0] / dr, cz = p.s.pos[2] / dz;
    if (!(std::isfinite(cr) && std::isfinite(cz))) violation("particles:position-invalid", "step %ld: %s", step, pstr(p).c_str());
    if (((long)std::floor(cr) != (long)p.s.cell_r && !near_int(cr, 1e-7)) || ((long)std::floor(cz) != (long)p.s.cell_z && !near_int(cz, 1e-7)))
      violation("particles:cell-mismatch", "step %ld: %s is filed under a cell that does not contain it", step, pstr(p).c_str());
    const DomBox &d = b.boxes[p.dom];
    if (p.s.cell_r < d.d[0] || p.s.cell_r >= d.d[2] || p.s.cell_z < d.d[1] || p.s.cell_z >= d.d[3])
      violation("particles:wrong-owner", "step %ld: %s is held by process %d domain (%u,%u) covering cells r %zu..%zu z %zu..%zu", step, pstr(p).c_str(), d.rank, d.i, d.j, d.d[0], d.d[2], d.d[1], d.d[3]);
    if (o.rank != p.rank) { R->probes[0]++; R->particles_moved++; }
    else { const DomBox &e = a.boxes[o.dom]; if (e.i != d.i || e.j != d.j) { R->particles_moved++; R->probes[e.i != d.i && e.j != d.j ? 2 : 1]++; } }
  }
  for (auto &p : a.parts) if (!seen.count(p.s.mark)) {
    Part q = p; p.ops->get_particle(p.ptr, &q.s);     // last state of the object that disappeared
    double cr = q.s.pos[0] / dr, cz = q.s.pos[2] / dz;
    bool outside = cr >= NR - 1e-7 || cz >= NZ - 1e-7 || cz < 1e-7 || cr < 1e-7;
    if (!outside) violation("particles:lost", "step %ld: %s disappeared although it is inside the simulated volume (before: %s)", step, pstr(q).c_str(), pstr(p).c_str());
    if (!p.beam) violation("particles:plasma-removed", "step %ld: plasma %s was removed although every wall reflects it", step, pstr(q).c_str());
    R->probes[3]++;
  }
}
// ---------------------------------------------------------------- C13: closed walls keep the plasma
static void check_plasma(long step, int point) {
  Snap &b = snaps[{0, {step, point}}];
  std::map<std::string, long> n; double dr = P.n("dr"), dz = P.n("dz");
  for (auto &p : b.parts) {
    if (p.beam) continue;
    n[p.sp]++;
    double cr = p.s.pos[0] / dr, cz = p.s.pos[2] / dz, v2 = 0; for (double v : p.s.vel) v2 += v * v;
    if (!(cr >= -1e-7 && cr <= NR + 1e-7 && cz >= -1e-7 && cz <= NZ + 1e-7)) violation("plasma:escaped", "step %ld after %s: %s is outside the closed volume", step, PN[point], pstr(p).c_str());
    if (!(v2 < 299792458.0 * 299792458.0 * (1 + 1e-9))) violation("plasma:superluminal", "step %ld: %s", step, pstr(p).c_str());
    if (!(p.s.weight > 0)) violation("plasma:weight", "step %ld: %s has weight %g", step, pstr(p).c_str(), p.s.weight);
  }
  if (step < 0) { initial_count = n; return; }
  if (n != initial_count) { std::string s; for (auto &k : initial_count) s += " " + k.first + " " + std::to_string(k.second) + " -> " + std::to_string(n[k.first]); violation("plasma:population-changed", "step %ld after %s:%s", step, PN[point], s.c_str()); }
}
// ---------------------------------------------------------------- pair mode: compare with the reference job, then hand it the main state
static double gmax(const Snap &s, int w) { double m = 0; for (int c = 0; c < 3; ++c) for (double v : s.f[w][c]) if (std::fabs(v) > m) m = std::fabs(v); return m; }
static void cmp_fields(const Snap &m, const Snap &r, int w, const char *name, long step, double tol) {
  double mx = std::max(gmax(m, w), gmax(r, w)), t = tol * mx;
  for (int c = 0; c < 3; ++c) for (int i = 0; i < NR * NZ; ++i) {
    double a = m.f[w][c].empty() ? 0 : m.f[w][c][i], b = r.f[w][c].empty() ? 0 : r.f[w][c][i];
    if (std::isnan(a) && std::isnan(b)) continue;
    if (!(std::fabs(a - b) <= t)) {
      static const char *cn[] = {"r", "phi", "z"};
      violation((std::string("pair:") + name).c_str(), "step %ld: %s/%s at cell (%d,%d) is %.12g, the reference decomposition gives %.12g (largest value %.4g)", step, name, cn[c], i / NZ, i % NZ, a, b, mx);
    }
  }
}
static void cmp_parts(const Snap &m, const Snap &r, long step) {
  std::unordered_map<u64, const Part *> rm; for (auto &p : r.parts) rm[p.s.mark] = &p;
  std::unordered_map<u64, const Part *> byold; 
  auto key = [](const SimParticle &s) { return mix(mix(dbits(s.old[0]), dbits(s.old[2])), s.specie); };
  bool need = false; for (auto &p : m.parts) if (!rm.count(p.s.mark)) need = true;
  if (need) for (auto &p : r.parts) byold[key(p.s)] = &p;
  double dr = P.n("dr"), dz = P.n("dz"); size_t matched = 0;
  for (auto &p : m.parts) {
    const Part *q = nullptr; auto i = rm.find(p.s.mark); if (i != rm.end()) q = i->second; else { auto k = byold.find(key(p.s)); if (k != byold.end()) q = k->second; }
    if (!q) violation("pair:particle-presence", "step %ld: %s is not present in the reference decomposition", step, pstr(p).c_str());
    ++matched;
    double v = 1; for (double x : q->s.vel) v = std::max(v, std::fabs(x));
    for (int k = 0; k < 3; ++k) {
      if (!(std::fabs(p.s.vel[k] - q->s.vel[k]) <= 1e-9 * v)) violation("pair:particle-velocity", "step %ld: %s, the reference decomposition gives velocity (%.12g,%.12g,%.12g)", step, pstr(p).c_str(), q->s.vel[0], q->s.vel[1], q->s.vel[2]);
      if (!(std::fabs(p.s.pos[k] - q->s.pos[k]) <= 1e-9 * (k == 2 ? dz : dr))) violation("pair:particle-position", "step %ld: %s, the reference decomposition gives (%.12g,%.12g) cells", step, pstr(p).c_str(), q->s.pos[0] / dr, q->s.pos[2] / dz);
    }
    if (p.s.weight != q->s.weight || p.sp != q->sp) violation("pair:particle-identity", "step %ld: %s", step, pstr(p).c_str());
  }
  if (matched != r.parts.size()) {
    std::unordered_set<u64> ms; for (auto &p : m.parts) ms.insert(p.s.mark);
    for (auto &q : r.parts) if (!ms.count(q.s.mark)) { double cr = q.s.pos[0] / dr, cz = q.s.pos[2] / dz; if (near_int(cr, 1e-6) || near_int(cz, 1e-6)) continue;
      violation("pair:particle-presence", "step %ld: %s of the reference decomposition is missing (%zu versus %zu)", step, pstr(q).c_str(), matched, r.parts.size()); }
  }
}
static void load_parts(Rank *r, SimView *v, const Snap &m) {
  std::map<std::pair<int, std::string>, std::vector<const Part *>> dst;
  bool same = (int)v->rd == (int)P.n("rd", 1) && (int)v->zd == (int)P.n("zd", 1) && P.n("nranks", 1) == 1;
  for (auto &p : m.parts) {
    int dom = -1;
    if (same) dom = m.boxes[p.dom].i * v->zd + m.boxes[p.dom].j;
    else for (unsigned k = 0; k < v->nd; ++k) { SimDomain &d = v->d[k]; if (p.s.cell_r >= d.dims[0] && p.s.cell_r < d.dims[2] && p.s.cell_z >= d.dims[1] && p.s.cell_z < d.dims[3]) dom = k; }
    if (dom < 0) dom = 0;
    dst[{dom, p.sp}].push_back(&p);
  }
  for (unsigned k = 0; k < v->nd; ++k) for (unsigned q = 0; q < v->d[k].nsp; ++q) {
    SimSpecie &sp = v->d[k].sp[q]; auto &l = dst[{(int)k, sp.name}];
    std::vector<void *> np; np.reserve(l.size());
    static std::unordered_map<void *, std::vector<void *>> pools;
    auto &pool = pools[sp.vec];
    for (size_t n = 0; n < l.size(); ++n) {
      if (n >= pool.size()) pool.push_back(r->ops->new_particle());
      SimParticle s = l[n]->s; s.specie = sp.id; r->ops->set_particle(pool[n], &s); np.push_back(pool[n]);
    }
    r->ops->vec_assign(sp.vec, np.data(), np.size());
  }
}
static void load_fields(SimView *v, const Snap &m, int w) { for (unsigned k = 0; k < v->nd; ++k) for (int c = 0; c < 3; ++c) if (!m.f[w][c].empty()) put_grid(m.f[w][c], grids(v->d[k], w)[c], v->d[k].dims); }
static void cmp_store(long step) {
  std::string root = P.s("root", "./simdata") + "/data.h5";
  auto a = disk.find(disk_key(0, root)), b = disk.find(disk_key(1, root));
  if (a == disk.end() || b == disk.end()) return;
  for (auto &pr : parse_probes(P.s("probes"))) {
    if (step % pr.sched) continue;
    size_t fr = step / pr.sched; std::string path = probe_path(pr);
    auto x = a->second.sets.find(path), y = b->second.sets.find(path);
    if (y == b->second.sets.end() || y->second.dims[0] <= fr) continue;
    if (x == a->second.sets.end() || x->second.dims[0] <= fr || x->second.frame() != y->second.frame()) violation("pair:stored-frame", "step %ld: frame %zu of %s is missing or has a different shape than with the reference decomposition", step, fr, path.c_str());
    size_t n = y->second.frame(); double mx = 0;
    for (size_t i = 0; i < n; ++i) mx = std::max({mx, std::fabs(x->second.data[fr * n + i]), std::fabs(y->second.data[fr * n + i])});
    // a field frame of noise level is judged against the field itself
    for (size_t i = 0; i < n; ++i) { double u = x->second.data[fr * n + i], w = y->second.data[fr * n + i]; if (std::isnan(u) && std::isnan(w)) continue;
      double tol = 1e-9 * mx;
      if (pr.comp[0] == 'E' || pr.comp[0] == 'H' || pr.comp[0] == 'J') continue;   // compared as grids already
      // sums over opposite velocities cancel: rounding is measured against what was summed, not against the remainder
      if (pr.comp.compare(0, 8, "momentum") == 0) tol = 1e-7 * mx + 1e-13 * 2.73e-22 * (pr.specie == "ions" ? P.n("ion_mass", 1836) : 1);
      if (pr.comp == "temperature") tol += 1e-13 * 5.11e5;
      if (!(std::fabs(u - w) <= tol)) violation(("pair:stored-" + pr.comp).c_str(), "step %ld: frame %zu of %s, element %zu is %.12g, the reference decomposition stores %.12g (largest %.4g)", step, fr, path.c_str(), i, u, w, mx); }
  }
}
static void pair_ref(Rank *r, int point, SimView *v) {
  long step = r->step;
  auto key = std::make_pair(0, std::make_pair(step, point));
  int need = (int)P.n("nranks", 1);
  auto alive = [] { for (auto q : ranks) if (q->group == 0 && !q->exited) return true; return false; };
  block_until([=] { return snaps[key].reported >= need || !alive(); }, "reference waits for main job");
  if (snaps[key].reported < need) { if (point == SIM_LOOP_END || point == SIM_STEP_END) return; violation("pair:progress", "the job ended before %s of step %ld, which the reference decomposition reached", PN[point], step); }
  Snap &m = snaps[key]; Snap s; collect(r, v, s, point == SIM_MAXWELL || point == SIM_CURRENT, point == SIM_ADVANCED);
  double tol = P.n("pair_tol", 1e-9);
  switch (point) {
    case SIM_DISTRIBUTED: case SIM_INJECTED: load_parts(r, v, m); break;
    case SIM_MAXWELL: cmp_fields(m, s, 0, "E", step, tol); cmp_fields(m, s, 1, "H", step, tol); cmp_fields(m, s, 2, "H-at-E-time", step, tol);
      for (int w = 0; w < 3; ++w) load_fields(v, m, w); break;
    case SIM_ADVANCED: cmp_parts(m, s, step); load_parts(r, v, m); break;
    case SIM_CURRENT: cmp_fields(m, s, 3, "J", step, tol); load_fields(v, m, 3); break;
    case SIM_OUTPUT: if (chk("pair_store")) cmp_store(step); break;
  }
  R->probes[10]++;
}
// ---------------------------------------------------------------- C06/C07: scheduled frames and their content
static size_t region(const Probe &p) { return p.shape == "rec" ? (size_t)(p.r1 - p.r0) * (p.z1 - p.z0) : p.shape == "col" ? NR : p.shape == "row" ? NZ : 1; }
static u64 frame_hash(const H5Set &s, size_t fr) { u64 h = 5; size_t n = s.frame(); for (size_t i = 0; i < n; ++i) h = mix(h, dbits(s.data[fr * n + i])); return h; }
static void check_output(long step) {
  std::string root = P.s("root", "./simdata") + "/data.h5";
  auto f = disk.find(disk_key(0, root)); if (f == disk.end()) violation("output:no-file", "step %ld: the data file does not exist", step);
  std::map<std::string, std::vector<const H5Write *>> by;
  int need = (int)P.n("nranks", 1);
  for (size_t i = 0; i < h5_writes.size(); ++i) if (h5_writes[i].step == step && h5_writes[i].group == 0) by[h5_writes[i].path].push_back(&h5_writes[i]);
  (void)need;
  Snap &s = snaps[{0, {step, SIM_OUTPUT}}];
  std::set<std::string> paths;
  for (auto &p : parse_probes(P.s("probes"))) {
    std::string path = probe_path(p); paths.insert(path);
    auto &w = by[path]; auto ds = f->second.sets.find(path);
    if (ds == f->second.sets.end()) violation("output:dataset-missing", "step %ld: configured probe %s has no dataset", step, path.c_str());
    bool due = step % p.sched == 0; size_t fr = step / p.sched;
    for (auto x : w) if (!due || x->off[0] != fr || x->cnt[0] != 1)
      violation("output:wrong-frame", "step %ld: probe %s with schedule %d wrote frame %zu", step, path.c_str(), p.sched, x->off[0]);
    if (!due) continue;
    H5Set &d = ds->second;
    if (d.frame() != region(p)) violation("output:shape", "step %ld: dataset %s has frames of %zu values, the probe covers %zu cells", step, path.c_str(), d.frame(), region(p));
    if (d.dims[0] <= fr) violation("output:frame-missing", "step %ld: probe %s with schedule %d must have stored frame %zu, the dataset has %zu frames", step, path.c_str(), p.sched, fr, d.dims[0]);
    for (size_t i = 0; i < d.frame(); ++i) if (!d.wc[fr * d.frame() + i]) violation("output:frame-incomplete", "step %ld: element %zu of frame %zu of %s was never written", step, i, fr, path.c_str());
    frame_at_write[path][fr] = frame_hash(d, fr);
    R->probes[20]++;
    if (!chk("chk_content")) continue;
    int wsel = p.comp[0] == 'E' ? 0 : p.comp[0] == 'H' ? 2 : p.comp[0] == 'J' ? 3 : -1;
    if (wsel < 0 || p.comp.size() < 2 || p.comp[1] != '/') continue;
    int c = p.comp == std::string(1, p.comp[0]) + "/r" ? 0 : p.comp.find("phi") != std::string::npos ? 1 : 2;
    auto &g = s.f[wsel][c];
    for (size_t i = 0; i < d.frame(); ++i) {
      int r, z; if (p.shape == "rec") { r = p.r0 + i / (p.z1 - p.z0); z = p.z0 + i % (p.z1 - p.z0); } else if (p.shape == "col") { r = i; z = p.z1; } else if (p.shape == "row") { r = p.r1; z = i; } else { r = p.r1; z = p.z1; }
      double got = d.data[fr * d.frame() + i], want = g[(size_t)r * NZ + z];
      if (dbits(got) != dbits(want) && !(got == want) && !(std::isnan(got) && std::isnan(want)))
        violation("output:content", "step %ld: frame %zu of %s holds %.12g for cell (%d,%d), the simulation has %.12g", step, fr, path.c_str(), got, r, z, want);
      R->probes[21]++;
    }
  }
  for (auto &x : by) if (!paths.count(x.first)) violation("output:unexpected-dataset", "step %ld: dataset %s is not a configured probe", step, x.first.c_str());
}
static void check_store_final() {
  std::string root = P.s("root", "./simdata") + "/data.h5";
  auto f = disk.find(disk_key(0, root)); if (f == disk.end()) violation("output:no-file", "the data file does not exist after a complete run");
  for (auto &p : parse_probes(P.s("probes"))) {
    std::string path = probe_path(p); auto ds = f->second.sets.find(path);
    if (ds == f->second.sets.end()) violation("output:dataset-missing", "configured probe %s has no dataset", path.c_str());
    size_t want = main_steps ? (main_steps - 1) / p.sched + 1 : 0;
    if (want && ds->second.dims[0] != want) violation("output:frame-count", "probe %s with schedule %d over %ld steps has %zu frames, expected %zu", path.c_str(), p.sched, main_steps, ds->second.dims[0], want);
    for (auto &k : frame_at_write[path]) if ((size_t)k.first < ds->second.dims[0] && frame_hash(ds->second, k.first) != k.second) violation("output:frame-altered", "frame %d of %s changed after it was written", k.first, path.c_str());
  }
}
// ---------------------------------------------------------------- C12: beam injection schedule
struct BeamAcc { long injected = 0; };
static std::map<int, std::vector<double>> beam_hist;     // beam -> weight-carrying injections per step
static double beam_macro(int k) {         // share of the particle budget of this beam
  double dr = P.n("dr"), dz = P.n("dz"), sum = P.n("nr") * P.n("nz") * P.n("nsp", 2), mine = 0, ratio = std::floor(P.n("beam_ratio", 2));
  for (int i = 0; i < (int)P.n("nbeam"); ++i) { std::string q = "b" + std::to_string(i) + "_"; double s = (P.n(q + "rad") / dr) * (P.n(q + "len") * P.n(q + "amount") / dz) * ratio; sum += s; if (i == k) mine = s; }
  return mine * P.n("macro") / sum;
}
static void check_beam(long step) {
  Snap &a = snaps[{0, {step, SIM_STEP_BEGIN}}], &b = snaps[{0, {step, SIM_INJECTED}}];
  std::unordered_set<void *> old; for (auto &p : a.parts) old.insert(p.ptr);
  int nb = P.n("nbeam"); double dt = P.n("dt"), dr = P.n("dr"), dz = P.n("dz");
  static const char *bn[] = {"beam_electrons", "beam_ions", "beam_positrons"};
  std::vector<long> cnt(nb, 0);
  for (auto &p : b.parts) {
    if (old.count(p.ptr)) { old.erase(p.ptr); continue; }
    if (!p.beam) violation("beam:plasma-injected", "step %ld: %s appeared during beam injection", step, pstr(p).c_str());
    int k = -1; for (int i = 0; i < nb; ++i) if (p.sp == bn[i]) k = i;
    if (k < 0) violation("beam:unknown", "step %ld: %s", step, pstr(p).c_str());
    std::string q = "b" + std::to_string(k) + "_"; double vel = P.n(q + "vel"), rad = P.n(q + "rad");
    cnt[k]++;
    if (std::fabs(p.s.vel[2] - vel) > 1e-6 * vel || p.s.vel[0] != 0 || p.s.vel[1] != 0) violation("beam:velocity", "step %ld: injected %s, configured velocity %.9g along z", step, pstr(p).c_str(), vel);
    if (p.s.pos[0] < dr / 2 * (1 - 1e-9) || p.s.pos[0] > rad + dr / 2 + 1e-9 * dr) violation("beam:radius", "step %ld: injected %s, beam radius is %.6g cells", step, pstr(p).c_str(), rad / dr);
    if (p.s.pos[2] < dz / 2 * (1 - 1e-9) || p.s.pos[2] > dz / 2 + vel * dt * (1 + 1e-9)) violation("beam:position", "step %ld: injected %s, must enter within one step length of the left wall", step, pstr(p).c_str());
    // homogeneous density: a macroparticle stands for a ring, its weight grows with the radius
    double x = beam_macro(k), N = 3.14159265358979 * rad * rad * P.n(q + "len") * P.n(q + "amount") * P.n(q + "dens"), rel = 1;
    for (double m : {std::floor(x - 1e-6), std::floor(x + 1e-6)}) rel = std::min(rel, std::fabs(p.s.weight / (N / m * 2 * p.s.pos[0] / rad) - 1));
    if (!(p.s.weight > 0) || !(rel < 1e-9)) violation("beam:weight", "step %ld: injected %s has weight %g, the configured density needs %g", step, pstr(p).c_str(), p.s.weight, N / std::floor(x) * 2 * p.s.pos[0] / rad);
  }
  if (!old.empty()) violation("beam:removed", "step %ld: %zu particles disappeared during beam injection", step, old.size());
  double t = step * dt;
  for (int k = 0; k < nb; ++k) {
    std::string q = "b" + std::to_string(k) + "_"; double vel = P.n(q + "vel"), len = P.n(q + "len"), dist = P.n(q + "dist"), st = P.n(q + "start"); int am = P.n(q + "amount");
    double margin = dt * 1e-3; bool must = false, may = false;
    for (int m = 0; m < am; ++m) { double s = st + (len + dist) / vel * m, e = s + len / vel;
      if (t >= s + margin && t < e - margin) must = true; if (t >= s - margin && t < e + margin) may = true; }
    if (cnt[k] && !may) violation("beam:off-schedule", "step %ld (t=%.6g): beam %d injected %ld particles between bunches or after the last bunch", step, t, k, cnt[k]);
    if (!cnt[k] && must && P.n(q + "minper") >= 1) violation("beam:missed", "step %ld (t=%.6g): beam %d injected nothing during a bunch", step, t, k);
    double X = beam_macro(k) / am * vel * dt / len; int doms = 0; while (doms < P.n("rd") && doms * NR / P.n("rd") * P.n("dr") < P.n(q + "rad")) ++doms;
    if (cnt[k] && (cnt[k] > X + doms || cnt[k] < std::floor(std::floor(beam_macro(k) - 1e-6) / am) * vel * dt / len - 1e-6)) violation("beam:portion", "step %ld: beam %d injected %ld particles, its share of a bunch per step is %.3f", step, k, cnt[k], X);
    if (cnt[k]) { R->probes[30]++; auto &h = beam_hist[k]; h.push_back(cnt[k]); if (h[0] != cnt[k]) violation("beam:rate", "step %ld: beam %d injected %ld particles, earlier steps of a bunch injected %ld", step, k, cnt[k], (long)h[0]); }
    if (must) R->probes[31]++;
  }
}
// ---------------------------------------------------------------- hook
static void complete(long step, int point) {
  if (chk("chk_particles") && point == SIM_ADVANCED) check_particles(step);
  if (chk("chk_plasma") && (point == SIM_DISTRIBUTED || point == SIM_ADVANCED || point == SIM_STEP_END)) check_plasma(step, point);
  if (chk("chk_beam") && point == SIM_INJECTED) check_beam(step);
  if (chk("chk_output") && point == SIM_OUTPUT) check_output(step);
  if (chk("chk_fields") && point == SIM_MAXWELL) model_fields(step, snaps[{0, {step, SIM_INJECTED}}], snaps[{0, {step, SIM_MAXWELL}}]);
  if (chk("chk_push") && point == SIM_ADVANCED) model_push(step, snaps[{0, {step, SIM_INJECTED}}], snaps[{0, {step, SIM_MAXWELL}}], snaps[{0, {step, SIM_ADVANCED}}]);
  if (chk("chk_current") && point == SIM_CURRENT) model_current(step, snaps[{0, {step, SIM_ADVANCED}}], snaps[{0, {step, SIM_CURRENT}}]);
  if (chk("chk_moments") && point == SIM_OUTPUT) { auto f = disk.find(disk_key(0, P.s("root", "./simdata") + "/data.h5")); if (f != disk.end()) model_moments(step, snaps[{0, {step, SIM_OUTPUT}}], f->second); }
  if (chk("chk_initial") && point == SIM_DISTRIBUTED) model_initial(snaps[{0, {step, SIM_DISTRIBUTED}}]);
  bool pair = P.n("pair") > 0;
  // forget what nobody needs any more
  for (auto it = snaps.begin(); it != snaps.end();) { long st = it->first.second.first; if (st < step - (pair ? 1 : 0) && (!pair || true)) {
      bool used = false; if (pair) for (auto q : ranks) if (q->group == 1 && !q->exited && (q->step < st || (q->step == st && q->last_point <= it->first.second.second))) used = true;
      if (!used) { it = snaps.erase(it); continue; } } ++it; }
}
extern "C" void sim_point(int point, void *smb, void *ts) {
  Quiet q; Rank *r = cur->rank;
  r->last_point = point; r->smb = smb; r->ts = ts;
  if (point == SIM_STEP_BEGIN) { r->step++; if (r->group == 0 && r->id == 0) { R->steps++; main_steps++; R->sim_seconds += P.n("dt"); } }
  if (point == SIM_STEP_BEGIN && r->term_step > -9 && r->step > r->term_step + 2) violation("terminate:ignored", "process %d still begins step %ld although it was told to terminate during step %ld", r->id, r->step, r->term_step);
  if (point == SIM_LOOP_END) r->complete_logged = true;
  if (r->step > (long)P.n("max_steps", 100000)) violation("progress:extra-steps", "the main loop runs past the configured end of time (step %ld)", r->step);
  SimView *v = r->ops->view(smb, ts);
  u64 h = point >= SIM_DISTRIBUTED ? view_hash(r, v) : 1;
  tr(h); tr(point * 1000 + r->step);
  if (r->group == 0) {
    size_t ix = (size_t)(r->step + 1) * 10 + point;
    if (ix < sizeof(R->hook) / sizeof(R->hook[0])) { R->hook[ix] += mix(h, r->id + 7); if (ix + 1 > R->nhook) R->nhook = ix + 1; }
    if (point == SIM_DISTRIBUTED && P.n("axis_velocities") > 0) model_velocities(r, v);
    if (point == SIM_DISTRIBUTED || point == SIM_INJECTED) mark_new(r, v);
    if (point >= SIM_DISTRIBUTED) {
      bool pair = P.n("pair") > 0;
      if (point == SIM_DISTRIBUTED && P.n("seed_e") > 0) model_seed_fields(v, P.n("seed_e"), P.n("seed_h"), P.seed);
      bool f = (pair && (point == SIM_MAXWELL || point == SIM_CURRENT)) || (chk("chk_content") && point == SIM_OUTPUT) ||
        (chk("chk_fields") && (point == SIM_INJECTED || point == SIM_MAXWELL)) || (chk("chk_push") && point == SIM_MAXWELL) || (chk("chk_current") && point == SIM_CURRENT);
      bool pp = (pair && (point == SIM_DISTRIBUTED || point == SIM_INJECTED || point == SIM_ADVANCED)) || (chk("chk_particles") && (point == SIM_INJECTED || point == SIM_ADVANCED)) ||
        (chk("chk_push") && (point == SIM_INJECTED || point == SIM_ADVANCED)) || (chk("chk_current") && point == SIM_ADVANCED) || (chk("chk_moments") && point == SIM_OUTPUT) || (chk("chk_initial") && point == SIM_DISTRIBUTED) ||
        (chk("chk_plasma") && (point == SIM_DISTRIBUTED || point == SIM_ADVANCED || point == SIM_STEP_END)) || (chk("chk_beam") && (point == SIM_STEP_BEGIN || point == SIM_INJECTED));
      if (chk("chk_quiet")) check_quiet_phases(r, v, point);
      if (chk("chk_time")) {
        double dt = P.n("dt"), want = dt * std::max(0L, r->step + (point >= SIM_STEP_END)); if (v->dt != dt || v->tend != P.n("tend")) violation("time:settings", "process %d runs to %.17g in steps of %.17g, configured are %.17g and %.17g", r->id, v->tend, v->dt, P.n("tend"), dt);
        if (!(std::fabs(v->t - want) <= 1e-6 * dt)) violation("time:clock", "process %d: simulated time is %.12g in step %ld, %.12g is expected", r->id, v->t, r->step, want);
        R->probes[61]++;
      }
      Snap &s = snaps[{0, {r->step, point}}];
      collect(r, v, s, f, pp);
      if (s.reported == r->size) complete(r->step, point);
    }
  } else if (point >= SIM_DISTRIBUTED && P.n("pair") > 0) {
    if (point == SIM_DISTRIBUTED && P.n("seed_e") > 0) model_seed_fields(v, P.n("seed_e"), P.n("seed_h"), P.seed);
    pair_ref(r, point, v);
  }
  r->ops->view_free(v);
  if (r->size > 1) yield_rank("hook");
}
void on_sleep(Rank *r) {
  Quiet q;
  if (r->group) return;
  R->paused++;
  if (chk("chk_pause") && h5_open_by(r)) violation("pause:file-not-released", "the data file is still open while the program waits for the resume request");
}
void on_rank_end(Rank *r, bool graceful) {
  Quiet q; (void)graceful;
  if (r->group == 1) { if (r->code != 0) violation("reference:failed", "the reference job ended with status %d: %s", r->code, r->last_fatal.c_str()); return; }
  if (chk("chk_exit") && !job_abort[0]) {
    if (r->code != 0) violation("exit:unexpected-failure", "process %d ended with status %d although nothing failed: %s%s%s", r->id, r->code, r->last_fatal.c_str(), r->last_error.empty() ? "" : " / ", r->last_error.c_str());
    if (P.n("nsteps") > 0 && r->step + 1 != (long)P.n("nsteps")) violation("exit:steps", "process %d made %ld steps, the configured time holds %ld", r->id, r->step + 1, (long)P.n("nsteps"));
    if (!r->complete_logged) violation("exit:incomplete", "process %d ended with status 0 before the end of simulated time", r->id);
  }
}
static void put_frames() {
  std::string root = P.s("root", "./simdata") + "/data.h5";
  auto f = disk.find(disk_key(0, root));
  R->file_state[0] = f == disk.end() ? 0 : f->second.unclean || f->second.opens ? 2 : 1;
  if (f == disk.end()) return;
  auto add = [](u64 p, int fr, u64 h, u32 n, u32 unc) { if (R->nfr < sizeof(R->fr) / sizeof(R->fr[0])) R->fr[R->nfr++] = {p, fr, h, n, unc}; };
  for (auto &a : f->second.attrs) add(hstr(a.first.c_str()), -1, mix(hstr(a.second.first.c_str()), hstr(a.second.second.c_str())), (u32)a.second.second.size(), a.second.first.empty());
  for (auto &s : f->second.sets) for (size_t k = 0; k < s.second.dims[0]; ++k) {
    u32 unc = 0; size_t n = s.second.frame(); for (size_t i = 0; i < n; ++i) if (!s.second.wc[k * n + i]) ++unc;
    add(hstr(s.first.c_str()), (int)k, frame_hash(s.second, k), (u32)n, unc); }
}
// ---- a minimal JSON reader, enough to compare the stored configuration with the configured one
struct JV { char t = 'n'; double num = 0; std::string str; std::vector<JV> arr; std::map<std::string, JV> obj; };
struct JP {
  const char *c, *e; bool bad = false;
  void ws() { while (c < e && strchr(" \t\r\n", *c)) ++c; }
  JV val(int depth = 0) {
    JV v; ws(); if (c >= e || depth > 60) { bad = true; return v; }
    if (*c == '{') { v.t = 'o'; ++c; ws(); if (c < e && *c == '}') { ++c; return v; }
      while (!bad) { ws(); JV k = val(depth + 1); if (k.t != 's') bad = true; ws(); if (c >= e || *c++ != ':') { bad = true; break; } v.obj[k.str] = val(depth + 1); ws(); if (c >= e) { bad = true; break; } if (*c == ',') { ++c; continue; } if (*c++ != '}') bad = true; break; } }
    else if (*c == '[') { v.t = 'a'; ++c; ws(); if (c < e && *c == ']') { ++c; return v; }
      while (!bad) { v.arr.push_back(val(depth + 1)); ws(); if (c >= e) { bad = true; break; } if (*c == ',') { ++c; continue; } if (*c++ != ']') bad = true; break; } }
    else if (*c == '"') { v.t = 's'; ++c; while (c < e && *c != '"') { if (*c == '\\' && c + 1 < e) { ++c; v.str += *c == 'n' ? '\n' : *c == 't' ? '\t' : *c; ++c; } else v.str += *c++; } if (c >= e) bad = true; else ++c; }
    else if (!strncmp(c, "true", 4)) { v.t = 'b'; v.num = 1; c += 4; } else if (!strncmp(c, "false", 5)) { v.t = 'b'; c += 5; } else if (!strncmp(c, "null", 4)) c += 4;
    else { v.t = 'd'; char *q; v.num = strtod(c, &q); if (q == c) bad = true; c = q; }
    return v;
  }
};
static bool jparse(const std::string &s, JV &v) { JP p{s.data(), s.data() + s.size()}; v = p.val(); p.ws(); return !p.bad && p.c == p.e; }
// everything configured is present in what is stored (the program may add to it)
static std::string jcover(const JV &want, const JV &got, const std::string &path) {
  if (want.t != got.t) return path + ": stored with another type, or missing";
  if (want.t == 'o') { for (auto &k : want.obj) { auto i = got.obj.find(k.first); if (i == got.obj.end()) return path + "/" + k.first + ": missing"; auto r = jcover(k.second, i->second, path + "/" + k.first); if (!r.empty()) return r; } }
  else if (want.t == 'a') { if (want.arr.size() != got.arr.size()) return path + ": " + std::to_string(got.arr.size()) + " elements stored, " + std::to_string(want.arr.size()) + " configured"; for (size_t i = 0; i < want.arr.size(); ++i) { auto r = jcover(want.arr[i], got.arr[i], path + "[" + std::to_string(i) + "]"); if (!r.empty()) return r; } }
  else if (want.t == 's') { if (want.str != got.str) return path + ": stored '" + got.str + "', configured '" + want.str + "'"; }
  else if (std::fabs(want.num - got.num) > 1e-9 * std::fabs(want.num)) { char b[100]; snprintf(b, sizeof b, ": stored %.12g, configured %.12g", got.num, want.num); return path + b; }
  return "";
}
// what the build-time switches of each variant are called in the data file
static std::map<std::string, std::string> variant_attrs(const std::string &v) {
  const char *ccs = "villasenor-buneman", *push = "boris adaptive", *vel = "thermal", *spa = "flat";
  if (v == "b") { ccs = "zigzag"; push = "vay"; vel = "eigen"; spa = "random"; }
  if (v == "c") { push = "higuera-cary"; vel = "rectangular"; spa = "regular"; }
  if (v == "d") { push = "boris relativistic"; spa = "centered"; }
  if (v == "e") { push = "boris classic"; spa = "random"; }
  return {{"softwareConfigCurrentDeposition", ccs}, {"softwareConfigParticlesPusher", push}, {"softwareConfigPlasmaVelocityDistribution", vel}, {"softwareConfigPlasmaSpatialDistribution", spa}};
}
static void check_metadata() {
  std::string root = P.s("root", "./simdata") + "/data.h5";
  auto f = disk.find(disk_key(0, root)); if (f == disk.end()) violation("metadata:no-file", "no data file");
  auto &A = f->second.attrs;
  for (auto &a : A) if (a.second.first.empty()) violation("metadata:unwritten", "attribute %s was created but never given a value", a.first.c_str());
  JV want, got; if (!jparse(make_config(P, 0), want)) harness_error("own configuration does not parse");
  auto m = A.find("metadata"); if (m == A.end()) violation("metadata:missing", "the data file carries no metadata");
  if (!jparse(m->second.second, got)) violation("metadata:malformed", "the stored configuration is not valid JSON");
  std::string d = jcover(want, got, ""); if (!d.empty()) violation("metadata:value", "stored configuration differs from the one simulated: %s", d.c_str());
  std::string v = P.s("variant", "");
  std::map<std::string, std::string> e = {{"software", "PiCoPiC"}, {"softwareVersion", "sim"}, {"softwareBuildFlags", "simulated"}, {"softwareDependencies", "none"}, {"softwareConfigFieldSolver", "yee"}, {"comment", P.s("comment", "sim")},
    {"softwareConfigDebug", v == "e" ? "true" : "false"}, {"softwareConfigIEEE", v == "e" ? "true" : "false"}};
  for (auto &k : variant_attrs(v)) e[k.first] = k.second;
  for (auto &k : e) { auto i = A.find(k.first); if (i == A.end()) violation("metadata:missing", "root attribute %s is missing", k.first.c_str());
    if (i->second.second != k.second) violation("metadata:attribute", "root attribute %s is '%s', the program was built or configured with '%s'", k.first.c_str(), i->second.second.c_str(), k.second.c_str()); }
  R->probes[40]++;
}
void oracle_finish() {
  if (chk("chk_output") && chk("chk_exit")) check_store_final();
  if (chk("chk_meta")) check_metadata();
  put_frames();
  if (chk("chk_exit") && R->file_state[0] != 1) violation("exit:file-not-closed", "the data file was not closed cleanly by a complete run");
  R->allocs = alloc_count;
  (void)num_t;
}
