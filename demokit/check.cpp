// Generic observer for demonstrations: one JSON line per phase of every time step into $KIT_STATE[.rank].
#include "kit.hpp"
#include "SMB.hpp"
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <csignal>
#include <cstring>
#include <thread>
#include <unistd.h>
extern int kit_rank, kit_np;
static long step_ = -1;
// KIT_PLACE="N nr nz speed weight" : the same N particles of every plasma specie, whatever the decomposition
static double unit_(unsigned long x) { x += 0x9E3779B97F4A7C15ul; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ul; x = (x ^ (x >> 27)) * 0x94D049BB133111EBul; return ((x ^ (x >> 31)) >> 11) * 0x1p-53; }
static void place(SMB *s, const char *k) {
  long n = 0, nr = 0, nz = 0; double speed = 0, weight = 0; if (sscanf(k, "%ld %ld %ld %lf %lf", &n, &nr, &nz, &speed, &weight) != 5) return;
  for (unsigned i = 0; i < s->r_domains; ++i) for (unsigned j = 0; j < s->z_domains; ++j) { Domain *d = s->domains(i, j); unsigned long q = 0;
    for (auto ps : d->species_p) { if (!ps->name.compare(0, 5, "beam_")) continue; ++q; unsigned id = ps->particles.empty() ? ps->id : ps->particles[0]->specie_id; ps->particles.clear();
      for (long m = 0; m < n; ++m) { auto u = [&](int c) { return unit_((q * 1000003ul + m) * 16 + c); };
        double r = .6 + (nr - 1.2) * sqrt(u(0)), z = .6 + (nz - 1.2) * u(1); size_t cr = r, cz = z; auto &D = d->geometry.cell_dims;
        if (cr < D[0] || cr >= D[2] || cz < D[1] || cz >= D[3]) continue;
        Particle *p = new Particle(); p->pos_r = p->pos_old_r = r * d->geometry.cell_size[0]; p->pos_z = p->pos_old_z = z * d->geometry.cell_size[1]; p->cell_r = cr; p->cell_z = cz; p->weight = weight * r; p->specie_id = id;
        p->vel_r = speed * (2 * u(2) - 1); p->vel_phi = speed * (2 * u(3) - 1); p->vel_z = speed * (2 * u(4) - 1); ps->particles.push_back(p); } } }
}
// KIT_FIELDS="e h" : the same random fields (V/m, A/m) before the first step, whatever the decomposition
static void fields(SMB *s, const char *k) {
  double e = 0, h = 0; if (sscanf(k, "%lf %lf", &e, &h) != 2) return; long nr = s->geometry->cell_dims[2], nz = s->geometry->cell_dims[3];
  for (unsigned i = 0; i < s->r_domains; ++i) for (unsigned j = 0; j < s->z_domains; ++j) { Domain *d = s->domains(i, j); auto &D = d->geometry.cell_dims; long o = 2;
    for (int w = 0; w < 2; ++w) for (int c = 0; c < 3; ++c) for (long r = (long)D[0] - o; r < (long)D[2] + o; ++r) for (long z = (long)D[1] - o; z < (long)D[3] + o; ++z) {
      bool in = r >= 1 && z >= 1 && r <= nr - 2 && z <= nz - 2, axis = r == 0 && z >= 1 && z <= nz - 2, left = z == 0 && r >= 1 && r <= nr - 2, on = w ? r >= 0 && z >= 0 && r < nr && z < nz : in || (axis && c != 1) || (left && c == 2);
      double v = on ? (2 * unit_((r * 100003ul + z) * 16 + w * 4 + c) - 1) * (w ? h : e) : 0;
      (w ? d->maxwell_solver->field_h_at_et : d->maxwell_solver->field_e)[c].set(r - (long)D[0], z - (long)D[1], v); } }
}
// KIT_DUMP=file : fields and particles at the phases "KIT_DUMP_AT" (numbers, comma separated)
static void dump(SMB *s, int point) {
  static FILE *o = nullptr; const char *f = getenv("KIT_DUMP"), *at = getenv("KIT_DUMP_AT"); if (!o) o = fopen(kit_np > 1 ? (std::string(f) + "." + std::to_string(kit_rank)).c_str() : f, "w");
  if (at && !strstr((std::string(",") + at + ",").c_str(), ("," + std::to_string(point) + ",").c_str())) return;
  fprintf(o, "{\"step\":%ld,\"pt\":%d,\"d\":[", step_, point);
  for (unsigned i = 0; i < s->r_domains; ++i) for (unsigned j = 0; j < s->z_domains; ++j) { Domain *d = s->domains(i, j); auto &D = d->geometry.cell_dims;
    fprintf(o, "%s{\"b\":[%zu,%zu,%zu,%zu]", i + j ? "," : "", (size_t)D[0], (size_t)D[1], (size_t)D[2], (size_t)D[3]);
    const char *nm[] = {"E", "H", "T", "J"};
    for (int w = 0; w < 4; ++w) { auto &G = w == 0 ? d->maxwell_solver->field_e : w == 1 ? d->maxwell_solver->field_h : w == 2 ? d->maxwell_solver->field_h_at_et : d->current->current; fprintf(o, ",\"%s\":[", nm[w]);
      for (int c = 0; c < 3; ++c) { fprintf(o, "%s[", c ? "," : ""); for (size_t r = 0; r < D[2] - D[0]; ++r) for (size_t z = 0; z < D[3] - D[1]; ++z) fprintf(o, "%s%.17g", r + z ? "," : "", G[c](r, z)); fprintf(o, "]"); } fprintf(o, "]"); }
    fprintf(o, ",\"p\":{"); const char *q = ""; for (auto ps : d->species_p) { fprintf(o, "%s\"%s\":[", q, ps->name.c_str()); q = ","; const char *e = "";
      for (auto p : ps->particles) { fprintf(o, "%s[%.17g,%.17g,%.17g,%.17g,%.17g,%.17g,%.17g,%.17g]", e, p->pos_r, p->pos_z, p->vel_r, p->vel_phi, p->vel_z, p->weight, p->pos_old_r, p->pos_old_z); e = ","; } fprintf(o, "]"); }
    fprintf(o, "}}"); }
  fprintf(o, "]}\n"); fflush(o);
}
extern "C" void sim_point(int point, void *vs, void *vt) {
  SMB *s = (SMB *)vs; TimeSim *t = (TimeSim *)vt; if (point == SIM_STEP_BEGIN) ++step_;
  if (const char *k = getenv("KIT_RAISE")) {      // "step point signal seconds;..." : at once, or after some seconds
    for (const char *q = k; q && *q; q = strchr(q, ';') ? strchr(q, ';') + 1 : nullptr) { long a; int p, g; double s = 0;
      if (sscanf(q, "%ld %d %d %lf", &a, &p, &g, &s) >= 3 && a == step_ && p == point) { if (s <= 0) raise(g); else std::thread([g, s] { usleep((useconds_t)(s * 1e6)); kill(getpid(), g); }).detach(); } } }
  if (point == SIM_DISTRIBUTED) { if (const char *k = getenv("KIT_PLACE")) place(s, k); if (const char *k = getenv("KIT_FIELDS")) fields(s, k); }
  if (getenv("KIT_DUMP") && point >= SIM_DISTRIBUTED) dump(s, point);
  const char *f = getenv("KIT_STATE"); if (!f || point < SIM_DISTRIBUTED) return;
  static FILE *o = nullptr; if (!o) o = fopen(kit_np > 1 ? (std::string(f) + "." + std::to_string(kit_rank)).c_str() : f, "w");
  std::map<std::string, long> n; std::map<std::string, double> w, vmax; long badcell = 0, badowner = 0, bad = 0; std::string inj;
  for (unsigned i = 0; i < s->r_domains; ++i) for (unsigned j = 0; j < s->z_domains; ++j) {
    Domain *d = s->domains(i, j);
    for (auto ps : d->species_p) { n[ps->name] += 0; for (auto p : ps->particles) {
      n[ps->name]++; w[ps->name] += p->weight; double v = sqrt(p->vel_r * p->vel_r + p->vel_phi * p->vel_phi + p->vel_z * p->vel_z); if (!(v <= vmax[ps->name])) vmax[ps->name] = v;
      if (!(std::isfinite(p->pos_r) && std::isfinite(p->pos_z) && v < 299792458.)) ++bad;
      double cr = p->pos_r / d->geometry.cell_size[0], cz = p->pos_z / d->geometry.cell_size[1];
      if (fabs(cr - (p->cell_r + .5)) > .5 + 1e-6 || fabs(cz - (p->cell_z + .5)) > .5 + 1e-6) ++badcell;
      if (p->cell_r < d->geometry.cell_dims[0] || p->cell_r >= d->geometry.cell_dims[2] || p->cell_z < d->geometry.cell_dims[1] || p->cell_z >= d->geometry.cell_dims[3]) ++badowner; } } }
  fprintf(o, "{\"step\":%ld,\"pt\":%d,\"t\":%.12g,\"badcell\":%ld,\"badowner\":%ld,\"bad\":%ld,\"n\":{", step_, point, t->current, badcell, badowner, bad);
  const char *c = ""; for (auto &x : n) { fprintf(o, "%s\"%s\":%ld", c, x.first.c_str(), x.second); c = ","; }
  fprintf(o, "},\"w\":{"); c = ""; for (auto &x : w) { fprintf(o, "%s\"%s\":%.15g", c, x.first.c_str(), x.second); c = ","; }
  fprintf(o, "}}\n"); fflush(o);
}
