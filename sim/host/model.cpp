// Executable reference model of the numerical scheme. Every function takes the recorded state before a phase of a step,
// computes the state that phase must produce over the whole (undivided) volume and compares it with what was recorded.
#include "model.hpp"
#include "h5.hpp"
typedef long double ld;
static const ld PI_ = 3.1415926535897932L, EPS = 8.85E-12L, MU = 1.26E-6L, QE = 1.6E-19L, ME = 9.1E-31L, C_ = 3.0E8L, C2 = C_ * C_, RL = 5e7L;
static const char *CN[] = {"r", "phi", "z"};
static bool has_pml() { std::string v = P.s("variant", ""); return v == "" || v == "c" || v == "e"; }
static bool has_ext() { std::string v = P.s("variant", ""); return v == "b" || v == "d" || v == "e"; }
// ---------------------------------------------------------------- a field to start from
static double hash_unit(u64 seed, int w, int c, int i, int k) { u64 h = mix(mix(mix(seed, w * 7 + c), i + 1000), k + 1000); return (double)(h >> 11) * (1.0 / 9007199254740992.0) * 2 - 1; }
static double seeded(u64 seed, int w, int c, int i, int k, double amp) {
  if (i < 0 || k < 0 || i >= NR || k >= NZ) return 0;
  if (w == 0) {                                    // only where the scheme advances the component
    bool in = i >= 1 && k >= 1 && i <= NR - 2 && k <= NZ - 2, axis = i == 0 && k >= 1 && k <= NZ - 2, left = k == 0 && i >= 1 && i <= NR - 2;
    if (!(in || (axis && c != 1) || (left && c == 2))) return 0;
  }
  return amp * hash_unit(seed, w, c, i, k);
}
void model_seed_fields(SimView *v, double e, double h, u64 seed) {
  for (unsigned n = 0; n < v->nd; ++n) {
    SimDomain &d = v->d[n];
    for (int c = 0; c < 3; ++c) for (int w = 0; w < 2; ++w) {
      SimGrid &g = w ? d.het[c] : d.e[c];
      for (unsigned i = 0; i < g.xs + 2 * g.os; ++i) for (unsigned k = 0; k < g.ys + 2 * g.os; ++k)
        g.g[i][k] = seeded(seed, w, c, (int)d.dims[0] + (int)i - (int)g.os, (int)d.dims[1] + (int)k - (int)g.os, w ? h : e);
    }
  }
}
// ---------------------------------------------------------------- field solver
static std::vector<ld> sigma_map() {
  std::vector<ld> s((size_t)NR * NZ, 0);
  if (!has_pml()) return s;
  double dr = P.n("dr"), dz = P.n("dz"); ld s1 = 1e-5L, ds = (ld)P.n("sigma2", 0.07) - s1;
  long po = std::floor(P.n("pml_o") * NR), pl = std::floor(P.n("pml_l") * NZ), pr = std::floor(P.n("pml_r") * NZ);
  for (int i = 0; i < NR; ++i) for (int k = 0; k < NZ; ++k) {
    ld &o = s[(size_t)i * NZ + k];
    if (po && NR - i < po) { ld x = (ld)(i + 1 - NR + po) / po; o += s1 + ds * x * x; }
    if (pl && k < pl) { ld x = (ld)(pl - k) / pl; o += s1 + ds * x * x; }
    if (pr && NZ - k < pr) { ld x = (ld)(k + 1 - NZ + pr) / pr; o += s1 + ds * x * x; }
  }
  (void)dr; (void)dz;
  return s;
}
static void cell_check(const char *what, long step, int c, int i, int k, double got, ld want, ld mag) {
  if (!(fabsl((ld)got - want) <= 3e-12L * mag + 1e-300L))
    violation((std::string("field:") + what).c_str(), "step %ld: %s/%s at cell (%d,%d) is %.15g, the field equations give %.15g", step, what, CN[c], i, k, got, (double)want);
}
void model_fields(long step, const Snap &a, const Snap &b) {
  static std::vector<ld> sg; if (sg.empty()) sg = sigma_map();
  ld dr = P.n("dr"), dz = P.n("dz"), dt = P.n("dt");
  auto at = [](const std::vector<double> &v, int i, int k) -> ld { return v.empty() || i < 0 || k < 0 || i >= NR || k >= NZ ? 0 : v[(size_t)i * NZ + k]; };
  auto H = [&](int c, int i, int k) { return at(a.f[2][c], i, k); };
  auto J = [&](int c, int i, int k) { return at(a.f[3][c], i, k); };
  auto E0 = [&](int c, int i, int k) { return at(a.f[0][c], i, k); };
  auto E = [&](int c, int i, int k) { return at(b.f[0][c], i, k); };
  for (int i = 0; i < NR; ++i) for (int k = 0; k < NZ; ++k) {
    bool in = i >= 1 && k >= 1 && i <= NR - 2 && k <= NZ - 2, axis = i == 0 && k >= 1 && k <= NZ - 2, left = k == 0 && i >= 1 && i <= NR - 2;
    ld st = sg[(size_t)i * NZ + k] * dt, ke = (2 * EPS - st) / (2 * EPS + st), kh = 2 * dt / (2 * EPS + st);
    ld w[3], m[3];
    for (int c = 0; c < 3; ++c) { w[c] = E0(c, i, k); m[c] = fabsl(w[c]); }
    auto upd = [&](int c, ld curl, ld mag) { ld e = E0(c, i, k); w[c] = e * ke - (J(c, i, k) - curl) * kh; m[c] = fabsl(e) + (fabsl(J(c, i, k)) + mag) * kh; };
    if (in || axis) { ld x = H(1, i, k), y = H(1, i, k - 1); upd(0, -(x - y) / dz, (fabsl(x) + fabsl(y)) / dz); }
    if (in) { ld x = H(0, i, k), y = H(0, i, k - 1), u = H(2, i, k), v = H(2, i - 1, k); upd(1, (x - y) / dz - (u - v) / dr, (fabsl(x) + fabsl(y)) / dz + (fabsl(u) + fabsl(v)) / dr); }
    if (axis) { ld x = H(1, i, k); upd(2, x * 4 / dr, fabsl(x) * 4 / dr); }
    if (in || left) { ld x = H(1, i, k), y = H(1, i - 1, k); upd(2, (x - y) / dr + (x + y) / (2 * dr * i), (fabsl(x) + fabsl(y)) * 2 / dr); }
    for (int c = 0; c < 3; ++c) cell_check("E", step, c, i, k, b.f[0][c][(size_t)i * NZ + k], w[c], m[c]);
  }
  for (int i = 0; i < NR; ++i) for (int k = 0; k < NZ; ++k) {
    ld q = dt / MU, al[3], mg[3];
    al[0] = (E(1, i, k + 1) - E(1, i, k)) / dz; mg[0] = (fabsl(E(1, i, k + 1)) + fabsl(E(1, i, k))) / dz;
    al[1] = (E(2, i + 1, k) - E(2, i, k)) / dr - (E(0, i, k + 1) - E(0, i, k)) / dz;
    mg[1] = (fabsl(E(2, i + 1, k)) + fabsl(E(2, i, k))) / dr + (fabsl(E(0, i, k + 1)) + fabsl(E(0, i, k))) / dz;
    al[2] = -((E(1, i + 1, k) + E(1, i, k)) / (2 * dr * (i + 0.5L)) + (E(1, i + 1, k) - E(1, i, k)) / dr);
    mg[2] = (fabsl(E(1, i + 1, k)) + fabsl(E(1, i, k))) * 2 / dr;
    for (int c = 0; c < 3; ++c) {
      ld h0 = H(c, i, k); ld m = fabsl(h0) + mg[c] * q * 2;
      bool corner = c == 0 && i == NR - 1;         // advanced along the outer wall, where E_phi is held at zero
      cell_check("H", step, c, i, k, b.f[1][c][(size_t)i * NZ + k], h0 + al[c] * q / 2, m); if (!corner || al[0] == 0) cell_check("H-at-E-time", step, c, i, k, b.f[2][c][(size_t)i * NZ + k], h0 + al[c] * q, m);
    }
  }
  R->probes[50]++;
}
// ---------------------------------------------------------------- particles
struct Match { const Part *o, *n; };
static std::vector<Match> match(const Snap &a, const Snap &b) {
  std::vector<Match> r; std::unordered_map<u64, const Part *> before, bykey; std::unordered_set<u64> dup;
  auto key = [](const double *pos, unsigned sp) { return mix(mix(dbits(pos[0]), dbits(pos[2])), sp); };
  for (auto &p : a.parts) { before[p.s.mark] = &p; u64 k = key(p.s.pos, p.spid); if (!bykey.emplace(k, &p).second) dup.insert(k); }
  for (auto &p : b.parts) {
    auto it = before.find(p.s.mark); const Part *o = it == before.end() ? nullptr : it->second;
    if (!o) { u64 k = key(p.s.old, p.spid); auto j = bykey.find(k); if (j != bykey.end() && !dup.count(k)) o = j->second; }
    if (o) r.push_back({o, &p});
  }
  return r;
}
static ld charge_of(const std::string &sp) { return sp.find("electrons") != std::string::npos ? -QE : QE; }
static ld mass_of(const Part &p) { return p.sp == "ions" ? ME * (ld)P.n("ion_mass", 1836) : ME; }
struct V3 { ld x[3] = {0, 0, 0}; ld &operator[](int i) { return x[i]; } ld operator[](int i) const { return x[i]; } };
static ld dot(const V3 &a, const V3 &b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static V3 cross(const V3 &a, const V3 &b) { V3 r; r[0] = a[1] * b[2] - a[2] * b[1]; r[1] = a[2] * b[0] - a[0] * b[2]; r[2] = a[0] * b[1] - a[1] * b[0]; return r; }
static V3 add(const V3 &a, const V3 &b, ld k = 1) { V3 r; for (int i = 0; i < 3; ++i) r[i] = a[i] + k * b[i]; return r; }
static V3 mul(const V3 &a, ld k) { V3 r; for (int i = 0; i < 3; ++i) r[i] = a[i] * k; return r; }
// weights of the four nodes of a component around a position: node (i,k) holds it at half cells in the directions hr, hz
template <class F> static ld interp(F f, bool hr, bool hz, ld r, ld z) {
  ld dr = P.n("dr"), dz = P.n("dz");
  int i = (int)floorl(hr ? (r - dr / 2) / dr : r / dr), k = (int)floorl(hz ? (z - dz / 2) / dz : z / dz);
  ld r1 = r - dr / 2, r3 = r + dr / 2, r2 = hr ? (i + 1) * dr : (i + 0.5L) * dr, d1 = (k + (hz ? 1.5L : 1.0L)) * dz - z, d2 = dz - d1;
  ld v1 = dz * dr * dr * (hr ? 2 * i + 2 : 2 * i + 1), v2 = dz * dr * dr * (hr ? 2 * i + 4 : 2 * i + 3), a = (r2 * r2 - r1 * r1) / v1, b = (r3 * r3 - r2 * r2) / v2;
  return f(i, k) * d1 * a + f(i + 1, k) * d1 * b + f(i, k + 1) * d2 * a + f(i + 1, k + 1) * d2 * b;
}
static ld gamma_v(const V3 &v) { return 1 / sqrtl(1 - dot(v, v) / C2); }
static ld gamma_u(const V3 &u) { return sqrtl(1 + dot(u, u) / C2); }
static V3 rotate_boris(const V3 &u, const V3 &t) { V3 up = add(u, cross(u, t)); return add(u, cross(up, t), 2 / (1 + dot(t, t))); }
static V3 push(const std::string &scheme, const V3 &v, const V3 &e, const V3 &b, ld qm, bool rel) {     // e V/m, b T, qm = q dt / 2m
  V3 eps = mul(e, qm), tau = mul(b, qm);
  if (scheme == "boris") {
    ld g = rel ? gamma_v(v) : 1; V3 u = add(mul(v, g), eps); V3 t = rel ? mul(tau, 1 / gamma_u(u)) : tau;
    u = add(rotate_boris(u, t), eps); return rel ? mul(u, 1 / gamma_u(u)) : u;
  }
  V3 u = mul(v, gamma_v(v));
  if (scheme == "vay") {
    V3 up = add(add(u, eps, 2), cross(v, tau)); ld t2 = dot(tau, tau), s = 1 + dot(up, up) / C2 - t2, us = dot(up, tau), us2 = us * us / C2;
    ld g = sqrtl(0.5L * (s + sqrtl(s * s + 4 * (t2 + us2)))); V3 t = mul(tau, 1 / g);
    V3 n = mul(add(add(up, t, dot(up, t)), cross(up, t)), 1 / (1 + dot(t, t))); return mul(n, 1 / gamma_u(n));
  }
  V3 um = add(u, eps); ld t2 = dot(tau, tau), gm = 1 + dot(um, um) / C2 - t2, us = dot(um, tau), us2 = us * us / C2;    // Higuera and Cary
  ld g = sqrtl(0.5L * (gm + sqrtl(gm * gm + 4 * (t2 + us2)))); V3 t = mul(tau, 1 / g);
  V3 n = add(rotate_boris(um, t), eps); return mul(n, 1 / gamma_u(n));
}
void model_push(long step, const Snap &a, const Snap &f, const Snap &b) {
  ld dr = P.n("dr"), dz = P.n("dz"), dt = P.n("dt"); std::string var = P.s("variant", ""), scheme = var == "b" ? "vay" : var == "c" ? "higuera-cary" : "boris";
  ld ee = has_ext() ? P.n("ext_e") : 0, eh = has_ext() ? P.n("ext_b", 1e4) : 0;
  auto at = [&](int w, int c, int i, int k) -> ld { if (i < 0 || k < 0 || i >= NR || k >= NZ) return 0; ld x = f.f[w][c].empty() ? 0 : f.f[w][c][(size_t)i * NZ + k];
    if (c == 2 && i >= 1 && k >= 1 && i <= NR - 2 && k <= NZ - 2) x += w == 0 ? ee : eh; return x; };
  for (auto &mt : match(a, b)) {
    const Part &o = *mt.o, &n = *mt.n; ld r = o.s.pos[0], z = o.s.pos[2];
    V3 e, h; 
    for (int c = 0; c < 3; ++c) {
      e[c] = interp([&](int i, int k) { return at(0, c, i, k); }, c == 0, c == 2, r, z);
      h[c] = interp([&](int i, int k) { return at(1, c, i, k); }, c != 0, c != 2, r, z);
    }
    V3 v; for (int c = 0; c < 3; ++c) v[c] = o.s.vel[c];
    ld qm = charge_of(o.sp) * dt / (2 * mass_of(o)), v2 = dot(v, v);
    std::vector<int> rels; if (var == "" ) { if (v2 > RL * RL * (1 - 1e-9L)) rels.push_back(1); if (v2 < RL * RL * (1 + 1e-9L)) rels.push_back(0); } else rels.push_back(var == "e" ? 0 : 1);
    bool good = false; char why[700] = "";
    for (int rel : rels) {
      V3 w = push(scheme, v, e, mul(h, MU), qm, rel);
      ld x = r + w[0] * dt, y = (ld)o.s.pos[1] + w[1] * dt, zn = z + w[2] * dt, rn = hypotl(x, y), sn = y / rn, cs0 = sqrtl(1 - sn * sn);
      for (int side = 0; side < (x < 0 ? 2 : 1) && !good; ++side) {        // a path across the axis: either sense of the radial direction
        ld cs = side ? -cs0 : cs0; V3 u; u[0] = cs * w[0] + sn * w[1]; u[1] = -sn * w[0] + cs * w[1]; u[2] = w[2];
        ld er = 1e-9L * dr, ez = 1e-9L * dz;
        // reflecting walls half a cell inside the volume; both outcomes are right within rounding of a wall
        struct Alt { ld p, s; }; auto walls = [](ld p, bool lo, ld wl, bool hi, ld wh, ld eps_) { std::vector<Alt> out;
          if (lo && p < wl + eps_) out.push_back({std::max(2 * wl - p, wl), -1}); if (hi && p > wh - eps_) out.push_back({2 * wh - p, -1});
          if ((!lo || p > wl - eps_) && (!hi || p < wh + eps_)) out.push_back({p, 1}); return out; };
        auto ra = walls(rn, true, dr / 2, !o.beam, NR * dr - dr / 2, er), za = walls(zn, !o.beam, dz / 2, !o.beam, NZ * dz - dz / 2, ez);
        for (auto &R1 : ra) for (auto &Z1 : za) {
          ld vt = 2e-10L * (sqrtl(dot(w, w)) + sqrtl(v2)) + 1e-3L;
          bool okv = fabsl(n.s.vel[0] - R1.s * u[0]) <= vt && fabsl(n.s.vel[1] - u[1]) <= vt && fabsl(n.s.vel[2] - Z1.s * u[2]) <= vt;
          bool okp = fabsl(n.s.pos[0] - R1.p) <= 1e-8L * dr && fabsl(n.s.pos[2] - Z1.p) <= 1e-8L * dz && n.s.pos[1] == 0;
          if (okv && okp) good = true;
          else if (!why[0]) snprintf(why, sizeof why, "it must be at (r=%.9g, z=%.9g) cells with velocity (%.9g,%.9g,%.9g)", (double)(R1.p / dr), (double)(Z1.p / dz), (double)(R1.s * u[0]), (double)u[1], (double)(Z1.s * u[2]));
        }
      }
    }
    if (!good) violation("motion:particle", "step %ld: %s moved to (r=%.9g, z=%.9g) cells with velocity (%.9g,%.9g,%.9g); %s in the fields E=(%.6g,%.6g,%.6g) H=(%.6g,%.6g,%.6g)", step, pstr(o).c_str(), n.s.pos[0] / (double)dr, n.s.pos[2] / (double)dz,
      n.s.vel[0], n.s.vel[1], n.s.vel[2], why, (double)e[0], (double)e[1], (double)e[2], (double)h[0], (double)h[1], (double)h[2]);
    if (dbits(n.s.old[0]) != dbits(o.s.pos[0]) || dbits(n.s.old[2]) != dbits(o.s.pos[2])) violation("motion:previous-position", "step %ld: %s has the wrong previous position recorded", step, pstr(n).c_str());
    R->probes[51]++;
  }
}

// ---------------------------------------------------------------- current
// A macroparticle's charge is shared between four nodes, volume weighted; while it moves along a straight line its charge
// crosses the faces between them. The current is exactly what crosses, so that charge is conserved at every node.
static const double GX[6] = {0.1252334085114689, 0.3678314989981802, 0.5873179542866175, 0.7699026741943047, 0.9041172563704749, 0.9815606342467193},
  GW[6] = {0.2491470458134028, 0.2334925365383548, 0.2031674267230659, 0.1600783285433462, 0.1069393259953184, 0.0471753363865118};
void model_velocities(Rank *r, SimView *v) {     // some particles start along one axis only
  for (unsigned n = 0; n < v->nd; ++n) for (unsigned q = 0; q < v->d[n].nsp; ++q) { SimSpecie &sp = v->d[n].sp[q];
    for (size_t k = 0; k < sp.n; ++k) {
      SimParticle p; r->ops->get_particle(sp.p[k], &p); u64 h = mix(mix(P.seed, dbits(p.pos[0])), mix(dbits(p.pos[2]), sp.id)); double sgn = h & 1 ? 1 : -1, x = 1 + (h >> 20) % 1000 / 1000.0, w = std::sqrt(p.vel[0] * p.vel[0] + p.vel[1] * p.vel[1] + p.vel[2] * p.vel[2]);
      double top = 1.2e8; w = std::min(top, w * x * std::pow(10, (h >> 34) % 3));
      switch ((h >> 3) % 6) { case 0: p.vel[0] = sgn * w; p.vel[1] = p.vel[2] = 0; break; case 1: p.vel[2] = sgn * w; p.vel[0] = p.vel[1] = 0; break; case 2: p.vel[1] = sgn * w; p.vel[0] = p.vel[2] = 0; break;
        case 3: p.vel[0] = sgn * w; p.vel[1] = 0; p.vel[2] = -sgn * w * 0.7; break; default: continue; }
      r->ops->set_particle(sp.p[k], &p);
    } }
}
void model_current(long step, const Snap &a, const Snap &b) {
  const ld dr = P.n("dr"), dz = P.n("dz"), dt = P.n("dt"), eps = 2.3e-16L, K = 64;
  static std::vector<ld> w[3], tol[3];
  for (int c = 0; c < 3; ++c) { w[c].assign((size_t)NR * NZ, 0); tol[c].assign((size_t)NR * NZ, 0); }
  auto put = [&](int c, int i, int k, ld val, ld t) { if (i < 0 || k < 0 || i >= NR || k >= NZ) return; size_t n = (size_t)i * NZ + k; w[c][n] += val; tol[c][n] += 1e-11L * fabsl(val) + t; };
  for (auto &p : a.parts) {
    ld q = charge_of(p.sp) * (ld)p.s.weight, r0 = p.s.old[0], z0 = p.s.old[2], R1 = p.s.pos[0], Z1 = p.s.pos[2], Dr = R1 - r0, Dz = Z1 - z0;
    // across the faces
    std::vector<ld> cut = {0, 1};
    for (int k = (int)floorl(std::min(r0, R1) / dr); k <= (int)floorl(std::max(r0, R1) / dr) + 1; ++k) { ld t = Dr == 0 ? -1 : (k * dr - r0) / Dr; if (t > 0 && t < 1) cut.push_back(t); }
    for (int k = (int)floorl(std::min(z0, Z1) / dz); k <= (int)floorl(std::max(z0, Z1) / dz) + 1; ++k) { ld t = Dz == 0 ? -1 : (k * dz - z0) / Dz; if (t > 0 && t < 1) cut.push_back(t); }
    std::sort(cut.begin(), cut.end());
    ld aDr = fabsl(Dr), aDz = fabsl(Dz), zr = aDr > 1e-15L ? aDz / aDr : 0, rz = aDz > 1e-15L ? aDr / aDz : 0, rm = std::max(r0, R1), zm = std::max(z0, Z1);
    ld tz = K * eps * fabsl(q) / dz * (rm * rm / dr * zr + dr * zr + 4 * aDz * (rm / dr + 1) + zm) + fabsl(q) * 2e-15L / dz * (1 + zr);
    ld tr_ = K * eps * fabsl(q) / dr * (rm * rm / dz * zr + 4 * (aDr + aDz) * (rm / dz + 1) + rm + zm * rz) + fabsl(q) * 2e-15L / dr * (1 + rz);
    for (size_t n = 0; n + 1 < cut.size(); ++n) {
      ld t0 = cut[n], t1 = cut[n + 1], h = (t1 - t0) / 2, m = (t0 + t1) / 2; if (h <= 0) continue;
      int i = (int)floorl((r0 + m * Dr) / dr), k = (int)floorl((z0 + m * Dz) / dz); ld fz[2] = {0, 0}, fr[2] = {0, 0};
      for (int g = 0; g < 12; ++g) {
        ld t = m + (g & 1 ? h : -h) * GX[g / 2], wt = h * GW[g / 2], r = r0 + t * Dr, z = z0 + t * Dz;
        ld f = ((ld)i * (i + 1) * dr * dr / r - r + dr) / (2 * dr), df = (-(ld)i * (i + 1) * dr * dr / (r * r) - 1) / (2 * dr), s = k + 1 - z / dz;
        fz[0] += wt * f * Dz; fz[1] += wt * (1 - f) * Dz; fr[0] += wt * s * -df * Dr; fr[1] += wt * (1 - s) * -df * Dr;
      }
      auto area = [&](int x) -> ld { return x ? 2 * PI_ * x * dr * dr : PI_ * dr * dr / 4; };
      for (int x = 0; x < 2; ++x) {
        ld A = area(i + x) * dt; put(2, i + x, k, q * fz[x] / dz / A, tz / A);
        ld B = 2 * PI_ * (i + 0.5L) * dr * dz * dt; put(0, i, k + x, q * fr[x] / B, tr_ / B);
      }
    }
    // around the axis
    int i = (int)p.s.cell_r, k = (int)p.s.cell_z; ld pr = (r0 + R1) / 2, pz = (z0 + Z1) / 2, x1 = pr - dr / 2, x2 = (i + 0.5L) * dr, x3 = pr + dr / 2, d1 = (k + 0.5L) * dz - (pz - dz / 2), d2 = dz - d1;
    ld ro = q / (2 * PI_ * dz * dr * pr) * (ld)p.s.vel[1], ra = (x2 * x2 - x1 * x1) / (dz * dr * dr * (2 * i + 1)), rb = (x3 * x3 - x2 * x2) / (dz * dr * dr * (2 * i + 2));
    ld tp = 1e-12L * fabsl(ro) * (i + 1);
    put(1, i, k, ro * d1 * ra, tp); put(1, i + 1, k, ro * d1 * rb, tp); put(1, i, k + 1, ro * d2 * ra, tp); put(1, i + 1, k + 1, ro * d2 * rb, tp);
    R->probes[52]++;
  }
  for (int c = 0; c < 3; ++c) for (int i = 0; i < NR; ++i) for (int k = 0; k < NZ; ++k) {
    size_t n = (size_t)i * NZ + k; double got = b.f[3][c][n];
    if (!(fabsl(got - w[c][n]) <= tol[c][n] + 1e-300L))
      violation("current:value", "step %ld: current density J/%s at cell (%d,%d) is %.15g, the movement of the charges gives %.15g (tolerance %.3g)", step, CN[c], i, k, got, (double)w[c][n], (double)tol[c][n]);
  }
}

// ---------------------------------------------------------------- moments of the distribution, as stored by the probes
struct Cnt { ld v = 0, t = 0; void add(ld x, ld rel, ld abs_) { v += x; t += fabsl(x) * rel + abs_; } };
struct Moments { std::vector<Cnt> n, abs, p[3]; std::vector<char> skip; };
static Moments moments_of(const Snap &s, const std::string &sp) {
  Moments m; size_t N = (size_t)NR * NZ; m.n.resize(N); m.abs.resize(N); for (auto &c : m.p) c.resize(N); m.skip.assign(N, 0);
  const ld dr = P.n("dr"), dz = P.n("dz");
  for (auto &q : s.parts) {
    if (q.sp != sp) continue;
    ld r = q.s.pos[0], z = q.s.pos[2], cr = r / dr, cz = z / dz; int i = (int)floorl(cr), k = (int)floorl(cz);
    V3 v; for (int c = 0; c < 3; ++c) v[c] = q.s.vel[c]; ld va = sqrtl(dot(v, v)), g = va > RL ? gamma_v(v) : 1, mass = mass_of(q);
    auto near = [](ld x, ld y) { return fabsl(x - y) < 1e-9L; };
    if (near(cr, floorl(cr + 0.5L)) || near(cr, 0.5L) || near(cr, 1) || near(cz, floorl(cz + 0.5L)) || fabsl(va - RL) < 1e-6L * RL) {
      for (int a = i - 1; a <= i + 2; ++a) for (int b = k - 1; b <= k + 2; ++b) if (a >= 0 && b >= 0 && a < NR && b < NZ) m.skip[(size_t)a * NZ + b] = 1; }
    ld v1 = PI_ * dz * dr * dr * (2 * i + 1), v2 = PI_ * dz * dr * dr * (2 * i + 2), v0 = 2 * PI_ * dz * dr * r, d1 = (k + 1) * dz - z, d2 = z - k * dz, r1 = r - dr / 2, r2 = (i + 0.5L) * dr, r3 = r + dr / 2;
    ld inner = PI_ * (r2 * r2 - r1 * r1), outer = PI_ * (r3 * r3 - r2 * r2);
    if (cr <= 0.5L) { v0 = PI_ * dz * (2 * r * r + dr * dr / 2); inner = PI_ * (dr * dr / 2 - r * dr + r * r); }
    ld w = (ld)q.s.weight / v0, abs_ = 1e-15L * (NR + NZ) * (i + 2);
    auto put = [&](int a, int b, ld f) { if (a >= NR || b >= NZ || a < 0 || b < 0) return; size_t x = (size_t)a * NZ + b; 
      m.n[x].add(w * f, 1e-12L, fabsl(w) * abs_); ld mg = mass * g * w; m.abs[x].add(mg * va * f, 1e-12L, mg * va * abs_); for (int c = 0; c < 3; ++c) m.p[c][x].add(mg * v[c] * f, 1e-12L, fabsl(mg * v[c]) * abs_); };
    put(i, k, inner * d1 / v1); put(i + 1, k, outer * d1 / v2); put(i, k + 1, inner * d2 / v1); put(i + 1, k + 1, outer * d2 / v2);
  }
  return m;
}
void model_moments(long step, const Snap &s, const H5File &f) {
  std::map<std::string, Moments> cache;
  for (auto &pr : parse_probes(P.s("probes"))) {
    if (pr.specie.empty() || step % pr.sched) continue;
    std::string path = probe_path(pr); auto ds = f.sets.find(path); size_t fr = step / pr.sched;
    if (ds == f.sets.end() || ds->second.dims[0] <= fr) continue;        // reported elsewhere
    auto ins = cache.emplace(pr.specie, Moments()); if (ins.second) ins.first->second = moments_of(s, pr.specie);
    Moments &m = ins.first->second; Part any; any.sp = pr.specie; ld mass = mass_of(any); size_t F = ds->second.frame();
    for (size_t e = 0; e < F; ++e) {
      int r, z; if (pr.shape == "rec") { r = pr.r0 + e / (pr.z1 - pr.z0); z = pr.z0 + e % (pr.z1 - pr.z0); } else if (pr.shape == "col") { r = e; z = pr.z1; } else if (pr.shape == "row") { r = pr.r1; z = e; } else { r = pr.r1; z = pr.z1; }
      size_t x = (size_t)r * NZ + z; if (m.skip[x]) continue;
      double got = ds->second.data[fr * F + e]; Cnt n = m.n[x]; ld want = 0, tol = 0;
      if (pr.comp == "density") { want = n.v; tol = n.t; }
      else if (n.v == 0) want = 0;
      else {
        if (fabsl(n.v) < 1e3L * n.t) continue;
        auto quot = [&](Cnt c) { Cnt q; q.v = c.v / n.v; q.t = (c.t + fabsl(q.v) * n.t) / n.v * 1.1L; return q; };
        if (pr.comp.compare(0, 8, "momentum") == 0) { Cnt q = quot(m.p[pr.comp == "momentum/r" ? 0 : pr.comp == "momentum/phi" ? 1 : 2][x]); want = q.v; tol = q.t; }
        else {
          Cnt a = quot(m.abs[x]); ld p2 = a.v * a.v, t2 = 2 * fabsl(a.v) * a.t + p2 * 1e-13L;
          if (pr.comp == "temperature") for (int c = 0; c < 3; ++c) { Cnt q = quot(m.p[c][x]); p2 -= q.v * q.v; t2 += 2 * fabsl(q.v) * q.t + q.v * q.v * 1e-13L; }
          ld lim = RL * RL * mass * mass, slow = p2 / (2 * mass), fast = p2 / (sqrtl(p2 / C2 + mass * mass) + mass); // sqrt(p^2c^2+m^2c^4)-mc^2
          if (p2 < 0 && p2 > -t2) p2 = slow = fast = 0;
          want = (p2 > lim ? fast : slow) / QE; tol = (t2 / (2 * mass) + (p2 > lim ? 1e-14L * mass * C2 : 0)) / QE;
          if (fabsl(p2 - lim) <= t2 + 1e-9L * lim && fabsl((ld)got - (p2 > lim ? slow : fast) / QE) <= tol + 1e-14L * mass * C2 / QE) continue;
        }
      }
      if (!(fabsl((ld)got - want) <= tol + 1e-300L))
        violation(("moments:" + pr.comp.substr(0, pr.comp.find('/'))).c_str(), "step %ld: frame %zu of %s holds %.12g for cell (%d,%d), the particles give %.12g (tolerance %.3g)", step, fr, path.c_str(), got, r, z, (double)want, (double)tol);
      R->probes[53]++;
    }
  }
}
// ---------------------------------------------------------------- initial plasma
void model_initial(const Snap &s) {
  const ld dr = P.n("dr"), dz = P.n("dz"); std::string var = P.s("variant", "");
  const char *vel = var == "b" ? "eigen" : var == "c" ? "rectangular" : "thermal"; const char *spa = var == "b" || var == "e" ? "random" : var == "c" ? "regular" : var == "d" ? "centered" : "flat"; (void)spa;
  struct Acc { size_t n = 0; ld w = 0, k0 = 0, k1 = 0, sr = 0, sz = 0, srr = 0, szz = 0, srz = 0; V3 v, v2; };
  std::map<std::pair<int, std::string>, Acc> acc; std::map<std::string, Acc> tot;
  for (auto &p : s.parts) {
    if (p.beam) violation("initial:beam", "before the start: %s is present, beams are injected later", pstr(p).c_str());
    const DomBox &b = s.boxes[p.dom]; Acc &a = acc[{p.dom, p.sp}], &t = tot[p.sp];
    bool top = b.d[2] == (size_t)NR, right = b.d[3] == (size_t)NZ; ld er = 1e-9L * dr, ez = 1e-9L * dz;
    ld rl = b.d[0] * dr + dr / 2, rh = b.d[2] * dr + (top ? -dr / 2 : dr / 2), zl = b.d[1] * dz + dz / 2, zh = b.d[3] * dz + (right ? -dz / 2 : dz / 2), r = p.s.pos[0], z = p.s.pos[2];
    if (!(r >= rl - er && r <= rh + er && z >= zl - ez && z <= zh + ez && p.s.pos[1] == 0))
      violation("initial:position", "%s of the domain with cells r %zu..%zu z %zu..%zu is placed outside of the area the domain fills", pstr(p).c_str(), b.d[0], b.d[2], b.d[1], b.d[3]);
    ld T = p.sp == "electrons" ? P.n("temp") : P.n("temp_i"), m = mass_of(p), th = 2 * T * QE / (m * C_); if (th > RL) th *= sqrtl(1 - th * th / C2); else th = sqrtl(2 * T * QE / m);
    for (int c = 0; c < 3; ++c) {
      ld v = p.s.vel[c];
      if (!strcmp(vel, "eigen") && !(fabsl(v - th) <= 1e-9L * th)) violation("initial:velocity", "%s: every component has to be %.9g at %g eV", pstr(p).c_str(), (double)th, (double)T);
      if (!strcmp(vel, "rectangular") && !(fabsl(v) <= th * (1 + 1e-9L))) violation("initial:velocity", "%s: no component may exceed %.9g at %g eV", pstr(p).c_str(), (double)th, (double)T);
      if (!(fabsl(v) < C_)) violation("initial:velocity", "%s is faster than light", pstr(p).c_str());
      t.v[c] += v; t.v2[c] += v * v;
    }
    if (!(p.s.weight > 0)) violation("initial:weight", "%s has weight %g", pstr(p).c_str(), p.s.weight);
    ld k = p.s.weight / r; if (r > dr * 0.5000001L) { if (a.k1 == 0) a.k0 = a.k1 = k; a.k0 = std::min(a.k0, k); a.k1 = std::max(a.k1, k); }
    a.n++; a.w += p.s.weight; t.n++; ld ur = (r - rl) / (rh - rl), uz = (z - zl) / (zh - zl); a.sr += ur; a.sz += uz; a.srr += (ur - 0.5L) * (ur - 0.5L); a.szz += (uz - 0.5L) * (uz - 0.5L); a.srz += (ur - 0.5L) * (uz - 0.5L);
  }
  int ns = P.n("nsp", 2); static const char *nm[] = {"electrons", "ions", "positrons"};
  for (size_t d = 0; d < s.boxes.size(); ++d) for (int q = 0; q < ns; ++q) {
    const DomBox &b = s.boxes[d]; Acc &a = acc[{(int)d, nm[q]}];
    ld top = b.d[2] == (size_t)NR ? NR - 1 : b.d[2], bot = b.d[0], len = (b.d[3] == (size_t)NZ ? NZ - 1 : b.d[3]) - (ld)b.d[1];
    ld want = P.n("density") * PI_ * dr * dr * (top * top - bot * bot) * len * dz;
    if (!a.n) { if (!strcmp(spa, "flat") || !strcmp(spa, "random")) violation("initial:empty", "no %s are placed into the domain with cells r %zu..%zu z %zu..%zu", nm[q], b.d[0], b.d[2], b.d[1], b.d[3]); continue; }
    if (!(fabsl(a.w - want) <= 1e-9L * want)) violation("initial:amount", "%s of the domain with cells r %zu..%zu z %zu..%zu stand for %.12g particles, the configured density needs %.12g", nm[q], b.d[0], b.d[2], b.d[1], b.d[3], (double)a.w, (double)want);
    if (a.k1 > a.k0 * (1 + 1e-9L)) violation("initial:weight", "weights of %s in the domain with cells r %zu..%zu z %zu..%zu are not proportional to the radius (%.9g to %.9g per metre)", nm[q], b.d[0], b.d[2], b.d[1], b.d[3], (double)a.k0, (double)a.k1);
    if (!strcmp(spa, "flat") || !strcmp(spa, "random")) {
      ld share = (ld)NR * NZ, sum = share * ns, ratio = floorl(P.n("beam_ratio", 2)); for (int i = 0; i < (int)P.n("nbeam"); ++i) { std::string q_ = "b" + std::to_string(i) + "_"; sum += P.n(q_ + "rad") / dr * (P.n(q_ + "len") * P.n(q_ + "amount") / dz) * ratio; }
      share *= P.n("macro") / sum / (P.n("rd", 1) * P.n("zd", 1));
      if (a.n > share * (1 + 1e-9L) || a.n < share - 3) violation("initial:macroparticles", "%zu macroparticles of %s in the domain with cells r %zu..%zu z %zu..%zu, its share of the configured amount is %.3f", a.n, nm[q], b.d[0], b.d[2], b.d[1], b.d[3], (double)share);
      ld sg = 7 * 0.2887L / sqrtl(a.n) + 1.0L / a.n; if (!strcmp(spa, "flat")) sg = std::min(sg, 40.0L / a.n + 0.005L);
      if (fabsl(a.sr / a.n - 0.5L) > sg || fabsl(a.sz / a.n - 0.5L) > sg) violation("initial:uniformity", "%zu %s in the domain with cells r %zu..%zu z %zu..%zu are not spread evenly: their mean place is (%.4f, %.4f) of its extent", a.n, nm[q], b.d[0], b.d[2], b.d[1], b.d[3], (double)(a.sr / a.n), (double)(a.sz / a.n));
      if (a.n >= 200) {                              // spread and independence of the two coordinates (short quasi-random sequences are not claimed)
        ld cv = 12 * a.srz / a.n, vr = 12 * a.srr / a.n, vz = 12 * a.szz / a.n, lim = 8 / sqrtl(a.n) + 3.0L / a.n;
        if (fabsl(cv) > lim || fabsl(vr - 1) > lim || fabsl(vz - 1) > lim) violation("initial:uniformity", "%zu %s in the domain with cells r %zu..%zu z %zu..%zu are not spread evenly: relative variances %.4f and %.4f, correlation of r and z %.4f", a.n, nm[q], b.d[0], b.d[2], b.d[1], b.d[3], (double)vr, (double)vz, (double)cv);
        R->probes[56]++;
      }
    }
    R->probes[54]++;
  }
  for (auto &k : tot) {
    Acc &t = k.second; Part any; any.sp = k.first; ld m = mass_of(any), T = k.first == "electrons" ? P.n("temp") : P.n("temp_i"), th = 2 * T * QE / (m * C_); bool fast = th > RL; if (fast) th *= sqrtl(1 - th * th / C2); else th = sqrtl(2 * T * QE / m);
    if (!strcmp(vel, "eigen") || T < 100 || t.n < 100) continue;
    bool thermal = !strcmp(vel, "thermal"); if (thermal && 12 * T * QE / (m * C_) > RL && T > 1.0001e4L) continue;    // no claim near the rest energy
    ld want = th * th * (thermal ? 0.5L : 1 / 3.0L), band = 8 * sqrtl(2.0L / t.n) + (thermal ? 0.08L : 0);
    for (int c = 0; c < 3; ++c) {
      if (!(fabsl(t.v[c] / t.n) <= 8 * sqrtl(want / t.n))) violation("initial:drift", "%zu %s at %g eV have the mean velocity %.6g along %s (a single component is about %.6g)", t.n, k.first.c_str(), (double)T, (double)(t.v[c] / t.n), CN[c], (double)sqrtl(want));
      if (!(fabsl(t.v2[c] / t.n / want - 1) <= band)) violation("initial:temperature", "%zu %s at %g eV have the mean square velocity %.6g along %s, the temperature gives %.6g", t.n, k.first.c_str(), (double)T, (double)(t.v2[c] / t.n), CN[c], (double)want);
    }
    R->probes[55]++;
  }
}
