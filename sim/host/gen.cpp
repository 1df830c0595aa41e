// Seeded scenario generation: one seed -> one plan (configuration, schedule knobs, faults).
#include "scen.hpp"
#include <signal.h>
static const double C = 299792458.0;
struct G { Rng r; Plan p; int tier; G(u64 s) : r(s) {} void set(const char *k, double v) { p.num[k] = v; } double get(const char *k) { return p.n(k); } };
static void geometry(G &g, const std::vector<std::pair<int, int>> &decs, int nranks = 1) {
  auto d = g.r.pick(decs); int rd = d.first, zd = d.second;        // zd counts domains over the whole job
  int cr = g.r.range(4, 7), cz = g.r.range(4, 7);
  if (rd == 1) cr = g.r.range(6, 12);
  if (zd == 1) cz = g.r.range(6, 14);
  g.set("rd", rd); g.set("zd", zd); g.set("nranks", nranks);
  g.set("nr", rd * cr); g.set("nz", zd * cz);
  double dr = g.r.chance(0.5) ? 1e-3 : 1e-3 * (0.7 + 0.6 * g.r.unit()), dz = g.r.chance(0.4) ? dr : dr * (0.7 + 0.8 * g.r.unit());
  g.set("dr", dr); g.set("dz", dz);
  double cfl = 1 / (C * std::sqrt(1 / (dr * dr) + 1 / (dz * dz)));
  g.set("dt", g.r.chance(0.3) ? 1e-12 : cfl * (0.2 + 0.5 * g.r.unit()));
  // absorbing layers (fractions of the whole length), sometimes thicker than a domain
  auto pml = [&](int n, int per) { if (g.r.chance(0.5)) return 0.0; int c = g.r.chance(0.3) ? g.r.range(2, std::max(2, n / 2)) : g.r.range(2, std::min(per, 4)); return (c + 0.5) / n; };
  g.set("pml_l", pml(zd * cz, cz)); g.set("pml_r", pml(zd * cz, cz)); g.set("pml_o", pml(rd * cr, cr));
  g.set("sigma2", 0.05 + 0.1 * g.r.unit());
}
static void plasma(G &g, int macro_lo, int macro_hi) {
  g.set("nsp", g.r.chance(0.2) ? 3 : 2);
  g.set("macro", g.r.range(macro_lo, macro_hi));
  g.set("density", 1e15 * std::pow(10, 2 * g.r.unit()));
  static const double T[] = {1e-1, 1e2, 1e4, 2e4, 3e4, 4e4};  // the initial distribution has no meaning above m c^2
  g.set("temp", T[g.r.range(1, 5)]); g.set("temp_i", T[g.r.range(0, 4)]); g.set("ion_mass", g.r.chance(0.5) ? 1836 : g.r.range(1, 10));
  g.set("ext_b", 1e4);
}
static void steps(G &g, int lo, int hi) {
  int n = g.r.range(lo, hi); double dt = g.get("dt");
  // number of steps actually taken when time is accumulated the way a clock is; never exactly on the limit
  g.set("nsteps", n); g.set("tend", (n - 0.5) * dt); g.set("max_steps", n + 1);
}
static void beams(G &g, int n) {
  g.set("nbeam", n); g.set("beam_ratio", 2);
  double dr = g.get("dr"), dz = g.get("dz"), dt = g.get("dt"); int nr = g.get("nr"), ns = g.get("nsteps");
  double sum = nr * g.get("nz") * g.get("nsp");
  for (int i = 0; i < n; ++i) {
    std::string k = "b" + std::to_string(i) + "_"; auto S = [&](const char *x, double v) { g.p.num[k + x] = v; };
    double vel = C * (0.3 + 0.65 * g.r.unit()); S("vel", vel);
    int len = g.r.range(2, 6), gap = g.r.range(1, 4), am = g.r.range(1, 3);      // in steps
    double frac = g.r.chance(0.3) ? 0 : g.r.unit();
    S("len", vel * dt * (len + frac)); S("dist", vel * dt * (gap + g.r.unit())); S("amount", am);
    S("start", g.r.chance(0.4) ? 0 : dt * g.r.range(0, std::max(1, ns / 3)) + dt * 0.3);
    S("rad", dr * (1 + (nr - 2.6) * g.r.unit())); S("dens", 1e15 * std::pow(10, g.r.unit()));
    sum += (g.p.n(k + "rad") / dr) * (g.p.n(k + "len") * am / dz) * 2;
  }
  double norm = g.get("macro") / sum;
  for (int i = 0; i < n; ++i) {
    std::string k = "b" + std::to_string(i) + "_"; double am = g.p.n(k + "amount"), len = g.p.n(k + "len"), rad = g.p.n(k + "rad");
    double macro = std::floor((rad / dr) * (len * am / dz) * norm * 2);
    double first = nr / g.get("rd") * dr; double share = std::min(1.0, first / rad);
    g.p.num[k + "minper"] = std::floor(std::floor(macro / am * share) * g.p.n(k + "vel") * dt / len) >= 2 ? 1 : 0;
  }
}
static void probes(G &g, int n, bool specie, bool heavy) {
  int nr = g.get("nr"), nz = g.get("nz"); std::vector<Probe> v; std::set<std::string> used;
  static const char *fc[] = {"E/r", "E/phi", "E/z", "H/r", "H/phi", "H/z", "J/r", "J/phi", "J/z"};
  static const char *sc[] = {"density", "density", "temperature", "energy", "momentum/r", "momentum/phi", "momentum/z"};
  for (int i = 0; i < n; ++i) {
    Probe p; bool s = specie && g.r.chance(0.4);
    if (s) { p.comp = sc[g.r.below(heavy ? 7 : 2)]; p.specie = g.get("nsp") > 1 && g.r.chance(0.5) ? "ions" : "electrons"; if (g.get("nbeam") > 0 && g.r.chance(0.3)) p.specie = "beam_electrons"; }
    else p.comp = fc[g.r.below(9)];
    double u = g.r.unit();
    p.shape = u < 0.4 ? "rec" : u < 0.6 ? "col" : u < 0.8 ? "row" : "dot";
    int bw = nr / (int)g.get("rd"), bz = nz / (int)g.get("zd");
    if (p.shape == "rec") {
      if (g.r.chance(0.3)) { p.r0 = p.z0 = 0; p.r1 = nr; p.z1 = nz; }
      else { p.r0 = g.r.range(0, nr - 1); p.r1 = g.r.range(p.r0 + 1, nr); p.z0 = g.r.range(0, nz - 1); p.z1 = g.r.range(p.z0 + 1, nz); 
        if (g.r.chance(0.4)) { p.r0 = p.r0 / bw * bw; p.z0 = p.z0 / bz * bz; p.r1 = (p.r1 + bw - 1) / bw * bw; p.z1 = (p.z1 + bz - 1) / bz * bz; } }
    } else { p.r1 = g.r.range(0, nr - 1); p.z1 = g.r.range(0, nz - 1); if (g.r.chance(0.4)) { p.r1 = p.r1 / bw * bw; p.z1 = p.z1 / bz * bz; }
      if (p.shape == "col") p.r1 = 0; if (p.shape == "row") p.z1 = 0; }
    p.sched = g.r.chance(0.35) ? 1 : g.r.range(2, 5);
    if (!used.insert(probe_path(p)).second) continue;
    v.push_back(p);
  }
  if (v.empty()) { Probe p; p.comp = "E/z"; p.shape = "rec"; p.r1 = nr; p.z1 = nz; p.sched = 1; v.push_back(p); }
  g.p.str["probes"] = format_probes(v);
}
static void threads(G &g, bool preempt) {
  static const int T[] = {2, 3, 4, 8};
  g.set("threads", T[g.r.below(4)]);
  g.set("preempt_mean", preempt ? (g.r.chance(0.3) ? 200 : g.r.chance(0.5) ? 2000 : 20000) : 0);
}
// random field amplitudes to start from, so that every component takes part from the first step on
static void seed_fields(G &g) { g.set("seed_e", std::pow(10, 4 + 4 * g.r.unit())); g.set("seed_h", std::pow(10, 1 + 4.5 * g.r.unit())); }
static void add_fault(G &g, const std::string &k, u64 at, long arg) { g.p.faults.push_back({k, at, arg}); }
// in a message-passing job the launcher forwards a signal to every process, or the user signals one of them
static std::string sigkind(G &g) { return g.get("nranks") > 1 && g.r.chance(0.7) ? "%signal_all" : "%signal"; }
static const std::vector<std::pair<int, int>> OMPD = {{1, 1}, {1, 2}, {2, 1}, {2, 2}, {2, 2}, {4, 1}, {1, 4}, {4, 2}, {2, 4}, {4, 4}};
static const std::vector<std::pair<int, int>> MULTI = {{1, 2}, {2, 1}, {2, 2}, {2, 2}, {4, 1}, {1, 4}, {4, 2}, {2, 4}, {4, 4}};
static void mpi_geo(G &g) {
  int n = g.r.range(2, 4); std::vector<std::pair<int, int>> d;
  for (int r : {1, 2, 4}) for (int z : {1, 2}) d.push_back({r, z * n});
  if (n == 3) d = {{1, 6}, {2, 6}, {4, 6}};           // the amount of domains must be even
  if (n == 4) d = {{1, 4}, {2, 4}, {2, 8}};
  geometry(g, d, n); g.set("variant_mpi", 1);
  g.set("rank_switch", g.r.chance(0.3) ? 0.9 : g.r.unit()); g.set("rendezvous", g.r.chance(0.3) ? 1 : g.r.chance(0.5) ? 0 : g.r.unit());
  // message passing splits everything evenly: the particle budget must divide too
}
// the same property in a program built with other physics switches
static void variant(G &g, double p, std::vector<const char *> v) { if (g.r.chance(p)) g.p.str["variant"] = g.r.pick(v); }
Plan gen_plan(const std::string &prop, u64 seed, int tier) {
  G g(mix(hstr(prop.c_str()), seed)); g.tier = tier; g.p.prop = prop; g.p.seed = seed;
  g.set("chk_exit", 1); g.set("threads", 1);
  g.set("garbage", g.r.range(1, 3));
  auto R_ = [&] { return g.r.unit(); }; (void)R_;
  if (prop == "C01") {
    bool mpi = g.r.chance(0.5);
    if (mpi) { mpi_geo(g); if (g.r.chance(0.4)) threads(g, true); } else { geometry(g, OMPD); threads(g, true); }
    plasma(g, 200, 900); steps(g, 4, 14); if (g.r.chance(0.6)) beams(g, g.r.range(1, 2));
    probes(g, 1, false, false); g.set("chk_particles", 1); g.set("race", 1);
    if (!mpi) variant(g, 0.35, {"b", "e"});
  } else if (prop == "C02") {
    geometry(g, MULTI); threads(g, true); plasma(g, 200, 700); steps(g, 3, 9); if (g.r.chance(0.6)) beams(g, g.r.range(1, 2));
    probes(g, g.r.range(1, 4), true, true); g.set("race", 1);
    g.set("pair", 1); g.set("ref_rd", g.get("rd")); g.set("ref_zd", g.get("zd"));
    g.set("pair_store", 1); variant(g, 0.4, {"b", "d", "e"}); if (g.r.chance(0.5)) seed_fields(g);
  } else if (prop == "C03") {
    geometry(g, MULTI); threads(g, g.r.chance(0.3)); plasma(g, 200, 700); steps(g, 4, 12); if (g.r.chance(0.4)) beams(g, 1);
    probes(g, g.r.range(1, 4), true, true); g.set("pair", 1); g.set("pair_store", 1);
    variant(g, 0.5, {"b", "c", "d", "e"}); if (g.r.chance(0.5)) seed_fields(g);
  } else if (prop == "C04") {
    mpi_geo(g); if (g.r.chance(0.2)) threads(g, true); plasma(g, 200, 700); steps(g, 4, 12); if (g.r.chance(0.4)) beams(g, 1);
    probes(g, g.r.range(1, 3), true, true); g.set("pair", 1); g.set("pair_store", 1);
    variant(g, 0.3, {"b", "d"}); if (g.r.chance(0.5)) seed_fields(g);
  } else if (prop == "C05") {
    mpi_geo(g); plasma(g, 100, 500); steps(g, 3, 10); if (g.r.chance(0.6)) beams(g, g.r.range(1, 2));
    probes(g, g.r.range(1, 4), true, true);
  } else if (prop == "C06" || prop == "C07") {
    if (g.r.chance(0.25)) { mpi_geo(g); } else { geometry(g, OMPD); threads(g, g.r.chance(0.3)); }
    plasma(g, 60, 200); steps(g, 8, prop == "C06" ? 60 : 20); if (g.r.chance(0.3)) beams(g, 1);
    if (prop == "C07" && !g.p.num.count("variant_mpi")) variant(g, 0.3, {"c", "e"});
    probes(g, g.r.range(2, 7), true, true); g.set("chk_output", 1); g.set("chk_content", 1);
    if (g.r.chance(0.2)) g.set("debug_log", 1);
  } else if (prop == "C12") {
    if (g.r.chance(0.2)) mpi_geo(g); else { geometry(g, OMPD); threads(g, g.r.chance(0.5)); }
    plasma(g, 400, 1500); steps(g, 15, 40); beams(g, g.r.range(1, 3)); probes(g, 1, false, false); g.set("chk_beam", 1);
  } else if (prop == "C13") {
    if (g.r.chance(0.3)) mpi_geo(g); else { geometry(g, OMPD); threads(g, g.r.chance(0.5)); }
    plasma(g, 200, 800); steps(g, 8, 30); g.set("temp", 4e4); g.set("temp_i", 4e4); g.set("ion_mass", g.r.range(1, 4)); probes(g, 1, false, false); g.set("chk_plasma", 1);
    if (!g.p.num.count("variant_mpi")) variant(g, 0.5, {"b", "c", "d", "e"});
  } else if (prop == "C14") {
    if (g.r.chance(0.35)) { mpi_geo(g); if (g.r.chance(0.3)) threads(g, true); } else { geometry(g, OMPD); threads(g, true); }
    plasma(g, 100, 600); steps(g, 4, 15); if (g.r.chance(0.6)) beams(g, g.r.range(1, 3)); probes(g, g.r.range(1, 9), true, true);
    if (g.r.chance(0.3)) g.set("debug_log", 1); g.set("race", g.r.chance(0.5) ? 1 : 0);
    if (!g.p.num.count("variant_mpi")) variant(g, 0.4, {"b", "e"});
  } else if (prop == "C15") {
    if (g.r.chance(0.2)) mpi_geo(g); else geometry(g, OMPD);
    plasma(g, 60, 300); steps(g, 1, 3); if (g.r.chance(0.5)) beams(g, g.r.range(1, 3)); probes(g, g.r.range(1, 6), true, true); g.set("chk_meta", 1);
    if (!g.p.num.count("variant_mpi")) variant(g, 0.6, {"b", "c", "d", "e"});
  }
  else if (prop == "C17" || prop == "C18") {
    if (g.r.chance(0.25)) { mpi_geo(g); if (g.r.chance(0.2)) threads(g, true); } else { geometry(g, OMPD); threads(g, g.r.chance(0.5)); }
    plasma(g, 100, 500); steps(g, 3, 12); if (g.r.chance(0.5)) beams(g, g.r.range(1, 2)); probes(g, 1, false, false);
    static const char *V[] = {"", "b", "c", "d", "e"}; if (prop == "C18" && !g.p.num.count("variant_mpi")) g.p.str["variant"] = V[g.r.below(5)];
    if (g.r.chance(0.5)) g.set("ext_e", std::pow(10, 3 + 4 * g.r.unit()));
    seed_fields(g); g.set(prop == "C17" ? "chk_fields" : "chk_push", 1); g.set("chk_quiet", 1);
  }
  else if (prop == "C19") {
    if (g.r.chance(0.25)) { mpi_geo(g); if (g.r.chance(0.2)) threads(g, true); } else { geometry(g, OMPD); threads(g, g.r.chance(0.5)); }
    static const char *V[] = {"", "c", "d"}; if (!g.p.num.count("variant_mpi")) g.p.str["variant"] = V[g.r.below(3)];
    plasma(g, 100, 700); steps(g, 2, 8); if (g.r.chance(0.6)) beams(g, g.r.range(1, 3)); probes(g, 1, false, false);
    if (g.r.chance(0.4)) seed_fields(g); if (g.r.chance(0.5)) g.set("axis_velocities", 1); g.set("chk_current", 1); g.set("chk_quiet", 1);
  }
  else if (prop == "C20") {
    if (g.r.chance(0.25)) mpi_geo(g); else { geometry(g, OMPD); threads(g, g.r.chance(0.3)); }
    if (!g.p.num.count("variant_mpi") && g.r.chance(0.3)) g.p.str["variant"] = "b";
    plasma(g, 100, 700); steps(g, 2, 8); if (g.r.chance(0.6)) beams(g, g.r.range(1, 3)); probes(g, g.r.range(4, 12), true, true);
    if (g.r.chance(0.4)) seed_fields(g); if (g.r.chance(0.3)) g.set("axis_velocities", 1); g.set("chk_moments", 1);
  }
  else if (prop == "C21") {
    if (g.r.chance(0.25)) mpi_geo(g); else { geometry(g, OMPD); threads(g, g.r.chance(0.5)); }
    static const char *V[] = {"", "b", "c", "d", "e"}; if (!g.p.num.count("variant_mpi")) g.p.str["variant"] = V[g.r.below(5)];
    plasma(g, 100, 4000); steps(g, 1, 2); if (g.r.chance(0.4)) beams(g, g.r.range(1, 3)); probes(g, 1, false, false);
    g.set("chk_initial", 1);
  }
  else if (prop == "C22") {
    if (g.r.chance(0.25)) mpi_geo(g); else { geometry(g, OMPD); if (g.r.chance(0.2)) g.p.str["variant"] = "b"; }
    plasma(g, 40, 120); steps(g, 1, 2); if (g.r.chance(0.6)) beams(g, g.r.range(1, 3)); probes(g, g.r.range(1, 4), true, true); g.set("chk_exit", 0);
    std::string how, v = g.p.s("variant"); char b[80]; double u = g.r.unit(), x = g.r.unit();
    static const char *K[] = {"macro_amount", "beam_plasma_macro_size_ratio", "log_file", "radius", "longitude", "end", "step", "start_time", "charge", "mass", "density", "temperature", "name", "velocity", "amount", "distance", "length",
      "radial", "longitudinal", "data_root", "use", "level", "schedule", "shape", "component", "left_wall", "sigma_1", "sigma_2", "formfactor"};
    static const char *RL[] = {"probe_component", "probe_shape", "probe_outside", "probe_reversed", "specie_twice", "beam_twice", "odd_domains", "no_electrons", "field_profile"};
    if (u < 0.3) snprintf(b, sizeof b, "torn %.9f", g.r.chance(0.2) ? 0.999 + x * 0.001 : x);
    else if (u < 0.33) snprintf(b, sizeof b, "missing");
    else if (u < 0.65) { const char *k = K[g.r.below(29)]; bool bm = !g.get("nbeam"); auto is = [&](const char *a) { return !strcmp(k, a); };
      if (v == "b" ? is("left_wall") || is("sigma_1") || is("sigma_2") : is("formfactor")) k = "macro_amount";
      if (bm && (is("start_time") || is("velocity") || is("amount") || is("distance") || is("length") || is("radial") || is("longitudinal"))) k = "temperature";
      snprintf(b, sizeof b, "%s %s %.9f", g.r.chance(0.5) ? "type" : "drop", k, x); }
    else { const char *k = RL[g.r.below(v == "b" ? 9 : 8)]; if (!strcmp(k, "no_electrons")) { g.set("nsp", 2); g.set("ion_mass", 1836); } snprintf(b, sizeof b, "rule %s %.9f", k, x); }
    g.p.str["cfg_fault"] = b;
  }
  else if (prop == "C24") {
    if (g.r.chance(0.35)) mpi_geo(g); else { geometry(g, OMPD); threads(g, g.r.chance(0.3)); g.set("preempt_mean", g.get("preempt_mean") ? 20000 : 0); }
    if (!g.p.num.count("variant_mpi") && g.r.chance(0.2)) g.p.str["variant"] = "b";
    plasma(g, 40, 80); int n = g.r.chance(0.25) ? g.r.range(1, 6) : g.r.chance(0.3) ? g.r.range(100, 260) : g.r.range(5, 100);
    steps(g, n, n); g.set("tend", (n - 0.05 - 0.9 * g.r.unit()) * g.get("dt")); if (g.r.chance(0.4)) { beams(g, g.r.range(1, 2)); g.set("chk_beam", 1); }
    probes(g, g.r.range(1, 3), false, false); g.set("chk_time", 1); g.set("chk_output", 1);
  }
  // ---- composite properties: a clean run first, then runs with faults judged against it
  else if (prop == "C08") {
    bool mpi = g.r.chance(0.3); if (mpi) mpi_geo(g); else { geometry(g, OMPD); threads(g, false); g.set("fixed", 1); } plasma(g, 60, 300); steps(g, 4, 14); if (g.r.chance(0.4)) beams(g, 1);
    probes(g, g.r.range(1, 5), true, true); g.set("composite", 1); g.set("chk_pause", 1);
    int n = g.r.range(1, 3); double a = 0;
    for (int i = 0; i < n; ++i) { a += (1 - a) * g.r.unit() * 0.7; 
      if (g.r.chance(0.6)) add_fault(g, sigkind(g), (u64)(a * 1e9), SIGUSR1); else add_fault(g, "%signal_store", (u64)(a * 1e9), SIGUSR1);
      if (g.r.chance(0.2)) add_fault(g, sigkind(g), (u64)((a + 0.01) * 1e9), SIGUSR1);
      if (g.r.chance(0.15)) add_fault(g, sigkind(g), (u64)((a + 0.02) * 1e9), SIGUSR2); }
    g.set("resume_after", g.r.range(1, 6));
    if (g.r.chance(0.2)) add_fault(g, sigkind(g), (u64)(g.r.unit() * 1e9), SIGUSR2);
  } else if (prop == "C09") {
    bool mpi = g.r.chance(0.3); if (mpi) mpi_geo(g); else { geometry(g, OMPD); threads(g, false); g.set("fixed", 1); } plasma(g, 60, 300); steps(g, 3, 12); if (g.r.chance(0.3)) beams(g, 1);
    probes(g, g.r.range(1, 5), true, true); g.set("composite", 1);
    static const int S[] = {SIGTERM, SIGTERM, SIGINT, SIGQUIT, SIGPIPE, SIGTSTP};
    int sig = S[g.r.below(6)];
    if (g.r.chance(0.25)) { add_fault(g, sigkind(g), (u64)(g.r.unit() * 0.9e9), SIGUSR1); add_fault(g, "signal_sleep", g.r.range(1, 3), sig); g.set("resume_after", 50); }
    else if (g.r.chance(0.55)) add_fault(g, "%signal_store", (u64)(g.r.unit() * 1e9), sig);
    else add_fault(g, sigkind(g), (u64)(g.r.unit() * 1e9), sig);
    if (g.r.chance(0.15)) add_fault(g, sigkind(g), (u64)(g.r.unit() * 1e9), sig);
  } else if (prop == "C10") {
    if (g.r.chance(0.3)) mpi_geo(g); else { geometry(g, OMPD); threads(g, false); g.set("fixed", 1); } plasma(g, 60, 200); steps(g, 3, 10);
    probes(g, g.r.range(1, 5), true, true); g.set("composite", 1);
    double u = g.r.unit(); u64 at = (u64)(g.r.unit() * 1e9);
    if (u < 0.55) add_fault(g, "%h5_error", at, 0);
    else if (u < 0.75) { add_fault(g, "%h5_full", at, g.r.chance(0.5) ? 0 : g.r.range(1, 6)); }
    else if (u < 0.8) add_fault(g, "mkdir", 0, g.r.chance(0.5) ? 13 : 28);
    else add_fault(g, "%alloc", at, 0);
    g.set("torn", g.r.chance(0.5));
  } else if (prop == "C11") {
    if (g.r.chance(0.2)) mpi_geo(g); else geometry(g, OMPD);
    plasma(g, 40, 120); steps(g, 1, 4); probes(g, g.r.range(1, 4), true, true); g.set("chk_exit", 0); g.set("composite", 1);
    g.set("prefill", 1 + g.r.below(3));
  } else if (prop == "C16") {
    if (g.r.chance(0.25)) mpi_geo(g); else { geometry(g, OMPD); threads(g, false); g.set("fixed", 1); } plasma(g, 60, 300); steps(g, 3, 12); if (g.r.chance(0.5)) beams(g, g.r.range(1, 2));
    probes(g, g.r.range(2, 8), true, true); g.set("composite", 1);
    add_fault(g, "clock", 1 + g.r.below(100000), g.r.range(-100000, 100000)); g.set("plain_stack", g.r.chance(0.3));
  } else if (prop == "C23") {
    if (g.r.chance(0.25)) mpi_geo(g); else { geometry(g, OMPD); threads(g, false); g.set("fixed", 1); static const char *V[] = {"", "", "b", "c", "d"}; g.p.str["variant"] = V[g.r.below(5)]; }
    plasma(g, 60, 300); steps(g, 2, 10); if (g.r.chance(0.5)) beams(g, g.r.range(1, 2));
    probes(g, g.r.range(1, 6), true, true); auto A = parse_probes(g.p.s("probes")); probes(g, g.r.range(1, 8), true, true); auto B = parse_probes(g.p.s("probes")); std::set<std::string> used; std::vector<Probe> v;
    for (auto &q : A) if (g.r.chance(0.6)) { used.insert(probe_path(q)); v.push_back(q); }
    for (auto &q : B) { bool clash = false; for (auto &o : A) if (probe_path(o) == probe_path(q)) clash = true; if (!clash && used.insert(probe_path(q)).second) v.push_back(q); }
    if (v.empty()) v.push_back(A[0]);
    for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[g.r.below(i)]);
    g.p.str["probes"] = format_probes(A); g.p.str["probes2"] = format_probes(v); g.set("debug_log2", g.r.chance(0.3)); g.set("composite", 1); g.set("chk_quiet", 1); if (g.r.chance(0.4)) seed_fields(g);
  } else { fprintf(stderr, "unknown property %s\n", prop.c_str()); exit(2); }
  return g.p;
}
