#include "scen.hpp"
#include <fstream>
#include <signal.h>
// ---------------------------------------------------------------- probes: comp,specie,shape,r0,z0,r1,z1,sched;...
std::vector<Probe> parse_probes(const std::string &s) {
  std::vector<Probe> v; std::stringstream ss(s); std::string t;
  while (std::getline(ss, t, ';')) {
    if (t.empty()) continue;
    std::stringstream q(t); Probe p; std::string x;
    std::getline(q, p.comp, ','); std::getline(q, p.specie, ','); std::getline(q, p.shape, ',');
    int *f[] = {&p.r0, &p.z0, &p.r1, &p.z1, &p.sched};
    for (auto i : f) { std::getline(q, x, ','); *i = atoi(x.c_str()); }
    v.push_back(p);
  }
  return v;
}
std::string format_probes(const std::vector<Probe> &v) {
  std::string s; char b[128];
  for (auto &p : v) { s += p.comp + "," + p.specie + "," + p.shape; snprintf(b, sizeof b, ",%d,%d,%d,%d,%d;", p.r0, p.z0, p.r1, p.z1, p.sched); s += b; }
  return s;
}
static bool specie_based(const std::string &c) { return c == "temperature" || c == "energy" || c == "density" || c.compare(0, 8, "momentum") == 0; }
// where a reader of the data file looks for the probe (documented layout)
std::string probe_path(const Probe &p) {
  std::string s = p.comp + "/"; if (specie_based(p.comp)) s += p.specie + "/";
  auto n = [](int v) { return std::to_string(v); };
  if (p.shape == "rec") s += "rec/" + n(p.r0) + "-" + n(p.r1) + "_" + n(p.z0) + "-" + n(p.z1);
  else if (p.shape == "col") s += "col/" + n(p.z1);
  else if (p.shape == "row") s += "row/" + n(p.r1);
  else s += "dot/" + n(p.r1) + "_" + n(p.z1);
  return s;
}
static std::string num(double d) { char b[40]; snprintf(b, sizeof b, "%.17g", d); return b; }
// what a reader of the configuration may meet: a torn file, a value of the wrong type, a value outside of the admitted range
static std::string damage_config(std::string s, const std::string &how) {
  if (how.empty() || how == "missing") return s;
  std::stringstream q(how); std::string kind, key; double x = 0; q >> kind >> key >> x;
  if (kind == "torn") { double f = strtod(key.c_str(), 0); return s.substr(0, std::min(s.size() - 1, (size_t)(f * s.size()))); }
  auto value = [&](const std::string &k, int nth, const std::string &v) {
    std::string pat = "\"" + k + "\":"; std::vector<size_t> at; for (size_t i = s.find(pat); i != std::string::npos; i = s.find(pat, i + 1)) if (s[i + pat.size()] != '{' && s[i + pat.size()] != '[') at.push_back(i + pat.size());
    if (at.empty()) return false;
    size_t b = at[nth % at.size()], e = b; if (s[b] == '"') { e = s.find('"', b + 1) + 1; } else while (e < s.size() && !strchr(",}]", s[e])) ++e;
    if (v == "*") s.replace(b, e - b, s[b] == '"' ? "12" : x > 0.5 ? "\"12\"" : "null"); else if (v == "-") { size_t c = b - pat.size(); bool tail = s[e] == ','; s.erase(c, e + tail - c); if (!tail && c && s[c - 1] == ',') s.erase(c - 1, 1); } else s.replace(b, e - b, v);
    return true; };
  if (kind == "type") value(key, (int)(x * 997), "*");
  else if (kind == "drop") value(key, (int)(x * 997), "-");
  else if (key == "probe_shape") value("shape", 0, "\"ball\"");
  else if (key == "probe_outside") { auto grid = [&](const char *d) { size_t g = s.find("\"grid\""), i = s.find(std::string("\"") + d + "\":", g); return strtod(s.c_str() + i + strlen(d) + 3, 0); }; size_t i = s.find("\"shape\""); std::string sh = s.substr(i + 9, 3); size_t a = s.find(sh == "rec" ? "\"end\":{\"r\":" : sh == "col" ? "\"z\":" : "\"r\":", i), b = s.find(':', sh == "rec" ? a + 6 : a) + 1, e = b; while (!strchr(",}", s[e])) ++e; s.replace(b, e - b, x < 0.4 ? "100000" : x < 0.7 || sh == "rec" ? num(grid(sh == "col" ? "longitude" : "radius") + (sh == "rec")) : x < 0.85 ? "-1" : "-3"); }
  else if (key == "probe_component") value("component", 0, x < 0.3 ? "\"E_r\"" : x < 0.6 ? "\"velocity\"" : x < 0.8 ? "\"\"" : "\"E/r \"");
  else if (key == "probe_reversed") { size_t i = s.find("\"start\":{\"r\":"); if (i == std::string::npos) return s.substr(0, s.size() / 2); size_t b = i + 13, e = s.find(',', b), z = s.find("\"end\":{\"r\":", i) + 11, y = s.find(',', z); double lo = strtod(s.c_str() + z, 0); (void)y; s.replace(b, e - b, num(lo + 1)); }
  else if (key == "specie_twice") value("name", 1, "\"electrons\"");
  else if (key == "beam_twice") { size_t i = s.find("\"beams\":["), a = s.find("{", i), b = s.find("\"rectangle\"}}}", i); if (b == std::string::npos) return s.substr(0, s.size() / 2); b += 14; s.insert(b, "," + s.substr(a, b - a)); }
  else if (key == "odd_domains") { size_t i = s.find("\"domains_amount\":{\"radius\":") + 28, e = s.find(',', i); s.replace(i, e - i, "3"); }
  else if (key == "no_electrons") value("density", 0, "0");
  else if (key == "field_profile") value("formfactor", (int)(x * 2), "\"spiral\"");
  return s;
}
std::string make_config(const Plan &p, int group) {
  bool ref = group == 1;
  int nr = p.n("nr"), nz = p.n("nz");
  double dr = p.n("dr"), dz = p.n("dz"), dt = p.n("dt");
  int rd = ref ? p.n("ref_rd", 1) : p.n("rd", 1), zd = ref ? p.n("ref_zd", 1) : p.n("zd", 1);
  std::string s = "{\"macro_amount\":" + num(p.n("macro")) + ",\"beam_plasma_macro_size_ratio\":" + num(p.n("beam_ratio", 2)) +
    ",\"log_file\":\"/dev/null\",\"comment\":\"sim\",\"geometry\":{\"size\":{\"radius\":" + num(nr * dr) + ",\"longitude\":" + num(nz * dz) +
    "},\"grid\":{\"radius\":" + num(nr) + ",\"longitude\":" + num(nz) + "},\"domains_amount\":{\"radius\":" + num(rd) + ",\"longitude\":" + num(zd) +
    "},\"pml\":{\"left_wall\":" + num(p.n("pml_l")) + ",\"right_wall\":" + num(p.n("pml_r")) + ",\"outer_wall\":" + num(p.n("pml_o")) +
    ",\"sigma_1\":1e-5,\"sigma_2\":" + num(p.n("sigma2", 0.07)) + "}},\"time\":{\"start\":0,\"end\":" + num(p.n("tend")) + ",\"step\":" + num(dt) + "}," +
    "\"external_fields\":{\"electric\":{\"formfactor\":\"" + (p.n("ext_e") ? "const_z" : "none") + "\",\"params\":[" + num(p.n("ext_e", 0)) + ",20,30]},\"magnetic\":{\"formfactor\":\"const_z\",\"params\":[" + num(p.n("ext_b", 1e4)) + "]}},\"particles\":[";
  int ns = p.n("nsp", 2);
  static const char *nm[] = {"electrons", "ions", "positrons", "heavy"};
  static const int ch[] = {-1, 1, 1, 2}, ms[] = {1, 1836, 1, 7344};
  for (int i = 0; i < ns; ++i) {
    if (i) s += ",";
    s += std::string("{\"name\":\"") + nm[i] + "\",\"charge\":" + num(ch[i]) + ",\"mass\":" + num(ms[i] == 1836 ? p.n("ion_mass", 1836) : ms[i]) +
      ",\"density\":" + num(p.n("density", 1e16)) + ",\"temperature\":" + num(i == 0 ? p.n("temp", 1e4) : p.n("temp_i", 1e4)) + "}";
  }
  s += "],\"beams\":[";
  int nb = p.n("nbeam", 0);
  for (int i = 0; i < nb; ++i) {
    std::string k = "b" + std::to_string(i) + "_";
    if (i) s += ",";
    s += std::string("{\"name\":\"") + (i == 0 ? "electrons" : i == 1 ? "ions" : "positrons") + "\",\"charge\":" + num(i == 0 ? -1 : 1) + ",\"mass\":1,\"velocity\":" + num(p.n(k + "vel")) + ",\"start_time\":" + num(p.n(k + "start")) +
      ",\"bunch\":{\"amount\":" + num(p.n(k + "amount")) + ",\"distance\":" + num(p.n(k + "dist")) + ",\"length\":" + num(p.n(k + "len")) +
      ",\"radius\":" + num(p.n(k + "rad")) + ",\"density\":" + num(p.n(k + "dens", 1e16)) + ",\"profile\":{\"radial\":\"rectangle\",\"longitudinal\":\"rectangle\"}}}";
  }
  s += "],\"data\":{\"data_root\":\"" + p.s("root", "./simdata") + "\",\"compression\":{\"use\":false,\"level\":1},\"probes\":[";
  bool first = true;
  for (auto &q : parse_probes(p.s("probes"))) {
    if (!first) s += ","; first = false;
    s += "{\"component\":\"" + q.comp + "\",";
    if (specie_based(q.comp)) s += "\"specie\":\"" + q.specie + "\",";
    s += "\"schedule\":" + num(q.sched) + ",\"shape\":\"" + q.shape + "\"";
    if (q.shape == "rec") s += ",\"start\":{\"r\":" + num(q.r0) + ",\"z\":" + num(q.z0) + "},\"end\":{\"r\":" + num(q.r1) + ",\"z\":" + num(q.z1) + "}";
    else { if (q.shape != "col") s += ",\"r\":" + num(q.r1); if (q.shape != "row") s += ",\"z\":" + num(q.z1); }
    s += "}";
  }
  s += "]}}";
  return group == 0 ? damage_config(s, p.s("cfg_fault")) : s;
}
// ---------------------------------------------------------------- plan files
void plan_write(const char *file, const Plan &p) {
  FILE *f = fopen(file, "w"); if (!f) { perror(file); return; }
  fprintf(f, "prop %s\nseed %llu\nexplicit %d\n", p.prop.c_str(), (unsigned long long)p.seed, p.explicit_sched ? 1 : 0);
  for (auto &k : p.num) fprintf(f, "num %s %.17g\n", k.first.c_str(), k.second);
  for (auto &k : p.str) fprintf(f, "str %s %s\n", k.first.c_str(), k.second.c_str());
  for (auto &k : p.faults) fprintf(f, "fault %s %llu %ld\n", k.kind.c_str(), (unsigned long long)k.at, k.arg);
  for (auto &k : p.sched) fprintf(f, "dec %llu %d %d\n", (unsigned long long)k.ev, k.kind, k.arg);
  fclose(f);
}
bool plan_read(const char *file, Plan &p) {
  std::ifstream f(file); if (!f) return false;
  std::string l;
  while (std::getline(f, l)) {
    std::stringstream s(l); std::string k; s >> k;
    if (k == "prop") s >> p.prop;
    else if (k == "seed") s >> p.seed;
    else if (k == "explicit") { int x; s >> x; p.explicit_sched = x; }
    else if (k == "num") { std::string a; double v; s >> a; std::string t; s >> t; v = strtod(t.c_str(), 0); p.num[a] = v; }
    else if (k == "str") { std::string a, v; s >> a; std::getline(s, v); if (!v.empty() && v[0] == ' ') v.erase(0, 1); p.str[a] = v; }
    else if (k == "fault") { Fault q; s >> q.kind >> q.at >> q.arg; p.faults.push_back(q); }
    else if (k == "dec") { Decision d; s >> d.ev >> d.kind >> d.arg; p.sched.push_back(d); }
  }
  return true;
}
