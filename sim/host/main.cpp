// Entry point of the simulator: runs seeds or replays a plan; every run lives in a forked child.
#include "sched.hpp"
#include "h5.hpp"
#include "scen.hpp"
#include "oracle.hpp"
#include <signal.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <unistd.h>
#include <time.h>
Result *R; Plan P; Rng rs, rf;
static Result *shared[4];
static std::string build_dir;
static int tier = 0;
static void finish(int st, const char *kind, const char *fmt, va_list ap) {
  mem_active = false;
  snprintf(R->kind, sizeof R->kind, "%s", kind);
  vsnprintf(R->detail, sizeof R->detail, fmt, ap);
  for (char *c = R->detail; *c; ++c) if (*c == '\n' || *c == '\t' || *c == '"' || *c == '\\') *c = ' ';
  R->status = st;
  _exit(0);
}
void violation(const char *kind, const char *fmt, ...) { va_list ap; va_start(ap, fmt); finish(2, kind, fmt, ap); va_end(ap); _exit(0); }
void harness_error(const char *fmt, ...) { va_list ap; va_start(ap, fmt); finish(3, "harness", fmt, ap); va_end(ap); _exit(0); }
static void on_crash(int s, siginfo_t *si, void *) {
  if (s == SIGALRM) violation("progress:hang", "a simulated run did not finish (event %llu, step %ld)", (unsigned long long)R->events, cur->rank ? cur->rank->step : -1);
  violation("memory:crash", "signal %d at address %lx, stack %s", s, (unsigned long)si->si_addr, where_str().c_str());
}
static void prefill() {
  int m = (int)P.n("prefill"); if (!m) return;
  std::string root = P.s("root", "./simdata"), path = root + "/data.h5";
  dirs.insert(root);
  H5File &f = disk[disk_key(0, path)]; f.path = path; f.attrs["precious"] = {"string", "earlier results"};
  if (m >= 2) { H5Set s; s.dims = {2, 3}; s.maxd = {SIZE_MAX, 3}; s.chunk = {1, 3}; s.data = {1, 2, 3, 4, 5, 6}; s.wc.assign(6, 1); f.sets["E/z/rec/0-1_0-3"] = s; f.groups.insert("E"); }
  if (m >= 3) f.unclean = true;
}
static void child_run() {
  signal(SIGALRM, SIG_DFL);
  stack_t ss; ss.ss_sp = malloc(262144); ss.ss_size = 262144; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_crash; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGALRM}) sigaction(s, &sa, nullptr);
  alarm((unsigned)P.n("wall", 100));
  int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); dup2(dn, 2);
  rs = Rng(mix(P.seed, hstr(P.prop.c_str()) ^ 0x5C4ED)); rf = Rng(mix(P.seed, 0xFA017));
  garbage_mode = (int)P.n("garbage", 1); garbage_seed = mix(P.seed, (u64)P.n("garbage_salt", 0));
  if (garbage_mode > 1) R->faults_fired[F_GARBAGE]++;
  race_detect = P.n("race") > 0; sched_fixed = P.n("fixed") > 0;
  for (auto &f : P.faults) if (f.kind == "alloc") alloc_fail_at = f.at;
  oracle_begin(); prefill();
  u64 pre = 0; std::string key = disk_key(0, P.s("root", "./simdata") + "/data.h5"); if (disk.count(key)) pre = h5_hash(disk[key]);
  std::vector<std::string> cfgs;
  for (int grp = 0; grp < (P.n("pair") > 0 ? 2 : 1); ++grp) {
    char name[64]; snprintf(name, sizeof name, "/tmp/simcfg-%d-%d.json", (int)getpid(), grp); (void)name;
    int fd = memfd_create("cfg", 0); std::string s = make_config(P, grp); if (write(fd, s.data(), s.size()) != (ssize_t)s.size()) harness_error("memfd");
    int want = 50 + grp; dup2(fd, want); close(fd);
    cfgs.push_back(P.s("cfg_fault") == "missing" && !grp ? "/nonexistent/dir/none.json" : "/proc/self/fd/" + std::to_string(want));
    if (!P.s("cfg_fault").empty() && !grp) tr(hstr(s.c_str())), R->faults_fired[F_CONFIG]++;
  }
  int nr = (int)P.n("nranks", 1); bool mpi = P.n("variant_mpi") > 0; std::string var = P.s("variant", "");
  for (int i = 0; i < nr; ++i) load_rank(build_dir + "/put_" + (mpi ? "mpi" : "omp") + var + "." + std::to_string(i) + ".so", 0, i, nr, (int)P.n("threads", 1));
  if (P.n("pair") > 0) load_rank(build_dir + "/put_omp" + var + "." + (mpi ? "0" : "1") + ".so", 1, 0, 1, 1);
  R->ranks = ranks.size();
  start_ranks(cfgs);
  oracle_finish();
  if (P.n("prefill") > 0) {
    if (!disk.count(key)) violation("existing-file:removed", "a data file that existed before the run is gone");
    if (h5_hash(disk[key]) != pre) violation("existing-file:modified", "a data file that existed before the run was changed by it");
    if (R->exit_code[0] == 0) violation("existing-file:silent", "the run reports success although the data file already existed");
  }
  if (!P.s("cfg_fault").empty()) {
    std::string c = P.s("cfg_fault");
    for (int i = 0; i < nr; ++i) if (R->exit_code[i] == 0) violation("config:accepted", "process %d reports success although its configuration is not usable (%s)", i, c.c_str());
    if (R->steps) violation("config:simulated", "%llu time steps were simulated although the configuration is not usable (%s)", (unsigned long long)R->steps, c.c_str());
    if (disk.count(key)) violation("config:stored", "a data file was created although the configuration is not usable (%s)", c.c_str());
  }
  R->status = 1;
  _exit(0);
}
static void one(const Plan &p, Result *r) {
  memset(r, 0, offsetof(Result, dec)); R = r; P = p; fflush(nullptr);
  r->trace = 1469598103934665603ull;
  for (int &c : r->exit_code) c = -1;
  pid_t c = fork();
  if (c == 0) { child_run(); _exit(0); }
  int st; waitpid(c, &st, 0);
  if (r->status == 0) { r->status = 2; snprintf(r->kind, sizeof r->kind, "memory:crash"); snprintf(r->detail, sizeof r->detail, "the simulated process died with wait status %d", st); if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { r->status = 3; snprintf(r->kind, sizeof r->kind, "harness"); } }
}
#define FAIL(k, ...) do { r->status = 2; snprintf(r->kind, sizeof r->kind, "%s", k); snprintf(r->detail, sizeof r->detail, __VA_ARGS__); return; } while (0)
static std::vector<Fault> resolve(const Plan &p, const Result *c) {
  std::vector<Fault> v;
  for (auto f : p.faults) {
    if (f.kind[0] == '%') { f.kind.erase(0, 1); u64 tot = f.kind == "signal" || f.kind == "signal_all" ? c->events : f.kind == "signal_store" ? c->storage_points : f.kind == "alloc" ? c->allocs : c->h5_mut; f.at = 1 + (u64)((double)f.at * 1e-9 * tot); }
    v.push_back(f);
  }
  return v;
}
static void composite(const Plan &p, Result *r) {
  Result *a = shared[1];
  Plan clean = p; clean.faults.clear(); clean.num["chk_exit"] = 1; clean.num.erase("prefill");
  if (p.prop == "C16") clean.str["variant"] = "z";      // variables on the stack are zero in one run, hold a pattern in the other
  if (p.prop == "C11") { one(p, r); return; }
  one(clean, a);
  if (a->status != 1) { memcpy(r, a, offsetof(Result, dec)); r->ndec = 0; return; }
  Plan q = p; q.faults = resolve(p, a); q.num["chk_exit"] = p.prop == "C08" || p.prop == "C16" || p.prop == "C23";
  // a pause request is always followed by a resume request once the program waits
  if (p.n("resume_after") > 0) for (int k = 1; k <= 400 / (int)p.n("resume_after"); ++k) q.faults.push_back({"signal_sleep", (u64)(k * p.n("resume_after")), SIGUSR2});
  if (p.prop == "C23") { q.str["probes"] = p.s("probes2"); q.num["debug_log"] = p.n("debug_log2"); }
  if (p.prop == "C16") { q.num["garbage_salt"] = 12345; q.num["garbage"] = 1 + ((int)p.n("garbage") % 3); q.str["variant"] = p.n("plain_stack") > 0 ? "" : "p"; }
  one(q, r);
  if (r->status != 1) return;
  bool same_fr = a->nfr == r->nfr && !memcmp(a->fr, r->fr, sizeof(Result::Fr) * a->nfr);
  bool same_state = a->nhook == r->nhook && !memcmp(a->hook, r->hook, sizeof(u64) * a->nhook);
  bool any = false; for (int i = 0; i < F_N; ++i) if (i != F_GARBAGE && i != F_CLOCK && r->faults_fired[i]) any = true;
  if (p.prop == "C23") {        // another set of probes: the same simulation, and the same data in the probes both sets have
    if (!same_state) { u64 i = 0; while (i < a->nhook && i < r->nhook && a->hook[i] == r->hook[i]) ++i; FAIL("compare:state", "the choice of probes changed the simulated state, first at step %lld phase %llu", (long long)(i / 10) - 1, (unsigned long long)(i % 10)); }
    std::map<std::pair<u64, int>, const Result::Fr *> m; std::set<u64> pa, pb; for (u32 i = 0; i < a->nfr; ++i) if (a->fr[i].frame >= 0) m[{a->fr[i].path, a->fr[i].frame}] = &a->fr[i], pa.insert(a->fr[i].path);
    for (u32 i = 0; i < r->nfr; ++i) { auto &f = r->fr[i]; if (f.frame < 0 || !pa.count(f.path)) continue; pb.insert(f.path); auto it = m.find({f.path, f.frame}); if (it == m.end() || it->second->hash != f.hash) FAIL("compare:probe", "frame %d of a probe depends on which other probes are configured", f.frame); m.erase(it); r->probes[62]++; }
    for (auto &k : m) if (pb.count(k.first.first)) FAIL("compare:probe", "frame %d of a probe is stored or not depending on which other probes are configured", k.first.second);
    return;
  }
  if (p.prop == "C08" || p.prop == "C16") {
    const char *w = p.prop == "C08" ? "pausing and resuming" : "memory contents or the wall clock";
    if (!same_state) { u64 i = 0; while (i < a->nhook && i < r->nhook && a->hook[i] == r->hook[i]) ++i; FAIL("compare:state", "%s changed the simulated state, first at step %lld phase %llu", w, (long long)(i / 10) - 1, (unsigned long long)(i % 10)); }
    if (!same_fr) { u32 i = 0; while (i < a->nfr && i < r->nfr && !memcmp(&a->fr[i], &r->fr[i], sizeof(Result::Fr))) ++i; FAIL("compare:stored-data", "%s changed the stored results (record %u of %u/%u, frame %d)", w, i, a->nfr, r->nfr, i < r->nfr ? r->fr[i].frame : -2); }
    return;
  }
  bool all0 = true, noexit = false; for (int i = 0; i < (int)p.n("nranks", 1); ++i) { if (r->exit_code[i] != 0) all0 = false; if (r->exit_code[i] == -1) noexit = true; }
  if (p.prop == "C09") {
    bool term = false; for (int i : {F_SIGTERM, F_SIGINT, F_SIGOTHER}) if (r->faults_fired[i]) term = true;
    if (!term) { if (!same_fr) FAIL("compare:stored-data", "a run whose termination request came after its end stored different results"); return; }
    if (all0 && !(same_fr && same_state)) FAIL("terminate:success-status", "the program was told to terminate before completing and reported success");
    if (noexit) FAIL("terminate:no-exit", "the program did not exit");
    if (r->file_state[0] == 2) FAIL("terminate:file-damaged", "the data file was left open or damaged by an orderly termination");
  } else if (p.prop == "C10") {
    if (all0 && any && r->file_state[0] != 1) FAIL("fault:silent-damage", "the data file is damaged or missing after a failed operation, but the run reports success");
    if (all0 && any && !same_fr) { FAIL("fault:silent-loss", "a failed operation was ignored: the run reports success but its stored results differ from a fault-free run"); }
    if (all0 && any && !same_state) FAIL("fault:silent-change", "a failed operation changed the simulated state of a run that reports success");
    if (noexit) FAIL("fault:no-exit", "the program did not exit");
  }
  // everything stored before the interruption equals the fault-free run, except the newest frame of each dataset
  std::map<u64, int> newest; for (u32 i = 0; i < r->nfr; ++i) { auto it = newest.find(r->fr[i].path); if (it == newest.end() || r->fr[i].frame > it->second) newest[r->fr[i].path] = r->fr[i].frame; }
  std::map<std::pair<u64, int>, const Result::Fr *> ref; for (u32 i = 0; i < a->nfr; ++i) ref[{a->fr[i].path, a->fr[i].frame}] = &a->fr[i];
  for (u32 i = 0; i < r->nfr; ++i) { auto &f = r->fr[i]; if (f.frame < 0 || f.frame == newest[f.path]) continue;
    auto it = ref.find({f.path, f.frame});
    if (it == ref.end() || it->second->hash != f.hash) FAIL("stored-frame-damaged", "frame %d of a dataset, complete before the interruption, differs from a fault-free run", f.frame); }
}
static void exec_plan(const Plan &p, Result *r) { if (p.n("composite") > 0) composite(p, r); else one(p, r); }
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void print_result(const Plan &p, const Result *r, const char *tag) {
  printf("%s {\"prop\":\"%s\",\"seed\":%llu,\"status\":%d,\"kind\":\"%s\",\"detail\":\"%s\",\"trace\":\"%016llx\",\"events\":%llu,\"switches\":%llu,\"msgs\":%llu,\"steps\":%llu,\"h5ops\":%llu,\"frames\":%llu,\"moved\":%llu,\"regions\":%llu,\"sim_s\":%.6g,\"cov\":\"%016llx\",\"ndec\":%u,\"exit\":%d,\"ranks\":%llu,\"paused\":%u,\"faults\":{",
    tag, p.prop.c_str(), (unsigned long long)p.seed, r->status, r->status >= 2 ? r->kind : "", r->status >= 2 ? r->detail : "", (unsigned long long)r->trace, (unsigned long long)r->events, (unsigned long long)r->switches, (unsigned long long)r->msgs,
    (unsigned long long)r->steps, (unsigned long long)r->h5ops, (unsigned long long)r->frames, (unsigned long long)r->particles_moved, (unsigned long long)r->regions, r->sim_seconds, (unsigned long long)mix(r->cov, r->trace), r->ndec, r->exit_code[0], (unsigned long long)r->ranks, r->paused);
  bool f = true; for (int i = 0; i < F_N; ++i) if (r->faults_fired[i]) { printf("%s\"%s\":%llu", f ? "" : ",", fault_names[i], (unsigned long long)r->faults_fired[i]); f = false; }
  printf("},\"probes\":{"); f = true; for (int i = 0; i < 80; ++i) if (r->probes[i]) { printf("%s\"%d\":%llu", f ? "" : ",", i, (unsigned long long)r->probes[i]); f = false; }
  printf("}}\n"); fflush(stdout);
}
int main(int argc, char **argv) {
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) {
    setenv("SIM_REEXEC", "1", 1); personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE); execv("/proc/self/exe", argv); }
  for (auto &s : shared) s = (Result *)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::map<std::string, std::string> o; std::string cmd = argc > 1 ? argv[1] : "";
  for (int i = 2; i + 1 < argc; i += 2) o[argv[i]] = argv[i + 1];
  build_dir = o["--build"]; tier = atoi(o["--tier"].c_str());
  mem_init();
  if (cmd == "run") {           // --prop --seed0 --count --stride --seconds --out
    u64 s0 = strtoull(o["--seed0"].c_str(), 0, 10), n = strtoull(o["--count"].c_str(), 0, 10), st = o.count("--stride") ? strtoull(o["--stride"].c_str(), 0, 10) : 1;
    double lim = o.count("--seconds") ? atof(o["--seconds"].c_str()) : 1e9, t0 = now();
    for (u64 k = 0; k < n && now() - t0 < lim; ++k) {
      Plan p = gen_plan(o["--prop"], s0 + k * st, tier); exec_plan(p, shared[0]);
      print_result(p, shared[0], "RUN");
      if (shared[0]->status == 2 && o.count("--out")) {
        Plan q = p; if (!(p.n("composite") > 0 && p.prop != "C11")) { q.explicit_sched = true; q.sched.assign(shared[0]->dec, shared[0]->dec + shared[0]->ndec); }
        plan_write((o["--out"] + "/" + p.prop + "-" + std::to_string(p.seed) + ".plan").c_str(), q); 
        if (!o.count("--keep")) break; }
    }
  } else if (cmd == "replay") {
    Plan p; if (!plan_read(o["--plan"].c_str(), p)) return 2;
    exec_plan(p, shared[0]); print_result(p, shared[0], "RUN");
    if (o.count("--record")) { Plan q = p; if (!(p.n("composite") > 0 && p.prop != "C11")) { q.explicit_sched = true; q.sched.assign(shared[0]->dec, shared[0]->dec + shared[0]->ndec); } plan_write(o["--record"].c_str(), q); }
    return shared[0]->status == 2 ? 1 : 0;
  } else if (cmd == "plan") { Plan p = gen_plan(o["--prop"], strtoull(o["--seed"].c_str(), 0, 10), tier); plan_write(o["--out"].c_str(), p); }
  else if (cmd == "config") { Plan p; if (!plan_read(o["--plan"].c_str(), p)) return 2; puts(make_config(p, 0).c_str()); }
  else { fprintf(stderr, "usage: sim run|replay|plan|config\n"); return 2; }
  return 0;
}
