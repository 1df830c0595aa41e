#include "sched.hpp"
#include <cxxabi.h>
#include <dlfcn.h>
#include <link.h>
#include <errno.h>
#include <signal.h>
#include <exception>
#include <unistd.h>
Fiber driver; Fiber *cur = &driver;
std::vector<Rank *> ranks;
long countdown = 1L << 60;
u64 next_async = ~0ull;
bool race_detect = true, serial_mode = false, job_abort[2] = {false, false};
double sim_now = 0;
std::vector<AsyncF> asyncs;
static u64 stack_top = STACK0;
static u32 region_counter = 0;
static std::multimap<std::pair<u64, int>, int> replay;
static bool replay_loaded = false;
static std::map<void *, std::vector<u16>> sync_vc;

extern "C" void sim_switch(void **old_sp, void *new_sp);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.globl sim_tramp
sim_tramp:
  subq $8,%rsp
  call sim_fiber_entry
  ud2
)");
extern "C" void sim_tramp();
extern "C" void sim_fiber_entry();

u64 pc_rel(void *pc) { u64 a = (u64)pc; for (auto r : ranks) if (a >= r->so_base && a < r->so_base + (64 << 20)) return a - r->so_base; return 0; }
std::string where_str() {
  std::string s; char b[32];
  if (!cur) return s;
  int d = std::min(cur->depth, (int)Fiber::MAXD);
  for (int i = d - 1, k = 0; i >= 0 && k < 8; --i, ++k) { snprintf(b, sizeof b, "%s@%lx", k ? "<" : "", (unsigned long)pc_rel(cur->stack_pc[i])); s += b; }
  return s;
}
void race_report(u64 a, size_t n, bool w, bool ow, int other, void *pc, u32 opc) {
  violation("race:unsynchronised-access", "%s of %zu bytes by thread %d at @%lx conflicts with a %s by thread %d%s in the same parallel region (stack %s)",
            w ? "write" : "read", n, cur->tid, (unsigned long)pc_rel(pc), ow ? "write" : "read", other,
            opc ? (std::string(" at @") + [](u32 v) { char b[16]; snprintf(b, 16, "%x", v); return std::string(b); }(opc)).c_str() : "", where_str().c_str());
}
// ------------------------------------------------------------- decisions
static void load_replay() { replay_loaded = true; for (auto &d : P.sched) replay.insert({{d.ev, d.kind}, d.arg}); }
static void record(int kind, long arg) {
  tr(mix(R->events, (u64)kind * 1315423911u + (u64)arg));
  if (R->ndec < sizeof(R->dec) / sizeof(R->dec[0])) R->dec[R->ndec++] = Decision{R->events, kind, (int)arg};
}
bool sched_fixed = false;
bool dec_bool(int kind, double p) {
  if (serial_mode || sched_fixed) return false;
  if (P.explicit_sched) {
    auto i = replay.find({R->events, kind}); if (i == replay.end()) return false;
    replay.erase(i); record(kind, 1); return true;
  }
  if (p > 0 && rs.chance(p)) { record(kind, 1); return true; }
  return false;
}
long dec_pick(int kind, long n) {      // 0 = default choice (not recorded)
  if (n <= 1 || serial_mode || sched_fixed) return 0;
  if (P.explicit_sched) {
    auto i = replay.find({R->events, kind}); if (i == replay.end()) return 0;
    long v = i->second % n; replay.erase(i); if (v) record(kind, v); return v;
  }
  long v = (long)rs.below(n); if (v) record(kind, v); return v;
}
static void reset_countdown() {
  if (P.explicit_sched || serial_mode || sched_fixed) { countdown = 1L << 60; return; }
  double mean = P.n("preempt_mean", 0);
  if (mean <= 0) { countdown = 1L << 60; return; }
  double u = rs.unit(); if (u < 1e-12) u = 1e-12;
  countdown = 1 + (long)(-mean * std::log(u));
}
// ------------------------------------------------------------- switching
static void save_ctx(Fiber *f) {
  f->saved_errno = errno;
  void **eh = (void **)abi::__cxa_get_globals();
  f->eh[0] = eh[0]; f->eh[1] = (void *)(u64)(u32)(u64)eh[1];
  if (f->rank && f->rank->tls_size) { f->tls.resize(f->rank->tls_size); memcpy(f->tls.data(), f->rank->tls_addr, f->rank->tls_size); }
}
static void load_ctx(Fiber *f) {
  errno = f->saved_errno;
  void **eh = (void **)abi::__cxa_get_globals();
  eh[0] = f->eh[0]; *(u32 *)&eh[1] = (u32)(u64)f->eh[1];
  if (f->rank && f->rank->tls_size) {
    if (f->tls.empty()) f->tls = f->rank->tls_init;
    memcpy(f->rank->tls_addr, f->tls.data(), f->rank->tls_size);
  }
}
static void switch_to(Fiber *n) {
  if (n == cur) return;
  Fiber *o = cur;
  save_ctx(o); load_ctx(n);
  o->ma = mem_active; mem_active = n->ma;
  cur = n;
  R->switches++;
  sim_switch(&o->sp, n->sp);
}
static Fiber *new_fiber(Rank *r, size_t stk) {
  Fiber *f = new Fiber; f->rank = r;
  f->stack_lo = stack_top; f->stack_hi = stack_top + stk; stack_top += stk + 65536;
  if (stack_top > ARENA + ARENA_SZ) harness_error("stack zone exhausted");
  r->fibers.push_back(f);
  return f;
}
static std::vector<Fiber *> stack_cache;
static void arm(Fiber *f) {
  u64 *sp = (u64 *)(f->stack_hi & ~63ull);
  *--sp = 0; *--sp = (u64)sim_tramp;
  for (int i = 0; i < 6; ++i) *--sp = 0;
  f->sp = sp; f->st = Fiber::RUN; f->depth = 0; f->ma = true; f->eh[0] = f->eh[1] = nullptr; f->nested = 0; f->ws_idx = 0; f->chunk_pos = -1;
}
static bool runnable(Fiber *f) {
  if (f->st == Fiber::DONE || (f->rank && f->rank->exited)) return false;
  if (f->st == Fiber::RUN) return true;
  if (f->rank && !f->rank->pending.empty() && !f->team) return true;
  return f->ready && f->ready();
}
// choose somebody else because the current fiber cannot continue
static void dispatch() {
  std::vector<Fiber *> c;
  for (auto r : ranks) if (!r->exited) for (auto f : r->fibers) if (runnable(f)) c.push_back(f);
  if (c.empty()) {
    bool alive = false; std::string s;
    for (auto r : ranks) if (!r->exited) { alive = true; for (auto f : r->fibers) if (f->st == Fiber::BLOCKED) { s += " rank" + std::to_string(r->id) + "/t" + std::to_string(f->tid) + ":" + f->why; } }
    // the launcher ends what is left of an aborted job after a grace period
    bool killed = false;
    if (alive) for (auto r : ranks) if (!r->exited && job_abort[r->group]) {
      killed = true; r->exited = true; r->code = 137; if (r->id < 8) R->exit_code[r->group * 8 + r->id] = 137;
      R->faults_fired[F_JOBKILL]++; for (auto f : r->fibers) f->st = Fiber::DONE;
      extern void h5_process_end(Rank *, bool); h5_process_end(r, false); }
    if (killed) { dispatch(); return; }
    if (!alive) { switch_to(&driver); harness_error("resumed dead fiber"); }
    violation("progress:deadlock", "no process can make progress; waiting:%s", s.c_str());
  }
  Fiber *n = c[dec_pick(3, (long)c.size())];
  n->st = Fiber::RUN;
  switch_to(n);
}
void block_until(std::function<bool()> ready, const char *why) {
  Fiber *f = cur;
  while (!ready()) {
    f->ready = ready; f->why = why; f->st = Fiber::BLOCKED;
    dispatch();
    f->st = Fiber::RUN;
    check_pending();
  }
  f->ready = nullptr;
}
void preempt() {
  reset_countdown();
  if (!cur->team || serial_mode || P.explicit_sched) return;
  std::vector<Fiber *> c;
  for (auto f : cur->team->f) if (f != cur && runnable(f)) c.push_back(f);
  if (c.empty()) return;
  Fiber *n = c[rs.below(c.size())];
  record(0, n->tid);
  R->faults_fired[F_PREEMPT]++;
  R->cov = mix(R->cov, mix((u64)cur->tid * 31 + n->tid, pc_rel(cur->depth > 0 ? cur->stack_pc[std::min(cur->depth, (int)Fiber::MAXD) - 1] : nullptr)));
  n->st = Fiber::RUN;
  switch_to(n);
}
void yield_rank(const char *why) {
  ++R->events;
  tr(why);
  check_pending();
  if (ranks.size() < 2 || serial_mode) { if (R->events >= next_async) async_event(); return; }
  std::vector<Fiber *> c; c.push_back(cur);
  for (auto r : ranks) if (r != cur->rank && !r->exited) for (auto f : r->fibers) if (runnable(f)) c.push_back(f);
  long k = 0;
  if (P.explicit_sched) k = dec_pick(1, (long)c.size());
  else if (rs.chance(P.n("rank_switch", 0.5))) k = dec_pick(1, (long)c.size());
  if (k) { R->faults_fired[F_RANKSTALL]++; c[k]->st = Fiber::RUN; switch_to(c[k]); check_pending(); }
  if (R->events >= next_async) async_event();
}
extern "C" void sim_fiber_entry() {
  Fiber *f = cur;
  f->body();
  f->st = Fiber::DONE;
  dispatch();
  harness_error("fiber returned");
}
void rank_die(int code, bool graceful) {
  Rank *r = cur->rank;
  bool ma = mem_active; mem_active = false;
  r->exited = true; r->code = code;
  if (r->id < 8) R->exit_code[r->group * 8 + r->id] = code;
  tr(mix(0xE417, (u64)code));
  for (auto f : r->fibers) f->st = Fiber::DONE;
  extern void h5_process_end(Rank *, bool); h5_process_end(r, graceful);
  extern void on_rank_end(Rank *, bool); on_rank_end(r, graceful);
  if (r->size > 1 && !r->finalized && !job_abort[r->group]) { job_abort[r->group] = true; for (auto q : ranks) if (q->group == r->group && !q->exited) q->pending.push_back(SIGTERM); }
  mem_active = ma;
  dispatch();
  harness_error("dead rank resumed");
}
// ------------------------------------------------------------- async events
void recompute_async() {
  next_async = ~0ull;
  for (auto &a : asyncs) if (!a.done && a.at < next_async) next_async = a.at;
  if (P.explicit_sched) for (auto &kv : replay) if (kv.first.second == 0 && kv.first.first > R->events) { next_async = std::min(next_async, kv.first.first); break; }
}
void async_event() {
  if (!replay_loaded && P.explicit_sched) load_replay();
  if (serial_mode) { next_async = ~0ull; return; }
  u64 ev = R->events;
  if (P.explicit_sched) {
    auto i = replay.find({ev, 0});
    if (i != replay.end()) {
      int tid = i->second; replay.erase(i); recompute_async();
      if (cur->team) for (auto f : cur->team->f) if (f->tid == tid && f != cur && runnable(f)) {
        record(0, tid); R->faults_fired[F_PREEMPT]++; f->st = Fiber::RUN; switch_to(f); break; }
    }
  }
  for (auto &a : asyncs) if (!a.done && a.at <= ev) {
    a.done = true; recompute_async();
    if (a.f.kind == "signal_all") {
      tr("siga");
      for (auto q : ranks) if (q->group == 0 && !q->exited && q != cur->rank) q->pending.push_back((int)a.f.arg);
      if (cur->rank && cur->rank->group == 0) deliver((int)a.f.arg);
    } else if (a.f.kind == "signal") {
      tr("sig");
      if (cur->rank && cur->rank->group == 0) deliver((int)a.f.arg);
      else for (auto q : ranks) if (q->group == 0 && !q->exited) { q->pending.push_back((int)a.f.arg); break; }
    }
    else if (a.f.kind == "clock") { sim_now += a.f.arg; R->faults_fired[F_CLOCK]++; tr("clk"); }
    return;
  }
  recompute_async();
}
static FaultId sigid(int s) { return s == SIGUSR1 ? F_SIGUSR1 : s == SIGUSR2 ? F_SIGUSR2 : s == SIGTERM ? F_SIGTERM : s == SIGINT ? F_SIGINT : F_SIGOTHER; }
void deliver(int sig) {
  Rank *r = cur->rank;
  if (!r || r->exited) return;
  if (r->masked & (1ull << sig)) { r->pending.push_back(sig); return; }
  R->faults_fired[sigid(sig)]++;
  if (sig != SIGUSR1 && sig != SIGUSR2 && r->term_step < -1) r->term_step = r->step;
  tr(mix(0x516, sig));
  void *h = r->handlers[sig];
  if (h == (void *)SIG_IGN) return;
  if (h == (void *)SIG_DFL) {
    if (sig == SIGCHLD || sig == SIGURG || sig == SIGWINCH) return;
    rank_die(128 + sig, false);
  }
  r->masked |= 1ull << sig;
  int e = errno;
  long cd = countdown;
  ((void (*)(int))h)(sig);
  countdown = cd; errno = e;
  r->masked &= ~(1ull << sig);
}
void check_pending() {
  Rank *r = cur->rank;
  while (r && !r->exited && !r->pending.empty()) {
    int s = r->pending.front();
    if (r->masked & (1ull << s)) break;
    r->pending.pop_front(); deliver(s);
  }
}
static u64 storage_points = 0;
void storage_point(int) {
  if (!cur->rank->group) { ++storage_points; R->storage_points = storage_points; }
  if (serial_mode || cur->rank->group) return;
  for (auto &f : P.faults) if (f.kind == "signal_store" && f.at == storage_points) { tr("sigstore"); deliver((int)f.arg); }
}
extern "C" {
void sim_abort(void) {
  Rank *r = cur->rank;
  if (!r) { fprintf(stderr, "abort outside a rank\n"); _exit(3); }
  tr("abort");
  if (r->in_abort || (r->masked & (1ull << SIGABRT)) || r->handlers[SIGABRT] == (void *)SIG_DFL) rank_die(134, false);
  r->in_abort = true;
  ((void (*)(int))r->handlers[SIGABRT])(SIGABRT);
  rank_die(134);
}
void sim__exit(int c) { tr("_exit"); rank_die(c & 0xff, false); }
void sim_exit(int c) { tr("exit"); rank_die(c & 0xff); }
void *sim_signal(int s, void *h) {
  Rank *r = cur->rank; if (!r || s < 1 || s > 64) return (void *)-1L;
  void *o = r->handlers[s]; if (h != (void *)-1L) r->handlers[s] = h; return o;
}
int sim_raise(int s) { if (s == SIGABRT) sim_abort(); deliver(s); return 0; }
unsigned sim_sleep(unsigned n) {
  Rank *r = cur->rank;
  sim_now += n; ++R->events; r->sleeps++; r->sleeps_total++;
  tr("sleep");
  on_sleep(r);
  if (!serial_mode && !r->group) for (auto &f : P.faults) if (f.kind == "signal_sleep" && f.at == r->sleeps_total) { deliver((int)f.arg); }
  if (R->events >= next_async) async_event();
  check_pending();
  if (r->sleeps_total > 400) violation("progress:stuck-paused", "still waiting after 400 simulated sleeps although a resume request was delivered");
  // time passes while paused: event-indexed faults must not be starved by an idle loop
  if (r->sleeps % 4 == 0 && next_async != ~0ull && next_async > R->events) { u64 jump = next_async - R->events; R->events += jump; async_event(); }
  return 0;
}
long sim_time(long *t) { long v = 1600000000L + (long)sim_now; if (t) *t = v; return v; }
unsigned sim_random_device(void) {
  Rank *r = cur->rank; u64 k = P.seed;
  // seeds depend on who asks (process, thread), not on when
  int tid = cur->team ? cur->tid : 0;
  u64 c = r ? r->rd_calls : 0; (void)c;
  return (unsigned)mix(mix(mix(k, 77), r ? r->id : 0), tid) ^ (unsigned)P.n("rd_salt", 0);
}
}
// ------------------------------------------------------------- sync objects
static void vc_join(u16 *a, const u16 *b) { for (int i = 0; i < MAXT; ++i) if (b[i] > a[i]) a[i] = b[i]; }
void sync_acq_rel(void *addr) {
  if (!cur->team) return;
  auto &v = sync_vc[addr]; if (v.empty()) v.assign(MAXT, 0);
  vc_join(cur->vc, v.data()); vc_join(v.data(), cur->vc); cur->vc[cur->tid]++;
}
struct SimLock { bool held = false; Fiber *own = nullptr; };
static std::map<void *, SimLock> locks;
static void lk(void *a) {
  ++R->events;
  if (cur->team && --countdown <= 0) preempt();
  SimLock *l = &locks[a];
  if (l->held && l->own == cur) violation("progress:self-deadlock", "thread acquires a lock it already holds");
  block_until([l] { return !l->held; }, "lock");
  l->held = true; l->own = cur;
  if (cur->team) { auto &v = sync_vc[a]; if (v.empty()) v.assign(MAXT, 0); vc_join(cur->vc, v.data()); }
}
static void ul(void *a) {
  ++R->events;
  if (cur->team) { auto &v = sync_vc[a]; if (v.empty()) v.assign(MAXT, 0); vc_join(v.data(), cur->vc); cur->vc[cur->tid]++; }
  locks[a].held = false; locks[a].own = nullptr;
  if (cur->team && --countdown <= 0) preempt();
}
static void team_barrier(Team *t) {
  u32 g = t->gen;
  for (int i = 0; i < t->n; ++i) ;
  ++t->arrived;
  if (t->arrived == t->n) {
    u16 m[MAXT] = {0}; for (auto f : t->f) vc_join(m, f->vc);
    for (auto f : t->f) { memcpy(f->vc, m, sizeof m); f->vc[f->tid]++; }
    t->arrived = 0; t->gen++;
  } else block_until([t, g] { return t->gen != g; }, "team barrier");
}
static void run_team(void (*fn)(void *), void *data, unsigned n, const WorkShare *ws) {
  Rank *r = cur->rank;
  bool any = !n; if (!n) n = r->nthreads;
  if (serial_mode && P.n("ref_team", 1) == 1) n = 1;
  if (n > (unsigned)MAXT) n = MAXT;
  if (any && r->dyn_teams && !cur->team && n > 1) { long k = dec_pick(5, (long)n); if (k) { n -= (unsigned)k; R->faults_fired[F_TEAM]++; } }   // the runtime may form a smaller team
  Team *saved = cur->team; int snest = cur->nested, stid = cur->tid, sws = cur->ws_idx;
  Team *t = new Team; t->rank = r; t->reg = ++region_counter;
  R->regions++;
  if (ws) { t->has_ws = true; t->ws0 = *ws; }
  Team *swst = cur->wst; long scp = cur->chunk_pos;
  cur->chunk_pos = -1;
  if (saved || n <= 1) {
    // nested or single-thread region: a team of one
    t->n = 1; t->f = {cur};
    cur->wst = t; cur->ws_idx = 0;
    if (saved) cur->nested++;
    fn(data);
    cur->nested = snest; cur->ws_idx = sws; cur->wst = swst; cur->chunk_pos = scp;
    delete t; return;
  }
  tr(mix(0x7EA, t->reg));
  t->n = n;
  cur->team = cur->wst = t; cur->tid = 0; memset(cur->vc, 0, sizeof cur->vc); cur->vc[0] = 1; cur->ws_idx = 0;
  t->f.push_back(cur);
  for (unsigned k = 1; k < n; ++k) {
    Fiber *f;
    if (!stack_cache.empty()) { f = stack_cache.back(); stack_cache.pop_back(); f->rank = r; r->fibers.push_back(f); }
    else f = new_fiber(r, 512 << 10);
    f->tid = k; f->team = f->wst = t; memset(f->vc, 0, sizeof f->vc); f->vc[k] = 1;
    auto pt = r->pool_tls.find(k);
    f->tls = pt == r->pool_tls.end() ? r->tls_init : pt->second;
    f->body = [fn, data, t] { fn(data); t->done++; };
    arm(f);
    t->f.push_back(f);
  }
  reset_countdown();
  if (!serial_mode) {               // any member of the team may run first
    long k = dec_pick(4, (long)n);
    if (k) switch_to(t->f[k]);
  }
  fn(data);
  t->done++;
  block_until([t] { return t->done == t->n; }, "end of parallel region");
  for (unsigned k = 1; k < n; ++k) {
    Fiber *f = t->f[k];
    r->pool_tls[k] = f->tls;
    r->fibers.erase(std::find(r->fibers.begin(), r->fibers.end(), f));
    f->team = f->wst = nullptr; stack_cache.push_back(f);
  }
  cur->team = saved; cur->wst = swst; cur->chunk_pos = scp; cur->nested = snest; cur->tid = stid; cur->ws_idx = sws;
  delete t;
}
static WorkShare *next_ws(long s, long e, long inc, long ch, int mode) {
  Team *t = cur->wst; if (!t) { static Team solo; solo.n = 1; solo.ws.clear(); cur->ws_idx = 0; t = cur->wst = &solo; }
  int ix = cur->ws_idx++;
  if ((int)t->ws.size() <= ix) t->ws.resize(ix + 1);
  WorkShare &w = t->ws[ix];
  if (!w.inited) { w.inited = true; w.next = s; w.end = e; w.incr = inc; w.chunk = ch ? ch : 1; w.mode = mode; w.single = 0; }
  return &w;
}
static bool take(WorkShare *w, long *is, long *ie) {
  ++R->events;
  if (cur->team && --countdown <= 0) preempt();
  if (w->mode == 0) {               // static, possibly chunked
    Team *t = cur->wst; int n = t->n, me = n > 1 ? cur->tid : 0;
    long total = w->incr > 0 ? (w->end - w->next + w->incr - 1) / w->incr : (w->next - w->end - w->incr - 1) / -w->incr;
    if (total <= 0) return false;
    if (cur->chunk_pos < 0) cur->chunk_pos = 0; 
    long ch = w->chunk > 1 ? w->chunk : (total + n - 1) / n;
    long b = (cur->chunk_pos * n + me) * ch; if (b >= total) return false;
    long e = std::min(total, b + ch); cur->chunk_pos++;
    *is = w->next + b * w->incr; *ie = w->next + e * w->incr; return true;
  }
  if (w->incr > 0 ? w->next >= w->end : w->next <= w->end) return false;
  *is = w->next; long e = w->next + w->chunk * w->incr;
  if (w->incr > 0 ? e > w->end : e < w->end) e = w->end;
  *ie = e; w->next = e; return true;
}
extern "C" {
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) { run_team(fn, data, n, nullptr); }
#define PL(name, mode_) \
void GOMP_parallel_loop_##name(void (*fn)(void *), void *data, unsigned n, long s, long e, long inc, long ch, unsigned) { \
  WorkShare w; memset(&w, 0, sizeof w); w.next = s; w.end = e; w.incr = inc; w.chunk = ch ? ch : 1; w.mode = mode_; run_team(fn, data, n, &w); } \
bool GOMP_loop_##name##_start(long s, long e, long inc, long ch, long *is, long *ie) { cur->chunk_pos = -1; return take(next_ws(s, e, inc, ch, mode_), is, ie); } \
bool GOMP_loop_##name##_next(long *is, long *ie) { Team *t = cur->wst; if (t->has_ws && cur->ws_idx == 0) return take(&t->ws0, is, ie); return take(&t->ws[cur->ws_idx - 1], is, ie); }
PL(static, 0) PL(dynamic, 1) PL(guided, 1) PL(nonmonotonic_dynamic, 1) PL(nonmonotonic_guided, 1)
void GOMP_parallel_loop_runtime(void (*fn)(void *), void *data, unsigned n, long s, long e, long inc, unsigned f) { GOMP_parallel_loop_dynamic(fn, data, n, s, e, inc, 1, f); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void *), void *data, unsigned n, long s, long e, long inc, unsigned f) { GOMP_parallel_loop_dynamic(fn, data, n, s, e, inc, 1, f); }
bool GOMP_loop_runtime_start(long s, long e, long inc, long *is, long *ie) { return GOMP_loop_dynamic_start(s, e, inc, 1, is, ie); }
bool GOMP_loop_runtime_next(long *is, long *ie) { return GOMP_loop_dynamic_next(is, ie); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long inc, long *is, long *ie) { return GOMP_loop_dynamic_start(s, e, inc, 1, is, ie); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long *is, long *ie) { return GOMP_loop_dynamic_next(is, ie); }
#define PU(name) \
bool GOMP_loop_ull_##name##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long inc, unsigned long long ch, unsigned long long *is, unsigned long long *ie) { (void)up; return GOMP_loop_##name##_start((long)s, (long)e, (long)inc, (long)ch, (long *)is, (long *)ie); } \
bool GOMP_loop_ull_##name##_next(unsigned long long *is, unsigned long long *ie) { return GOMP_loop_##name##_next((long *)is, (long *)ie); }
PU(static) PU(dynamic) PU(guided) PU(nonmonotonic_dynamic) PU(nonmonotonic_guided)
void GOMP_barrier() { if (cur->team && !cur->nested && cur->team->n > 1) team_barrier(cur->team); }
void GOMP_loop_end() { GOMP_barrier(); }
void GOMP_loop_end_nowait() {}
bool GOMP_single_start() { if (!cur->team || cur->nested) return true; WorkShare *w = next_ws(0, 0, 1, 1, 1); return w->single++ == 0; }
void *GOMP_single_copy_start() { harness_error("copyprivate not simulated"); }
void GOMP_critical_start();
void GOMP_critical_end(); 
void GOMP_critical_name_start(void **p) { lk(p); }
void GOMP_critical_name_end(void **p) { ul(p); }
void GOMP_ordered_start() {} void GOMP_ordered_end() {}
void GOMP_taskwait() {} void GOMP_taskyield() {} void GOMP_taskgroup_start() {} void GOMP_taskgroup_end() {}
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long sz, long al, bool, unsigned, void **, int, void *) {
  if (cpy) { char *b = (char *)malloc(sz + al); char *p = (char *)(((u64)b + al - 1) & ~(u64)(al - 1)); cpy(p, data); fn(p); free(b); }
  else fn(data);
}
unsigned GOMP_sections_start(unsigned n) { long a, b; return GOMP_loop_dynamic_start(1, n + 1, 1, 1, &a, &b) ? a : 0; }
unsigned GOMP_sections_next() { long a, b; return GOMP_loop_dynamic_next(&a, &b) ? a : 0; }
void GOMP_sections_end() { GOMP_barrier(); } void GOMP_sections_end_nowait() {}
void GOMP_parallel_sections(void (*fn)(void *), void *data, unsigned n, unsigned cnt, unsigned) {
  WorkShare w; memset(&w, 0, sizeof w); w.next = 1; w.end = cnt + 1; w.incr = 1; w.chunk = 1; w.mode = 1; run_team(fn, data, n, &w); }
int omp_get_thread_num() { return cur->team && !cur->nested ? cur->tid : 0; }
int omp_get_num_threads() { return cur->team && !cur->nested ? cur->team->n : 1; }
int omp_get_max_threads() { return cur->rank->nthreads; }
int omp_get_num_procs() { return cur->rank->nthreads; }
void omp_set_num_threads(int n) { if (n > 0) cur->rank->nthreads = std::min(n, MAXT); }
void omp_set_dynamic(int on) { cur->rank->dyn_teams = on != 0; } int omp_get_dynamic() { return cur->rank->dyn_teams; } int omp_in_parallel() { return cur->team != nullptr; }
void omp_set_nested(int) {} int omp_get_level() { return (cur->team ? 1 : 0) + cur->nested; }
void omp_set_schedule(int, int) {} int omp_get_thread_limit() { return MAXT; }
double omp_get_wtime() { return sim_now; }
void omp_init_lock(void **) {} void omp_destroy_lock(void **) {}
void omp_set_lock(void **p) { lk(p); } void omp_unset_lock(void **p) { ul(p); }
int omp_test_lock(void **p) { if (locks[p].held) return 0; lk(p); return 1; }
void omp_init_nest_lock(void **) {} void omp_destroy_nest_lock(void **) {}
int sim_mutex_lock(void *m) { lk(m); return 0; }
int sim_mutex_unlock(void *m) { ul(m); return 0; }
int sim_mutex_trylock(void *m) { if (locks[m].held) return 16; lk(m); return 0; }
// function-local statics
int sim_guard_acquire(u8 *g) { if (*g) { if (cur->team) { auto &v = sync_vc[g]; if (!v.empty()) vc_join(cur->vc, v.data()); } return 0; } lk(g); if (*g) { ul(g); return 0; } return 1; }
void sim_guard_release(u8 *g) { *g = 1; ul(g); }
void sim_guard_abort(u8 *g) { ul(g); }
}
static int atomic_lock_obj, crit_obj;
extern "C" void GOMP_atomic_start() { lk(&atomic_lock_obj); }
extern "C" void GOMP_atomic_end() { ul(&atomic_lock_obj); }
// ------------------------------------------------------------- ranks
static void on_terminate() { sim_abort(); }
struct FindMod { u64 base; Rank *r; std::string name; };
Rank *load_rank(const std::string &so, int group, int id, int size, int nthreads) {
  Rank *r = new Rank; r->id = id; r->group = group; r->size = size; r->nthreads = nthreads;
  for (auto &h : r->handlers) h = (void *)SIG_DFL;
  Fiber ldr; ldr.rank = r; Fiber *save = cur; ranks.push_back(r); cur = &ldr;    // global constructors run as this rank
  r->so = dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL);
  if (!r->so) { cur = save; harness_error("dlopen: %s", dlerror()); }
  r->ops = (const SimPutOps *)dlsym(r->so, "sim_put_ops");
  if (!r->ops) harness_error("no sim_put_ops");
  FindMod fm{0, r, so};
  dl_iterate_phdr([](struct dl_phdr_info *i, size_t, void *d) -> int {
    FindMod *fm = (FindMod *)d;
    if (fm->name != (i->dlpi_name ? i->dlpi_name : "")) return 0;
    Rank *r = fm->r; r->so_base = i->dlpi_addr;
    for (int k = 0; k < i->dlpi_phnum; ++k) {
      auto &ph = i->dlpi_phdr[k];
      if (ph.p_type == PT_LOAD && (ph.p_flags & PF_W)) {
        ModRange m; m.lo = (i->dlpi_addr + ph.p_vaddr) & ~7ull; m.hi = i->dlpi_addr + ph.p_vaddr + ph.p_memsz; m.tlo = m.thi = 0;
        m.cells = (Cell *)mmap(nullptr, ((m.hi - m.lo) / 8 + 2) * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        mods.push_back(m);
      }
      if (ph.p_type == PT_TLS && ph.p_memsz) { r->tls_size = ph.p_memsz; r->tls_addr = (char *)i->dlpi_tls_data;
        r->tls_init.assign(ph.p_memsz, 0); memcpy(r->tls_init.data(), (void *)(i->dlpi_addr + ph.p_vaddr), ph.p_filesz); }
    }
    return 1; }, &fm);
  if (r->tls_size && !r->tls_addr) {
    // block not materialised yet: let the module touch it
    void *(*t)() = (void *(*)())dlsym(r->so, "sim_tls_touch"); if (t) t();
    dl_iterate_phdr([](struct dl_phdr_info *i, size_t, void *d) -> int { FindMod *fm = (FindMod *)d;
      if (fm->name != (i->dlpi_name ? i->dlpi_name : "")) return 0; fm->r->tls_addr = (char *)i->dlpi_tls_data; return 1; }, &fm);
    if (!r->tls_addr) r->tls_size = 0;
  }
  cur = save;
  std::set_terminate(on_terminate);
  return r;
}
void start_ranks(const std::vector<std::string> &cfgpaths) {
  if (P.explicit_sched && !replay_loaded) load_replay();
  for (auto &f : P.faults) if (f.kind == "signal" || f.kind == "signal_all" || f.kind == "clock") asyncs.push_back({f.at, f, false});
  recompute_async();
  for (auto r : ranks) {
    Fiber *f = new_fiber(r, 2 << 20);
    r->main = f;
    // the main thread's TLS is whatever the constructors left behind
    if (r->tls_size) { f->tls.resize(r->tls_size); memcpy(f->tls.data(), r->tls_addr, r->tls_size); }
    f->body = [r, cfgpaths] {
      static char a0[] = "PiCoPiC", a1[] = "-f"; char *argv[] = {a0, a1, (char *)cfgpaths[r->group].c_str(), nullptr};
      int c = r->ops->main_(3, argv);
      rank_die(c & 0xff);
    };
    arm(f);
  }
  mem_active = true;
  long k = dec_pick(3, (long)ranks.size());
  switch_to(ranks[k]->main);
  mem_active = false;
}
extern "C" void GOMP_critical_start() { lk(&crit_obj); }
extern "C" void GOMP_critical_end() { ul(&crit_obj); }
