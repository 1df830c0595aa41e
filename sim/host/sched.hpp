// Fibers, ranks, teams; seeded scheduler; simulated OpenMP runtime, signals, clock.
#pragma once
#include "core.hpp"
#include "mem.hpp"
static const int MAXT = 16;
struct Rank; struct Team;
struct Fiber {
  static const int MAXD = 48;
  void *sp = nullptr;
  u64 stack_lo = 0, stack_hi = 0;
  Rank *rank = nullptr;
  Team *team = nullptr, *wst = nullptr;      // race/preemption team, work-sharing team
  int tid = 0, nested = 0;
  enum { RUN, BLOCKED, DONE } st = RUN;
  std::function<bool()> ready;
  std::function<void()> body;
  const char *why = "";
  u16 vc[MAXT] = {0};
  void *eh[2] = {nullptr, nullptr};     // __cxa_eh_globals
  std::vector<char> tls;
  int saved_errno = 0;
  bool ma = true;                       // instrumentation on (it is off inside the simulator's own code)
  int depth = 0;
  void *stack_pc[MAXD];
  int ws_idx = 0;
  long chunk_pos = -1;
};
struct WorkShare { long next, end, incr, chunk; int mode; int left; bool inited; int single; };
struct Team {
  u32 reg; int n; Rank *rank;
  std::vector<Fiber *> f;
  int arrived = 0; u32 gen = 0; int done = 0;
  std::deque<WorkShare> ws;
  bool has_ws = false; WorkShare ws0;
};
struct Rank {
  bool dyn_teams = false;     // team sizes may be adjusted by the runtime
  int id = 0, size = 1, group = 0;
  int h5_busy = 0; std::string h5_op; u64 coll_seq = 0;
  void *so = nullptr;
  const SimPutOps *ops = nullptr;
  int nthreads = 1;
  Fiber *main = nullptr;
  std::vector<Fiber *> fibers;
  bool exited = false, finalized = false, inited = false, in_abort = false;
  int code = -1;
  void *handlers[65];
  u64 masked = 0;
  std::deque<int> pending;
  char *tls_addr = nullptr; size_t tls_size = 0;
  std::vector<char> tls_init;
  std::map<int, std::vector<char>> pool_tls;
  u64 so_base = 0;
  void *smb = nullptr, *ts = nullptr;
  int last_point = -1; long step = -1, term_step = -9;
  u64 sleeps = 0, sleeps_total = 0;
  bool complete_logged = false;
  int fatal_logs = 0, error_logs = 0;
  std::string last_fatal, last_error;
  u64 rd_calls = 0;
};
extern Fiber *cur;
extern Fiber driver;
extern std::vector<Rank *> ranks;
extern long countdown;
extern u64 next_async;
extern bool race_detect, serial_mode;
extern double sim_now;
extern bool job_abort[2];
void preempt();
void async_event();
void recompute_async();
void yield_rank(const char *why);                       // scheduling point between ranks
void block_until(std::function<bool()> ready, const char *why);
void sync_acq_rel(void *addr);
[[noreturn]] void race_report(u64 a, size_t n, bool w, bool other_w, int other, void *pc, u32 opc);
std::string where_str();
u64 pc_rel(void *pc);
void deliver(int sig);
void check_pending();
void storage_point(int pos);                            // possible signal delivery inside a storage call
Rank *load_rank(const std::string &so, int group, int id, int size, int nthreads);
void start_ranks(const std::vector<std::string> &cfgpaths);           // returns when all ranks ended
[[noreturn]] void rank_die(int code, bool graceful = true);
bool dec_bool(int kind, double p);
long dec_pick(int kind, long n);
struct AsyncF { u64 at; Fault f; bool done; };
extern std::vector<AsyncF> asyncs;
void on_sleep(Rank *);
