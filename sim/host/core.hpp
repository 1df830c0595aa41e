// Core of the deterministic simulator: plan, randomness, event counter, result record.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <deque>
#include <functional>
#include <algorithm>
#include <memory>
#include <sstream>
#include "../simapi.h"
typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8; typedef uint16_t u16;

struct Rng {                        // splitmix64 / xorshift: the only source of choice
  u64 s;
  explicit Rng(u64 seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { next(); }
  u64 next() { u64 z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  u64 below(u64 n) { return n ? next() % n : 0; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  bool chance(double p) { return unit() < p; }
  int range(int a, int b) { return a + (int)below((u64)(b - a + 1)); }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};
inline u64 mix(u64 h, u64 v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 29); }
inline u64 hstr(const char *s) { u64 h = 1469598103934665603ull; for (; *s; ++s) h = (h ^ (u8)*s) * 1099511628211ull; return h; }
inline u64 dbits(double d) { u64 u; memcpy(&u, &d, 8); return u; }

// ---------------------------------------------------------------- plan
// A run is a pure function of (plan, code under test).
struct Decision { u64 ev; int kind; int arg; };       // kind: 0 thread switch, 1 rank switch, 2 rendezvous
struct Fault { std::string kind; u64 at; long arg; }; // signal / h5 error / alloc failure / clock jump ...
struct Plan {
  std::string prop;
  u64 seed = 1;
  std::map<std::string, double> num;       // numeric knobs
  std::map<std::string, std::string> str;  // textual knobs
  std::vector<Fault> faults;
  bool explicit_sched = false;             // replay recorded decisions only
  std::vector<Decision> sched;
  double n(const std::string &k, double d = 0) const { auto i = num.find(k); return i == num.end() ? d : i->second; }
  std::string s(const std::string &k, const std::string &d = "") const { auto i = str.find(k); return i == str.end() ? d : i->second; }
};

// ---------------------------------------------------------------- shared result
// Lives in shared memory so that it survives a crash of the forked run.
struct Result {
  volatile int status;        // 0 running, 1 finished, 2 violation, 3 harness error
  char kind[96];              // violation class (stable under minimisation)
  char detail[1800];
  u64 trace;                  // hash over every event, decision and observed state
  u64 events, switches, msgs, rendezvous, steps, h5ops, frames, particles_moved, ranks, regions;
  double sim_seconds;
  u64 cov;                    // interleaving/state signature
  u64 faults_fired[40];       // by fault id
  u64 probes[80];             // rare-condition counters
  int exit_code[16];
  u64 storage_points, h5_mut, allocs;      // totals, used to place faults in a second run
  int file_state[2];          // 0 absent, 1 closed cleanly, 2 left open / damaged
  u64 nhook; u64 hook[6000];  // per (step,point) digest of the physical state
  u32 nfr; struct Fr { u64 path; int frame; u64 hash; u32 n; u32 uncovered; } fr[8000];   // stored frames and attributes
  u32 paused;                 // sleeps observed while waiting for a resume request
  u32 ndec;
  Decision dec[200000];
};
extern Result *R;
extern Plan P;
extern Rng rs;      // schedule choices
extern Rng rf;      // run-time fault choices
extern bool sched_fixed;   // no scheduling freedom (faults still apply)

enum FaultId { F_SIGUSR1, F_SIGUSR2, F_SIGTERM, F_SIGINT, F_SIGOTHER, F_H5_CREATE, F_H5_GROUP, F_H5_DSET, F_H5_RESIZE,
               F_H5_WRITE, F_H5_TORN, F_H5_ATTR, F_H5_OPEN, F_H5_CLOSE, F_ALLOC, F_CLOCK, F_RENDEZVOUS, F_RANKSTALL, F_PREEMPT,
               F_GARBAGE, F_MKDIR, F_RESTART, F_TEAM, F_SIGREPEAT, F_DEBUGLOG, F_H5_FLUSH, F_JOBKILL, F_CONFIG, F_N };
static const char *const fault_names[] = {"signal_pause", "signal_resume", "signal_term", "signal_int", "signal_other",
  "store_create_error", "store_group_error", "store_dataset_error", "store_resize_error", "store_write_error",
  "store_torn_write", "store_attr_error", "store_open_error", "store_close_error", "alloc_failure", "clock_jump", "rendezvous_send",
  "rank_stall", "thread_preemption", "heap_garbage", "mkdir_error", "crash_restart", "team_size_change", "signal_repeat", "debug_log", "store_flush_error", "launcher_kill", "config_damage"};

[[noreturn]] void violation(const char *kind, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void harness_error(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
inline void tr(u64 v) { R->trace = mix(R->trace, v); }
inline void tr(const char *s) { R->trace = mix(R->trace, hstr(s)); }
