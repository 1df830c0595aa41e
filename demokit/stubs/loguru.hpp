// Simulation stand-in for emilk/loguru 2.2.0 (streams interface only).
#ifndef LOGURU_STUB_HPP
#define LOGURU_STUB_HPP
#include <sstream>
#include <cstring>
#include <string>
#include <ctime>
#include "simapi.h"
namespace loguru {
  typedef int Verbosity;
  enum : int { Verbosity_INVALID = -10, Verbosity_OFF = -9, Verbosity_FATAL = -3,
               Verbosity_ERROR = -2, Verbosity_WARNING = -1, Verbosity_INFO = 0,
               Verbosity_0 = 0, Verbosity_1 = 1, Verbosity_2 = 2, Verbosity_3 = 3,
               Verbosity_4 = 4, Verbosity_5 = 5, Verbosity_6 = 6, Verbosity_7 = 7,
               Verbosity_8 = 8, Verbosity_9 = 9, Verbosity_MAX = 9 };
  enum FileMode { Truncate, Append };
  struct SignalOptions {
    bool unsafe_signal_handler = true, sigabrt = true, sigbus = true, sigfpe = true,
      sigill = true, sigint = true, sigsegv = true, sigterm = true;
    static SignalOptions none() { return SignalOptions(); }
  };
  struct Options {
    const char *verbosity_flag = "-v";
    const char *main_thread_name = "main thread";
    SignalOptions signals;
  };
  inline bool g_preamble_header, g_preamble_date, g_preamble_time,
    g_preamble_uptime, g_preamble_thread, g_preamble_file, g_preamble_verbose, g_preamble;
  inline Verbosity g_stderr_verbosity = Verbosity_0;
  inline void init(int &, char **, const Options & = Options()) {}
  inline bool add_file(const char *, FileMode, Verbosity) { return true; }
  inline void flush() {}
  inline void shutdown() {}
  struct __attribute__((visibility("hidden"))) StreamLogger {
    std::ostringstream ss; int v; const char *f; int l;
    StreamLogger(int v_, const char *f_, int l_) : v(v_), f(f_), l(l_) {}
    ~StreamLogger() noexcept(false) {
      sim_log(v, f, l, ss.str().c_str());
      if (v == Verbosity_FATAL) sim_abort();
    }
    template <class T> StreamLogger &operator<<(const T &t) { ss << t; return *this; }
    StreamLogger &operator<<(std::ostream &(*f)(std::ostream &)) { f(ss); return *this; }
  };
  struct Voidify { void operator&(const StreamLogger &) {} };
}
#define VLOG_S(verbosity) \
  ((verbosity) > sim_log_cutoff()) ? (void)0 \
  : loguru::Voidify() & loguru::StreamLogger(verbosity, __FILE__, __LINE__)
#define LOG_S(name) VLOG_S(loguru::Verbosity_ ## name)
#define ABORT_S() LOG_S(FATAL)
#endif
