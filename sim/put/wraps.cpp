// libc and allocator entry points of the program under test, redirected (ld --wrap) to the simulator.
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <new>
#include <sys/stat.h>
#include <errno.h>
#include <signal.h>
#include <time.h>
#include "simapi.h"
extern "C" {
void *sim_alloc(size_t n, size_t al, int nothrow);
void sim_free(void *p);
void *sim_memcheck(const void *p, size_t n, int w);
void *__wrap__Znwm(size_t n) { return sim_alloc(n, 16, 0); }
void *__wrap__Znam(size_t n) { return sim_alloc(n, 16, 0); }
void *__wrap__ZnwmSt11align_val_t(size_t n, size_t a) { return sim_alloc(n, a, 0); }
void *__wrap__ZnwmRKSt9nothrow_t(size_t n, const void *) { return sim_alloc(n, 16, 1); }
void *__wrap__ZnamRKSt9nothrow_t(size_t n, const void *) { return sim_alloc(n, 16, 1); }
void __wrap__ZdlPv(void *p) { sim_free(p); }
void __wrap__ZdaPv(void *p) { sim_free(p); }
void __wrap__ZdlPvm(void *p, size_t) { sim_free(p); }
void __wrap__ZdaPvm(void *p, size_t) { sim_free(p); }
void __wrap__ZdlPvSt11align_val_t(void *p, size_t) { sim_free(p); }
void __wrap__ZdlPvmSt11align_val_t(void *p, size_t, size_t) { sim_free(p); }
void __wrap_exit(int c) { sim_exit(c); }
void __wrap__exit(int c) { sim__exit(c); }
void __wrap__Exit(int c) { sim__exit(c); }
void __wrap_quick_exit(int c) { sim__exit(c); }
void __wrap_abort(void) { sim_abort(); }
unsigned __wrap_sleep(unsigned s) { return sim_sleep(s); }
int __wrap_usleep(unsigned) { sim_sleep(1); return 0; }
int __wrap_nanosleep(const struct timespec *, struct timespec *) { sim_sleep(1); return 0; }
int __wrap_pause(void) { sim_sleep(1); errno = EINTR; return -1; }
long __wrap_time(long *t) { return sim_time(t); }
int __wrap_mkdir(const char *p, mode_t m) { return sim_mkdir(p, m); }
int __wrap_stat(const char *p, struct stat *st) {
  int r = sim_stat_isdir(p);
  if (r == 0) { errno = ENOENT; return -1; }
  memset(st, 0, sizeof *st); st->st_mode = r > 0 ? S_IFDIR | 0755 : S_IFREG | 0644; return 0;
}
void *__wrap_signal(int s, void *h) { return sim_signal(s, h); }
int __wrap_sigaction(int s, const struct sigaction *n, struct sigaction *o) {
  void *p = sim_signal(s, n ? (void *)n->sa_handler : (void *)-1L);
  if (o) { memset(o, 0, sizeof *o); o->sa_handler = (sighandler_t)p; } return 0;
}
int __wrap_raise(int s) { return sim_raise(s); }
int __wrap_kill(int, int s) { return sim_raise(s); }
unsigned __wrap__ZNSt13random_device9_M_getvalEv(void *) { return sim_random_device(); }
int sim_mutex_lock(void *); int sim_mutex_unlock(void *); int sim_mutex_trylock(void *);
int sim_guard_acquire(unsigned char *); void sim_guard_release(unsigned char *); void sim_guard_abort(unsigned char *);
int __wrap_pthread_mutex_lock(void *m) { return sim_mutex_lock(m); }
int __wrap_pthread_mutex_unlock(void *m) { return sim_mutex_unlock(m); }
int __wrap_pthread_mutex_trylock(void *m) { return sim_mutex_trylock(m); }
int __wrap___cxa_guard_acquire(unsigned char *g) { return sim_guard_acquire(g); }
void __wrap___cxa_guard_release(unsigned char *g) { sim_guard_release(g); }
void __wrap___cxa_guard_abort(unsigned char *g) { sim_guard_abort(g); }
void *__real_memmove(void *, const void *, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) { sim_memcheck(s, n, 0); sim_memcheck(d, n, 1); return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { sim_memcheck(d, n, 1); volatile char *p = (volatile char *)d; for (size_t i = 0; i < n; ++i) p[i] = (char)c; return d; }
void *__wrap_memmove(void *d, const void *s, size_t n) { sim_memcheck(s, n, 0); sim_memcheck(d, n, 1); return __real_memmove(d, s, n); }
int __real_vsprintf(char *, const char *, va_list);
int __wrap_sprintf(char *d, const char *f, ...) {
  char buf[65536]; va_list ap; va_start(ap, f); int n = __builtin_vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
  sim_memcheck(d, (size_t)n + 1, 1);
  for (int i = 0; i <= n; ++i) d[i] = buf[i];
  return n;
}
}
