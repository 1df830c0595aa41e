#include "mem.hpp"
#include "sched.hpp"
#include <malloc.h>
#include <unistd.h>
std::vector<ModRange> mods;
u64 heap_top = ARENA + 4096;
bool mem_active = false;
u64 alloc_count = 0, alloc_fail_at = 0;
int garbage_mode = 0; u64 garbage_seed = 0;
static void *map_at(u64 a, u64 n) {
  void *p = mmap((void *)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p == MAP_FAILED || p != (void *)a) { perror("mmap"); _exit(3); }
  madvise(p, n, MADV_NOHUGEPAGE);
  return p;
}
void mem_init() {
  map_at(ARENA, ARENA_SZ);
  map_at(SHV, ARENA_SZ / 8);
  map_at(SHR, ARENA_SZ / 8 * sizeof(Cell));
}
static inline u8 *shv(u64 a) { return (u8 *)(SHV + ((a - ARENA) >> 3)); }
static inline Cell *shr_arena(u64 a) { return (Cell *)(SHR + ((a - ARENA) >> 3) * sizeof(Cell)); }

extern "C" void *sim_alloc(size_t n, size_t al, int nothrow) {
  if (mem_active) {
    ++alloc_count;
    if (alloc_fail_at && alloc_count == alloc_fail_at) {
      R->faults_fired[F_ALLOC]++;
      tr("alloc-fail");
      if (nothrow) return nullptr;
      throw std::bad_alloc();
    }
    if (n > (512ull << 20)) { if (nothrow) return nullptr; throw std::bad_alloc(); }
  }
  if (al < 16) al = 16;
  u64 a = (heap_top + 16 + al - 1) & ~(u64)(al - 1);     // 16-byte header holds the size
  u64 end = a + ((n + 7) & ~7ull) + 16;
  if (end > HEAP_END) { if (nothrow) return nullptr; throw std::bad_alloc(); }
  heap_top = end;
  ((u64 *)a)[-1] = n; ((u64 *)a)[-2] = 0xA110CA7EDB10C4ull;
  u64 g = n >> 3;
  memset(shv(a), 8, g);
  if (n & 7) *shv(a + g * 8) = n & 7;
  // seeded content for fresh memory: real allocators promise nothing about it
  if (garbage_mode == 1) memset((void *)a, 0xCD, n);
  else if (garbage_mode >= 2) {
    u64 z = garbage_seed ^ (a * 0x9E3779B97F4A7C15ull);
    for (u64 i = 0; i < g; ++i) { z = z * 6364136223846793005ull + 1442695040888963407ull;
      if (garbage_mode == 2) ((double *)a)[i] = (double)(int64_t)(z >> 40) * 1e-3; else ((u64 *)a)[i] = z; }
  }
  return (void *)a;
}
extern "C" void sim_free(void *p) {
  if (!p) return;
  u64 a = (u64)p;
  if (a < ARENA || a >= HEAP_END) { free(p); return; }
  if (((u64 *)a)[-2] == 0xF4EEDF4EEDull) {
    if (mem_active) violation("memory:double-free", "object freed twice (address released earlier), caller %s", where_str().c_str());
    return;
  }
  if (((u64 *)a)[-2] != 0xA110CA7EDB10C4ull) {
    if (mem_active) violation("memory:bad-free", "free of a pointer that is not an allocation or whose header was overwritten, caller %s", where_str().c_str());
    return;
  }
  ((u64 *)a)[-2] = 0xF4EEDF4EEDull;
  u64 n = ((u64 *)a)[-1];
  memset(shv(a), 0xFD, (n + 7) / 8);
}
// global delete: memory from the program may be released inside libstdc++
void operator delete(void *p) noexcept { u64 a = (u64)p; if (a >= ARENA && a < HEAP_END) sim_free(p); else free(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }

static inline Cell *cell_for(u64 a) {
  if (a - ARENA < ARENA_SZ) return shr_arena(a);
  for (auto &m : mods)
    if (a >= m.lo && a < m.hi) { if (a >= m.tlo && a < m.thi) return nullptr; return m.cells + ((a - m.lo) >> 3); }
  return nullptr;
}
static void bad_access(u64 a, size_t n, bool w, void *pc, u8 st) {
  char loc[64]; snprintf(loc, sizeof loc, "@%lx", (unsigned long)pc_rel(pc));
  violation(st == 0xFD ? "memory:use-after-free" : "memory:out-of-bounds",
            "%s of %zu bytes %s at %s (stack %s)", w ? "write" : "read", n,
            st == 0xFD ? "in released memory" : "outside any live object", loc, where_str().c_str());
}
static inline bool valid(u64 a, size_t n, u8 &st) {
  u64 end = a + n;
  for (u64 g = a & ~7ull; g < end; g += 8) {
    u8 s = *shv(g); u64 hi = std::min<u64>(end, g + 8) - g;
    if (s == 0xFD || s == 0 || hi > s) { st = s; return false; }
  }
  return true;
}
static inline void race(Cell *c, u64 a, size_t n, bool w, void *pc) {
  Fiber *f = cur;
  Team *t = f->team;
  u8 m = (u8)(((n >= 8 ? 0xff : ((1u << n) - 1)) << (a & 7)) & 0xff);
  int me = f->tid;
  if (c->wreg == t->reg && c->wtid != me && (c->wmask & m) && c->wclk > f->vc[c->wtid])
    race_report(a, n, w, true, c->wtid, pc, c->wpc);
  if (w) {
    if (c->rreg == t->reg)
      for (int k = 0; k < 2; ++k)
        if (c->rclk[k] && c->rtid[k] != me && (c->rmask[k] & m) && c->rclk[k] > f->vc[c->rtid[k]])
          race_report(a, n, true, false, c->rtid[k], pc, 0);
    if (c->wreg == t->reg && c->wtid == me && c->wclk == f->vc[me]) c->wmask |= m;
    else { c->wreg = t->reg; c->wtid = me; c->wclk = f->vc[me]; c->wmask = m; }
    c->wpc = (u32)pc_rel(pc);
  } else {
    if (c->rreg != t->reg) { c->rreg = t->reg; c->rclk[0] = c->rclk[1] = 0; }
    int k = c->rclk[0] && c->rtid[0] == me ? 0 : c->rclk[1] && c->rtid[1] == me ? 1 : !c->rclk[0] ? 0 : 1;
    if (c->rclk[k] == f->vc[me] && c->rtid[k] == me) c->rmask[k] |= m;
    else { c->rtid[k] = me; c->rclk[k] = f->vc[me]; c->rmask[k] = m; }
  }
}
static inline __attribute__((always_inline)) void access_(void *p, size_t n, bool w, void *pc) {
  if (!mem_active) return;
  u64 a = (u64)p;
  ++R->events;
  if (a - ARENA < (HEAP_END - ARENA)) { u8 st = 0; if (!valid(a, n, st)) bad_access(a, n, w, pc, st); }
  if (__builtin_expect(cur->team != nullptr, 0)) {
    if (race_detect) {
      for (u64 b = a; b < a + n;) { u64 e = std::min<u64>((b & ~7ull) + 8, a + n); Cell *c = cell_for(b); if (c) race(c, b, e - b, w, pc); b = e; }
    }
    if (__builtin_expect(--countdown <= 0, 0)) preempt();
  }
  if (__builtin_expect(R->events >= next_async, 0)) async_event();
}
extern "C" {
#define RA __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void *pc) { if (mem_active && cur && cur->depth < Fiber::MAXD) cur->stack_pc[cur->depth] = pc; if (cur) cur->depth++; }
void __tsan_func_exit() { if (cur && cur->depth > 0) cur->depth--; }
#define DEF(n) \
  void __tsan_read##n(void *a) { access_(a, n, false, RA); } \
  void __tsan_write##n(void *a) { access_(a, n, true, RA); } \
  void __tsan_unaligned_read##n(void *a) { access_(a, n, false, RA); } \
  void __tsan_unaligned_write##n(void *a) { access_(a, n, true, RA); } \
  void __tsan_volatile_read##n(void *a) { access_(a, n, false, RA); } \
  void __tsan_volatile_write##n(void *a) { access_(a, n, true, RA); } \
  void __tsan_unaligned_volatile_read##n(void *a) { access_(a, n, false, RA); } \
  void __tsan_unaligned_volatile_write##n(void *a) { access_(a, n, true, RA); } \
  void __tsan_read_write##n(void *a) { access_(a, n, true, RA); } \
  void __tsan_unaligned_read_write##n(void *a) { access_(a, n, true, RA); }
DEF(1) DEF(2) DEF(4) DEF(8) DEF(16)
void __tsan_read_range(void *a, size_t n) { if (n) access_(a, n, false, RA); }
void __tsan_write_range(void *a, size_t n) { if (n) access_(a, n, true, RA); }
void __tsan_vptr_update(void **a, void *) { access_(a, 8, true, RA); }
void __tsan_vptr_read(void **a) { access_(a, 8, false, RA); }
void *sim_memcheck(const void *p, size_t n, int w) { if (n) access_((void *)p, n, w, RA); return nullptr; }
// atomics: sequentially consistent, each one a scheduling point and a synchronisation edge
static inline void at_(volatile void *a, void *pc) {
  if (!mem_active) return;
  u64 x = (u64)a; ++R->events;
  if (x - ARENA < (HEAP_END - ARENA)) { u8 st = 0; if (!valid(x, 1, st)) bad_access(x, 1, true, pc, st); }
  if (cur->team) { sync_acq_rel((void *)a); if (--countdown <= 0) preempt(); }
  if (R->events >= next_async) async_event();
}
#define ATOM(B, T) \
  T __tsan_atomic##B##_load(const volatile T *a, int) { at_((volatile void *)a, RA); return *a; } \
  void __tsan_atomic##B##_store(volatile T *a, T v, int) { at_(a, RA); *a = v; } \
  T __tsan_atomic##B##_exchange(volatile T *a, T v, int) { at_(a, RA); T o = *a; *a = v; return o; } \
  T __tsan_atomic##B##_fetch_add(volatile T *a, T v, int) { at_(a, RA); T o = *a; *a = o + v; return o; } \
  T __tsan_atomic##B##_fetch_sub(volatile T *a, T v, int) { at_(a, RA); T o = *a; *a = o - v; return o; } \
  T __tsan_atomic##B##_fetch_and(volatile T *a, T v, int) { at_(a, RA); T o = *a; *a = o & v; return o; } \
  T __tsan_atomic##B##_fetch_or(volatile T *a, T v, int) { at_(a, RA); T o = *a; *a = o | v; return o; } \
  T __tsan_atomic##B##_fetch_xor(volatile T *a, T v, int) { at_(a, RA); T o = *a; *a = o ^ v; return o; } \
  T __tsan_atomic##B##_fetch_nand(volatile T *a, T v, int) { at_(a, RA); T o = *a; *a = ~(o & v); return o; } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *e, T v, int, int) { at_(a, RA); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *e, T v, int, int) { at_(a, RA); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
  T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T e, T v, int, int) { at_(a, RA); T o = *a; if (o == e) *a = v; return o; }
ATOM(8, u8) ATOM(16, u16) ATOM(32, u32) ATOM(64, u64)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
