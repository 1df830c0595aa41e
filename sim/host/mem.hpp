// Memory: arena allocator for the program under test, validity shadow, race shadow,
// and the callbacks emitted by -fsanitize=thread instrumentation.
#pragma once
#include "core.hpp"
#include <sys/mman.h>
#include <new>
static const u64 ARENA = 0x200000000000ull, ARENA_SZ = 3ull << 30;   // heap zone then stack zone
static const u64 HEAP_END = ARENA + (2ull << 30), STACK0 = HEAP_END;
static const u64 SHV = 0x210000000000ull;    // 1 byte per 8-byte granule
static const u64 SHR = 0x220000000000ull;    // race cells, 24 bytes per granule
struct Cell { u32 wreg; u16 wclk; u8 wtid, wmask; u32 rreg; u16 rclk[2]; u8 rtid[2]; u8 rmask[2]; u32 wpc; };
struct ModRange { u64 lo, hi; Cell *cells; u64 tlo, thi; };
extern std::vector<ModRange> mods;
extern u64 heap_top;
extern bool mem_active;      // instrumentation callbacks do something
extern u64 alloc_count, alloc_fail_at;
extern int garbage_mode; extern u64 garbage_seed;
void mem_init();
