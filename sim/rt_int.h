// Internal to the runtime.
#pragma once
#include "rt.h"
#include <math.h>
namespace sim {
extern int rt_depth;      // > 0 while the simulator itself is running
extern bool g_on;         // a simulated run is in progress
void plan_start(uint64_t seed);
uint32_t f_draw(uint32_t n);
uint32_t f_fault(uint32_t rate, uint32_t kinds);
void sched_init_main();
void race_forget(const void* p, size_t n);
[[noreturn]] void die_now();
void* rt_map(size_t n);
void set_access_limit(uint64_t n);
void heap_init();
void heap_reset_limits();
// shadow of the simulated heap
extern unsigned char* heap_shadow;
extern uint64_t heap_lo, heap_hi;
inline bool mem_bad(uint64_t a, unsigned n) {
    if (a - heap_lo >= heap_hi - heap_lo) return false;
    const unsigned char* s = heap_shadow + ((a - heap_lo) >> 3);
    unsigned off = a & 7;
    // shadow byte: number of addressable bytes of the granule (0..8)
    if (off + n <= 8) return off + n > s[0];
    if (s[0] != 8) return true;
    unsigned rest = off + n - 8;
    s++;
    while (rest > 8) { if (*s != 8) return true; s++; rest -= 8; }
    return rest > *s;
}
bool mem_bad_range(uint64_t a, size_t n);
[[noreturn]] void mem_report(uint64_t a, unsigned n, bool wr, void* pc);
}
