// Simulated heap: red zones, use-after-free detection, seeded allocation failure, seeded
// contents of fresh memory, exact accounting.  Compiled WITHOUT instrumentation.
#include "rt.h"
#include "rt_int.h"
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <deque>
#include <vector>

extern "C" void* __libc_malloc(size_t);
extern "C" void* __libc_calloc(size_t, size_t);
extern "C" void* __libc_realloc(void*, size_t);
extern "C" void* __libc_memalign(size_t, size_t);
extern "C" void __libc_free(void*);

namespace sim {
unsigned char* heap_shadow = nullptr;
uint64_t heap_lo = 0, heap_hi = 0;
HeapCfg heap;
uint64_t heap_live_bytes = 0, heap_live_blocks = 0, heap_alloc_no = 0, heap_failed = 0;

static const uint64_t ARENA = 0x100000000000ull, ARENA_SIZE = 6ull << 30;
static const uint64_t MAGIC_LIVE = 0xa11c0c8d00d51eadull, MAGIC_FREE = 0xf4eedb10cf4eedb1ull, CANARY = 0xc0ffee5ca1ab1e55ull;
static const size_t MAXBLOCK = 512ull << 20;      // the simulated machine has this much memory per request

struct Hdr {            // 48 bytes before the payload
    uint64_t magic, size, total, no;
    void* pc;
    uint64_t canary;
};
static uint64_t brk_ = ARENA;
static uint64_t quarantine_bytes = 0;
struct Q { uint64_t base, total; };
// fixed-size containers only: the heap must not allocate
enum { QMAX = 1 << 16 };
static Q* quar;
static uint32_t q_head = 0, q_tail = 0;
struct FreeNode { FreeNode* next; };
enum { CLASSES = 4096 };          // sizes up to 64 KiB in steps of 16
static FreeNode* free_lists[CLASSES];
struct Big { uint64_t base, total; };
static Big big[256];
static int nbig = 0;

void* rt_map(size_t n) {
    long r = raw_syscall(SYS_mmap, 0, (long)n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (r < 0 && r > -4096) { const char m[] = "sim: mmap failed\n"; raw_syscall(SYS_write, 2, (long)m, sizeof m - 1); raw_syscall(SYS_exit_group, 99); }
    return (void*)r;
}
void heap_init() {
    long r = raw_syscall(SYS_mmap, (long)ARENA, (long)ARENA_SIZE, PROT_READ | PROT_WRITE,
                         MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if ((uint64_t)r != ARENA) { const char m[] = "sim: cannot map the simulated heap\n"; raw_syscall(SYS_write, 2, (long)m, sizeof m - 1); raw_syscall(SYS_exit_group, 99); }
    heap_shadow = (unsigned char*)rt_map(ARENA_SIZE / 8);
    quar = (Q*)rt_map(sizeof(Q) * QMAX);
    heap_lo = ARENA;
    heap_hi = ARENA + ARENA_SIZE;
}

static void set_shadow(uint64_t a, size_t n, bool on) {
    unsigned char* s = heap_shadow + ((a - heap_lo) >> 3);
    size_t full = n >> 3;
    memset(s, on ? 8 : 0, full);
    if (n & 7) s[full] = on ? (unsigned char)(n & 7) : 0;
}
static uint64_t get_space(uint64_t total) {
    if (total / 16 < CLASSES) {
        FreeNode* f = free_lists[total / 16];
        if (f) { free_lists[total / 16] = f->next; return (uint64_t)f; }
    } else {
        for (int i = 0; i < nbig; i++)
            if (big[i].total == total) { uint64_t b = big[i].base; big[i] = big[--nbig]; return b; }
    }
    if (brk_ + total > heap_hi) return 0;
    uint64_t b = brk_;
    brk_ += total;
    return b;
}
static void release_quarantine() {
    while (q_head != q_tail && (quarantine_bytes > (4u << 20) || q_tail - q_head >= QMAX - 1)) {
        Q q = quar[q_head++ % QMAX];
        quarantine_bytes -= q.total;
        if (q.total / 16 < CLASSES) {
            FreeNode* f = (FreeNode*)q.base;
            f->next = free_lists[q.total / 16];
            free_lists[q.total / 16] = f;
        } else if (nbig < 256) {
            big[nbig].base = q.base; big[nbig].total = q.total; nbig++;
        }
    }
}
static void fill(void* p, size_t n, uint64_t pat) {
    uint64_t* q = (uint64_t*)p;
    size_t k = n / 8;
    for (size_t i = 0; i < k; i++) q[i] = pat;
    memcpy((char*)p + k * 8, &pat, n & 7);
}
static void* sim_alloc(size_t n, size_t align, bool zero, void* pc) {
    uint64_t no = ++heap_alloc_no;
    count(ST_ALLOCS);
    bool fail = n > MAXBLOCK;
    if (heap.counting && heap.fail_mode) {
        if (heap.fail_mode == 1) fail |= no == heap.fail_at;
        else if (heap.fail_mode == 2) fail |= no >= heap.fail_at;
        else fail |= f_fault(heap.rate, 1) != 0;
        if (fail) count(FT_ALLOC);
    }
    if (fail) { heap_failed++; errno = ENOMEM; return nullptr; }
    if (align < 16) align = 16;
    size_t extra = align > 16 ? align : 0;
    uint64_t total = ((n + 15) & ~15ull) + sizeof(Hdr) + 32 + extra;
    total = (total + 15) & ~15ull;
    uint64_t base = get_space(total);
    if (!base) { heap_failed++; errno = ENOMEM; return nullptr; }
    uint64_t p = base + sizeof(Hdr);
    p = (p + align - 1) & ~(uint64_t)(align - 1);
    Hdr* h = (Hdr*)(p - sizeof(Hdr));
    h->magic = MAGIC_LIVE; h->size = n; h->total = total | ((p - base) << 40); h->no = no; h->pc = pc; h->canary = CANARY;
    if (zero) memset((void*)p, 0, n); else fill((void*)p, n, heap.fill);
    // canary from the end of the payload
    unsigned char* e = (unsigned char*)p + n;
    size_t pad = ((n + 15) & ~15ull) - n + 16;
    memset(e, 0xc5, pad);
    set_shadow(p, n, true);
    heap_live_bytes += n;
    heap_live_blocks++;
    race_forget((void*)p, n);
    return (void*)p;
}
static Hdr* check_block(void* p, const char* what) {
    Hdr* h = (Hdr*)((uint64_t)p - sizeof(Hdr));
    if (((uint64_t)p & 15) || h->magic != MAGIC_LIVE || h->canary != CANARY) {
        if (h->magic == MAGIC_FREE) violation("%s: block freed twice", what);
        violation("%s: pointer was not returned by the allocator, or its header was overwritten", what);
    }
    size_t n = h->size, pad = ((n + 15) & ~15ull) - n + 16;
    unsigned char* e = (unsigned char*)p + n;
    for (size_t i = 0; i < pad; i++)
        if (e[i] != 0xc5) violation("heap block of %zu bytes was written past its end (pc=%p)", n, h->pc);
    return h;
}
static void sim_free(void* p) {
    Hdr* h = check_block(p, "free");
    h->magic = MAGIC_FREE;
    size_t n = h->size;
    heap_live_bytes -= n;
    heap_live_blocks--;
    set_shadow((uint64_t)p, n, false);
    fill(p, n, 0xdeadf4eeddeadf4eull);
    race_forget(p, n);
    uint64_t total = h->total & ((1ull << 40) - 1), off = h->total >> 40;
    Q q = {(uint64_t)p - off, total};
    quar[q_tail++ % QMAX] = q;
    quarantine_bytes += total;
    release_quarantine();
}
static bool in_arena(const void* p) { return (uint64_t)p - heap_lo < heap_hi - heap_lo; }

// walks the arena in address order: only meaningful while nothing was reused, so scan by magic
template <class F> static void each_live(F f) {
    for (uint64_t a = ARENA; a + sizeof(Hdr) <= brk_; a += 16) {
        Hdr* h = (Hdr*)a;
        if (h->magic == MAGIC_LIVE && h->canary == CANARY && h->size <= MAXBLOCK) {
            f(h, (void*)(a + sizeof(Hdr)));
            a += sizeof(Hdr) + ((h->size + 15) & ~15ull) - 16 + 16;
        }
    }
}
void heap_check() {
    RtScope r;
    each_live([](Hdr*, void* p) { check_block(p, "heap check"); });
}
std::string heap_describe_live(uint64_t since_no, int max) {
    RtScope r;
    std::string s;
    int k = 0;
    each_live([&](Hdr* h, void*) {
        if (h->no > since_no && k++ < max) {
            char b[96];
            snprintf(b, sizeof b, " [%llu bytes from pc=%p]", (unsigned long long)h->size, h->pc);
            s += b;
        }
    });
    return s;
}
bool mem_bad_range(uint64_t a, size_t n) {
    if (a - heap_lo >= heap_hi - heap_lo) return false;
    while (n) {
        unsigned k = 8 - (a & 7);
        if (k > n) k = (unsigned)n;
        if (mem_bad(a, k)) return true;
        a += k;
        n -= k;
    }
    return false;
}
void mem_report(uint64_t a, unsigned n, bool wr, void* pc) {
    rt_depth++;
    // find the block this is closest to
    uint64_t q = a & ~15ull;
    const char* kind = "outside any heap block";
    unsigned long long bs = 0;
    long long off = 0;
    for (uint64_t b = q; b >= ARENA && q - b < (4u << 20); b -= 16) {
        Hdr* h = (Hdr*)b;
        if ((h->magic == MAGIC_LIVE || h->magic == MAGIC_FREE) && h->canary == CANARY) {
            bs = h->size;
            off = (long long)(a - b - sizeof(Hdr));
            kind = h->magic == MAGIC_FREE ? "in a heap block that was already freed" : "outside the bounds of a heap block";
            break;
        }
    }
    violation("invalid heap %s of %u bytes %s (block of %llu bytes, offset %lld, pc=%p)", wr ? "write" : "read", n, kind, bs, off, pc);
}
void heap_reset_limits() {}

RtScope::RtScope() { rt_depth++; }
RtScope::~RtScope() { rt_depth--; }
}  // namespace sim

using namespace sim;
#define SIMULATED (g_on && rt_depth == 0)
extern "C" {
void* malloc(size_t n) { return SIMULATED ? sim_alloc(n, 16, false, __builtin_return_address(0)) : __libc_malloc(n); }
void* calloc(size_t a, size_t b) {
    if (!SIMULATED) return __libc_calloc(a, b);
    size_t t;
    if (__builtin_mul_overflow(a, b, &t)) { errno = ENOMEM; return nullptr; }
    return sim_alloc(t, 16, true, __builtin_return_address(0));
}
void free(void* p) {
    if (!p) return;
    if (in_arena(p)) { int e = errno; sim_free(p); errno = e; } else __libc_free(p);
}
void* realloc(void* p, size_t n) {
    if (!p) return SIMULATED ? sim_alloc(n, 16, false, __builtin_return_address(0)) : __libc_realloc(p, n);
    if (!in_arena(p)) return __libc_realloc(p, n);
    Hdr* h = check_block(p, "realloc");
    if (n == 0) { sim_free(p); return nullptr; }
    void* q = sim_alloc(n, 16, false, __builtin_return_address(0));
    if (!q) return nullptr;
    memcpy(q, p, h->size < n ? h->size : n);
    sim_free(p);
    return q;
}
void* memalign(size_t al, size_t n) { return SIMULATED ? sim_alloc(n, al, false, __builtin_return_address(0)) : __libc_memalign(al, n); }
void* aligned_alloc(size_t al, size_t n) { return SIMULATED ? sim_alloc(n, al, false, __builtin_return_address(0)) : __libc_memalign(al, n); }
int posix_memalign(void** out, size_t al, size_t n) {
    void* p = SIMULATED ? sim_alloc(n, al, false, __builtin_return_address(0)) : __libc_memalign(al, n);
    if (!p) return ENOMEM;
    *out = p;
    return 0;
}
size_t malloc_usable_size(void* p) {
    if (!p || !in_arena(p)) return 0;
    return ((Hdr*)((uint64_t)p - sizeof(Hdr)))->size;
}
}
