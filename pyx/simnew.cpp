// The extension's memory allocation, with a seam: the n-th request fails.
#include <new>
#include <stdlib.h>
#include <string.h>
static long fail_after = -1, n_alloc = 0, n_failed = 0, n_live = 0;
static unsigned fill = 0;
extern "C" void* __real_malloc(size_t);
extern "C" void* __real_calloc(size_t, size_t);
static bool fails() {
    n_alloc++;
    if (fail_after < 0) return false;
    if (fail_after-- == 0) { n_failed++; return true; }
    return false;
}
extern "C" {
__attribute__((visibility("default"))) void sim_alloc_plan(long after, unsigned f) { fail_after = after; n_alloc = n_failed = 0; fill = f; }
__attribute__((visibility("default"))) long sim_alloc_count() { return n_alloc; }
__attribute__((visibility("default"))) long sim_alloc_failed() { return n_failed; }
__attribute__((visibility("default"))) long sim_live() { return n_live; }   // blocks of operator new not yet deleted
void* __wrap_malloc(size_t n) {
    if (fails()) return nullptr;
    void* p = __real_malloc(n);
    if (p && fill) memset(p, (int)fill, n);
    return p;
}
void* __wrap_calloc(size_t a, size_t b) { return fails() ? nullptr : __real_calloc(a, b); }
}
static void* get(size_t n) {
    if (fails()) return nullptr;
    void* p = __real_malloc(n ? n : 1);
    if (p) n_live++;
    if (p && fill) memset(p, (int)fill, n);
    return p;
}
void* operator new(size_t n) { void* p = get(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = get(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return get(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return get(n); }
static void drop(void* p) { if (p) n_live--; free(p); }
void operator delete(void* p) noexcept { drop(p); }
void operator delete[](void* p) noexcept { drop(p); }
void operator delete(void* p, size_t) noexcept { drop(p); }
void operator delete[](void* p, size_t) noexcept { drop(p); }
