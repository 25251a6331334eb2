// Seeded scheduler, replacement OpenMP runtime, happens-before race detection.
// Compiled WITHOUT instrumentation.
#include "rt.h"
#include "rt_int.h"
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <dlfcn.h>
#include <linux/futex.h>
#include <sys/syscall.h>
#include <atomic>
#include <algorithm>
#include <deque>
#include <unordered_map>

namespace sim {

Plan plan;
Shared* sh;
SchedCfg sched;
int rt_depth = 0;
bool g_on = false;

const char* stat_names[ST_N] = {
    "instrumented_accesses", "task_switches", "preemptions", "parallel_regions", "multi_thread_regions", "worker_tasks",
    "chunks_handed_out", "sync_points", "allocations", "race_checked_accesses", "simulated_time_us", "events",
    "io_calls", "clock_reads",
    "fault_alloc_failure", "fault_clock_jump_forward", "fault_clock_jump_back", "fault_clock_stalled", "fault_io_EIO",
    "fault_io_ENOSPC", "fault_io_short", "fault_io_EINTR", "fault_io_open", "fault_io_close", "fault_io_read",
    "fault_crash", "fault_stdout", "fault_file_truncated", "fault_file_corrupted", "fault_heap_fill_pattern",
    "injected_state_operations", "fault_worker_stalled", "fault_fewer_threads_than_requested",
    "fault_io_short_read", "fault_malformed_content"};

// ---------------------------------------------------------------- choices
static Rng rw, rf, rs;
static size_t w_i = 0;
static uint64_t f_i = 0, s_i = 0;

void plan_start(uint64_t seed) {
    plan.seed = seed;
    rw.reseed(seed * 3 + 1);
    rf.reseed(seed * 3 + 2);
    rs.reseed(seed * 3 + 3);
    w_i = 0; f_i = 0; s_i = 0;
}
uint32_t w_draw(uint32_t n) {
    uint32_t v;
    if (plan.replay) {
        v = w_i < plan.w.size() ? plan.w[w_i] : 0;
        if (n == 0) v = 0; else if (v >= n) v = n - 1;
    } else
        v = rw.below(n);
    w_i++;
    if (sh->nw < sizeof(sh->w) / sizeof(sh->w[0])) sh->w[sh->nw++] = v; else sh->overflow = 1;
    sh->wl_hash = (sh->wl_hash ^ v) * 0x100000001b3ull;
    return v;
}
double w_uniform(double lo, double hi) {
    // coarse grid so that shrinking is quick and values stay readable
    return lo + (hi - lo) * w_draw(4001) / 4000.0;
}
double w_log(double lo, double hi) { return lo * pow(hi / lo, w_draw(2001) / 2000.0); }
int w_int(int lo, int hi) { return lo + (int)w_draw((uint32_t)(hi - lo + 1)); }

static void put(Shared::KV* a, uint32_t& n, uint32_t cap, uint64_t k, uint32_t v) {
    if (n < cap) { a[n].k = k; a[n].v = v; n++; } else sh->overflow = 1;
}
uint32_t f_draw(uint32_t n) {      // 0 is always "no fault"
    uint64_t i = f_i++;
    uint32_t v;
    if (plan.replay) {
        auto it = plan.f.m.find(i);
        v = it == plan.f.m.end() ? 0 : it->second;
        if (v >= n) v = n - 1;
    } else
        v = rf.below(n);
    return v;
}
// a fault opportunity: returns 0 (no fault) or 1..kinds
uint32_t f_fault(uint32_t rate, uint32_t kinds) {
    uint64_t i = f_i++;
    uint32_t v = 0;
    if (plan.replay) {
        auto it = plan.f.m.find(i);
        if (it != plan.f.m.end()) v = it->second;
        if (v > kinds) v = kinds;
    } else if (rate && kinds && rf.below(rate) == 0)
        v = 1 + rf.below(kinds);
    if (v) {
        RtScope r;
        put(sh->f, sh->nf, sizeof(sh->f) / sizeof(sh->f[0]), i, v);
        hash_u64(0xfa017 + i * 16 + v);
    }
    return v;
}
static uint32_t s_draw(uint32_t n) {
    uint64_t i = s_i++;
    uint32_t v = 0;
    if (plan.replay) {
        auto it = plan.s.m.find(i);
        if (it != plan.s.m.end()) v = it->second;
        if (v >= n) v = n - 1;
    } else
        v = rs.below(n);
    if (v) {
        RtScope r;
        put(sh->s, sh->ns, sizeof(sh->s) / sizeof(sh->s[0]), i, v);
    }
    return v;
}

void tag(int bit) { sh->tags |= 1u << bit; }
void hash_u64(uint64_t v) {
    sh->hash = (sh->hash ^ v) * 0x9e3779b97f4a7c15ull;
    sh->hash ^= sh->hash >> 29;
}
void hash_bytes(const void* p, size_t n) {
    const unsigned char* b = (const unsigned char*)p;
    while (n >= 8) { uint64_t v; memcpy(&v, b, 8); hash_u64(v); b += 8; n -= 8; }
    uint64_t v = 0;
    memcpy(&v, b, n);
    hash_u64(v + n);
}
static void shash(uint64_t v) { sh->sched_hash = (sh->sched_hash ^ v) * 0x100000001b3ull; sh->sched_hash ^= sh->sched_hash >> 31; }

static void finish_stats();
[[noreturn]] void die_now() {
    finish_stats();
    raw_syscall(SYS_exit_group, 0);
    for (;;) {}
}
static char context[2400];
void set_context(const std::string& s) {
    snprintf(context, sizeof context, "%s", s.c_str());
    snprintf(sh->context, sizeof sh->context, "%s", s.c_str());
}
void append_context() {
    size_t n = strlen(sh->message);
    if (context[0] && n + 4 < sizeof sh->message) snprintf(sh->message + n, sizeof(sh->message) - n, "; %s", context);
    for (char* c = sh->message; *c; c++) if (*c == '\n') *c = ' ';
}
void violation(const char* fmt, ...) {
    rt_depth++;
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(sh->message, sizeof(sh->message), fmt, ap);
    va_end(ap);
    sh->status = 2;
    append_context();
    die_now();
}
void discard(const char* why) {
    snprintf(sh->message, sizeof(sh->message), "%s", why);
    sh->status = 3;
    die_now();
}

// ---------------------------------------------------------------- tasks
enum { MAXT = 64 };
struct VC { uint32_t c[MAXT]; };
static void join(VC& a, const VC& b) { for (int i = 0; i < MAXT; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

struct Ws {                       // one work-sharing construct
    bool init = false;
    long start = 0, end = 0, incr = 1, chunk = 1, next = 0;
    int kind = 0;                 // 1 dynamic 2 guided 3 static
    int single = 0;
    void* copy = nullptr;
    long ordered_next = 0;
    bool ordered = false;
    std::vector<long> owner_order;   // chunks in iteration order (ordered loops)
    std::vector<int> static_pos;
};
struct Task;
struct Team {
    int n = 1;
    Task* master = nullptr;
    std::vector<Task*> mem;
    int bar_count = 0;
    long bar_gen = 0;
    VC bar_vc, bar_out;
    int live = 0;
    std::deque<Ws> ws;
    int level = 0, active_level = 0;
    Team* parent = nullptr;
    int parent_tnum = 0;
};
enum St { IDLE, RUN, BLOCK };
struct Task {
    int id = 0;
    pthread_t th;
    std::atomic<int> go{0};
    St st = IDLE;
    VC vc;
    Team* team = nullptr;
    int tnum = 0;
    int ws_i = 0;
    void (*fn)(void*) = nullptr;
    void* data = nullptr;
    std::function<void()>* client = nullptr;
    const char* why = "";
    std::function<bool()> ready;
    int prio = 0;
    long ord_start = 0, ord_end = 0, ord_cur = 0;
};
static Task tasks[MAXT];
static int ntasks = 1;
static Task* cur = nullptr;
static __thread Task* self_ = nullptr;
static bool multi = false;        // more than one simulated thread is alive
static int live_extra = 0;

static uint64_t acc = 0, next_p = ~0ull, acc_limit = 3000000000ull;
uint64_t now_accesses() { return acc; }
bool in_multi() { return multi; }

// strategy of this run
static int strat = 0;
static uint32_t quantum = 0, shared_rate = 0;
static int team_bias = 0;
static uint32_t max_switches = 4000, n_preempt = 0;
static int pct_left = 0;
static uint64_t pct_span = 0;

static void schedule_next_preempt() {
    if (plan.replay) {
        auto it = plan.p.m.upper_bound(acc);
        next_p = it == plan.p.m.end() ? ~0ull : it->first;
        return;
    }
    next_p = ~0ull;
    if (strat == 1) {
        double u = (rs.below(1000000) + 1) / 1000001.0;
        next_p = acc + 1 + (uint64_t)(-log(u) * quantum);
    } else if (strat == 2 && pct_left > 0) {
        pct_left--;
        next_p = acc + 1 + rs.next() % (pct_span ? pct_span : 1);
    }
}

void sched_begin_random() {
    strat = 0; shared_rate = 0; quantum = 1000; pct_left = 0;
    uint32_t k = rs.below(10);
    if (k < 1) strat = 0;
    else if (k < 5) {
        strat = 1;
        static const uint32_t q[] = {7, 50, 300, 2000, 10000};
        quantum = q[rs.below(5)];
    } else if (k < 7) {
        strat = 2;
        pct_left = 1 + rs.below(6);
        pct_span = 1ull << (6 + rs.below(12));
    } else {
        strat = 3;
        static const uint32_t q[] = {1, 2, 5, 30};
        shared_rate = q[rs.below(4)];
    }
    team_bias = rs.below(6);
    next_p = ~0ull;
    if (plan.replay) schedule_next_preempt();
}

static void fwait(Task* t) {
    while (t->go.load(std::memory_order_acquire) == 0)
        raw_syscall(SYS_futex, (long)&t->go, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
    t->go.store(0, std::memory_order_relaxed);
}
static void fwake(Task* t) {
    t->go.store(1, std::memory_order_release);
    raw_syscall(SYS_futex, (long)&t->go, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}
static void switch_to(Task* t) {
    Task* me = self_;
    if (t == me) return;
    count(ST_SWITCHES);
    shash((uint64_t)(me->id * 64 + t->id) * 0x10001 + acc * 31);
    cur = t;
    fwake(t);
    fwait(me);
}
static int runnable(Task** out, Task* except) {
    int n = 0;
    for (int i = 0; i < ntasks; i++) {
        Task* t = &tasks[i];
        if (t == except) continue;
        if (t->st == BLOCK && t->ready && t->ready()) t->st = RUN;
        if (t->st == RUN) out[n++] = t;
    }
    return n;
}
// the current task cannot continue: run somebody else
static void block_until(const char* why, std::function<bool()> ready) {
    rt_depth++;
    Task* me = self_;
    while (!ready()) {
        me->st = BLOCK;
        me->why = why;
        me->ready = ready;
        Task* r[MAXT];
        int n = runnable(r, me);
        if (n == 0) {
            if (ready()) break;
            violation("deadlock: every simulated thread waits (%s)", why);
        }
        count(ST_SYNC);
        int k = n > 1 ? s_draw(n) : 0;
        rt_depth--;
        switch_to(r[k]);
        rt_depth++;
    }
    me->st = RUN;
    me->ready = nullptr;
    rt_depth--;
}
static void yield_point() {       // may let another thread run
    if (!multi || sched.quiet) return;
    rt_depth++;
    Task* r[MAXT];
    int n = runnable(r, self_);
    count(ST_SYNC);
    int k = n ? s_draw(n + 1) : 0;
    rt_depth--;
    if (k) switch_to(r[k - 1]);
}
static void preempt_at(bool decided) {
    rt_depth++;
    Task* r[MAXT];
    int n = runnable(r, self_);
    uint32_t k = 0;
    if (n) {
        if (plan.replay) {
            auto it = plan.p.m.find(acc);
            k = it == plan.p.m.end() ? 0 : it->second;
            if (k > (uint32_t)n) k = n;
        } else if (n_preempt < max_switches && sh->np < sizeof(sh->p) / sizeof(sh->p[0])) {
            k = 1 + rs.below(n);
        }
        if (k) {
            n_preempt++;
            put(sh->p, sh->np, sizeof(sh->p) / sizeof(sh->p[0]), acc, k);
            count(ST_PREEMPTS);
        }
    }
    if (!decided || plan.replay || strat != 3) schedule_next_preempt();
    rt_depth--;
    if (k) switch_to(r[k - 1]);
}

// ---------------------------------------------------------------- race detection
struct Acc { uint32_t clk; uint8_t task, mask; uint16_t pad; void* pc; };
struct Cell { uint64_t key; uint32_t gen; uint32_t last_task; Acc w; Acc r[4]; };
static Cell* cells = nullptr;
enum { CELLS = 1 << 20 };
static uint32_t cgen = 1;
static uint64_t cells_used = 0;

static Cell* cell(uint64_t key) {
    if (!cells) cells = (Cell*)rt_map(sizeof(Cell) * (size_t)CELLS);
    uint64_t h = (key * 0x9e3779b97f4a7c15ull) >> 44;
    for (int i = 0; i < 64; i++) {
        Cell* c = &cells[(h + i) & (CELLS - 1)];
        if (c->gen != cgen) {
            memset(c, 0, sizeof *c);
            c->gen = cgen; c->key = key; c->last_task = ~0u;
            cells_used++;
            return c;
        }
        if (c->key == key) return c;
    }
    return nullptr;
}
void race_forget(const void* p, size_t n) {
    if (!multi || !cells) return;
    uint64_t a = (uint64_t)p >> 3, b = ((uint64_t)p + n + 7) >> 3;
    if (b - a > 65536) { return; }
    for (uint64_t k = a; k < b; k++) {
        uint64_t h = (k * 0x9e3779b97f4a7c15ull) >> 44;
        for (int i = 0; i < 64; i++) {
            Cell* c = &cells[(h + i) & (CELLS - 1)];
            if (c->gen != cgen) break;
            if (c->key == k) { c->w = Acc(); memset(c->r, 0, sizeof c->r); c->last_task = ~0u; break; }
        }
    }
}
static bool hb(const Acc& a, Task* t) { return a.clk == 0 || a.task == t->id || t->vc.c[a.task] >= a.clk; }

// returns true if the location is shared between threads
static bool race_access(uint64_t addr, unsigned size, bool wr, void* pc) {
    Task* t = self_;
    bool shared = false;
    while (size) {
        uint64_t key = addr >> 3;
        unsigned off = addr & 7, n = 8 - off;
        if (n > size) n = size;
        uint8_t mask = (uint8_t)(((1u << n) - 1) << off);
        Cell* c = cell(key);
        if (c) {
            if (c->last_task != ~0u && c->last_task != (uint32_t)t->id) shared = true;
            c->last_task = t->id;
            if ((c->w.mask & mask) && !hb(c->w, t))
                violation("data race: %s of %u bytes at a location another thread wrote without synchronisation "
                          "(pc=%p and pc=%p, threads %d and %d)", wr ? "write" : "read", n, pc, c->w.pc, t->id, c->w.task);
            if (wr) {
                for (auto& r : c->r)
                    if ((r.mask & mask) && !hb(r, t))
                        violation("data race: write of %u bytes at a location another thread reads without "
                                  "synchronisation (pc=%p and pc=%p, threads %d and %d)", n, pc, r.pc, t->id, r.task);
                c->w.clk = t->vc.c[t->id]; c->w.task = t->id; c->w.mask = mask; c->w.pc = pc;
                for (auto& r : c->r) if (!(r.mask & ~mask)) r.clk = 0, r.mask = 0;
            } else {
                Acc* slot = nullptr;
                for (auto& r : c->r) {
                    if (r.clk && r.task == t->id && r.mask == mask) { slot = &r; break; }
                    if (!r.clk && !slot) slot = &r;
                }
                if (!slot) {
                    for (auto& r : c->r) if (hb(r, t)) { slot = &r; break; }
                    if (!slot) slot = &c->r[key & 3];
                }
                slot->clk = t->vc.c[t->id]; slot->task = t->id; slot->mask = mask; slot->pc = pc;
            }
        }
        addr += n;
        size -= n;
    }
    return shared;
}

static inline void access(uint64_t a, unsigned n, bool wr, void* pc) {
    if (!g_on) return;
    acc++;
    if (__builtin_expect(mem_bad(a, n), 0) && !rt_depth) mem_report(a, n, wr, pc);
    if (multi && !rt_depth && self_) {
        bool shared = false;
        if (sched.races) { count(ST_RACE_CHECKED); shared = race_access(a, n, wr, pc); }
        if (acc >= next_p) preempt_at(false);
        else if (strat == 3 && shared && !plan.replay && rs.below(shared_rate) == 0) preempt_at(true);
    }
    if (__builtin_expect(acc > acc_limit, 0)) violation("no progress: %llu memory accesses without finishing", (unsigned long long)acc);
}
void set_access_limit(uint64_t n) { acc_limit = acc + n; }
void note_range(const void* p, size_t n, bool wr, void* pc) {
    if (!g_on || n == 0) return;
    uint64_t a = (uint64_t)p;
    if (mem_bad_range(a, n) && !rt_depth) mem_report(a, (unsigned)n, wr, pc);
    acc++;
    if (multi && !rt_depth && self_) {
        if (sched.races) { count(ST_RACE_CHECKED, (n + 7) / 8); race_access(a, (unsigned)n, wr, pc); }
        if (acc >= next_p) preempt_at(false);
    }
}

// ---------------------------------------------------------------- fork / join
static void* pool_main(void* p) {
    Task* t = (Task*)p;
    self_ = t;
    for (;;) {
        fwait(t);
        if (t->client) (*t->client)();
        else t->fn(t->data);
        t->client = nullptr;
        // done: let somebody else run
        rt_depth++;
        Team* tm = t->team;
        t->st = IDLE;
        if (tm) { join(tm->bar_out, t->vc); tm->live--; }
        t->team = nullptr;         // from here on another team may take this task
        t->vc.c[t->id]++;
        live_extra--;
        Task* r[MAXT];
        int n = runnable(r, t);
        if (n == 0) violation("deadlock: a worker ended and no simulated thread can run");
        int k = n > 1 ? s_draw(n) : 0;
        rt_depth--;
        count(ST_SWITCHES);
        shash((uint64_t)(t->id * 64 + r[k]->id) * 0x10001 + acc * 31);
        cur = r[k];
        fwake(r[k]);
    }
}
static Task* get_task() {
    for (int i = 1; i < ntasks; i++)
        if (tasks[i].st == IDLE && tasks[i].go.load() == 0) return &tasks[i];
    if (ntasks >= MAXT) return nullptr;
    Task* t = &tasks[ntasks];
    t->id = ntasks++;
    memset(&t->vc, 0, sizeof t->vc);
    t->vc.c[t->id] = 1;
    RtScope rt;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 1 << 20);
    if (pthread_create(&t->th, &at, pool_main, t) != 0) { ntasks--; return nullptr; }
    pthread_attr_destroy(&at);
    return t;
}
void sched_init_main() {
    tasks[0].id = 0;
    tasks[0].st = RUN;
    memset(&tasks[0].vc, 0, sizeof(VC));
    tasks[0].vc.c[0] = 1;
    self_ = cur = &tasks[0];
    ntasks = 1;
}
static void update_multi() {
    bool m = live_extra > 0;
    if (m && !multi) { cgen++; cells_used = 0; multi = true; schedule_next_preempt(); }
    multi = m;
}
static int pick_team(unsigned want, bool clause) {
    if (sched.force_team) return sched.force_team;
    if (sched.quiet) return 1;
    static const int sizes[] = {2, 3, 4, 8, 1, 5, 7, 16, 2, 24};
    int n;
    if (clause && want > 0) {
        n = (int)want;
        if (s_draw(4) == 3) { n = 1 + s_draw(n); count(FT_THREADS); }   // fewer threads than asked for
    } else
        n = sizes[s_draw(10)];
    return n > 24 ? 24 : n;
}
static int icv_num = 0;

static void do_parallel(void (*fn)(void*), void* data, unsigned want, std::function<void(Team*)> init) {
    count(ST_REGIONS);
    Task* me = self_;
    if (!me) { fn(data); return; }
    rt_depth++;
    Team* old = me->team;
    int old_tnum = me->tnum, old_ws = me->ws_i;
    int level = old ? old->level + 1 : 1;
    bool nested = old && old->n > 1;
    int n = nested ? 1 : pick_team(want ? want : icv_num, (want ? want : icv_num) != 0);
    Team* tm = new Team;
    tm->level = level;
    tm->parent = old;
    tm->parent_tnum = old_tnum;
    tm->master = me;
    memset(&tm->bar_vc, 0, sizeof(VC));
    memset(&tm->bar_out, 0, sizeof(VC));
    tm->mem.push_back(me);
    for (int i = 1; i < n; i++) {
        Task* t = get_task();
        if (!t) break;
        t->st = RUN;
        tm->mem.push_back(t);
    }
    tm->n = (int)tm->mem.size();
    tm->active_level = (old ? old->active_level : 0) + (tm->n > 1);
    tm->live = tm->n - 1;
    if (init) init(tm);
    for (int i = 1; i < tm->n; i++) {
        Task* t = tm->mem[i];
        t->team = tm; t->tnum = i; t->ws_i = 0; t->fn = fn; t->data = data; t->client = nullptr;
        join(t->vc, me->vc);
    }
    me->vc.c[me->id]++;
    me->team = tm; me->tnum = 0; me->ws_i = 0;
    live_extra += tm->live;
    count(ST_TASKS, tm->n);
    if (tm->n > 1) count(ST_MULTI_REGIONS);
    shash(0x7ea0000 + tm->n);
    update_multi();
    rt_depth--;
    yield_point();
    fn(data);
    block_until("end of parallel region", [tm] { return tm->live == 0; });
    rt_depth++;
    join(me->vc, tm->bar_out);
    me->vc.c[me->id]++;
    me->team = old; me->tnum = old_tnum; me->ws_i = old_ws;
    update_multi();
    delete tm;
    rt_depth--;
}

void run_clients(std::vector<std::function<void()>>& fns) {
    Task* me = self_;
    rt_depth++;
    std::vector<Task*> ts;
    Team* tm = new Team;      // only for joining clocks
    memset(&tm->bar_out, 0, sizeof(VC));
    tm->live = (int)fns.size();
    for (size_t i = 0; i < fns.size(); i++) {
        Task* t = get_task();
        if (!t) violation("simulator: out of simulated threads");
        t->st = RUN;
        t->team = nullptr; t->tnum = 0; t->ws_i = 0; t->fn = nullptr;
        join(t->vc, me->vc);
        ts.push_back(t);
    }
    int left = (int)fns.size();
    std::vector<std::function<void()>> wrap;
    VC out;
    memset(&out, 0, sizeof out);
    for (size_t i = 0; i < fns.size(); i++)
        wrap.push_back([&, i] { fns[i](); rt_depth++; left--; join(out, ts[i]->vc); rt_depth--; });
    for (size_t i = 0; i < fns.size(); i++) ts[i]->client = &wrap[i];
    me->vc.c[me->id]++;
    live_extra += (int)fns.size();
    update_multi();
    rt_depth--;
    block_until("application threads", [&left] { return left == 0; });
    rt_depth++;
    join(me->vc, out);
    me->vc.c[me->id]++;
    update_multi();
    delete tm;
    rt_depth--;
}

// ---------------------------------------------------------------- sync objects
struct Lk { int owner = -1; int depth = 0; VC vc; Lk() { memset(&vc, 0, sizeof vc); } };
static std::unordered_map<const void*, Lk>* locks;
static Lk& lk(const void* p) {
    rt_depth++;
    if (!locks) locks = new std::unordered_map<const void*, Lk>;
    Lk& l = (*locks)[p];
    rt_depth--;
    return l;
}
static void lock(const void* p, bool recursive = false) {
    if (!self_) return;
    yield_point();
    Lk* l = &lk(p);
    int id = self_->id;
    if (recursive && l->owner == id) { l->depth++; return; }
    block_until("a lock", [l] { return l->owner == -1; });
    l->owner = id;
    l->depth = 1;
    join(self_->vc, l->vc);
}
static bool trylock(const void* p) {
    if (!self_) return true;
    yield_point();
    Lk* l = &lk(p);
    if (l->owner != -1) return false;
    l->owner = self_->id; l->depth = 1;
    join(self_->vc, l->vc);
    return true;
}
static void unlock(const void* p) {
    if (!self_) return;
    Lk* l = &lk(p);
    if (--l->depth > 0) return;
    join(l->vc, self_->vc);
    self_->vc.c[self_->id]++;
    l->owner = -1;
    yield_point();
}
static void sync_var(const void* p) {          // atomic access: acquire and release
    if (!self_ || !multi) return;
    yield_point();
    Lk& l = lk(p);
    join(self_->vc, l.vc);
    join(l.vc, self_->vc);
    self_->vc.c[self_->id]++;
}
static void barrier() {
    Task* me = self_;
    if (!me || !me->team || me->team->n <= 1) return;
    Team* tm = me->team;
    rt_depth++;
    join(tm->bar_vc, me->vc);
    long g = tm->bar_gen;
    if (++tm->bar_count == tm->n) {
        tm->bar_count = 0;
        tm->bar_gen++;
        for (auto t : tm->mem) { join(t->vc, tm->bar_vc); t->vc.c[t->id]++; }
        memset(&tm->bar_vc, 0, sizeof(VC));
    }
    rt_depth--;
    block_until("a barrier", [tm, g] { return tm->bar_gen != g; });
    yield_point();
}
static Ws* cur_ws() {
    Team* tm = self_->team;
    rt_depth++;
    while ((int)tm->ws.size() <= self_->ws_i) tm->ws.emplace_back();
    Ws* w = &tm->ws[self_->ws_i];
    rt_depth--;
    return w;
}
static bool ws_next(long* s, long* e) {
    if (!self_->team) return false;
    Ws* w = cur_ws();
    yield_point();
    count(ST_CHUNKS);
    if (w->kind == 3) {      // static: thread t takes chunks t, t+n, ...
        Team* tm = self_->team;
        rt_depth++;
        if ((int)w->static_pos.size() < tm->n) w->static_pos.resize(tm->n, 0);
        rt_depth--;
        long total = w->incr > 0 ? (w->end - w->start + w->incr - 1) / w->incr : (w->start - w->end - w->incr - 1) / -w->incr;
        if (total < 0) total = 0;
        long chunk = w->chunk;
        int k = w->static_pos[self_->tnum]++;
        long b, c;
        if (chunk == 0) {
            if (k) return false;
            long q = total / tm->n, r = total % tm->n, t = self_->tnum;
            b = t * q + (t < r ? t : r);
            c = q + (t < r ? 1 : 0);
        } else {
            b = (long)(k * (long)tm->n + self_->tnum) * chunk;
            c = std::min(chunk, total - b);
        }
        if (c <= 0 || b >= total) return false;
        *s = w->start + b * w->incr;
        *e = w->start + (b + c) * w->incr;
        if (w->incr > 0 ? *e > w->end : *e < w->end) *e = w->end;
        return true;
    }
    if (w->incr > 0 ? w->next >= w->end : w->next <= w->end) return false;
    long left = w->incr > 0 ? (w->end - w->next + w->incr - 1) / w->incr : (w->next - w->end - w->incr - 1) / -w->incr;
    long c = w->chunk > 0 ? w->chunk : 1;
    if (w->kind == 2) c = std::max(c, (left + self_->team->n - 1) / self_->team->n);
    if (c > left) c = left;
    *s = w->next;
    *e = w->next + c * w->incr;
    w->next = *e;
    if (w->incr > 0 ? *e > w->end : *e < w->end) *e = w->end;
    shash(0xc400000 + *s * 64 + self_->tnum);
    return true;
}
static Team* solo_team() {       // orphaned work-sharing outside a parallel region
    static Team* t = nullptr;
    rt_depth++;
    if (!t) { t = new Team; }
    t->ws.clear();
    t->n = 1;
    rt_depth--;
    return t;
}
static bool ws_start(int kind, long start, long end, long incr, long chunk, long* s, long* e, bool ordered = false) {
    if (!self_->team) { self_->team = solo_team(); self_->ws_i = 0; self_->tnum = 0; }
    Ws* w = cur_ws();
    if (!w->init) {
        w->init = true; w->start = w->next = start; w->end = end; w->incr = incr; w->chunk = chunk; w->kind = kind;
        w->ordered = ordered; w->ordered_next = start;
    }
    bool r = ws_next(s, e);
    if (ordered && r) { self_->ord_start = self_->ord_cur = *s; self_->ord_end = *e; }
    return r;
}
static void ws_end(bool wait) {
    if (!self_->team) return;
    self_->ws_i++;
    if (self_->team->level == 0 && self_->team->n == 1 && !self_->team->master) { self_->team = nullptr; return; }
    if (wait) barrier();
}

static void finish_stats() {
    sh->stat[ST_ACCESSES] = acc;
    if (clock_us > 0) sh->stat[ST_SIMTIME_US] = (uint64_t)clock_us;
}
}  // namespace sim

using namespace sim;
extern "C" {
// ---------------------------------------------------------------- OpenMP API
int omp_get_num_threads() { return self_ && self_->team ? self_->team->n : 1; }
int omp_get_thread_num() { return self_ && self_->team ? self_->tnum : 0; }
int omp_get_max_threads() { return icv_num ? icv_num : 8; }
void omp_set_num_threads(int n) { icv_num = n > 0 ? n : 0; }
int omp_get_num_procs() { return 8; }
int omp_in_parallel() { return self_ && self_->team && self_->team->active_level > 0; }
int omp_get_level() { return self_ && self_->team ? self_->team->level : 0; }
int omp_get_active_level() { return self_ && self_->team ? self_->team->active_level : 0; }
void omp_set_dynamic(int) {}
int omp_get_dynamic() { return 0; }
void omp_set_nested(int) {}
int omp_get_nested() { return 0; }
int omp_get_thread_limit() { return 64; }
void omp_set_max_active_levels(int) {}
int omp_get_max_active_levels() { return 1; }
int omp_get_ancestor_thread_num(int l) {
    Team* t = self_ ? self_->team : nullptr;
    int lev = t ? t->level : 0;
    if (l < 0 || l > lev) return -1;
    int tn = self_ ? self_->tnum : 0;
    while (lev > l) { tn = t->parent_tnum; t = t->parent; lev--; }
    return l == 0 ? 0 : tn;
}
int omp_get_team_size(int l) { return l == 0 ? 1 : omp_get_num_threads(); }
void omp_set_schedule(int, int) {}
void omp_get_schedule(int* k, int* c) { *k = 1; *c = 0; }
int omp_get_cancellation() { return 0; }
double omp_get_wtick() { return 1e-6; }
void omp_init_lock(void*) {}
void omp_destroy_lock(void*) {}
void omp_set_lock(void* l) { lock(l); }
void omp_unset_lock(void* l) { unlock(l); }
int omp_test_lock(void* l) { return trylock(l); }
void omp_init_nest_lock(void*) {}
void omp_destroy_nest_lock(void*) {}
void omp_set_nest_lock(void* l) { lock(l, true); }
void omp_unset_nest_lock(void* l) { unlock(l); }

void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { do_parallel(fn, data, n, nullptr); }
unsigned GOMP_parallel_reductions(void (*fn)(void*), void* data, unsigned n, unsigned) {
    do_parallel(fn, data, n, nullptr);
    return 1;
}
#define PLOOP(name, kind_)                                                                                         \
    void GOMP_parallel_loop_##name(void (*fn)(void*), void* data, unsigned n, long s, long e, long i, long c,       \
                                   unsigned) {                                                                     \
        do_parallel(fn, data, n, [=](Team* tm) {                                                                   \
            tm->ws.emplace_back();                                                                                 \
            Ws& w = tm->ws.back();                                                                                 \
            w.init = true; w.start = w.next = s; w.end = e; w.incr = i; w.chunk = c; w.kind = kind_;               \
        });                                                                                                        \
    }
PLOOP(static, 3)
PLOOP(dynamic, 1)
PLOOP(guided, 2)
PLOOP(nonmonotonic_dynamic, 1)
PLOOP(nonmonotonic_guided, 2)
void GOMP_parallel_loop_runtime(void (*fn)(void*), void* data, unsigned n, long s, long e, long i, unsigned f) {
    GOMP_parallel_loop_dynamic(fn, data, n, s, e, i, 1, f);
}
void GOMP_parallel_loop_nonmonotonic_runtime(void (*fn)(void*), void* data, unsigned n, long s, long e, long i, unsigned f) {
    GOMP_parallel_loop_dynamic(fn, data, n, s, e, i, 1, f);
}
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void*), void* data, unsigned n, long s, long e, long i, unsigned f) {
    GOMP_parallel_loop_dynamic(fn, data, n, s, e, i, 1, f);
}
#define LOOP(name, kind)                                                                                  \
    bool GOMP_loop_##name##_start(long s, long e, long i, long c, long* is, long* ie) {                    \
        return ws_start(kind, s, e, i, c, is, ie);                                                         \
    }                                                                                                     \
    bool GOMP_loop_##name##_next(long* is, long* ie) { return ws_next(is, ie); }
LOOP(static, 3)
LOOP(dynamic, 1)
LOOP(guided, 2)
LOOP(nonmonotonic_dynamic, 1)
LOOP(nonmonotonic_guided, 2)
#define RLOOP(name)                                                                                       \
    bool GOMP_loop_##name##_start(long s, long e, long i, long* is, long* ie) {                            \
        return ws_start(1, s, e, i, 1, is, ie);                                                            \
    }                                                                                                     \
    bool GOMP_loop_##name##_next(long* is, long* ie) { return ws_next(is, ie); }
RLOOP(runtime)
RLOOP(nonmonotonic_runtime)
RLOOP(maybe_nonmonotonic_runtime)
#define OLOOP(name, kind)                                                                                 \
    bool GOMP_loop_ordered_##name##_start(long s, long e, long i, long c, long* is, long* ie) {            \
        return ws_start(kind, s, e, i, c, is, ie, true);                                                   \
    }                                                                                                     \
    bool GOMP_loop_ordered_##name##_next(long* is, long* ie) {                                            \
        bool r = ws_next(is, ie);                                                                         \
        if (r) { self_->ord_start = self_->ord_cur = *is; self_->ord_end = *ie; }                          \
        return r;                                                                                         \
    }
OLOOP(static, 3)
OLOOP(dynamic, 1)
OLOOP(guided, 2)
typedef unsigned long long ull;
#define ULOOP(name, kind)                                                                                 \
    bool GOMP_loop_ull_##name##_start(bool up, ull s, ull e, ull i, ull c, ull* is, ull* ie) {             \
        (void)up;                                                                                         \
        return ws_start(kind, (long)s, (long)e, (long)i, (long)c, (long*)is, (long*)ie);                   \
    }                                                                                                     \
    bool GOMP_loop_ull_##name##_next(ull* is, ull* ie) { return ws_next((long*)is, (long*)ie); }
ULOOP(static, 3)
ULOOP(dynamic, 1)
ULOOP(guided, 2)
ULOOP(nonmonotonic_dynamic, 1)
ULOOP(nonmonotonic_guided, 2)
bool GOMP_loop_start(long s, long e, long i, long sched_, long c, long* is, long* ie, uintptr_t*, void** mem) {
    if (mem && *mem) { size_t n = (size_t)*mem; rt_depth++; *mem = calloc(1, n); rt_depth--; }
    int kind = (sched_ & 0xffff) == 1 ? 3 : (sched_ & 0xffff) == 3 ? 2 : 1;
    if (!is) {
        if (!self_->team) { self_->team = solo_team(); self_->ws_i = 0; }
        Ws* w = cur_ws();
        w->init = true; w->start = w->next = s; w->end = e; w->incr = i; w->chunk = c; w->kind = kind;
        return true;
    }
    return ws_start(kind, s, e, i, c, is, ie);
}
void GOMP_loop_end() { ws_end(true); }
void GOMP_loop_end_nowait() { ws_end(false); }
bool GOMP_loop_end_cancel() { ws_end(true); return false; }
// each ordered section waits until all earlier iterations have passed theirs
void GOMP_ordered_start() {
    if (!self_ || !self_->team || self_->team->n <= 1) return;
    Ws* w = cur_ws();
    if (!w->init) {      // static schedule without explicit loop start
        return;
    }
    long mine = self_->ord_cur;
    block_until("an ordered section", [w, mine] { return w->ordered_next == mine; });
    join(self_->vc, lk(w).vc);
}
void GOMP_ordered_end() {
    if (!self_ || !self_->team || self_->team->n <= 1) return;
    Ws* w = cur_ws();
    if (!w->init) return;
    join(lk(w).vc, self_->vc);
    self_->vc.c[self_->id]++;
    self_->ord_cur += w->incr;
    w->ordered_next = self_->ord_cur;
    yield_point();
}
unsigned GOMP_sections_start(unsigned n) {
    long s, e;
    return ws_start(1, 1, (long)n + 1, 1, 1, &s, &e) ? (unsigned)s : 0;
}
unsigned GOMP_sections_next() { long s, e; return ws_next(&s, &e) ? (unsigned)s : 0; }
void GOMP_sections_end() { ws_end(true); }
void GOMP_sections_end_nowait() { ws_end(false); }
void GOMP_parallel_sections(void (*fn)(void*), void* data, unsigned n, unsigned cnt, unsigned f) {
    GOMP_parallel_loop_dynamic(fn, data, n, 1, (long)cnt + 1, 1, 1, f);
}
bool GOMP_single_start() {
    if (!self_ || !self_->team) return true;
    Ws* w = cur_ws();
    self_->ws_i++;
    yield_point();
    return w->single++ == 0;
}
void* GOMP_single_copy_start() {
    if (!self_ || !self_->team) return nullptr;
    Ws* w = cur_ws();
    if (w->single++ == 0) return nullptr;
    self_->ws_i++;
    barrier();
    return w->copy;
}
void GOMP_single_copy_end(void* d) {
    if (!self_ || !self_->team) return;
    Ws* w = cur_ws();
    w->copy = d;
    self_->ws_i++;
    barrier();
}
void GOMP_barrier() { barrier(); }
bool GOMP_barrier_cancel() { barrier(); return false; }
static char crit_default, atomic_default;
void GOMP_critical_start() { lock(&crit_default); }
void GOMP_critical_end() { unlock(&crit_default); }
void GOMP_critical_name_start(void** p) { lock(p); }
void GOMP_critical_name_end(void** p) { unlock(p); }
void GOMP_atomic_start() { lock(&atomic_default); }
void GOMP_atomic_end() { unlock(&atomic_default); }
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, bool, unsigned, void**, int, void*) {
    yield_point();
    if (cpy) {
        rt_depth++;
        char* b = (char*)calloc(1, size + align);
        rt_depth--;
        char* a = (char*)(((uintptr_t)b + align - 1) & ~(uintptr_t)(align - 1));
        cpy(a, data);
        fn(a);
        rt_depth++;
        free(b);
        rt_depth--;
    } else
        fn(data);
    yield_point();
}
void GOMP_taskwait() { yield_point(); }
void GOMP_taskwait_depend(void**) { yield_point(); }
void GOMP_taskyield() { yield_point(); }
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() { yield_point(); }
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }
void GOMP_taskloop(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, unsigned, unsigned long,
                   int, long s, long e, long step) {
    // one task per iteration, executed by the encountering thread
    for (long i = s; step > 0 ? i < e : i > e; i += step) {
        rt_depth++;
        char* b = (char*)calloc(1, size + align);
        rt_depth--;
        char* a = (char*)(((uintptr_t)b + align - 1) & ~(uintptr_t)(align - 1));
        if (cpy) cpy(a, data); else memcpy(a, data, size);
        ((long*)a)[0] = i;
        ((long*)a)[1] = i + step;
        fn(a);
        rt_depth++;
        free(b);
        rt_depth--;
        yield_point();
    }
}

// ---------------------------------------------------------------- static initialisation guards, mutexes
int __cxa_guard_acquire(uint64_t* g) {
    if (*(volatile char*)g) { if (self_ && multi) { Lk& l = lk(g); join(self_->vc, l.vc); } return 0; }
    if (!self_ || !multi) return 1;
    lock(g);
    if (*(volatile char*)g) { unlock(g); return 0; }
    return 1;
}
void __cxa_guard_release(uint64_t* g) {
    *(volatile char*)g = 1;
    if (self_ && multi) unlock(g);
}
void __cxa_guard_abort(uint64_t* g) { if (self_ && multi) unlock(g); }
int pthread_mutex_lock(pthread_mutex_t* m) {
    if (!self_ || rt_depth || !g_on) {
        static int (*real)(pthread_mutex_t*) = nullptr;
        if (!real) { rt_depth++; real = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock"); rt_depth--; }
        return real(m);
    }
    lock(m, true);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!self_ || rt_depth || !g_on) {
        static int (*real)(pthread_mutex_t*) = nullptr;
        if (!real) { rt_depth++; real = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_trylock"); rt_depth--; }
        return real(m);
    }
    return trylock(m) ? 0 : EBUSY;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!self_ || rt_depth || !g_on || !locks || !locks->count(m) || lk(m).owner != self_->id) {
        static int (*real)(pthread_mutex_t*) = nullptr;
        if (!real) { rt_depth++; real = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_unlock"); rt_depth--; }
        return real(m);
    }
    unlock(m);
    return 0;
}

// ---------------------------------------------------------------- instrumentation entry points
#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
// counted whatever the memory held before: that would depend on leftovers of the parent process
void __tsan_vptr_update(void** p, void*) { access((uint64_t)p, 8, true, PC); }
void __tsan_vptr_read(void** p) { access((uint64_t)p, 8, false, PC); }
#define RW(n)                                                                        \
    void __tsan_read##n(void* p) { access((uint64_t)p, n, false, PC); }              \
    void __tsan_write##n(void* p) { access((uint64_t)p, n, true, PC); }              \
    void __tsan_unaligned_read##n(void* p) { access((uint64_t)p, n, false, PC); }    \
    void __tsan_unaligned_write##n(void* p) { access((uint64_t)p, n, true, PC); }    \
    void __tsan_volatile_read##n(void* p) { access((uint64_t)p, n, false, PC); }     \
    void __tsan_volatile_write##n(void* p) { access((uint64_t)p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { note_range(p, n, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { note_range(p, n, true, PC); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { note_range(s, n, false, PC); note_range(d, n, true, PC); return memcpy(d, s, n); }

#define ATOM(bits, T)                                                                                              \
    T __tsan_atomic##bits##_load(const volatile T* p, int) { sync_var((const void*)p); return __atomic_load_n(p, 5); } \
    void __tsan_atomic##bits##_store(volatile T* p, T v, int) { sync_var((const void*)p); __atomic_store_n(p, v, 5); } \
    T __tsan_atomic##bits##_exchange(volatile T* p, T v, int) { sync_var((const void*)p); return __atomic_exchange_n(p, v, 5); } \
    T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int) { sync_var((const void*)p); return __atomic_fetch_add(p, v, 5); } \
    T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int) { sync_var((const void*)p); return __atomic_fetch_sub(p, v, 5); } \
    T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int) { sync_var((const void*)p); return __atomic_fetch_and(p, v, 5); } \
    T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int) { sync_var((const void*)p); return __atomic_fetch_or(p, v, 5); } \
    T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int) { sync_var((const void*)p); return __atomic_fetch_xor(p, v, 5); } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* c, T v, int, int) {                        \
        sync_var((const void*)p);                                                                                  \
        return __atomic_compare_exchange_n(p, c, v, 0, 5, 5);                                                      \
    }                                                                                                              \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* c, T v, int, int) {                          \
        sync_var((const void*)p);                                                                                  \
        return __atomic_compare_exchange_n(p, c, v, 0, 5, 5);                                                      \
    }                                                                                                              \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T c, T v, int, int) {                              \
        sync_var((const void*)p);                                                                                  \
        __atomic_compare_exchange_n(p, &c, v, 0, 5, 5);                                                            \
        return c;                                                                                                  \
    }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int) { yield_point(); }
void __tsan_atomic_signal_fence(int) {}
}
