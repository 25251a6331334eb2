// Deterministic simulation runtime: public interface for scenarios.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
#include <map>
#include <functional>

namespace sim {

// ---------------------------------------------------------------- randomness
struct Rng {
    uint64_t s[2];
    explicit Rng(uint64_t seed = 1) { reseed(seed); }
    static uint64_t mix(uint64_t z) {
        z += 0x9e3779b97f4a7c15ull;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    void reseed(uint64_t seed) { s[0] = mix(seed); s[1] = mix(s[0] ^ 0x1234567); }
    uint64_t next() {
        uint64_t a = s[0], b = s[1];
        s[0] = b;
        a ^= a << 23;
        s[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
        return s[1] + b;
    }
    uint32_t below(uint32_t n) { return n <= 1 ? 0 : (uint32_t)((next() >> 11) % n); }
};

// Every decision of a run is a draw from one of three recorded streams.
//   W  workload (dense vector)      F  faults (sparse)      S/P  schedule (sparse)
struct Sparse { std::map<uint64_t, uint32_t> m; };
struct Plan {
    bool replay = false;
    uint64_t seed = 1;
    std::vector<uint32_t> w;      // replay: choices; random: log
    Sparse f, s, p;               // f: fault draws, s: sync-point picks, p: preemptions
};
extern Plan plan;

uint32_t w_draw(uint32_t n);                  // workload choice in [0,n)
inline bool w_chance(uint32_t num, uint32_t den) { return w_draw(den) >= den - num; }  // 0 means no
double w_uniform(double lo, double hi);
double w_log(double lo, double hi);
int w_int(int lo, int hi);
template <class T> T w_pick(std::initializer_list<T> l) { return *(l.begin() + w_draw((uint32_t)l.size())); }

// ---------------------------------------------------------------- statistics
enum Stat {
    ST_ACCESSES, ST_SWITCHES, ST_PREEMPTS, ST_REGIONS, ST_MULTI_REGIONS, ST_TASKS, ST_CHUNKS, ST_SYNC,
    ST_ALLOCS, ST_RACE_CHECKED, ST_SIMTIME_US, ST_EVENTS, ST_IOCALLS, ST_CLOCKREADS,
    FT_ALLOC, FT_CLOCK_JUMP, FT_CLOCK_BACK, FT_CLOCK_STALL, FT_IO_EIO, FT_IO_ENOSPC, FT_IO_SHORT, FT_IO_EINTR,
    FT_IO_OPEN, FT_IO_CLOSE, FT_IO_READ, FT_CRASH, FT_STDOUT, FT_TRUNC, FT_CORRUPT, FT_HEAPFILL, FT_STATEOP, FT_STALL, FT_THREADS,
    FT_IO_CORRUPTREAD, FT_IO_BADCONTENT,
    ST_N
};
extern const char* stat_names[ST_N];
struct Shared {                     // lives in memory shared with the parent
    volatile int status;            // 0 running, 1 ok, 2 violation, 3 discarded (outside domain)
    volatile int phase;             // scenario defined progress marker
    char message[4000];
    char context[2000];             // the case, written out
    uint64_t hash;                  // everything the run did and returned
    uint64_t sched_hash;            // interleaving
    uint64_t wl_hash;               // workload
    uint64_t stat[ST_N];
    uint64_t data[64];              // scenario data handed to the judge
    uint32_t tags;                  // workload feature bits (coverage)
    uint32_t nw, nf, ns, np;        // recorded plan
    uint32_t overflow;
    uint32_t w[1 << 15];
    struct KV { uint64_t k; uint32_t v; uint32_t pad; } f[1 << 12], s[1 << 13], p[1 << 13];
};
extern Shared* sh;
inline void count(int st, uint64_t n = 1) { sh->stat[st] += n; }
void tag(int bit);
void hash_bytes(const void* p, size_t n);
void hash_u64(uint64_t v);

// Report a violation and end the run (does not return).
[[noreturn]] void violation(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// What the run is about: added to every violation message
void set_context(const std::string& s);
void append_context();
// The generated input is outside the property's domain: end the run, count it as discarded
[[noreturn]] void discard(const char* why);

// ---------------------------------------------------------------- scheduler
struct SchedCfg {
    int force_team = 0;        // 0: seeded
    bool quiet = false;        // one thread, no preemption, no race detection
    bool races = true;
};
extern SchedCfg sched;
void sched_begin_random();     // pick strategy for this run
// run several closures as simulated application threads
void run_clients(std::vector<std::function<void()>>& fns);
uint64_t now_accesses();
bool in_multi();

// ---------------------------------------------------------------- heap
struct HeapCfg {
    int fail_mode = 0;             // 0 none, 1 fail the k-th, 2 fail k-th and all later, 3 random with rate
    uint64_t fail_at = 0;
    uint32_t rate = 0;             // one in rate
    uint64_t fill = 0;             // pattern for fresh memory
    bool counting = false;
};
extern HeapCfg heap;
extern uint64_t heap_live_bytes, heap_live_blocks, heap_alloc_no, heap_failed;
void heap_check();                 // verify red zones of live blocks
struct RtScope { RtScope(); ~RtScope(); };   // allocations inside belong to the simulator
std::string heap_describe_live(uint64_t since_no, int max);

// ---------------------------------------------------------------- clock
struct ClockCfg { int mode = 0; };  // 0 steady; 1 jumps; 2 backwards; 3 stalled; 4 mixed
extern ClockCfg clk;
extern int64_t clock_us;            // current simulated time in microseconds
extern int64_t clock_log[256];      // what was read
extern int clock_log_n;

// ---------------------------------------------------------------- file system calls
struct IoCfg {
    bool on = false;
    bool relative = false;         // the working directory is ours
    uint32_t rate = 0;             // one fault opportunity in `rate` becomes a fault (0: none)
    uint32_t kinds = 0;            // bit set of fault kinds
    int64_t disk_limit = -1;       // bytes the disk can still take (-1: no limit)
    uint64_t crash_at = 0;         // die at the k-th file call (0: never)
    uint64_t fail_from = 0;        // from this call on, every write fails (a dead disk)
    uint32_t stdout_rate = 0;      // faults on descriptor 1
    uint32_t stdout_kinds = 0;
};
extern IoCfg io;
enum IoKind { IO_EIO = 1, IO_ENOSPC = 2, IO_SHORT = 4, IO_EINTR = 8, IO_OPEN = 16, IO_CLOSE = 32, IO_READERR = 64, IO_SHORTREAD = 128, IO_EINTROPEN = 256 };
extern uint64_t io_calls, io_hard_write_faults, io_hard_read_faults, io_hard_open_faults, io_hard_close_faults, io_soft_faults, io_stdout_faults;
bool io_install();                  // install the system-call filter (once per process)
extern std::string scratch;         // private directory of this run
long raw_syscall(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0);
int open_fd_count();

extern void (*exit_hook)(int code); // called when the code under test calls exit()

}  // namespace sim

// ---------------------------------------------------------------- scenarios
namespace sim {
struct Scenario {
    const char* id;
    const char* (*rule)();
    void (*run)();                 // in the run's process; returning normally means: held
    void (*judge)(int end, int code);   // optional: in a second process, after the run ended
    unsigned flags;
};
enum { SC_IO = 1, SC_MAY_TERMINATE = 2, SC_STDOUT = 4, SC_MAY_EXIT = 8 };
// how a run ended, for judge(): the values of Shared::status
enum { END_OK = 1, END_VIOLATION = 2, END_DISCARD = 3, END_CRASH = 4, END_EXIT = 5, END_KNOWN = 6, END_TERMINATE = 7 };
void add_scenario(const Scenario& s);
struct Register { Register(const Scenario& s) { add_scenario(s); } };
// a violation that the known-findings file lists under this id ends the run as a known finding
[[noreturn]] void known_or_violation(const char* finding, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
extern const char* tag_names[32];
}
