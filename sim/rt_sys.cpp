// Virtual clock and simulated storage faults.  Compiled WITHOUT instrumentation.
#include "rt.h"
#include "rt_int.h"
#include <errno.h>
#include <fcntl.h>
#include <dlfcn.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <stddef.h>

extern "C" long sim_raw_syscall(long n, long a, long b, long c, long d, long e, long f);
extern "C" char sim_raw_syscall_after[];
asm(R"(
.text
.globl sim_raw_syscall
.type sim_raw_syscall,@function
sim_raw_syscall:
    mov %rdi,%rax
    mov %rsi,%rdi
    mov %rdx,%rsi
    mov %rcx,%rdx
    mov %r8,%r10
    mov %r9,%r8
    mov 8(%rsp),%r9
    syscall
.globl sim_raw_syscall_after
sim_raw_syscall_after:
    ret
.size sim_raw_syscall,.-sim_raw_syscall
)");

namespace sim {
long raw_syscall(long n, long a, long b, long c, long d, long e, long f) { return sim_raw_syscall(n, a, b, c, d, e, f); }

// ---------------------------------------------------------------- clock
ClockCfg clk;
int64_t clock_us = 0;
static int64_t base_us = 1600000000000000ll;
int64_t clock_log[256];
int clock_log_n = 0;
static int64_t read_clock() {
    count(ST_CLOCKREADS);
    int64_t step = 3 + (int64_t)(clock_us % 7);
    if (clk.mode) {
        uint32_t k = f_fault(2, 6);
        if (clk.mode == 1 && k) k = 1 + (k & 1);
        else if (clk.mode == 2 && k) k = 3;
        else if (clk.mode == 3 && k) k = 4;
        switch (k) {
            case 1: step = 999000 + (clock_us % 1999); count(FT_CLOCK_JUMP); break;           // about a second
            case 2: step = 3600ll * 1000000 + 123457; count(FT_CLOCK_JUMP); break;
            case 3: step = -(int64_t)(1500000 + clock_us % 777); count(FT_CLOCK_BACK); break;
            case 4: step = 0; count(FT_CLOCK_STALL); break;
            case 5: step = 86400ll * 1000000 * 400; count(FT_CLOCK_JUMP); break;
            case 6: step = 500001; count(FT_CLOCK_JUMP); break;
            default: break;
        }
    }
    clock_us += step;
    if (clock_log_n < 256) clock_log[clock_log_n++] = clock_us;
    return base_us + clock_us;
}

// ---------------------------------------------------------------- files
IoCfg io;
uint64_t io_calls = 0, io_hard_write_faults = 0, io_hard_read_faults = 0, io_hard_open_faults = 0, io_hard_close_faults = 0,
         io_soft_faults = 0, io_stdout_faults = 0;
std::string scratch;
void (*exit_hook)(int code) = nullptr;
static bool fd_ours[256];          // descriptors the code under test opened

static uint32_t pick(uint32_t rate, uint32_t kinds) {
    // one fault opportunity; returns one bit of `kinds` or 0
    int n = __builtin_popcount(kinds);
    if (!n) return 0;
    uint32_t k = f_fault(rate, n);
    if (!k) return 0;
    while (--k) kinds &= kinds - 1;
    return kinds & -kinds;
}
static bool is_path(const char* p) { return io.relative && *p && *p != '/' ? true : scratch.size() && strncmp(p, scratch.c_str(), scratch.size()) == 0; }

static long do_write(int fd, const char* buf, size_t n) {
    bool out = fd == 1 || fd == 2;
    if (!out && !(fd >= 0 && fd < 256 && fd_ours[fd])) return raw_syscall(SYS_write, fd, (long)buf, (long)n);
    io_calls++;
    count(ST_IOCALLS);
    if (out) {
        uint32_t k = fd == 1 ? pick(io.stdout_rate, io.stdout_kinds) : 0;
        if (k) {
            count(FT_STDOUT);
            io_stdout_faults++;
            if (k == IO_EIO) return -EIO;
            if (k == IO_ENOSPC) return -ENOSPC;
            if (k == IO_SHORT && n > 1) n = 1 + n / 2;
            if (k == IO_EINTR) return -EINTR;
        }
        return raw_syscall(SYS_write, fd, (long)buf, (long)n);
    }
    if (io.crash_at && io_calls >= io.crash_at) {
        count(FT_CRASH);
        // a crash can leave any prefix of this write behind
        uint32_t part = f_draw(3);
        size_t m = part == 0 ? 0 : part == 1 ? n / 2 : n;
        if (m) raw_syscall(SYS_write, fd, (long)buf, (long)m);
        sh->phase = 1000;
        sh->status = 4;
        die_now();
    }
    if (io.fail_from && io_calls >= io.fail_from) { count(FT_IO_EIO); io_hard_write_faults++; return -EIO; }
    if (io.disk_limit >= 0) {
        if (io.disk_limit == 0) { count(FT_IO_ENOSPC); io_hard_write_faults++; return -ENOSPC; }
        if ((int64_t)n > io.disk_limit) n = (size_t)io.disk_limit;
    }
    uint32_t k = pick(io.rate, io.kinds & (IO_EIO | IO_ENOSPC | IO_SHORT | IO_EINTR));
    if (k == IO_EIO) { count(FT_IO_EIO); io_hard_write_faults++; return -EIO; }
    if (k == IO_ENOSPC) { count(FT_IO_ENOSPC); io_hard_write_faults++; return -ENOSPC; }
    if (k == IO_EINTR) { count(FT_IO_EINTR); io_hard_write_faults++; return -EINTR; }
    if (k == IO_SHORT && n > 1) { count(FT_IO_SHORT); io_soft_faults++; n = 1 + n / 3; }
    long r = raw_syscall(SYS_write, fd, (long)buf, (long)n);
    if (r > 0 && io.disk_limit >= 0) io.disk_limit -= r;
    return r;
}
static long do_read(int fd, char* buf, size_t n) {
    if (!(fd >= 0 && fd < 256 && fd_ours[fd])) return raw_syscall(SYS_read, fd, (long)buf, (long)n);
    io_calls++;
    count(ST_IOCALLS);
    uint32_t k = pick(io.rate, io.kinds & (IO_READERR | IO_SHORTREAD));
    if (k == IO_READERR) { count(FT_IO_READ); io_hard_read_faults++; return -EIO; }
    if (k == IO_SHORTREAD && n > 1) { count(FT_IO_SHORT); io_soft_faults++; n = n > 16 ? 1 + (size_t)(io_calls * 37 % 211) : 1; }
    return raw_syscall(SYS_read, fd, (long)buf, (long)n);
}
static long handle(long nr, long a, long b, long c, long d, long e, long f) {
    switch (nr) {
        case SYS_open: case SYS_openat: case SYS_creat: {
            const char* path = (const char*)(nr == SYS_openat ? b : a);
            if (is_path(path)) {
                io_calls++;
                count(ST_IOCALLS);
                uint32_t k = pick(io.rate, io.kinds & (IO_OPEN | IO_EINTROPEN));
                if (k == IO_OPEN) { count(FT_IO_OPEN); io_hard_open_faults++; return -(long)(io_calls & 1 ? EACCES : EMFILE); }
                if (k == IO_EINTROPEN) { count(FT_IO_EINTR); io_hard_open_faults++; return -EINTR; }
            }
            long r = raw_syscall(nr, a, b, c, d);
            if (r >= 0 && r < 256) fd_ours[r] = is_path(path);
            return r;
        }
        case SYS_close: {
            int fd = (int)a;
            bool mine = fd >= 0 && fd < 256 && fd_ours[fd];
            if (!mine) return raw_syscall(nr, a);
            fd_ours[fd] = false;
            io_calls++;
            count(ST_IOCALLS);
            uint32_t k = pick(io.rate, io.kinds & IO_CLOSE);
            long r = raw_syscall(nr, a);
            if (k) { count(FT_IO_CLOSE); io_hard_close_faults++; return -EIO; }
            return r;
        }
        case SYS_write: return do_write((int)a, (const char*)b, (size_t)c);
        case SYS_writev: {
            const struct iovec* v = (const struct iovec*)b;
            long total = 0;
            for (long i = 0; i < c; i++) {
                if (!v[i].iov_len) continue;
                long r = do_write((int)a, (const char*)v[i].iov_base, v[i].iov_len);
                if (r < 0) return total ? total : r;
                total += r;
                if ((size_t)r < v[i].iov_len) break;
            }
            return total;
        }
        case SYS_read: return do_read((int)a, (char*)b, (size_t)c);
        case SYS_readv: {
            const struct iovec* v = (const struct iovec*)b;
            long total = 0;
            for (long i = 0; i < c; i++) {
                if (!v[i].iov_len) continue;
                long r = do_read((int)a, (char*)v[i].iov_base, v[i].iov_len);
                if (r < 0) return total ? total : r;
                total += r;
                if ((size_t)r < v[i].iov_len) break;
            }
            return total;
        }
        case SYS_fsync: case SYS_fdatasync: {
            uint32_t k = pick(io.rate, io.kinds & IO_EIO);
            if (k) { count(FT_IO_EIO); io_hard_write_faults++; return -EIO; }
            return 0;
        }
        default: return raw_syscall(nr, a, b, c, d, e, f);
    }
}
static void on_sigsys(int, siginfo_t* si, void* uc_) {
    ucontext_t* uc = (ucontext_t*)uc_;
    greg_t* g = uc->uc_mcontext.gregs;
    rt_depth++;
    long r = handle(si->si_syscall, g[REG_RDI], g[REG_RSI], g[REG_RDX], g[REG_R10], g[REG_R8], g[REG_R9]);
    rt_depth--;
    g[REG_RAX] = r;
}
bool io_install() {
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_sigsys;
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    sigaction(SIGSYS, &sa, nullptr);
    if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0)) return false;
    uint64_t ip = (uint64_t)sim_raw_syscall_after;
    static const int traps[] = {SYS_open, SYS_openat, SYS_creat, SYS_close, SYS_write, SYS_writev, SYS_read, SYS_readv, SYS_fsync, SYS_fdatasync};
    const int n = sizeof traps / sizeof traps[0];
    struct sock_filter f[64];
    int k = 0;
    auto st = [&](uint16_t code, uint32_t kk) { f[k].code = code; f[k].jt = f[k].jf = 0; f[k].k = kk; k++; };
    auto jp = [&](uint32_t kk, uint8_t t, uint8_t fl) { f[k].code = BPF_JMP | BPF_JEQ | BPF_K; f[k].jt = t; f[k].jf = fl; f[k].k = kk; k++; };
    st(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, instruction_pointer));
    jp((uint32_t)ip, 0, 3);
    st(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, instruction_pointer) + 4);
    jp((uint32_t)(ip >> 32), 0, 1);
    st(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
    st(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr));
    for (int i = 0; i < n; i++) jp(traps[i], (uint8_t)(n - i), 0);
    st(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
    st(BPF_RET | BPF_K, SECCOMP_RET_TRAP);
    struct sock_fprog prog = {(unsigned short)k, f};
    return prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &prog) == 0;
}
int open_fd_count() {
    int n = 0;
    for (int i = 0; i < 256; i++) {
        long r = raw_syscall(SYS_fcntl, i, F_GETFD);
        if (r >= 0) n++;
    }
    return n;
}
}  // namespace sim

using namespace sim;
extern "C" {
int gettimeofday(struct timeval* tv, void*) {
    int64_t t;
    if (g_on) t = read_clock();
    else { struct timespec ts; raw_syscall(SYS_clock_gettime, CLOCK_REALTIME, (long)&ts); t = ts.tv_sec * 1000000ll + ts.tv_nsec / 1000; }
    { tv->tv_sec = t / 1000000; tv->tv_usec = t % 1000000; }
    return 0;
}
int clock_gettime(clockid_t id, struct timespec* ts) {
    if (!g_on) return (int)raw_syscall(SYS_clock_gettime, id, (long)ts);
    int64_t t = read_clock();
    ts->tv_sec = t / 1000000;
    ts->tv_nsec = (t % 1000000) * 1000;
    return 0;
}
time_t time(time_t* p) {
    time_t t;
    if (g_on) t = read_clock() / 1000000;
    else { struct timespec ts; raw_syscall(SYS_clock_gettime, CLOCK_REALTIME, (long)&ts); t = ts.tv_sec; }
    if (p) *p = t;
    return t;
}
clock_t clock() { return g_on ? (clock_t)read_clock() : 0; }
double omp_get_wtime() { return read_clock() * 1e-6; }
// exit() of the code under test: flush what it wrote, let the scenario judge
void exit(int code) {
    if (exit_hook && g_on) { auto h = exit_hook; exit_hook = nullptr; h(code); }
    fflush(nullptr);
    raw_syscall(SYS_exit_group, code);
    for (;;) {}
}
}
