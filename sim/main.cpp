// One process per worker: forks one child per simulated run, gates, minimises and replays.
#include "rt.h"
#include "rt_int.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <ucontext.h>
#include <algorithm>
#include <exception>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

namespace sim {
static std::vector<Scenario>& all() { static std::vector<Scenario> v; return v; }
void add_scenario(const Scenario& s) { all().push_back(s); }
const char* tag_names[32];
static std::set<std::string> known_ids;
void known_or_violation(const char* finding, const char* fmt, ...) {
    rt_depth++;
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(sh->message, sizeof(sh->message), fmt, ap);
    va_end(ap);
    append_context();
    if (known_ids.count(finding)) {
        char b[3900];
        snprintf(b, sizeof b, "%s", sh->message);
        snprintf(sh->message, sizeof sh->message, "%s: %s", finding, b);
        sh->status = END_KNOWN;
    } else
        sh->status = END_VIOLATION;
    die_now();
}
}  // namespace sim
using namespace sim;

static const Scenario* sc;
static std::string scratch_root;
static int cpu_limit = 60;

static void wipe(const std::string& dir) {      // only plain files directly inside our own scratch directory
    DIR* d = opendir(dir.c_str());
    if (!d) return;
    while (struct dirent* e = readdir(d)) {
        if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
        std::string p = dir + "/" + e->d_name;
        struct stat st;
        if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rmdir(p.c_str()); else unlink(p.c_str());
    }
    closedir(d);
}
static void on_fatal(int sig, siginfo_t* si, void* uc_) {
    ucontext_t* uc = (ucontext_t*)uc_;
    (void)si;
    rt_depth++;
    const char* n = sig == SIGSEGV ? "invalid memory access" : sig == SIGFPE ? "arithmetic exception" : sig == SIGBUS ? "bus error"
                    : sig == SIGILL ? "illegal instruction" : sig == SIGXCPU ? "no progress: processor time limit reached" : "aborted";
    if (sig == SIGABRT && (sc->flags & SC_MAY_TERMINATE)) { sh->status = END_TERMINATE; die_now(); }
    snprintf(sh->message, sizeof(sh->message), "%s (signal %d, pc=%p)", n, sig, (void*)uc->uc_mcontext.gregs[REG_RIP]);
    append_context();
    sh->status = END_VIOLATION;
    die_now();
}
static void on_terminate() {
    rt_depth++;
    std::string what = "unknown";
    if (auto p = std::current_exception()) {
        try { std::rethrow_exception(p); } catch (std::exception& e) { what = e.what(); } catch (...) {}
    }
    if (sc->flags & SC_MAY_TERMINATE) { sh->status = END_TERMINATE; die_now(); }
    snprintf(sh->message, sizeof(sh->message), "terminated by an exception that was not caught: %s", what.c_str());
    append_context();
    sh->status = END_VIOLATION;
    die_now();
}
static void on_exit_called(int code) {
    rt_depth++;
    sh->data[63] = (uint64_t)code;
    if (sc->flags & SC_MAY_EXIT) {
        // what exit() does for the program under test: flush its streams (the simulated disk may still refuse)
        rt_depth--;
        fflush(nullptr);
        rt_depth++;
        sh->status = END_EXIT;
        die_now();
    }
    snprintf(sh->message, sizeof(sh->message), "the library called exit(%d)", code);
    append_context();
    sh->status = END_VIOLATION;
    die_now();
}
static char* altstack;
static void child_setup() {
    signal(SIGPIPE, SIG_IGN);
    struct rlimit rl = {(rlim_t)cpu_limit, (rlim_t)cpu_limit + 5};
    setrlimit(RLIMIT_CPU, &rl);
    struct rlimit core = {0, 0};
    setrlimit(RLIMIT_CORE, &core);
    stack_t ss;
    memset(&ss, 0, sizeof ss);
    ss.ss_sp = altstack;
    ss.ss_size = 1 << 16;
    sigaltstack(&ss, nullptr);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_fatal;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    for (int s : {SIGSEGV, SIGFPE, SIGBUS, SIGILL, SIGABRT, SIGXCPU}) sigaction(s, &sa, nullptr);
    std::set_terminate(on_terminate);
    if (!(sc->flags & SC_STDOUT)) {
        int fd = open("/dev/null", O_WRONLY);
        dup2(fd, 1);
        dup2(fd, 2);
        close(fd);
    }
}
__attribute__((noinline)) static void dirty_stack(uint64_t pat) {
    volatile uint64_t a[4096];
    for (int i = 0; i < 4096; i++) a[i] = pat;
}
struct Result {
    int status = 0;
    std::string msg;
    uint64_t hash = 0, sched_hash = 0, wl_hash = 0;
};
static void child_main(uint64_t seed) {
    child_setup();
    plan_start(seed);
    sched_init_main();
    heap_init();
    exit_hook = on_exit_called;
    static const uint64_t pats[] = {0, 0xffffffffffffffffull, 0x7ff4dead7ff4deadull, 0x4045000000000000ull, 0xc1d2e3f405162738ull, 0x3fe0000000000000ull};
    uint32_t k = f_fault(2, 5);
    heap.fill = pats[k];
    if (k) count(FT_HEAPFILL);
    sched_begin_random();
    dirty_stack(pats[k]);
    if (sc->flags & SC_IO) if (!io_install()) { snprintf(sh->message, sizeof sh->message, "simulator: cannot install the system call filter"); sh->status = 99; die_now(); }
    g_on = true;
    sc->run();
    sh->status = END_OK;
    die_now();
}
static Result run_once(uint64_t seed) {
    volatile uint32_t dummy = 0;
    (void)dummy;
    memset((void*)sh, 0, offsetof(Shared, w));
    sh->nw = sh->nf = sh->ns = sh->np = sh->overflow = 0;
    wipe(scratch);
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) { child_main(seed); _exit(0); }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (sh->status == 0) {
        if (WIFSIGNALED(st)) {
            snprintf(sh->message, sizeof(sh->message), WTERMSIG(st) == SIGKILL ? "killed (no progress or out of memory)" : "killed by signal %d", WTERMSIG(st));
            sh->status = (WTERMSIG(st) == SIGABRT && (sc->flags & SC_MAY_TERMINATE)) ? (int)END_TERMINATE : (int)END_VIOLATION;
        } else {
            snprintf(sh->message, sizeof(sh->message), "the process ended (code %d) without finishing the run", WEXITSTATUS(st));
            sh->status = END_VIOLATION;
        }
    }
    if (sh->status == END_TERMINATE) snprintf(sh->message, sizeof sh->message, "terminated");
    int end = sh->status;
    if (sc->judge && (end == END_OK || end == END_CRASH || end == END_EXIT || end == END_TERMINATE)) {
        int code = (int)sh->data[63];
        sh->status = 0;
        pid = fork();
        if (pid == 0) {
            child_setup();
            plan_start(seed);
            sched_init_main();
            heap_init();
            sched.quiet = true;
            io.on = false;
            sc->judge(end, code);
            sh->status = END_OK;
            die_now();
        }
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        if (sh->status == 0) { snprintf(sh->message, sizeof(sh->message), "simulator: the judge died (%d)", st); sh->status = 98; }
    } else if (end == END_CRASH || end == END_EXIT || end == END_TERMINATE)
        sh->status = END_OK;
    Result r;
    r.status = sh->status;
    r.msg = sh->message;
    r.hash = sh->hash;
    r.sched_hash = sh->sched_hash;
    r.wl_hash = sh->wl_hash;
    return r;
}
static bool same(const Result& a, const Result& b) {
    return a.status == b.status && a.msg == b.msg && a.hash == b.hash && a.sched_hash == b.sched_hash && a.wl_hash == b.wl_hash;
}
static Plan recorded() {
    Plan p;
    p.replay = true;
    p.seed = plan.seed;
    p.w.assign(sh->w, sh->w + sh->nw);
    for (uint32_t i = 0; i < sh->nf; i++) p.f.m[sh->f[i].k] = sh->f[i].v;
    for (uint32_t i = 0; i < sh->ns; i++) p.s.m[sh->s[i].k] = sh->s[i].v;
    for (uint32_t i = 0; i < sh->np; i++) p.p.m[sh->p[i].k] = sh->p[i].v;
    return p;
}
static Result run_plan(const Plan& p) {
    plan = p;
    return run_once(p.seed);
}
// violations are the same kind when the text before the first detail agrees
static std::string cls(const std::string& m) {
    std::string s;
    for (char c : m) {
        if (c == ':' || c == '(') break;
        if (c >= '0' && c <= '9') continue;
        s += c;
        if (s.size() > 60) break;
    }
    return s;
}
static double now() {
    struct timespec ts;
    raw_syscall(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}
static void save_plan(const char* path, const Plan& p, const std::string& msg, const char* note) {
    FILE* f = fopen(path, "w");
    if (!f) { fprintf(stderr, "cannot write %s\n", path); exit(3); }
    fprintf(f, "property %s\nseed %llu\nmode %s\nmessage %s\nnote %s\n", sc->id, (unsigned long long)p.seed, p.replay ? "recorded" : "seed", msg.c_str(), note);
    if (!p.replay) { fprintf(f, "end\n"); fclose(f); return; }
    fprintf(f, "w");
    for (auto v : p.w) fprintf(f, " %u", v);
    fprintf(f, "\nf");
    for (auto& k : p.f.m) fprintf(f, " %llu:%u", (unsigned long long)k.first, k.second);
    fprintf(f, "\ns");
    for (auto& k : p.s.m) fprintf(f, " %llu:%u", (unsigned long long)k.first, k.second);
    fprintf(f, "\np");
    for (auto& k : p.p.m) fprintf(f, " %llu:%u", (unsigned long long)k.first, k.second);
    fprintf(f, "\nend\n");
    fclose(f);
}
static bool load_plan(const char* path, Plan& p, std::string& msg) {
    FILE* f = fopen(path, "r");
    if (!f) return false;
    static char line[1 << 20];
    bool ended = false;
    p.replay = true;
    while (fgets(line, sizeof line, f)) {
        if (!strncmp(line, "seed ", 5)) p.seed = strtoull(line + 5, 0, 10);
        else if (!strncmp(line, "message ", 8)) { msg = line + 8; while (msg.size() && msg.back() == '\n') msg.pop_back(); }
        else if (!strncmp(line, "mode seed", 9)) p.replay = false;
        else if (!strncmp(line, "end", 3)) ended = true;
        else if (line[1] == ' ' || line[1] == '\n') {
            char* t = strtok(line + 1, " \n");
            for (; t; t = strtok(nullptr, " \n")) {
                if (line[0] == 'w') p.w.push_back((uint32_t)strtoul(t, 0, 10));
                else {
                    uint64_t k = strtoull(t, 0, 10);
                    char* c = strchr(t, ':');
                    uint32_t v = c ? (uint32_t)strtoul(c + 1, 0, 10) : 0;
                    (line[0] == 'f' ? p.f : line[0] == 's' ? p.s : p.p).m[k] = v;
                }
            }
        }
    }
    fclose(f);
    return ended;
}
static uint64_t sh_seed(const std::string& file) { Plan q; std::string m; load_plan(file.c_str(), q, m); return q.seed; }
// ddmin over a sparse stream
static void shrink_sparse(Plan& best, Sparse Plan::*mem, const std::string& want, double deadline) {
    Plan t = best;
    (t.*mem).m.clear();
    if (!(best.*mem).m.empty()) {
        Result r = run_plan(t);
        if (r.status == END_VIOLATION && cls(r.msg) == want) { best = t; return; }
    }
    size_t n = 2;
    while ((best.*mem).m.size() >= 1 && now() < deadline) {
        std::vector<std::pair<uint64_t, uint32_t> > v((best.*mem).m.begin(), (best.*mem).m.end());
        size_t chunk = (v.size() + n - 1) / n;
        bool done = false;
        for (size_t a = 0; a < v.size() && now() < deadline; a += chunk) {
            Plan q = best;
            auto& m = (q.*mem).m;
            for (size_t i = a; i < std::min(a + chunk, v.size()); i++) m.erase(v[i].first);
            Result r = run_plan(q);
            if (r.status == END_VIOLATION && cls(r.msg) == want) { best = q; done = true; break; }
        }
        if (done) { n = std::max<size_t>(2, n - 1); continue; }
        if (chunk <= 1) break;
        n = std::min(n * 2, v.size());
    }
}
static Plan minimise(Plan best, const std::string& want, double seconds) {
    double deadline = now() + seconds;
    auto ok = [&](const Plan& p) { Result r = run_plan(p); return r.status == END_VIOLATION && cls(r.msg) == want; };
    for (int round = 0; round < 3 && now() < deadline; round++) {
        size_t before = best.w.size() + best.f.m.size() + best.s.m.size() + best.p.m.size();
        uint64_t sum = 0;
        for (auto v : best.w) sum += v;
        shrink_sparse(best, &Plan::p, want, deadline);
        shrink_sparse(best, &Plan::s, want, deadline);
        shrink_sparse(best, &Plan::f, want, deadline);
        // workload: cut the tail, zero blocks, then lower single choices
        for (size_t keep = 0; keep < best.w.size() && now() < deadline;) {
            Plan q = best;
            q.w.resize(keep);
            if (ok(q)) { best = q; break; }
            keep = keep ? keep * 2 : 1;
        }
        for (size_t blk = std::max<size_t>(1, best.w.size() / 2); now() < deadline; blk /= 2) {
            for (size_t a = 0; a < best.w.size() && now() < deadline; a += blk) {
                Plan q = best;
                bool any = false;
                for (size_t i = a; i < std::min(a + blk, q.w.size()); i++) { any |= q.w[i] != 0; q.w[i] = 0; }
                if (any && ok(q)) best = q;
            }
            if (blk <= 1) break;
        }
        for (size_t i = 0; i < best.w.size() && now() < deadline; i++) {
            while (best.w[i] > 0 && now() < deadline) {
                Plan q = best;
                uint32_t v = best.w[i];
                q.w[i] = v / 2;
                if (ok(q)) { best = q; continue; }
                q.w[i] = v - 1;
                if (ok(q)) { best = q; continue; }
                break;
            }
        }
        uint64_t sum2 = 0;
        for (auto v : best.w) sum2 += v;
        if (before == best.w.size() + best.f.m.size() + best.s.m.size() + best.p.m.size() && sum == sum2) break;
    }
    return best;
}

int main(int argc, char** argv) {
    {   // fixed addresses make logs comparable; nothing depends on it
        int p = personality(0xffffffff);
        if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOASLR_TRIED")) {
            setenv("SIM_NOASLR_TRIED", "1", 1);
            if (personality(p | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
        }
    }
    std::string prop, mode = "batch", file, outp;
    uint64_t base = 1, seed = 0;
    int worker = 0, workers = 1;
    double seconds = 10, min_seconds = 30;
    long max_runs = 1000000000;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&]() { if (i + 1 >= argc) { fprintf(stderr, "missing value for %s\n", a.c_str()); exit(3); } return std::string(argv[++i]); };
        if (a == "--prop") prop = nx();
        else if (a == "--rule") mode = "rule";
        else if (a == "--base") base = strtoull(nx().c_str(), 0, 10);
        else if (a == "--seed") { mode = "seed"; seed = strtoull(nx().c_str(), 0, 10); }
        else if (a == "--replay") { mode = "replay"; file = nx(); }
        else if (a == "--minimise") { mode = "minimise"; file = nx(); }
        else if (a == "--worker") worker = atoi(nx().c_str());
        else if (a == "--workers") workers = atoi(nx().c_str());
        else if (a == "--seconds") seconds = atof(nx().c_str());
        else if (a == "--min-seconds") min_seconds = atof(nx().c_str());
        else if (a == "--max-runs") max_runs = atol(nx().c_str());
        else if (a == "--scratch") scratch_root = nx();
        else if (a == "--out") outp = nx();
        else if (a == "--known") known_ids.insert(nx());
        else if (a == "--cpu") cpu_limit = atoi(nx().c_str());
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
    }
    for (auto& s : all()) if (prop == s.id) sc = &s;
    if (mode == "rule") { printf("%s\n", sc ? sc->rule() : ""); return sc ? 0 : 3; }
    if (!sc) { fprintf(stderr, "no scenario %s\n", prop.c_str()); return 3; }
    if (scratch_root.empty()) { fprintf(stderr, "--scratch needed\n"); return 3; }
    sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    altstack = (char*)mmap(nullptr, 1 << 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    char sub[64];
    snprintf(sub, sizeof sub, "/w%02d", worker);
    mkdir(scratch_root.c_str(), 0700);
    scratch = scratch_root + sub;
    mkdir(scratch.c_str(), 0700);

    if (mode == "seed") {
        Result r = run_once(seed);
        Plan pl = recorded();
        printf("case %s\n", sh->context);
        printf("status %d message %s\nhash %016llx sched %016llx wl %016llx  w=%u f=%u s=%u p=%u overflow=%u\n", r.status, r.msg.c_str(), (unsigned long long)r.hash,
               (unsigned long long)r.sched_hash, (unsigned long long)r.wl_hash, sh->nw, sh->nf, sh->ns, sh->np, sh->overflow);
        for (int i = 0; i < ST_N; i++) if (sh->stat[i]) printf("  %s=%llu", stat_names[i], (unsigned long long)sh->stat[i]);
        printf("\n");
        if (!outp.empty()) save_plan(outp.c_str(), pl, r.msg, "recorded");
        return r.status == END_VIOLATION ? 1 : 0;
    }
    if (mode == "replay" || mode == "minimise") {
        Plan p;
        std::string msg;
        if (!load_plan(file.c_str(), p, msg)) { fprintf(stderr, "cannot read %s\n", file.c_str()); return 3; }
        if (mode == "minimise") {
            Result r0 = run_plan(p);
            if (r0.status != END_VIOLATION) { printf("not reproduced: status %d %s\n", r0.status, r0.msg.c_str()); return 3; }
            if (!p.replay) { p = recorded(); if (sh->overflow) { p = Plan(); p.seed = sh_seed(file); } }
            Plan b = p.replay ? minimise(p, cls(r0.msg), min_seconds) : p;
            Result r = run_plan(b);
            if (r.status != END_VIOLATION) { printf("minimised run is not a violation\n"); return 3; }
            // exactly what the run drew (missing workload choices were zeros)
            save_plan(outp.c_str(), b, r.msg, "minimised schedule, faults and workload");
            printf("minimised to %zu workload choices, %zu faults, %zu scheduling choices, %zu preemptions\n", b.w.size(), b.f.m.size(), b.s.m.size(), b.p.m.size());
            return 0;
        }
        Result r = run_plan(p);
        Result r2 = run_plan(p);
        printf("status %d\nmessage %s\nhash %016llx\n", r.status, r.msg.c_str(), (unsigned long long)r.hash);
        if (!same(r, r2)) {
            printf("the two replays differ in %s\n", r.status != r2.status ? "their outcome" : r.msg != r2.msg ? "the values reported: they depend on memory nobody wrote, or on addresses" : "their trace");
            if (r.status != r2.status) return 3;
        }
        return r.status == END_VIOLATION ? 1 : r.status == END_OK || r.status == END_DISCARD || r.status == END_KNOWN ? 0 : 3;
    }
    // batch
    std::vector<uint64_t> tot(ST_N, 0);
    std::unordered_set<uint64_t> scheds, wls, outs;
    uint64_t runs = 0, nontrivial = 0, discarded = 0, known = 0, gate = 0, multi_runs = 0, fault_runs = 0, unstable = 0;
    uint64_t tagc[32] = {0};
    std::set<std::string> known_msgs, unstable_msgs;
    std::vector<uint64_t> samples;
    double t0 = now();
    int rc = 0;
    std::string vmsg;
    uint64_t vseed = 0;
    std::vector<std::string> sample_txt;
    for (uint64_t i = worker; (long)runs < max_runs && now() - t0 < seconds; i += workers) {
        uint64_t s = Rng::mix(base * 0x10001 + i) >> 16;
        plan = Plan();
        Result r = run_once(s);
        runs++;
        if (r.status >= 90) { vmsg = r.msg; rc = 3; vseed = s; break; }
        bool faulted = false;
        for (int k = 0; k < ST_N; k++) {
            tot[k] += sh->stat[k];
            if (k >= FT_ALLOC && sh->stat[k]) faulted = true;
        }
        for (int k = 0; k < 32; k++) if (sh->tags >> k & 1) tagc[k]++;
        bool m = sh->stat[ST_MULTI_REGIONS] > 0 && sh->stat[ST_SWITCHES] > 0;
        multi_runs += m;
        fault_runs += faulted;
        if (r.status == END_DISCARD) discarded++;
        else {
            if ((m || faulted) && scheds.insert(r.sched_hash ^ (r.wl_hash * 3) ^ (r.hash * 7)).second) nontrivial++;
            wls.insert(r.wl_hash);
            outs.insert(r.sched_hash);
        }
        if (r.status == END_KNOWN) { known++; known_msgs.insert(r.msg); }
        if (samples.size() < 3 && r.status == END_OK && (m || faulted || i > 60)) {
            char b[400];
            snprintf(b, sizeof b, "seed %llu: %u workload choices, %u fault draws, %u scheduling choices, %u preemptions, interleaving %016llx: ", (unsigned long long)s, sh->nw, sh->nf, sh->ns, sh->np, (unsigned long long)sh->sched_hash);
            samples.push_back(s);
            sample_txt.push_back(std::string(b) + sh->context);
        }
        if (r.status == END_VIOLATION || (i / workers) % 24 == 0) {
            Plan rec = recorded();
            bool overflow = sh->overflow;
            plan = Plan();
            Result r2 = run_once(s);
            gate++;
            if (!same(r, r2)) {               // something the simulator does not control
                int bad = (r.status == END_VIOLATION) + (r2.status == END_VIOLATION);
                for (int k = 0; k < 2 && bad; k++) bad += run_once(s).status == END_VIOLATION;
                unstable++;
                unstable_msgs.insert("seed " + std::to_string(s) + ": " + r.msg.substr(0, 300) + " / " + r2.msg.substr(0, 300));
                if (bad < 3) continue;        // not a failure that could be shown again
                if (r.status != END_VIOLATION) r = r2;
            }
            else if (r.status == END_OK && !overflow && (i / workers) % 96 == 0) {   // the recorded choices alone reproduce the run
                Result r3 = run_plan(rec);
                gate++;
                if (r3.status != r.status || r3.hash != r.hash || r3.sched_hash != r.sched_hash) {
                    unstable++;
                    unstable_msgs.insert("seed " + std::to_string(s) + ": replaying the recorded choices gives a different run");
                }
            }
            if (r.status == END_VIOLATION) {
                rc = 1;
                vmsg = r.msg;
                vseed = s;
                if (!outp.empty()) { if (overflow) { rec = Plan(); rec.seed = s; } save_plan((outp + ".replay").c_str(), rec, r.msg, overflow ? "too many choices to list: replays from the seed" : "as found"); }
                break;
            }
        }
    }
    double wall = now() - t0;
    if (!outp.empty()) {
        FILE* f = fopen((outp + ".json").c_str(), "w");
        fprintf(f, "{\"runs\":%llu,\"nontrivial\":%llu,\"discarded\":%llu,\"known\":%llu,\"gate_runs\":%llu,\"unstable\":%llu,\"multi_runs\":%llu,\"fault_runs\":%llu,\"wall\":%.3f,\"rc\":%d,\"seed\":%llu,\"distinct_workloads\":%zu,\"stats\":{",
                (unsigned long long)runs, (unsigned long long)nontrivial, (unsigned long long)discarded, (unsigned long long)known, (unsigned long long)gate, (unsigned long long)unstable,
                (unsigned long long)multi_runs, (unsigned long long)fault_runs, wall, rc, (unsigned long long)vseed, wls.size());
        for (int k = 0; k < ST_N; k++) fprintf(f, "%s\"%s\":%llu", k ? "," : "", stat_names[k], (unsigned long long)tot[k]);
        fprintf(f, "},\"samples\":[");
        for (size_t k = 0; k < samples.size(); k++) fprintf(f, "%s%llu", k ? "," : "", (unsigned long long)samples[k]);
        fprintf(f, "],\"tags\":[");
        for (int k = 0; k < 32; k++) fprintf(f, "%s%llu", k ? "," : "", (unsigned long long)tagc[k]);
        fprintf(f, "]}\n");
        fclose(f);
        f = fopen((outp + ".msg").c_str(), "w");
        fprintf(f, "%s\n", vmsg.c_str());
        fclose(f);
        f = fopen((outp + ".samples").c_str(), "w");
        for (auto& m : sample_txt) { for (auto& ch : m) if (ch == '\n') ch = ' '; fprintf(f, "%s\n", m.c_str()); }
        fclose(f);
        f = fopen((outp + ".known").c_str(), "w");
        for (auto& m : known_msgs) fprintf(f, "%s\n", m.c_str());
        fclose(f);
        f = fopen((outp + ".unstable").c_str(), "w");
        for (auto& m : unstable_msgs) fprintf(f, "%s\n", m.c_str());
        fclose(f);
        f = fopen((outp + ".scheds").c_str(), "wb");
        size_t n = 0;
        for (auto h : outs) { if (n++ > 400000) break; fwrite(&h, 8, 1, f); }
        fclose(f);
    } else
        printf("runs %llu rc %d seed %llu: %s\n", (unsigned long long)runs, rc, (unsigned long long)vseed, vmsg.c_str());
    wipe(scratch);
    rmdir(scratch.c_str());
    return rc;
}
