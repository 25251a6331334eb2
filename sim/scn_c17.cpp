// C17: the command-line program's exit status tells the truth.
#include "model.h"
#include "rt_int.h"
#include <getopt.h>
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
using namespace sim;
int arctic_main(int argc, char** argv);
static const char* rule() { return "the program's main function is run with a seeded list of options (demonstration, benchmark, help, verbosity, unknown options, missing values, stray words) in a directory with or without older files, while the simulated file system injects full disks, failing opens, writes, reads and closes, short transfers and crashes, and the external download command fails or succeeds; the benchmark image may be damaged; a second process compares exit status and files with what a fault-free run leaves and with the reference model; non-trivial when a fault fired"; }
namespace {
const char* PRE = "image_test_pre_cti.txt";
const char* POST = "image_test_cti_removed.txt";
const char* BENCH = "benchmark_2k2k_image.txt";
struct Case {
    std::vector<std::string> args;
    bool old_files = false, bad_option = false, help = false, demo = false, bench = false, bench_file = false;
    int faults = 0, download = 0;
    uint64_t k = 0;
    std::string desc;
};
int download_status = 0;
bool download_creates = false;
int downloads = 0;
int bench_kind = 0;                      // 0: complete; otherwise something no image can be read from
std::string bench_text() {
    std::string s = bench_kind == 1 ? "5 -3 \n" : bench_kind == 2 ? "five 3 \n" : "5 3 \n";
    int n = bench_kind == 3 ? 14 : bench_kind == 4 ? 0 : 15;
    for (int i = 0; i < n; i++) s += bench_kind == 5 && i == 7 ? "abc " : std::to_string(100 * (i % 4)) + ".0 ";
    return bench_kind == 6 ? "" : s + "\n";
}
void put(const std::string& name, const std::string& text) {
    FILE* f = fopen((scratch + "/" + name).c_str(), "w");
    fwrite(text.data(), 1, text.size(), f);
    fclose(f);
}
bool get(const std::string& name, std::string& s) {
    FILE* f = fopen((scratch + "/" + name).c_str(), "r");
    if (!f) return false;
    char b[65536];
    size_t n;
    s.clear();
    while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
    fclose(f);
    return true;
}
const char* OLD = "1 1 \n77.000000 \n";
Case gen() {
    Case c;
    c.args.push_back("arctic");
    int n = 1 + (int)w_draw(3);
    bool stop = false;                     // nothing after this option is looked at
    for (int i = 0; i < n; i++) {
        int k = (int)w_draw(10);
        if (i == 0) k = w_chance(1, 4) ? k : 0;
        switch (k) {
            case 0: c.args.push_back(w_pick<const char*>({"-d", "--demo", "--de"})); if (!stop) c.demo = true; break;
            case 1: c.args.push_back("-v"); c.args.push_back(w_pick<const char*>({"0", "1", "2", "x"})); break;
            case 2: c.args.push_back(w_pick<const char*>({"--verbosity=0", "--verbosity=2", "-v1"})); break;
            case 3: c.args.push_back(w_pick<const char*>({"-x", "--bogus", "--demonstrate", "-dq"})); if (!stop) c.bad_option = stop = true; break;
            case 4: c.args.push_back("word"); break;
            case 5: if (i == n - 1) { c.args.push_back(w_pick<const char*>({"-v", "--verbosity"})); if (!stop) c.bad_option = stop = true; } else c.args.push_back("-d"), c.demo = c.demo || !stop; break;
            case 6: c.args.push_back(w_pick<const char*>({"-h", "--help"})); if (!stop) c.help = stop = true; break;
            case 7: c.args.push_back(w_pick<const char*>({"-b", "--benchmark"})); if (!stop) c.bench = true; break;
            case 8: c.args.push_back(w_pick<const char*>({"-dv0", "-dv1", "-dv2"})); if (!stop) c.demo = true; break;
            default: c.args.push_back(w_pick<const char*>({"-d", "-v0"})); if (c.args.back() == "-d" && !stop) c.demo = true; break;
        }
    }
    c.old_files = w_chance(1, 3);
    c.bench_file = w_chance(1, 2);
    bench_kind = w_chance(1, 2) ? 0 : (int)w_draw(7);
    c.faults = (int)w_draw(8);
    c.k = w_draw(12);
    c.download = w_pick<int>({0, 256, -1, 1024, 32512, 512, 2});
    download_status = c.download;
    download_creates = c.download == 0 && w_chance(1, 2);
    for (auto& a : c.args) c.desc += a + " ";
    c.desc += "(faults " + std::to_string(c.faults) + ", " + (c.old_files ? "older files" : "no older files") + (c.bench && bench_kind ? std::string(", benchmark image damaged in way ") + std::to_string(bench_kind) : std::string()) + (c.bench ? c.bench_file ? ", benchmark file there" : ", download status " + std::to_string(c.download) + (download_creates ? " with file" : "") : "") + ")";
    return c;
}
bool runs_demo(const Case& c) { return c.demo && !c.help && !c.bad_option; }
bool runs_bench(const Case& c) { return c.bench && !c.demo && !c.help && !c.bad_option; }
int start(const Case& c) {
    static char buf[12][64];
    static char* argv[13];
    int n = 0;
    for (auto& a : c.args) { snprintf(buf[n], 64, "%s", a.c_str()); argv[n] = buf[n]; n++; }
    argv[n] = nullptr;
    optind = 0;
    return arctic_main(n, argv);
}
bool parse(const std::string& s, std::vector<std::vector<double> >& v) {
    const char* p = s.c_str();
    char* e;
    long R = strtol(p, &e, 10);
    if (e == p) return false;
    p = e;
    long C = strtol(p, &e, 10);
    if (e == p || R < 1 || C < 1 || R > 100000 || C > 100000) return false;
    p = e;
    v.assign(R, std::vector<double>(C));
    for (auto& r : v) for (auto& x : r) { x = strtod(p, &e); if (e == p) return false; p = e; }
    return true;
}
}
extern "C" int system(const char* cmd) {    // the download: nothing leaves the simulation
    RtScope s;
    (void)cmd;
    downloads++;
    if (download_status) count(FT_STATEOP);
    IoCfg saved = io;
    io = IoCfg();                           // the other program's own output
    if (download_creates) put(BENCH, bench_text());
    io = saved;
    return download_status;
}
static void run() {
    Case c;
    {
        RtScope s;
        c = gen();
        set_context(c.desc);
        if (chdir(scratch.c_str())) violation("simulator: no scratch directory");
        if (c.old_files) { put(PRE, OLD); put(POST, OLD); }
        if (c.bench_file) put(BENCH, bench_text());
    }
    switch (c.faults) {
        case 0: break;
        case 1: io.disk_limit = (int64_t)c.k * 40; break;
        case 2: io.fail_from = 1 + c.k; break;
        case 3: io.rate = 4; io.kinds = IO_EIO | IO_ENOSPC | IO_SHORT | IO_EINTR | IO_CLOSE | IO_OPEN; break;
        case 4: io.rate = 2; io.kinds = IO_SHORT | IO_SHORTREAD; break;
        case 5: io.rate = 3; io.kinds = IO_CLOSE | IO_OPEN; break;
        case 6: io.rate = 4; io.kinds = IO_READERR | IO_SHORTREAD | IO_EINTROPEN; break;
        case 7: io.crash_at = 1 + c.k; break;
    }
    if (w_chance(1, 4)) { io.stdout_rate = 3; io.stdout_kinds = IO_EIO | IO_ENOSPC | IO_SHORT; }
    clk.mode = (int)w_draw(5);
    io.on = io.relative = true;
    int rc = start(c);
    fflush(nullptr);
    sh->data[62] = (uint64_t)(rc & 255);
    hash_u64(rc);
    sh->phase = 2;
}
static void judge_hook(int) { RtScope s; violation("a fault-free run fails"); }
static void judge(int end, int code) {
    RtScope s;
    Case c = gen();
    if (end == END_CRASH) return;
    uint64_t hard = sh->stat[FT_IO_EIO] + sh->stat[FT_IO_ENOSPC] + sh->stat[FT_IO_EINTR] + sh->stat[FT_IO_OPEN] + sh->stat[FT_IO_CLOSE] + sh->stat[FT_IO_READ];
    bool success = (end == END_OK && sh->data[62] == 0) || (end == END_EXIT && (code & 255) == 0);
    if (end == END_TERMINATE) success = false;
    std::string pre, post;
    bool a = get(PRE, pre), b = get(POST, post);
    if (c.bad_option && success) violation("an option that is not known or lacks its value ends with exit status 0");
    if (!runs_demo(c)) {
        if (c.old_files ? pre != OLD || post != OLD : a || b) violation("image files were touched without a demonstration");
        if (runs_bench(c)) {
            bool source = c.bench_file || download_creates;
            if (success && !source) violation("the benchmark could not get its image but ends with exit status 0");
            if (success && bench_kind) violation("the benchmark could not read its image but ends with exit status 0");
            if (!success && source && !bench_kind && !hard && !(c.download && !c.bench_file)) violation("the benchmark fails without a cause");
        } else if (!c.bad_option && !success) violation("the program fails without a cause");
        return;
    }
    if (!success) {
        if (!hard) violation("the demonstration fails without a cause");
        return;
    }
    if (!a || !b) violation("exit status 0 but %s does not exist", a ? POST : PRE);
    VImg vpre, vpost;
    if (!parse(pre, vpre)) violation("exit status 0 but %s is incomplete (%zu bytes)", PRE, pre.size());
    if (!parse(post, vpost)) violation("exit status 0 but %s is incomplete (%zu bytes)", POST, post.size());
    // the demonstration's image, traps and detector
    Req r;
    r.img.assign(6, std::vector<double>(4, 0.0));
    r.img[1][0] = r.img[2][1] = r.img[3][2] = 200;
    for (Dir* d : {&r.par, &r.ser}) {
        d->on = true;
        d->empty_first = true;
        d->prune_n = 0; d->prune_f = 0;
        TrapP t;
        t.density = 10; t.tau = -1.0 / log(0.5);
        d->traps.push_back(t);
    }
    std::string e = diff_images(vpre, r.img, 1e-5, 0);
    if (!e.empty()) violation("exit status 0 but %s does not hold the demonstration's image: %s", PRE, e.c_str());
    Req q = r;
    q.img = ref_add(r, r.img);
    e = diff_images(vpost, ref_remove(q, 5), 1e-5, 0);
    if (!e.empty()) violation("exit status 0 but %s does not hold the corrected image: %s", POST, e.c_str());
}
static Register reg({"C17", rule, run, judge, SC_IO | SC_MAY_EXIT | SC_MAY_TERMINATE});
