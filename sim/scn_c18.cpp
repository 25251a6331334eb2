// C18: repeated use accumulates neither memory nor open files.
#include "iface.h"
#include "read_noise.hpp"
#include <exception>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace sim;
static const char* rule() { return "a random sequence of 1-3 calls (add, remove, one direction, plain-array interface, read noise, saving and loading files, writing to a full or failing disk, and requests that end with an exception) is repeated: with the objects and results of a repetition released, the simulated heap must hold exactly as many blocks and bytes, and the process as many open files, after the later repetitions as after the first ones; on simulated threads; non-trivial when threads interleaved, a fault fired or a call ended with an exception"; }
namespace {
enum { ADD, REMOVE, CLOCK, IFACE, NOISE, SAVE, LOAD, BAD, BADIFACE, PRINT, OPS };
struct Step { int op, n, how; Req r; };
}
static void spoil(Req& q, int how) {     // a request that is refused with an exception
    Dir& d = q.ser.on && (how & 4 || !q.par.on) ? q.ser : q.par;
    if (d.roe_type == 2) d.roe_type = 0, d.dwell.resize(d.ph.size()), d.w0 = 0, d.w1 = -1;
    if (how & 1) d.prescan = -1 - how; else d.overscan = how & 2 ? 0 : -1 - how;
    if (d.overscan == -1) d.overscan = 0;
}
static void run() {
    Gen g;
    g.continuum = 10;
    g.max_rows = 6; g.max_cols = 5;
    g.max_cost = 3e5;
    std::vector<Step> steps;
    std::string path;
    {
        RtScope s;
        path = scratch + "/image.txt";
        static const char* opn[] = {"add", "remove", "clock", "interface", "readnoise", "save", "load", "refused request", "refused request through the interface", "print"};
        std::string ctx = "repeated:";
        int n = 1 + (int)w_draw(3);
        for (int i = 0; i < n; i++) {
            Step t;
            t.op = (int)w_draw(OPS);
            t.n = 1 + (int)w_draw(2);
            t.how = (int)w_draw(10);
            t.r = gen_request(g);
            if ((t.op == SAVE || t.op == LOAD) && w_chance(1, 5)) {        // no rows, or rows without pixels
                if (w_chance(1, 2)) t.r.img.clear(); else for (auto& v : t.r.img) v.clear();
            }
            if (t.op == CLOCK && !t.r.par.on) t.op = ADD;
            if (t.op == BAD || t.op == BADIFACE) { spoil(t.r, t.how); count(FT_STATEOP); }
            steps.push_back(t);
            ctx += std::string(" ") + opn[t.op] + " {" + describe(t.r) + "}";
        }
        set_context(ctx);
    }
    io.on = true;
    io.rate = 4;
    io.kinds = IO_SHORT | IO_SHORTREAD;
    auto once = [&]() {
        for (auto& t : steps) {
            try {
                switch (t.op) {
                    case IFACE: case BADIFACE: { IfaceCall c(t.r); c.add(); break; }
                    case NOISE: {
                        std::vector<double> a(30, 5.0), b(30, 4.0), o(30);
                        determine_read_noise_model(a.data(), b.data(), 5, 6, 4.0, 0.2, t.n & 1, o.data());
                        break;
                    }
                    case SAVE: case LOAD: {
                        Image im = to_image(t.r.img);
                        save_image_to_txt(path.c_str(), im);
                        if (t.op == LOAD) Image b = load_image_from_txt(path.c_str());
                        break;
                    }
                    case PRINT: { Image im = to_image(t.r.img); print_array_2D(im); break; }
                    default: {
                        Call c(t.r);
                        if (t.op == REMOVE) c.remove(t.n); else if (t.op == CLOCK) c.clock_parallel(); else c.add();
                    }
                }
            } catch (const std::exception&) { count(FT_STATEOP); }
        }
    };
    once(); once();                        // one-time set-up of the libraries
    uint64_t no = heap_alloc_no, b = heap_live_blocks, y = heap_live_bytes;
    int fds;
    { RtScope s; fds = open_fd_count(); }
    int reps = 3;
    for (int i = 0; i < reps; i++) once();
    RtScope s;
    heap_check();
    hash_u64(heap_alloc_no - no);
    if (open_fd_count() != fds) violation("%d open files became %d after %d more repetitions", fds, open_fd_count(), reps);
    if (heap_live_blocks != b || heap_live_bytes != y) {
        std::string w = heap_describe_live(no, 6);
        violation("after %d more repetitions the heap holds %lld more blocks and %lld more bytes, among them%s", reps, (long long)(heap_live_blocks - b), (long long)(heap_live_bytes - y), w.c_str());
    }
}
static Register reg({"C18", rule, run, nullptr, SC_IO});
