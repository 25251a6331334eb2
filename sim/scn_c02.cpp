// C02: no unsynchronised shared state: races, and concurrent modelling calls of one application.
#include "model.h"
#include <string.h>
#include "read_noise.hpp"
using namespace sim;
static const char* rule() { return "1-4 simulated application threads, each with its own image, detector, read-out and traps, call add_cti, remove_cti, single-direction clocking or the read-noise model at the same time, each spawning its own simulated worker threads; every memory access is checked for data races by vector clocks and every result is compared bit for bit with the same call made alone; non-trivial when at least two threads interleaved"; }
namespace {
struct Job {
    std::unique_ptr<Call> c;
    uint32_t op = 0;
    int n = 1, rows = 0, cols = 0, smooth = 0;
    double amp = 1, frac = 0;
    std::vector<double> a, b, out, base;
    Image im, im0;
};
}
static void do_job(Job& j, bool first) {
    if (j.op == 3) {
        double* o = j.out.data();
        determine_read_noise_model(j.a.data(), j.b.data(), j.rows, j.cols, j.amp, j.frac, j.smooth, o);
        return;
    }
    Image r = j.op == 1 ? j.c->remove(j.n) : j.op == 2 && j.c->r.par.on ? j.c->clock_parallel() : j.c->add();
    if (first) j.im0 = r; else j.im = r;
}
static void run() {
    Gen g;
    g.continuum = 8;
    g.prune = 3;
    g.max_rows = 8; g.max_cols = 6;
    g.max_cost = 6e6;
    int k = 1 + (int)w_draw(4);
    std::vector<std::unique_ptr<Job> > jobs;
    {
        RtScope s;
        std::string ctx;
        for (int i = 0; i < k; i++) {
            jobs.emplace_back(new Job);
            Job& j = *jobs.back();
            j.op = w_draw(4);
            j.n = 1 + (int)w_draw(2);
            if (j.op == 3) {
                j.rows = w_int(2, 9); j.cols = w_int(2, 9); j.smooth = (int)w_draw(2);
                j.amp = w_pick<double>({4.0, 0.5, 20}); j.frac = w_pick<double>({0.2, 0.0, 1.0});
                for (int p = 0; p < j.rows * j.cols; p++) { j.a.push_back(w_draw(2000) * 0.25); j.b.push_back(j.a.back() + w_draw(40) - 20.0); }
                j.out.assign(j.a.size(), 0.0);
                ctx += " [read noise " + std::to_string(j.rows) + "x" + std::to_string(j.cols) + "]";
            } else {
                j.c.reset(new Call(gen_request(g)));
                static const char* nm[] = {"add", "remove", "clock"};
                ctx += std::string(" [") + nm[j.op] + " " + describe(j.c->r) + "]";
            }
        }
        set_context(std::to_string(k) + " application thread(s):" + ctx);
    }
    sched.quiet = true;
    for (auto& j : jobs) do_job(*j, true);
    for (auto& j : jobs) if (j->op == 3) { RtScope s; j->base = j->out; std::fill(j->out.begin(), j->out.end(), -7.0); }
    sched.quiet = false;
    std::vector<std::function<void()> > fns;
    { RtScope s; for (auto& j : jobs) { Job* p = j.get(); fns.push_back([p] { do_job(*p, false); }); } }
    if (k == 1) fns[0](); else run_clients(fns);
    RtScope s;
    for (int i = 0; i < k; i++) {
        Job& j = *jobs[i];
        if (j.op == 3) {
            for (size_t p = 0; p < j.out.size(); p++)
                if (memcmp(&j.out[p], &j.base[p], 8)) violation("application thread %d got a different read-noise model than alone: pixel %zu is %.17g, alone %.17g", i, p, j.out[p], j.base[p]);
            hash_bytes(j.out.data(), j.out.size() * 8);
        } else {
            std::string d = diff_bits(j.im, j.im0);
            if (!d.empty()) violation("application thread %d got a different image than alone: %s", i, d.c_str());
            hash_image(j.im);
        }
    }
}
static Register reg({"C02", rule, run, nullptr, 0});
