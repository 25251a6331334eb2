// C01: modelled images never depend on thread count or scheduling.
#include "model.h"
using namespace sim;
static const char* rule() { return "random request (standard, injection or pumping read-out; 1-5 phases; all trap species; express; windows; carry-over between columns; pruning) modelled once by one thread and 1-3 times by teams of 1-24 simulated threads under a seeded schedule; images must agree bit for bit; non-trivial when at least two threads interleaved or a fault fired"; }
static void run() {
    Gen g;
    g.continuum = 6;
    g.prune = 3;
    g.max_cols = 10;
    std::unique_ptr<Call> c;
    Req r;
    uint32_t op;
    { RtScope s; r = gen_request(g); op = w_draw(3); c.reset(new Call(r)); set_context(describe(r)); }
    int n = 1 + (int)w_draw(2);
    auto doit = [&]() -> Image {
        if (op == 1) return c->remove(n);
        if (op == 2 && r.par.on) return c->clock_parallel();
        return c->add();
    };
    sched.quiet = true;
    Image base = doit();
    sched.quiet = false;
    hash_image(base);
    int k = 1 + (int)w_draw(2);
    for (int i = 0; i < k; i++) {
        Image im = doit();
        hash_image(im);
        std::string d;
        { RtScope s; d = diff_bits(im, base); }
        if (!d.empty()) { RtScope s; violation("image depends on threads or schedule: %s", d.c_str()); }
    }
}
static Register reg({"C01", rule, run, nullptr, 0});
