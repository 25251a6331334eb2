// C14: running out of memory never yields a wrong image.
#include "iface.h"
#include "read_noise.hpp"
#include <exception>
#include <math.h>
#include <string.h>
using namespace sim;
static const char* rule() { return "random request carried out by add_cti, remove_cti, one-direction clocking, the plain-array interface of the Python wrapper, or the read-noise model, on simulated threads, while the k-th allocation (k seeded over all of the call's allocations), it and all later ones, or seeded ones fail: the call must throw or terminate, or return the very image it returns without failures; the inputs must be unchanged after an exception, no heap word outside live blocks may be touched, and the same call made again with memory must return the correct image; non-trivial when an allocation failed"; }
static void run() {
    Gen g;
    g.continuum = 12;
    g.prune = 3;
    g.max_rows = 7; g.max_cols = 5;
    g.max_cost = 5e5;
    Req r;
    std::unique_ptr<Call> c;
    std::unique_ptr<IfaceCall> ic;
    uint32_t op, mode, rate;
    int n;
    {
        RtScope s;
        r = gen_request(g);
        op = w_draw(6);
        n = 1 + (int)w_draw(2);
        mode = 1 + w_draw(3);
        rate = w_pick<uint32_t>({3, 10, 40, 200});
        if (op == 2 && !r.par.on) op = 0;
    }
    c.reset(new Call(r));
    if (op == 3) ic.reset(new IfaceCall(r));
    std::vector<double> a, b, o;
    int smooth = 0;
    if (op == 4) {
        smooth = (int)w_draw(2);
        for (auto& v : r.img) for (double x : v) { a.push_back(x); b.push_back(x + (double)w_draw(9) - 4); }
        o.assign(a.size(), -7.0);
    }
    auto call = [&]() -> Image {
        switch (op) {
            case 1: case 5: return c->remove(n);
            case 2: return c->clock_parallel();
            case 3: { ic->add(); RtScope q; return ic->result(); }
            case 4: {
                determine_read_noise_model(a.data(), b.data(), r.rows(), r.cols(), 4.0, 0.2, smooth, o.data());
                RtScope q;
                return Image(std::valarray<double>(o.data(), o.size()), 1);
            }
            default: return c->add();
        }
    };
    sched.quiet = true;
    uint64_t n0 = heap_alloc_no;
    Image base = call();
    uint64_t N = heap_alloc_no - n0;
    if (ic) ic->reset_image();
    std::vector<double> fp, fs, a0, b0, im0;
    uint64_t k;
    {
        RtScope s;
        fp = flat(c->p); fs = flat(c->s);
        a0 = a; b0 = b;
        if (ic) im0 = ic->image;
        k = 1 + w_draw((uint32_t)(N + N / 4 + 2));
        static const char* opn[] = {"add_cti", "remove_cti", "clock_charge_in_one_direction", "interface add_cti", "read noise", "remove_cti"};
        char t[200];
        snprintf(t, sizeof t, "%s; %s (about %llu allocations); ", opn[op], mode == 1 ? ("allocation " + std::to_string(k) + " fails").c_str() : mode == 2 ? ("allocation " + std::to_string(k) + " and all later ones fail").c_str() : ("one in " + std::to_string(rate) + " allocations fails").c_str(), (unsigned long long)N);
        set_context(t + describe(r));
    }
    sched.quiet = w_chance(1, 3);
    bool threw = false;
    Image im;
    uint64_t f0 = heap_failed;
    heap.fail_mode = (int)mode; heap.fail_at = heap_alloc_no + k; heap.rate = rate;
    heap.counting = true;
    sh->phase = 1;
    try { im = call(); } catch (const std::exception&) { threw = true; }
    heap.counting = false;
    heap.fail_mode = 0;
    sh->phase = 2;
    uint64_t failed = heap_failed - f0;
    heap_check();
    {
        RtScope s;
        if (threw && !failed) violation("the call failed although no allocation failed");
        if (!threw) {
            std::string d = diff_bits(im, base);
            if (!d.empty()) violation("a wrong image was returned after %llu allocations failed: %s", (unsigned long long)failed, d.c_str());
        }
        if (!same_bits(fp, flat(c->p)) || !same_bits(fs, flat(c->s))) violation("the caller's read-out, detector or traps changed%s", threw ? " in a call that failed" : "");
        for (int i = 0; i < r.rows(); i++) if (memcmp(&c->in[i][0], r.img[i].data(), 8 * r.cols())) violation("the input image changed%s", threw ? " in a call that failed" : "");
        if (!same_bits(a, a0) || !same_bits(b, b0)) violation("the input image changed");
        if (ic && threw && !same_bits(ic->image, im0)) violation("the image was partly overwritten by a call that failed");
    }
    hash_u64(threw);
    if (ic) ic->reset_image();
    sched.quiet = w_chance(1, 2);
    Image again = call();
    hash_image(again);
    heap_check();
    RtScope s;
    std::string d = diff_bits(again, base);
    if (!d.empty()) violation("the call made again after a failure returns another image: %s", d.c_str());
}
static Register reg({"C14", rule, run, nullptr, SC_MAY_TERMINATE});
