// C11: calls leave no trace.
#include "model.h"
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <errno.h>
#include "read_noise.hpp"
using namespace sim;
static const char* rule() { return "random history of 2-7 modelling calls (add, remove, single-direction clocking, read noise) that reuse, copy, copy-assign or rebuild the same few detectors, read-outs and trap lists at a random verbosity with images of different sizes, express settings and windows, on simulated threads; every answer must equal bit for bit the answer of the same call made with new objects as the only call of a new process, and every image, detector, read-out and trap description must be unchanged afterwards; non-trivial when calls of different shapes alternated, threads interleaved or memory was filled with garbage"; }
namespace {
typedef std::vector<double> Flat;
bool same(const Flat& a, const Flat& b) { return same_bits(a, b); }
ROE* clone_roe(ROE* r) {
    switch (r->type) {
        case roe_type_standard: return new ROE(*r);
        case roe_type_charge_injection: return new ROEChargeInjection(*(ROEChargeInjection*)r);
        default: return new ROETrapPumping(*(ROETrapPumping*)r);
    }
}
// o becomes a copy of s
void copy_objs(Objs& o, Objs& s, bool assign) {
    if (!s.on) return;
    if (assign && o.on && o.roe && o.roe->type == s.roe->type) {
        if (s.roe->type == roe_type_standard) *o.roe = *s.roe;
        else if (s.roe->type == roe_type_charge_injection) *(ROEChargeInjection*)o.roe.get() = *(ROEChargeInjection*)s.roe.get();
        else *(ROETrapPumping*)o.roe.get() = *(ROETrapPumping*)s.roe.get();
    } else o.roe.reset(clone_roe(s.roe.get()));
    o.on = true;
    o.ccd = s.ccd;
    o.ic = s.ic; o.sc = s.sc; o.icc = s.icc; o.scc = s.scc;
}
void spoil(Objs& o) {                 // what an application may do with its own objects
    if (!o.on) return;
    for (auto& x : o.roe->dwell_times) x = 123;
    o.roe->prescan_offset = 9;
    for (auto& p : o.ccd.phases) p.full_well_depth = 7;
    for (auto& x : o.ccd.fraction_of_traps_per_phase) x = 5;
    for (auto& t : o.ic) t.density = 77;
    for (auto& t : o.sc) t.capture_rate = 0.001;
    for (auto& t : o.icc) t.release_timescale = 0.5;
    for (auto& t : o.scc) t.release_timescale = 0.5;
}
struct Shape { Req r; };
struct Plan1 { int s; uint32_t op; int how; int n; };
Image perform(Call& c, const Plan1& p) {
    if (p.op == 1) return c.remove(p.n);
    if (p.op == 2 && c.r.par.on) return c.clock_parallel();
    return c.add();
}
struct Box { volatile int done; int rows, cols; double v[4096]; };
Box* box;
// the same call as the only one of a process, with objects made for it
bool alone(const Req& r, const Plan1& p, std::vector<double>& out) {
    box->done = 0;
    pid_t pid = fork();
    if (pid == 0) {
        Shared* s = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        memcpy((void*)s, (void*)sh, sizeof(Shared));
        sh = s;
        sched.quiet = true;
        std::unique_ptr<Call> c;
        { RtScope q; c.reset(new Call(r)); }
        Image im = perform(*c, p);
        box->rows = (int)im.size();
        box->cols = im.size() ? (int)im[0].size() : 0;
        int k = 0;
        for (auto& v : im) for (double x : v) box->v[k++] = x;
        box->done = 1;
        _exit(0);
    }
    int st;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (!box->done) return false;
    out.assign(box->v, box->v + box->rows * box->cols);
    return true;
}
}
static void run() {
    Gen g;
    g.continuum = 6;
    g.prune = 3;
    g.max_rows = 8; g.max_cols = 6;
    g.max_cost = 1e6;
    box = (Box*)mmap(nullptr, sizeof(Box), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::vector<Req> reqs;          // what is asked
    std::vector<int> base;          // whose detectors it uses
    std::vector<std::unique_ptr<Call> > sets;
    std::vector<Plan1> hist;
    {
        RtScope s;
        int nset = 1 + (int)w_draw(3);
        std::string ctx;
        for (int i = 0; i < nset; i++) {
            Req r = gen_request(g);
            reqs.push_back(r); base.push_back(i);
            sets.emplace_back(new Call(r));
            ctx += " {" + std::to_string(reqs.size() - 1) + ": " + describe(r) + "}";
            int extra = (int)w_draw(3);
            for (int e = 0; e < extra; e++) {          // same detectors, another image
                Req q = r;
                int R = w_int(1, 9), C = w_int(1, 7);
                q.img.assign(R, std::vector<double>(C, 0.0));
                for (auto& v : q.img) for (auto& x : v) x = w_chance(1, 3) ? 0.0 : w_draw(900);
                if (w_chance(1, 5)) for (auto& v : q.img) for (auto& x : v) x = 0;
                for (int k = 0; k < 2; k++) {
                    Dir& d = k ? q.ser : q.par;
                    int n = k ? C : R;
                    d.w0 = 0; d.w1 = -1;
                    if (!d.on) continue;
                    if (d.roe_type == 2) { d.w0 = (int)w_draw(n); d.w1 = d.w0 + 1; }
                    else if (w_chance(1, 3)) { d.w0 = (int)w_draw(n); d.w1 = d.w0 + 1 + (int)w_draw(n - d.w0); }
                    d.express = w_pick<int>({0, 1, 2, 3});
                }
                reqs.push_back(q); base.push_back(i);
                ctx += " {" + std::to_string(reqs.size() - 1) + ": detectors of " + std::to_string(i) + ", " + describe(q) + "}";
            }
        }
        int len = 2 + (int)w_draw(6);
        static const char* opn[] = {"add", "remove", "clock", "readnoise"};
        static const char* hown[] = {"reused objects", "new objects", "copied objects", "objects assigned over others", "copied objects, originals spoilt"};
        ctx += " history:";
        for (int i = 0; i < len; i++) {
            Plan1 p;
            p.s = (int)w_draw((uint32_t)reqs.size());
            p.op = w_draw(4);
            p.n = 1 + (int)w_draw(2);
            p.how = (int)w_pick<int>({0, 0, 0, 1, 2, 3, 4});
            hist.push_back(p);
            ctx += std::string(" ") + opn[p.op] + "(" + std::to_string(p.s) + ", " + hown[p.how] + ")";
        }
        set_context(ctx);
    }
    int verb = w_draw(4) ? 0 : 1 + (int)w_draw(2);
    set_verbosity(verb);
    std::vector<std::vector<double> > want(hist.size());
    std::vector<Flat> f0, g0;
    for (auto& c : sets) { RtScope s; f0.push_back(flat(c->p)); g0.push_back(flat(c->s)); }
    for (size_t i = 0; i < hist.size(); i++)
        if (hist[i].op != 3 && !alone(reqs[hist[i].s], hist[i], want[i])) { RtScope s; violation("call %zu alone in a new process with new objects does not finish", i); }
    std::unique_ptr<Call> other;      // objects that live on between calls
    for (size_t i = 0; i < hist.size(); i++) {
        Plan1& p = hist[i];
        count(FT_STATEOP);
        if (p.op == 3) {              // unrelated call in between
            std::vector<double> a, b, o;
            { RtScope s; for (int k = 0; k < 36; k++) { a.push_back(10.0 * k); b.push_back(10.0 * k + (k % 5) - 2); } o.assign(36, 0.0); }
            determine_read_noise_model(a.data(), b.data(), 6, 6, 4.0, 0.2, (int)(i & 1), o.data());
            continue;
        }
        Req& r = reqs[p.s];
        Call& own = *sets[base[p.s]];
        std::unique_ptr<Call> mine;
        Call* c = &own;
        Flat fp, fs;
        {
            RtScope s;
            if (p.how == 1) { mine.reset(new Call(r)); c = mine.get(); }
            if (p.how == 2 || p.how == 4) {
                mine.reset(new Call(own.r));
                copy_objs(mine->p, own.p, false);
                copy_objs(mine->s, own.s, false);
                c = mine.get();
            }
            if (p.how == 3) {
                if (!other) other.reset(new Call(sets[w_draw((uint32_t)sets.size())]->r));
                if (other->p.on != own.p.on || other->s.on != own.s.on) other.reset(new Call(own.r));
                copy_objs(other->p, own.p, true);
                copy_objs(other->s, own.s, true);
                c = other.get();
            }
            c->r = r;
            c->in = to_image(r.img);
            if (p.how == 4) { spoil(own.p); spoil(own.s); }
            fp = flat(c->p); fs = flat(c->s);
        }
        Image im = perform(*c, p);
        hash_image(im);
        RtScope s;
        if (verbosity != verb) violation("the call changed the verbosity from %d to %d (call %zu)", verb, verbosity, i);
        if ((int)im.size() != r.rows() || (int)im[0].size() != r.cols()) violation("call %zu returned an image of another shape", i);
        std::vector<double> got;
        for (auto& v : im) for (double x : v) got.push_back(x);
        for (size_t k = 0; k < got.size(); k++)
            if (memcmp(&got[k], &want[i][k], 8)) violation("answer depends on earlier calls or on which objects were reused (call %zu): pixel [%zu][%zu] is %.17g, in a new process %.17g", i, k / r.cols(), k % r.cols(), got[k], want[i][k]);
        for (int a = 0; a < r.rows(); a++)
            if (memcmp(&c->in[a][0], r.img[a].data(), 8 * r.cols())) violation("the call changed the caller's image (call %zu, row %d)", i, a);
        if (!same(fp, flat(c->p)) || !same(fs, flat(c->s))) violation("the call changed the caller's read-out, detector or traps (call %zu)", i);
        if (p.how == 4) {             // the originals again as they were
            Call back(own.r);
            copy_objs(own.p, back.p, false);
            copy_objs(own.s, back.s, false);
        }
        for (size_t k = 0; k < sets.size(); k++)
            if (!same(f0[k], flat(sets[k]->p)) || !same(g0[k], flat(sets[k]->s))) violation("the call changed another caller's read-out, detector or traps (call %zu, set %zu)", i, k);
    }
}
static Register reg({"C11", rule, run, nullptr, 0});
