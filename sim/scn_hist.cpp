// C03 conservation, C04 physical bounds, C06 response: histories on the real trap managers.
#include "hist.h"
#include <math.h>
using namespace sim;
static void events(int what, const Gen& g, const OpMix& mix) {
    Dir d;
    std::vector<Op> ops;
    Objs o;
    int mt;
    {
        RtScope s;
        d = gen_hist_dir(g);
        bool efill = d.ph[0].first > 0;
        ops = gen_ops(d, mix, g.negative && !efill);
        o.build(d);
        std::vector<int> per(d.phases(), 0);
        for (auto& q : ops) if (q.kind == OP_EVENT) per[q.phase]++;
        int most = 1;
        for (int k : per) most = std::max(most, k);
        mt = (most + d.phases() - 1) / d.phases();       // just enough for this history
        set_context("traps " + describe(d) + " max_n_transfers=" + std::to_string(mt) + " history " + describe_ops(ops, 1000));
    }
    std::unique_ptr<TrapManagerManager> q(new_tmm(o, mt));
    Tmm t;
    RefTraps ref;
    { RtScope s; t = Tmm(q.get(), d.phases()); ref = RefTraps(d, mt); ref.save(); }
    double ds = dens_scale(d);
    bool cont = false;
    for (auto& x : d.traps) cont |= x.kind >= 2;
    for (size_t k = 0; k < ops.size(); k++) {
        Op& op = ops[k];
        switch (op.kind) {
            case OP_STORE: q->store_trap_states(); ref.save(); continue;
            case OP_RESTORE: q->restore_trap_states(); ref.restore(); continue;
            case OP_RESET: q->reset_trap_states(); ref.reset(); continue;
            case OP_PRUNE: {
                std::vector<double> h0;
                bool surface = false;
                { RtScope s; for (auto& x : d.traps) surface |= x.vfull > 0 || x.vnone > 0; for (size_t i = 0; i < t.n(); i++) h0.push_back(held(ref.m[i], t.state(i))); }
                q->prune_watermarks(op.x);
                RtScope s;
                // (pruning spreads charge over other depths, where there may be fewer surface traps)
                if ((what & HC_CONSERVE) && !surface) for (size_t i = 0; i < t.n(); i++) {
                    double h1 = held(ref.m[i], t.state(i));
                    if (!(fabs(h1 - h0[i]) <= 1e-9 * ds)) violation("electrons not conserved: traps changed from %.17g to %.17g when pruned with threshold %g at step %zu (kind %d)", h0[i], h1, op.x, k, ref.m[i].kind);
                }
                continue;
            }
        }
        count(ST_EVENTS);
        double n = op.x;
        for (size_t i = op.phase; i < t.n(); i += d.phases()) {
            MgrState before;
            double h0;
            { RtScope s; before = t.state(i); h0 = held(ref.m[i], before); }
            double r = t.event1(i, n);
            RtScope s;
            char w[80];
            snprintf(w, sizeof w, "kind %d phase %d after step %zu (cloud %.17g, change %.17g)", ref.m[i].kind, op.phase, k, n, r);
            if (!std::isfinite(r)) violation("charge is not a number: %s", w);
            MgrState after = t.state(i);
            if (what & HC_BOUNDS) {
                check_bounds(ref.m[i], after, w);
                if (n >= 0 && n + r < -1e-9 * (ds + n)) violation("a cloud lost more electrons than it has: %s", w);
            }
            if (what & HC_CONSERVE) {
                double h1 = held(ref.m[i], after);
                if (!(fabs(h1 - h0 + r) <= 1e-9 * (ds + fabs(n))))
                    violation("electrons not conserved: traps changed from %.17g to %.17g, %s", h0, h1, w);
            }
            if (what & HC_REF) {
                double e = ref.m[i].event(n);
                double tol = (cont ? 2e-3 : 1e-8) * (ds + (cont ? 0 : fabs(n)));
                if (!(fabs(e - r) <= tol)) violation("trap response differs from the physical model: expected change %.17g, %s", e, w);
                double h1 = held(ref.m[i], after), hr = ref.m[i].trapped();
                if (!(fabs(h1 - hr) <= tol * (cont ? 5 : 1))) violation("trapped charge differs from the physical model: holds %.17g, expected %.17g, %s", h1, hr, w);
            }
            n += r;
            hash_bytes(&r, sizeof r);
        }
    }
}
static double total(const VImg& a) { double s = 0; for (auto& r : a) for (double x : r) s += x; return s; }

static const char* r03() { return "3 in 4: random history of 3-60 clouds with trap states saved, restored, emptied and pruned between them on the real trap managers of a random mix of species and phases; after every event the electrons gained by the cloud must equal those lost by the traps. 1 in 4: whole image read out pixel by pixel with empty traps by simulated threads; total and per-column charge may not grow, and losses may not exceed the traps. Non-trivial: state operations or threads interleaved, or fresh memory was filled with garbage"; }
static void c03() {
    Gen g;
    if (w_draw(4) < 3) {
        OpMix m;
        m.prune = 1;
        m.thr = {1e-10, 1e-3, 1e-18, -1e-10, 0.5, -0.1};
        g.continuum = 20;
        events(HC_CONSERVE, g, m);
        return;
    }
    g.serial = true; g.pumping = false; g.injection = false; g.windows = true; g.negative = true; g.clampneg = false; g.express = false;
    g.continuum = 5;
    Req r;
    std::unique_ptr<Call> c;
    {
        RtScope s;
        r = gen_request(g);
        for (Dir* d : {&r.par, &r.ser}) { d->express = 0; d->empty_first = true; d->empty_between = true; }
        r.allow_neg = 1;
        c.reset(new Call(r));
        set_context(describe(r));
    }
    Image out = c->add();
    hash_image(out);
    RtScope s;
    VImg a = r.img, b = from_image(out);
    if (!all_finite(b)) violation("image is not finite");
    double sc = scale_of(r), eps = 1e-9 * sc * r.rows() * r.cols();
    double in = total(a), ou = total(b);
    if (ou > in + eps) violation("the image gained electrons: %.17g in, %.17g out", in, ou);
    // what is missing fits in the traps the charge passed (single phase: nothing leaves over the edge)
    double cap = 0;
    bool single = true;
    for (Dir* d : {&r.par, &r.ser}) {
        if (!d->on) continue;
        if (d->dwell.size() > 1) single = false;
        int R = d == &r.par ? r.rows() : r.cols(), C = d == &r.par ? r.cols() : r.rows();
        double dn = 0;
        for (auto& t : d->traps) dn += t.density;
        cap += dn * (R + d->offset + d->prescan) * C;
    }
    if (single && in - ou > cap + eps) violation("more charge lost than the traps can hold: %.17g lost, capacity %.17g", in - ou, cap);
}
static Register g3({"C03", r03, c03, nullptr, 0});

static const char* r04() { return "1 in 2: random history of clouds (including negative ones and ones above full well) with saving, restoring, emptying and pruning on the real trap managers with storage for exactly that many transfers; after every event levels and fillings must be physical and no byte outside the storage is touched (red zones, freed memory and uninitialised storage are checked on every access). 1 in 2: whole images in every read-out mode with simulated threads. Non-trivial: state operations or threads interleaved, or fresh memory was filled with garbage"; }
static void c04() {
    Gen g;
    g.continuum = 10;
    if (w_draw(2) == 0) {
        OpMix m;
        m.prune = 1;
        m.thr = {1e-10, 1e-3, 1e-18, -1e-10, 0.5, -0.1};
        events(HC_BOUNDS, g, m);
        return;
    }
    g.continuum = 5;
    g.prune = 3;
    Req r;
    std::unique_ptr<Call> c;
    { RtScope s; r = gen_request(g); c.reset(new Call(r)); set_context(describe(r)); }
    Image out = w_draw(3) == 2 ? c->remove(2) : c->add();
    hash_image(out);
    heap_check();
    RtScope s;
    VImg b = from_image(out);
    if (!all_finite(b)) violation("image is not finite");
    if (!r.allow_neg) {
        // clamping: a pixel that traps touched is not below zero
        for (int i = 0; i < r.rows(); i++) for (int j = 0; j < r.cols(); j++)
            if (b[i][j] < 0 && b[i][j] != r.img[i][j]) violation("negative pixel (row %d, column %d): %.17g although negative pixels are not allowed", i, j, b[i][j]);
    }
}
static Register g4({"C04", r04, c04, nullptr, 0});

static const char* r06() { return "random history of 3-60 clouds with trap states saved, restored and emptied between them on the real trap managers (1-3 species of random kinds, 1-3 phases, random wells); every change of the cloud and the electrons held are compared with an independent segment-by-segment simulation of the pixel volume; continuum tables are compared with direct integration. Non-trivial: state operations happened or fresh memory was filled with garbage"; }
static void c06() {
    Gen g;
    g.continuum = 12;
    OpMix m;
    events(HC_REF, g, m);
    if (w_draw(16) == 15) {
        RtScope s;
        Gen h; h.continuum = 100; h.surface = false;
        Dir d = gen_hist_dir(h);
        set_context("traps " + describe(d));
        std::string e = check_tables(d, 2 + w_draw(20));
        if (!e.empty()) violation("%s", e.c_str());
    }
}
static Register g6({"C06", r06, c06, nullptr, 0});
