// C05 saved, restored, emptied and copied trap states; C07 pruning.
#include "hist.h"
#include <math.h>
#include <string.h>
using namespace sim;

static const char* r05() { return "random history of clouds, saves, restores, emptyings, copies, assignments and (rarely) prunings on up to four copies of the real trap managers, interleaved at random; the changes of the cloud since the trap contents were last as new must be reproduced bit for bit by a newly created manager that sees only the effective history (what was seen before the last restored save, then what followed); non-trivial: state operations happened or fresh memory was filled with garbage"; }
namespace {
struct Ev { bool prune; int phase; double x, r; };
struct Twin { std::unique_ptr<TrapManagerManager> q; std::vector<Ev> cur, saved; };
}
static void c05() {
    Gen g;
    g.continuum = 12;
    OpMix m;
    m.store = 3; m.restore = 3; m.reset = 1; m.copy = 2; m.prune = w_chance(1, 3) ? 1 : 0;
    m.thr = {1e-10, 1e-3, 0.5};
    m.lo = 5; m.hi = 50;
    Dir d;
    std::vector<Op> ops;
    Objs o;
    int mt = 1;
    {
        RtScope s;
        d = gen_hist_dir(g);
        ops = gen_ops(d, m, false);
        o.build(d);
        std::vector<int> per(d.phases(), 0);
        for (auto& q : ops) if (q.kind == OP_EVENT) per[q.phase]++;
        for (int k : per) mt = std::max(mt, k);
        set_context("traps " + describe(d) + " max_n_transfers=" + std::to_string(mt) + " history " + describe_ops(ops, 1000));
    }
    std::vector<std::unique_ptr<Twin> > tw;
    auto add_twin = [&](TrapManagerManager* q) { RtScope s; tw.emplace_back(new Twin); tw.back()->q.reset(q); return tw.back().get(); };
    add_twin(new_tmm(o, mt));
    auto mk = [&](TrapManagerManager* q) { RtScope s; return Tmm(q, d.phases()); };
    for (auto& op : ops) {
        Twin& t = *tw[w_draw((uint32_t)tw.size())];
        switch (op.kind) {
            case OP_STORE: t.q->store_trap_states(); { RtScope s; t.saved = t.cur; } break;
            case OP_RESTORE: t.q->restore_trap_states(); { RtScope s; t.cur = t.saved; } break;
            case OP_RESET: t.q->reset_trap_states(); { RtScope s; t.cur.clear(); } break;
            case OP_PRUNE: t.q->prune_watermarks(op.x); { RtScope s; t.cur.push_back({true, 0, op.x, 0}); } break;
            case OP_COPY: {
                if (tw.size() < 4 && w_chance(1, 2)) {                    // a new copy
                    TrapManagerManager* q = new TrapManagerManager(*t.q);
                    Twin* n = add_twin(q);
                    RtScope s;
                    n->cur = t.cur; n->saved = t.saved;
                } else {                                                 // assigned over another one
                    Twin& u = *tw[w_draw((uint32_t)tw.size())];
                    *u.q = *t.q;
                    RtScope s;
                    if (&u != &t) { u.cur = t.cur; u.saved = t.saved; }
                }
                break;
            }
            default: {
                Tmm v = mk(t.q.get());
                double r = v.event(op.phase, op.x);
                hash_bytes(&r, 8);
                count(ST_EVENTS);
                RtScope s;
                t.cur.push_back({false, op.phase, op.x, r});
            }
        }
    }
    // while the others are destroyed, each must still be what its history says
    while (!tw.empty()) {
        Twin& t = *tw.back();
        std::unique_ptr<TrapManagerManager> f(new_tmm(o, mt));
        Tmm a = mk(t.q.get()), b = mk(f.get());
        size_t k = 0;
        for (auto& e : t.cur) {
            if (e.prune) { f->prune_watermarks(e.x); k++; continue; }
            double r = b.event(e.phase, e.x);
            if (memcmp(&r, &e.r, 8)) { RtScope s; violation("a history with saves, restores, emptyings and copies differs from the plain history: change %zu of copy %zu is %.17g, plain %.17g", k, tw.size() - 1, e.r, r); }
            k++;
        }
        // and what they hold now must respond alike
        for (int p = 0; p < d.phases(); p++) for (double x : {0.0, d.ph[0].fw * 0.37}) {
            if (t.cur.size() + 2 >= (size_t)mt) break;        // storage is sized for the history
            double ra = a.event(p, x), rb = b.event(p, x);
            if (memcmp(&ra, &rb, 8)) { RtScope s; violation("trap contents after saves, restores, emptyings and copies differ from the plain history: change %.17g, plain %.17g (copy %zu)", ra, rb, tw.size() - 1); }
        }
        {
            RtScope s;
            for (size_t i = 0; i < a.n(); i++) {
                MgrState x = a.state(i), y = b.state(i);
                RefTraps ref(d, mt);
                double hx = held(ref.m[i], x), hy = held(ref.m[i], y);
                if (memcmp(&hx, &hy, 8)) violation("electrons held after saves, restores, emptyings and copies differ from the plain history: %.17g, plain %.17g (copy %zu)", hx, hy, tw.size() - 1);
            }
        }
        a = Tmm(); b = Tmm();
        f.reset();
        t.q.reset();
        RtScope s;
        tw.pop_back();
    }
}
static Register g5({"C05", r05, c05, nullptr, 0});

static const char* r07() { return "3 in 4: random history of clouds with prunings injected at arbitrary points with thresholds of both signs on the real trap managers; the total held may not change at a pruning, a manager rebuilt from nothing but the active levels must respond identically afterwards (no stale contents), and for positive thresholds every later change stays within a small multiple of the threshold of a never-pruned twin. 1 in 4: whole images with and without pruning on simulated threads. Non-trivial: prunings happened or threads interleaved"; }
static void c07_image() {
    Gen g;
    g.prune = 2;
    g.surface = false;
    g.continuum = 0;
    g.negative = false;
    g.efill = false;
    g.max_cols = 4;
    g.max_rows = 16;
    g.clampneg = false;
    Req r;
    std::unique_ptr<Call> a, b;
    double thr;
    {
        RtScope s;
        r = gen_request(g);
        thr = w_pick<double>({1e-10, 1e-8, 1e-6, 1e-4});
        int f = w_pick<int>({1, 2, 3, 7});
        for (Dir* d : {&r.par, &r.ser}) d->prune_n = thr, d->prune_f = f;
        a.reset(new Call(r));
        Req q = r;
        for (Dir* d : {&q.par, &q.ser}) d->prune_f = 0;
        b.reset(new Call(q));
        set_context(describe(r));
    }
    Image x = a->add(), y = b->add();
    hash_image(x);
    RtScope s;
    double n = r.rows() + r.cols() + 30.0;
    double mult = 0;
    for (Dir* d : {&r.par, &r.ser}) if (d->on) { int R = d == &r.par ? r.rows() : r.cols(); mult += ref_transfers(*d, R, R - 1) * d->dwell.size(); }
    std::string e = diff_images(from_image(x), from_image(y), 200 * thr * n * (1 + mult) + 1e-9 * scale_of(r), 0);
    if (!e.empty()) violation("pruning changed the image noticeably: %s", e.c_str());
}
static void c07() {
    if (w_draw(4) == 3) { c07_image(); return; }
    Gen g;
    g.continuum = 8;
    g.surface = false;
    g.efill = false;
    Dir d;
    std::vector<Op> ops;
    Objs o;
    int mt = 1;
    OpMix m;
    m.prune = 6;
    m.lo = 4; m.hi = 50;
    bool pos = w_chance(2, 3);
    if (pos) { double t = w_pick<double>({1e-10, 1e-6, 1e-3, 1e-14}); m.thr = {t, t, t * 0.1}; } else m.thr = {-1e-10, 1e-10, -1e-5, 1e-18, -1e-3};
    {
        RtScope s;
        d = gen_hist_dir(g);
        ops = gen_ops(d, m, false);
        o.build(d);
        std::vector<int> per(d.phases(), 0);
        for (auto& q : ops) if (q.kind == OP_EVENT) per[q.phase]++;
        for (int k : per) mt = std::max(mt, k);
        set_context("traps " + describe(d) + " max_n_transfers=" + std::to_string(mt) + " history " + describe_ops(ops, 1000));
    }
    std::unique_ptr<TrapManagerManager> pruned(new_tmm(o, mt)), never(new_tmm(o, mt)), rebuilt(new_tmm(o, mt));
    Tmm P, N, B;
    RefTraps ref;
    { RtScope s; P = Tmm(pruned.get(), d.phases()); N = Tmm(never.get(), d.phases()); B = Tmm(rebuilt.get(), d.phases()); ref = RefTraps(d, mt); }
    double ds = dens_scale(d), moved = 0;
    bool cont = false;
    for (auto& x : d.traps) cont |= x.kind >= 2;
    bool have_rebuilt = false;
    for (size_t k = 0; k < ops.size(); k++) {
        Op& op = ops[k];
        if (op.kind == OP_STORE) { pruned->store_trap_states(); never->store_trap_states(); continue; }
        if (op.kind == OP_RESTORE) { pruned->restore_trap_states(); never->restore_trap_states(); have_rebuilt = false; continue; }
        if (op.kind == OP_RESET) { pruned->reset_trap_states(); never->reset_trap_states(); have_rebuilt = false; continue; }
        if (op.kind == OP_PRUNE) {
            std::vector<double> h0;
            std::vector<size_t> n0;
            { RtScope s; for (size_t i = 0; i < P.n(); i++) { MgrState st = P.state(i); h0.push_back(held(ref.m[i], st)); n0.push_back(st.vol.size()); } }
            pruned->prune_watermarks(op.x);
            RtScope s;
            moved += fabs(op.x) * mt * d.phases();
            for (size_t i = 0; i < P.n(); i++) {
                MgrState st = P.state(i);
                double h1 = held(ref.m[i], st);
                if (!(fabs(h1 - h0[i]) <= 1e-9 * ds)) violation("pruning changed the trapped charge: from %.17g to %.17g at step %zu (threshold %g, kind %d)", h0[i], h1, k, op.x, ref.m[i].kind);
                if (st.vol.size() > n0[i]) violation("pruning made levels: %zu became %zu", n0[i], st.vol.size());
                check_bounds(ref.m[i], st, "after pruning");
                // rebuild from the active levels alone
                TrapManagerBase* b = B.base(i);
                b->reset_trap_states();
                int T = b->n_traps;
                for (size_t w = 0; w < st.vol.size(); w++) {
                    b->watermark_volumes[w] = st.vol[w];
                    for (int t = 0; t < T; t++) b->watermark_fills[w * T + t] = st.fill[w][t];
                }
                b->n_active_watermarks = (int)st.vol.size();
            }
            have_rebuilt = true;
            continue;
        }
        double rp = P.event(op.phase, op.x), rn = N.event(op.phase, op.x);
        hash_bytes(&rp, 8);
        count(ST_EVENTS);
        if (have_rebuilt) {
            double rb = B.event(op.phase, op.x);
            RtScope s;
            if (!(fabs(rb - rp) <= 1e-9 * (ds + fabs(op.x)))) violation("stale trap contents after pruning: step %zu (cloud %.17g) changes the cloud by %.17g, but by %.17g with the same active levels in clean storage", k, op.x, rp, rb);
        }
        if (pos) {
            RtScope s;
            double tol = 200 * moved + (cont ? 2e-3 * ds : 1e-9 * (ds + fabs(op.x)));
            if (!(fabs(rp - rn) <= tol)) violation("pruning changed later releases noticeably: step %zu (cloud %.17g) changes it by %.17g, never pruned %.17g (tolerance %.3g)", k, op.x, rp, rn, tol);
        }
    }
}
static Register g7({"C07", r07, c07, nullptr, 0});
