#include "hist.h"
#include <math.h>
#include <stdio.h>
using namespace sim;
Tmm::Tmm(TrapManagerManager* q, int phases) : m(q), n_phases(phases) {
    if (q->n_traps_ic > 0) for (int p = 0; p < phases; p++) idx.push_back({K_IC, p});
    if (q->n_traps_sc > 0) for (int p = 0; p < phases; p++) idx.push_back({K_SC, p});
    if (q->n_traps_ic_co > 0) for (int p = 0; p < phases; p++) idx.push_back({K_ICC, p});
    if (q->n_traps_sc_co > 0) for (int p = 0; p < phases; p++) idx.push_back({K_SCC, p});
}
TrapManagerBase* Tmm::base(size_t i) const {
    int p = idx[i].second;
    switch (idx[i].first) {
        case K_IC: return &m->trap_managers_ic[p];
        case K_SC: return &m->trap_managers_sc[p];
        case K_ICC: return &m->trap_managers_ic_co[p];
        default: return &m->trap_managers_sc_co[p];
    }
}
double Tmm::event1(size_t i, double n) {
    int p = idx[i].second;
    switch (idx[i].first) {
        case K_IC: return m->trap_managers_ic[p].n_electrons_released_and_captured(n);
        case K_SC: return m->trap_managers_sc[p].n_electrons_released_and_captured(n);
        case K_ICC: return m->trap_managers_ic_co[p].n_electrons_released_and_captured(n);
        default: return m->trap_managers_sc_co[p].n_electrons_released_and_captured(n);
    }
}
double Tmm::event(int phase, double n) {
    double d = 0;
    for (size_t i = phase; i < idx.size(); i += n_phases) d += event1(i, n + d);
    return d;
}
MgrState Tmm::state(size_t i) const {
    MgrState s;
    TrapManagerBase* b = base(i);
    s.dens.assign(std::begin(b->trap_densities), std::end(b->trap_densities));
    int T = b->n_traps, a = b->i_first_active_wmk, k = b->n_active_watermarks;
    if (k < 0 || a < 0 || (size_t)(a + k) > b->watermark_volumes.size())
        violation("trap levels outside their storage: levels %d to %d of %zu", a, a + k, b->watermark_volumes.size());
    for (int w = a; w < a + k; w++) {
        s.vol.push_back(b->watermark_volumes[w]);
        std::vector<double> f(T);
        for (int t = 0; t < T; t++) f[t] = b->watermark_fills[w * T + t];
        s.fill.push_back(f);
    }
    return s;
}
std::vector<double> MgrState::flat() const {
    std::vector<double> v(vol);
    for (auto& f : fill) v.insert(v.end(), f.begin(), f.end());
    return v;
}
TrapManagerManager* new_tmm(Objs& o, int mt) { return new TrapManagerManager(o.ic, o.sc, o.icc, o.scc, mt, o.ccd, o.dwell); }
double held(const RefMgr& r, const MgrState& s) {
    double tot = 0, c = 0;
    for (size_t i = 0; i < s.vol.size(); i++) {
        for (size_t t = 0; t < r.tr.size(); t++) tot += s.fill[i][t] * r.exposed((int)t, c, c + s.vol[i]);
        c += s.vol[i];
    }
    return tot;
}
double dens_scale(const Dir& d) {
    double s = 1e-3;
    for (auto& t : d.traps) s += t.density;
    return s;
}
Dir gen_hist_dir(const Gen& g) {
    Dir d;
    d.on = true;
    int n = g.multiphase && w_chance(1, 4) ? 2 + w_draw(2) : 1;
    gen_phases(g, d, n);
    d.dwell.clear();
    double dw = w_pick<double>({1.0, 1.0, 0.5, 2.0, 0.01});
    for (int i = 0; i < n; i++) d.dwell.push_back(dw / n * (w_chance(1, 4) ? w_pick<double>({0.5, 2.0, 1.5}) : 1.0));
    gen_traps(g, d);
    return d;
}
std::vector<Op> gen_ops(const Dir& d, const OpMix& m, bool negative) {
    int n = m.lo + w_draw(m.hi - m.lo + 1);
    auto cl = gen_cloud_sequence(d, n);
    std::vector<Op> v;
    bool neg = negative && w_chance(1, 5);
    int busy = 1 + w_draw(3);                      // how often something other than a cloud happens
    for (int i = 0; i < n; i++) {
        Op o{OP_EVENT, (int)w_draw(d.phases()), cl[i]};
        if (neg && w_chance(1, 6)) o.x = -(double)w_draw(50);
        int tot = m.store + m.restore + m.reset + m.prune + m.copy;
        if (tot && w_chance(busy, 8)) {
            int k = w_draw(tot);
            if ((k -= m.store) < 0) o.kind = OP_STORE;
            else if ((k -= m.restore) < 0) o.kind = OP_RESTORE;
            else if ((k -= m.reset) < 0) o.kind = OP_RESET;
            else if ((k -= m.prune) < 0) { o.kind = OP_PRUNE; o.x = m.thr[w_draw((uint32_t)m.thr.size())]; }
            else o.kind = OP_COPY;
            count(FT_STATEOP);
        }
        v.push_back(o);
    }
    return v;
}
std::string describe_ops(const std::vector<Op>& v, size_t upto) {
    std::string s;
    char b[60];
    for (size_t i = 0; i < v.size() && i <= upto; i++) {
        static const char* nm[] = {"", "store", "restore", "reset", "prune", "copy"};
        if (v[i].kind == OP_EVENT) snprintf(b, sizeof b, "%s%d:%.17g", i ? " " : "", v[i].phase, v[i].x);
        else if (v[i].kind == OP_PRUNE) snprintf(b, sizeof b, " prune(%g)", v[i].x);
        else snprintf(b, sizeof b, " %s", nm[v[i].kind]);
        s += b;
        if (s.size() > 1500) { s += " ..."; break; }
    }
    return s;
}
void check_bounds(const RefMgr& r, const MgrState& s, const char* when) {
    double c = 0;
    for (size_t i = 0; i < s.vol.size(); i++) {
        double v = s.vol[i];
        if (!(v >= -1e-9) || !(v <= 1 + 1e-9)) violation("impossible level volume: %.17g at level %zu of %zu, %s", v, i, s.vol.size(), when);
        c += v;
        if (v < 1e-12) continue;               // a level without volume holds nothing, whatever its fill says
        for (size_t t = 0; t < r.tr.size(); t++) {
            double f = s.fill[i][t], d = r.dens[t];
            if (!(f >= -1e-9 * d - 1e-12) || !(f <= d * (1 + 1e-8) + 1e-12))
                violation("impossible trap filling: %.17g electrons per volume, density %.17g, level %zu of %zu, volume %g, %s", f, d, i, s.vol.size(), v, when);
        }
    }
    if (!(c <= 1 + 1e-9)) violation("levels larger than the pixel: total volume %.17g, %s", c, when);
}
