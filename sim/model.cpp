#include "model.h"
#include <math.h>
#include <stdio.h>
#include <string.h>
#include <algorithm>
#include <limits>
using namespace sim;

// ================================================================ generator
void gen_phases(const Gen& g, Dir& d, int n) {
    d.ph.resize(n);
    PhaseP p;
    p.fw = w_pick<double>({1000, 100, 84700, 200000, 5000});
    p.power = w_pick<double>({1.0, 0.58, 0.478, 0.3, 0.8});
    p.notch = w_pick<double>({0, 0, 1e-7, 5, 50});
    if (p.notch >= p.fw) p.notch = 0;
    p.first = g.efill && w_chance(1, 8) ? w_pick<double>({0.001, 0.02, 0.1}) : 0.0;
    for (auto& q : d.ph) q = p;
    d.frac.assign(n, 1.0 / n);
    if (n > 1) {
        if (w_chance(1, 3)) {       // unequal phases
            double s = 0;
            for (int i = 0; i < n; i++) { d.frac[i] = 1 + w_draw(4); s += d.frac[i]; }
            for (auto& f : d.frac) f /= s;
        }
        if (w_chance(1, 3)) for (auto& q : d.ph) { q.fw = p.fw * w_pick<double>({1, 0.5, 2}); if (q.notch >= q.fw) q.notch = 0; }
    }
}
void gen_traps(const Gen& g, Dir& d) {
    bool cont = w_draw(100) >= (uint32_t)(100 - g.continuum);
    int n = 1 + w_draw(3);
    double fw = d.ph[0].fw;
    int mode = g.scarce ? w_draw(4) : 0;     // how dense the traps are compared with the clouds
    int set = w_draw(6);                     // which kinds may appear
    for (int i = 0; i < n; i++) {
        TrapP t;
        switch (set) {
            case 0: t.kind = K_IC; break;
            case 1: t.kind = K_SC; break;
            case 2: t.kind = w_draw(2); break;
            default: t.kind = cont ? (int)w_draw(4) : (int)w_draw(2); break;
        }
        if (cont && i == 0 && t.kind < 2) t.kind += 2;
        double base = mode == 0 ? fw * 0.01 : mode == 1 ? fw * 0.3 : mode == 2 ? fw * 2 : fw * 0.0005;
        t.density = base * w_pick<double>({1.0, 0.37, 2.3, 0.05});
        if (w_chance(1, 40)) t.density = 0;
        if (t.kind >= 2 && t.density == 0) t.density = base;
        t.tau = w_pick<double>({1.0, 0.3, 0.74, 4.2, 7.7, 20, 0.05, 37});
        if (t.kind == K_SC || t.kind == K_SCC) t.tauc = w_pick<double>({0.1, 1e-4, 0.5, 1.5, 5});
        if (t.kind >= 2) {
            if (t.tau < 0.3) t.tau = 0.3;
            if (t.tau > 7.7) t.tau = 7.7;
            t.sigma = w_pick<double>({0.1, 0.05, 0.3, 0.8});
        }
        if (t.kind == K_IC && g.surface && w_chance(1, 12)) {
            t.vfull = w_pick<double>({0.5, 0.2, 1.0});
            t.vnone = t.vfull * w_pick<double>({0.0, 0.5, 0.9});
        }
        d.traps.push_back(t);
    }
}
Dir gen_dir(const Gen& g, int rows, int cols, bool parallel) {
    Dir d;
    d.on = true;
    int steps = 1;
    if (g.multiphase && w_chance(1, 4)) steps = w_pick<int>({3, 2, 4, 5});
    int type = 0;
    uint32_t k = w_draw(12);
    if (g.injection && k == 10) type = 1;
    if (g.pumping && k == 11 && parallel) type = 2;
    d.roe_type = type;
    if (type == 2) steps = 2 * (steps > 1 ? steps : 1 + w_draw(3));
    int np = type == 2 ? steps / 2 : steps;
    gen_phases(g, d, np);
    d.dwell.clear();
    double dw = w_pick<double>({1.0, 1.0, 0.5, 2.0, 0.01});
    for (int i = 0; i < steps; i++) d.dwell.push_back(dw / steps * (w_chance(1, 4) ? w_pick<double>({0.5, 2.0, 1.5}) : 1.0));
    gen_traps(g, d);
    d.empty_between = !(g.carry && w_chance(1, 3));
    d.force = !w_chance(1, 4);
    d.integer = g.integer && w_chance(1, 5);
    d.empty_first = g.first && w_chance(1, 3);
    if (type == 1) d.empty_first = false;
    if (type == 2) { d.n_pumps = 1 + w_draw(12); d.force = false; d.empty_between = true; }
    if (g.scans && type != 2) {
        if (w_chance(1, 4)) d.prescan = w_pick<int>({1, 3, 7});
        if (w_chance(1, 5)) d.offset = w_pick<int>({1, 2, 5, 11});
        if (w_chance(1, 5)) d.overscan = 1 + (w_chance(1, 3) ? (int)w_draw(d.offset + 1) : d.offset + (int)w_draw(rows + 2));
    }
    int nt = type == 2 ? d.n_pumps : rows + d.offset + d.prescan;
    if (g.express) switch (w_draw(5)) {
        case 0: case 1: d.express = 0; break;
        case 2: d.express = 1; break;
        case 3: d.express = 1 + w_draw(nt + 1); break;
        case 4: d.express = w_pick<int>({2, 3, 5}); break;
    }
    if (type == 2) {
        d.w0 = rows > 2 ? 1 + w_draw(rows - 2) : w_draw(rows);
        d.w1 = d.w0 + 1;
    } else if (g.windows && w_chance(1, 5)) {
        d.w0 = w_draw(rows);
        d.w1 = d.w0 + 1 + w_draw(rows - d.w0);
    }
    if (g.prune == 0) d.prune_f = 0;
    else if (g.prune == 1) {
        d.prune_f = w_pick<int>({20, 0, 1, 2, 5});
        d.prune_n = w_pick<double>({1e-10, 1e-10, 1e-18, 0.0});
    } else if (g.prune == 3) {               // also thresholds that change the image
        d.prune_f = w_pick<int>({20, 0, 1, 2, 5});
        d.prune_n = w_pick<double>({1e-10, 1e-18, 0.0, 0.3, 5.0, -0.01});
    } else {
        d.prune_f = w_pick<int>({1, 2, 3, 7});
        d.prune_n = w_pick<double>({1e-10, 1e-6, 1e-3, 1e-18, -1e-10, -1e-5});
    }
    return d;
}
static double gen_pixel(int style, double fw, bool neg) {
    switch (style) {
        case 0: return w_chance(1, 4) ? w_pick<double>({200, 800, 1000, 90, 5000}) : 0.0;
        case 1: return w_draw(1000);
        case 2: return 100 + w_draw(3);
        case 3: return w_draw(64) * 0.03125;
        case 4: return w_draw(200) * fw / 100.0;
        case 5: return (double)w_draw(120) - (neg ? 20 : 0);
        default: return w_chance(1, 3) ? fw * w_pick<double>({1.0, 0.5, 0.1, 1e-4}) : 0.0;
    }
}
Req gen_request(const Gen& g) {
    Req r;
    int rows = w_int(g.min_rows, g.max_rows), cols = w_int(g.min_cols, g.max_cols);
    bool big = g.big && w_chance(g.big, 100);
    if (big) {                                       // long columns or many of them
        int n = w_pick<int>({33, 40, 65, 100, 130}) + (int)w_draw(4) - 1;
        if (w_chance(1, 2)) { rows = n; cols = std::min(cols, 4); } else { cols = n; rows = std::min(rows, 4); }
    }
    uint32_t which = g.serial ? w_draw(4) : 0;       // 0,1 parallel  2 serial  3 both
    if (which != 2) r.par = gen_dir(g, rows, cols, true);
    if (which >= 2) r.ser = gen_dir(g, cols, rows, false);
    // a window of one direction restricts the columns of the other
    if (which >= 2 && r.par.on && r.par.roe_type == 2) { r.ser.on = false; }
    double fw = r.par.on ? r.par.ph[0].fw : r.ser.ph[0].fw;
    bool efill = (r.par.on && r.par.ph[0].first > 0) || (r.ser.on && r.ser.ph[0].first > 0);
    int style = w_draw(7);
    r.img.assign(rows, std::vector<double>(cols, 0.0));
    for (int i = 0; i < rows; i++)
        for (int j = 0; j < cols; j++) r.img[i][j] = gen_pixel(style, fw, g.negative && !efill);
    if (style == 6 && w_chance(1, 2))               // columns that decrease: builds many levels
        for (int j = 0; j < cols; j++) for (int i = 0; i < rows; i++) r.img[i][j] = fw * (rows - i) / (rows + 1.0);
    r.allow_neg = g.clampneg && w_chance(1, 4) ? 0 : 1;
    if (g.windows && r.par.on != r.ser.on && r.par.roe_type != 2 && w_chance(1, 6)) {    // a window across the clocked direction
        Dir& o = r.par.on ? r.ser : r.par;
        int n = r.par.on ? cols : rows;
        o.w0 = w_draw(n);
        o.w1 = o.w0 + 1 + w_draw(n - o.w0);
    }
    // keep the work of one read-out bounded: long unbroken histories get fewer passes
    for (int k = 0; k < 2; k++) {
        Dir& d = k ? r.ser : r.par;
        if (!d.on) continue;
        int R = k ? cols : rows, C = k ? rows : cols;
        for (int guard = 0; guard < 2; guard++) {
            int nt = R + d.offset + d.prescan, P = d.express == 0 ? nt : d.express;
            if (d.roe_type == 2) nt = P = d.express == 0 ? d.n_pumps : d.express;
            double ev = (double)P * R * d.dwell.size() * d.phases();
            double lv = d.empty_between ? nt * d.dwell.size() : std::min(ev * C, (double)nt * d.dwell.size() * C);
            double cost = ev * C * std::min(lv, ev * C) * d.traps.size();
            if (cost < (big ? std::min(1e6, g.max_cost) : g.max_cost) && !(big && efill)) break;
            if (big && (efill || (guard && cost > 1e6))) {        // too much work: a small image instead
                Gen h = g;
                h.big = 0;
                return gen_request(h);
            }
            d.express = 1;
            if (big) d.empty_between = true;
        }
    }
    if (efill) {            // experimental first-electron model: keep every cloud non-negative
        if (r.par.on) r.par.express = 0, r.par.roe_type = r.par.roe_type == 1 ? 0 : r.par.roe_type;
        if (r.ser.on) r.ser.express = 0, r.ser.roe_type = r.ser.roe_type == 1 ? 0 : r.ser.roe_type;
    }
    return r;
}
std::vector<double> gen_cloud_sequence(const Dir& d, int n) {
    std::vector<double> v;
    double fw = d.ph[0].fw, dens = 0;
    for (auto& t : d.traps) dens += t.density;
    int style = w_draw(6);
    double last = 0;
    for (int i = 0; i < n; i++) {
        double x;
        switch (style) {
            case 0: x = fw * w_draw(101) / 100.0; break;
            case 1: x = w_chance(1, 3) ? fw * w_draw(1001) / 1000.0 : 0.0; break;
            case 2: x = last > 0 ? last * 0.7 : fw * 0.9; if (x < 1e-3 * fw) x = 0; break;
            case 3: x = (i % 2) ? fw * 0.01 * w_draw(5) : fw * (0.1 + 0.2 * w_draw(5)); break;
            case 4: x = w_chance(1, 2) ? dens * w_draw(100) / 200.0 : fw * 1e-4 * w_draw(50); break;
            default: x = w_chance(1, 4) ? last : (w_chance(1, 4) ? fw * 1.5 : w_log(1e-3, fw)); break;
        }
        v.push_back(x);
        last = x;
    }
    return v;
}
static std::string num(double x) { char b[40]; snprintf(b, sizeof b, "%.6g", x); return b; }
std::string describe(const Dir& d) {
    if (!d.on) return "off";
    std::string s = d.roe_type == 0 ? "standard" : d.roe_type == 1 ? "charge injection" : "trap pumping";
    s += " dwell={";
    for (auto x : d.dwell) s += num(x) + " ";
    s += "}";
    if (d.roe_type == 2) s += " n_pumps=" + num(d.n_pumps);
    if (d.prescan) s += " prescan=" + num(d.prescan);
    if (d.overscan >= 0) s += " overscan_start=" + num(d.overscan);
    if (d.offset) s += " offset=" + num(d.offset);
    s += " express=" + num(d.express);
    if (!d.empty_between) s += " keep-traps-between-columns";
    if (d.empty_first) s += " empty-traps-for-first";
    if (!d.force) s += " no-force-release";
    if (d.integer) s += " integer-express";
    if (d.w0 || d.w1 != -1) s += " window=[" + num(d.w0) + "," + num(d.w1) + ")";
    s += " prune=" + num(d.prune_n) + "/" + num(d.prune_f);
    for (size_t i = 0; i < d.ph.size(); i++)
        s += " phase(fw=" + num(d.ph[i].fw) + " notch=" + num(d.ph[i].notch) + " power=" + num(d.ph[i].power) + (d.ph[i].first ? " first=" + num(d.ph[i].first) : "") +
             " frac=" + num(d.frac[i]) + ")";
    static const char* kn[] = {"IC", "SC", "ICcont", "SCcont"};
    for (auto& t : d.traps) {
        s += std::string(" ") + kn[t.kind] + "(density=" + num(t.density) + " tau=" + num(t.tau);
        if (t.tauc) s += " tau_c=" + num(t.tauc);
        if (t.sigma) s += " sigma=" + num(t.sigma);
        if (t.vfull) s += " surface " + num(t.vnone) + ".." + num(t.vfull);
        s += ")";
    }
    return s;
}
std::string describe(const Req& r) {
    std::string s = "image " + num(r.rows()) + "x" + num(r.cols()) + (r.allow_neg ? "" : " no-negative") + " {";
    for (int i = 0; i < r.rows() && i < 6; i++) {
        s += "[";
        for (int j = 0; j < r.cols() && j < 6; j++) s += (j ? " " : "") + num(r.img[i][j]);
        s += "]";
    }
    s += "} parallel: " + describe(r.par) + "; serial: " + describe(r.ser);
    for (const Dir* d : {&r.par, &r.ser}) if (!d->on && (d->w0 || d->w1 != -1)) s += std::string(d == &r.par ? "; row" : "; column") + " window [" + num(d->w0) + "," + num(d->w1) + ")";
    return s;
}

// ================================================================ library objects
void Objs::build(const Dir& d) {
    on = d.on;
    if (!on) return;
    dwell = std::valarray<double>(d.dwell.data(), d.dwell.size());
    if (d.roe_type == 0)
        roe.reset(new ROE(dwell, d.prescan, d.overscan, d.empty_between, d.empty_first, d.force, d.integer));
    else if (d.roe_type == 1)
        roe.reset(new ROEChargeInjection(dwell, d.prescan, d.overscan, d.empty_between, d.force, d.integer));
    else
        roe.reset(new ROETrapPumping(dwell, d.n_pumps, d.empty_first, d.integer));
    phases = std::valarray<CCDPhase>(d.ph.size());
    for (size_t i = 0; i < d.ph.size(); i++) phases[i] = CCDPhase(d.ph[i].fw, d.ph[i].notch, d.ph[i].power, d.ph[i].first);
    frac = std::valarray<double>(d.frac.data(), d.frac.size());
    ccd = CCD(phases, frac);
    std::vector<TrapP> k[4];
    for (auto& t : d.traps) k[t.kind].push_back(t);
    ic = make_traps<TrapInstantCapture>(k[0], [](const TrapP& t) { return TrapInstantCapture(t.density, t.tau, t.vnone, t.vfull); });
    sc = make_traps<TrapSlowCapture>(k[1], [](const TrapP& t) { return TrapSlowCapture(t.density, t.tau, t.tauc); });
    icc = make_traps<TrapInstantCaptureContinuum>(k[2], [](const TrapP& t) { return TrapInstantCaptureContinuum(t.density, t.tau, t.sigma); });
    scc = make_traps<TrapSlowCaptureContinuum>(k[3], [](const TrapP& t) { return TrapSlowCaptureContinuum(t.density, t.tau, t.sigma, t.tauc); });
}
std::vector<double> flat(Objs& o) {
    std::vector<double> f;
    if (!o.on) return f;
    ROE& r = *o.roe;
    for (double x : r.dwell_times) f.push_back(x);
    f.push_back(r.prescan_offset); f.push_back(r.overscan_start); f.push_back(r.empty_traps_between_columns); f.push_back(r.empty_traps_for_first_transfers);
    f.push_back(r.force_release_away_from_readout); f.push_back(r.use_integer_express_matrix); f.push_back(r.type); f.push_back(r.n_steps); f.push_back(r.n_phases); f.push_back(r.n_pumps);
    f.push_back(o.ccd.n_phases);
    for (auto& p : o.ccd.phases) { f.push_back(p.full_well_depth); f.push_back(p.well_notch_depth); f.push_back(p.well_fill_power); f.push_back(p.first_electron_fill); }
    for (double x : o.ccd.fraction_of_traps_per_phase) f.push_back(x);
    auto base = [&](TrapInstantCapture& t) { f.push_back(t.density); f.push_back(t.release_timescale); f.push_back(t.release_rate); f.push_back(t.fractional_volume_none_exposed); f.push_back(t.fractional_volume_full_exposed); };
    for (auto& t : o.ic) base(t);
    for (auto& t : o.sc) { base(t); f.push_back(t.capture_timescale); f.push_back(t.capture_rate); }
    for (auto& t : o.icc) { base(t); f.push_back(t.release_timescale_sigma); }
    for (auto& t : o.scc) { base(t); f.push_back(t.release_timescale_sigma); f.push_back(t.capture_timescale); f.push_back(t.capture_rate); }
    return f;
}
bool same_bits(const std::vector<double>& a, const std::vector<double>& b) { return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), 8 * a.size())); }
Image to_image(const std::vector<std::vector<double> >& v) {
    Image im(std::valarray<double>(0.0, v.empty() ? 0 : v[0].size()), v.size());
    for (size_t i = 0; i < v.size(); i++) for (size_t j = 0; j < v[i].size(); j++) im[i][j] = v[i][j];
    return im;
}
Call::Call(const Req& q) : r(q) {
    p.build(r.par);
    s.build(r.ser);
    in = to_image(r.img);
}
Image Call::add() {
    const Dir &a = r.par, &b = r.ser;
    return add_cti(in, p.roe.get(), p.on ? &p.ccd : nullptr, p.pic(), p.psc(), p.picc(), p.pscc(), a.express, a.offset, a.w0, a.w1, 0, -1,
                   a.prune_n, a.prune_f, s.roe.get(), s.on ? &s.ccd : nullptr, s.pic(), s.psc(), s.picc(), s.pscc(), b.express, b.offset,
                   b.w0, b.w1, 0, -1, b.prune_n, b.prune_f, r.allow_neg, r.verb, 0);
}
Image Call::remove(int n) {
    const Dir &a = r.par, &b = r.ser;
    return remove_cti(in, n, p.roe.get(), p.on ? &p.ccd : nullptr, p.pic(), p.psc(), p.picc(), p.pscc(), a.express, a.offset, a.w0, a.w1, 0,
                      -1, a.prune_n, a.prune_f, s.roe.get(), s.on ? &s.ccd : nullptr, s.pic(), s.psc(), s.picc(), s.pscc(), b.express,
                      b.offset, b.w0, b.w1, 0, -1, b.prune_n, b.prune_f, r.allow_neg);
}
Image Call::clock_parallel() {
    const Dir& a = r.par;
    return clock_charge_in_one_direction(in, p.roe.get(), &p.ccd, p.pic(), p.psc(), p.picc(), p.pscc(), a.express, a.offset, a.w0, a.w1,
                                         r.ser.w0, r.ser.w1, 0, -1, a.prune_n, a.prune_f, r.allow_neg, 0);
}

// ================================================================ reference: traps
double ref_volume(const PhaseP& p, double n) {
    if (n <= 0) return p.first;
    double x = (n - p.notch) / (p.fw - p.notch);
    if (x < 0) x = 0;
    if (x > 1) x = 1;
    return p.first + (1 - p.first) * pow(x, p.power);
}
// Is the result of the reference determined by the request, or does the rounding of the arithmetic decide it
// (a cloud of 0 or of 1e-20 electrons differs by a first electron's volume)?
static int ref_noise_mode = 0;
static double ref_noise_eps = 0;
static uint64_t ref_noise_k = 0;
static double ref_noise_step() {
    if (ref_noise_mode == 1) return ref_noise_eps;
    if (ref_noise_mode == 2) return -ref_noise_eps;
    return ref_noise_eps * ((int)(Rng::mix(ref_noise_k++ + 77u * ref_noise_mode) % 3) - 1);
}
double RefMgr::volume(double n) const { return ref_volume(ph, n); }
double RefMgr::exposed(int t, double lo, double hi) const {
    if (tr[t].vfull == 0 || kind != K_IC) return hi - lo;
    double a = tr[t].vnone, b = tr[t].vfull;
    auto G = [&](double v) {
        if (v <= a) return 0.0;
        if (v >= b) return 0.5 * (b - a) + (v - b);
        return 0.5 * (v - a) * (v - a) / (b - a);
    };
    return G(hi) - G(lo);
}
size_t RefMgr::split(double v) {
    double c = 0;
    size_t i = 0;
    for (; i < seg.size(); i++) {
        double nx = c + seg[i].vol;
        if (nx > v) {
            if (v > c) {
                RefSeg lo = seg[i];
                lo.vol = v - c;
                seg[i].vol = nx - v;
                seg.insert(seg.begin() + i, lo);
                return i + 1;
            }
            return i;
        }
        c = nx;
    }
    if (v > c) { RefSeg s; s.vol = v - c; s.fill.assign(tr.size(), 0.0); seg.push_back(s); }
    return seg.size();
}
double RefMgr::release_fill(int t, double fill) const {
    if (kind == K_IC || kind == K_SC) return fill * exp(-dwell / tr[t].tau);
    if (dens[t] == 0) return 0;
    if (kind == K_ICC) {
        double te = icc[t]->time_elapsed_from_fill_fraction_table(fill / dens[t]);
        return dens[t] * icc[t]->fill_fraction_from_time_elapsed_table(te + dwell);
    }
    double te = scc[t]->time_elapsed_from_fill_fraction_table(fill / dens[t]);
    return dens[t] * scc[t]->fill_fraction_from_time_elapsed_table(te + dwell);
}
double RefMgr::slow_fill(int t, double fill) const {
    if (kind == K_SC) {
        double c = 1 / tr[t].tauc, r = 1 / tr[t].tau, k = c + r, e = (1 - exp(-k * dwell)) / k;
        return fill * (1 - r * e) + (dens[t] - fill) * c * e;
    }
    double te = scc[t]->time_elapsed_from_fill_fraction_table(fill / dens[t]);
    return dens[t] * scc[t]->fill_fraction_after_slow_capture_table(te);
}
double RefMgr::event(double n) {
    size_t T = tr.size();
    if (kind == K_IC || kind == K_ICC) {
        double rel = 0, c = 0;
        for (auto& s : seg) {
            for (size_t t = 0; t < T; t++) {
                double f = release_fill((int)t, s.fill[t]);
                rel += (s.fill[t] - f) * exposed((int)t, c, c + s.vol);
                s.fill[t] = f;
            }
            c += s.vol;
        }
        double m = n + rel, V = volume(m);
        if (V == 0) return rel;
        size_t top = split(V);
        double cap = 0;
        c = 0;
        for (size_t i = 0; i < top; i++) {
            for (size_t t = 0; t < T; t++) cap += (dens[t] - seg[i].fill[t]) * exposed((int)t, c, c + seg[i].vol);
            c += seg[i].vol;
        }
        double enough = cap == 0 ? 1 : kind == K_IC ? fabs(m / cap) : m / cap;
        bool full = enough >= 1;
        for (size_t i = 0; i < top; i++)
            for (size_t t = 0; t < T; t++) seg[i].fill[t] = full ? dens[t] : seg[i].fill[t] * (1 - enough) + enough * dens[t];
        if (full) {        // keep the reference small: everything below is uniform
            double v = 0;
            for (size_t i = 0; i < top; i++) v += seg[i].vol;
            RefSeg one; one.vol = v; one.fill = dens;
            seg.erase(seg.begin(), seg.begin() + top);
            seg.insert(seg.begin(), one);
        } else
            cap *= enough;
        return rel - cap;
    }
    double V1 = volume(n);
    size_t top = split(V1);
    double rel = 0;
    for (size_t i = top; i < seg.size(); i++)
        for (size_t t = 0; t < T; t++) {
            double f = release_fill((int)t, seg[i].fill[t]);
            rel += (seg[i].fill[t] - f) * seg[i].vol;
            seg[i].fill[t] = f;
        }
    double m = n + rel, V2 = volume(m);
    if (V2 == 0) return rel;
    top = split(V2);
    double chg = 0;
    std::vector<std::vector<double> > nf(top, std::vector<double>(T));
    for (size_t i = 0; i < top; i++)
        for (size_t t = 0; t < T; t++) {
            nf[i][t] = slow_fill((int)t, seg[i].fill[t]);
            chg += (seg[i].fill[t] - nf[i][t]) * seg[i].vol;
        }
    if (ref_noise_mode) {
        double all = 0;
        for (double x : dens) all += x;
        chg += 1e-4 * (ref_noise_mode & 1 ? 1 : -1) * ref_noise_step() + 1e-15 * V2 * all * (ref_noise_mode & 2 ? 1 : -1);
    }
    double enough = chg < 0 ? m / -chg : 1;
    for (size_t i = 0; i < top; i++)
        for (size_t t = 0; t < T; t++) seg[i].fill[t] = enough < 1 ? enough * nf[i][t] + (1 - enough) * seg[i].fill[t] : nf[i][t];
    if (enough < 1) chg *= enough;
    return rel + chg;
}
double RefMgr::trapped() const {
    double s = 0, c = 0;
    for (auto& g : seg) {
        for (size_t t = 0; t < tr.size(); t++) s += g.fill[t] * exposed((int)t, c, c + g.vol);
        c += g.vol;
    }
    return s;
}
RefTraps::RefTraps(const Dir& d, int max_n_transfers) {
    n_phases = d.phases();
    int mt = max_n_transfers * (int)d.dwell.size();
    for (int k = 0; k < 4; k++) {
        std::vector<TrapP> ts;
        for (auto& t : d.traps) if (t.kind == k) ts.push_back(t);
        if (ts.empty()) continue;
        for (int p = 0; p < n_phases; p++) {
            RefMgr r;
            r.kind = k; r.ph = d.ph[p]; r.dwell = d.dwell[p]; r.tr = ts;
            for (auto& t : ts) {
                double dn = t.density;
                if (t.vfull > 0) dn /= 1 - 0.5 * (t.vnone + t.vfull);
                r.dens.push_back(dn * d.frac[p]);
                if (k == K_ICC) {
                    auto q = std::make_shared<TrapInstantCaptureContinuum>(t.density, t.tau, t.sigma);
                    q->prep_fill_fraction_and_time_elapsed_tables(r.dwell, std::max(mt, 2) * r.dwell, 1000);
                    r.icc.push_back(q);
                }
                if (k == K_SCC) {
                    auto q = std::make_shared<TrapSlowCaptureContinuum>(t.density, t.tau, t.sigma, t.tauc);
                    q->prep_fill_fraction_and_time_elapsed_tables(r.dwell / 30, mt * r.dwell, 1000);
                    q->prep_fill_fraction_after_slow_capture_tables(r.dwell, r.dwell / 30, mt * r.dwell, 1000);
                    r.scc.push_back(q);
                }
            }
            m.push_back(r);
        }
    }
}
double RefTraps::event(int phase, double n) {
    double d = 0;
    for (size_t i = phase; i < m.size(); i += n_phases) d += m[i].event(n + d);
    return d;
}

// ================================================================ reference: read-out
std::vector<std::vector<RefStep> > ref_clock_sequence(const Dir& d) {
    int n = d.phases(), S = (int)d.dwell.size();
    std::vector<std::vector<RefStep> > out(S, std::vector<RefStep>(n));
    for (int s = 0; s < S; s++) {
        int h = s <= n ? s : 2 * n - s;          // 0..n-1 for standard clocking; 0..n..1 for pumping
        for (int p = 0; p < n; p++) {
            RefStep& r = out[s][p];
            r.step = s; r.phase = p;
            // cloud q sits n*q-(h-p) phases away from this phase
            int best = 1 << 30;
            std::vector<int> near;
            for (int q = -2; q <= 2; q++) {
                int dist = abs(h - p - n * q);
                if (dist == 0) r.cap.push_back(q);
                if (dist < best) { best = dist; near.clear(); }
                if (dist == best) near.push_back(q);
            }
            for (int q : near) r.rel.push_back(std::make_pair(q, 1.0 / near.size()));
            if (d.force && d.roe_type != 2 && p > h % n) {
                for (auto& c : r.cap) c++;
                for (auto& x : r.rel) x.first++;
            }
        }
    }
    return out;
}
static double clip(double x, double lo, double hi) { return x < lo ? lo : x > hi ? hi : x; }
static std::vector<std::vector<double> > std_express(int n_rows, int express, int offset, bool first, bool integer) {
    int nt = n_rows + offset;
    int ex = express == 0 ? nt : std::min(express, nt);
    std::vector<std::vector<double> > M;
    bool separate = first && ex < n_rows;       // the first transfers are kept apart from the others
    int nb = separate ? nt - 1 : nt;
    double mm = nb ? (double)nb / ex : 0;
    if (integer) mm = ceil(mm);
    std::vector<std::vector<double> > B(ex, std::vector<double>(nb));
    for (int k = 0; k < ex; k++) for (int j = 0; j < nb; j++) B[k][j] = clip(j + 1 - k * mm, 0, mm);
    if (first && !separate && ex >= nt) {
        for (int k = ex - 1; k >= 0; k--) M.push_back(B[k]);
    } else if (first) {
        int N = nb + 1;
        M.assign(N, std::vector<double>(N, 0.0));
        for (int e = 0; e < N; e++) M[e][N - 1 - e] = 1;
        for (int k = 0; k < ex; k++) {
            int nz = 0;
            for (double v : B[k]) nz += v > 0;
            for (int j = 0; j < nb; j++) M[nz][j + 1] += B[k][j];
        }
    } else
        M = B;
    std::vector<std::vector<double> > out;
    for (auto& row : M) out.push_back(std::vector<double>(row.begin() + offset, row.begin() + offset + n_rows));
    return out;
}
std::vector<std::vector<double> > ref_express(const Dir& d, int n_rows) {
    std::vector<std::vector<double> > M;
    int offset = d.offset + d.prescan;
    if (d.roe_type == 2) {
        int ex = d.express == 0 ? d.n_pumps : std::min(d.express, d.n_pumps);
        auto P = std_express(d.n_pumps, ex, d.offset, d.empty_first, d.integer);
        std::vector<double> col;
        for (auto& r : P) {
            double v = r[d.n_pumps - 1];
            if (d.empty_first && ex < d.n_pumps && v == 0) continue;      // passes without effect
            col.push_back(v);
        }
        for (double v : col) M.push_back(std::vector<double>(n_rows, v));
        return M;
    }
    if (d.roe_type == 1) {
        int nt = d.overscan >= 0 ? d.prescan + d.overscan - 1 : offset + n_rows;
        int ex = d.express == 0 ? nt : std::min(d.express, nt);
        double mm = ex ? (double)nt / ex : 0;
        if (d.integer) mm = ceil(mm);
        for (int k = 0; k < ex; k++) M.push_back(std::vector<double>(n_rows, d.integer ? clip(nt - k * mm, 0, mm) : mm));
        return M;
    }
    M = std_express(n_rows, d.express, offset, d.empty_first, d.integer);
    if (d.overscan >= 0)
        for (int r = 0; r < n_rows; r++) {
            double extra = r + 1 + d.offset - (d.overscan - 1);      // transfers it is not charged for
            if (extra <= 0) continue;
            double removed = 0;
            for (int k = (int)M.size() - 1; k >= 0 && removed < extra; k--) {
                removed += M[k][r];
                M[k][r] = removed > extra ? removed - extra : 0;
            }
        }
    return M;
}
double ref_transfers(const Dir& d, int n_rows, int row) {
    if (d.roe_type == 2) return d.n_pumps;
    if (d.roe_type == 1) return d.overscan >= 0 ? d.prescan + d.overscan - 1 : d.prescan + d.offset + n_rows;
    double n = row + 1 + d.offset;
    if (d.overscan >= 0) n = std::min(n, (double)d.overscan - 1);
    return n + d.prescan;
}
std::vector<std::vector<char> > ref_store(const Dir& d, const std::vector<std::vector<double> >& M) {
    int P = (int)M.size(), R = P ? (int)M[0].size() : 0;
    std::vector<std::vector<char> > S(P, std::vector<char>(R, 0));
    if (d.roe_type == 1) return S;
    if (d.roe_type == 2) {
        for (int p = 0; p + 1 < P; p++) for (int r = 0; r < R; r++) S[p][r] = M[p][r] != 0;
        return S;
    }
    if (d.empty_first) return S;
    for (int p = 0; p + 1 < P; p++) {
        int r = 0;
        while (r < R - 1 && !(M[p + 1][r + 1] > 0)) r++;
        S[p][r] = 1;
    }
    return S;
}
bool ill_conditioned(const Req& r, const VImg& in, double tol) {
    VImg base = ref_add(r, in);
    bool bad = false;
    for (int m = 1; m <= 6 && !bad; m++) {
        ref_noise_mode = m;
        ref_noise_eps = 1e-12 * scale_of(r);
        ref_noise_k = 0;
        bad = !diff_images(ref_add(r, in), base, 0.05 * tol, 0).empty();
        ref_noise_mode = 0;
    }
    return bad;
}
VImg ref_clock(const VImg& in, const Dir& d, int allow_neg, int c0, int c1) {
    VImg im = in;
    int R = (int)in.size(), C = (int)in[0].size();
    int r0 = d.w0, r1 = d.w1 == -1 ? R : d.w1;
    if (c1 == -1) c1 = C;
    auto M = ref_express(d, R);
    auto S = ref_store(d, M);
    auto seq = ref_clock_sequence(d);
    int mt = r1 - r0 + d.offset + d.prescan;
    if (!d.empty_between) mt *= C;
    if (d.roe_type == 2) mt *= std::max<int>(1, (int)M.size());
    RefTraps t(d, mt);
    t.save();
    for (int c = c0; c < c1; c++) {
        for (size_t p = 0; p < M.size(); p++) {
            t.restore();
            for (int r = r0; r < r1; r++) {
                double x = M[p][r];
                if (x == 0) continue;
                for (auto& st : seq)
                    for (auto& ph : st) {
                        double n = 0;
                        for (int q : ph.cap) if (r + q >= 0 && r + q < R) n += im[r + q][c];
                        if (ref_noise_mode) n += ref_noise_step();
                        double dn = t.event(ph.phase, n);
                        for (auto& q : ph.rel) {
                            int w = r + q.first;
                            if (w < 0 || w >= R) continue;     // leaves the image
                            im[w][c] += dn * x * q.second;
                            if (!allow_neg && im[w][c] < 0) im[w][c] = 0;
                        }
                    }
                if (S[p][r]) t.save();
            }
        }
        if (d.empty_between) t.reset();
        t.save();
    }
    return im;
}
VImg ref_transpose(const VImg& a) {
    VImg b(a[0].size(), std::vector<double>(a.size()));
    for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a[0].size(); j++) b[j][i] = a[i][j];
    return b;
}
VImg ref_add(const Req& r, const VImg& in) {
    VImg im = in;
    if (r.par.on) im = ref_clock(im, r.par, r.allow_neg, r.ser.w0, r.ser.w1);
    if (r.ser.on) im = ref_transpose(ref_clock(ref_transpose(im), r.ser, r.allow_neg, r.par.w0, r.par.w1));
    return im;
}
VImg ref_remove(const Req& r, int n) {
    VImg x = r.img;
    for (int k = 0; k < n; k++) {
        VImg a = ref_add(r, x);
        for (size_t i = 0; i < x.size(); i++)
            for (size_t j = 0; j < x[i].size(); j++) {
                x[i][j] += r.img[i][j] - a[i][j];
                if (!r.allow_neg && x[i][j] < 0) x[i][j] = 0;
            }
    }
    return x;
}
double scale_of(const Req& r) {
    double s = 1;
    for (auto& v : r.img) for (double x : v) s = std::max(s, fabs(x));
    for (const Dir* d : {&r.par, &r.ser})
        if (d->on) for (auto& t : d->traps) s += t.density;
    return s;
}
// the distribution of lifetimes by direct numerical integration (coarse: 1e-4)
static double quad_fill(double mu, double sg, double te, double cap, double dwell, bool slow) {
    const int N = 4000;
    double lmax = log(mu + 100 * sg), lmin = log(mu) - 12 * sg;
    if (lmin > lmax) return 0;
    double h = (lmax - lmin) / N, s = 0;
    for (int i = 0; i <= N; i++) {
        double u = lmin + i * h, tau = exp(u), z = (u - log(mu)) / sg;
        double w = exp(-0.5 * z * z) / (sg * sqrt(2 * M_PI));
        double f0 = exp(-te / tau), v = f0;
        if (slow) {
            double r = 1 / tau, k = cap + r, e = (1 - exp(-k * dwell)) / k;
            v = f0 * (1 - r * e) + (1 - f0) * cap * e;
        }
        s += (i == 0 || i == N ? 0.5 : 1.0) * w * v;
    }
    return s * h;
}
std::string check_tables(const Dir& d, int mt0) {
    int mt = mt0 * (int)d.dwell.size();
    char b[300];
    for (auto& t : d.traps)
        for (int p = 0; p < d.phases(); p++) {
            double dw = d.dwell[p];
            for (int k = 0; k < 4; k++) {
                double te = dw * (k == 0 ? 1.0 : k == 1 ? 1.7 : k == 2 ? 0.5 * mt : 0.9 * mt);
                if (te < dw || te > mt * dw || mt < 2) continue;
                double got, want;
                if (t.kind == K_ICC) {
                    TrapInstantCaptureContinuum q(t.density, t.tau, t.sigma);
                    q.prep_fill_fraction_and_time_elapsed_tables(dw, mt * dw, 1000);
                    got = q.fill_fraction_from_time_elapsed_table(te);
                    want = quad_fill(t.tau, t.sigma, te, 0, 0, false);
                } else if (t.kind == K_SCC) {
                    TrapSlowCaptureContinuum q(t.density, t.tau, t.sigma, t.tauc);
                    q.prep_fill_fraction_and_time_elapsed_tables(dw / 30, mt * dw, 1000);
                    q.prep_fill_fraction_after_slow_capture_tables(dw, dw / 30, mt * dw, 1000);
                    if (k & 1) {
                        got = q.fill_fraction_after_slow_capture_table(te);
                        want = quad_fill(t.tau, t.sigma, te, 1 / t.tauc, dw, true);
                    } else {
                        got = q.fill_fraction_from_time_elapsed_table(te);
                        want = quad_fill(t.tau, t.sigma, te, 0, 0, false);
                    }
                } else
                    continue;
                if (!(fabs(got - want) < 2e-3)) {
                    snprintf(b, sizeof b, "continuum trap (tau=%g sigma=%g): fill fraction after %g is %.8g, integral gives %.8g", t.tau, t.sigma, te, got, want);
                    return b;
                }
            }
        }
    return "";
}
VImg from_image(const Image& im) {
    VImg v(im.size());
    for (size_t i = 0; i < im.size(); i++) v[i].assign(std::begin(im[i]), std::end(im[i]));
    return v;
}
std::string diff_images(const VImg& a, const VImg& b, double at, double rt) {
    char s[300];
    if (a.size() != b.size()) { snprintf(s, sizeof s, "%zu rows instead of %zu", a.size(), b.size()); return s; }
    for (size_t i = 0; i < a.size(); i++) {
        if (a[i].size() != b[i].size()) { snprintf(s, sizeof s, "row %zu has %zu columns instead of %zu", i, a[i].size(), b[i].size()); return s; }
        for (size_t j = 0; j < a[i].size(); j++)
            if (!(fabs(a[i][j] - b[i][j]) <= at + rt * fabs(b[i][j]))) {
                snprintf(s, sizeof s, "pixel (row %zu, column %zu) is %.17g instead of %.17g", i, j, a[i][j], b[i][j]);
                return s;
            }
    }
    return "";
}
std::string diff_bits(const Image& a, const Image& b) {
    char s[300];
    if (a.size() != b.size()) { snprintf(s, sizeof s, "%zu rows instead of %zu", a.size(), b.size()); return s; }
    for (size_t i = 0; i < a.size(); i++) {
        if (a[i].size() != b[i].size()) { snprintf(s, sizeof s, "row %zu has %zu columns instead of %zu", i, a[i].size(), b[i].size()); return s; }
        for (size_t j = 0; j < a[i].size(); j++) {
            double x = a[i][j], y = b[i][j];
            if (memcmp(&x, &y, 8) && !(x == y)) {
                snprintf(s, sizeof s, "pixel (row %zu, column %zu) is %.17g instead of %.17g", i, j, x, y);
                return s;
            }
        }
    }
    return "";
}
bool all_finite(const VImg& a) {
    for (auto& r : a) for (double x : r) if (!std::isfinite(x)) return false;
    return true;
}
void hash_image(const Image& im) {
    for (size_t i = 0; i < im.size(); i++)
        for (size_t j = 0; j < im[i].size(); j++) { double x = im[i][j]; uint64_t u; memcpy(&u, &x, 8); hash_u64(u); }
}
