// C08 read-out against the reference model, C09 removal, C10 windows.
#include "model.h"
#include <math.h>
#include <string.h>
using namespace sim;
static bool has_continuum(const Req& r) {
    for (const Dir* d : {&r.par, &r.ser}) if (d->on) for (auto& t : d->traps) if (t.kind >= 2) return true;
    return false;
}
static double tolerance(const Req& r) { return (has_continuum(r) ? 3e-3 : 1e-7) * scale_of(r); }
// rows a direction may change when only row r0..r1-1 are clocked
static void reach(const Dir& d, int& lo, int& hi) {
    lo = hi = 0;
    for (auto& st : ref_clock_sequence(d)) for (auto& s : st) for (auto& q : s.rel) { lo = std::min(lo, q.first); hi = std::max(hi, q.first); }
}

static const char* r08() { return "random request (parallel, serial or both; standard, charge injection or trap pumping; 1-5 phases; prescan, overscan, offset; every express setting; integer express; separate first transfers; windows; carry-over; all trap species; clamping) read out by simulated threads, compared pixel by pixel with an independent sequential reference read-out; and the transfers each row is charged for, summed over the express passes, must be its true number of transfers; non-trivial when threads interleaved or a fault fired"; }
static void c08() {
    Gen g;
    g.continuum = 5;
    Req r;
    std::unique_ptr<Call> c;
    {
        RtScope s;
        r = gen_request(g);
        c.reset(new Call(r));
        set_context(describe(r));
    }
    for (int k = 0; k < 2; k++) {
        Dir& d = k ? r.ser : r.par;
        if (!d.on) continue;
        ROE* roe = k ? c->s.roe.get() : c->p.roe.get();
        int n = k ? r.cols() : r.rows();
        roe->set_clock_sequence();
        roe->set_express_matrix_from_rows_and_express(n, d.express, d.offset);
        RtScope s;
        size_t P = roe->express_matrix.size() / n;
        if (P * n != roe->express_matrix.size()) violation("express matrix of %zu values for %d rows", roe->express_matrix.size(), n);
        for (int i = 0; i < n; i++) {
            if (d.roe_type == 2 && i != d.w0) continue;
            double tot = 0;
            for (size_t p = 0; p < P; p++) {
                double m = roe->express_matrix[p * n + i];
                if (!(m >= 0) || !std::isfinite(m)) violation("express multiplier %g of row %d", m, i);
                tot += m;
            }
            double want = ref_transfers(d, n, i);
            if (!(fabs(tot - want) <= 1e-9 * (1 + want))) violation("row %d is charged for %.17g transfers instead of %.17g (%s)", i, tot, want, k ? "serial" : "parallel");
        }
    }
    Image out = w_draw(4) == 3 && r.par.on && !r.ser.on ? c->clock_parallel() : c->add();
    hash_image(out);
    RtScope s;
    std::string e = diff_images(from_image(out), ref_add(r, r.img), tolerance(r), 0);
    if (!e.empty() && ill_conditioned(r, r.img, tolerance(r))) discard("ill-conditioned");
    if (!e.empty()) violation("image differs from the reference read-out: %s", e.c_str());
}
static Register g8({"C08", r08, c08, nullptr, 0});

static const char* r09() { return "random request; remove_cti with 0-4 iterations on simulated threads compared with the documented iteration carried out outside the library on its own add_cti, and in part with the reference model alone; in 1 of 4 runs a trailed image with few traps, where every iteration must at least halve the error; non-trivial when threads interleaved or a fault fired"; }
static void c09() {
    Gen g;
    g.continuum = 4;
    g.max_rows = 9; g.max_cols = 6; g.max_cost = 8e6;
    uint32_t mode = w_draw(4);
    Req r;
    std::unique_ptr<Call> c;
    if (mode == 3) {                  // contracting
        g.injection = g.pumping = g.windows = g.scarce = g.surface = g.clampneg = g.efill = g.multiphase = g.carry = false;
        g.continuum = 0;
        {
            RtScope s;
            r = gen_request(g);
            for (auto& v : r.img) for (auto& x : v) x = 500 + w_draw(2000);
            for (Dir* d : {&r.par, &r.ser}) {
                if (!d->on) continue;
                double tot = 0;
                for (auto& t : d->traps) tot += t.density;
                int R = d == &r.par ? r.rows() : r.cols();
                double nt = R + d->offset + d->prescan;
                for (auto& t : d->traps) t.density *= (tot > 0 ? 20.0 / tot / nt : 0);
                for (auto& p : d->ph) { p.fw = std::max(p.fw, 5000.0); p.notch = std::min(p.notch, 50.0); }
            }
            c.reset(new Call(r));
            set_context("trailed image of: " + describe(r));
        }
        Image truth = c->in, y = c->add();
        c->in = y;
        double last = -1;
        for (int n = 0; n <= 3; n++) {
            Image x = c->remove(n);
            hash_image(x);
            RtScope s;
            double e = 0;
            for (int i = 0; i < r.rows(); i++) for (int j = 0; j < r.cols(); j++) e = std::max(e, fabs(x[i][j] - truth[i][j]));
            if (!std::isfinite(e)) violation("corrected image is not finite");
            if (n && !(e <= 0.5 * last + 1e-8 * scale_of(r))) violation("correction does not converge: largest error %.6g after %d iterations, %.6g after %d", last, n - 1, e, n);
            last = e;
        }
        return;
    }
    int n = (int)w_draw(5);
    if (mode != 2) g.prune = 3;
    { RtScope s; r = gen_request(g); c.reset(new Call(r)); set_context(std::to_string(n) + " iterations: " + describe(r)); }
    Image orig = c->in;
    Image out = c->remove(n);
    hash_image(out);
    if (n == 0) {
        RtScope s;
        std::string e = diff_bits(out, orig);
        if (!e.empty()) violation("removal with no iterations changes the image: %s", e.c_str());
        return;
    }
    double amp = 1;                   // differences between two ways to compute an iteration grow with it
    if (mode == 2 && !has_continuum(r)) {
        Image prev = c->remove(n - 1);
        RtScope s;
        VImg x = from_image(prev), w = ref_add(r, x);
        double big = scale_of(r);
        for (auto* m : {&x, &w}) for (auto& v : *m) for (double y : v) big = std::max(big, std::isfinite(y) ? fabs(y) : HUGE_VAL);
        bool neg = false, fe = false;     // the model has no meaning for fewer than no electrons where an empty cloud has a volume
        for (auto& v : x) for (double y : v) neg = neg || y < 0;
        for (const Dir* d : {&r.par, &r.ser}) if (d->on) for (auto& q : d->ph) fe = fe || q.first > 0;
        if (neg && fe) discard("negative clouds with a first electron volume");
        if (big > 1e3 * scale_of(r)) discard("diverging correction");
        bool ill = false;
        for (int i = 0; i < r.rows(); i++)
            for (int j = 0; j < r.cols(); j++) {
                w[i][j] = x[i][j] + orig[i][j] - w[i][j];
                if (!r.allow_neg && w[i][j] < 0) w[i][j] = 0;
            }
        std::string e = diff_images(from_image(out), w, 1e-6 * big, 0);
        if (!e.empty()) ill = ill_conditioned(r, x, 1e-6 * big);
        if (ill) discard("ill-conditioned");
        if (!e.empty()) violation("corrected image differs from the reference iteration: %s", e.c_str());
        return;
    }
    sched.quiet = w_chance(1, 2);
    Image est = orig;
    for (int k = 0; k < n; k++) {
        c->in = est;
        Image a = c->add();
        RtScope s;
        for (int i = 0; i < r.rows(); i++)
            for (int j = 0; j < r.cols(); j++) {
                est[i][j] += orig[i][j] - a[i][j];
                if (!r.allow_neg && est[i][j] < 0) est[i][j] = 0;
                amp = std::max(amp, fabs(est[i][j]));
            }
    }
    RtScope s;
    if (!std::isfinite(amp) || amp > 1e6 * scale_of(r)) discard("diverging correction");
    std::string e = diff_images(from_image(out), from_image(est), 1e-7 * std::max(amp, scale_of(r)), 0);
    if (!e.empty()) violation("corrected image differs from the documented iteration: %s", e.c_str());
}
static Register g9({"C09", r09, c09, nullptr, 0});

static const char* r10() { return "random request with random row and column windows read out by simulated threads: pixels outside (and, with several phases, not next to) the window must be returned bit for bit, columns inside a window must equal the full run bit for bit, a window over everything must change nothing, and single-phase windows from the first row must equal the full run on their rows; non-trivial when threads interleaved or a fault fired"; }
static void c10() {
    Gen g;
    g.continuum = 3;
    g.prune = 3;
    g.clampneg = true;
    Req r;
    uint32_t op;
    {
        RtScope s;
        r = gen_request(g);
        int R = r.rows(), C = r.cols();
        for (int k = 0; k < 2; k++) {
            Dir& d = k ? r.ser : r.par;
            int n = k ? C : R;
            if (!k && d.on && d.roe_type == 2) continue;
            uint32_t how = w_draw(4);
            if (how == 0) { d.w0 = 0; d.w1 = w_chance(1, 2) ? -1 : n; }
            else if (how == 1) { d.w0 = 0; d.w1 = 1 + w_draw(n); }
            else { d.w0 = w_draw(n); d.w1 = d.w0 + 1 + w_draw(n - d.w0); }
        }
        if (r.par.on && r.par.roe_type == 2) { r.ser.w0 = w_draw(C); r.ser.w1 = r.ser.w0 + 1 + w_draw(C - r.ser.w0); }
        op = w_draw(5);
        set_context((op == 4 ? "removal " : "") + describe(r));
    }
    int R = r.rows(), C = r.cols();
    int r0 = r.par.w0, r1 = r.par.w1 == -1 ? R : r.par.w1, c0 = r.ser.w0, c1 = r.ser.w1 == -1 ? C : r.ser.w1;
    std::unique_ptr<Call> c;
    { RtScope s; c.reset(new Call(r)); }
    auto call = [&](Call& q) -> Image { return op == 4 ? q.remove(1) : op == 3 && r.par.on && !r.ser.on ? q.clock_parallel() : q.add(); };
    Image out = call(*c);
    hash_image(out);
    // rows and columns that may change
    int ra = r0, rb = r1, ca = c0, cb = c1;
    {
        RtScope s;
        int lo, hi;
        if (r.par.on) { reach(r.par, lo, hi); ra = r0 + lo; rb = r1 + hi; }
        if (r.ser.on) { reach(r.ser, lo, hi); ca = c0 + lo; cb = c1 + hi; }
        // with both directions on, each direction changes only its own strip: rows ra..rb x columns c0..c1, rows r0..r1 x columns ca..cb
        for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) {
            bool may = (r.par.on && i >= ra && i < rb && j >= c0 && j < c1) || (r.ser.on && i >= r0 && i < r1 && j >= ca && j < cb);
            if (may) continue;
            double x = out[i][j], y = r.img[i][j];
            if (op == 4 && !r.allow_neg && y < 0) y = 0;       // removal clips every pixel
            if (memcmp(&x, &y, 8) && !(x == y)) violation("pixel outside the window changed (row %d, column %d): %.17g instead of %.17g", i, j, x, y);
        }
    }
    if (op == 4 || r.par.on == r.ser.on) {
        if (r0 == 0 && r1 == R && c0 == 0 && c1 == C) {
            Req q = r;
            { RtScope s; q.par.w0 = q.ser.w0 = 0; q.par.w1 = q.ser.w1 = -1; }
            std::unique_ptr<Call> f;
            { RtScope s; f.reset(new Call(q)); }
            Image full = call(*f);
            RtScope s;
            std::string e = diff_bits(out, full);
            if (!e.empty()) violation("a window that covers the whole image changes it: %s", e.c_str());
        }
        return;
    }
    // one direction: a0..a1 along the clocked direction, b0..b1 across it
    Dir& d = r.par.on ? r.par : r.ser;
    if (d.roe_type == 2) return;
    int n = r.par.on ? R : C, m = r.par.on ? C : R, a0 = r.par.on ? r0 : c0, a1 = r.par.on ? r1 : c1, b0 = r.par.on ? c0 : r0, b1 = r.par.on ? c1 : r1;
    bool rows_ok = a0 == 0 && (a1 == n || (d.dwell.size() == 1 && !has_continuum(r)));
    bool cols_ok = d.empty_between ? true : b0 == 0 && a1 == n;
    if (!rows_ok || !cols_ok) return;
    (void)m;
    Req q = r;
    { RtScope s; q.par.w0 = q.ser.w0 = 0; q.par.w1 = q.ser.w1 = -1; }
    std::unique_ptr<Call> f;
    { RtScope s; f.reset(new Call(q)); }
    Image full = call(*f);
    RtScope s;
    for (int i = r0; i < r1; i++) for (int j = c0; j < c1; j++) {
        double x = out[i][j], y = full[i][j];
        if (memcmp(&x, &y, 8) && !(x == y)) violation("pixel inside the window differs from the full run (row %d, column %d): %.17g instead of %.17g", i, j, x, y);
    }
}
static Register g10({"C10", r10, c10, nullptr, 0});
