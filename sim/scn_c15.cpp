// C15: the read-noise model of an image.
#include "model.h"
#include "read_noise.hpp"
#include <math.h>
#include <string.h>
using namespace sim;
static const char* rule() { return "pair of images (1x1 to 40x40, single rows and columns, integer, tiny, huge and equal values), noise level, clip fraction and smoothing mode, on exactly sized heap arrays; the estimate is computed by simulated threads on a seeded schedule and by one thread: both must agree bit for bit with each other and within rounding with the formula evaluated pixel by pixel from explicit 3x3 neighbourhoods; inputs must be untouched and no element outside the arrays accessed; non-trivial when threads interleaved or a fault fired"; }
static double clip(double x, double m) { return x > m ? m : x < -m ? -m : x; }
static void run() {
    int R, C, smooth, style;
    double amp, frac;
    std::vector<double> in, out, a0, b0;
    {
        RtScope s;
        switch (w_draw(5)) {
            case 0: R = w_int(1, 4); C = w_int(1, 4); break;
            case 1: R = 1; C = w_int(1, 20); break;
            case 2: R = w_int(1, 20); C = 1; break;
            case 3: R = w_int(2, 12); C = w_int(2, 12); break;
            default: R = w_int(1, 40); C = w_int(1, 40); break;
        }
        smooth = (int)w_draw(2);
        amp = w_pick<double>({4.0, 1.0, 0.5, 15.7, 1e-3, 1e3});
        frac = w_pick<double>({0.2, 0.0, 1.0, 0.05});
        style = (int)w_draw(5);
        char t[200];
        snprintf(t, sizeof t, "%dx%d images, style %d, noise %g, fraction %g, smoothing %d", R, C, style, amp, frac, smooth);
        set_context(t);
    }
    in.resize(R * C); out.resize(R * C);
    in.shrink_to_fit(); out.shrink_to_fit();
    for (int i = 0; i < R * C; i++) {
        double base = style == 4 ? 1e6 * w_draw(100) : w_draw(400);
        out[i] = base + (style == 1 ? 0.01 * w_draw(1000) : 0);
        in[i] = style == 3 ? out[i] : out[i] + (style == 2 ? 1e-6 * (double)w_draw(100) : (double)w_draw(41) - 20);
    }
    { RtScope s; a0 = in; b0 = out; }
    std::vector<double> seq(R * C, 3.0), par(R * C, -5.0);
    seq.shrink_to_fit(); par.shrink_to_fit();
    sched.quiet = true;
    determine_read_noise_model(in.data(), out.data(), R, C, amp, frac, smooth, seq.data());
    sched.quiet = false;
    determine_read_noise_model(in.data(), out.data(), R, C, amp, frac, smooth, par.data());
    heap_check();
    RtScope s;
    hash_bytes(par.data(), 8 * par.size());
    if (memcmp(in.data(), a0.data(), 8 * a0.size()) || memcmp(out.data(), b0.data(), 8 * b0.size())) violation("an input image was changed");
    double lim = amp * frac, a2 = amp * amp;
    for (int i = 0; i < R; i++)
        for (int j = 0; j < C; j++) {
            int k = i * C + j;
            if (memcmp(&seq[k], &par[k], 8)) violation("the estimate depends on the schedule: pixel [%d][%d] is %.17g and %.17g with one thread", i, j, par[k], seq[k]);
            double d = in[k] - out[k], sum = 0;
            int n = 0;
            for (int p = i - 1; p <= i + 1; p++)
                for (int q = j - 1; q <= j + 1; q++)
                    if (p >= 0 && p < R && q >= 0 && q < C) { sum += in[p * C + q] - out[p * C + q]; n++; }
            double m = sum / n;
            auto edge = [&](int p, int q) {
                double e = p < 0 || p >= R || q < 0 || q >= C ? 0.0 : out[p * C + q] - out[k];
                return clip(e, lim) * 4 * a2 / (e * e + 4 * a2);
            };
            double w = clip(d, 1.0) * d * d / (d * d + 4 * a2) + clip(m, lim) * m * m / (m * m + 18 * a2) + edge(i - 1, j) + edge(i + 1, j);
            if (smooth) w = (w + edge(i, j - 1) + edge(i, j + 1)) / 6;
            else w /= 4;
            if (!(fabs(par[k] - w) <= 1e-9 * (fabs(w) + lim + 1))) violation("pixel [%d][%d] is %.17g, by the definition %.17g", i, j, par[k], w);
        }
}
static Register reg({"C15", rule, run, nullptr, 0});
