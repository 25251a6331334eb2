// The core model called directly, for comparison with the Python interface.  One flat list of numbers per direction.
#include <string.h>
#include <valarray>
#include <vector>
#include <memory>
#include "ccd.hpp"
#include "cti.hpp"
#include "roe.hpp"
#include "traps.hpp"
#include "util.hpp"
namespace {
struct Side {
    std::unique_ptr<ROE> roe;
    std::unique_ptr<CCD> ccd;
    std::valarray<TrapInstantCapture> ic;
    std::valarray<TrapSlowCapture> sc;
    std::valarray<TrapInstantCaptureContinuum> icc;
    std::valarray<TrapSlowCaptureContinuum> scc;
    int on = 0, express = 0, offset = 0, w0 = 0, w1 = -1, prune_f = 0;
    double prune_n = 0;
    const double* read(const double* p) {
        on = (int)*p++;
        express = (int)*p++; offset = (int)*p++; w0 = (int)*p++; w1 = (int)*p++; prune_n = *p++; prune_f = (int)*p++;
        if (!on) return p;
        int type = (int)*p++, pumps = (int)*p++, prescan = (int)*p++, overscan = (int)*p++;
        bool between = *p++ != 0, first = *p++ != 0, force = *p++ != 0, integer = *p++ != 0;
        int nd = (int)*p++;
        std::valarray<double> dwell(p, nd);
        p += nd;
        if (type == 0) roe.reset(new ROE(dwell, prescan, overscan, between, first, force, integer));
        else if (type == 1) roe.reset(new ROEChargeInjection(dwell, prescan, overscan, between, force, integer));
        else roe.reset(new ROETrapPumping(dwell, pumps, first, integer));
        int np = (int)*p++;
        std::valarray<CCDPhase> ph(CCDPhase(1, 0, 1, 0), np);
        std::valarray<double> frac(0.0, np);
        for (int i = 0; i < np; i++) { ph[i] = CCDPhase(p[0], p[1], p[2], p[3]); frac[i] = p[4]; p += 5; }
        ccd.reset(new CCD(ph, frac));
        int n = (int)*p++;
        std::vector<std::vector<double> > t[4];
        for (int i = 0; i < n; i++) { t[(int)p[0]].push_back(std::vector<double>(p + 1, p + 5)); p += 5; }
        if (t[0].size()) ic.resize(t[0].size(), TrapInstantCapture(1, 1));
        for (size_t i = 0; i < t[0].size(); i++) ic[i] = TrapInstantCapture(t[0][i][0], t[0][i][1], t[0][i][2], t[0][i][3]);
        if (t[1].size()) sc.resize(t[1].size(), TrapSlowCapture(1, 1, 1));
        for (size_t i = 0; i < t[1].size(); i++) sc[i] = TrapSlowCapture(t[1][i][0], t[1][i][1], t[1][i][2]);
        if (t[2].size()) icc.resize(t[2].size(), TrapInstantCaptureContinuum(1, 1, 1));
        for (size_t i = 0; i < t[2].size(); i++) icc[i] = TrapInstantCaptureContinuum(t[2][i][0], t[2][i][1], t[2][i][2]);
        if (t[3].size()) scc.resize(t[3].size(), TrapSlowCaptureContinuum(1, 1, 1, 1));
        for (size_t i = 0; i < t[3].size(); i++) scc[i] = TrapSlowCaptureContinuum(t[3][i][0], t[3][i][1], t[3][i][2], t[3][i][3]);
        return p;
    }
    template <class T> static std::valarray<T>* some(std::valarray<T>& a, int on) { return on && a.size() ? &a : nullptr; }
};
}
extern "C" __attribute__((visibility("default"))) int pyref_add(double* image, int rows, int cols, const double* a, const double* b, int allow_negative) {
    try {
        Side p, s;
        p.read(a);
        s.read(b);
        set_verbosity(0);
        std::valarray<std::valarray<double> > in(std::valarray<double>(0.0, cols), rows);
        for (int i = 0; i < rows; i++) for (int j = 0; j < cols; j++) in[i][j] = image[i * cols + j];
        std::valarray<std::valarray<double> > out = add_cti(
            in, p.roe.get(), p.ccd.get(), Side::some(p.ic, p.on), Side::some(p.sc, p.on), Side::some(p.icc, p.on), Side::some(p.scc, p.on), p.express, p.offset, p.w0, p.w1, 0, -1, p.prune_n, p.prune_f,
            s.roe.get(), s.ccd.get(), Side::some(s.ic, s.on), Side::some(s.sc, s.on), Side::some(s.icc, s.on), Side::some(s.scc, s.on), s.express, s.offset, s.w0, s.w1, 0, -1, s.prune_n, s.prune_f,
            allow_negative, 0, 1);
        for (int i = 0; i < rows; i++) for (int j = 0; j < cols; j++) image[i * cols + j] = out[i][j];
        return 0;
    } catch (...) { return 1; }
}
