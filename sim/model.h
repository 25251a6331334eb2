// Description of a modelling request, its generator, and an independent reference model of
// the traps and of the read-out.  The reference shares no code with the library except that
// the two "continuum" species are driven through the trap class's own public table functions
// (which the reference cross-checks by its own quadrature, see check_tables()).
#pragma once
#include "rt.h"
#include <valarray>
#include <memory>
#include "ccd.hpp"
#include "cti.hpp"
#include "roe.hpp"
#include "trap_managers.hpp"
#include "traps.hpp"
#include "util.hpp"

typedef std::valarray<std::valarray<double> > Image;

struct PhaseP { double fw = 1e3, notch = 0, power = 1, first = 0; };
struct TrapP { int kind = 0; double density = 10, tau = 1, tauc = 0, sigma = 0, vnone = 0, vfull = 0; };
enum { K_IC = 0, K_SC = 1, K_ICC = 2, K_SCC = 3 };

struct Dir {
    bool on = false;
    int roe_type = 0;                 // 0 standard 1 charge injection 2 pumping
    std::vector<double> dwell = {1.0};
    int prescan = 0, overscan = -1;
    bool empty_between = true, empty_first = false, force = true, integer = false;
    int n_pumps = 1;
    std::vector<PhaseP> ph = {PhaseP()};
    std::vector<double> frac = {1.0};
    std::vector<TrapP> traps;
    int express = 0, offset = 0, w0 = 0, w1 = -1;
    double prune_n = 1e-10;
    int prune_f = 20;
    int phases() const { return (int)ph.size(); }
};
struct Req {
    std::vector<std::vector<double> > img;
    Dir par, ser;
    int allow_neg = 1;
    int verb = 0;
    int rows() const { return (int)img.size(); }
    int cols() const { return (int)img[0].size(); }
};

// which parts of the input space a scenario samples
struct Gen {
    int max_rows = 12, max_cols = 8, min_rows = 1, min_cols = 1;
    bool serial = true, multiphase = true, injection = true, pumping = true, windows = true, express = true, integer = true,
         first = true, carry = true, scans = true, efill = true, surface = true, negative = true, scarce = true,
         clampneg = true;
    int continuum = 15;               // percent of requests with continuum species
    double max_cost = 3e7;
    int big = 3;                      // percent of requests with 32-132 rows or columns
    int prune = 1;                    // 0 never, 1 random, 2 always
    bool edge_safe = false;           // multiphase only where no neighbour outside the image is addressed
};
Req gen_request(const Gen& g);
Dir gen_dir(const Gen& g, int rows, int cols, bool parallel);
void gen_traps(const Gen& g, Dir& d);
void gen_phases(const Gen& g, Dir& d, int n);
std::vector<double> gen_cloud_sequence(const Dir& d, int n);
std::string describe(const Req& r);
std::string describe(const Dir& d);

// the library's objects for one direction
struct Objs {
    std::valarray<double> dwell;
    std::unique_ptr<ROE> roe;
    std::valarray<CCDPhase> phases;
    std::valarray<double> frac;
    CCD ccd;
    std::valarray<TrapInstantCapture> ic;
    std::valarray<TrapSlowCapture> sc;
    std::valarray<TrapInstantCaptureContinuum> icc;
    std::valarray<TrapSlowCaptureContinuum> scc;
    bool on = false;
    Objs() {}
    Objs(const Objs&) = delete;
    void build(const Dir& d);
    std::valarray<TrapInstantCapture>* pic() { return on && ic.size() ? &ic : nullptr; }
    std::valarray<TrapSlowCapture>* psc() { return on && sc.size() ? &sc : nullptr; }
    std::valarray<TrapInstantCaptureContinuum>* picc() { return on && icc.size() ? &icc : nullptr; }
    std::valarray<TrapSlowCaptureContinuum>* pscc() { return on && scc.size() ? &scc : nullptr; }
};
template <class T, class P, class F> std::valarray<T> make_traps(const std::vector<P>& v, F f) {
    if (v.empty()) return std::valarray<T>();
    std::valarray<T> a(f(v[0]), v.size());
    for (size_t i = 0; i < v.size(); i++) a[i] = f(v[i]);
    return a;
}
// every setting of a direction's public objects, for "unchanged" checks
std::vector<double> flat(Objs& o);
bool same_bits(const std::vector<double>& a, const std::vector<double>& b);
struct Call {                          // a request with its objects
    Req r;
    Objs p, s;
    Image in;
    explicit Call(const Req& q);
    Call(const Call&) = delete;
    Image add();
    Image remove(int n);
    Image clock_parallel();
};
Image to_image(const std::vector<std::vector<double> >& v);

// ---------------------------------------------------------------- reference model
struct RefSeg { double vol; std::vector<double> fill; };
struct RefMgr {
    int kind = 0;
    PhaseP ph;
    double dwell = 1;
    std::vector<TrapP> tr;
    std::vector<double> dens;
    std::vector<RefSeg> seg, saved;
    std::vector<std::shared_ptr<TrapInstantCaptureContinuum> > icc;
    std::vector<std::shared_ptr<TrapSlowCaptureContinuum> > scc;
    double event(double n_free);
    double trapped() const;                 // electrons held (weighted by exposure for surface traps)
    void reset() { seg.clear(); }
    size_t split(double v);                 // makes v a boundary; returns index of the first segment above
    double volume(double n) const;
    double release_fill(int t, double fill) const;
    double slow_fill(int t, double fill) const;
    double exposed(int t, double lo, double hi) const;   // integral of the exposed fraction
};
double ref_volume(const PhaseP& p, double n);
struct RefTraps {                           // what one column of a CCD holds
    std::vector<RefMgr> m;                  // [kind-major] only kinds present
    int n_phases = 1;
    RefTraps() {}
    RefTraps(const Dir& d, int max_n_transfers);
    double event(int phase, double n_free);
    void reset() { for (auto& x : m) x.reset(); }
    void save() { for (auto& x : m) x.saved = x.seg; }
    void restore() { for (auto& x : m) x.seg = x.saved; }
};
struct RefStep { int step, phase; std::vector<int> cap; std::vector<std::pair<int, double> > rel; };
std::vector<std::vector<RefStep> > ref_clock_sequence(const Dir& d);
// express[pass][row]
std::vector<std::vector<double> > ref_express(const Dir& d, int n_rows);
std::vector<std::vector<char> > ref_store(const Dir& d, const std::vector<std::vector<double> >& m);
double ref_transfers(const Dir& d, int n_rows, int row);     // true number of transfers of a row
typedef std::vector<std::vector<double> > VImg;
VImg ref_clock(const VImg& in, const Dir& d, int allow_neg, int c0, int c1);
VImg ref_add(const Req& r, const VImg& in);
bool ill_conditioned(const Req& r, const VImg& in, double tol);   // rounding decides the outcome
VImg ref_remove(const Req& r, int n);
VImg ref_transpose(const VImg& a);
double scale_of(const Req& r);              // magnitude against which differences are judged
std::string check_tables(const Dir& d, int max_n_transfers);
VImg from_image(const Image& im);
// "" when equal within tol*scale, otherwise a description of the first difference
std::string diff_images(const VImg& a, const VImg& b, double abstol, double reltol);
std::string diff_bits(const Image& a, const Image& b);
bool all_finite(const VImg& a);
void hash_image(const Image& im);
