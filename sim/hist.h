// Histories of events on the library's own trap managers, checked step by step.
#pragma once
#include "model.h"
enum { HC_CONSERVE = 1, HC_BOUNDS = 2, HC_REF = 4 };
struct MgrState {                       // what one manager holds, from its public watermark arrays
    std::vector<double> vol;
    std::vector<std::vector<double> > fill;
    std::vector<double> dens;
    std::vector<double> flat() const;
};
// managers of one TrapManagerManager in the fixed order kind-major, phase-minor
struct Tmm {
    TrapManagerManager* m = nullptr;
    int n_phases = 1;
    std::vector<std::pair<int, int> > idx;       // (kind, phase)
    Tmm() {}
    Tmm(TrapManagerManager* q, int phases);
    size_t n() const { return idx.size(); }
    double event1(size_t i, double n_free);      // one manager
    double event(int phase, double n_free);      // all kinds of a phase, in the order of the read-out
    MgrState state(size_t i) const;
    TrapManagerBase* base(size_t i) const;
};
TrapManagerManager* new_tmm(Objs& o, int max_n_transfers);
double held(const RefMgr& r, const MgrState& s);        // electrons held
double dens_scale(const Dir& d);
// a direction with only what trap histories need
Dir gen_hist_dir(const Gen& g);
struct Op { int kind; int phase; double x; };    // 0 event 1 store 2 restore 3 reset 4 prune 5 copy
enum { OP_EVENT, OP_STORE, OP_RESTORE, OP_RESET, OP_PRUNE, OP_COPY };
struct OpMix { int store = 1, restore = 1, reset = 1, prune = 0, copy = 0; int lo = 3, hi = 60; std::vector<double> thr = {1e-10}; };
std::vector<Op> gen_ops(const Dir& d, const OpMix& m, bool negative);
std::string describe_ops(const std::vector<Op>& v, size_t upto);
void check_bounds(const RefMgr& r, const MgrState& s, const char* when);
