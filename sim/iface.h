// A request passed through the plain-array interface that the Python wrapper calls.
#pragma once
#include "model.h"
struct IfaceDir {                        // one direction as plain arrays, each exactly as long as announced
    std::vector<double> dwell, frac, fw, notch, power, first, dens, tau, third, fourth, prune;
    int n_steps, n_phases, n[4], roe_type, prescan, overscan, n_pumps;
    bool empty_between, empty_first, force, integer;
    int express, offset, w0, w1;
    int prune_f;
    explicit IfaceDir(const Dir& d);     // allocates on the simulated heap
};
struct IfaceCall {
    Req r;
    IfaceDir p, s;
    std::vector<double> image;
    explicit IfaceCall(const Req& q);
    void reset_image();
    void add(int verbosity = 0);         // in place; may throw
    Image result() const;
};
