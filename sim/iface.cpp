#include "iface.h"
#include "interface.hpp"
IfaceDir::IfaceDir(const Dir& q) {
    Dir d = q;
    if (!d.on) d.traps.clear();
    dwell = d.dwell; frac = d.frac;
    for (auto& p : d.ph) { fw.push_back(p.fw); notch.push_back(p.notch); power.push_back(p.power); first.push_back(p.first); }
    for (int k = 0; k < 4; k++) {
        n[k] = 0;
        for (auto& t : d.traps) {
            if (t.kind != k) continue;
            n[k]++;
            dens.push_back(t.density); tau.push_back(t.tau);
            third.push_back(k == K_IC ? t.vnone : k == K_SC ? t.tauc : t.sigma);
            fourth.push_back(k == K_IC ? t.vfull : k == K_SCC ? t.tauc : 0.0);
        }
    }
    for (auto* v : {&dwell, &frac, &fw, &notch, &power, &first, &dens, &tau, &third, &fourth}) v->shrink_to_fit();
    prune.assign(1, d.prune_n);
    n_steps = (int)dwell.size(); n_phases = (int)fw.size();
    roe_type = d.roe_type; prescan = d.prescan; overscan = d.overscan; n_pumps = d.n_pumps;
    empty_between = d.empty_between; empty_first = d.empty_first; force = d.force; integer = d.integer;
    express = d.express; offset = d.offset; w0 = d.w0; w1 = d.w1; prune_f = d.prune_f;
}
IfaceCall::IfaceCall(const Req& q) : r(q), p(q.par), s(q.ser) { reset_image(); }
void IfaceCall::reset_image() {
    std::vector<double> v;
    v.reserve(r.rows() * r.cols());
    for (auto& row : r.img) for (double x : row) v.push_back(x);
    image.swap(v);
}
void IfaceCall::add(int verbosity) {
    add_cti(image.data(), r.rows(), r.cols(),
        p.dwell.data(), p.n_steps, p.prescan, p.overscan, p.empty_between, p.empty_first, p.force, p.integer, p.n_pumps, p.roe_type,
        p.frac.data(), p.n_phases, p.fw.data(), p.notch.data(), p.power.data(), p.first.data(),
        p.dens.data(), p.tau.data(), p.third.data(), p.fourth.data(), p.n[0], p.n[1], p.n[2], p.n[3],
        p.express, p.offset, p.w0, p.w1, 0, -1, p.prune.data(), p.prune_f,
        s.dwell.data(), s.n_steps, s.prescan, s.overscan, s.empty_between, s.empty_first, s.force, s.integer, s.n_pumps, s.roe_type,
        s.frac.data(), s.n_phases, s.fw.data(), s.notch.data(), s.power.data(), s.first.data(),
        s.dens.data(), s.tau.data(), s.third.data(), s.fourth.data(), s.n[0], s.n[1], s.n[2], s.n[3],
        s.express, s.offset, s.w0, s.w1, 0, -1, s.prune.data(), s.prune_f,
        r.allow_neg, verbosity, 0);
}
Image IfaceCall::result() const {
    Image im(std::valarray<double>(0.0, r.cols()), r.rows());
    for (int i = 0; i < r.rows(); i++) for (int j = 0; j < r.cols(); j++) im[i][j] = image[i * r.cols() + j];
    return im;
}
