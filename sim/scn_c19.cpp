// C19: malformed requests are refused.
#include "iface.h"
#include <exception>
#include <stdlib.h>
using namespace sim;
static const char* rule() { return "random request made impossible in one seeded way (no rows, no columns, ragged rows, missing detector or read-out, phases and fractions or detector and read-out phases that do not match, negative prescan, impossible overscan, odd pumping steps, no pumps, several or no active pumping rows, windows outside the image or reversed, negative express or offset) in the parallel, serial or both directions, given to add_cti, remove_cti, one-direction clocking or the plain-array interface after 0-1 valid calls, on the simulated heap: the request must end with an exception or a failing exit status, never with an image, a crash, an access outside its data or a hang; non-trivial when a fault fired or a valid call came first"; }
namespace {
enum { NO_ROWS, NO_COLS, RAGGED, NO_ROE, NO_CCD, FRACTIONS, PHASES, PRESCAN, OVERSCAN, ODD_PUMP, NO_PUMP, PUMP_ROWS, ROWWIN, COLWIN, EXPRESS, OFFSET, KINDS };
const char* kn[] = {"no rows", "no columns", "ragged rows", "no read-out", "no detector", "fractions do not match phases", "detector and read-out phases differ", "negative prescan", "impossible overscan", "odd pumping steps", "no pumps", "not one pumping row", "window along the clocking outside the image", "window across the clocking outside the image", "negative express", "negative offset"};
bool bad_window(int& a, int& b, int n) {
    switch (w_draw(6)) {
        case 0: a = -1 - (int)w_draw(3); b = n; break;
        case 1: a = 0; b = n + 1 + (int)w_draw(3); break;
        case 2: a = 1 + (int)w_draw(n); b = (int)w_draw(a); break;
        case 3: a = n + 1 + (int)w_draw(5); b = -1; break;
        case 4: a = (int)w_draw(n); b = -2 - (int)w_draw(4); break;
        default: a = n + 100000; b = a + 3; break;
    }
    return true;
}
}
static void run() {
    Gen g;
    g.continuum = 3;
    g.max_rows = 7; g.max_cols = 6;
    g.max_cost = 2e5;
    Req r;
    int kind, op, first, n;
    bool ser;
    {
        RtScope s;
        r = gen_request(g);
        kind = (int)w_draw(KINDS);
        op = (int)w_draw(4);
        first = (int)w_draw(3);
        n = 1 + (int)w_draw(2);
        ser = r.ser.on && (!r.par.on || w_chance(1, 2));
        if (op == 2 && (!r.par.on || ser)) op = 0;
        if (op == 3 && (kind == RAGGED || kind == NO_ROE || kind == NO_CCD || kind == FRACTIONS)) op = 0;
    }
    std::unique_ptr<Call> ok;
    if (first == 2) {
        { RtScope s; set_context("valid call before: " + describe(r)); ok.reset(new Call(r)); }
        ok->add();
        count(FT_STATEOP);
    }
    Dir& d = ser ? r.ser : r.par;
    Dir& e = ser ? r.par : r.ser;           // the window across the clocking
    int nrow = ser ? r.cols() : r.rows(), ncol = ser ? r.rows() : r.cols(), cut = 0, longer = 0;
    {
        RtScope s;
        if (kind == PUMP_ROWS && (d.roe_type != 2 || nrow < 2)) { d.roe_type = 2; d.dwell.assign(2 * d.ph.size(), 0.1); d.n_pumps = 2; }
        if ((kind == PRESCAN || kind == OVERSCAN) && d.roe_type == 2) { d.roe_type = 0; d.dwell.resize(d.ph.size()); }
        switch (kind) {
            case NO_ROWS: case NO_COLS: case NO_ROE: case NO_CCD: case FRACTIONS: break;
            case RAGGED: cut = (int)w_draw(r.rows()); longer = (int)w_draw(2); break;
            case PHASES:
                if (w_chance(1, 2) && d.ph.size() > 1) { d.ph.pop_back(); d.frac.pop_back(); }
                else { int k = 1 + (int)w_draw(3); while (k--) { d.ph.push_back(d.ph[0]); d.frac.push_back(0.1); } }
                break;
            case PRESCAN: d.prescan = -1 - (int)w_draw(4); break;
            case OVERSCAN: d.overscan = w_pick<int>({0, -2, -3, -100}); break;
            case ODD_PUMP: d.roe_type = 2; d.dwell.assign(2 * d.ph.size() + (w_chance(1, 2) ? 1 : -1), 0.1); d.n_pumps = 2; d.w0 = 0; d.w1 = 1; break;
            case NO_PUMP: d.roe_type = 2; d.dwell.assign(2 * d.ph.size(), 0.1); d.n_pumps = -(int)w_draw(3); d.w0 = 0; d.w1 = 1; break;
            case PUMP_ROWS:
                if (nrow > 1 && w_chance(2, 3)) { d.w0 = (int)w_draw(nrow - 1); d.w1 = d.w0 + 2 + (int)w_draw(nrow - d.w0 - 1); if (d.w0 == 0 && d.w1 == nrow && w_chance(1, 2)) d.w1 = -1; }
                else d.w0 = d.w1 = (int)w_draw(nrow + 1);
                break;
            case ROWWIN: bad_window(d.w0, d.w1, nrow); break;
            case COLWIN: bad_window(e.w0, e.w1, ncol); break;
            case EXPRESS: d.express = -1 - (int)w_draw(5); break;
            case OFFSET: d.offset = -1 - (int)w_draw(5); break;
        }
        static const char* opn[] = {"add", "remove", "clock", "interface"};
        set_context(std::string(kn[kind]) + (ser ? " (serial), " : " (parallel), ") + opn[op] + (first == 2 ? ", after a valid call: " : ": ") + describe(r));
        if (kind == NO_ROWS) r.img.clear();
        if (kind == NO_COLS) for (auto& v : r.img) v.clear();
    }
    sh->phase = 1;
    try {
        if (op == 3) {
            std::unique_ptr<IfaceCall> c;
            if (kind == NO_ROWS) { RtScope s; std::vector<std::vector<double> > none; r.img.assign(1, std::vector<double>(ncol)); c.reset(new IfaceCall(r)); c->r.img.clear(); c->image.clear(); }
            else c.reset(new IfaceCall(r));
            if (kind == NO_ROWS) discard("the interface needs a number of columns");
            c->add();
        } else if (kind == FRACTIONS) {
            std::valarray<CCDPhase> p(CCDPhase(1e3, 0, 1, 0), d.ph.size());
            int k = (int)d.ph.size() + 1 + (int)w_draw(2);
            if (d.ph.size() > 1 && w_chance(1, 2)) k = (int)d.ph.size() - 1;
            std::valarray<double> f(1.0 / k, k);
            CCD c(p, f);
        } else {
            Call c(r);
            if (kind == RAGGED) {
                std::valarray<double> row(5.0, c.in[0].size() + (longer ? 1 : -1));
                if (r.rows() == 1) discard("one row is never ragged");
                c.in[cut].resize(row.size());
                c.in[cut] = row;
            }
            CCD* ccd[2] = {c.p.on ? &c.p.ccd : nullptr, c.s.on ? &c.s.ccd : nullptr};
            ROE* roe[2] = {c.p.roe.get(), c.s.roe.get()};
            if (kind == NO_ROE) roe[ser] = nullptr;
            if (kind == NO_CCD) ccd[ser] = nullptr;
            const Dir &a = r.par, &b = r.ser;
            if (op == 2)
                clock_charge_in_one_direction(c.in, roe[0], ccd[0], c.p.pic(), c.p.psc(), c.p.picc(), c.p.pscc(), a.express, a.offset, a.w0, a.w1, b.w0, b.w1, 0, -1, a.prune_n, a.prune_f, r.allow_neg, 0);
            else if (op == 1)
                remove_cti(c.in, n, roe[0], ccd[0], c.p.pic(), c.p.psc(), c.p.picc(), c.p.pscc(), a.express, a.offset, a.w0, a.w1, 0, -1, a.prune_n, a.prune_f,
                           roe[1], ccd[1], c.s.pic(), c.s.psc(), c.s.picc(), c.s.pscc(), b.express, b.offset, b.w0, b.w1, 0, -1, b.prune_n, b.prune_f, r.allow_neg);
            else
                add_cti(c.in, roe[0], ccd[0], c.p.pic(), c.p.psc(), c.p.picc(), c.p.pscc(), a.express, a.offset, a.w0, a.w1, 0, -1, a.prune_n, a.prune_f,
                        roe[1], ccd[1], c.s.pic(), c.s.psc(), c.s.picc(), c.s.pscc(), b.express, b.offset, b.w0, b.w1, 0, -1, b.prune_n, b.prune_f, r.allow_neg, 0, 0);
        }
    } catch (const std::bad_alloc&) {
        RtScope s;
        violation("the request was not recognised but needed an absurd amount of memory");
    } catch (const std::exception& x) {
        heap_check();
        count(FT_CORRUPT);
        return;
    }
    RtScope s;
    violation("the malformed request was carried out as if it were valid");
}
static void judge(int end, int code) {
    if (end != END_EXIT) return;
    RtScope s;
    if (code == 0) violation("the request was refused with exit status 0");
    if (sh->phase != 1) violation("the valid call before was refused");
    count(FT_CORRUPT);
}
static Register reg({"C19", rule, run, judge, SC_MAY_EXIT});
