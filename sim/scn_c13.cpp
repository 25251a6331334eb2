// C13: diagnostics, standard output and clocks never change the answer.
#include "model.h"
#include <fcntl.h>
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <unistd.h>
using namespace sim;
static const char* rule() { return "random request modelled silently and again at a random verbosity with input printing on or off, while seeded faults hit standard output (errors, full disk, short and interrupted writes, closed descriptor) and the clock (jumps, backward steps, stalls), on simulated threads: images must agree bit for bit and no call may fail; every elapsed time printed must be the difference of two clock readings of the call; and gettimelapsed is compared with exact integer arithmetic on seeded pairs of readings; non-trivial when a clock or output fault fired or threads interleaved"; }
static void elapsed_pairs() {
    for (int i = 0; i < 200; i++) {
        struct timeval a, b;
        a.tv_sec = w_pick<long>({0, 1, 1600000000, 12345});
        a.tv_usec = w_pick<long>({0, 999999, 1, 500000}) ;
        if (w_chance(1, 2)) a.tv_usec = w_draw(1000000);
        b.tv_sec = a.tv_sec + w_pick<long>({0, 1, -1, 2, 86400, -3600, 59});
        b.tv_usec = w_pick<long>({0, 999999, 1, 500000});
        if (w_chance(1, 2)) b.tv_usec = w_draw(1000000);
        if (w_chance(1, 8)) b.tv_usec = a.tv_usec;
        double got = gettimelapsed(a, b);
        long long us = (long long)(b.tv_sec - a.tv_sec) * 1000000 + (b.tv_usec - a.tv_usec);
        if (!(fabs(got - us * 1e-6) <= 1e-9 * (1 + fabs(us * 1e-6)))) { RtScope s; violation("elapsed time from (%ld s, %ld us) to (%ld s, %ld us) is reported as %.9g s", (long)a.tv_sec, (long)a.tv_usec, (long)b.tv_sec, (long)b.tv_usec, got); }
    }
}
static void run() {
    Gen g;
    g.continuum = 6;
    g.prune = 3;
    g.max_rows = 7; g.max_cols = 5;
    g.max_cost = 2e6;
    Req r;
    std::unique_ptr<Call> c;
    uint32_t op, mode;
    int verb, n, inputs, out_mode;
    io.on = true;
    {
        RtScope s;
        r = gen_request(g);
        op = w_draw(3);
        n = 1 + (int)w_draw(2);
        verb = (int)w_draw(4);
        inputs = (int)w_draw(3);
        mode = w_draw(4);                 // 3: capture what is printed
        out_mode = (int)w_draw(4);
        c.reset(new Call(r));
        set_context("verbosity " + std::to_string(verb) + (inputs ? " with" : " without") + " inputs printed, output mode " + std::to_string(out_mode) + (op == 1 ? ", removal, " : op == 2 ? ", one direction, " : ", ") + describe(r));
    }
    elapsed_pairs();
    auto call = [&](int v, int in) -> Image {
        c->r.verb = in;
        if (op == 1) return c->remove(n);
        if (op == 2 && r.par.on) {
            const Dir& a = r.par;
            Objs& p = c->p;
            (void)v;
            return clock_charge_in_one_direction(c->in, p.roe.get(), &p.ccd, p.pic(), p.psc(), p.picc(), p.pscc(), a.express, a.offset, a.w0, a.w1, r.ser.w0, r.ser.w1, 0, -1, a.prune_n, a.prune_f, r.allow_neg, in);
        }
        return c->add();
    };
    int was = verbosity;
    set_verbosity(0);
    sched.quiet = true;
    Image base = call(0, 0);
    sched.quiet = false;
    set_verbosity(verb);
    clk.mode = 1 + (int)w_draw(4);
    std::string file = scratch + "/out.txt";
    int keep = -1;
    if (mode == 3) {
        RtScope s;
        fflush(stdout);
        keep = dup(1);
        int fd = open(file.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        dup2(fd, 1);
        close(fd);
    } else switch (out_mode) {
        case 0: io.stdout_rate = 1; io.stdout_kinds = IO_EIO | IO_ENOSPC; break;
        case 1: io.stdout_rate = 2; io.stdout_kinds = IO_EIO | IO_ENOSPC | IO_SHORT | IO_EINTR; break;
        case 2: io.stdout_rate = 2; io.stdout_kinds = IO_SHORT | IO_EINTR; break;
        default: if (w_chance(1, 2)) { close(1); count(FT_STDOUT); } break;
    }
    if (w_chance(1, 4)) setvbuf(stdout, nullptr, _IONBF, 0);
    clock_log_n = 0;
    Image im = call(verb, inputs);
    int reads = clock_log_n;
    if (verb >= 1 && w_chance(1, 2)) print_array_2D(im);
    fflush(stdout);
    clk.mode = 0;
    io.stdout_rate = 0;
    if (verbosity != verb) { RtScope s; violation("the call changed the verbosity from %d to %d", verb, verbosity); }
    set_verbosity(was);
    hash_image(im);
    RtScope s;
    std::string d = diff_bits(im, base);
    if (!d.empty()) violation("the image depends on verbosity, output or clock: %s", d.c_str());
    for (int i = 0; i < r.rows(); i++) if (memcmp(&c->in[i][0], r.img[i].data(), 8 * r.cols())) violation("the input image changed while printing");
    if (mode != 3) return;
    dup2(keep, 1);
    close(keep);
    FILE* f = fopen(file.c_str(), "r");
    static char line[1 << 16];
    int lines = 0;
    while (f && fgets(line, sizeof line, f)) {
        char* p = strstr(line, "time elapsed:");
        if (!p) continue;
        double v = strtod(p + 13, nullptr);
        lines++;
        bool ok = false;
        for (int i = 0; i < reads && !ok; i++)
            for (int j = i + 1; j < reads && !ok; j++) {
                double e = (clock_log[j] - clock_log[i]) * 1e-6;
                ok = fabs(v - e) <= 6e-4 * fabs(e) + 1e-12;
            }
        if (!ok && reads < 256) violation("the elapsed time printed (%g s) is not the time between two clock readings of the call", v);
    }
    if (f) fclose(f);
    hash_u64(lines);
}
static Register reg({"C13", rule, run, nullptr, SC_IO});
