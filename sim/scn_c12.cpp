// C12: image text files under storage faults.
#include "model.h"
#include "rt_int.h"
#include <fcntl.h>
#include <math.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace sim;
static const char* rule() { return "an image (1x1 to 14x14, now and then 0 rows or 0 columns or up to 8500 columns or rows, values of all magnitudes) is saved and/or loaded through the simulated file system, which injects full disks, write, close, open and read errors, short and interrupted transfers and crashes at seeded calls; or a file that is missing, cut at a seeded byte, or has a damaged header or value is loaded; a second process then compares the file and the exit status with what an independent parser finds; non-trivial when a fault fired or a file was damaged"; }
namespace {
enum { M_SAVE, M_ROUND, M_LOAD, M_BAD, M_CRASH };
struct Case {
    int mode = 0, what = 0;
    std::vector<std::vector<double> > img;
    std::string text, path;      // text: content of the file before the call ("" and !exists: none)
    bool exists = false, dir = false;
    int faults = 0;
    std::string desc;
};
std::string fmt(const std::vector<std::vector<double> >& v) {
    char b[512];
    snprintf(b, sizeof b, "%zu %zu \n", v.size(), v.empty() ? 0 : v[0].size());
    std::string s = b;
    for (auto& r : v) { for (double x : r) { snprintf(b, sizeof b, "%.6f ", x); s += b; } s += "\n"; }
    return s;
}
std::vector<std::string> tokens(const std::string& s) {
    std::vector<std::string> t;
    std::string w;
    for (char c : s + " ") if (c == ' ' || c == '\n' || c == '\t' || c == '\r') { if (!w.empty()) t.push_back(w); w.clear(); } else w += c;
    return t;
}
bool num(const std::string& t, double* v) { char* e; *v = strtod(t.c_str(), &e); return !t.empty() && *e == 0; }
bool whole(const std::string& t, long* v) { char* e; *v = strtol(t.c_str(), &e, 10); return !t.empty() && *e == 0; }
// 2: holds exactly this image; 1: cannot be told from a file whose last number was longer; 0: not a complete image
int classify(const std::string& s, std::vector<std::vector<double> >& out) {
    std::vector<std::string> t = tokens(s);
    long R, C;
    if (t.size() < 2 || !whole(t[0], &R) || !whole(t[1], &C) || R < 0 || C < 0) return 0;
    if (R > 1000000 || C > 1000000 || t.size() < 2 + (size_t)R * C) return 0;
    out.assign(R, std::vector<double>(C, 0.0));
    for (long k = 0; k < R * C; k++)
        if (!num(t[2 + k], &out[k / C][k % C])) return k == R * C - 1 && out[k / C][k % C] != 0 ? 1 : 0;
    bool open_end = t.size() == 2 + (size_t)R * C && !s.empty() && !strchr(" \n", s.back());
    return open_end ? 1 : 2;
}
Case gen() {
    Case c;
    c.mode = (int)w_draw(5);
    c.path = scratch + "/image.txt";
    int R = w_int(1, 14), C = w_int(1, 14);
    if (w_chance(1, 20)) { R = 70; C = 50; }
    if (w_chance(1, 40)) { R = 1 + (int)w_draw(3); C = 500 + (int)w_log(1, 8000); if (w_chance(1, 4)) std::swap(R, C); }
    if (w_chance(1, 12)) { if (w_chance(1, 2)) R = 0; else C = 0; if (!R) C = 0; }
    c.img.assign(R, std::vector<double>(C, 0.0));
    int style = (int)w_draw(4);
    for (auto& r : c.img)
        for (auto& x : r) {
            x = style == 0 ? w_draw(1000) : style == 1 ? ((double)w_draw(2000001) - 1000000) * 1e-4 : w_pick<double>({0, 1.5e15, -3.25e-5, 123456.789012, 1e-7, -200, 84700, 1e22, -1e-9, 4.9999995});
            if (style == 3 && w_chance(1, 50)) x = 1e200;
        }
    c.desc = std::to_string(R) + "x" + std::to_string(C);
    if (c.mode <= M_ROUND || c.mode == M_CRASH) {
        if (w_chance(1, 3)) {           // an older file is overwritten
            c.exists = true;
            for (int k = 0; k < 400; k++) c.text += "9 9 777.0 \n";
            c.desc += " over an older file";
        }
    } else { c.exists = true; c.text = fmt(c.img); }
    if (c.mode == M_BAD) {
        c.what = (int)w_draw(9);
        std::vector<std::string> t = tokens(c.text);
        auto join = [&]() { c.text.clear(); for (size_t i = 0; i < t.size(); i++) c.text += t[i] + (i == 1 ? " \n" : " "); };
        switch (c.what) {
            case 0: c.text.resize(w_draw((uint32_t)c.text.size())); c.desc += " cut to " + std::to_string(c.text.size()) + " bytes"; break;
            case 1: c.exists = false; c.desc += " missing file"; break;
            case 2: if (t.size() > 2) { size_t k = 2 + w_draw((uint32_t)t.size() - 2); t[k] = w_pick<const char*>({"abc", "--", "?", "x7"}); join(); c.desc += " damaged value"; } break;
            case 3: t[w_draw(2)] = w_pick<const char*>({"-3", "-1", "-2147483648"}); join(); c.desc += " negative size"; break;
            case 4: t[w_draw(2)] = w_pick<const char*>({"abc", "", "#"}); join(); c.desc += " unreadable size"; break;
            case 5: t[0] = std::to_string(R + 1 + w_draw(3)); if (C == 0) t[1] = "2"; join(); c.desc += " more rows announced"; break;
            case 6: if (t.size() > 2) { t.erase(t.begin() + 2 + w_draw((uint32_t)t.size() - 2)); join(); c.desc += " value missing"; } break;
            case 7: t[0] = w_pick<const char*>({"1000000000", "2147483647"}); t[1] = w_pick<const char*>({"1000000000", "1", "2147483647"}); join(); c.desc += " enormous size"; break;
            case 8: if (w_chance(1, 2)) { c.text.clear(); c.desc += " empty file"; } else { c.dir = true; c.desc += " a directory"; } break;
        }
        if (c.what == 2 || c.what == 0) if (w_chance(1, 3) && c.text.size()) { c.text[w_draw((uint32_t)c.text.size())] = w_pick<char>({'?', '#', 'q'}); c.desc += " damaged byte"; }
    }
    c.faults = (int)w_draw(6);
    if (c.mode == M_BAD) c.faults = 0;
    static const char* mn[] = {"save", "save then load", "load", "load bad file", "save and crash"};
    c.desc = std::string(mn[c.mode]) + " " + c.desc + " faults " + std::to_string(c.faults);
    return c;
}
void put(const Case& c) {
    if (c.dir) { mkdir(c.path.c_str(), 0700); return; }
    if (!c.exists) return;
    FILE* f = fopen(c.path.c_str(), "w");
    fwrite(c.text.data(), 1, c.text.size(), f);
    fclose(f);
}
bool get(const std::string& path, std::string& s) {
    FILE* f = fopen(path.c_str(), "r");
    if (!f) return false;
    char b[65536];
    size_t n;
    s.clear();
    while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
    fclose(f);
    return true;
}
// "" or the first difference
std::string differ(const std::vector<std::vector<double> >& a, const std::vector<std::vector<double> >& b, double abs, bool ignore_last) {
    char m[200];
    size_t ca = a.empty() ? 0 : a[0].size(), cb = b.empty() ? 0 : b[0].size();
    if (a.size() != b.size() || ca != cb) { snprintf(m, sizeof m, "shape %zux%zu instead of %zux%zu", a.size(), ca, b.size(), cb); return m; }
    for (size_t i = 0; i < a.size(); i++)
        for (size_t j = 0; j < ca; j++) {
            if (ignore_last && i + 1 == a.size() && j + 1 == ca) continue;
            if (!(fabs(a[i][j] - b[i][j]) <= abs + 1e-14 * fabs(b[i][j]))) { snprintf(m, sizeof m, "value [%zu][%zu] is %.17g instead of %.17g", i, j, a[i][j], b[i][j]); return m; }
        }
    return "";
}
std::vector<std::vector<double> > vec(const Image& im) {
    std::vector<std::vector<double> > v;
    for (auto& r : im) v.emplace_back(std::begin(r), std::end(r));
    return v;
}
const double PREC = 5.1e-7;
}
static void run() {
    Case c;
    Image im;
    io.on = false;
    { RtScope s; c = gen(); put(c); set_context(c.desc); if (c.mode == M_BAD) count(FT_CORRUPT); }
    { im = to_image(c.img); }
    static const uint32_t hardw = IO_EIO | IO_ENOSPC | IO_SHORT | IO_EINTR | IO_CLOSE | IO_OPEN | IO_EINTROPEN;
    if (c.mode == M_SAVE || c.mode == M_CRASH) switch (c.faults) {
        case 0: io.disk_limit = w_draw(400); break;
        case 1: io.rate = 2; io.kinds = hardw; break;
        case 2: io.rate = 3; io.kinds = IO_SHORT; break;
        case 3: io.fail_from = 1 + w_draw(4); break;
        case 4: io.rate = 1; io.kinds = IO_CLOSE | IO_EIO; break;
        case 5: io.disk_limit = c.mode == M_SAVE ? (int64_t)w_draw(9000) : -1; break;
    }
    if (c.mode == M_CRASH) { io.disk_limit = -1; io.rate = 3; io.kinds = IO_SHORT; io.fail_from = 0; io.crash_at = 1 + w_draw(6); }
    if (c.mode == M_ROUND) { io.rate = 2; io.kinds = IO_SHORT | IO_SHORTREAD; }
    if (c.mode == M_LOAD) { io.rate = c.faults < 3 ? 2 : 6; io.kinds = c.faults % 2 ? IO_READERR | IO_SHORTREAD | IO_OPEN | IO_EINTROPEN : IO_SHORTREAD; }
    io.on = true;
    const char* path = c.path.c_str();
    if (c.mode == M_SAVE || c.mode == M_CRASH) { save_image_to_txt(path, im); io.on = false; sh->phase = 1; return; }
    if (c.mode == M_ROUND) {
        save_image_to_txt(path, im);
        sh->phase = 1;
        Image back = load_image_from_txt(path);
        sh->phase = 2;
        RtScope s;
        std::string d = differ(vec(back), c.img, PREC, false);
        if (!d.empty()) violation("a saved image does not load back: %s", d.c_str());
        return;
    }
    Image got = load_image_from_txt(path);
    io.on = false;
    sh->phase = 2;
    hash_image(got);
    RtScope s;
    std::vector<std::vector<double> > want;
    if (c.dir || !c.exists) violation("loading a file that does not exist returned an image");
    int k = classify(c.text, want);
    if (!k) violation("loading an incomplete or malformed file returned an image of %zu rows", (size_t)got.size());
    if (io_hard_open_faults) violation("the file could not be opened but an image was returned");
    std::string d = differ(vec(got), want, 1e-12, k == 1);
    if (!d.empty()) violation("the loaded image is not what the file holds: %s", d.c_str());
}
static void judge_hook(int) { sh->status = END_OK; die_now(); }
static void judge(int end, int code) {
    RtScope s;
    Case c = gen();
    uint64_t hard = sh->stat[FT_IO_EIO] + sh->stat[FT_IO_ENOSPC] + sh->stat[FT_IO_EINTR] + sh->stat[FT_IO_OPEN] + sh->stat[FT_IO_CLOSE] + sh->stat[FT_IO_READ];
    std::vector<std::vector<double> > want, held;
    if (end == END_EXIT || end == END_TERMINATE) {
        if (end == END_EXIT && code == 0) violation("the failure was not reported: exit status 0");
        if (end == END_TERMINATE && !(c.mode == M_BAD && c.what == 7)) violation("terminated instead of reporting the failure");
        if (c.mode == M_BAD) {
            if (!c.dir && c.exists && classify(c.text, want) == 2) violation("a complete file was refused");
        } else if (!hard) violation("the operation failed although every transfer succeeded or could be continued");
        if (c.mode == M_CRASH && !hard) violation("failed");
        return;
    }
    if (c.mode != M_SAVE && c.mode != M_CRASH) return;
    std::string text;
    bool there = get(c.path, text);
    if (end == END_OK) {
        if (!there) violation("the image was reported as saved but there is no file");
        if (!classify(text, held)) violation("the image was reported as saved but the file is incomplete (%zu bytes)", text.size());
        std::string d = differ(held, c.img, PREC, false);
        if (!d.empty()) violation("the saved file does not hold the image: %s", d.c_str());
        return;
    }
    // after the crash: what is left loads completely or is refused
    if (!there) return;
    int k = classify(text, want);
    exit_hook = judge_hook;
    g_on = true;
    rt_depth--;
    Image got = load_image_from_txt(c.path.c_str());
    rt_depth++;
    if (!k) violation("an incomplete file left by a crash was loaded");
    std::string d = differ(vec(got), want, 1e-12, k == 1);
    if (!d.empty()) violation("after a crash the loaded image is not what the file holds: %s", d.c_str());
}
static Register reg({"C12", rule, run, judge, SC_IO | SC_MAY_EXIT | SC_MAY_TERMINATE});
