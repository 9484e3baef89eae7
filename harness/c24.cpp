// C24: the MNIST loader on generated, truncated and corrupted files
#include "common.hpp"
#include <fstream>
#include <iostream>
#include "smart_dnn/Datasets/MNistLoader.hpp"
using namespace h;
static std::string dir() { const char* s = getenv("SCRATCH"); return s ? s : "/tmp"; }
static void put(const std::string& p, const std::string& b) { std::ofstream f(p, std::ios::binary | std::ios::trunc); f.write(b.data(), b.size()); f.close(); if (!f) { fprintf(stderr, "cannot write %s\n", p.c_str()); exit(2); } }
static std::string be(uint32_t x) { return {char(x >> 24), char(x >> 16), char(x >> 8), char(x)}; }
struct Files {
    int n, r, c; std::vector<unsigned char> px, lb;
    uint32_t im = 2051, lm = 2049; int64_t icount = -1, lcount = -1, rows = -1, cols = -1;
    std::string images() const { std::string s = be(im) + be(uint32_t(icount < 0 ? n : icount)) + be(uint32_t(rows < 0 ? r : rows)) + be(uint32_t(cols < 0 ? c : cols)); s.append(px.begin(), px.end()); return s; }
    std::string labels() const { std::string s = be(lm) + be(uint32_t(lcount < 0 ? n : lcount)); s.append(lb.begin(), lb.end()); return s; }
};
static Files make(Rng& g, int maxN, int maxDim) {
    Files f; f.n = g.range(0, maxN); f.r = g.range(1, maxDim); f.c = g.chance(0.5) ? f.r : g.range(1, maxDim);
    if (g.chance(0.15)) { f.r = f.c = 28; f.n = std::min(f.n, 5); }
    f.px.resize(size_t(f.n) * f.r * f.c); for (auto& p : f.px) p = (unsigned char)(g.chance(0.2) ? g.one({0, 255, 254, 1, 10, 13, 26, 128, 127}) : g.range(0, 255));
    f.lb.resize(f.n); for (auto& l : f.lb) l = (unsigned char)g.range(0, 9);
    return f;
}
template <class T> using Data = std::pair<std::vector<Ten<T>>, std::vector<Ten<T>>>;
// the data of want samples of f
template <class T> bool judge(const std::string& key, const Data<T>& d, const Files& f, int want, int batch) {
    size_t nb = want / batch + (want % batch > 0);
    R.eval();
    if (d.first.size() != nb) { R.fail(key + ":image-batches", cat(d.first.size(), " instead of ", nb)); return false; }
    if (d.second.size() != nb) { R.fail(key + ":label-batches", cat(d.second.size(), " instead of ", nb)); return false; }
    for (size_t b = 0; b < nb; ++b) {
        int at = int(b) * batch, k = std::min(batch, want - at);
        std::vector<ld> px, lb(size_t(k) * 10, 0);
        size_t sz = size_t(f.r) * f.c;
        for (size_t i = at * sz; i < (at + k) * sz; ++i) px.push_back(f.px[i] / 255.0L);
        for (int j = 0; j < k; ++j) lb[j * 10 + f.lb[at + j]] = 1;
        std::vector<ld> tol(px.size()); for (size_t i = 0; i < px.size(); ++i) tol[i] = 2 * EPS<T> * px[i];
        if (!same(key + ":images", d.first[b], {k, 1, f.r, f.c}, px, tol)) return false;
        if (!same(key + ":labels", d.second[b], {k, 10}, lb, std::vector<ld>(lb.size(), 0))) return false;
        R.event("batches"); if (k < batch) R.event("short-last-batches");
    }
    return true;
}
template <class T> Data<T> load(const std::string& i, const std::string& l, int batch, int num) { smart_dnn::MNISTLoader<T> L(i, l, batch, num); return L.loadData(); }
template <class T> void ascii(Rng& g, const Files& f, Ten<T> img, std::map<int, char>& map) {
    smart_dnn::MNISTLoader<T> L("none", "none");
    Dims d = dimsOf(img);
    std::string s = L.toAsciiArt(img);
    std::vector<std::string> lines; std::istringstream is(s); std::string line; while (std::getline(is, line)) lines.push_back(line);
    R.eval();
    if (lines.size() != 28) { R.fail("ascii:lines", cat(lines.size())); return; }
    auto v = vals(img);
    static const std::string ramp = " .:-=+*#%@";
    for (int i = 0; i < 28; ++i) {
        if (lines[i].size() != 28) { R.fail("ascii:line-length", cat(lines[i].size())); return; }
        for (int j = 0; j < 28; ++j) {
            int p = int(std::lround(double(v[i * 28 + j]) * 255)); char c = lines[i][j];
            if (ramp.find(c) == std::string::npos) { R.fail("ascii:character", cat("character ", int(c))); return; }
            if (map.count(p) && map[p] != c) { R.fail("ascii:same-pixel-different-character", cat("pixel ", p)); return; }
            map[p] = c;
        }
    }
    size_t last = 0; for (auto& e : map) { size_t k = ramp.find(e.second); if (k < last) { R.fail("ascii:not-monotone", cat("pixel ", e.first)); return; } last = k; }
    if (map.count(0) && map.count(255) && map[0] == map[255]) R.fail("ascii:no-contrast", "");
    R.event("ascii-art"); (void)f; (void)g; (void)d;
}
template <class T> void run(Rng& g, u64 c) {
    std::string I = dir() + "/images", L = dir() + "/labels";
    int mode = int(c % 8);
    if (mode <= 2) { // well formed
        Files f = make(g, g.chance(0.2) ? 60 : 9, 12);
        if (g.chance(0.008)) { // more samples, or larger images, than fit a byte or two
            f.r = 1; f.c = 1; f.n = g.chance(0.3) ? g.range(65536, 70000) : int(bigSize(g, 70000));
            if (g.chance(0.5)) { f.n = g.range(1, 3); f.r = g.range(1, 70); f.c = g.one({255, 256, 257, 300, 1000}); if (g.chance(0.5)) std::swap(f.r, f.c); }
            f.px.resize(size_t(f.n) * f.r * f.c); for (auto& p : f.px) p = (unsigned char)g.range(0, 255);
            f.lb.resize(f.n); for (auto& l : f.lb) l = (unsigned char)g.range(0, 9);
            R.event("large-files");
        }
        int batch = g.chance(0.1) ? g.one({INT_MAX, 1000, 2 * f.n + 1}) : f.n > 100 ? g.one({64, 1000, f.n, f.n / 2 + 1, 65536}) : g.range(1, f.n + 3), num = g.chance(0.5) ? -1 : g.range(0, f.n);
        R.desc = cat(f.n, " images of ", f.r, "x", f.c, ", batches of ", batch, ", ", num, " requested, ", tname<T>());
        put(I, f.images()); put(L, f.labels());
        if (!judge<T>("load", load<T>(I, L, batch, num), f, num < 0 ? f.n : num, batch)) return;
        smart_dnn::MNISTLoader<T> twice(I, L, batch, num); // the same loader again
        twice.loadData(); if (!judge<T>("second-load", twice.loadData(), f, num < 0 ? f.n : num, batch)) return;
        R.event("loads"); if (num >= 0) R.event("some-requested"); if (f.r != f.c) R.event("rectangular"); if (num == 0 || f.n == 0) R.event("empty");
        R.sample("well formed", R.desc); R.nontrivial(R.desc + cat(hashV(Dims{}, f.px)));
        if (f.n < 50) { // more requested than there are
            int k = f.n + g.range(1, 5);
            mustThrow("too-many-requested", R.desc + cat(", ", k, " requested"), [&] { load<T>(I, L, batch, k); });
        }
    } else if (mode == 3) { // every truncation of both files
        Files f = make(g, 4, 3); if (!f.n) f.n = 1, f.px.assign(f.r * f.c, 7), f.lb.assign(1, 3);
        if (f.r == 28) { f.r = f.c = 2; f.px.resize(f.n * 4); }
        int batch = g.range(1, f.n + 1), num = g.chance(0.5) ? -1 : g.range(1, f.n), want = num < 0 ? f.n : num;
        std::string im = f.images(), lb = f.labels();
        for (int which = 0; which < 2; ++which) {
            const std::string& whole = which ? lb : im;
            size_t need = which ? 8 + want : 16 + size_t(want) * f.r * f.c;
            put(I, im); put(L, lb);
            for (size_t cut = 0; cut < whole.size(); ++cut) {
                put(which ? L : I, whole.substr(0, cut));
                R.desc = cat(which ? "label" : "image", " file of ", whole.size(), " bytes cut to ", cut, "; ", f.n, " images of ", f.r, "x", f.c, ", batches of ", batch, ", ", num, " requested");
                R.event("truncations");
                if (cut < need) mustThrow("truncated-accepted", R.desc, [&] { load<T>(I, L, batch, num); });
                else { Data<T> d; bool ok = !throws([&] { d = load<T>(I, L, batch, num); }); if (ok) { R.event("enough-despite-truncation"); if (!judge<T>("truncated-load", d, f, want, batch)) return; } }
            }
        }
        R.sample("truncation", R.desc); R.nontrivial(R.desc + cat(hashV(Dims{}, f.px)));
    } else if (mode == 4) { // corrupted headers
        Files f = make(g, 6, 6); if (!f.n) return;
        std::string what;
        auto number = [&](std::initializer_list<uint32_t> l) { return g.chance(0.3) ? uint32_t(g.next()) : g.one(l); };
        bool certain = true; // the change makes the file malformed
        switch (g.range(0, 5)) {
        case 0: do f.im = g.chance(0.5) ? 2051 ^ (1u << g.range(0, 31)) : number({2049, 0, 50855936, 2052, 2050}); while (f.im == 2051); what = cat("image magic ", f.im); break;
        case 1: do f.lm = g.chance(0.5) ? 2049 ^ (1u << g.range(0, 31)) : number({2051, 0, 17301504, 2048}); while (f.lm == 2049); what = cat("label magic ", f.lm); break;
        case 2: f.rows = number({0, 0xffffffffu, 0x80000000u, 65536, 0x7fffffff, 46341, uint32_t(f.r + 1)}); what = cat("rows ", f.rows); certain = int64_t(int32_t(f.rows)) < 1 || f.rows > f.r; break;
        case 3: f.cols = number({0, 0xffffffffu, 0x80000000u, 65536, 0x7fffffff, 46341, uint32_t(f.c + 1)}); what = cat("columns ", f.cols); certain = int64_t(int32_t(f.cols)) < 1 || f.cols > f.c; break;
        case 4: f.rows = g.one({65536u, 0x80000000u, 0xffffffffu, 0x10000u, 0x7fffffffu}); f.cols = g.one({65536u, 2u, 0x80000000u, 0xffffffffu, 0x7fffffffu}); what = cat("rows ", f.rows, " columns ", f.cols); break;
        default: { uint32_t k = number({0xffffffffu, 0x80000000u, 0x7fffffffu, uint32_t(f.n + 1), 1u << 24}); if (k <= uint32_t(f.n)) k = f.n + 1; if (g.chance(0.5)) f.icount = k; else f.lcount = k; what = cat(f.icount < 0 ? "labels announced " : "images announced ", k); }
        }
        int batch = g.range(1, f.n + 2);
        R.desc = cat(f.n, " images of ", f.r, "x", f.c, " with ", what); R.sample("header", R.desc);
        put(I, f.images()); put(L, f.labels());
        if (certain) { R.event("corrupt-headers"); mustThrow("corrupt-header-accepted", R.desc, [&] { load<T>(I, L, batch, -1); }); }
        else throws([&] { load<T>(I, L, batch, -1); });
        R.nontrivial(R.desc);
    } else if (mode == 5) { // labels above 9
        Files f = make(g, 9, 4); if (!f.n) return;
        int k = g.range(0, f.n - 1), num = g.chance(0.5) ? -1 : g.range(0, f.n), want = num < 0 ? f.n : num, batch = g.range(1, f.n + 1);
        f.lb[k] = (unsigned char)g.one({10, 11, 255, 128, 200, 48, 57});
        R.desc = cat("label ", int(f.lb[k]), " at ", k, " of ", f.n, ", ", num, " requested"); R.sample("label", R.desc);
        put(I, f.images()); put(L, f.labels());
        if (k < want) { R.event("bad-labels"); mustThrow("bad-label-accepted", R.desc, [&] { load<T>(I, L, batch, num); }); }
        else throws([&] { load<T>(I, L, batch, num); });
        R.nontrivial(R.desc);
    } else if (mode == 6) { // missing files
        Files f = make(g, 3, 4);
        put(I, f.images()); put(L, f.labels());
        std::string none = dir() + "/absent"; R.desc = "missing file";
        mustThrow("missing-images-accepted", none, [&] { load<T>(none, L, 1, -1); });
        mustThrow("missing-labels-accepted", none, [&] { load<T>(I, none, 1, -1); });
        mustThrow("empty-path-accepted", "", [&] { load<T>("", L, 1, -1); });
        mustThrow("swapped-files-accepted", "", [&] { load<T>(L, I, 1, -1); });
        R.event("missing-files");
    } else { // text rendering
        Files f; f.n = g.range(1, 3); f.r = f.c = 28; f.px.resize(f.n * 784); f.lb.assign(f.n, 1);
        for (size_t i = 0; i < f.px.size(); ++i) f.px[i] = (unsigned char)(g.chance(0.3) ? i % 256 : g.chance(0.2) ? g.one({0, 255}) : g.range(0, 255));
        put(I, f.images()); put(L, f.labels()); R.desc = "ascii art";
        auto d = load<T>(I, L, f.n, -1);
        std::map<int, char> map;
        ascii(g, f, d.first[0], map);
        auto v = vals(d.first[0]); v.resize(784);
        ascii(g, f, mk(Dims{28, 28}, v), map); ascii(g, f, mk(Dims{1, 28, 28}, v), map);
        std::vector<T> levels(784); for (int i = 0; i < 784; ++i) levels[i] = T(i % 256) / T(255);
        ascii(g, f, mk(Dims{1, 1, 28, 28}, levels), map);
        R.nontrivial(hashV(Dims{}, f.px));
    }
}
int main(int argc, char** argv) {
    return mainLoop(argc, argv, [](Rng& g, u64 c) {
        std::ostringstream sink; auto* old = std::cout.rdbuf(sink.rdbuf());
        struct Back { std::streambuf* o; ~Back() { std::cout.rdbuf(o); } } back{old};
        if (g.chance(0.5)) run<float>(g, c); else run<double>(g, c);
    });
}
