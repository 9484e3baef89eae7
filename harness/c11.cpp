// C11: max pooling
#include "layers.hpp"
using namespace h;
template <class T> T least() { return std::is_integral<T>::value ? std::numeric_limits<T>::lowest() : -std::numeric_limits<T>::infinity(); }
template <class T> void run(Rng& g) {
    using Pool = smart_dnn::MaxPooling2DLayer<T>;
    const bool big = g.chance(0.016);
    int k = big ? g.range(1, 9) : g.range(1, 4), st = g.range(1, 5), pad = g.range(0, k - 1);
    int form = g.range(0, 3);
    if (form == 0) { st = k; pad = 0; } else if (form == 1) pad = 0;
    std::unique_ptr<Pool> L(form == 0 ? new Pool(k) : form == 1 ? new Pool(k, st) : new Pool(k, st, pad));
    int passes = g.range(1, 3);
    for (int p = 0; p < passes; ++p) {
        int N = g.range(1, 2), C = g.range(1, 3), H = g.range(1, 7), W = g.range(1, 7);
        if (big) { N = g.one({1, 2, 9}); C = g.one({1, 2, 17, 33}); H = g.range(5, 34); W = g.range(5, 34); if (N * C > 20) { H = g.range(5, 12); W = g.range(5, 12); } R.event("large-geometries");
            if (g.chance(0.25)) { N = C = 1; H = g.range(1, 4); W = g.range(60, 300); if (g.chance(0.5)) std::swap(H, W); R.event("long-images"); } }
        Dims dx{N, C, H, W};
        R.desc = cat("maxpool ", tname<T>(), " ", k, " stride ", st, " padding ", pad, " on ", show(dx));
        auto outSize = [&](int n) { int s = n + 2 * pad - k; return s < 0 ? 0 : s / st + 1; };
        int OH = outSize(H), OW = outSize(W);
        std::vector<T> x;
        int style = g.chance(0.12) ? 5 : g.range(0, 4);
        if (style == 0) x.assign(prod(dx), T(g.range(-3, 3)));                                        // constant
        else if (style == 1) { x = randVec<T>(g, prod(dx), NORMAL); for (T& q : x) q = -std::abs(q) - T(1); } // all negative
        else if (style == 2) { x.resize(prod(dx)); for (T& q : x) q = T(g.range(0, 2)); }              // ties
        else if (style == 3) { x.resize(prod(dx)); for (T& q : x) q = std::is_integral<T>::value ? T(-double(std::numeric_limits<T>::max()) * g.uni()) : -T(std::pow(10.0, g.uni(10, 30))); } // very negative
        else if (style == 5) { // masked: most of the image, often whole windows, is the least value there is
            double p = g.one({0.5, 0.9, 1.0}); x = randVec<T>(g, prod(dx), NORMAL); for (T& q : x) if (g.chance(p)) q = least<T>();
        }
        else x = randVec<T>(g, prod(dx), WIDE);
        Ten<T> X = mk<T>(dx, x);
        if (!OH || !OW) { R.event("too-small"); mustThrow("maxpool:too-small", R.desc, [&] { L->forward(X); }); continue; }
        R.event(cat("style-", style));
        if (st < k) R.event("overlapping"); if (st > k) R.event("gaps"); if (pad) R.event("padded");
        R.nontrivial(hashV(dx, x, hashS(R.desc)));
        Snap<T> sx(X);
        Dims dy{N, C, OH, OW};
        std::vector<T> y(prod(dy), least<T>());
        std::vector<std::set<size_t>> win(y.size()); // the positions attaining each window's maximum
        Dims i(4, 0); size_t f = 0;
        do {
            for (int pass = 0; pass < 2; ++pass) for (int a = 0; a < k; ++a) for (int b = 0; b < k; ++b) {
                int r = i[2] * st + a - pad, c = i[3] * st + b - pad;
                if (r < 0 || r >= H || c < 0 || c >= W) continue;
                size_t ix = ravel({i[0], i[1], r, c}, dx);
                if (!pass) y[f] = std::max(y[f], x[ix]); else if (x[ix] == y[f]) win[f].insert(ix);
            }
            if (win[f].size() > 1) R.event("ties");
            if (y[f] == least<T>()) R.event("least-only-windows");
            ++f;
        } while (next(i, dy));
        sameExact("maxpool:forward", L->forward(X), dy, y);
        sx.check("maxpool:input-changed");
        // one window at a time
        std::vector<size_t> route(y.size());
        bool ok = true;
        bool known = true; // large images: a sample of the windows, the others only where the maximum is unique
        const bool few = double(y.size()) * x.size() > 1e5;
        for (size_t q = 0; q < y.size() && ok; ++q) {
            if (few && q + 1 != y.size() && !g.chance(20.0 / y.size())) { route[q] = *win[q].begin(); if (win[q].size() > 1) known = false; continue; }
            std::vector<T> u(y.size(), T(0)); u[q] = T(1);
            auto r = L->backward(mk<T>(dy, u));
            R.eval(); R.event("windows-routed");
            if (dimsOf(r) != dx) { R.fail("maxpool:gradient-shape", show(dimsOf(r))); return; }
            size_t hits = 0;
            for (size_t j = 0; j < x.size(); ++j) if (r[j] != T(0)) { ++hits; route[q] = j; if (r[j] != T(1)) ok = false; }
            if (hits != 1 || !ok) { R.fail("maxpool:route-count", cat("the gradient of window ", q, " reached ", hits, " positions")); ok = false; }
            else if (!win[q].count(route[q])) { R.fail("maxpool:route-target", cat("the gradient of window ", q, " went to position ", route[q], " which does not hold its maximum")); ok = false; }
        }
        if (!ok) return;
        if (!known) continue;
        auto u = randVec<T>(g, y.size(), g.one({INTS, NORMAL}));
        Ten<T> U = mk<T>(dy, u);
        Snap<T> su(U);
        std::vector<ld> want(x.size()), mag(x.size()), tol(x.size());
        for (size_t q = 0; q < y.size(); ++q) { want[route[q]] += u[q]; mag[route[q]] += fabsl(ld(u[q])); }
        for (size_t j = 0; j < x.size(); ++j) tol[j] = mag[j] * EPS<T> * (k * k + 4);
        for (int t = 0; t < 2; ++t) same("maxpool:backward", L->backward(U), dx, want, tol);
        R.event("backward");
        su.check("maxpool:gradient-changed");
        R.sample(cat("style", style, pad ? "-padded" : ""), cat(R.desc, " -> ", show(dy), " first maximum ", double(y[0])));
    }
    if (g.chance(0.3)) {
        R.event("wrong-rank");
        for (Dims d : {Dims{4}, Dims{5, 5}, Dims{1, 6, 6}, Dims{1, 1, 1, 6, 6}}) { Ten<T> bad(Shape(d), T(1)); mustThrow("maxpool:rank", show(d), [&] { L->forward(bad); }); }
    }
}
int main(int c, char** v) { return mainLoop(c, v, [](Rng& g, u64) { int t = g.range(0, 19); if (t < 2) { R.event("integers"); run<int>(g); } else if (t < 11) run<float>(g); else run<double>(g); }); }
