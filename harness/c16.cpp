// C16: losses against long double formulas.
#include "common.hpp"
#include "smart_dnn/Loss/MSELoss.hpp"
#include "smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp"
using namespace h;

template <class T> void mseCase(Rng& g) {
    Dims d = g.chance(0.3) ? Dims{g.range(1, 40), 1} : g.chance(0.03) ? Dims{g.range(20, 60), g.range(20, 60)} : anyDims(g, 1, 4, 7, 600, 0.002);
    if (prod(d) > 4000) R.event("mse-beyond-4000-elements");
    size_t n = prod(d);
    Kind k = randKind(g);
    auto pv = randVec<T>(g, n, k), tv = randVec<T>(g, n, k);
    if (g.chance(0.1)) for (size_t i = 0; i < n; ++i) if (g.chance(0.7)) tv[i] = pv[i];
    R.desc = cat("MSE<", tname<T>(), "> ", show(d), " p=", showv(pv), " t=", showv(tv));
    R.sample("mse", R.desc);
    R.nontrivial(hashV(d, tv, hashV(d, pv, sizeof(T))));
    auto p = mk(d, pv), t = mk(d, tv);
    ld sum = 0; std::vector<ld> gr(n), tol(n);
    for (size_t i = 0; i < n; ++i) {
        ld e = ld(pv[i]) - ld(tv[i]); sum += e * e;
        gr[i] = 2 * e / n; tol[i] = 10 * EPS<T> * fabsl(gr[i]) + 4 * TINY<T>;
    }
    auto judge = [&](const std::string& key, smart_dnn::MSELoss<T>& L, const Ten<T>& p, const Ten<T>& t) {
        Snap<T> sp(p), st(t);
        auto v = L.compute(p, t);
        R.eval();
        if (v.getShape().size() != 1) R.fail(key + ":value-shape", show(dimsOf(v)));
        else { ld got = vals(v)[0]; if (!close(got, sum / n, (n + 8) * EPS<T> * sum / n + 4 * TINY<T>)) R.fail(key + ":value", cat("loss ", double(got), " instead of ", double(sum / n))); }
        same(key + ":gradient", L.gradient(p, t), d, gr, tol);
        sp.check(key + ":prediction-changed"); st.check(key + ":target-changed");
    };
    smart_dnn::MSELoss<T> L;
    if (g.chance(0.4)) { // used before, and in between, with other tensors
        auto a = mk(d, randVec<T>(g, n, k)), b = mk(d, randVec<T>(g, n, k));
        if (g.chance(0.5)) L.compute(a, b); else L.gradient(a, b);
        if (g.chance(0.5)) { L.compute(g.chance(0.5) ? p : a, g.chance(0.5) ? t : b); R.event("mse-interleaved"); same("mse:gradient-after-another", L.gradient(p, t), d, gr, tol); L.gradient(a, g.chance(0.5) ? t : b); }
    }
    judge("mse", L, p, t); R.event("mse");
    if (d.size() == 2 && d[1] == 1) { judge("mse-vector-target", L, p, mk(Dims{d[0]}, tv)); R.event("vector-targets"); }
    if (g.chance(0.3)) { // mismatching shapes, also those that could be broadcast
        Dims e = d;
        switch (g.range(0, 5)) {
            case 0: e.insert(e.begin(), 1); break;
            case 1: e.push_back(1); break;
            case 2: e[g.range(0, int(e.size()) - 1)] += g.range(1, 3); break;
            case 3: e[g.range(0, int(e.size()) - 1)] = 1; break;
            case 4: e = randDims(g, 1, 3, 6, 200); break;
            case 5: if (e.size() > 1) std::swap(e[0], e[e.size() - 1]); else e = {1, e[0]}; break;
        }
        bool vec = e.size() == 1 && d.size() >= 2 && e[0] == d[0] && prod(e) == prod(d);
        if (e != d && !vec) {
            auto bad = mk(e, randVec<T>(g, prod(e), k));
            R.desc = cat("MSE prediction ", show(d), " target ", show(e));
            Snap<T> sp(p), st(bad);
            mustThrow("mse:mismatch-accepted", R.desc, [&] { L.compute(p, bad); });
            mustThrow("mse:gradient-mismatch-accepted", R.desc, [&] { L.gradient(p, bad); });
            sp.check("mse:prediction-changed"); st.check("mse:target-changed");
            if (prod(e) % prod(d) == 0 || prod(d) % prod(e) == 0) R.event("broadcastable-mismatches");
        }
    }
}

template <class T> void cceCase(Rng& g) {
    int B = g.chance(0.2) ? 1 : g.range(1, 40), C = g.chance(0.1) ? 1 : g.range(2, 14);
    if (g.chance(0.02)) { B = g.range(100, 400); C = 10; }
    if (g.chance(0.002)) { if (g.chance(0.5)) { B = g.range(1, 4); C = int(bigSize(g, 20000)); } else { B = int(bigSize(g, 20000)); C = g.range(1, 4); } if (g.chance(0.3)) B = C = g.range(60, 140); R.event("cce-large"); }
    Dims d{B, C}; size_t n = prod(d);
    std::vector<T> pv(n), tv(n);
    int pstyle = g.range(0, 3), tstyle = g.range(0, 3);
    for (int i = 0; i < B; ++i) {
        double s = 0; std::vector<double> e(C);
        for (double& x : e) { x = pstyle == 1 ? std::exp(g.normal() * 4) : g.uni(0.01, 1); s += x; }
        int hot = g.range(0, C - 1);
        for (int j = 0; j < C; ++j) {
            T x = T(e[j] / s);
            if (pstyle == 2) x = T(g.uni(2e-6, 1 - 2e-6));
            if (pstyle == 3 && g.chance(0.4)) x = g.one({T(0), T(1), T(1e-30), T(1e-7), T(1 - EPS<T>), T(1e-12)});
            pv[i * C + j] = x;
            tv[i * C + j] = tstyle == 0 ? T(j == hot) : tstyle == 1 ? T(g.uni(0, 1)) : tstyle == 2 ? T(j == hot ? 0.9 : 0.1 / C) : (g.chance(0.5) ? T(0) : T(g.uni(0, 3)));
        }
    }
    R.desc = cat("CCE<", tname<T>(), "> ", show(d), " p=", showv(pv), " t=", showv(tv));
    R.sample("cce", R.desc);
    R.nontrivial(hashV(d, tv, hashV(d, pv, sizeof(T) + 7)));
    auto p = mk(d, pv), t = mk(d, tv);
    Snap<T> sp(p), st(t);
    smart_dnn::CategoricalCrossEntropyLoss<T> L;
    bool between = g.chance(0.4);
    Ten<T> a(Shape(d), T(0.25)), b(Shape(d), T(1) / T(C));
    if (between) { L.gradient(a, t); R.event("cce-interleaved"); }
    auto v = L.compute(p, t);
    if (between) L.compute(g.chance(0.5) ? p : a, g.chance(0.5) ? t : b);
    auto gr = L.gradient(p, t);
    sp.check("cce:prediction-changed"); st.check("cce:target-changed");
    // exact part, and an allowance for predictions that are clamped
    ld exact = 0, lo = 0, hi = 0; bool extreme = false;
    for (size_t i = 0; i < n; ++i) {
        ld x = pv[i], w = tv[i];
        if (x >= 1e-6L && x <= 1 - 1e-6L) exact -= w * logl(x);
        else if (w != 0) { extreme = true; if (x < 0.5L) { lo += w * -logl(1.01e-6L); hi += w * 104; } else hi += w * 1.01e-6L; } // float's smallest number has -log 104
    }
    ld tol = (n + 10) * EPS<T> * (exact + hi) / B;
    R.eval();
    if (v.getShape().size() != 1) R.fail("cce:value-shape", show(dimsOf(v)));
    else { ld got = vals(v)[0]; if (!(got >= (exact + lo) / B - tol && got <= (exact + hi) / B + tol)) R.fail(extreme ? "cce:extreme-value" : "cce:value", cat("loss ", double(got), " not in [", double((exact + lo) / B), ", ", double((exact + hi) / B), "]")); }
    R.eval();
    if (dimsOf(gr) != d) R.fail("cce:gradient-shape", show(dimsOf(gr)));
    else {
        auto gv = vals(gr);
        for (size_t i = 0; i < n; ++i) {
            ld x = pv[i], w = tv[i];
            bool inside = x >= 1e-6L && x <= 1 - 1e-6L;
            ld want = inside ? -w / x / B : 0;
            if (inside ? !close(gv[i], want, 10 * EPS<T> * fabsl(want) + 4 * TINY<T>) : !(std::isfinite(gv[i]) && gv[i] <= 0)) {
                R.fail(inside ? "cce:gradient" : "cce:extreme-gradient", cat("gradient for prediction ", double(x), " target ", double(w), " batch ", B, " is ", double(gv[i]), " instead of ", double(want))); break;
            }
        }
    }
    R.event("cce"); if (extreme) R.event("clamped-predictions"); if (B > 1) R.event("cce-batches");
    if (g.chance(0.3)) {
        Dims e = g.one({Dims{B, C + 1}, Dims{B + 1, C}, Dims{C, B}, Dims{1, C}, Dims{B, 1}, Dims{C}, Dims{1, B, C}, Dims{B * C}});
        if (e != d) {
            Ten<T> bad(Shape(e), T(0.5));
            R.desc = cat("CCE prediction ", show(d), " target ", show(e));
            mustThrow("cce:mismatch-accepted", R.desc, [&] { L.compute(p, bad); });
            mustThrow("cce:gradient-mismatch-accepted", R.desc, [&] { L.gradient(p, bad); });
            R.desc = cat("CCE prediction ", show(e), " target ", show(d));
            mustThrow("cce:mismatch-accepted", R.desc, [&] { L.compute(bad, t); });
            mustThrow("cce:gradient-mismatch-accepted", R.desc, [&] { L.gradient(bad, t); });
            R.event("cce-mismatches");
        }
    }
}
int main(int argc, char** argv) {
    return mainLoop(argc, argv, [](Rng& g, u64) {
        switch (g.range(0, 3)) { case 0: mseCase<float>(g); break; case 1: mseCase<double>(g); break; case 2: cceCase<float>(g); break; default: cceCase<double>(g); }
    });
}
