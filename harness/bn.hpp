// Reference batch normalization with error bounds
#pragma once
#include "layers.hpp"
namespace h {
template <class T> struct BNStats {
    int F; size_t n, inner;
    std::vector<ld> mean, var, dm, dv; // per feature, with bounds on the rounding error of a straightforward computation
    size_t feat(size_t i) const { return (i / inner) % F; }
    BNStats(const Dims& d, const std::vector<T>& x) : F(d[1]), n(0), inner(1), mean(F), var(F), dm(F), dv(F) {
        for (size_t i = 2; i < d.size(); ++i) inner *= d[i];
        n = x.size() / F;
        std::vector<ld> mag(F), mx(F);
        for (size_t i = 0; i < x.size(); ++i) { mean[feat(i)] += ld(x[i]) / n; mag[feat(i)] += fabsl(ld(x[i])) / n; mx[feat(i)] = std::max(mx[feat(i)], fabsl(ld(x[i]))); }
        for (size_t i = 0; i < x.size(); ++i) { ld q = x[i] - mean[feat(i)]; var[feat(i)] += q * q / n; }
        for (int f = 0; f < F; ++f) { dm[f] = (n + 6) * EPS<T> * mag[f]; ld e = dm[f] + EPS<T> * mx[f]; dv[f] = 2 * (n + 10) * EPS<T> * var[f] + 2 * e * e; }
    }
    BNStats(int F, size_t inner) : F(F), n(0), inner(inner), mean(F, 0), var(F, 1), dm(F), dv(F) {}
    // normalised value and its error
    ld z(size_t i, T x, ld eps, ld& err) const {
        int f = feat(i);
        ld s = sqrtl(var[f] + eps), v = (x - mean[f]) / s, a = dm[f] + 2 * EPS<T> * (fabsl(ld(x)) + fabsl(mean[f]));
        err = a / s + fabsl(v) * ((dv[f]) / (s * s) + 10 * EPS<T>);
        return v;
    }
};
// which of the two parameters handed to the optimizer is the scale (initially 1)
template <class T> size_t bnScaleIndex() {
    static int idx = -1;
    if (idx < 0) {
        smart_dnn::BatchNormalizationLayer<T> L(2);
        L.forward(mk<T>({2, 2}, {T(1), T(2), T(3), T(5)})); L.backward(mk<T>({2, 2}, {T(1), T(2), T(3), T(5)}));
        Spy<T> s; L.updateWeights(s);
        idx = s.params.size() == 2 && s.params[1][0] == T(1) ? 1 : 0;
    }
    return idx;
}
inline Dims bnDims(Rng& g, int F, int minN, double pBig = 0.004) {
    if (g.chance(pBig)) { // large batches or images
        R.event("large-batches");
        int n = int(bigSize(g, std::max<size_t>(400, 30000 / F)));
        if (g.chance(0.4)) return {n, F};
        int h = g.range(1, 40), w = g.range(1, 40), b = std::max(1, n / h / w);
        return {b, F, h, w};
    }
    for (;;) {
        Dims d = g.chance(0.5) ? Dims{g.range(1, 8), F} : Dims{g.range(1, 4), F, g.range(1, 4), g.range(1, 4)};
        if (int(prod(d)) / F >= minN) return d;
    }
}
template <class T> std::vector<T> bnInput(Rng& g, const Dims& d) {
    std::vector<T> x = randVec<T>(g, prod(d), g.one({INTS, UNIT, NORMAL}));
    int style = g.range(0, 4);
    T off = T(g.uni(-20, 20)), sc = T(std::pow(10.0, g.uni(-2, 2)));
    if (style == 0) for (T& q : x) q = q * sc + off;
    if (style == 1) for (T& q : x) q = off;          // constant features: variance 0
    if (style == 2) for (T& q : x) q *= sc;
    return x;
}
} // namespace h
