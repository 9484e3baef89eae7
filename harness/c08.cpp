// C08: activation gradients
#include "act.hpp"
using namespace h;
template <class T> void run(Rng& g) {
    Act a = Act(g.range(0, 7)); if (a > SOFTMAX) a = SOFTMAX;
    T alpha = g.chance(0.3) ? T(0.01) : g.chance(0.7) ? T(g.uni(0, 1)) : g.chance(0.5) ? g.one({T(0), T(1), T(1.5), T(2), T(-0.5)}) : T(g.uni(-2, 3));
    std::unique_ptr<smart_dnn::Activation<T>> act(newAct<T>(a, alpha, alpha == T(0.01)));
    std::string k = actNames[a];
    Dims d = randDims(g, a == SOFTMAX ? 2 : 1, 4, g.chance(0.05) ? 40 : 6, 400);
    if (g.chance(0.002)) { do d = bigDims(g, a == SOFTMAX ? 2 : 1, 4); while (a == SOFTMAX && prod(d) / d[0] > 2500); R.event("beyond-200-elements"); }
    auto v = actInputs<T>(g, d);
    if (a == RELU || a == LEAKY) for (T& x : v) if (x == T(0)) x = T(0.5); // no derivative there
    auto u = randVec<T>(g, v.size(), g.one({INTS, UNIT, NORMAL, WIDE}));
    Ten<T> x = mk<T>(d, v), go = mk<T>(d, u);
    Snap<T> s(x), sg(go);
    R.desc = cat(k, "' ", tname<T>(), show(d), " alpha ", double(alpha), " input ", showv(v, 12), " gradient ", showv(u, 12));
    R.nontrivial(hashV(d, v, hashV(d, u, a)));
    R.event(k);
    std::vector<ld> want(v.size()), tol(v.size());
    if (a != SOFTMAX) {
        for (size_t i = 0; i < v.size(); ++i) {
            ld D = actD(a, v[i], alpha);
            want[i] = D * u[i];
            tol[i] = a == RELU ? 0 : a == LEAKY ? 2 * EPS<T> * fabsl(want[i]) + TINY<T> : fabsl(ld(u[i])) * 12 * EPS<T> * (1 + (a == SWISH || a == MISH ? std::min(fabsl(ld(v[i])), 50.0L) : 0)) + TINY<T> * (1 + fabsl(ld(u[i])));
            if (fabsl(ld(v[i])) > 80) R.event("saturated");
        }
    } else {
        size_t f = v.size() / d[0];
        for (int b = 0; b < d[0]; ++b) {
            ld m = -INFINITY, sum = 0, dot = 0, mag = 0, magE = 0;
            std::vector<ld> p(f);
            for (size_t i = 0; i < f; ++i) m = std::max(m, ld(v[b * f + i]));
            ld dist = 0; // exponents matter only where the probability does
            for (size_t i = 0; i < f; ++i) { p[i] = expl(ld(v[b * f + i]) - m); sum += p[i]; }
            for (size_t i = 0; i < f; ++i) { p[i] /= sum; dot += p[i] * u[b * f + i]; mag += p[i] * fabsl(ld(u[b * f + i])); magE += p[i] * fabsl(ld(u[b * f + i])) * std::min(m - ld(v[b * f + i]), 12000.0L); dist = std::max(dist, p[i] > 0 ? std::min(m - ld(v[b * f + i]), 12000.0L) * std::min(1.0L, p[i] * 1e6L) : 0); }
            for (size_t i = 0; i < f; ++i) {
                want[b * f + i] = p[i] * (u[b * f + i] - dot);
                ld e = m - ld(v[b * f + i]);
                tol[b * f + i] = p[i] * (mag + fabsl(ld(u[b * f + i]))) * EPS<T> * (12 * f + 40 + 8 * std::min(e, 100000.0L) + 8 * dist) + 8 * p[i] * magE * EPS<T> + 4 * TINY<T> * (1 + mag) * f;
            }
        }
        if (d[0] > 1) R.event("softmax-batches");
    }
    same(k, act->backward(x, go), d, want, tol);
    s.check(k + ":input-changed"); sg.check(k + ":gradient-changed");
    R.sample(k, cat(tname<T>(), show(d), " f'(", double(v[0]), ") * ", double(u[0]), " = ", double(want[0])));
    // gradients that cannot be matched with the input
    Dims e;
    for (int t = 0; t < 4; ++t) {
        e = g.chance(0.5) ? d : randDims(g, 1, 4, 8, 2000);
        if (g.chance(0.7)) e[g.range(0, e.size() - 1)] += g.one({1, 2, 5});
        Dims r;
        if (broadcast(d, e, r)) continue;
        R.event("mismatched-gradients");
        Ten<T> bad(Shape(e), T(1));
        mustThrow(k + ":mismatch", cat("gradient ", show(e), " for input ", show(d)), [&] { act->backward(x, bad); });
    }
    s.check(k + ":input-changed-by-throw");
}
int main(int c, char** v) { return mainLoop(c, v, [](Rng& g, u64) { for (int i = 0; i < 4; ++i) g.chance(0.5) ? run<float>(g) : run<double>(g); }); }
