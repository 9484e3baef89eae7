// C07: activation values
#include "act.hpp"
using namespace h;
template <class T> void run(Rng& g) {
    Act a = Act(g.range(0, 7)); if (a > SOFTMAX) a = SOFTMAX;
    T alpha = g.chance(0.3) ? T(0.01) : g.chance(0.7) ? T(g.uni(0, 1)) : g.chance(0.5) ? g.one({T(0), T(1), T(1.5), T(2), T(-0.5)}) : T(g.uni(-2, 3));
    bool dflt = alpha == T(0.01);
    std::unique_ptr<smart_dnn::Activation<T>> act(newAct<T>(a, alpha, dflt));
    std::string k = actNames[a];
    Dims d = randDims(g, a == SOFTMAX ? 2 : 1, 4, g.chance(0.1) ? 60 : 7, 800);
    if (g.chance(0.002)) { d = bigDims(g, a == SOFTMAX ? 2 : 1, 4); R.event("beyond-200-elements"); }
    auto v = actInputs<T>(g, d);
    if (a == LEAKY && (alpha > 1 || alpha < -1)) { R.event("steep-slopes"); for (T& x : v) x = std::max(-std::numeric_limits<T>::max() / 4, std::min(x, std::numeric_limits<T>::max() / 4)); } // where the product exists
    Ten<T> x = mk<T>(d, v);
    Snap<T> s(x);
    R.desc = cat(k, " ", tname<T>(), show(d), " alpha ", double(alpha), " input ", showv(v, 16));
    R.nontrivial(hashV(d, v, a));
    R.event(k);
    std::vector<ld> want(v.size()), tol(v.size());
    if (a != SOFTMAX) {
        for (size_t i = 0; i < v.size(); ++i) { want[i] = actF(a, v[i], alpha); tol[i] = actTol<T>(a, v[i], want[i]); if (fabsl(v[i]) > 80) R.event("saturated"); }
        same(k, act->forward(x), d, want, tol);
    } else {
        size_t f = v.size() / d[0];
        for (int b = 0; b < d[0]; ++b) {
            ld m = -INFINITY, sum = 0;
            for (size_t i = 0; i < f; ++i) m = std::max(m, ld(v[b * f + i]));
            for (size_t i = 0; i < f; ++i) sum += expl(ld(v[b * f + i]) - m);
            for (size_t i = 0; i < f; ++i) {
                ld e = ld(v[b * f + i]) - m;
                want[b * f + i] = expl(e) / sum;
                tol[b * f + i] = want[b * f + i] * EPS<T> * (4 * f + 16 + 4 * std::min(-e, 100000.0L)) + 2 * TINY<T>;
            }
        }
        Ten<T> y = act->forward(x);
        same(k, y, d, want, tol);
        R.eval();
        for (int b = 0; b < d[0]; ++b) {
            ld sum = 0;
            for (size_t i = 0; i < f; ++i) { T p = y.getData()[b * f + i]; if (!(p >= 0)) R.fail(k + ":negative", cat("sample ", b)); sum += p; }
            if (!(fabsl(sum - 1) <= (4 * f + 16) * EPS<T>)) R.fail(k + ":sum", cat("sample ", b, " sums to ", double(sum)));
            R.event("softmax-samples");
        }
        // a sample alone gives the same result
        int b = g.range(0, d[0] - 1);
        Dims e = d; e[0] = 1;
        std::vector<ld> w(want.begin() + b * f, want.begin() + (b + 1) * f), t(tol.begin() + b * f, tol.begin() + (b + 1) * f);
        same(k + ":alone", act->forward(mk<T>(e, std::vector<T>(v.begin() + b * f, v.begin() + (b + 1) * f))), e, w, t);
        mustThrow(k + ":rank1", "vector input", [&] { act->forward(mk<T>({int(v.size())}, v)); });
    }
    s.check(k + ":input-changed");
    R.sample(k, cat(tname<T>(), show(d), " f(", double(v[0]), ") = ", double(want[0])));
}
int main(int c, char** v) { return mainLoop(c, v, [](Rng& g, u64) { for (int i = 0; i < 4; ++i) g.chance(0.5) ? run<float>(g) : run<double>(g); }); }
