// C13: batch normalization gradients
#include "bn.hpp"
using namespace h;
template <class T> void run(Rng& g) {
    int F = g.chance(0.01) ? g.one({6, 7, 8, 9, 16, 17, 31, 33, 64, 65, 129, 257}) : g.range(1, 5);
    if (F > 5) R.event("many-features");
    T eps = g.chance(0.4) ? T(1e-5) : T(std::pow(10.0, g.uni(-5, -1)));
    smart_dnn::BatchNormalizationLayer<T> L(F, eps, T(0.9));
    std::vector<T> gamma(F, T(1)), beta(F, T(0));
    int passes = g.chance(0.006) ? g.range(40, 150) : g.range(1, 4);
    if (passes > 4) R.event("long-histories");
    for (int p = 0; p < passes; ++p) {
        Dims d = bnDims(g, F, 2);
        auto x = bnInput<T>(g, d);
        auto u = randVec<T>(g, x.size(), g.one({INTS, UNIT, NORMAL}));
        R.desc = cat("BN' ", tname<T>(), show(d), " eps ", double(eps), " gamma ", showv(gamma), " input ", showv(x, 10), " gradient ", showv(u, 10));
        R.nontrivial(hashV(d, x, hashV(d, u)));
        Ten<T> U = mk<T>(d, u);
        Snap<T> su(U);
        L.forward(mk<T>(d, x));
        if (g.chance(0.3)) { // a validation pass before the backward pass of the training batch
            L.setTrainingMode(false); Dims e = g.chance(0.5) ? d : bnDims(g, F, 1); L.forward(mk<T>(e, bnInput<T>(g, e))); L.setTrainingMode(true); R.event("eval-before-backward");
        }
        Ten<T> dx = L.backward(U);
        su.check("bn:gradient-changed");
        BNStats<T> s(d, x);
        size_t n = s.n;
        std::vector<ld> z(x.size()), ez(x.size());
        std::vector<ld> sg(F), sgz(F), mg(F), mgz(F), eg(F), zz(F);
        for (size_t i = 0; i < x.size(); ++i) {
            int f = s.feat(i);
            z[i] = s.z(i, x[i], eps, ez[i]);
            sg[f] += u[i]; mg[f] += fabsl(ld(u[i]));
            sgz[f] += u[i] * z[i]; mgz[f] += fabsl(u[i] * z[i]);
            eg[f] += fabsl(ld(u[i])) * ez[i];
        }
        std::vector<ld> want(x.size()), tol(x.size());
        for (size_t i = 0; i < x.size(); ++i) {
            int f = s.feat(i);
            ld sd = sqrtl(s.var[f] + eps), k = gamma[f] / sd;
            want[i] = k * (u[i] - sg[f] / n - z[i] * sgz[f] / n);
            ld mag = fabsl(ld(u[i])) + mg[f] / n + fabsl(z[i]) * mgz[f] / n;
            ld rel = s.dv[f] / (sd * sd) + (3 * n + 30) * EPS<T>;
            tol[i] = fabsl(k) * (mag * rel + ez[i] * mgz[f] / n + (fabsl(z[i]) + ez[i]) * eg[f] / n) + TINY<T>;
        }
        R.event(d.size() == 2 ? "rank2" : "rank4");
        same(d.size() == 2 ? "bn:input-gradient-rank2" : "bn:input-gradient-rank4", dx, d, want, tol);
        // parameter gradients
        auto ng = randVec<T>(g, F, NORMAL), nb = randVec<T>(g, F, NORMAL);
        Spy<T> spy;
        size_t sc = bnScaleIndex<T>(), sh = 1 - sc;
        if (g.chance(0.7)) { spy.assign.resize(2); spy.assign[sc] = ng; spy.assign[sh] = nb; }
        L.updateWeights(spy);
        R.eval(); R.event("parameter-gradients");
        if (spy.grads.size() != 2 || spy.params[0].getShape().size() != size_t(F) || spy.params[1].getShape().size() != size_t(F)) { R.fail("bn:parameters", ""); return; }
        for (int f = 0; f < F; ++f) {
            ld tg = eg[f] + (n + 10) * EPS<T> * mgz[f] + TINY<T>, tb = (n + 10) * EPS<T> * mg[f] + TINY<T>;
            if (spy.grads[sc].getShape().size() != size_t(F) || spy.grads[sh].getShape().size() != size_t(F)) { R.fail("bn:parameter-gradient-size", ""); return; }
            if (!close(spy.grads[sc][f], sgz[f], tg)) R.fail("bn:scale-gradient", cat("feature ", f, ": ", double(spy.grads[sc][f]), " instead of ", double(sgz[f])));
            if (!close(spy.grads[sh][f], sg[f], tb)) R.fail("bn:shift-gradient", cat("feature ", f, ": ", double(spy.grads[sh][f]), " instead of ", double(sg[f])));
        }
        R.sample(d.size() == 2 ? "rank2" : "rank4", cat(R.desc, " -> first ", double(want[0])));
        if (!spy.assign.empty()) { gamma = ng; beta = nb; }
        // evaluation passes and predictions in between do not disturb later training passes
        if (g.chance(0.3)) { L.setTrainingMode(false); Dims e = bnDims(g, F, 1); L.forward(mk<T>(e, bnInput<T>(g, e))); L.setTrainingMode(true); R.event("eval-between"); }
    }
}
int main(int c, char** v) { return mainLoop(c, v, [](Rng& g, u64) { g.chance(0.5) ? run<float>(g) : run<double>(g); }); }
