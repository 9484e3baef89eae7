// C12: batch normalization values and running statistics over histories
#include "bn.hpp"
using namespace h;
template <class T> void run(Rng& g) {
    int F = g.chance(0.01) ? g.one({6, 7, 8, 9, 16, 17, 31, 33, 64, 65, 129, 257}) : g.range(1, 5);
    T eps = g.chance(0.4) ? T(1e-5) : T(std::pow(10.0, g.uni(-6, -1))), mom = g.chance(0.3) ? T(0.9) : g.chance(0.2) ? g.one({T(0), T(1)}) : T(g.uni(0, 1));
    bool dflt = g.chance(0.1);
    if (dflt) { eps = T(1e-5); mom = T(0.9); }
    smart_dnn::BatchNormalizationLayer<T> L = dflt ? smart_dnn::BatchNormalizationLayer<T>(F) : smart_dnn::BatchNormalizationLayer<T>(F, eps, mom);
    std::vector<ld> gamma(F, 1), beta(F, 0);
    BNStats<T> run(F, 1); // running statistics and their error
    std::string hist = cat("BN ", tname<T>(), " ", F, " features eps ", double(eps), " momentum ", double(mom));
    bool training = true, trained = false;
    const bool longRun = g.chance(0.006);
    int steps = longRun ? g.range(100, 400) : g.range(2, 14);
    if (longRun) R.event("long-histories");
    if (F > 5) R.event("many-features");
    auto output = [&](const BNStats<T>& s, const Dims& d, const std::vector<T>& x, std::vector<ld>& y, std::vector<ld>& tol) {
        y.resize(x.size()); tol.resize(x.size());
        for (size_t i = 0; i < x.size(); ++i) { ld e, z = s.z(i, x[i], eps, e); int f = s.feat(i); y[i] = gamma[f] * z + beta[f]; tol[i] = fabsl(gamma[f]) * e + 4 * EPS<T> * (fabsl(gamma[f] * z) + fabsl(beta[f])) + TINY<T>; }
    };
    for (int k = 0; k < steps; ++k) {
        R.desc = hist;
        int o = g.range(0, 9);
        if (o == 0) { training = !training; L.setTrainingMode(training); hist += training ? " train-mode" : " eval-mode"; R.event("mode-switches"); continue; }
        if (o == 1) { // rejected inputs change nothing
            Dims bad = g.one({Dims{F}, Dims{2, F, 3}, Dims{1, F, 2, 2, 2}, Dims{2, F + 1}, Dims{2, F + 2, 2, 2}, Dims{F == 1 ? 3 : 1, F == 1 ? 3 : 1}, Dims{2, F == 1 ? 2 : F - 1, 2, 2}});
            Ten<T> X(Shape(bad), T(2));
            R.event("rejected-inputs");
            hist += " bad" + show(bad);
            mustThrow("bn:bad-input", cat(show(bad), " for ", F, " features"), [&] { L.forward(X); });
            continue;
        }
        Dims d = bnDims(g, F, 1);
        auto x = bnInput<T>(g, d);
        Ten<T> X = mk<T>(d, x);
        Snap<T> sx(X);
        hist += " " + show(d);
        R.desc = hist + " input " + showv(x, 10);
        R.nontrivial(hashV(d, x, hashS(hist)));
        std::vector<ld> y, tol;
        if (training) {
            BNStats<T> s(d, x);
            output(s, d, x, y, tol);
            if (!same(d.size() == 2 ? "bn:train-rank2" : "bn:train-rank4", L.forward(X), d, y, tol)) return;
            R.event(d.size() == 2 ? "training-rank2" : "training-rank4");
            if (s.n == 1) R.event("single-element-batches");
            for (int f = 0; f < F; ++f) {
                ld m0 = run.mean[f], v0 = run.var[f];
                run.mean[f] = mom * m0 + (1 - ld(mom)) * s.mean[f];
                run.var[f] = mom * v0 + (1 - ld(mom)) * s.var[f];
                run.dm[f] = mom * run.dm[f] + (1 - ld(mom)) * s.dm[f] + 6 * EPS<T> * (fabsl(m0) + fabsl(s.mean[f]));
                run.dv[f] = mom * run.dv[f] + (1 - ld(mom)) * s.dv[f] + 6 * EPS<T> * (v0 + s.var[f]);
            }
            trained = true;
            if (g.chance(0.25) && s.n > 1) { // an evaluation disturbs nothing: the backward pass of this batch is what it was
                Ten<T> U = mk<T>(d, randVec<T>(g, x.size(), NORMAL)), b0 = L.backward(U);
                L.setTrainingMode(false); Dims e = g.chance(0.5) ? d : bnDims(g, F, 1); L.forward(mk<T>(e, bnInput<T>(g, e))); L.setTrainingMode(true);
                sameExact("bn:backward-after-evaluation", L.backward(U), d, vals(b0)); R.event("evaluations-before-backward"); hist += " eval-between";
            }
            if (g.chance(0.4)) { // learn new scale and shift
                auto ng = randVec<T>(g, F, NORMAL), nb = randVec<T>(g, F, NORMAL);
                L.backward(Ten<T>(Shape(d), T(1)));
                Spy<T> spy; spy.assign.resize(2); spy.assign[bnScaleIndex<T>()] = ng; spy.assign[1 - bnScaleIndex<T>()] = nb;
                L.updateWeights(spy);
                R.event("parameters-learnt");
                if (spy.params.size() != 2) { R.fail("bn:parameters", "not two parameters"); return; }
                gamma = lds(ng); beta = lds(nb);
                hist += " learn";
            }
        } else {
            run.inner = d.size() == 4 ? d[2] * d[3] : 1;
            output(run, d, x, y, tol);
            if (!same(trained ? "bn:eval" : "bn:eval-untrained", L.forward(X), d, y, tol)) return;
            R.event(trained ? "evaluations-after-training" : "evaluations-untrained");
            if (g.chance(0.3)) same("bn:eval-repeated", L.forward(X), d, y, tol);
            R.sample(d.size() == 2 ? "eval-rank2" : "eval-rank4", cat(R.desc, " running mean of feature 0 ", double(run.mean[0])));
        }
        sx.check("bn:input-changed");
    }
}
int main(int c, char** v) { return mainLoop(c, v, [](Rng& g, u64) { g.chance(0.5) ? run<float>(g) : run<double>(g); }); }
