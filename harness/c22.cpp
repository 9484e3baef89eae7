// C22: gradients handed to the optimizer by train() against numerical derivatives of the recorded sample loss
#include "model.hpp"
using namespace h;
using T = double;
static double lastLoss; static bool clamped;
template <class Base> struct RecLoss : Base {
    Ten<T> compute(const Ten<T>& p, const Ten<T>& t) override {
        auto v = Base::compute(p, t); lastLoss = vals(v)[0]; clamped = false;
        for (T x : vals(p)) if (x < 1e-5 || x > 1 - 1e-5) clamped = true;
        return v;
    }
};
static std::vector<Ten<T>*> P_; static std::vector<std::vector<T>> G_;
struct HoldOpt : smart_dnn::Optimizer<T> { // changes nothing
    void optimize(const std::vector<std::reference_wrapper<Ten<T>>>& w, const std::vector<std::reference_wrapper<Ten<T>>>& g, T) override {
        for (auto& x : w) P_.push_back(&x.get());
        for (auto& x : g) G_.push_back(vals(x.get()));
    }
};
static void run(Rng& g) {
    ModelSpec s = randomModel(g);
    unsigned seed = unsigned(g.next());
    RandomEngine::setSeed(seed);
    smart_dnn::SmartDNN<T> m; addLayers<T>(m, s);
    auto xv = randVec<T>(g, prod(s.in), UNIT); if (g.chance(0.3)) for (T& v : xv) v *= 3;
    auto tv = randomTarget<T>(g, s);
    std::vector<Ten<T>> x{mk(s.in, xv)}, y{mk(s.out, tv)};
    R.desc = cat(s.text(), " seed ", seed, " x=", showv(xv), " t=", showv(tv));
    auto compile = [&](auto opt) { if (s.cce) m.compile(RecLoss<smart_dnn::CategoricalCrossEntropyLoss<T>>(), opt); else m.compile(RecLoss<smart_dnn::MSELoss<T>>(), opt); };
    compile(HoldOpt());
    Quiet q;
    auto step = [&]() { RandomEngine::setSeed(seed + 1); P_.clear(); G_.clear(); m.train(x, y, 1); return lastLoss; }; // dropout draws the same mask again
    step();
    // move the parameters away from their initial values (biases and shifts start at zero)
    auto params = P_;
    for (auto* p : params) for (size_t j = 0; j < p->getShape().size(); ++j) (*p)[j] += g.normal() * 0.3;
    double f0 = step();
    auto grads = G_;
    bool off = s.cce && clamped;
    if (!std::isfinite(f0) || off) { R.event("skipped-clamped"); return; }
    double scale = 0, norm2 = 0; size_t total = 0;
    for (auto& v : grads) for (T z : v) { scale = std::max(scale, std::fabs(z)); norm2 += z * z; }
    for (size_t k = 0; k < params.size(); ++k) { R.eval(); if (grads[k].size() != params[k]->getShape().size()) { R.fail("gradient-size", s.text()); return; } total += grads[k].size(); }
    scale = std::max(scale, 1e-3);
    double keep = std::min(1.0, 45.0 / double(total));
    for (size_t k = 0; k < params.size(); ++k) for (size_t j = 0; j < grads[k].size(); ++j) {
        if (!g.chance(keep)) continue;
        T& w = (*params[k])[j]; T w0 = w; double hh = 2e-5 * std::max(1.0, std::fabs(w0));
        w = w0 + hh; double a = step(); bool bad = s.cce && clamped; w = w0 - hh; double b = step(); bad |= s.cce && clamped;
        w = w0 + hh / 2; double c = step(); w = w0 - hh / 2; double d = step(); w = w0;
        if (bad) { R.event("skipped-clamped"); continue; }
        double D1 = (a - b) / (2 * hh), D2 = (c - d) / hh, D = (4 * D2 - D1) / 3, S1 = std::fabs(a - 2 * f0 + b) / hh, S2 = std::fabs(c - 2 * f0 + d) / (hh / 2);
        if (S1 > 1e-3 * scale || S2 > 1e-3 * scale || std::fabs(D1 - D2) > 1e-4 * scale) { R.event("kinks-skipped"); continue; } // the derivative does not exist nearby, or varies too fast
        R.eval(); R.event("derivatives");
        double tol = 2e-6 * scale + 10 * std::fabs(D1 - D2) + 2e-15 * (1 + std::fabs(f0)) / hh * 10;
        if (!(std::fabs(grads[k][j] - D) <= tol)) { R.fail("gradient", cat("parameter tensor ", k, show(dimsOf(*params[k])), " element ", j, ": gradient ", grads[k][j], ", numerical derivative ", D, " (tolerance ", tol, ") loss ", f0)); return; }
    }
    for (auto& l : s.layers) R.event(l.kind);
    R.event(s.cce ? "cce" : "mse"); R.event(s.in.size() == 1 ? "unbatched" : s.in[0] > 1 ? "batched" : "batch-of-one");
    R.sample(s.cce ? "cce" : "mse", R.desc); R.nontrivial(R.desc);
    // plain gradient steps: the loss falls by rate * |gradient|^2 for a small enough rate
    if (norm2 > 1e-10) {
        std::vector<std::vector<T>> start; for (auto* p : params) start.push_back(vals(*p));
        bool fell = false; std::string tried;
        for (double lr : {1e-3, 1e-5, 1e-7}) {
            lr /= std::max(1.0, norm2);
            smart_dnn::SGDOptions<T> o; o.learningRate = lr; o.momentum = 0;
            compile(smart_dnn::SGDOptimizer<T>(o));
            step(); compile(HoldOpt()); double f1 = step();
            double ratio = (f0 - f1) / (lr * norm2);
            for (size_t k = 0; k < params.size(); ++k) for (size_t j = 0; j < start[k].size(); ++j) (*params[k])[j] = start[k][j];
            tried += cat(" rate ", lr, ": ", ratio);
            if (lr * norm2 < 1e-11 * (1 + std::fabs(f0))) { fell = true; break; } // lost in rounding
            if (std::fabs(ratio - 1) < 0.1) { fell = true; R.event("descents"); break; }
        }
        R.eval();
        if (!fell) { // at a kink the first-order decrease need not show
            R.event("descent-undecided"); bool kinky = false;
            for (auto& l : s.layers) if (l.kind == "relu" || l.kind == "leaky" || l.kind == "pool" || l.kind == "bn") kinky = true;
            if (!kinky) R.fail("descent", cat("loss ", f0, " squared gradient ", norm2, " observed/predicted decrease:", tried));
        }
    }
}
int main(int argc, char** argv) { return mainLoop(argc, argv, [](Rng& g, u64) { run(g); }); }
