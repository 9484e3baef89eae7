// C38: from finite data of moderate size nothing ever becomes infinite or NaN.
#include "model.hpp"
using namespace h;
using namespace smart_dnn;
template <class T> bool finite(const Ten<T>& t, double& most) { bool ok = true; for (T x : vals(t)) { if (!std::isfinite(x)) ok = false; else most = std::max(most, std::fabs(double(x))); } return ok; }
// a recording stage between two layers: sees every value going forward and every gradient going back
struct Watch { std::vector<std::string> bad; double most = 0, mostBack = 0; size_t seen = 0; bool overflow = false; };
template <class T> struct Probe : Layer<T> {
    Watch* w; std::string name;
    Probe(Watch* w, std::string n) : w(w), name(std::move(n)) {}
    Ten<T> forward(const Ten<T>& x) override { look(x, "forward"); return x; }
    Ten<T> backward(const Ten<T>& g) override { look(g, "backward"); return g; }
    void updateWeights(Optimizer<T>&) override {}
    void look(const Ten<T>& t, const char* way) { ++w->seen; if (w->bad.empty() && !finite(t, w->most)) w->bad.push_back(way + (" behind " + name)); }
};
template <class T> struct Meter : Optimizer<T> { // looks at gradients and parameters around the real optimizer
    std::shared_ptr<Optimizer<T>> o; Watch* w;
    Meter(std::shared_ptr<Optimizer<T>> o, Watch* w) : o(std::move(o)), w(w) {}
    void optimize(const std::vector<std::reference_wrapper<Ten<T>>>& p, const std::vector<std::reference_wrapper<Ten<T>>>& q, T lr) override {
        for (auto& x : q) { ++w->seen; if (w->bad.empty() && !finite(x.get(), w->mostBack)) w->bad.push_back("parameter gradient"); }
        o->optimize(p, q, lr);
        for (auto& x : p) { ++w->seen; if (w->bad.empty() && !finite(x.get(), w->most)) w->bad.push_back("parameter after a step"); }
    }
};
template <class T> struct LossProbe : Loss<T> {
    std::shared_ptr<Loss<T>> l; Watch* w;
    LossProbe(std::shared_ptr<Loss<T>> l, Watch* w) : l(std::move(l)), w(w) {}
    Ten<T> compute(const Ten<T>& p, const Ten<T>& t) override { auto r = l->compute(p, t); ++w->seen; if (w->bad.empty() && !finite(r, w->most)) w->bad.push_back("loss"); return r; }
    Ten<T> gradient(const Ten<T>& p, const Ten<T>& t) override { auto r = l->gradient(p, t); ++w->seen; if (w->bad.empty() && !finite(r, w->mostBack)) w->bad.push_back("loss gradient"); return r; }
};
template <class T> void run(Rng& g) {
    Quiet quiet; ModelLimits q; q.maxBatch = 4; q.tail = true; ModelSpec s = randomModel(g, q);
    bool single = g.chance(0.15); if (single && s.in.size() > 1) s.in[0] = s.out[0] = 1; // a batch of one sample
    Watch w; std::string oname; std::shared_ptr<Optimizer<T>> opt;
    bool sgd = s.cce && g.chance(0.4);
    if (sgd) { SGDOptions<T> o; o.learningRate = T(g.uni(0.001, 0.1)); o.momentum = T(g.one({0.0, 0.9})); o.nesterov = o.momentum > 0 && g.chance(0.5); opt = std::make_shared<SGDOptimizer<T>>(o); oname = "sgd"; }
    else if (g.chance(0.5)) { RMSPropOptions<T> o; if (g.chance(0.7)) { o.learningRate = T(g.uni(0.001, 0.05)); o.centered = g.chance(0.3); if (o.centered) o.epsilon = T(1e-3); o.alpha = T(g.one({0.0, 0.9, 0.99})); if (o.alpha == 0) o.epsilon = T(1e-3); o.momentum = T(g.one({0.0, 0.5, 0.9})); o.weightDecay = T(g.one({0.0, 0.01})); } opt = std::make_shared<RMSPropOptimizer<T>>(o); oname = "rmsprop"; }
    else { AdamOptions<T> o; if (g.chance(0.7)) { o.learningRate = T(g.uni(0.001, 0.1)); o.beta1 = T(g.one({0.0, 0.9})); o.beta2 = T(g.one({0.9, 0.99, 0.999})); o.decay = T(g.one({0.0, 0.5})); o.l1Strength = T(g.one({0.0, 0.01})); o.l2Strength = T(g.one({0.0, 0.01})); o.batchSize = g.range(1, 4); } opt = std::make_shared<AdamOptimizer<T>>(o); oname = "adam"; }
    RandomEngine::setSeed(unsigned(g.next())); SmartDNN<T> m;
    m.addLayer(Probe<T>(&w, "the input"));
    for (auto& l : s.layers) { ModelSpec one; one.layers = {l}; addLayers<T>(m, one); m.addLayer(Probe<T>(&w, l.kind)); R.event("with-" + l.kind); }
    m.compile(LossProbe<T>(s.cce ? std::shared_ptr<Loss<T>>(std::make_shared<CategoricalCrossEntropyLoss<T>>()) : std::make_shared<MSELoss<T>>(), &w), Meter<T>(opt, &w));
    static const char* styles[] = {"ordinary", "zeros", "constants", "equal-samples", "large", "tiny", "one-hot", "mixed"};
    int style = g.range(0, 7); double scale = style == 4 ? std::pow(10.0, g.uni(1, 3)) : 1;
    auto value = [&](int st) -> double { switch (st) { case 1: return 0; case 4: return g.uni(-1, 1) * scale; case 5: return (g.chance(0.5) ? 1 : -1) * double(g.chance(0.3) ? std::numeric_limits<T>::denorm_min() : g.chance(0.5) ? std::numeric_limits<T>::min() : T(1e-12)); case 6: return g.chance(0.1); default: return g.uni(-1, 1); } };
    auto input = [&] {
        std::vector<T> v(prod(s.in)); double c = g.uni(-1, 1); size_t f = s.in.size() > 1 ? v.size() / s.in[0] : v.size();
        for (size_t i = 0; i < v.size(); ++i) v[i] = style == 2 ? T(c) : style == 3 && i >= f ? v[i - f] : T(value(style == 7 ? g.range(0, 6) : style));
        return mk(s.in, v); };
    std::vector<Ten<T>> xs, ys; int n = g.range(1, 4); for (int i = 0; i < n; ++i) { xs.push_back(input()); auto t = randomTarget<T>(g, s); if (!s.cce) { double k = g.one({1.0, 1.0, 0.0, 100.0}); for (auto& x : t) x = T(x * k); } ys.push_back(mk(s.out, t)); }
    int epochs = g.chance(0.03) ? g.range(100, 300) : g.range(1, 12); if (epochs >= 100) R.event("long-trainings");
    R.desc = cat(tname<T>(), " ", s.text(), " ", oname, " ", styles[style], " data, ", n, " samples, ", epochs, " epochs"); R.event(styles[style]); R.event(oname); R.event(s.cce ? "cce" : "mse"); if (single) R.event("batches-of-one");
    auto judge = [&](const std::string& when) {
        R.eval(w.seen); R.event("tensors-watched", w.seen); w.seen = 0;
        double limit = std::is_same<T, float>::value ? 1e12 : 1e60;
        if (w.most > limit || w.mostBack > limit) { R.event("grew-large"); w.overflow = true; return false; } // out of scope: the data are not moderate any more
        if (!w.bad.empty()) { R.fail(when + ":" + w.bad[0], cat("not finite; largest value before ", w.most, ", largest gradient ", w.mostBack)); return false; }
        return true;
    };
    for (int e = 0; e < epochs; ++e) {
        m.train(xs, ys, 1); if (!judge("training")) break;
        if (e % 5 == 0 || e + 1 == epochs) {
            if (g.chance(0.5)) m.evalMode(); // running statistics take part
            Ten<T> p = m.predict(g.chance(0.7) ? xs[g.next() % n] : input()); ++w.seen; R.event("predictions"); if (w.bad.empty() && !finite(p, w.most)) w.bad.push_back("prediction");
            m.trainingMode(); if (!judge("prediction")) break;
        }
    }
    R.event(w.overflow ? "given-up" : "trainings"); R.nontrivial(R.desc + cat(g.next())); R.sample(styles[style], R.desc);
}
int main(int argc, char** argv) { return mainLoop(argc, argv, [](Rng& g, u64) { if (g.chance(0.5)) run<float>(g); else run<double>(g); }); }
