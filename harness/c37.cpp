// C37: a model does exactly what its layers, loss and optimizer do when they are called by hand, over whole histories.
#include "model.hpp"
using namespace h;
using namespace smart_dnn;
template <class T> u64 hashOf(const Ten<T>& t) { return hashV(dimsOf(t), vals(t), 1); }
// by hand: the same public parts, called in the order the model documents
template <class T> struct Hand {
    std::vector<std::unique_ptr<Layer<T>>> layers; std::unique_ptr<Loss<T>> loss; std::unique_ptr<Optimizer<T>> opt;
    template <class L> void addLayer(L&& l) { layers.push_back(std::make_unique<std::decay_t<L>>(std::forward<L>(l))); }
    template <class A, class B> void compile(A&& a, B&& b) { loss = std::make_unique<std::decay_t<A>>(std::forward<A>(a)); opt = std::make_unique<std::decay_t<B>>(std::forward<B>(b)); }
    Ten<T> predict(const Ten<T>& x) { Ten<T> y = x; for (auto& l : layers) y = l->forward(y); return y; }
    std::vector<Ten<T>> predict(const std::vector<Ten<T>>& xs) { std::vector<Ten<T>> r; for (auto& x : xs) r.push_back(predict(x)); return r; }
    void backward(const Ten<T>& q) { Ten<T> g = q; for (size_t i = layers.size(); i-- > 0;) g = layers[i]->backward(g); }
    void updateWeights() { for (auto& l : layers) l->updateWeights(*opt); }
    void train(const std::vector<Ten<T>>& xs, const std::vector<Ten<T>>& ys, int epochs) {
        if (!loss || !opt) throw std::runtime_error("not compiled");
        if (xs.size() != ys.size()) throw std::invalid_argument("counts");
        for (int e = 0; e < epochs; ++e) for (size_t i = 0; i < xs.size(); ++i) { Ten<T> p = predict(xs[i]); loss->compute(p, ys[i]); backward(loss->gradient(p, ys[i])); updateWeights(); }
    }
    void mode(bool m) { for (auto& l : layers) l->setTrainingMode(m); }
};
template <class T, class M> void compileBy(M& m, u64 s, bool cce) {
    Rng g(s); auto with = [&](auto o) { if (cce) m.compile(CategoricalCrossEntropyLoss<T>(), std::move(o)); else m.compile(MSELoss<T>(), std::move(o)); };
    switch (g.range(0, 2)) {
    case 0: { SGDOptions<T> o; o.learningRate = T(g.uni(0.001, 0.05)); o.momentum = T(g.one({0.0, 0.9})); o.nesterov = o.momentum > 0 && g.chance(0.4); o.weightDecay = T(g.one({0.0, 0.01})); with(SGDOptimizer<T>(o)); break; }
    case 1: { RMSPropOptions<T> o; o.learningRate = T(g.uni(0.001, 0.02)); o.epsilon = T(1e-3); o.centered = g.chance(0.5); o.momentum = T(g.one({0.0, 0.5})); with(RMSPropOptimizer<T>(o)); break; }
    default: { AdamOptions<T> o; o.learningRate = T(g.uni(0.001, 0.02)); o.decay = T(g.one({0.0, 0.1})); o.l2Strength = T(g.one({0.0, 0.01})); o.batchSize = g.range(1, 3); with(AdamOptimizer<T>(o)); }
    }
}
template <class T> void run(Rng& g) {
    Quiet quiet; ModelLimits q; q.maxBatch = 4; q.tail = true; bool large = g.chance(0.02);
    ModelSpec s = randomModel(g, q); if (large && s.in.size() == 2) { int b = g.range(40, 300); s.in[0] = s.out[0] = b; R.event("large-batches"); }
    u64 seed = g.next(); auto at = [](u64 x) { RandomEngine::setSeed(unsigned(x)); };
    SmartDNN<T> m; Hand<T> hand;
    at(seed); addLayers<T>(m, s); at(seed); addLayers<T>(hand, s);
    R.desc = cat(tname<T>(), " ", s.text(), ": ");
    int n = g.chance(0.02) ? g.range(40, 120) : g.range(3, 16), trained = 0, rejected = 0; bool compiled = false;
    if (n > 16) R.event("long-histories");
    std::vector<Ten<T>> seen; // some inputs come again
    auto sample = [&] { if (!seen.empty() && g.chance(0.25)) { R.event("repeated-inputs"); return seen[g.next() % seen.size()]; } seen.push_back(mk(s.in, randVec<T>(g, prod(s.in), UNIT))); return seen.back(); };
    auto target = [&] { return mk(s.out, randomTarget<T>(g, s)); };
    // does the same in both worlds; both succeed or both throw
    auto both = [&](const std::string& what, auto f, auto h) {
        u64 e = g.next(); bool a = false, b = false; u64 x = 0, y = 0; R.event(what); R.desc += what + " ";
        at(e); try { x = f(); } catch (const std::exception&) { a = true; }
        at(e); try { y = h(); } catch (const std::exception&) { b = true; }
        R.eval(); if (a || b) { R.event("rejected"); ++rejected; }
        if (a != b) { R.fail(what + ":rejection", a ? "the model rejects what its parts accept" : "the model accepts what its parts reject"); return false; }
        if (x != y) { R.fail(what + ":result", "the model gives another result than its parts called by hand"); return false; }
        at(e ^ 1); return true;
    };
    for (int k = 0; k < n; ++k) {
        int op = g.range(0, 11), before = rejected; bool ok = true;
        if (!compiled && g.chance(0.6)) op = 9;
        if (op <= 3) {
            std::vector<Ten<T>> xs, ys; int c = g.range(1, 4), ep = g.chance(0.1) ? g.range(-1, 0) : g.range(1, 3); for (int i = 0; i < c; ++i) { xs.push_back(sample()); ys.push_back(target()); }
            if (c && !s.cce && g.chance(0.15)) { Ten<T> y = ys[0]; if (!both("predict", [&] { return hashOf(m.predict(xs[0])); }, [&] { auto p = hand.predict(xs[0]); y = p; return hashOf(p); })) return; ys[0] = y; R.event("target-is-the-prediction"); }
            if (c && g.chance(0.06)) { ys.pop_back(); } else if (!s.has("conv") && g.chance(0.06)) { xs[g.next() % c] = Ten<T>(Shape{2, 3, 2}, T(1)); R.event("bad-sample-inside"); } else if (c > 1 && g.chance(0.1)) { xs[1] = xs[0]; ys[1] = ys[0]; }
            ok = both("train", [&] { m.train(xs, ys, ep); return u64(0); }, [&] { hand.train(xs, ys, ep); return u64(0); }); trained += c;
            if (ok && compiled && xs.size() == ys.size() && rejected > before) { R.nontrivial(R.desc); return; } // how far a rejected training got is not prescribed
        } else if (op <= 5) { auto x = !s.has("conv") && g.chance(0.1) ? Ten<T>(Shape{1, 7, 1}, T(1)) : sample(); ok = both("predict", [&] { return hashOf(m.predict(x)); }, [&] { return hashOf(hand.predict(x)); }); }
        else if (op == 6) { std::vector<Ten<T>> xs; for (int i = g.chance(0.02) ? g.range(60, 140) : g.range(0, 4); i; --i) { if (!xs.empty() && g.chance(0.3)) { xs.push_back(xs[g.next() % xs.size()]); R.event("repeated-inputs"); } else xs.push_back(sample()); } auto sum = [](const std::vector<Ten<T>>& v) { u64 r = v.size(); for (auto& t : v) r = mix(r ^ hashOf(t)); return r; }; ok = both("predict-list", [&] { return sum(m.predict(xs)); }, [&] { return sum(hand.predict(xs)); }); }
        else if (op == 7) { if (!compiled) continue; auto x = sample(); auto d = !s.has("conv") && g.chance(0.1) ? Ten<T>(Shape{3, 1, 2}, T(1)) : mk(s.out, randVec<T>(g, prod(s.out), UNIT)); ok = both("manual-step", [&] { m.predict(x); m.backward(d); m.updateWeights(); return u64(0); }, [&] { hand.predict(x); hand.backward(d); hand.updateWeights(); return u64(0); }); }
        else if (op == 8) { bool t = g.chance(0.6); if (t) m.trainingMode(); else m.evalMode(); hand.mode(t); R.event(t ? "training-mode" : "eval-mode"); R.desc += t ? "mode+ " : "mode- "; }
        else if (op == 9) { u64 c = g.next(); compileBy<T>(m, c, s.cce); compileBy<T>(hand, c, s.cce); R.event(compiled ? "recompiled" : "compiled"); R.desc += "compile "; compiled = true; }
        else if (op == 10) { // grow the model after it was used
            if (s.out.size() != 2 || s.layers.size() > 14) continue; ModelSpec add; add.layers = {g.chance(0.5) ? LayerSpec{"fc", {s.out[1], s.out[1]}} : g.chance(0.5) ? LayerSpec{"tanh", {}} : LayerSpec{"dropout", {}, 0.3}}; if (s.cce) add.layers.push_back({"softmax", {}});
            u64 c = g.next(); at(c); addLayers<T>(m, add); at(c); addLayers<T>(hand, add); for (auto& l : add.layers) s.layers.push_back(l); if (trained) R.event("layers-added-after-training"); R.desc += "add " + add.layers[0].kind + " "; }
        else { // look at (and sometimes work with) a layer of the model directly
            size_t i = g.next() % s.layers.size(); Layer<T>* p = m.getLayer(i); Layer<T>* r = hand.layers[i].get(); R.event("layers-inspected");
            u64 a = 1, b = 1;
            if (auto* f = dynamic_cast<FullyConnectedLayer<T>*>(p)) { auto* o = dynamic_cast<FullyConnectedLayer<T>*>(r); a = mix(hashOf(f->getWeights()) ^ hashOf(f->getBiases())); b = mix(hashOf(o->getWeights()) ^ hashOf(o->getBiases())); if (g.chance(0.3)) { auto w = f->getWeights(); w = w * T(0.9); f->setWeights(w); o->setWeights(w); R.event("weights-set"); } }
            else if (auto* f = dynamic_cast<Conv2DLayer<T>*>(p)) { auto* o = dynamic_cast<Conv2DLayer<T>*>(r); a = mix(hashOf(f->getWeights()) ^ hashOf(f->getBiases())); b = mix(hashOf(o->getWeights()) ^ hashOf(o->getBiases())); if (g.chance(0.3)) { auto w = f->getBiases() + T(0.125); f->setBiases(w); o->setBiases(w); R.event("weights-set"); } }
            else if (g.chance(0.3)) { bool t = g.chance(0.5); p->setTrainingMode(t); r->setTrainingMode(t); R.event("one-layer-mode"); }
            R.eval(); R.desc += "look "; if (a != b) { R.fail("parameters", cat("layer ", i, " has other parameters than when its parts are called by hand")); return; }
        }
        if (!ok) return;
    }
    for (size_t i = 0; i < s.layers.size(); ++i) {
        auto par = [&](Layer<T>* l) -> u64 { if (auto* f = dynamic_cast<FullyConnectedLayer<T>*>(l)) return mix(hashOf(f->getWeights()) ^ hashOf(f->getBiases())); if (auto* f = dynamic_cast<Conv2DLayer<T>*>(l)) return mix(hashOf(f->getWeights()) ^ hashOf(f->getBiases())); return 0; };
        R.eval(); if (par(m.getLayer(i)) != par(hand.layers[i].get())) { R.fail("parameters-at-the-end", cat("layer ", i, " of ", s.layers.size())); return; }
    }
    auto x = sample(); both("predict", [&] { return hashOf(m.predict(x)); }, [&] { return hashOf(hand.predict(x)); });
    m.evalMode(); hand.mode(false); both("predict", [&] { return hashOf(m.predict(x)); }, [&] { return hashOf(hand.predict(x)); });
    if (trained) R.event("trained-models");
    for (auto& l : s.layers) R.event("with-" + l.kind);
    R.nontrivial(R.desc); R.sample(cat(s.in.size(), "-dimensional input", s.cce ? " cce" : ""), R.desc);
}
int main(int argc, char** argv) { return mainLoop(argc, argv, [](Rng& g, u64) { if (g.chance(0.5)) run<float>(g); else run<double>(g); }); }
