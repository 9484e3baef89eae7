// C15: backward depends on the latest forward pass only: every layer against a fresh twin that saw only that pass
#include "bn.hpp"
using namespace h;
template <class T> bool nearEq(const std::string& key, const Ten<T>& a, const Ten<T>& b) {
    auto w = vals(b); ld m = 0; for (T x : w) m = std::max(m, fabsl(ld(x)));
    return same(key, a, dimsOf(b), lds(w), std::vector<ld>(w.size(), 256 * EPS<T> * m + TINY<T>));
}
template <class T> struct Kind15 {
    std::string name; bool params;
    std::function<std::unique_ptr<smart_dnn::Layer<T>>()> make;                       // same configuration
    std::function<void(smart_dnn::Layer<T>&, smart_dnn::Layer<T>&)> copyParams;       // second <- first
    std::function<Dims(Rng&)> input;
};
template <class T> Kind15<T> randomKind(Rng& g) {
    using namespace smart_dnn;
    Kind15<T> k; k.params = false;
    k.copyParams = [](Layer<T>&, Layer<T>&) {};
    auto shared = std::make_shared<std::vector<std::vector<T>>>();
    switch (g.range(0, 9)) {
    case 0: case 1: { int in = g.range(1, 6), out = g.range(1, 6); k.name = cat("fc ", in, "->", out); k.params = true;
        k.make = [=] { return std::make_unique<FullyConnectedLayer<T>>(in, out); };
        k.copyParams = [](Layer<T>& a, Layer<T>& b) { auto& x = dynamic_cast<FullyConnectedLayer<T>&>(a); auto& y = dynamic_cast<FullyConnectedLayer<T>&>(b); y.setWeights(x.getWeights()); y.setBiases(x.getBiases()); };
        k.input = [=](Rng& g) { return g.chance(0.3) ? Dims{in} : Dims{g.range(1, 6), in}; }; break; }
    case 2: case 3: { int ic = g.range(1, 2), oc = g.range(1, 2), kh = g.range(1, 3), kw = g.range(1, 3), st = g.range(1, 2), pad = g.range(0, 1), dil = g.range(1, 2); k.name = cat("conv ", ic, oc, kh, kw, st, pad, dil); k.params = true;
        k.make = [=] { return std::make_unique<Conv2DLayer<T>>(ic, oc, kh, kw, st, pad, dil); };
        k.copyParams = [](Layer<T>& a, Layer<T>& b) { auto& x = dynamic_cast<Conv2DLayer<T>&>(a); auto& y = dynamic_cast<Conv2DLayer<T>&>(b); y.setWeights(x.getWeights()); y.setBiases(x.getBiases()); };
        k.input = [=](Rng& g) { return Dims{g.range(1, 3), ic, g.range(5, 8), g.range(5, 8)}; }; break; }
    case 4: case 5: { int F = g.range(1, 4); k.name = cat("bn ", F); k.params = true;
        k.make = [=] { return std::make_unique<BatchNormalizationLayer<T>>(F); };
        k.input = [=](Rng& g) { return bnDims(g, F, 2, 0.001); }; break; }
    case 6: { int p = g.range(1, 3), s = g.range(1, 3), q = g.range(0, p - 1); k.name = cat("maxpool ", p, s, q);
        k.make = [=] { return std::make_unique<MaxPooling2DLayer<T>>(p, s, q); };
        k.input = [=](Rng& g) { return Dims{g.range(1, 3), g.range(1, 3), g.range(3, 7), g.range(3, 7)}; }; break; }
    case 7: { T r = T(g.uni(0, 0.9)); k.name = cat("dropout ", double(r));
        k.make = [=] { return std::make_unique<DropoutLayer<T>>(r); };
        k.input = [](Rng& g) { return anyDims(g, 1, 4, 5, 100, 0.001); }; break; }
    case 8: { k.name = "flatten";
        k.make = [] { return std::make_unique<FlattenLayer<T>>(); };
        k.input = [](Rng& g) { return anyDims(g, 2, 5, 5, 200, 0.001); }; break; }
    default: { int a = g.range(0, 6); k.name = cat("activation ", actNames[a]);
        k.make = [=]() -> std::unique_ptr<Layer<T>> { switch (a) { case RELU: return std::make_unique<ActivationLayer<T>>(ReLU<T>()); case LEAKY: return std::make_unique<ActivationLayer<T>>(LeakyReLU<T>()); case SIGMOID: return std::make_unique<ActivationLayer<T>>(Sigmoid<T>()); case TANH: return std::make_unique<ActivationLayer<T>>(Tanh<T>()); case SWISH: return std::make_unique<ActivationLayer<T>>(Swish<T>()); case MISH: return std::make_unique<ActivationLayer<T>>(Mish<T>()); default: return std::make_unique<ActivationLayer<T>>(Softmax<T>()); } };
        k.input = [=](Rng& g) { return anyDims(g, a == SOFTMAX ? 2 : 1, 4, 5, 100, 0.001); }; }
    }
    return k;
}
// scale and shift of a batch normalization layer can only be set by an update
template <class T> void setBN(smart_dnn::Layer<T>& L, const std::vector<T>& gm, const std::vector<T>& bt) {
    Spy<T> s; s.assign.resize(2); s.assign[bnScaleIndex<T>()] = gm; s.assign[1 - bnScaleIndex<T>()] = bt;
    L.updateWeights(s);
}
// One layer with its own history. Several of them, of the same or of other types, are used in turns.
template <class T> struct Inst {
    Kind15<T> K; std::unique_ptr<smart_dnn::Layer<T>> L;
    bool bn, flat, have = false, backed = false;
    std::vector<T> gm, bt, x;
    std::string hist, key;
    Dims d, dy; unsigned seed = 0;
    Inst(Kind15<T> k) : K(std::move(k)), L(K.make()), bn(K.name[0] == 'b'), flat(K.name == "flatten"), hist(K.name + " " + tname<T>()), key(K.name.substr(0, K.name.find(' '))) {}
    void outOfOrder(Rng& g) {
        auto F = K.make();
        Dims d = K.input(g);
        Ten<T> U(Shape(d), T(1));
        R.event("backward-before-forward");
        mustThrow(key + ":backward-before-forward", hist, [&] { F->backward(U); });
        if (K.params) {
            Spy<T> s;
            R.event("update-before-backward");
            mustThrow(key + ":update-before-backward", hist, [&] { F->updateWeights(s); });
            F->forward(mk<T>(d, randVec<T>(g, prod(d), NORMAL)));
            mustThrow(key + ":update-after-forward-only", hist, [&] { F->updateWeights(s); });
            if (s.calls) R.fail(key + ":update-called-optimizer", hist);
        }
    }
    bool step(Rng& g) {
        int o = g.range(0, 5);
        if (!have || o <= 1) {
            d = K.input(g); x = randVec<T>(g, prod(d), NORMAL); seed = unsigned(g.next());
            RandomEngine::setSeed(seed);
            Ten<T> X = mk<T>(d, x);
            Snap<T> sx(X);
            Ten<T> y = L->forward(X);
            sx.check(key + ":input-changed");
            dy = dimsOf(y);
            hist += " forward" + show(d);
            have = true;
            R.event("forwards");
            if (prod(d) > 500) R.event("beyond-500-elements");
            if (flat) { // batch dimension and order kept
                sameExact("flatten:forward", y, Dims{d[0], int(prod(d)) / d[0]}, x);
                R.event("flattened");
            }
        } else if (o <= 4) {
            auto u = randVec<T>(g, prod(dy), NORMAL);
            Ten<T> U = mk<T>(dy, u);
            Snap<T> su(U);
            Ten<T> got = L->backward(U);
            su.check(key + ":gradient-changed");
            hist += " backward";
            auto F = K.make(); // the twin
            K.copyParams(*L, *F);
            if (bn && !gm.empty()) { Dims e{2, int(gm.size())}; F->forward(Ten<T>(Shape(e), T(1))); F->backward(Ten<T>(Shape(e), T(1))); setBN(*F, gm, bt); }
            RandomEngine::setSeed(seed);
            F->forward(mk<T>(d, x));
            Ten<T> want = F->backward(U);
            R.event("backwards"); R.event("backwards-" + key);
            if (dimsOf(got) != d) { R.fail(key + ":backward-shape", cat("gradient of shape ", show(dimsOf(got)), " for an input of shape ", show(d))); return false; }
            if (!nearEq(key + ":backward", got, want)) return false;
            if (flat) sameExact("flatten:backward", got, d, u);
            if (K.params) { // parameter gradients as the twin computes them
                Spy<T> a, b; L->updateWeights(a); F->updateWeights(b);
                R.eval();
                if (a.grads.size() != b.grads.size()) { R.fail(key + ":gradients", ""); return false; }
                for (size_t q = 0; q < a.grads.size(); ++q) { if (!nearEq(key + ":parameter-gradient", a.grads[q], b.grads[q])) return false; nearEq(key + ":parameter", a.params[q], b.params[q]); }
                R.event("parameter-gradients");
            }
            backed = true;
        } else if (K.params && backed) { // an update: assign new parameters
            Spy<T> s; L->updateWeights(s);
            std::vector<std::vector<T>> nv; for (auto& p : s.params) nv.push_back(randVec<T>(g, p.getShape().size(), NORMAL));
            s.assign = nv; L->updateWeights(s);
            if (bn) { gm = nv[bnScaleIndex<T>()]; bt = nv[1 - bnScaleIndex<T>()]; }
            hist += " update";
            R.event("updates");
        }
        return true;
    }
};
template <class T> void run(Rng& g) {
    std::vector<std::unique_ptr<Inst<T>>> is;
    Kind15<T> K = randomKind<T>(g);
    is.push_back(std::make_unique<Inst<T>>(K));
    R.desc = is[0]->hist;
    is[0]->outOfOrder(g);
    int k = g.chance(0.3) ? g.range(1, 3) : 0;
    for (int i = 0; i < k; ++i) is.push_back(std::make_unique<Inst<T>>(g.chance(0.6) ? K : randomKind<T>(g)));
    if (k) R.event("interleaved-layers");
    int n = g.chance(0.006) ? g.range(100, 300) : g.range(4, 16) + 6 * k;
    if (n > 50) R.event("long-histories");
    std::string order;
    for (int i = 0; i < n; ++i) {
        int w = g.range(0, int(is.size()) - 1);
        R.desc = order;
        for (auto& q : is) R.desc += "[" + (q->hist.size() > 600 ? "..." + q->hist.substr(q->hist.size() - 600) : q->hist) + "] ";
        if (k) order += char('0' + w);
        if (!is[w]->step(g)) return;
        R.nontrivial(hashS(order + is[w]->hist));
        if (k && g.chance(0.05)) { auto fresh = std::make_unique<Inst<T>>(is[w]->K); is[w] = std::move(fresh); R.event("replaced-layers"); } // one dies, another is made
    }
    R.sample(is[0]->key, is[0]->hist);
}
int main(int c, char** v) { return mainLoop(c, v, [](Rng& g, u64) { g.chance(0.5) ? run<float>(g) : run<double>(g); }); }
