// C34: copies, moves and assignments of layers, activations, losses and optimizers; models keep what they were given.
#include "model.hpp"
using namespace h;
using namespace smart_dnn;
struct Event { int op; u64 seed, seen; };
struct Ctx { Dims last; u64 made = 0; };         // what the caller knows about an object
static u64 hashText(const char* s) { return hashS(s); }

// A population of objects of one type; every object carries the events it (or what it was copied or moved from) has seen.
// Replaying them on a fresh object must give the same results.
template <class O, class Make, class Apply> void population(Rng& g, const std::string& name, Make make, Apply apply, int ops, int nOps) {
    struct Obj { std::unique_ptr<O> o; std::vector<Event> h; Ctx c; };
    std::vector<Obj> pop; std::string log;
    auto fresh = [&] { Obj x; x.c.made = g.next(); x.o = std::make_unique<O>(make(x.c.made)); pop.push_back(std::move(x)); log += "new "; };
    auto event = [&](size_t i) { Event e{g.range(0, nOps - 1), g.next(), 0}; e.seen = apply(*pop[i].o, e, pop[i].c); pop[i].h.push_back(e); log += cat("e", i, " "); R.event("events"); };
    fresh(); if (g.chance(0.5)) fresh();
    bool copied = false;
    for (int s = 0; s < ops; ++s) {
        if (pop.empty()) { fresh(); continue; }
        size_t i = g.next() % pop.size(), j = g.next() % pop.size();
        double q = g.uni();
        if (q < 0.55 || pop.size() > 7) event(i);
        else if (q < 0.63) { if constexpr (std::is_copy_constructible<O>::value) { Obj x{std::make_unique<O>(*pop[i].o), pop[i].h, pop[i].c}; pop.push_back(std::move(x)); log += cat("copy", i, " "); R.event("copies-" + name); copied |= !pop[i].h.empty(); } }
        else if (q < 0.71) { if constexpr (std::is_copy_assignable<O>::value) { *pop[j].o = *pop[i].o; pop[j].h = pop[i].h; pop[j].c = pop[i].c; log += cat("assign", i, ">", j, " "); R.event("copy-assignments"); if (i == j) R.event("self-assignments"); copied = true; } }
        else if (q < 0.79) { if constexpr (std::is_move_constructible<O>::value) { Obj x{std::make_unique<O>(std::move(*pop[i].o)), pop[i].h, pop[i].c}; pop[i] = std::move(x); log += cat("move", i, " "); R.event("moves-" + name); copied = true; } }
        else if (q < 0.86) { if constexpr (std::is_move_assignable<O>::value) if (i != j) { *pop[j].o = std::move(*pop[i].o); pop[j].h = pop[i].h; pop[j].c = pop[i].c; pop.erase(pop.begin() + i); log += cat("moveassign", i, ">", j, " "); R.event("move-assignments"); copied = true; } }
        else if (q < 0.90) { if constexpr (std::is_move_constructible<O>::value && std::is_move_assignable<O>::value) if (i != j) { std::swap(*pop[i].o, *pop[j].o); std::swap(pop[i].h, pop[j].h); std::swap(pop[i].c, pop[j].c); log += cat("swap", i, ",", j, " "); R.event("swaps"); copied = true; } }
        else if (q < 0.93) { if constexpr (std::is_copy_constructible<O>::value && std::is_move_constructible<O>::value) { // through a growing vector
            std::vector<O> v; for (int k = 0; k < 3; ++k) v.push_back(*pop[i].o); log += cat("vector", i, " "); R.event("vector-growth"); pop[i].o = std::make_unique<O>(std::move(v[g.range(0, 2)])); } }
        else if (q < 0.97) { pop.erase(pop.begin() + i); log += cat("del", i, " "); }
        else fresh();
    }
    for (size_t i = 0; i < pop.size(); ++i) for (int k = 0; k < 3; ++k) { Event e{k % nOps, g.next(), 0}; e.seen = apply(*pop[i].o, e, pop[i].c); pop[i].h.push_back(e); }
    R.desc = name + " " + log;
    u64 total = 0;
    for (size_t i = 0; i < pop.size(); ++i) {
        O o = make(pop[i].c.made); Ctx c; c.made = pop[i].c.made; R.eval();
        for (size_t k = 0; k < pop[i].h.size(); ++k) {
            auto& e = pop[i].h[k]; u64 got = apply(o, e, c); total = mix(total ^ got);
            if (got != e.seen) { R.fail(name + ":history", cat("object ", i, ", event ", k, " of ", pop[i].h.size(), " (operation ", e.op, ") gave another result than on an object that was never copied or moved")); return; }
        }
    }
    if (copied) { R.event("histories-after-copies"); R.nontrivial(total); }
    R.sample(name, R.desc);
}
template <class T> u64 hashOf(const Ten<T>& t) { return hashV(dimsOf(t), vals(t), 1); }
template <class T> Ten<T> tensorOf(Rng& g, const Dims& d) { return mk(d, randVec<T>(g, prod(d), UNIT)); }
template <class T, class L> u64 layerEvent(L& l, const Event& e, Ctx& c, const std::function<Dims(Rng&)>& input) {
    Rng g(e.seed);
    RandomEngine::setSeed(unsigned(e.seed));
    try {
        switch (e.op) {
        case 0: { Ten<T> y = l.forward(tensorOf<T>(g, input(g))); c.last = dimsOf(y); return hashOf(y); }
        case 1: { if (c.last.empty()) return 0; return hashOf(l.backward(tensorOf<T>(g, c.last))); }
        case 2: { SGDOptions<T> o; o.learningRate = T(0.05); o.momentum = 0; SGDOptimizer<T> s(o); l.updateWeights(s); return 1; }
        case 3: { l.setTrainingMode(g.chance(0.5)); return 2; }
        default: { Ten<T> y = l.forward(tensorOf<T>(g, input(g))); c.last = dimsOf(y); return mix(hashOf(y) ^ hashOf(l.backward(tensorOf<T>(g, c.last)))); }
        }
    } catch (const std::exception& x) { return hashText("threw"); }
}
template <class T> void layers(Rng& g) {
    int c = g.range(1, 3), ops = g.range(5, 60);
    auto go = [&](const char* name, auto make, std::function<Dims(Rng&)> input) {
        using L = decltype(make(u64(0)));
        population<L>(g, name, make, [input](L& l, const Event& e, Ctx& x) { return layerEvent<T>(l, e, x, input); }, ops, 5);
    };
    auto flat = [c](Rng& r) { return r.chance(0.2) ? Dims{c} : Dims{r.range(1, 4), c}; };
    auto rows = [c](Rng& r) { return Dims{r.range(1, 4), c}; };
    auto image = [c](Rng& r) { return Dims{r.range(1, 2), c, r.range(3, 5), r.range(3, 5)}; };
    auto seeded = [](u64 s) { RandomEngine::setSeed(unsigned(s)); };
    int out = g.range(1, 4), k = g.range(1, 3), a = g.range(0, 6); T rate = T(g.one({0.0, 0.3, 0.5}));
    switch (g.range(0, 6)) {
    case 0: go("fc", [&](u64 s) { seeded(s); return FullyConnectedLayer<T>(c, out); }, flat); break;
    case 1: go("conv", [&](u64 s) { seeded(s); return Conv2DLayer<T>(c, out, k, 2, 1, 1, 1); }, image); break;
    case 2: go("bn", [&](u64) { return BatchNormalizationLayer<T>(c); }, g.chance(0.5) ? std::function<Dims(Rng&)>(rows) : image); break;
    case 3: go("dropout", [&](u64) { return DropoutLayer<T>(rate); }, rows); break;
    case 4: go("pool", [&](u64) { return MaxPooling2DLayer<T>(2, 1, 1); }, image); break;
    case 5: go("flatten", [&](u64) { return FlattenLayer<T>(); }, image); break;
    default: switch (a) {
        case 0: go("activation", [](u64) { return ActivationLayer<T>(ReLU<T>()); }, rows); break;
        case 1: go("activation", [](u64 s) { return ActivationLayer<T>(LeakyReLU<T>(T(double(s % 97) / 100))); }, rows); break;
        case 2: go("activation", [](u64) { Sigmoid<T> f; return ActivationLayer<T>(f); }, rows); break;
        case 3: go("activation", [](u64) { const Tanh<T> f; return ActivationLayer<T>(f); }, rows); break;
        case 4: go("activation", [](u64) { return ActivationLayer<T>(Swish<T>()); }, rows); break;
        case 5: go("activation", [](u64 s) { LeakyReLU<T> f(T(0.25)); ActivationLayer<T> l(f); f = LeakyReLU<T>(T(0.5)); return l; }, rows); break;
        default: go("activation", [](u64) { return ActivationLayer<T>(Softmax<T>()); }, rows); }
    }
}
template <class T> void optimizers(Rng& g) { // parameters at fixed places, given new values for each event: only the optimizer's state matters
    int n = g.range(1, 3), ops = g.range(5, 80); std::vector<Ten<T>> slots; std::vector<size_t> size;
    slots.reserve(n); for (int i = 0; i < n; ++i) { size.push_back(g.range(1, 5)); slots.push_back(Ten<T>(Shape{int(size[i])}, T(0))); }
    auto apply = [&](auto& o, const Event& e, Ctx&) {
        Rng r(e.seed); u64 s = 3; std::vector<std::reference_wrapper<Ten<T>>> w, gr; std::vector<Ten<T>> grads; grads.reserve(n);
        for (int i = 0; i < n; ++i) if (e.op == 0 ? i == int(e.seed % n) : r.chance(0.7)) {
            auto v = randVec<T>(r, size[i], UNIT); for (size_t k = 0; k < size[i]; ++k) slots[i].getData().data()[k] = v[k];
            grads.push_back(mk(Dims{int(size[i])}, randVec<T>(r, size[i], UNIT))); w.push_back(std::ref(slots[i])); gr.push_back(std::ref(grads.back()));
        }
        if (r.chance(0.2)) o.optimize(w, gr, T(0.05)); else o.optimize(w, gr);
        for (auto& x : w) s = mix(s ^ hashOf(x.get()));
        return s;
    };
    int k = g.range(0, 2); u64 os = g.next();
    if (k == 0) population<SGDOptimizer<T>>(g, "sgd", [os](u64 s) { Rng r(os ^ (s % 3)); SGDOptions<T> o; o.learningRate = T(r.uni(0.01, 0.2)); o.momentum = T(r.one({0.0, 0.9, 0.5})); o.nesterov = r.chance(0.4) && o.momentum > 0; if (!o.nesterov) o.dampening = T(r.one({0.0, 0.1})); o.weightDecay = T(r.one({0.0, 0.01})); return SGDOptimizer<T>(o); }, apply, ops, 2);
    else if (k == 1) population<RMSPropOptimizer<T>>(g, "rmsprop", [os](u64 s) { Rng r(os ^ (s % 3)); RMSPropOptions<T> o; o.learningRate = T(r.uni(0.001, 0.1)); o.alpha = T(r.one({0.9, 0.99})); o.centered = r.chance(0.5); o.epsilon = T(1e-3); o.momentum = T(r.one({0.0, 0.5})); return RMSPropOptimizer<T>(o); }, apply, ops, 2);
    else population<AdamOptimizer<T>>(g, "adam", [os](u64 s) { Rng r(os ^ (s % 3)); AdamOptions<T> o; o.learningRate = T(r.uni(0.001, 0.1)); o.decay = T(r.one({0.0, 0.1})); o.l2Strength = T(r.one({0.0, 0.01})); o.l1Strength = T(r.one({0.0, 0.01})); o.batchSize = r.range(1, 4); return AdamOptimizer<T>(o); }, apply, ops, 2);
}
template <class T> void functions(Rng& g) { // activations and losses
    auto apply = [](auto& f, const Event& e, Ctx&) { Rng r(e.seed); auto x = tensorOf<T>(r, Dims{r.range(1, 3), r.range(1, 4)}), y = tensorOf<T>(r, dimsOf(x)); if (e.op == 0) return hashOf(f.forward(x)); return hashOf(f.backward(x, y)); };
    auto loss = [](auto& f, const Event& e, Ctx&) { Rng r(e.seed); Dims d{r.range(1, 3), r.range(1, 4)}; auto v = randVec<T>(r, prod(d), UNIT), w = randVec<T>(r, prod(d), UNIT); for (auto& x : v) x = std::fabs(x); for (auto& x : w) x = std::fabs(x); auto x = mk(d, v), y = mk(d, w); if (e.op == 0) return hashOf(f.compute(x, y)); return hashOf(f.gradient(x, y)); };
    int ops = g.range(4, 30);
    switch (g.range(0, 5)) {
    case 0: case 1: case 2: population<LeakyReLU<T>>(g, "leaky", [](u64 s) { return LeakyReLU<T>(T(double(s % 97) / 100)); }, apply, ops, 2); break;
    case 3: population<Softmax<T>>(g, "softmax", [](u64) { return Softmax<T>(); }, apply, ops, 2); break;
    case 4: population<CategoricalCrossEntropyLoss<T>>(g, "cce", [](u64) { return CategoricalCrossEntropyLoss<T>(); }, loss, ops, 2); break;
    default: population<MSELoss<T>>(g, "mse", [](u64) { return MSELoss<T>(); }, loss, ops, 2); }
}
// a model given named layers, loss and optimizer keeps copies; the given objects stay as they were and can go on being used
template <class T> void models(Rng& g) {
    Quiet quiet; u64 s = g.next(); int in = g.range(1, 4), mid = g.range(1, 4); bool twice = g.chance(0.5), bn = g.chance(0.5), constant = g.chance(0.3); int ok = g.range(0, 2);
    if (twice) mid = in;
    R.desc = cat(tname<T>(), " in ", in, " mid ", mid, twice ? " same layer twice" : "", bn ? " bn" : "", " optimizer ", ok, constant ? " const" : "");
    auto seeded = [](u64 x) { RandomEngine::setSeed(unsigned(x)); };
    auto option = [&](auto f) { switch (ok) { case 0: { SGDOptions<T> o; o.learningRate = T(0.01); o.momentum = T(0.9); f(SGDOptimizer<T>(o)); break; } case 1: { RMSPropOptions<T> o; o.epsilon = T(1e-3); f(RMSPropOptimizer<T>(o)); break; } default: { AdamOptions<T> o; f(AdamOptimizer<T>(o)); } } };
    seeded(s); FullyConnectedLayer<T> fc(in, mid); seeded(s + 1); FullyConnectedLayer<T> last(mid, 2); BatchNormalizationLayer<T> norm(mid); ActivationLayer<T>* none = nullptr; (void)none; Tanh<T> f; MSELoss<T> loss;
    // some have a past
    Ten<T> x0 = tensorOf<T>(g, {3, in}), x1 = tensorOf<T>(g, {3, mid}), y0 = tensorOf<T>(g, {3, 2}); bool past = g.chance(0.5);
    SGDOptions<T> so; so.learningRate = T(0.1); so.momentum = 0; SGDOptimizer<T> plain(so);
    auto live = [&](FullyConnectedLayer<T>& a, BatchNormalizationLayer<T>& b) { a.forward(x0); a.backward(x1); a.updateWeights(plain); b.forward(x1); b.backward(x1); b.updateWeights(plain); };
    if (past) live(fc, norm);
    auto wf = vals(fc.getWeights()), wl = vals(last.getWeights());
    SmartDNN<T> m, ref;
    if (constant) { const auto& cf = fc; m.addLayer(cf); } else m.addLayer(fc);
    if (twice) m.addLayer(fc);
    if (bn) m.addLayer(norm);
    m.addLayer(ActivationLayer<T>(f)); m.addLayer(last);
    { // the same with objects of its own
        auto first = [&] { seeded(s); FullyConnectedLayer<T> a(in, mid); BatchNormalizationLayer<T> b(mid); if (past) live(a, b); return a; };
        auto second = [&] { seeded(s); FullyConnectedLayer<T> a(in, mid); BatchNormalizationLayer<T> b(mid); if (past) live(a, b); return b; };
        ref.addLayer(first()); if (twice) ref.addLayer(first()); if (bn) ref.addLayer(second()); ref.addLayer(ActivationLayer<T>(Tanh<T>())); seeded(s + 1); ref.addLayer(FullyConnectedLayer<T>(mid, 2));
    }
    std::vector<Ten<T>> xs{x0, tensorOf<T>(g, {3, in})}, ys{y0, tensorOf<T>(g, {3, 2})};
    auto steps = [&](auto& opt) { // the given optimizer, layers and loss go on working elsewhere
        if (g.chance(0.5)) { Ten<T> p = tensorOf<T>(g, {3}), q = tensorOf<T>(g, {3}); opt.optimize({std::ref(p)}, {std::ref(q)}); R.event("given-optimizer-used"); }
        if (g.chance(0.5)) { live(fc, norm); last.forward(x1); last.backward(y0); last.updateWeights(plain); fc.setTrainingMode(g.chance(0.5)); norm.setTrainingMode(g.chance(0.5)); norm.setTrainingMode(true); R.event("given-layers-used"); }
    };
    bool untouched = true;
    option([&](auto opt) {
        if (g.chance(0.3)) { const auto& co = opt; m.compile(loss, co); } else m.compile(loss, opt);
        option([&](auto own) { ref.compile(MSELoss<T>(), std::move(own)); });
        int rounds = g.range(1, 3);
        for (int k = 0; k < rounds; ++k) {
            if (k) steps(opt);
            bool e = g.chance(0.3); if (e) { m.evalMode(); ref.evalMode(); }
            auto a = m.predict(x0), b = ref.predict(x0); R.eval();
            if (hashOf(a) != hashOf(b)) { R.fail("model:prediction", "a model given named layers predicts otherwise than one given temporary ones"); return; }
            if (!past && k == 0 && untouched && (vals(fc.getWeights()) != wf || vals(last.getWeights()) != wl)) { R.fail("model:given-layer-changed", "predicting changed the layer that was given"); return; }
            if (e) { m.trainingMode(); ref.trainingMode(); }
            m.train(xs, ys, 2); ref.train(xs, ys, 2);
            if (k == 0) { R.eval(); if (vals(fc.getWeights()) != wf || vals(last.getWeights()) != wl) { R.fail("model:given-layer-changed", "training the model changed the layer that was given"); return; } }
            R.eval(); if (hashOf(m.predict(x0)) != hashOf(ref.predict(x0))) { R.fail("model:training", "a model given named layers trains otherwise than one given temporary ones"); return; }
        }
        if (twice) { auto* p = dynamic_cast<FullyConnectedLayer<T>*>(m.getLayer(0)); auto* q = dynamic_cast<FullyConnectedLayer<T>*>(m.getLayer(1)); R.eval(); if (!p || !q || p == q) R.fail("model:same-layer", "a layer added twice is one layer"); R.event("same-layer-twice"); }
    });
    R.event("models"); R.nontrivial(s);
}
template <class T> void run(Rng& g) { double q = g.uni(); if (q < 0.5) layers<T>(g); else if (q < 0.75) optimizers<T>(g); else if (q < 0.85) functions<T>(g); else models<T>(g); }
int main(int argc, char** argv) { return mainLoop(argc, argv, [](Rng& g, u64) { if (g.chance(0.5)) run<float>(g); else run<double>(g); }); }
