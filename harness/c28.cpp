// C28: everything allocated is returned when the objects die, and steady work retains nothing.
#include "alloc.hpp"
#include "model.hpp"
#include "smart_dnn/Datasets/MNistLoader.hpp"
#include "smart_dnn/Tensor/SliceView.hpp"
#include "smart_dnn/Tensor/BroadcastView.hpp"
using namespace h;
using namespace smart_dnn;
struct NullBuf : std::streambuf { int overflow(int c) override { return c; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };
static volatile double sinkValue;
struct Boom : std::runtime_error { Boom() : std::runtime_error("boom") {} };
template <class T> struct Thrower : Layer<T> { // forwards n times, then throws
    int n; bool inBackward; Thrower(int n, bool b) : n(n), inBackward(b) {}
    Ten<T> forward(const Ten<T>& x) override { if (!inBackward && n-- <= 0) throw Boom(); return x; }
    Ten<T> backward(const Ten<T>& x) override { if (inBackward && n-- <= 0) throw Boom(); return x; }
    void updateWeights(Optimizer<T>&) override {}
};
static std::string what; // filled unwatched
static int rejected;
template <class F> void attempt(F f) { try { f(); } catch (const std::exception&) { ++rejected; } }
template <class T> Ten<T> fresh(Rng& g, const Dims& d) { auto v = randVec<T>(g, prod(d), UNIT); return mk(d, v); }
static void note(const std::string& s) { Unwatched u; if (what.size() < 1200) { what += s; what += ' '; } }

template <class T> void tensors(Rng& g) {
    using A = AdvancedTensorOperations<T>;
    std::vector<Ten<T>> t;
    for (int i = 0; i < 3; ++i) t.push_back(fresh<T>(g, randDims(g, 1, 4, 5, 100)));
    int n = g.range(3, 40);
    for (int i = 0; i < n; ++i) {
        Ten<T>& b = t[g.next() % t.size()]; Ten<T>& x = t[g.next() % t.size()];
        int op = g.range(0, 25); note(std::to_string(op));
        attempt([&] {
            switch (op) {
            case 0: t.push_back(x + b); break; case 1: t.push_back(x * b); break; case 2: x += b; break; case 3: x /= b; break;
            case 4: t.push_back(A::sum(x)); break; case 5: t.push_back(A::sum(x, size_t(g.range(0, 3)))); break;
            case 6: t.push_back(A::mean(x, {size_t(g.range(0, 3)), size_t(g.range(0, 3))})); break;
            case 7: t.push_back(A::matmul(x, b)); break; case 8: t.push_back(A::transpose(x, g.range(0, 3), g.range(0, 3))); break;
            case 9: x = b; break; case 10: x = std::move(b); break; case 11: { Ten<T> c(std::move(x)); x = c; break; }
            case 12: t.push_back(x.slice(g.range(0, 2), g.range(0, 3))); break;
            case 13: x.reshape(std::vector<int>{int(x.getShape().size())}); break; case 14: x.reshape(std::vector<int>{7, -1}); break;
            case 15: t.push_back(Ten<T>(Shape{2, 3}, {T(1), T(2)})); break; case 16: t.push_back(Ten<T>::rand(Shape(randDims(g, 1, 3, 5)))); break;
            case 17: t.push_back(Ten<T>::zeros(Shape{-1, 4})); break; case 18: { std::swap(x, b); break; }
            case 19: x.apply([&](T v) -> T { if (g.chance(0.2)) throw Boom(); return v; }); break;
            case 20: sinkValue = double(x.toDetailedString().size() + x.toDataString().size()); break;
            case 21: { SliceView<T> v(x.getData(), {{0, g.range(1, 3)}}, {1}); for (auto it = v.begin(); it != v.end(); ++it) sinkValue = double(*it); break; }
            case 22: { BroadcastView<T, CPUDevice> v(x.getData(), Shape{2, 3, 4}); for (auto it = v.begin(); it != v.end(); ++it) sinkValue = double(*it); break; }
            case 23: t.push_back(A::variance(x, A::mean(x, {0}), {0})); break;
            case 24: t.push_back(x.sqrt() - T(1) / x); break;
            default: t.push_back(A::applyPair(x, b, [&](T p, T q) -> T { if (g.chance(0.1)) throw Boom(); return p + q; }));
            }
        });
        while (t.size() > 8) t.erase(t.begin() + g.range(0, 7));
    }
}
template <class T> std::unique_ptr<Layer<T>> layer(Rng& g, int k, Dims& in, Dims& out) {
    int B = g.range(1, 3), c = g.range(1, 3), o = g.range(1, 4);
    switch (k) {
    case 0: in = {B, c}; out = {B, o}; return std::make_unique<FullyConnectedLayer<T>>(c, o);
    case 1: { int p = g.range(0, 1); in = {B, c, 5, 6}; out = {B, o, 3 + 2 * p, 4 + 2 * p}; return std::make_unique<Conv2DLayer<T>>(c, o, 3, 3, 1, p, 1); }
    case 2: in = {B + 1, c}; if (g.chance(0.5)) in = {B, c, 3, 3}; out = in; return std::make_unique<BatchNormalizationLayer<T>>(c);
    case 3: in = {B, c, 4, 4}; out = {B, c, 2, 2}; return std::make_unique<MaxPooling2DLayer<T>>(2, 2);
    case 4: in = {B, c}; out = in; return std::make_unique<DropoutLayer<T>>(T(0.5));
    case 5: in = {B, c, 3, 2}; out = {B, c * 6}; return std::make_unique<FlattenLayer<T>>();
    default: in = {B, c}; out = in; switch (k) { case 6: return std::make_unique<ActivationLayer<T>>(Softmax<T>()); case 7: return std::make_unique<ActivationLayer<T>>(Mish<T>()); case 8: return std::make_unique<ActivationLayer<T>>(LeakyReLU<T>()); case 9: return std::make_unique<ActivationLayer<T>>(ReLU<T>()); case 10: return std::make_unique<ActivationLayer<T>>(Sigmoid<T>()); case 11: return std::make_unique<ActivationLayer<T>>(Tanh<T>()); default: return std::make_unique<ActivationLayer<T>>(Swish<T>()); }
    }
}
template <class T> std::unique_ptr<Optimizer<T>> optimizer(Rng& g) {
    switch (g.range(0, 3)) { case 0: { SGDOptions<T> o; o.nesterov = true; return std::make_unique<SGDOptimizer<T>>(o); } case 1: { RMSPropOptions<T> o; o.centered = true; o.momentum = T(0.5); return std::make_unique<RMSPropOptimizer<T>>(o); }
    case 2: { AdamOptions<T> o; o.decay = T(0.1); return std::make_unique<AdamOptimizer<T>>(o); } default: { SGDOptions<T> o; o.momentum = T(0); return std::make_unique<SGDOptimizer<T>>(o); } }
}
template <class T> void layers(Rng& g) {
    int k = g.range(0, 12); Dims in, out; auto L = layer<T>(g, k, in, out); auto o = optimizer<T>(g);
    note(cat("layer", k, show(in)));
    int n = g.range(1, 12);
    for (int i = 0; i < n; ++i) { int op = g.range(0, 5); note(std::to_string(op)); attempt([&] {
        switch (op) { case 0: case 1: L->forward(fresh<T>(g, in)); break; case 2: L->backward(fresh<T>(g, out)); break; case 3: L->updateWeights(*o); break; case 4: L->setTrainingMode(g.chance(0.5)); break; default: if (k != 1) L->forward(fresh<T>(g, randDims(g, 1, 4, 4, 50))); else L->backward(fresh<T>(g, {1, 2})); } }); }
}
template <class T> void optimizers(Rng& g) {
    auto o = optimizer<T>(g); std::vector<std::unique_ptr<Ten<T>>> w, q; int K = g.range(1, 4), n = g.range(1, 15);
    for (int i = 0; i < K; ++i) { Dims d = randDims(g, 1, 3, 6, 60); w.push_back(std::make_unique<Ten<T>>(fresh<T>(g, d))); q.push_back(std::make_unique<Ten<T>>(fresh<T>(g, d))); }
    note("optimizer");
    for (int i = 0; i < n; ++i) {
        int a = g.range(0, K - 1), b = g.range(0, K - 1), op = g.range(0, 5); note(std::to_string(op));
        attempt([&] { switch (op) { case 0: o->optimize({*w[a]}, {*q[a]}); break; case 1: o->optimize({*w[a]}, {*q[b]}); break; case 2: o->optimize({*w[a], *w[b]}, {*q[a], *q[b]}, T(0.1)); break; case 3: o->optimize({*w[a], *w[b]}, {*q[a]}); break;
            case 4: { Dims d = randDims(g, 1, 3, 6, 60); *w[a] = fresh<T>(g, d); *q[a] = fresh<T>(g, d); break; } default: { auto c = optimizer<T>(g); c->optimize({*w[b]}, {*q[b]}); o = std::move(c); } } });
    }
}
template <class T> void models(Rng& g) {
    ModelLimits lim; lim.maxBatch = 3; std::unique_ptr<ModelSpec> s; { Unwatched u; s = std::make_unique<ModelSpec>(randomModel(g, lim)); note(s->text()); }
    struct Free { std::unique_ptr<ModelSpec>& p; ~Free() { Unwatched u; p.reset(); } } fr{s};
    SmartDNN<T> m; addLayers<T>(m, *s);
    if (g.chance(0.4)) m.addLayer(Thrower<T>(g.range(0, 4), g.chance(0.5)));
    auto comp = [&] { if (s->cce) m.compile(CategoricalCrossEntropyLoss<T>(), AdamOptimizer<T>()); else if (g.chance(0.5)) m.compile(MSELoss<T>(), SGDOptimizer<T>()); else m.compile(MSELoss<T>(), RMSPropOptimizer<T>()); };
    if (g.chance(0.9)) comp();
    int n = g.range(1, 6);
    for (int i = 0; i < n; ++i) {
        std::vector<Ten<T>> x, y; int c = g.range(0, 3), op = g.range(0, 7); for (int j = 0; j < c; ++j) { x.push_back(fresh<T>(g, s->in)); y.push_back(mk(s->out, randomTarget<T>(g, *s))); }
        note(std::to_string(op));
        attempt([&] { switch (op) { case 0: case 1: m.train(x, y, g.range(0, 2)); break; case 2: m.predict(x); break; case 3: y.push_back(fresh<T>(g, {2})); m.train(x, y, 1); break; case 4: for (auto& z : y) z = fresh<T>(g, {3, 1, 2}); m.train(x, y, 1); break; case 5: m.evalMode(); break; case 6: comp(); break; default: m.trainingMode(); } });
    }
}
template <class T> void others(Rng& g) {
    note("losses");
    MSELoss<T> a; CategoricalCrossEntropyLoss<T> b; Loss<T>* l = g.chance(0.5) ? (Loss<T>*)&a : &b;
    for (int i = 0; i < 4; ++i) { Dims d = randDims(g, 1, 3, 5, 60), e = g.chance(0.5) ? d : randDims(g, 1, 3, 5, 60); auto p = fresh<T>(g, d), q = fresh<T>(g, e); attempt([&] { l->compute(p, q); }); attempt([&] { l->gradient(p, q); }); }
    MNISTLoader<T> L("none", "none", 3); attempt([&] { L.loadData(); }); attempt([&] { L.toAsciiArt(fresh<T>(g, {1, 3, 4})); });
}
static const char* kinds[] = {"tensors", "layers", "optimizers", "models", "others"};
template <class T> void life(int kind, Rng g) {
    switch (kind) { case 0: tensors<T>(g); break; case 1: layers<T>(g); break; case 2: optimizers<T>(g); break; case 3: models<T>(g); break; default: others<T>(g); }
}
static std::vector<char> grew; // did case k leave something behind the first time
template <class T> void lifeCase(Rng& g) {
    Unwatched u;
    int kind = g.range(0, 4); u64 s = g.next(); what.clear(); rejected = 0; long long first = 0;
    R.desc = cat(kinds[kind], "<", tname<T>(), "> ", s);
    for (int round = 0; round < 3; ++round) {
        what.clear(); long long live = AS.live, bytes = AS.bytes; unsigned long long count = AS.count;
        { Rng q(s); AS.paused = false; life<T>(kind, q); AS.paused = true; }
        R.eval();
        if (round == 0) { first = AS.live - live; R.event("allocations", AS.count - count); }
        else if (AS.live > live || AS.bytes > bytes) { R.desc += " " + what; R.fail(cat("leak:", kinds[kind]), cat(AS.live - live, " blocks, ", AS.bytes - bytes, " bytes left after everything was destroyed, round ", round)); return; }
    }
    grew.push_back(first > 0); size_t n = grew.size(), c = 0;
    if (n >= 200) { for (size_t i = n - 60; i < n; ++i) c += grew[i]; if (c > 30) { R.fail("retained-after-destruction", cat(c, " of the last 60 object histories left memory behind")); grew.clear(); } }
    R.event(cat("lives-", kinds[kind])); R.event("rejected-calls", rejected);
    R.sample(kinds[kind], what); R.nontrivial(what + R.desc);
}
template <class T> void steadyCase(Rng& g) {
    Unwatched u;
    int kind = g.range(0, 5), N = g.range(12, 30), warm = 6; std::string name;
    std::function<void()> step; std::shared_ptr<void> hold;
    RandomEngine::setSeed(unsigned(g.next()));
    if (kind <= 2) { // training, prediction, evaluation
        ModelLimits lim; lim.maxBatch = 3; ModelSpec s = randomModel(g, lim);
        struct H { SmartDNN<T> m; std::vector<Ten<T>> x, y; }; auto h = std::make_shared<H>(); hold = h;
        int c = g.range(1, 3); for (int j = 0; j < c; ++j) { h->x.push_back(fresh<T>(g, s.in)); h->y.push_back(mk(s.out, randomTarget<T>(g, s))); }
        bool sizes = s.in.size() > 1 && s.out.size() > 1 && s.in[0] == s.out[0] && g.chance(0.4);
        if (sizes) { ModelSpec s2 = s; s2.in[0] = s2.out[0] = s.in[0] + g.range(1, 3); for (int j = 0; j < 2; ++j) { h->x.insert(h->x.begin() + g.range(0, int(h->x.size())), fresh<T>(g, j ? s.in : s2.in)); } h->y.clear(); for (auto& x : h->x) { const ModelSpec& q = x.getShape()[0] == s.in[0] ? s : s2; h->y.push_back(mk(q.out, randomTarget<T>(g, q))); } R.event("alternating-shapes"); }
        AS.paused = false; addLayers<T>(h->m, s);
        int o = g.range(0, 2);
        if (s.cce) h->m.compile(CategoricalCrossEntropyLoss<T>(), AdamOptimizer<T>()); else if (o == 0) h->m.compile(MSELoss<T>(), SGDOptimizer<T>()); else if (o == 1) h->m.compile(MSELoss<T>(), RMSPropOptimizer<T>()); else h->m.compile(MSELoss<T>(), AdamOptimizer<T>());
        AS.paused = true;
        bool alternate = g.chance(0.3); H* p = h.get();
        if (kind == 0) step = [=] { p->m.train(p->x, p->y, 1); };
        else if (kind == 1) step = [=] { if (alternate) { p->m.evalMode(); } p->m.predict(p->x); if (alternate) p->m.trainingMode(); };
        else step = [=] { p->m.train(p->x, p->y, 1); p->m.evalMode(); p->m.predict(p->x); p->m.predict(p->x[0]); p->m.trainingMode(); try { auto y = p->y; y.push_back(y[0]); p->m.train(p->x, y, 1); } catch (const std::exception&) {} };
        name = cat(kind == 0 ? "train " : kind == 1 ? "predict " : "train-and-predict ", s.text(), " optimizer ", s.cce ? 2 : o);
    } else if (kind == 3) {
        struct H { std::unique_ptr<Layer<T>> L; std::unique_ptr<Optimizer<T>> o; Dims in, out; std::vector<Ten<T>> x; }; auto h = std::make_shared<H>(); hold = h; int k = g.range(0, 12);
        AS.paused = false; h->L = layer<T>(g, k, h->in, h->out); h->o = optimizer<T>(g); AS.paused = true;
        h->x.push_back(fresh<T>(g, h->in)); h->x.push_back(fresh<T>(g, h->out)); H* p = h.get();
        if (g.chance(0.5)) { Dims i2 = h->in, o2 = h->out; i2[0] = o2[0] = i2[0] + g.range(1, 3); h->x.push_back(fresh<T>(g, i2)); h->x.push_back(fresh<T>(g, o2)); R.event("alternating-shapes"); }
        step = [=] { for (size_t i = 0; i < p->x.size(); i += 2) { p->L->forward(p->x[i]); p->L->backward(p->x[i + 1]); p->L->updateWeights(*p->o); } }; name = cat("layer ", k);
    } else if (kind == 4) {
        struct H { std::unique_ptr<Optimizer<T>> o; std::vector<Ten<T>> w, q; }; auto h = std::make_shared<H>(); hold = h; int K = g.range(1, 4);
        AS.paused = false; h->o = optimizer<T>(g); AS.paused = true;
        for (int i = 0; i < K; ++i) { Dims d = randDims(g, 1, 3, 6, 60); h->w.push_back(fresh<T>(g, d)); h->q.push_back(fresh<T>(g, d)); } H* p = h.get();
        bool lr = g.chance(0.5); step = [=] { std::vector<std::reference_wrapper<Ten<T>>> a(p->w.begin(), p->w.end()), b(p->q.begin(), p->q.end()); p->o->optimize(a, b, lr ? T(0.01) : T(-1)); try { b.pop_back(); p->o->optimize(a, b); } catch (const std::exception&) {} };
        name = cat("optimize ", K);
    } else {
        u64 s = g.next(); int k = g.range(0, 4); if (k == 3) k = 0; step = [=] { life<T>(k, Rng(s)); }; name = cat("lives ", kinds[k]);
    }
    R.desc = cat("steady ", name, " ", tname<T>());
    long long base = 0, baseBytes = 0; unsigned long long c0 = 0;
    for (int i = 0; i < warm + N; ++i) {
        AS.paused = false; step(); AS.paused = true;
        if (i < warm) { base = std::max(base, AS.live); baseBytes = std::max(baseBytes, AS.bytes); if (i == 0) { base = AS.live; baseBytes = AS.bytes; } c0 = AS.count; continue; }
        R.eval();
        if (i == warm + N - 1 && (AS.live > base || AS.bytes > baseBytes)) R.fail(cat("growth:", name.substr(0, name.find(' '))), cat("after ", N, " more iterations ", AS.live - base, " more blocks and ", AS.bytes - baseBytes, " more bytes are alive"));
    }
    R.event("steady-allocations", AS.count - c0); R.event(cat("steady-", name.substr(0, name.find(' '))));
    step = nullptr; AS.paused = true; hold.reset();
    R.sample("steady " + name.substr(0, 7), R.desc); R.nontrivial(R.desc);
}
int main(int argc, char** argv) {
    AS.paused = true; // only the code between watch points is counted
    static NullBuf nb; std::cout.rdbuf(&nb);
    return mainLoop(argc, argv, [](Rng& g, u64 c) {
        static bool warmed = false;
        if (!warmed) { warmed = true; for (int k = 0; k < 5; ++k) for (int i = 0; i < 20; ++i) { life<float>(k, Rng(i)); life<double>(k, Rng(i)); } }
        bool f = g.chance(0.5);
        if (c % 3 == 2) { if (f) steadyCase<float>(g); else steadyCase<double>(g); }
        else if (f) lifeCase<float>(g); else lifeCase<double>(g);
    });
}
