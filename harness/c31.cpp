// C31: the failure of every single allocation of an operation: reported, nothing leaked, nothing corrupted, retry works.
#include "alloc.hpp"
#include "model.hpp"
#include "smart_dnn/Datasets/MNistLoader.hpp"
#include "smart_dnn/Tensor/SliceView.hpp"
#include "smart_dnn/Tensor/BroadcastView.hpp"
#define KINDS 6
#include "jobs.hpp"
#include <fstream>
#include <unistd.h>
using namespace h;
using namespace smart_dnn;
static const bool MODELS = getenv("MODELS") != nullptr;
template <class T> struct World {
    std::vector<Ten<T>> t;                    // operands
    std::vector<Ten<T>> out;                  // results
    std::vector<double> num;                  // other results
    std::unique_ptr<Layer<T>> L; std::unique_ptr<Optimizer<T>> o; std::unique_ptr<Activation<T>> f; std::unique_ptr<Loss<T>> l; std::unique_ptr<SmartDNN<T>> m;
    std::vector<std::reference_wrapper<Ten<T>>> w, q; std::vector<Ten<T>> x, y; std::vector<T> v; unsigned seed = 1;
};
template <class T> struct Scenario {
    std::string name; std::function<void(World<T>&)> build, op;
    bool exact = true;     // the retried call ends like an undisturbed one
    std::vector<int> changes; // operands it changes when it succeeds
};
template <class T> Ten<T> fresh(Rng& g, const Dims& d) { return mk(d, randVec<T>(g, prod(d), UNIT)); }
template <class T> std::string digest(const World<T>& w) { // everything a caller sees
    std::ostringstream o; o.precision(17);
    auto put = [&](const Ten<T>& t) { o << show(dimsOf(t)); for (T x : vals(t)) o << x << " "; o << ";"; };
    for (auto& t : w.t) put(t); o << "|"; for (auto& t : w.out) put(t); for (double d : w.num) o << d << ","; return o.str();
}
template <class T> bool consistent(const Ten<T>& t) { size_t n = 1; for (int d : dimsOf(t)) { if (d <= 0) return false; n *= size_t(d); } if (n != t.getShape().size() || n != t.getData().size() || !t.getData().data() || t.getShape().getStride().size() != dimsOf(t).size()) return false; const T* p = t.getData().data(); volatile double s = 0; for (size_t i = 0; i < n; ++i) s = s + double(p[i]); return true; }

template <class T> Scenario<T> tensorScenario(Rng& g) {
    using A = AdvancedTensorOperations<T>; using W = World<T>;
    Scenario<T> s; Dims d = randDims(g, 1, 4, 4, 40), e = d; for (int& x : e) if (g.chance(0.3)) x = 1; if (g.chance(0.3)) e.erase(e.begin()); if (e.empty()) e = {1};
    Dims z = randDims(g, 1, 4, 4, 40); u64 sd = g.next(); int op = g.range(0, 60), ax = g.range(0, int(d.size()) - 1), ax2 = g.range(0, int(d.size()) - 1); T c = T(g.uni(0.5, 3));
    s.build = [=](W& w) { Rng q(sd); w.t.push_back(fresh<T>(q, d)); w.t.push_back(fresh<T>(q, d)); w.t.push_back(fresh<T>(q, e)); w.t.push_back(fresh<T>(q, z)); w.v = vals(w.t[0]); w.out.reserve(4); };
    auto res = [&](const char* n, auto f) { s.name = n; s.op = [f](W& w) { w.out.push_back(f(w)); }; };
    auto mut = [&](const char* n, auto f, std::vector<int> ch = {0}) { s.name = n; s.op = f; s.changes = ch; };
    switch (op) {
    case 0: res("ctor-shape", [=](W&) { return Ten<T>(Shape(d)); }); break; case 1: res("ctor-fill", [=](W&) { return Ten<T>(Shape(d), c); }); break;
    case 2: res("ctor-vector", [=](W& w) { return Ten<T>(Shape(d), w.v); }); break; case 3: res("ctor-moved-vector", [=](W& w) { auto v = w.v; return Ten<T>(Shape(d), std::move(v)); }); break;
    case 4: res("ctor-list", [=](W&) { return Ten<T>(Shape{2, 2}, {T(1), T(2), T(3), T(4)}); }); break; case 5: res("ctor-pointer", [=](W& w) { return Ten<T>(Shape(d), (const T*)w.v.data()); }); break;
    case 6: res("copy", [](W& w) { return Ten<T>(w.t[0]); }); break;
    case 7: mut("move", [](W& w) { w.out.push_back(std::move(w.t[0])); }, {0}); break;
    case 8: mut("copy-assign", [](W& w) { w.t[0] = w.t[3]; }); break; case 9: mut("copy-assign-same-shape", [](W& w) { w.t[0] = w.t[1]; }); break;
    case 10: mut("swap", [](W& w) { std::swap(w.t[0], w.t[3]); }, {0, 3}); break; case 11: mut("self-assign", [](W& w) { auto& a = w.t[0]; a = *&a; }); break;
    case 12: s.name = "vector-growth"; s.op = [](W& w) { w.t.shrink_to_fit(); w.t.push_back(w.t[0]); w.t.pop_back(); }; break;
    case 13: res("add", [](W& w) { return w.t[0] + w.t[1]; }); break; case 14: res("subtract-broadcast", [](W& w) { return w.t[0] - w.t[2]; }); break; case 15: res("multiply-broadcast", [](W& w) { return w.t[2] * w.t[0]; }); break; case 16: res("divide", [](W& w) { return w.t[0] / w.t[1]; }); break;
    case 17: mut("add-in-place", [](W& w) { w.t[0] += w.t[2]; }); break; case 18: mut("subtract-in-place", [](W& w) { w.t[0] -= w.t[1]; }); break; case 19: mut("multiply-in-place", [](W& w) { w.t[0] *= w.t[2]; }); break; case 20: mut("divide-in-place", [](W& w) { w.t[0] /= w.t[1]; }); break;
    case 21: res("scalar", [=](W& w) { return w.t[0] * c + c - c; }); break; case 22: mut("scalar-in-place", [=](W& w) { w.t[0] *= c; }); break; case 23: res("left-scalar", [=](W& w) { return c / (c - w.t[0]); }); break;
    case 24: res("negate-sqrt", [](W& w) { return (-(w.t[0] * w.t[0])).sqrt(); }); break; case 25: mut("apply-in-place", [=](W& w) { w.t[0].apply([c](T x) { return x * c; }); }); break;
    case 26: res("apply", [=](W& w) { return A::apply(w.t[0], [c](T x) { return x + c; }); }); break; case 27: res("applyPair", [](W& w) { return A::applyPair(w.t[0], w.t[1], [](T x, T y) { return x + y; }); }); break;
    case 28: res("sum", [](W& w) { return A::sum(w.t[0]); }); break; case 29: res("sum-axis", [=](W& w) { return A::sum(w.t[0], size_t(ax)); }); break; case 30: res("sum-axes", [=](W& w) { return A::sum(w.t[0], {size_t(ax), size_t(ax2)}); }); break;
    case 31: res("mean-axes", [=](W& w) { return A::mean(w.t[0], {size_t(ax)}); }); break; case 32: res("variance-axes", [=](W& w) { return A::variance(w.t[0], A::mean(w.t[0], {size_t(ax)}), {size_t(ax)}); }); break;
    case 33: res("variance", [](W& w) { return A::variance(w.t[0], A::mean(w.t[0])); }); break; case 34: res("transpose", [=](W& w) { return A::transpose(w.t[0], ax, ax2); }); break;
    case 35: res("reciprocal", [](W& w) { return A::reciprocal(w.t[0]); }); break; case 36: res("reshape-copy", [=](W& w) { return A::reshape(w.t[0], Shape{int(prod(d))}); }); break;
    case 37: mut("reshape", [=](W& w) { w.t[0].reshape(Dims{int(prod(d)), 1}); }); break; case 38: mut("reshape-shape", [=](W& w) { w.t[0].reshape(Shape{1, int(prod(d))}); }); break;
    case 39: { Dims m1{g.range(1, 4), g.range(1, 4)}, m2{m1[1], g.range(1, 4)}; int k = g.range(0, 5); Dims p = m1, q = m2;
        if (k == 1) p = {m1[1]}, q = {m1[1]}; if (k == 2) p = {m1[1]}; if (k == 3) q = {m1[1]}; if (k == 4) p.insert(p.begin(), 2); if (k == 5) p.insert(p.begin(), 2), q.insert(q.begin(), 2);
        s.build = [=](W& w) { Rng r(sd); w.t.push_back(fresh<T>(r, p)); w.t.push_back(fresh<T>(r, q)); w.out.reserve(2); }; res("matmul", [](W& w) { return A::matmul(w.t[0], w.t[1]); }); break; }
    case 40: { Dims q = d; q.insert(q.begin(), 2); s.build = [=](W& w) { Rng r(sd); w.t.push_back(fresh<T>(r, q)); w.out.reserve(2); }; res("slice", [](W& w) { return w.t[0].slice(0, 1); }); break; }
    case 41: s.name = "slice-view"; s.op = [](W& w) { SliceView<T> v(w.t[0].getData(), std::vector<std::pair<int, int>>(w.t[0].getShape().rank(), {0, 1}), std::vector<int>(w.t[0].getShape().rank(), 1)); double q = 0; for (auto it = v.begin(); it != v.end(); ++it) q += double(*it); w.num.push_back(q); }; break;
    case 42: s.name = "broadcast-view"; s.op = [=](W& w) { Dims q = d; q.insert(q.begin(), 3); BroadcastView<T, CPUDevice> v(w.t[0].getData(), Shape(q)); double r = 0; for (auto it = v.begin(); it != v.end(); ++it) r += double(*it); w.num.push_back(r); }; break;
    case 43: res("factories", [=](W&) { return Ten<T>::ones(Shape(d)) + Ten<T>::zeros(Shape(d)); }); break;
    case 44: s.name = "compare"; s.op = [](W& w) { w.num.push_back((w.t[0] == w.t[1]) + 2 * (w.t[0] != w.t[0])); }; break;
    case 45: res("rand", [=](W&) { RandomEngine::setSeed(7); return Ten<T>::randn(Shape(d), T(-1), T(1)); }); break; case 46: res("identity", [](W&) { return Ten<T>::identity(3); }); break;
    case 48: { int n = int(prod(d)); mut("reshape-list", [=](W& w) { w.t[0].reshape({1, n}); }); break; }
    case 49: { int k = g.range(0, 3), n = g.range(1, 30); res("factories-int", [=](W&) { RandomEngine::setSeed(9); return k == 0 ? Ten<T>::ones(n) : k == 1 ? Ten<T>::zeros(n) : k == 2 ? Ten<T>::rand(n) : Ten<T>::randn(n, T(-1), T(1)); }); break; }
    case 50: s.name = "slice-view-set"; s.op = [](W& w) { SliceView<T> v(w.t[0].getData(), std::vector<std::pair<int, int>>(w.t[0].getShape().rank(), {0, 1}), std::vector<int>(w.t[0].getShape().rank(), 1)); v.set(Dims(w.t[0].getShape().rank(), 0), T(5)); }; s.changes = {0}; break;
    case 51: s.name = "shapes"; s.op = [](W& w) { auto a = ShapeOperations::broadcastShapes(w.t[0].getShape(), w.t[2].getShape()), b = ShapeOperations::concat(w.t[0].getShape(), w.t[3].getShape()); w.num.push_back(double(a.size()) + double(b.size()) * 100 + ShapeOperations::areBroadcastable(w.t[0].getShape(), w.t[2].getShape())); Shape c(b); c = a; std::swap(c, b); w.num.push_back(double(c.rank()) + (c == b)); }; break;
    case 52: { int k = g.range(1, 3), o = g.range(1, 3); bool conv = g.chance(0.5); s.build = [=](W& w) { RandomEngine::setSeed(3); if (conv) w.L = std::make_unique<Conv2DLayer<T>>(k, o, 2); else w.L = std::make_unique<FullyConnectedLayer<T>>(k, o); w.out.reserve(4); };
        s.name = "weights"; s.exact = false; s.op = [=](W& w) { auto go = [&](auto& l) { auto a = l.getWeights(), b = l.getBiases(); l.setWeights(a + T(1)); l.setBiases(b + T(1)); l.setWeights(a); l.setBiases(b); w.out.push_back(l.getWeights()); }; if (conv) go(dynamic_cast<Conv2DLayer<T>&>(*w.L)); else go(dynamic_cast<FullyConnectedLayer<T>&>(*w.L)); }; break; }
    case 53: s.name = "mnist-load"; s.op = [](W& w) { MNISTLoader<T> m(mnistImages, mnistLabels, 3, 5); auto q = m.loadData(); for (auto& t : q.first) for (T x : vals(t)) w.num.push_back(double(x)); for (auto& t : q.second) for (T x : vals(t)) w.num.push_back(double(x)); }; break;
    case 54: { bool b = g.chance(0.5); s.name = "generator"; s.op = [=](W& w) { auto q = b ? generateBatchedLinearDataset(7, 3) : generateLinearDataset(4); w.num.push_back(double(q.first.size()) + 10.0 * double(q.second.size())); }; break; }
    case 55: { Dims ix(d.size()); for (size_t i = 0; i < d.size(); ++i) ix[i] = g.range(0, d[i] - 1); mut("at-write", [=](W& w) { w.t[0].at(ix) = c; }); break; }
    case 56: mut("sqrt-chain", [](W& w) { w.t[0] = ((w.t[0] * w.t[0]) + w.t[1] * w.t[1]).sqrt(); }); break;
    case 57: s.name = "views-of-results"; s.op = [=](W& w) { auto y = w.t[0] + w.t[2]; Dims q = d; q.insert(q.begin(), 2); BroadcastView<T, CPUDevice> v(y.getData(), Shape(q)), v2(v); std::vector<T> r; for (T x : v2) r.push_back(x); w.out.push_back(Ten<T>(Shape(q), std::move(r))); }; break;
    default: s.name = "at"; s.op = [=](W& w) { w.num.push_back(double(w.t[0].at(Dims(d.size(), 0)))); }; break;
    }
    return s;
}
template <class T> Scenario<T> objectScenario(Rng& g) {
    using W = World<T>; Scenario<T> s; u64 sd = g.next(); int what = g.range(0, 5);
    auto newOpt = [](int k) -> std::unique_ptr<Optimizer<T>> { if (k == 0) { SGDOptions<T> o; o.nesterov = true; return std::make_unique<SGDOptimizer<T>>(o); } if (k == 1) { RMSPropOptions<T> o; o.centered = true; o.momentum = T(0.5); return std::make_unique<RMSPropOptimizer<T>>(o); } return std::make_unique<AdamOptimizer<T>>(); };
    int ok = g.range(0, 2);
    if (what <= 2) { // layers
        int k = g.range(0, 7), B = g.range(1, 2), c = g.range(1, 2), o = g.range(1, 3), phase = what; bool eval = g.chance(0.2) && phase == 0; Dims in{B, c}, out = in; static const char* names[] = {"fc", "conv", "bn", "maxpool", "dropout", "flatten", "activation", "fc-unbatched"};
        if (k == 1) { in = {B, c, 3, 3}; out = {B, o, 2, 2}; } if (k == 2) { in = g.chance(0.5) ? Dims{2, c, 2, 2} : Dims{3, c}; out = in; } if (k == 3) { in = {B, c, 2, 4}; out = {B, c, 1, 2}; } if (k == 5) { in = {B, c, 2, 2}; out = {B, c * 4}; } if (k == 0) out = {B, o}; if (k == 7) { in = {c}; out = {o}; }
        int a = g.range(0, 6); if (a == 6 && in.size() < 2) a = 0;
        if (phase == 2 && k >= 3 && k <= 6) phase = 1;
        auto make = [=](W& w) { RandomEngine::setSeed(unsigned(sd)); switch (k) { case 0: case 7: w.L = std::make_unique<FullyConnectedLayer<T>>(c, o); break; case 1: w.L = std::make_unique<Conv2DLayer<T>>(c, o, 2); break; case 2: w.L = std::make_unique<BatchNormalizationLayer<T>>(c); break; case 3: w.L = std::make_unique<MaxPooling2DLayer<T>>(2, 2); break; case 4: w.L = std::make_unique<DropoutLayer<T>>(T(0.5)); break; case 5: w.L = std::make_unique<FlattenLayer<T>>(); break;
            default: switch (a) { case 0: w.L = std::make_unique<ActivationLayer<T>>(ReLU<T>()); break; case 1: w.L = std::make_unique<ActivationLayer<T>>(LeakyReLU<T>()); break; case 2: w.L = std::make_unique<ActivationLayer<T>>(Sigmoid<T>()); break; case 3: w.L = std::make_unique<ActivationLayer<T>>(Tanh<T>()); break; case 4: w.L = std::make_unique<ActivationLayer<T>>(Swish<T>()); break; case 5: w.L = std::make_unique<ActivationLayer<T>>(Mish<T>()); break; default: w.L = std::make_unique<ActivationLayer<T>>(Softmax<T>()); } } };
        s.build = [=](W& w) { Rng q(sd); w.t.push_back(fresh<T>(q, in)); w.t.push_back(fresh<T>(q, out)); w.out.reserve(4); make(w); w.o = newOpt(ok); if (eval) w.L->setTrainingMode(false); if (phase >= 1) w.L->forward(w.t[0]); if (phase == 2) w.L->backward(w.t[1]); };
        s.name = cat("layer-", names[k], phase == 0 ? "-forward" : phase == 1 ? "-backward" : "-update");
        if (g.chance(0.1)) { s.build = [=](W& w) { Rng q(sd); w.t.push_back(fresh<T>(q, in)); w.out.reserve(4); }; s.op = [=](W& w) { make(w); w.out.push_back(w.L->forward(w.t[0])); }; s.name = cat("layer-", names[k], "-construct"); return s; }
        if (phase == 0) s.op = [=](W& w) { RandomEngine::setSeed(unsigned(sd) + 1); w.out.push_back(w.L->forward(w.t[0])); };
        else if (phase == 1) s.op = [=](W& w) { w.out.push_back(w.L->backward(w.t[1])); };
        else { s.exact = false; s.op = [=](W& w) { w.L->updateWeights(*w.o); }; }
    } else if (what == 3) {
        int K = g.range(1, 3); std::vector<Dims> ds; for (int i = 0; i < K; ++i) ds.push_back(randDims(g, 1, 3, 4, 30)); bool before = g.chance(0.4);
        s.build = [=](W& w) { Rng q(sd); w.o = newOpt(ok); w.t.reserve(8); for (auto& d : ds) { w.t.push_back(fresh<T>(q, d)); } for (auto& d : ds) w.t.push_back(fresh<T>(q, d)); for (int i = 0; i < K; ++i) { w.w.push_back(std::ref(w.t[i])); w.q.push_back(std::ref(w.t[K + i])); } if (before) w.o->optimize(w.w, w.q); };
        s.op = [](W& w) { w.o->optimize(w.w, w.q); }; s.exact = K == 1; for (int i = 0; i < K; ++i) s.changes.push_back(i); s.name = cat("optimizer-", ok, K == 1 ? "-single" : "-group");
    } else if (what == 4) {
        bool cce = g.chance(0.5), gr = g.chance(0.5); Dims d{g.range(1, 3), g.range(2, 4)};
        s.build = [=](W& w) { Rng q(sd); std::vector<T> p(prod(d)); for (auto& x : p) x = T(q.uni(0.05, 0.95)); w.t.push_back(mk(d, p)); w.t.push_back(mk(d, p)); w.out.reserve(2); if (cce) w.l = std::make_unique<CategoricalCrossEntropyLoss<T>>(); else w.l = std::make_unique<MSELoss<T>>(); };
        s.op = [=](W& w) { w.out.push_back(gr ? w.l->gradient(w.t[0], w.t[1]) : w.l->compute(w.t[0], w.t[1])); }; s.name = cat("loss-", cce ? "cce" : "mse", gr ? "-gradient" : "");
    } else {
        int a = g.range(0, 6); bool bw = g.chance(0.5); Dims d = randDims(g, 2, 4, 4, 40);
        s.build = [=](W& w) { Rng q(sd); w.t.push_back(fresh<T>(q, d)); w.t.push_back(fresh<T>(q, d)); w.out.reserve(2); w.f.reset(newAct<T>(Act(a), T(0.1))); };
        s.op = [=](W& w) { w.out.push_back(bw ? w.f->backward(w.t[0], w.t[1]) : w.f->forward(w.t[0])); }; s.name = cat("activation-", actNames[a]);
    }
    return s;
}
template <class T> Scenario<T> modelScenario(Rng& g) {
    using W = World<T>; Scenario<T> s; u64 sd = g.next(); ModelLimits q; q.maxBatch = 2; auto sp = std::make_shared<ModelSpec>(randomModel(g, q)); int k = g.range(0, 4), opt = g.range(0, 2);
    auto comp = [=](SmartDNN<T>& m) { auto with = [&](auto o) { if (sp->cce) m.compile(CategoricalCrossEntropyLoss<T>(), o); else m.compile(MSELoss<T>(), o); }; if (opt == 0) with(SGDOptimizer<T>()); else if (opt == 1) with(RMSPropOptimizer<T>()); else with(AdamOptimizer<T>()); };
    s.build = [=](W& w) { Rng r(sd); RandomEngine::setSeed(unsigned(sd)); w.m = std::make_unique<SmartDNN<T>>(); for (int i = 0; i < 2; ++i) { w.x.push_back(fresh<T>(r, sp->in)); w.y.push_back(mk(sp->out, randomTarget<T>(r, *sp))); } w.out.reserve(4); if (k == 2) return; addLayers<T>(*w.m, *sp); if (k != 3) comp(*w.m); if (k == 4) w.m->evalMode(); };
    s.exact = false; static const char* names[] = {"train", "train", "build", "compile", "predict"}; s.name = cat("model-", names[k]);
    if (k <= 1) s.op = [=](W& w) { w.m->train(w.x, w.y, 1); }; else if (k == 2) s.op = [=](W& w) { auto m = std::make_unique<SmartDNN<T>>(); addLayers<T>(*m, *sp); comp(*m); w.m = std::move(m); }; else if (k == 3) s.op = [=](W& w) { comp(*w.m); }; else { s.exact = true; s.op = [=](W& w) { for (auto& p : w.m->predict(w.x)) w.out.push_back(p); }; }
    return s;
}
template <class T> struct Runner {
    Rng& g; Scenario<T> s;
    std::unique_ptr<World<T>> make() { auto w = std::make_unique<World<T>>(); AS.paused = false; w->num.reserve(1000); s.build(*w); AS.paused = true; return w; }
    // 0 completed, 1 threw; fault: let the n-th allocation fail
    int attempt(World<T>& w, long long n, bool& failed, std::string& err) {
        AS.failed = false; AS.failAt = n; AS.paused = false; int r = 0;
        try { s.op(w); } catch (const std::exception& e) { r = 1; AS.paused = true; AS.failAt = 0; err = e.what(); } catch (...) { r = 1; AS.paused = true; err = "?"; R.fail(s.name + ":nonstandard-exception", "allocation failure reported by something else than a standard exception"); }
        AS.paused = true; AS.failAt = 0; failed = AS.failed; return r;
    }
    void operator()() {
        bool failed; std::string err; long long total;
        // an undisturbed run
        auto ref = make(); auto c0 = AS.count;
        if (attempt(*ref, 0, failed, err)) { R.fail(s.name + ":reference", "threw without a fault: " + err); return; }
        total = (long long)(AS.count - c0); std::string want = digest(*ref); ref.reset();
        R.desc = cat(s.name, " <", tname<T>(), "> ", total, " allocations");
        std::vector<long long> points; if (total <= 80) for (long long i = 1; i <= total; ++i) points.push_back(i); else { std::set<long long> p; for (int i = 0; i < 60; ++i) p.insert(1 + (long long)(g.next() % u64(total))); points.assign(p.begin(), p.end()); }
        if (total <= 80) R.event("operations-enumerated"); else R.event("operations-sampled");
        for (long long n : points) {
            long long live0 = AS.live, bytes0 = AS.bytes;
            {
                auto w = make(); std::vector<Ten<T>> before; for (auto& t : w->t) before.push_back(t); size_t outs = w->out.size();
                std::vector<Snap<T>> xs; for (auto& t : w->x) xs.emplace_back(t); for (auto& t : w->y) xs.emplace_back(t);
                int faults = g.chance(0.25) ? 2 : 1; long long at = n; bool stop = false;
                for (int f = 0; f < faults && !stop; ++f) {
                    long long live = AS.live; R.eval();
                    int r = attempt(*w, at, failed, err);
                    R.desc = cat(s.name, " <", tname<T>(), "> allocation ", at, " of ", total, f ? " (second fault)" : "");
                    if (!failed) { stop = true; if (r) R.fail(s.name + ":later-call-failed", "threw without a fault: " + err); break; }
                    R.event("faults");
                    if (!r && s.name == "model-train") { stop = true; break; } // the text of the printed loss: streams swallow exceptions
                    if (!r) { R.fail(s.name + ":swallowed", "the failed allocation was not reported"); stop = true; break; }
                    for (size_t i = 0; i < w->t.size(); ++i) {
                        R.eval();
                        if (!consistent(w->t[i])) { R.fail(s.name + ":broken-operand", cat("operand ", i)); stop = true; continue; }
                        bool mayChange = s.name.rfind("optimizer", 0) == 0 && std::count(s.changes.begin(), s.changes.end(), int(i));
                        if (!mayChange && (dimsOf(w->t[i]) != dimsOf(before[i]) || memcmp(w->t[i].getData().data(), before[i].getData().data(), before[i].getShape().size() * sizeof(T)) != 0)) R.fail(s.name + ":operand-changed", cat("operand ", i, " of a failed call"));
                    }
                    for (auto& x : xs) x.check(s.name + ":data-changed");
                    bool stateless = !w->L && !w->o && !w->m;
                    if (stateless && w->out.size() == outs && AS.live > live) R.fail(s.name + ":leak", cat(AS.live - live, " blocks"));
                    while (w->out.size() > outs) w->out.pop_back();
                    w->num.clear();
                    at = 1 + (long long)(g.next() % u64(std::max(1LL, total)));
                }
                if (stop) { /* a second fault was beyond the last allocation: the call completed */ }
                else {
                    R.eval();
                    if (attempt(*w, 0, failed, err)) R.fail(s.name + ":retry-failed", err);
                    R.event("retries");
                }
                if (s.exact && digest(*w) != want) R.fail(s.name + ":retry-differs", "the retried call ended differently from an undisturbed one: " + digest(*w).substr(0, 300) + " instead of " + want.substr(0, 300));
                for (auto& t : w->t) if (!consistent(t)) R.fail(s.name + ":broken-after-retry", "");
            }
            R.eval();
            if (AS.live > live0 || AS.bytes > bytes0) { R.fail(s.name + ":leak", cat(AS.live - live0, " blocks, ", AS.bytes - bytes0, " bytes after everything was destroyed")); }
        }
        R.event("op-" + s.name.substr(0, s.name.find('-', s.name.find('-') + 1))); R.sample(s.name.substr(0, s.name.find('-')), cat(s.name, ": ", points.size(), " of ", total, " allocations failed in turn")); R.nontrivial(cat(s.name, total, tname<T>(), want));
    }
};
template <class T> void run(Rng& g) {
    int k = MODELS ? 2 : g.range(0, 1);
    Runner<T> r{g, k == 0 ? tensorScenario<T>(g) : k == 1 ? objectScenario<T>(g) : modelScenario<T>(g)};
    // start once without watching, so that what is initialised once per process exists
    { auto w = std::make_unique<World<T>>(); r.s.build(*w); r.s.op(*w); }
    r();
}
int main(int argc, char** argv) { AS.paused = true; makeMnist(); atexit(dropMnist); static NullBuf nb; std::cout.rdbuf(&nb); return mainLoop(argc, argv, [](Rng& g, u64) { if (g.chance(0.5)) run<float>(g); else run<double>(g); }); }
