// A random program over the parallelised operations; compiled once with and once without OpenMP.
#include "act.hpp"
#include "model.hpp"
#include "smart_dnn/Tensor/SliceView.hpp"
#include "smart_dnn/Tensor/BroadcastView.hpp"
struct Out { std::string name; std::vector<int> dims; std::vector<double> v, tol; };
namespace NS {
using namespace h;
using namespace smart_dnn;
template <class T> void put(std::vector<Out>& o, const std::string& name, const Ten<T>& t, std::vector<double> tol) { auto v = vals(t); o.push_back({name, dimsOf(t), std::vector<double>(v.begin(), v.end()), std::move(tol)}); }
// exact: small integers, so that every order of summation gives the same sum
template <class T> std::vector<T> data(Rng& g, size_t n, bool exact) { std::vector<T> v(n); for (auto& x : v) x = exact ? T(g.range(-8, 8)) : T(g.uni(-2, 2)); return v; }
template <class T> void program(u64 seed, std::vector<Out>& out, int scale) {
    using A = AdvancedTensorOperations<T>;
    Rng g(seed); bool exact = g.chance(0.5); int op = g.range(0, 15);
    auto tol = [&](size_t k, double mag) { return exact ? 0.0 : 4 * double(EPS<T>) * double(k + 2) * mag; };
    switch (op) {
    case 0: { Dims d = randDims(g, 1, 4, 12, size_t(scale)); auto a = mk(d, data<T>(g, prod(d), exact)), b = mk(d, data<T>(g, prod(d), exact)); put(out, "applyPair", A::applyPair(a, b, [](T x, T y) { return x * 2 - y; }), {0}); break; }
    case 1: { Dims d = randDims(g, 1, 4, 12, size_t(scale)); auto a = mk(d, data<T>(g, prod(d), exact)); put(out, "transpose", A::transpose(a, g.range(0, int(d.size()) - 1), g.range(0, int(d.size()) - 1)), {0}); break; }
    case 2: { int n = g.range(1, scale); auto a = mk<T>({n}, data<T>(g, n, exact)), b = mk<T>({n}, data<T>(g, n, exact)); put(out, "dot", A::matmul(a, b), {tol(n, 4.0 * n)}); break; }
    case 3: { int m = g.range(1, 40), n = g.range(1, 40); auto a = mk<T>({m, n}, data<T>(g, m * n, exact)), b = mk<T>({n}, data<T>(g, n, exact)); put(out, "matrix-vector", A::matmul(a, b), {tol(n, 4.0 * n)}); break; }
    case 4: { int m = g.range(1, 24), k = g.range(1, 24), n = g.range(1, 24); auto a = mk<T>({m, k}, data<T>(g, m * k, exact)), b = mk<T>({k, n}, data<T>(g, k * n, exact)); put(out, "matrix-matrix", A::matmul(a, b), {tol(k, 4.0 * k)}); break; }
    case 5: { int n = g.range(1, 3), m = g.range(1, 8), k = g.range(1, 8), p = g.range(1, 8); auto a = mk<T>({n, m, k}, data<T>(g, n * m * k, exact)), b = mk<T>({n, k, p}, data<T>(g, n * k * p, exact)); put(out, "batched", A::matmul(a, b), {tol(k, 4.0 * k)}); break; }
    case 6: { // Adam below and above its threshold
        int n = g.one({g.range(1, 1000), 999, 1000, 1001, g.range(1001, 2500)}); auto w = mk<T>({n}, data<T>(g, n, exact)); AdamOptions<T> o; o.learningRate = T(0.01); o.l1Strength = T(g.chance(0.3) ? 0.01 : 0); o.l2Strength = T(g.chance(0.3) ? 0.01 : 0); AdamOptimizer<T> adam(o);
        int steps = g.range(1, 3); for (int i = 0; i < steps; ++i) { auto q = mk<T>({n}, data<T>(g, n, exact)); adam.optimize({std::ref(w)}, {std::ref(q)}); } put(out, n > 1000 ? "adam-parallel" : "adam-serial", w, {1e3 * double(EPS<T>)}); break; }
    case 7: { // random tensors are reproducible
        RandomEngine::setSeed(unsigned(g.next())); Dims d = randDims(g, 1, 3, 12, size_t(scale)); put(out, "rand", Ten<T>::rand(Shape(d)), {0}); put(out, "randn", Ten<T>::randn(Shape(d), T(-1), T(1)), {0}); FullyConnectedLayer<T> f(5, 7); put(out, "fc-weights", f.getWeights(), {0}); break; }
    case 8: { // a layer
        RandomEngine::setSeed(unsigned(g.next())); int k = g.range(0, 3); std::unique_ptr<Layer<T>> L; Dims in;
        int c = g.range(1, 3);
        if (k == 0) { L = std::make_unique<FullyConnectedLayer<T>>(c, 5); in = {g.range(1, 9), c}; } else if (k == 1) { L = std::make_unique<Conv2DLayer<T>>(c, 2, 3, 2, 1, 1, 1); in = {2, c, 6, 5}; }
        else if (k == 2) { L = std::make_unique<BatchNormalizationLayer<T>>(c); in = {4, c, 3, 3}; } else { L = std::make_unique<MaxPooling2DLayer<T>>(2, 2); in = {2, c, 6, 4}; }
        auto x = mk<T>(in, data<T>(g, prod(in), exact)); auto y = L->forward(x); put(out, cat("layer-forward-", k), y, {1e2 * double(EPS<T>)}); auto q = mk<T>(dimsOf(y), data<T>(g, y.getShape().size(), exact)); put(out, cat("layer-backward-", k), L->backward(q), {1e3 * double(EPS<T>)}); break; }
    // operations that are not parallel today must stay as they are if they become so
    case 10: { int n = g.range(1, 4), m = g.range(1, 8), k = g.range(1, 8), p = g.range(1, 8); bool l = g.chance(0.5); auto a = l ? mk<T>({n, m, k}, data<T>(g, n * m * k, exact)) : mk<T>({m, k}, data<T>(g, m * k, exact)), b = l ? mk<T>({k, p}, data<T>(g, k * p, exact)) : mk<T>({n, k, p}, data<T>(g, n * k * p, exact)); put(out, l ? "batch-matrix" : "matrix-batch", A::matmul(a, b), {tol(k, 4.0 * k)}); break; }
    case 11: { Dims d = randDims(g, 1, 4, 12, size_t(scale)), e = d; for (int& x : e) if (g.chance(0.4)) x = 1; if (e.size() > 1 && g.chance(0.4)) e.erase(e.begin());
        auto a = mk(d, data<T>(g, prod(d), exact)), b = mk(e, data<T>(g, prod(e), exact)); for (size_t i = 0; i < prod(e); ++i) if (b.getData().data()[i] == T(0)) b.getData().data()[i] = T(3);
        switch (g.range(0, 4)) { case 0: put(out, "broadcast", a + b, {0}); put(out, "broadcast", b - a, {0}); break; case 1: put(out, "broadcast", a * b, {0}); put(out, "broadcast", a / b, {0}); break; case 2: a += b; a *= b; put(out, "in-place", a, {0}); break; case 3: a /= b; a -= b; put(out, "in-place", a, {0}); break; default: a *= T(2); a -= T(1); put(out, "scalar", T(3) - a / T(2), {0}); a.apply([](T x) { return x * x; }); put(out, "scalar", A::apply(a.sqrt(), [](T x) { return -x; }), {1e-6}); } break; }
    case 12: { Dims d = randDims(g, 1, 4, 12, size_t(scale)); std::vector<T> v = data<T>(g, prod(d), exact); auto a = mk(d, v); std::vector<size_t> ax; for (size_t i = 0; i < d.size(); ++i) if (g.chance(0.5)) ax.push_back(i); if (ax.empty()) ax = {0}; double k = double(prod(d)), t = 8 * double(EPS<T>) * k * 8;
        put(out, "reduction", A::sum(a), {t}); put(out, "reduction", A::sum(a, ax[0]), {t}); put(out, "reduction", A::sum(a, ax), {t}); put(out, "reduction", A::mean(a, ax), {t}); put(out, "reduction", A::variance(a, A::mean(a, ax), ax), {t * 8}); put(out, "reduction", A::variance(a, A::mean(a)), {t * 8}); break; }
    case 13: { int k = g.range(0, 6); Dims d = randDims(g, 2, 4, 9, size_t(scale)); auto a = mk(d, data<T>(g, prod(d), exact)), b = mk(d, data<T>(g, prod(d), exact)); std::unique_ptr<Activation<T>> f(newAct<T>(Act(k), T(0.1))); double t = 256 * double(EPS<T>) * double(k == 6 ? prod(d) : 1) * 8; put(out, "activation", f->forward(a), {t}); put(out, "activation", f->backward(a, b), {t}); break; }
    case 14: { Dims d{g.range(1, 30), g.range(1, 20)}; std::vector<T> p(prod(d)), y(prod(d)); for (auto& x : p) x = T(g.uni(0.05, 0.95)); for (auto& x : y) x = T(g.uni(0, 1)); auto a = mk(d, p), b = mk(d, y); double t = 16 * double(EPS<T>) * double(prod(d)); MSELoss<T> m; CategoricalCrossEntropyLoss<T> c; put(out, "loss", m.compute(a, b), {t}); put(out, "loss", m.gradient(a, b), {t}); put(out, "loss", c.compute(a, b), {t}); put(out, "loss", c.gradient(a, b), {t}); break; }
    case 15: { Dims d = randDims(g, 1, 4, 10, size_t(scale)); auto a = mk(d, data<T>(g, prod(d), exact)); int k = g.range(0, int(d.size()) - 1); put(out, "structure", d.size() > 1 ? a.slice(k, g.range(0, d[k] - 1)) : a, {0}); put(out, "structure", A::reshape(a, Shape{int(prod(d))}), {0}); Ten<T> c(a); put(out, "structure", c, {0});
        std::vector<std::pair<int, int>> sl; for (int x : d) sl.push_back({g.range(0, x - 1), x}); SliceView<T> sv(a.getData(), sl, std::vector<int>(d.size(), g.range(1, 2))); std::vector<T> w; for (auto it = sv.begin(); it != sv.end(); ++it) w.push_back(*it); put(out, "structure", mk(Dims(sv.shape().getDimensions()), w), {0});
        if (g.chance(0.5)) { // the other optimizers
            std::vector<Ten<T>> q{mk(d, data<T>(g, prod(d), exact))}; SGDOptions<T> so; so.learningRate = T(0.01); so.momentum = T(0.5); so.nesterov = g.chance(0.5); SGDOptimizer<T> sgd(so); RMSPropOptions<T> ro; ro.learningRate = T(0.01); ro.centered = g.chance(0.5); ro.epsilon = T(1e-2); RMSPropOptimizer<T> rms(ro);
            Ten<T> x(a), z(a); for (int i = 0; i < 2; ++i) { sgd.optimize({std::ref(x)}, {std::ref(q[0])}); rms.optimize({std::ref(z)}, {std::ref(q[0])}); } put(out, "sgd", x, {1e3 * double(EPS<T>)}); put(out, "rmsprop", z, {1e4 * double(EPS<T>)}); }
        break; }
    default: { // training
        RandomEngine::setSeed(unsigned(g.next())); ModelLimits q; q.maxBatch = 3; ModelSpec s = randomModel(g, q); SmartDNN<T> m; addLayers<T>(m, s); SGDOptions<T> o; o.learningRate = T(0.01);
        if (s.cce) m.compile(CategoricalCrossEntropyLoss<T>(), SGDOptimizer<T>(o)); else m.compile(MSELoss<T>(), SGDOptimizer<T>(o));
        auto x = mk<T>(s.in, randVec<T>(g, prod(s.in), UNIT)); auto y = mk<T>(s.out, randomTarget<T>(g, s)); m.train({x, x}, {y, y}, 2); m.evalMode(); put(out, "model", m.predict(x), {0.02}); break; }
    }
}
} // namespace NS
