// C36: what new layers, models and optimizers start with, and what omitted arguments mean
#include "model.hpp"
using namespace h;
using namespace smart_dnn;
template <class T> bool eqT(const Ten<T>& a, const Ten<T>& b) { return dimsOf(a) == dimsOf(b) && vals(a) == vals(b); }
template <class T> Ten<T> tensorOf(Rng& g, const Dims& d) { return mk(d, randVec<T>(g, prod(d), UNIT)); }
static void seed(u64 s) { RandomEngine::setSeed(unsigned(s)); }
template <class T> void drawn(const std::string& key, const std::vector<T>& v) { // weights: within the unit interval
    R.eval();
    for (T x : v) if (!(x >= 0 && x <= 1)) { R.fail(key + ":weight-range", cat(double(x))); return; }
    size_t zero = 0; std::set<T> d; for (T x : v) if (x == 0) ++zero; else d.insert(x);
    if (v.size() >= 40 && v.size() < 5000 && d.size() + zero < v.size() * 9 / 10) { R.fail(key + ":weights-repeat", cat(d.size(), " values and ", zero, " zeros among ", v.size())); return; }
    if (v.size() < 200) return;
    // the positive half of a normal distribution of deviation sqrt(2 / number of weights)
    double n = double(v.size()), sd = std::sqrt(2 / n), s = 0, s2 = 0, c = 0, m = sd / std::sqrt(2 * M_PI), var = sd * sd * (0.5 - 0.5 / M_PI);
    for (size_t i = 0; i < v.size(); ++i) { double x = double(v[i]) - m; s += x; s2 += double(v[i]) * double(v[i]); if (i) c += x * (double(v[i - 1]) - m); }
    R.event("weight-statistics"); R.eval(4);
    if (std::fabs(zero - n / 2) > 6.5 * std::sqrt(n / 4) + 1) R.fail(key + ":weight-zeros", cat(zero, " of ", n));
    if (std::fabs(s / n) > 6.5 * std::sqrt(var / n)) R.fail(key + ":weight-mean", cat(s / n + m, " instead of ", m, " over ", n));
    if (std::fabs(s2 / n - sd * sd / 2) > 6.5 * sd * sd * std::sqrt(1.25 / n) * 1.2) R.fail(key + ":weight-variance", cat(s2 / n, " instead of ", sd * sd / 2, " over ", n));
    if (std::fabs(c / n) > 6.5 * var / std::sqrt(n) * 1.2 + 0.1 * var / n) R.fail(key + ":weights-dependent", cat(c / n, " over ", n));
}
template <class T> void weights(Rng& g) {
    u64 s = g.next(); bool conv = g.chance(0.5);
    auto judge = [&](const std::string& key, auto make, const Dims& wd, const Dims& bd) {
        seed(s); auto a = make(); auto w = a.getWeights(), b = a.getBiases(); R.eval(4);
        if (dimsOf(w) != wd) { R.fail(key + ":weight-shape", cat(show(dimsOf(w)), " instead of ", show(wd))); return; }
        if (dimsOf(b) != bd) { R.fail(key + ":bias-shape", cat(show(dimsOf(b)), " instead of ", show(bd))); return; }
        for (T x : vals(b)) if (x != T(0)) { R.fail(key + ":bias", cat(double(x))); return; }
        drawn(key, vals(w));
        auto next = make(); if (prod(wd) >= 64 && vals(next.getWeights()) == vals(w)) R.fail(key + ":same-weights", "two layers start with the same weights");
        seed(s); auto again = make(); if (!eqT(again.getWeights(), w)) R.fail(key + ":seed", "another layer after the same seed starts with other weights");
        if (prod(wd) >= 64) { seed(s + 1 + g.range(0, 3)); auto other = make(); R.eval(); if (vals(other.getWeights()) == vals(w)) R.fail(key + ":seed-ignored", "another seed gives the same weights"); }
        // what the accessors give is a copy, and what they take is a copy
        auto copy = a.getWeights(); copy[0] = T(77); R.eval(); if (!eqT(a.getWeights(), w)) R.fail(key + ":accessor", "changing a returned tensor changes the layer");
        Ten<T> mine = tensorOf<T>(g, wd); a.setWeights(mine); Ten<T> was = mine; mine[0] = T(55); if (!eqT(a.getWeights(), was)) R.fail(key + ":set-weights", "the layer does not hold the values it was given");
        Ten<T> bias = tensorOf<T>(g, bd); a.setBiases(bias); was = bias; bias[0] = T(44); if (!eqT(a.getBiases(), was)) R.fail(key + ":set-biases", "the layer does not hold the values it was given");
        R.event("layers-" + key); if (prod(wd) >= 64) R.event("seeds-distinguished"); R.nontrivial(hashV(wd, vals(w))); R.sample(key, R.desc);
    };
    if (conv) { int ic = g.range(1, 4), oc = g.range(1, 6), kh = g.range(1, 5), kw = g.range(1, 5), st = g.range(1, 2), p = g.range(0, 2), di = g.range(1, 2); if (g.chance(0.02)) { ic = 32; oc = 64; }
        R.desc = cat(tname<T>(), " conv ", ic, " ", oc, " ", kh, "x", kw); judge("conv", [&] { return Conv2DLayer<T>(ic, oc, kh, kw, st, p, di); }, {oc, ic, kh, kw}, {oc, 1}); }
    else { int in = g.range(1, 40), out = g.range(1, 40); if (g.chance(0.02)) { in = g.range(100, 600); out = g.range(50, 200); }
        R.desc = cat(tname<T>(), " fc ", in, " ", out); judge("fc", [&] { return FullyConnectedLayer<T>(in, out); }, {in, out}, {1, out}); }
}
// two objects that must do the same from the beginning
template <class T, class A, class B> void alike(Rng& g, const std::string& key, A& a, B& b, const Dims& in) {
    R.event("defaults-" + key); u64 s = g.next();
    for (int k = 0; k < 3; ++k) {
        auto x = tensorOf<T>(g, in); if (k == 2) { a.setTrainingMode(false); b.setTrainingMode(false); }
        seed(s + k); auto p = a.forward(x); seed(s + k); auto q = b.forward(x); R.eval();
        if (!eqT(p, q)) { R.fail(key + ":default", cat("pass ", k, " differs from that of a layer given the default values explicitly")); return; }
        if (k < 2) { auto q2 = tensorOf<T>(g, dimsOf(p)); R.eval(); if (!eqT(a.backward(q2), b.backward(q2))) R.fail(key + ":default-backward", cat("pass ", k)); }
    }
    R.nontrivial(s);
}
template <class T> void defaults(Rng& g) {
    int c = g.range(1, 3), o = g.range(1, 3), k = g.range(1, 3), p = g.range(1, 3), st = g.range(1, 3), n = g.range(1, 3), h1 = g.range(3, 7), w1 = g.range(3, 7); u64 s = g.next();
    Dims img{n, c, h1, w1}; R.desc = cat(tname<T>(), " ", show(img), " kernel ", k, " pool ", p);
    switch (g.range(0, 6)) {
    case 0: { seed(s); Conv2DLayer<T> a(c, o, k); seed(s); Conv2DLayer<T> b(c, o, k, k, 1, 0, 1); alike<T>(g, "conv", a, b, img); break; }
    case 1: { MaxPooling2DLayer<T> a(p), b(p, p, 0); alike<T>(g, "pool", a, b, img); break; }
    case 2: { MaxPooling2DLayer<T> a(p, st), b(p, st, 0); alike<T>(g, "pool-stride", a, b, img); break; }
    case 3: { BatchNormalizationLayer<T> a(c), b(c, T(1e-5), T(0.9)); alike<T>(g, "bn", a, b, img); break; }
    case 4: { ActivationLayer<T> a(LeakyReLU<T>{}), b(LeakyReLU<T>(T(0.01))); alike<T>(g, "leaky", a, b, img); break; }
    case 5: { // batch normalization before any training: only the constant in the denominator shows
        T eps = T(g.one({1e-5, 1e-3, 0.5})); BatchNormalizationLayer<T> a(c, eps); a.setTrainingMode(false); auto x = tensorOf<T>(g, img); auto v = vals(x); std::vector<ld> want, tol;
        for (T y : v) { want.push_back(ld(y) / sqrtl(1 + ld(eps))); tol.push_back(8 * EPS<T> * (1 + fabsl(want.back()))); }
        same("bn:initial-statistics", a.forward(x), img, want, tol);
        Spy<T> spy; a.setTrainingMode(true); auto y = a.forward(x); a.backward(y); a.updateWeights(spy); R.eval();
        if (spy.params.size() != 2) { R.fail("bn:parameters", cat(spy.params.size())); break; }
        for (T q : vals(spy.params[0])) if (q != T(1)) R.fail("bn:initial-scale", cat(double(q)));
        for (T q : vals(spy.params[1])) if (q != T(0)) R.fail("bn:initial-shift", cat(double(q)));
        R.event("bn-initial"); break; }
    default: { // new layers are in training mode, alone and in a model
        Quiet quiet; DropoutLayer<T> d(T(0.5)); Ten<T> one(Shape{1, 120}, T(1)); int z = 0; for (T q : vals(d.forward(one))) z += q == T(0); R.eval(3);
        if (z < 8 || z > 112) R.fail("dropout:initial-mode", cat(z, " of 120 dropped"));
        SmartDNN<T> m; m.addLayer(DropoutLayer<T>(T(0.5))); z = 0; for (T q : vals(m.predict(one))) z += q == T(0); if (z < 8 || z > 112) R.fail("model:initial-mode", cat(z, " of 120 dropped"));
        BatchNormalizationLayer<T> b(1); auto y = vals(b.forward(mk<T>({4, 1}, {T(10), T(20), T(30), T(40)}))); ld sum = 0; for (T q : y) sum += q; if (fabsl(sum) > 1e-4L) R.fail("bn:initial-mode", cat("mean ", double(sum)));
        SmartDNN<T> e; bool unc = throws([&] { e.train({one}, {one}, 1); }); if (!unc) R.fail("model:initially-compiled", ""); if (!eqT(e.predict(one), one)) R.fail("model:initially-empty", "");
        R.event("initial-modes"); }
    }
}
template <class T, class O, class Opt> void optimizer(Rng& g, const std::string& key, const O& full) { // no options, default options and spelled-out options
    int n = g.range(1, 6); auto start = randVec<T>(g, n, UNIT); Opt a, b{O{}}, c{full}; Ten<T> x = mk<T>({n}, start), y = x, z = x; int steps = g.range(1, 12);
    for (int k = 0; k < steps; ++k) {
        auto q = tensorOf<T>(g, {n}); a.optimize({std::ref(x)}, {std::ref(q)}); b.optimize({std::ref(y)}, {std::ref(q)}); c.optimize({std::ref(z)}, {std::ref(q)}); R.eval(2);
        if (!eqT(x, z)) { R.fail(key + ":no-options", cat("step ", k)); return; }
        if (!eqT(y, z)) { R.fail(key + ":default-options", cat("step ", k)); return; }
    }
    R.event("defaults-" + key); R.nontrivial(hashV(Dims{n}, start));
}
template <class T> void options(Rng& g) {
    R.desc = cat(tname<T>(), " optimizer options");
    switch (g.range(0, 2)) {
    case 0: { SGDOptions<T> o; o.learningRate = T(0.01); o.momentum = T(0.9); o.dampening = 0; o.weightDecay = 0; o.nesterov = false; optimizer<T, SGDOptions<T>, SGDOptimizer<T>>(g, "sgd", o); break; }
    case 1: { RMSPropOptions<T> o; o.learningRate = T(0.01); o.alpha = T(0.99); o.epsilon = T(1e-8); o.momentum = 0; o.centered = false; o.weightDecay = 0; optimizer<T, RMSPropOptions<T>, RMSPropOptimizer<T>>(g, "rmsprop", o); break; }
    default: { AdamOptions<T> o; o.learningRate = T(0.001); o.beta1 = T(0.9); o.beta2 = T(0.999); o.epsilon = T(1e-8); o.l1Strength = o.l2Strength = o.decay = 0; o.batchSize = 1; optimizer<T, AdamOptions<T>, AdamOptimizer<T>>(g, "adam", o); }
    }
}
template <class T> void run(Rng& g) { switch (g.range(0, 3)) { case 0: case 1: weights<T>(g); break; case 2: defaults<T>(g); break; default: options<T>(g); } }
int main(int argc, char** argv) { return mainLoop(argc, argv, [](Rng& g, u64) { if (g.chance(0.5)) run<float>(g); else run<double>(g); }); }
