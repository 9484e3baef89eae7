// C17 (SGD), C18 (RMSProp), C19 (Adam): every step of random histories against the update rule in long double.
// The reference restarts each step from the library's own parameters and keeps the running averages itself,
// with a bound on the rounding error they may carry.
#include "common.hpp"
#include "smart_dnn/Optimizers/SGDOptimizer.hpp"
#include "smart_dnn/Optimizers/RMSPropOptimizer.hpp"
#include "smart_dnn/Optimizers/AdamOptimizer.hpp"
using namespace h;
struct B { ld v = 0, e = 0; };                       // a value and the error it may carry
template <class T> B upd(ld a, B s, ld b, B x) {     // a*s + b*x in T
    B r; r.v = a * s.v + b * x.v;
    r.e = fabsl(a) * s.e + fabsl(b) * x.e + 6 * EPS<T> * (fabsl(a * s.v) + fabsl(b * x.v)) + 4 * TINY<T>;
    return r;
}
static double lg(Rng& g, double lo, double hi) { return std::pow(10.0, g.uni(lo, hi)); }
// One element's reference. step() gives the movement (to subtract) and its error bound.
#if OPT == 17
template <class T> struct Ref {
    smart_dnn::SGDOptions<T> o; B vel;
    static smart_dnn::SGDOptions<T> options(Rng& g) {
        smart_dnn::SGDOptions<T> o;
        o.learningRate = T(g.one({0.01, 0.1, 0.5, 1.0, 1e-4}));
        o.momentum = g.chance(0.3) ? T(0) : T(g.one({0.9, 0.5, 0.99, 0.1}));
        o.dampening = g.chance(0.5) ? T(0) : T(g.one({0.5, 0.1, 0.9, 1.0}));
        o.weightDecay = g.chance(0.5) ? T(0) : T(g.one({0.1, 0.01, 1e-4}));
        o.nesterov = g.chance(0.4);
        if (g.chance(0.3)) { // anything, not only the usual values
            R.event("unusual-options");
            if (g.chance(0.6)) o.learningRate = T(lg(g, -7, 1.5));
            if (g.chance(0.6)) o.momentum = T(g.chance(0.5) ? g.uni(0, 1) : g.chance(0.5) ? 1 - lg(g, -5, 0) : lg(g, -6, 0));
            if (g.chance(0.6)) o.dampening = T(g.chance(0.5) ? g.uni(0, 1) : lg(g, -6, 0));
            if (g.chance(0.6)) o.weightDecay = T(lg(g, -7, 0.5));
        }
        R.event(o.momentum == 0 ? "no-momentum" : o.nesterov ? "nesterov" : "momentum");
        if (o.dampening != 0 && o.momentum != 0) R.event("dampening");
        if (o.weightDecay != 0) R.event("weight-decay");
        return o;
    }
    static std::string text(const smart_dnn::SGDOptions<T>& o) { return cat("SGD<", tname<T>(), "> lr ", o.learningRate, " momentum ", o.momentum, " dampening ", o.dampening, " decay ", o.weightDecay, " nesterov ", o.nesterov); }
    B step(ld w, ld gr, ld over) {
        ld lr = over > 0 ? over : ld(o.learningRate);
        B g = upd<T>(1, {gr, 0}, o.weightDecay, {w, 0});
        if (o.momentum != 0) { vel = upd<T>(o.momentum, vel, 1 - ld(o.dampening), g); g = o.nesterov ? upd<T>(1, g, o.momentum, vel) : vel; }
        return {lr * g.v, lr * g.e + 4 * EPS<T> * fabsl(lr * g.v) + TINY<T>};
    }
};
template <class T> using Opt = smart_dnn::SGDOptimizer<T>;
#elif OPT == 18
template <class T> struct Ref {
    smart_dnn::RMSPropOptions<T> o; B sq, mean, vel;
    static smart_dnn::RMSPropOptions<T> options(Rng& g) {
        smart_dnn::RMSPropOptions<T> o;
        o.learningRate = T(g.one({0.01, 0.1, 0.001}));
        o.alpha = T(g.one({0.99, 0.9, 0.5, 0.999}));
        o.epsilon = T(g.one({1e-8, 1e-4, 1e-6, 1e-2}));
        o.momentum = g.chance(0.4) ? T(0) : T(g.one({0.9, 0.5}));
        o.centered = g.chance(0.5);
        o.weightDecay = g.chance(0.5) ? T(0) : T(g.one({0.1, 0.01}));
        if (g.chance(0.3)) {
            R.event("unusual-options");
            if (g.chance(0.6)) o.learningRate = T(lg(g, -7, 1));
            if (g.chance(0.6)) o.alpha = T(g.chance(0.5) ? g.uni(0, 1) : g.chance(0.8) ? 1 - lg(g, -5, 0) : 0);
            if (g.chance(0.6)) o.epsilon = T(lg(g, -13, 1));
            if (g.chance(0.6)) o.momentum = T(g.chance(0.5) ? g.uni(0, 1) : lg(g, -6, 0));
            if (g.chance(0.6)) o.weightDecay = T(lg(g, -7, 0.5));
        }
        R.event(o.centered ? "centered" : "uncentered"); if (o.momentum > 0) R.event("momentum"); if (o.weightDecay != 0) R.event("weight-decay");
        return o;
    }
    static std::string text(const smart_dnn::RMSPropOptions<T>& o) { return cat("RMSProp<", tname<T>(), "> lr ", o.learningRate, " alpha ", o.alpha, " eps ", o.epsilon, " momentum ", o.momentum, " centered ", o.centered, " decay ", o.weightDecay); }
    B step(ld w, ld gr, ld over) {
        ld lr = over > 0 ? over : ld(o.learningRate);
        B g = upd<T>(1, {gr, 0}, o.weightDecay, {w, 0});
        B g2{g.v * g.v, 2 * fabsl(g.v) * g.e + g.e * g.e + 4 * EPS<T> * g.v * g.v + 4 * TINY<T>};
        sq = upd<T>(o.alpha, sq, 1 - ld(o.alpha), g2);
        B var = sq;
        if (o.centered) {
            mean = upd<T>(o.alpha, mean, 1 - ld(o.alpha), g);
            var.v = std::max(0.0L, sq.v - mean.v * mean.v);
            var.e = sq.e + 2 * fabsl(mean.v) * mean.e + mean.e * mean.e + 6 * EPS<T> * (sq.v + mean.v * mean.v);
        }
        ld eps = o.epsilon, hi = sqrtl(var.v + var.e + eps) * (1 + 4 * EPS<T>), lo = sqrtl(std::max(0.0L, var.v - var.e) + eps) * (1 - 4 * EPS<T>);
        ld a = (fabsl(g.v) + g.e) / lo, b = std::max(0.0L, fabsl(g.v) - g.e) / hi;   // range of |quotient|
        ld sign = g.v < 0 ? -1 : 1;
        B u{sign * (a + b) / 2, (a - b) / 2 + 4 * EPS<T> * a + TINY<T>};
        if (b == 0) u = {0, a};
        if (o.momentum > 0) { vel = upd<T>(o.momentum, vel, 1, u); u = vel; }
        return {lr * u.v, lr * u.e + 4 * EPS<T> * fabsl(lr * u.v) + TINY<T>};
    }
};
template <class T> using Opt = smart_dnn::RMSPropOptimizer<T>;
#else
template <class T> struct Ref {
    smart_dnn::AdamOptions<T> o; B m, v; int t = 0;
    static smart_dnn::AdamOptions<T> options(Rng& g) {
        smart_dnn::AdamOptions<T> o;
        o.learningRate = T(g.one({0.001, 0.01, 0.1}));
        o.beta1 = T(g.one({0.9, 0.5, 0.99, 0.0}));
        o.beta2 = T(g.one({0.999, 0.99, 0.9, 0.5}));
        o.epsilon = T(g.one({1e-8, 1e-4, 1e-2}));
        o.l1Strength = g.chance(0.6) ? T(0) : T(g.one({0.1, 0.01}));
        o.l2Strength = g.chance(0.6) ? T(0) : T(g.one({0.1, 0.01}));
        o.decay = g.chance(0.5) ? T(0) : T(g.one({0.1, 1.0, 0.001}));
        o.batchSize = g.chance(0.5) ? 1 : g.range(2, 64);
        if (g.chance(0.3)) {
            R.event("unusual-options");
            if (g.chance(0.6)) o.learningRate = T(lg(g, -7, 1));
            if (g.chance(0.6)) o.beta1 = T(g.chance(0.5) ? g.uni(0, 1) : 1 - lg(g, -4, 0));
            if (g.chance(0.6)) o.beta2 = T(g.chance(0.5) ? g.uni(0, 1) : 1 - lg(g, -4, 0));
            if (g.chance(0.6)) o.epsilon = T(lg(g, -13, 1));
            if (g.chance(0.4)) o.l1Strength = T(lg(g, -6, 1));
            if (g.chance(0.4)) o.l2Strength = T(lg(g, -6, 0.5));
            if (g.chance(0.4)) o.decay = T(lg(g, -6, 1));
            if (g.chance(0.4)) o.batchSize = g.range(2, 3000);
        }
        if (o.l1Strength > 0) R.event("l1"); if (o.l2Strength > 0) R.event("l2"); if (o.decay > 0) R.event("decay"); if (o.batchSize > 1) R.event("batch-averages");
        return o;
    }
    static std::string text(const smart_dnn::AdamOptions<T>& o) { return cat("Adam<", tname<T>(), "> lr ", o.learningRate, " b1 ", o.beta1, " b2 ", o.beta2, " eps ", o.epsilon, " l1 ", o.l1Strength, " l2 ", o.l2Strength, " decay ", o.decay, " batch ", o.batchSize); }
    B step(ld w, ld gr, ld over) {
        ++t;
        ld lr = over > 0 ? over : ld(o.learningRate) / (1 + ld(o.decay) * t);
        B g{gr / o.batchSize, 2 * EPS<T> * fabsl(gr / o.batchSize) + TINY<T>};
        B g2{g.v * g.v, 8 * EPS<T> * g.v * g.v + 4 * TINY<T>};
        m = upd<T>(o.beta1, m, 1 - ld(o.beta1), g);
        v = upd<T>(o.beta2, v, 1 - ld(o.beta2), g2);
        ld p1 = powl(o.beta1, t), p2 = powl(o.beta2, t);
        // relative error of 1 - beta^t, the power being computed in T by a call or by repeated multiplication
        ld r1 = (2 * (t + 1) * p1 + 2) * EPS<T> / (1 - p1), r2 = (2 * (t + 1) * p2 + 2) * EPS<T> / (1 - p2);
        B mh{m.v / (1 - p1), 0}, vh{v.v / (1 - p2), 0};
        mh.e = m.e / (1 - p1) * 1.1L + 1.1L * r1 * fabsl(mh.v) + 2 * EPS<T> * fabsl(mh.v) + TINY<T>;
        vh.e = v.e / (1 - p2) * 1.1L + 1.1L * r2 * vh.v + 2 * EPS<T> * vh.v + TINY<T>;
        ld hi = (sqrtl(vh.v + vh.e) + ld(o.epsilon)) * (1 + 4 * EPS<T>), lo = (sqrtl(std::max(0.0L, vh.v - vh.e)) + ld(o.epsilon)) * (1 - 4 * EPS<T>);
        ld a = (fabsl(mh.v) + mh.e) / lo, b = std::max(0.0L, fabsl(mh.v) - mh.e) / hi;
        B q{(mh.v < 0 ? -1 : 1) * (a + b) / 2, (a - b) / 2 + 4 * EPS<T> * a};
        if (b == 0) q = {0, a};
        ld mag = fabsl(q.v);
        if (o.l1Strength > 0) { q.v += ld(o.l1Strength) * (w > 0 ? 1 : w < 0 ? -1 : 0); mag += o.l1Strength; }
        if (o.l2Strength > 0) { q.v += ld(o.l2Strength) * w; mag += fabsl(o.l2Strength * w); }
        return {lr * q.v, lr * (q.e + 10 * EPS<T> * mag) + TINY<T>};
    }
};
template <class T> using Opt = smart_dnn::AdamOptimizer<T>;
#endif

// One optimizer with one parameter. Several of them take their steps in turns: none may know of the others.
template <class T> struct Job {
    Dims d; size_t n; int steps, style, done = 0; double mag; std::string text;
    std::vector<T> wv, base; Ten<T> w{Shape{1}};
    std::unique_ptr<Opt<T>> opt;
    std::vector<Ref<T>> ref;
    u64 hs;
    Job(Rng& g, bool few) {
        auto o = Ref<T>::options(g);
        if (g.chance(0.1)) { o = {}; R.event("default-options"); }
        d = g.chance(0.1) ? Dims{g.range(1001, 1400)} : g.chance(0.1) ? Dims{g.range(30, 45), g.range(34, 40)} : anyDims(g, 1, 4, 6, 60, few ? 0 : 0.003);
        n = prod(d);
        steps = n > 1000 ? g.range(1, n > 10000 ? 3 : 6) : !few && g.chance(0.05) ? g.range(500, 3000 / int(n / 8 + 1) + 500) : g.range(1, 40);
        if (!few && g.chance(0.0004)) { d = {1}; n = 1; steps = g.range(65600, 67000); }
        style = g.range(0, 5);
        mag = g.one({1.0, 1.0, 100.0, 1e-3, 1e5, 1e-6});
        text = cat(Ref<T>::text(o), " shape ", show(d), " steps ", steps, " gradients style ", style, " of size ", mag);
        R.sample(cat("style ", style), text);
        wv = randVec<T>(g, n, g.one({UNIT, NORMAL, INTS}));
        if (g.chance(0.2)) for (T& x : wv) if (g.chance(0.3)) x = T(0);
        base.resize(n); for (T& x : base) x = T(g.normal() * mag);
        w = mk(d, wv);
        opt = std::make_unique<Opt<T>>(o);
        ref.resize(n); for (auto& r : ref) r.o = o;
        hs = hashV(d, wv, hashS(text));
    }
    // false: stop
    bool step(Rng& g) {
        int s = done++;
        std::vector<T> gv(n);
        for (size_t i = 0; i < n; ++i) switch (style) {
            case 0: gv[i] = T(g.normal() * mag); break;
            case 1: gv[i] = base[i]; break;                                    // constant
            case 2: gv[i] = s % 2 ? -base[i] : base[i]; break;                 // alternating
            case 3: gv[i] = g.chance(0.6) ? T(0) : T(g.normal() * mag); break; // sparse
            case 4: gv[i] = s < steps / 2 ? base[i] : T(base[i] * 1e-3); break;
            default: gv[i] = T(wv[i] * mag); break;                            // of a quadratic
        }
        for (size_t i = 0; i < n; ++i) // squares of these would not be representable
            if (!(fabsl(ld(gv[i])) + 10 * fabsl(ld(wv[i])) < sqrtl(std::numeric_limits<T>::max()) * 1e-3L)) { R.event("diverged"); return false; }
        hs = hashV(d, gv, hs);
        T over = g.chance(0.7) ? T(-1) : g.chance(0.5) ? g.one({T(0.05), T(0.5), T(1e-4), T(0)}) : T((g.chance(0.15) ? -1 : 1) * lg(g, -12, 2));
        if (over > 0) R.event("overrides");
        bool dflt = over == T(-1) && g.chance(0.5);
        auto gt = mk(d, gv);
        Snap<T> sg(gt);
        smart_dnn::Optimizer<T>& O = *opt;
        if (dflt) O.optimize({std::ref(w)}, {std::ref(gt)}); else O.optimize({std::ref(w)}, {std::ref(gt)}, over);
        sg.check("gradient-changed");
        R.event("steps");
        std::vector<ld> want(n), tol(n);
        bool finite = true;
        for (size_t i = 0; i < n; ++i) {
            B mv = ref[i].step(wv[i], gv[i], over);
            want[i] = ld(wv[i]) - mv.v;
            tol[i] = 1.05L * mv.e + 2 * EPS<T> * (fabsl(wv[i]) + fabsl(want[i]));
            finite = finite && fabsl(want[i]) < 1e30L;
        }
        if (!finite) { R.event("diverged"); return false; }
        if (!same(over > 0 ? "override-step" : s == 0 ? "first-step" : "later-step", w, d, want, tol)) return false;
        wv = vals(w);
        if (done < steps) return true;
        if (steps >= 66000) R.event("over-65536-steps");
        if (steps >= 500) R.event("long-histories");
        if (n > 1000) R.event("over-1000-elements");
        if (n > 10000) R.event("over-10000-elements");
        if (style == 1) R.event("constant-gradients");
        R.nontrivial(hs);
        return false;
    }
};
// One optimizer with many parameters against one optimizer for each of them
template <class T> void many(Rng& g) {
    auto o = Ref<T>::options(g);
    int N = g.one({20, 40, 70, 140, 300, 600}), steps = g.range(2, 5);
    if (g.chance(0.5)) N = g.range(2, 40);
    R.desc = cat(Ref<T>::text(o), " with ", N, " parameters, ", steps, " steps");
    std::vector<Ten<T>> w, x; Opt<T> one(o); std::vector<std::unique_ptr<Opt<T>>> own;
    for (int i = 0; i < N; ++i) { Dims d = randDims(g, 1, 3, 4, 12); w.push_back(mk(d, randVec<T>(g, prod(d), UNIT))); own.push_back(std::make_unique<Opt<T>>(o)); }
    x = w;
    for (int s = 0; s < steps; ++s) {
        std::vector<Ten<T>> gr; for (int i = 0; i < N; ++i) { Dims d = dimsOf(w[i]); gr.push_back(mk(d, randVec<T>(g, prod(d), UNIT))); }
        std::vector<int> order(N); for (int i = 0; i < N; ++i) order[i] = i;
        if (g.chance(0.5)) g.shuffle(order);
        int chunk = g.one({1, 1, 2, 7, N}), at = 0;
        while (at < N) { // some of them together
            std::vector<std::reference_wrapper<Ten<T>>> W, G; 
            for (int k = 0; k < chunk && at < N; ++k, ++at) { W.push_back(std::ref(w[order[at]])); G.push_back(std::ref(gr[order[at]])); }
            one.optimize(W, G);
        }
        for (int i = 0; i < N; ++i) {
            own[i]->optimize({std::ref(x[i])}, {std::ref(gr[i])});
            auto a = vals(w[i]), b = vals(x[i]); R.eval();
            for (size_t k = 0; k < a.size(); ++k) if (!(a[k] == b[k] || (a[k] != a[k] && b[k] != b[k]))) { R.fail("many:own-state", cat("parameter ", i, " element ", k, " step ", s, ": ", double(a[k]), " with the others, ", double(b[k]), " with an optimizer of its own")); return; }
        }
    }
    R.event("many-parameters"); if (N > 64) R.event("over-64-parameters");
    R.nontrivial(hashS(cat(R.desc, showv(vals(w[0])))));
}
void run(Rng& g) {
    if (g.chance(0.01)) { if (g.chance(0.5)) many<float>(g); else many<double>(g); return; }
    int k = g.chance(0.2) ? g.range(2, 4) : 1;
    std::vector<std::unique_ptr<Job<float>>> a; std::vector<std::unique_ptr<Job<double>>> b;
    for (int i = 0; i < k; ++i) if (g.chance(0.5)) a.push_back(std::make_unique<Job<float>>(g, k > 1)); else b.push_back(std::make_unique<Job<double>>(g, k > 1));
    if (k > 1) { R.event("interleaved-optimizers"); R.desc = cat(k, " optimizers in turns; "); }
    for (auto& j : a) R.desc += j->text + "; ";
    for (auto& j : b) R.desc += j->text + "; ";
    while (a.size() + b.size()) { // the finished ones go away while the others continue
        size_t i = g.next() % (a.size() + b.size());
        if (i < a.size()) { if (!a[i]->step(g)) a.erase(a.begin() + i); }
        else { i -= a.size(); if (!b[i]->step(g)) b.erase(b.begin() + i); }
    }
}
int main(int argc, char** argv) {
    return mainLoop(argc, argv, [](Rng& g, u64) { run(g); });
}
