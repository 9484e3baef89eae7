// C27: hostile calls over a population of objects. Judges: sanitizers (or valgrind), exception types, operands of
// calls that throw, and the consistency of every tensor after every call.
#include "model.hpp"
#include "smart_dnn/Datasets/MNistLoader.hpp"
#include "smart_dnn/Tensor/SliceView.hpp"
#include "smart_dnn/Tensor/BroadcastView.hpp"
#include <new>
// The allocator refuses what this machine should not be asked for (AddressSanitizer's own would end the process).
static void* alloc(size_t n) { void* p = n > (size_t(1) << 28) ? nullptr : malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n) { return alloc(n); }
void* operator new[](size_t n) { return alloc(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return n > (size_t(1) << 28) ? nullptr : malloc(n ? n : 1); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
using namespace h;
using namespace smart_dnn;
static volatile double sinkValue;
static const bool LIGHT = getenv("LIGHT") != nullptr;
template <class T> struct World {
    using A = AdvancedTensorOperations<T>;
    Rng& g;
    std::vector<Ten<T>> t;
    std::vector<std::unique_ptr<Layer<T>>> layers; std::vector<bool> isConv; std::vector<int> convIn;
    std::vector<std::unique_ptr<Activation<T>>> acts;
    std::vector<std::unique_ptr<Loss<T>>> losses;
    std::vector<std::unique_ptr<Optimizer<T>>> opts;
    std::vector<std::unique_ptr<SmartDNN<T>>> models; std::vector<ModelSpec> specs; std::vector<bool> modelConv;
    std::string log; int thrown = 0, done = 0;
    explicit World(Rng& g) : g(g) {}
    // ---- arguments
    int hostileInt() { return g.chance(0.7) ? g.range(-2, 8) : g.one({INT_MAX, INT_MIN, INT_MAX - 1, -1, 0, 65536, 1 << 30, 46341, -65536}); }
    size_t hostileSize() { return g.chance(0.75) ? size_t(g.range(0, 6)) : g.one({size_t(-1), size_t(1) << 63, size_t(1) << 32, size_t(INT_MAX), size_t(64), size_t(-2)}); }
    // never dimensions that can be allocated but take long to fill
    Dims hostileDims() {
        if (g.chance(0.5)) return randDims(g, 1, 5, 6, 300);
        for (;;) {
            Dims d(g.range(0, 5)); for (int& x : d) x = hostileInt();
            bool bad = d.empty(); unsigned __int128 p = 1; for (int x : d) { if (x <= 0) bad = true; else p *= unsigned(x); if (p > (unsigned __int128)1 << 90) p = (unsigned __int128)1 << 90; }
            if (bad || p <= 300 || p > (unsigned __int128)1 << 28) return d;
        }
    }
    T val() { return T(g.chance(0.8) ? g.normal() * 3 : g.one({0.0, -0.0, 1e30, -1e30, double(INFINITY), double(NAN), 1e-40, 88.0, -88.0})); }
    std::vector<T> values(size_t n) { std::vector<T> v(n); bool wild = g.chance(0.2); for (T& x : v) x = wild ? val() : T(g.uni(-2, 2)); return v; }
    Ten<T> fresh(const Dims& d) { return mk(d, values(prod(d))); }
    Ten<T>& any() { return t[g.next() % t.size()]; }
    Ten<T>& like(const Ten<T>& x) { // often a tensor that fits x
        if (g.chance(0.5)) { for (auto& y : t) if (&y != &x && y.getShape() == x.getShape() && g.chance(0.5)) return y; keep(fresh(dimsOf(x))); return t.back(); }
        return any();
    }
    void keep(Ten<T> x) {
        if (x.getShape().size() > 3000) return;
        if (t.size() < 10) t.push_back(std::move(x)); else { size_t i = g.next() % 5; if (g.chance(0.5)) t[i] = std::move(x); else t[i] = x; }
    }
    std::vector<size_t> axes() { std::vector<size_t> a(g.range(0, 4)); for (auto& x : a) x = hostileSize(); return a; }
    Dims dims4(int ch) { return {g.range(1, 2), ch, g.range(1, 7), g.range(1, 7)}; }
    // ---- one call: what it threw, and that a call that threw left these operands alone
    template <class F> bool call(const std::string& name, std::vector<const Ten<T>*> ops, F f) {
        std::string s = name; for (auto* p : ops) s += show(dimsOf(*p));
        log += " " + s; R.desc = log.size() > 1400 ? "..." + log.substr(log.size() - 1400) : log;
        std::vector<Snap<T>> snaps; for (auto* p : ops) snaps.emplace_back(*p);
        R.eval(); R.event("calls");
        try { f(); ++done; R.event("completed"); R.event("ok-" + name.substr(0, name.find_first_of("([0123456789"))); return true; }
        catch (const std::exception&) {
            ++thrown; R.event("threw");
            for (size_t i = 0; i < snaps.size(); ++i) if (!snaps[i].ok()) { R.fail(name.substr(0, name.find('(')) + ":operand-changed-by-failed-call", cat("operand ", i)); }
            return false;
        }
    }
    void audit() { // every tensor is consistent and readable
        double s = 0;
        for (auto& x : t) {
            size_t n = 1; for (int d : dimsOf(x)) { if (d <= 0) R.fail("audit:dimension", show(dimsOf(x))); n *= size_t(d); }
            R.eval();
            if (n != x.getShape().size() || n != x.getData().size()) { R.fail("audit:size", show(dimsOf(x))); continue; }
            const T* p = x.getData().data();
            if (!p) { R.fail("audit:null", ""); continue; }
            for (size_t i = 0; i < n; ++i) if (p[i] > T(0)) s += 1; // a branch, so that valgrind looks at it
        }
        sinkValue = s;
    }
    // ---- objects
    void newLayer() {
        int a = g.chance(0.15) ? hostileInt() : g.range(1, 5), b = g.chance(0.15) ? hostileInt() : g.range(1, 5), c = g.chance(0.15) ? hostileInt() : g.range(1, 3);
        if (std::max({a, b}) > 1000) { if (g.chance(0.5)) return; a = std::min(a, 8); b = std::min(b, 8); }
        int k = g.range(0, 8); std::unique_ptr<Layer<T>> L; bool conv = false;
        call(cat("new-layer", k, "(", a, ",", b, ",", c, ")"), {}, [&] {
            switch (k) {
            case 0: case 1: L = std::make_unique<FullyConnectedLayer<T>>(a, b); break;
            case 2: if (c > 64) c = 3; L = std::make_unique<Conv2DLayer<T>>(a, b, c); conv = true; break;
            case 3: { if (c > 64) c = 3; int st = g.chance(0.2) ? hostileInt() : g.range(1, 3), pad = g.chance(0.2) ? std::min(hostileInt(), 70000) : g.range(0, 2), dil = g.chance(0.2) ? hostileInt() : g.range(1, 2);
                if (pad > 8 && st < 1 << 20) pad = 8; // too large an output to allocate
                log += cat("[", st, ",", pad, ",", dil, "]"); L = std::make_unique<Conv2DLayer<T>>(a, b, c, g.range(1, 3), st, pad, dil); conv = true; break; }
            case 4: L = std::make_unique<BatchNormalizationLayer<T>>(a); break;
            case 5: { int st = g.chance(0.3) ? hostileInt() : g.range(1, 3); log += cat("[", st, "]"); L = std::make_unique<MaxPooling2DLayer<T>>(c, st, g.chance(0.3) ? std::min(hostileInt(), c > 1000 && st < 1000 ? 2 : INT_MAX) : 0); break; }
            case 6: L = std::make_unique<DropoutLayer<T>>(T(g.chance(0.8) ? g.uni(0, 0.9) : g.one({1.0, -1.0, 2.0}))); break;
            case 7: L = std::make_unique<FlattenLayer<T>>(); break;
            default: switch (g.range(0, 6)) { case 0: L = std::make_unique<ActivationLayer<T>>(ReLU<T>()); break; case 1: L = std::make_unique<ActivationLayer<T>>(LeakyReLU<T>()); break; case 2: L = std::make_unique<ActivationLayer<T>>(Sigmoid<T>()); break; case 3: L = std::make_unique<ActivationLayer<T>>(Tanh<T>()); break; case 4: L = std::make_unique<ActivationLayer<T>>(Swish<T>()); break; case 5: L = std::make_unique<ActivationLayer<T>>(Mish<T>()); break; default: L = std::make_unique<ActivationLayer<T>>(Softmax<T>()); }
            }
        });
        if (!L) return;
        R.event(cat("layer-", k));
        if (layers.size() < 6) { layers.push_back(std::move(L)); isConv.push_back(conv); convIn.push_back(a); }
        else { size_t i = g.next() % 6; layers[i] = std::move(L); isConv[i] = conv; convIn[i] = a; }
    }
    void newModel() {
        ModelLimits q; q.maxBatch = 3; ModelSpec s = randomModel(g, q);
        auto m = std::make_unique<SmartDNN<T>>(); std::string what = s.text();
        call("new-model(" + what + ")", {}, [&] { addLayers<T>(*m, s); });
        if (g.chance(0.8)) call("compile", {}, [&] { if (s.cce) m->compile(CategoricalCrossEntropyLoss<T>(), AdamOptimizer<T>()); else if (g.chance(0.5)) m->compile(MSELoss<T>(), SGDOptimizer<T>()); else m->compile(MSELoss<T>(), RMSPropOptimizer<T>()); });
        if (g.chance(0.5)) keep(fresh(s.in)); if (g.chance(0.5)) keep(mk(s.out, randomTarget<T>(g, s)));
        bool conv = s.has("conv");
        if (models.size() < 3) { models.push_back(std::move(m)); modelConv.push_back(conv); specs.push_back(s); } else { size_t i = g.next() % 3; models[i] = std::move(m); modelConv[i] = conv; specs[i] = s; }
    }
    void step() {
        Ten<T>& a = any(); 
        switch (g.chance(0.3) ? g.one({29, 30, 31, 32, 33, 34, 34, 35, 36, 37, 38, 39, 42, 43}) : g.range(0, 44)) {
        case 0: { Dims d = hostileDims(); call("zeros" + show(d), {}, [&] { keep(Ten<T>::zeros(Shape(d))); }); break; }
        case 1: { Dims d = hostileDims(); size_t n = g.range(0, 12); auto v = values(n); int k = g.range(0, 2); call("from-values" + show(d), {}, [&] { if (k == 0) keep(Ten<T>(Shape(d), v)); else if (k == 1) keep(Ten<T>(Shape(d), std::vector<T>(v))); else keep(Ten<T>(Shape(d), {T(1), T(2), T(3)})); }); break; }
        case 2: { Dims d = hostileDims(); int k = g.range(0, 3); call("factory" + show(d), {}, [&] { if (k == 0) keep(Ten<T>::rand(Shape(d))); else if (k == 1) keep(Ten<T>::randn(Shape(d), T(-1), T(1))); else if (k == 2) keep(Ten<T>::ones(Shape(d))); else keep(Ten<T>(Shape(d), val())); }); break; }
        case 3: { int n = hostileInt(); if (n > 300) n = -n; int k = g.range(0, 3); if (k == 3 && n > 17) n = 17; call(cat("factory-int(", n, ")"), {}, [&] { keep(k == 0 ? Ten<T>::rand(n) : k == 1 ? Ten<T>::zeros(n) : k == 2 ? Ten<T>::ones(n) : Ten<T>::identity(n)); }); break; }
        case 4: { std::vector<int> ix(g.chance(0.7) ? a.getShape().rank() : g.range(0, 6)); bool good = g.chance(0.5); for (size_t i = 0; i < ix.size(); ++i) ix[i] = good && i < a.getShape().rank() ? g.range(0, dimsOf(a)[i] - (g.chance(0.9) ? 1 : 0)) : hostileInt(); bool w = g.chance(0.5); call("at" + show(ix), {&a}, [&] { if (w) a.at(ix) = val(); else sinkValue = double(static_cast<const Ten<T>&>(a).at(ix)); }); break; }
        case 5: { int d = hostileInt(), i = hostileInt(); if (g.chance(0.5)) { d = g.range(0, int(a.getShape().rank()) - 1); i = g.range(0, dimsOf(a)[d] - (g.chance(0.9) ? 1 : 0)); } call(cat("slice(", d, ",", i, ")"), {&a}, [&] { keep(a.slice(d, i)); }); break; }
        case 6: { Dims d = hostileDims(); if (g.chance(0.4)) { d = dimsOf(a); g.shuffle(d); } int k = g.range(0, 2); call("reshape" + show(d), {&a}, [&] { if (k == 0) a.reshape(d); else if (k == 1) a.reshape(Shape(d)); else keep(A::reshape(a, Shape(d))); }); break; }
        case 7: { size_t x = hostileSize(), y = hostileSize(); if (g.chance(0.5)) { x = g.range(0, int(a.getShape().rank())); y = g.range(0, int(a.getShape().rank()) - 1); } call(cat("transpose(", x, ",", y, ")"), {&a}, [&] { keep(A::transpose(a, x, y)); }); break; }
        case 8: { size_t x = hostileSize(); call(cat("sum(", x, ")"), {&a}, [&] { keep(A::sum(a, x)); }); break; }
        case 9: { auto x = axes(); call("sum-axes" + showv(x), {&a}, [&] { keep(A::sum(a, x)); }); break; }
        case 10: { auto x = axes(); call("mean-axes" + showv(x), {&a}, [&] { keep(A::mean(a, x)); }); break; }
        case 11: { auto x = axes(); auto& b = like(a); auto& a2 = any(); call("variance-axes" + showv(x), {&a2, &b}, [&] { keep(g.chance(0.5) ? A::variance(a2, A::mean(a2, x), x) : A::variance(a2, b, x)); }); break; }
        case 12: { auto& b = any(); call("variance", {&a, &b}, [&] { keep(A::variance(a, g.chance(0.5) ? b : A::mean(a))); }); break; }
        case 13: case 14: case 15: { auto& b = g.chance(0.4) ? like(a) : any(); auto& c = any(); call("matmul", {&c, &b}, [&] { keep(A::matmul(c, b)); }); break; }
        case 16: case 17: case 18: { auto& b = like(a); auto& c = any(); int k = g.range(0, 4); call(cat("binary", k), {&c, &b}, [&] { switch (k) { case 0: keep(c + b); break; case 1: keep(c - b); break; case 2: keep(c * b); break; case 3: keep(c / b); break; default: keep(A::applyPair(c, b, [](T x, T y) { return x > y ? x : y; })); } }); break; }
        case 19: case 20: case 21: { auto& b = like(a); auto& c = any(); int k = g.range(0, 3); call(cat("in-place", k), {&c, &b}, [&] { switch (k) { case 0: c += b; break; case 1: c -= b; break; case 2: c *= b; break; default: c /= b; } }); break; }
        case 22: { T s = val(); int k = g.range(0, 7); call(cat("scalar", k), {&a}, [&] { switch (k) { case 0: a += s; break; case 1: a -= s; break; case 2: a *= s; break; case 3: a /= s; break; case 4: keep(a + s); break; case 5: keep(a - s); break; case 6: keep(a * s); break; default: keep(a / s); } }); break; }
        case 23: { int k = g.range(0, 3); call(cat("unary", k), {&a}, [&] { switch (k) { case 0: keep(a.sqrt()); break; case 1: keep(-a); break; case 2: keep(A::reciprocal(a)); break; default: keep(A::sum(a)); } }); break; }
        case 24: { bool boom = g.chance(0.5); int n = g.range(0, 3); call("apply-throwing", {}, [&] { Ten<T> c = a; c.apply([&](T x) -> T { if (boom && n-- == 0) throw std::runtime_error("user"); return x; }); keep(c); keep(A::apply(a, [](T x) { return x * x; })); }); break; }
        case 25: { auto& b = any(); call("compare", {&a, &b}, [&] { sinkValue = (a == b) + 2 * (a != b); sinkValue = double(a.toDetailedString().size() + a.toDataString().size() + a.getShape().toString().size() + a.getData().toString().size()); }); break; }
        case 26: { std::vector<std::pair<int, int>> s(g.chance(0.8) ? a.getShape().rank() : g.range(0, 5)); std::vector<int> st(g.chance(0.9) ? s.size() : g.range(0, 5)); for (auto& x : s) x = {hostileInt(), hostileInt()}; for (int& x : st) x = g.chance(0.7) ? g.range(1, 3) : hostileInt();
            if (g.chance(0.5)) for (size_t i = 0; i < s.size() && i < a.getShape().rank(); ++i) { int n = dimsOf(a)[i]; s[i] = {g.range(-n, n), g.range(1, n + 2)}; }
            call("slice-view", {&a}, [&] { SliceView<T> v(a.getData(), s, st); double q = 0; size_t n = 0; for (auto it = v.begin(); it != v.end(); ++it) { q += double(*it); ++n; } sinkValue = q; if (n != v.shape().size()) R.fail("slice-view:count", cat(n)); R.event("slice-views"); }); break; }
        case 27: { Dims d = hostileDims(); if (g.chance(0.5)) { d = dimsOf(a); for (int& x : d) if (x == 1) x = g.range(1, 3); if (g.chance(0.5)) d.insert(d.begin(), 2); } call("broadcast-view" + show(d), {&a}, [&] { Shape s(d); if (s.size() > 5000) return; BroadcastView<T, CPUDevice> v(a.getData(), Shape(d)); Shape other(Dims{2, 2}); (void)other; double q = 0; for (auto it = v.begin(); it != v.end(); ++it) q += double(*it); sinkValue = q; R.event("broadcast-views"); }); break; }
        case 28: { auto& b = any(); int k = g.range(0, 5); call(cat("copy", k), {}, [&] { switch (k) { case 0: a = b; break; case 1: { auto& al = a; a = al; break; } case 2: { Ten<T> c(std::move(a)); a = std::move(c); break; } case 3: { auto& al = a; a = std::move(al); break; } case 4: std::swap(a, b); break; default: { Ten<T> c(b); keep(std::move(c)); } } }); break; }
        case 29: newLayer(); break;
        case 30: case 31: case 32: { // forward
            if (layers.empty()) { newLayer(); break; } size_t i = g.next() % layers.size();
            if (isConv[i]) { if (convIn[i] < 1) break; if (g.chance(0.7)) keep(fresh(dims4(convIn[i]))); auto& x = g.chance(0.9) ? t.back() : any(); if (x.getShape().rank() != 4 || x.getShape()[1] != convIn[i]) break; call(cat("forward-conv", i), {&x}, [&] { keep(layers[i]->forward(x)); }); break; }
            if (g.chance(0.4)) keep(fresh(g.chance(0.5) ? dims4(g.range(1, 3)) : Dims{g.range(1, 4), g.range(1, 5)}));
            auto& x = g.chance(0.5) ? t.back() : any(); call(cat("forward", i), {&x}, [&] { keep(layers[i]->forward(x)); }); break; }
        case 33: case 34: { if (layers.empty()) break; size_t i = g.next() % layers.size(); auto& x = g.chance(0.6) ? t.back() : any(); call(cat("backward", i), {&x}, [&] { keep(layers[i]->backward(x)); }); break; }
        case 35: { if (layers.empty()) break; size_t i = g.next() % layers.size(); if (opts.empty()) opts.push_back(std::make_unique<SGDOptimizer<T>>()); auto& o = *opts[g.next() % opts.size()]; bool m = g.chance(0.3); call(cat("update", i), {}, [&] { if (m) layers[i]->setTrainingMode(g.chance(0.5)); layers[i]->updateWeights(o); }); break; }
        case 36: { if (layers.empty()) break; size_t i = g.next() % layers.size(); auto& x = any(); bool b = g.chance(0.5);
            call(cat("set-parameters", i), {&x}, [&] {
                if (auto* f = dynamic_cast<FullyConnectedLayer<T>*>(layers[i].get())) { if (b) f->setBiases(x); else f->setWeights(x); R.event("parameters-set"); }
                else if (auto* c = dynamic_cast<Conv2DLayer<T>*>(layers[i].get())) { if (b) c->setBiases(x); else c->setWeights(x); R.event("parameters-set"); } }); break; }
        case 37: { if (acts.size() < 7) acts.emplace_back(newAct<T>(Act(g.range(0, 6)), T(0.1))); auto& f = *acts[g.next() % acts.size()]; auto& b = like(a); auto& c = any(); bool bw = g.chance(0.5); call(bw ? "activation-backward" : "activation-forward", {&c, &b}, [&] { keep(bw ? f.backward(c, b) : f.forward(c)); }); break; }
        case 38: { if (losses.empty()) { losses.push_back(std::make_unique<MSELoss<T>>()); losses.push_back(std::make_unique<CategoricalCrossEntropyLoss<T>>()); } auto& f = *losses[g.next() % 2]; auto& b = like(a); auto& c = any(); bool gr = g.chance(0.5); call(gr ? "loss-gradient" : "loss", {&c, &b}, [&] { keep(gr ? f.gradient(c, b) : f.compute(c, b)); }); break; }
        case 39: case 40: { // optimizers with any lists
            if (opts.size() < 6) { RMSPropOptions<T> ro; ro.centered = g.chance(0.5); ro.momentum = T(g.chance(0.5) ? 0.5 : 0); AdamOptions<T> ao; ao.batchSize = g.chance(0.9) ? 4 : g.one({0, -1}); ao.decay = T(0.1); ao.l1Strength = T(0.1); SGDOptions<T> so; so.nesterov = g.chance(0.5);
                switch (g.range(0, 2)) { case 0: opts.push_back(std::make_unique<SGDOptimizer<T>>(so)); break; case 1: opts.push_back(std::make_unique<RMSPropOptimizer<T>>(ro)); break; default: opts.push_back(std::make_unique<AdamOptimizer<T>>(ao)); } }
            auto& o = *opts[g.next() % opts.size()];
            std::vector<std::reference_wrapper<Ten<T>>> w, gr; std::vector<const Ten<T>*> ops; std::vector<size_t> used; int n = g.range(0, 3);
            t.reserve(16);
            for (int i = 0; i < n; ++i) { size_t k = g.next() % t.size(); w.push_back(std::ref(t[k])); ops.push_back(&t[k]); size_t q = k; if (g.chance(0.75)) for (size_t z = 0; z < t.size(); ++z) if (z != k && t[z].getShape().size() == t[k].getShape().size()) q = z; if (q == k) q = g.next() % t.size(); gr.push_back(std::ref(t[q])); ops.push_back(&t[q]); }
            if (g.chance(0.15) && n) gr.pop_back();
            T lr = g.chance(0.7) ? T(-1) : val(); call("optimize", ops, [&] { o.optimize(w, gr, lr); }); break; }
        case 41: newModel(); break;
        case 42: case 43: { // models
            if (models.empty()) { newModel(); break; } size_t i = g.next() % models.size(); auto& m = *models[i];
            std::vector<Ten<T>> x, y; int n = g.range(0, 3), k = g.range(0, 5);
            for (int j = 0; j < n; ++j) { x.push_back(g.chance(0.5) ? t.back() : any()); y.push_back(any()); } if (g.chance(0.1)) y.push_back(a);
            if (g.chance(0.5)) { x.clear(); y.clear(); for (int j = 0; j < n; ++j) { x.push_back(fresh(specs[i].in)); y.push_back(mk(specs[i].out, randomTarget<T>(g, specs[i]))); } if (k >= 3 && g.chance(0.7)) { auto gr = fresh(specs[i].out); call("model-round", {&gr}, [&] { m.predict(fresh(specs[i].in)); m.backward(gr); m.updateWeights(); }); } }
            if (modelConv[i] && k <= 2) { bool ok = true; for (auto& z : x) if (z.getShape().rank() != 4) ok = false; if (!ok) break; auto* c = dynamic_cast<Conv2DLayer<T>*>(m.getLayer(0)); if (!c || (x.size() && x[0].getShape()[1] != c->getWeights().getShape()[1])) break; for (auto& z : x) if (z.getShape()[1] != x[0].getShape()[1]) ok = false; if (!ok) break; }
            std::vector<const Ten<T>*> ops; for (auto& z : x) ops.push_back(&z); for (auto& z : y) ops.push_back(&z);
            switch (k) {
            case 0: call("train", ops, [&] { m.train(x, y, g.range(-1, 2)); }); break;
            case 1: call("predict", ops, [&] { for (auto& p : m.predict(x)) keep(p); }); break;
            case 2: if (!x.empty()) call("predict-one", ops, [&] { keep(m.predict(x[0])); }); break;
            case 3: call("model-backward", {&a}, [&] { m.backward(a); }); break;
            case 4: call("model-update", {}, [&] { if (g.chance(0.3)) m.evalMode(); if (g.chance(0.5)) m.trainingMode(); m.updateWeights(); }); break;
            default: { size_t l = hostileSize(); call(cat("getLayer(", l, ")"), {}, [&] { if (!m.getLayer(l)) R.fail("getLayer:null", ""); }); }
            } break; }
        default: { MNISTLoader<T> L("none", "none", 1); call("ascii", {&a}, [&] { sinkValue = double(L.toAsciiArt(a).size()); }); if (g.chance(0.3)) { int b = hostileInt(), n = hostileInt(); call(cat("loader(", b, ",", n, ")"), {}, [&] { MNISTLoader<T> q("none", "none", b, n); q.loadData(); }); } }
        }
        audit();
    }
};
template <class T> void run(Rng& g) {
    Quiet quiet; RandomEngine::setSeed(unsigned(g.next()));
    World<T> w(g); w.log = tname<T>(); w.t.reserve(16);
    for (int i = 0; i < 4; ++i) w.t.push_back(w.fresh(randDims(g, 1, 4, 5, 60)));
    int n = g.range(5, LIGHT ? 40 : 90);
    for (int i = 0; i < n; ++i) w.step();
    R.sample(cat(w.thrown > w.done ? "mostly rejected" : "mostly accepted"), w.log); R.nontrivial(w.log);
}
int main(int argc, char** argv) { return mainLoop(argc, argv, [](Rng& g, u64) { if (g.chance(0.5)) run<float>(g); else run<double>(g); }); }
