// C21: the trace of layer, loss and optimizer calls of training against its specification.
#include "layers.hpp"
#include <iostream>
#include "smart_dnn/SmartDNN.hpp"
#include "smart_dnn/Loss/MSELoss.hpp"
using namespace h;
struct Ev { char kind; int id; double in, out, extra; }; // F forward, B backward, U update (id layer, in optimizer), C compute, G gradient
static std::vector<Ev> T_;
static double token = 0;
static long failAt = -1;
static int lossMode = 0;
static double tok() { return ++token; }
static void rec(char k, int id, double in, double out, double extra = 0) {
    T_.push_back({k, id, in, out, extra});
    if (failAt >= 0 && long(T_.size()) > failAt) { failAt = -1; throw std::runtime_error("injected"); }
}
template <class T> double first(const Ten<T>& t) { return double(t.getData()[0]); }
template <class T> Ten<T> tagged(double v, int variety) { // a tensor whose elements all carry the token; the shape varies
    return Ten<T>(variety % 3 == 0 ? Shape{1} : variety % 3 == 1 ? Shape{2, 2} : Shape{1, 3, 2}, T(v));
}
template <class T> bool uniform(const Ten<T>& t) { for (auto x : vals(t)) if (x != vals(t)[0]) return false; return true; }
template <class T> struct SpyLayer : smart_dnn::Layer<T> {
    int id; Ten<T> w;
    explicit SpyLayer(int id) : id(id), w(Shape{1}, T(1)) {}
    Ten<T> forward(const Ten<T>& x) override { double o = tok(); rec('F', id, first(x), o, uniform(x) ? this->trainingMode : -9); return tagged<T>(o, id); }
    Ten<T> backward(const Ten<T>& x) override { double o = tok(); rec('B', id, first(x), o, uniform(x)); return tagged<T>(o, id + 1); }
    void updateWeights(smart_dnn::Optimizer<T>& o) override {
        Ten<T> g(Shape{1}, T(id + 0.5)); long before = long(T_.size());
        o.optimize({std::ref(w)}, {std::ref(g)});
        (void)before;
    }
};
template <class T> struct SpyLoss : smart_dnn::Loss<T> {
    int id; explicit SpyLoss(int id) : id(id) {}
    static double value(double token, int id) { // often exactly zero, sometimes negative
        u64 h = mix(u64(token) * 77 + 5 * id); if (lossMode == 1 || (lossMode == 2 && h % 3 == 0)) return 0;
        if (lossMode == 3) return -double(T(h % 1000) / T(8));
        return double(T(mix(u64(token) * 31 + id) % 100000) / T(1 + id)); }
    Ten<T> compute(const Ten<T>& p, const Ten<T>& t) override { rec('C', id, first(p), first(t)); return Ten<T>(Shape{1}, T(value(first(t), id))); }
    Ten<T> gradient(const Ten<T>& p, const Ten<T>& t) override { double o = lossMode == 1 ? 0 : tok(); rec('G', id, first(p), first(t), o); return tagged<T>(o, id); }
};
template <class T> struct SpyOpt : smart_dnn::Optimizer<T> {
    int id; explicit SpyOpt(int id) : id(id) {}
    void optimize(const std::vector<std::reference_wrapper<Ten<T>>>& w, const std::vector<std::reference_wrapper<Ten<T>>>& g, T lr) override {
        rec('U', int(std::floor(g[0].get()[0])), id, double(lr), double(w.size() + 10 * g.size()));
    }
};
static std::string showEv() { std::ostringstream o; for (size_t i = 0; i < T_.size() && i < 60; ++i) o << T_[i].kind << T_[i].id << "(" << T_[i].in << "->" << T_[i].out << ") "; return o.str(); }
struct Capture { // of standard output
    std::ostringstream o; std::streambuf* old;
    Capture() : old(std::cout.rdbuf(o.rdbuf())) {}
    ~Capture() { std::cout.rdbuf(old); }
};
static std::vector<double> lossesIn(const std::string& s) { // last number of each line that mentions a loss
    std::vector<double> r; std::istringstream is(s); std::string line;
    while (std::getline(is, line)) {
        size_t p = line.find("oss");
        if (p == std::string::npos) continue;
        p = line.find_first_of("-+0123456789ni", p + 3);
        r.push_back(p == std::string::npos ? NAN : strtod(line.c_str() + p, nullptr));
    }
    return r;
}
// One epoch over tokens in/out from position p. Returns the position behind it, or -1 after a failure.
static long epoch(size_t p, int L, const std::vector<double>& x, const std::vector<double>& y, int lossId, int optId, bool training) {
    auto bad = [&](const char* what) { R.fail(cat("train:", what), cat("event ", p, " of ", showEv())); return -1; };
    for (size_t i = 0; i < x.size(); ++i) {
        double cur = x[i]; int computes = 0;
        auto skipCompute = [&](double pred) { // the value may be computed at any point behind the forward pass
            while (!computes && p < T_.size() && T_[p].kind == 'C') { auto& e = T_[p]; if (e.in != pred || e.out != y[i] || e.id != lossId) return false; ++computes; ++p; }
            return true;
        };
        for (int l = 0; l < L; ++l, ++p) {
            R.eval();
            if (p >= T_.size() || T_[p].kind != 'F' || T_[p].id != l) return bad("forward-order");
            if (T_[p].in != cur) return bad("forward-chain");
            if (T_[p].extra != training) return bad("training-mode");
            cur = T_[p].out;
        }
        double pred = cur;
        if (!skipCompute(pred)) return bad("loss-arguments");
        R.eval();
        if (p >= T_.size() || T_[p].kind != 'G') return bad("gradient-missing");
        if (T_[p].in != pred || T_[p].out != y[i] || T_[p].id != lossId) return bad("gradient-arguments");
        cur = T_[p++].extra;
        if (!skipCompute(pred)) return bad("loss-arguments");
        for (int l = L - 1; l >= 0; --l) {
            R.eval();
            if (p >= T_.size() || T_[p].kind != 'B' || T_[p].id != l) return bad("backward-order");
            if (T_[p].in != cur || !T_[p].extra) return bad("backward-chain");
            cur = T_[p++].out;
            if (!skipCompute(pred)) return bad("loss-arguments");
        }
        std::vector<int> seen(L, 0);
        for (int l = 0; l < L; ++l) {
            R.eval();
            if (p >= T_.size() || T_[p].kind != 'U' || T_[p].id < 0 || T_[p].id >= L || seen[T_[p].id]++) return bad("update-of-each-layer-once");
            if (T_[p].in != optId) return bad("update-with-another-optimizer");
            if (T_[p].extra != 11) return bad("update-arguments");
            ++p;
            if (!skipCompute(pred)) return bad("loss-arguments");
        }
        if (computes != 1) return bad("loss-evaluated-once");
        R.event("samples-traced");
    }
    return long(p);
}
template <class T> void traced(Rng& g) {
    int L = g.chance(0.08) ? 0 : g.chance(0.01) ? g.range(8, 70) : g.range(1, 7);
    if (L > 7) R.event("many-layers");
    smart_dnn::SmartDNN<T> m;
    std::ostringstream log; log << "model<" << tname<T>() << "> of " << L << " layers;";
    token = g.range(0, 50); lossMode = g.range(0, 3); T_.clear(); failAt = -1;
    for (int l = 0; l < L; ++l) { if (g.chance(0.5)) m.addLayer(SpyLayer<T>(l)); else { SpyLayer<T> s(l); m.addLayer(s); } }
    for (int l = 0; l < L; ++l) { R.eval(); auto* p = dynamic_cast<SpyLayer<T>*>(m.getLayer(l)); if (!p || p->id != l) R.fail("getLayer", cat("layer ", l)); }
    bool compiled = false, training = true; int ids = 0, lossId = -1, optId = -1;
    int ops = g.range(2, 8);
    for (int o = 0; o < ops; ++o) {
        int op = g.range(0, 9);
        if (op == 0 || (!compiled && op > 2)) {
            if (!compiled && g.chance(0.5)) {
                Capture c; T_.clear();
                R.desc = log.str() + " train uncompiled";
                std::vector<Ten<T>> x{tagged<T>(1, 0)};
                mustThrow("train:uncompiled-accepted", "", [&] { m.train(x, x, 1); });
                mustThrow("updateWeights:uncompiled-accepted", "", [&] { m.updateWeights(); });
                if (!T_.empty()) R.fail("train:uncompiled-had-effects", showEv());
                R.event("uncompiled");
            }
            lossId = ++ids; optId = ++ids + 100; compiled = true;
            if (g.chance(0.5)) m.compile(SpyLoss<T>(lossId), SpyOpt<T>(optId)); else { SpyLoss<T> a(lossId); SpyOpt<T> b(optId); m.compile(a, b); }
            log << " compile"; R.event("compiles");
        } else if (op == 1) {
            training = g.chance(0.6); if (training) m.trainingMode(); else m.evalMode();
            log << (training ? " training" : " eval");
        } else if (op == 2) { // predictions
            std::vector<Ten<T>> x; std::vector<double> xt; int n = g.range(0, 4);
            for (int i = 0; i < n; ++i) { xt.push_back(tok()); x.push_back(tagged<T>(xt.back(), i)); }
            T_.clear(); R.desc = log.str() + " predict";
            auto y = m.predict(x); R.eval();
            if (int(y.size()) != n || int(T_.size()) != n * L) { R.fail("predict:calls", showEv()); return; }
            size_t p = 0;
            for (int i = 0; i < n; ++i) { double cur = xt[i]; for (int l = 0; l < L; ++l, ++p) { auto& e = T_[p]; if (e.kind != 'F' || e.id != l || e.in != cur) { R.fail("predict:chain", showEv()); return; } cur = e.out; } if (first(y[i]) != cur) { R.fail("predict:result", showEv()); return; } }
            log << " predict(" << n << ")"; R.event("predictions", n);
        } else if (op == 3) { // different numbers of inputs and targets
            int a = g.range(0, 4), b = a + g.range(1, 3); if (g.chance(0.5)) std::swap(a, b);
            std::vector<Ten<T>> x(a, tagged<T>(1, 0)), y(b, tagged<T>(1, 0));
            Capture c; T_.clear(); R.desc = cat(log.str(), " train with ", a, " inputs and ", b, " targets");
            mustThrow("train:count-mismatch-accepted", R.desc, [&] { m.train(x, y, g.range(1, 3)); });
            if (!T_.empty()) R.fail("train:count-mismatch-had-effects", showEv());
            R.event("count-mismatches");
        } else if (op == 4) { // the public backward and update steps
            double t0 = tok(); T_.clear(); R.desc = log.str() + " backward, updateWeights";
            m.backward(tagged<T>(t0, 1)); m.updateWeights();
            double cur = t0; size_t p = 0; R.eval();
            bool ok = int(T_.size()) == 2 * L;
            for (int l = L - 1; ok && l >= 0; --l, ++p) { ok = T_[p].kind == 'B' && T_[p].id == l && T_[p].in == cur; cur = T_[p].out; }
            std::set<int> s; for (; ok && p < T_.size(); ++p) { ok = T_[p].kind == 'U' && T_[p].in == optId; s.insert(T_[p].id); }
            if (!ok || int(s.size()) != L) { R.fail("backward-updateWeights", showEv()); return; }
            R.event("manual-steps");
        } else {
            int n = g.chance(0.1) ? g.range(20, 60) : g.range(1, 7), epochs = g.chance(0.1) ? g.range(-2, 0) : g.range(1, 5);
            if (g.chance(0.006)) { if (g.chance(0.5)) { n = g.range(1, 3); epochs = g.range(50, 320); } else { n = int(bigSize(g, 2100)); epochs = 1; } if (double(n) * epochs * (L + 1) > 20000) { n = std::min(n, 3); epochs = 20; } else R.event("long-trainings"); }
            std::vector<Ten<T>> x, y; std::vector<double> xt, yt;
            for (int i = 0; i < n; ++i) { xt.push_back(tok()); yt.push_back(tok()); x.push_back(tagged<T>(xt.back(), g.range(0, 2))); y.push_back(tagged<T>(yt.back(), g.range(0, 2))); }
            log << " train(" << n << " samples, " << epochs << " epochs)"; R.desc = log.str();
            T_.clear();
            int perSample = 3 * L + 2; long total = long(std::max(0, epochs)) * n * perSample;
            bool inject = g.chance(0.15) && total > 0;
            if (inject) failAt = g.next() % total;
            Capture c; bool threw = false;
            std::vector<Snap<T>> keep; for (auto& t : x) keep.emplace_back(t); for (auto& t : y) keep.emplace_back(t);
            try { m.train(x, y, epochs); } catch (const std::exception&) { threw = true; }
            failAt = -1;
            for (auto& k : keep) k.check("train:data-changed");
            if (threw != inject) { R.fail("train:exception", threw ? "training threw" : "an exception of a layer was lost"); return; }
            if (inject) { R.event("injected-exceptions"); log << "!"; continue; }
            long p = 0;
            for (int e = 0; e < epochs && p >= 0; ++e) p = epoch(size_t(p), L, xt, yt, lossId, optId, training);
            if (p < 0) return;
            if (size_t(p) != T_.size()) { R.fail("train:extra-calls", showEv()); return; }
            auto ls = lossesIn(c.o.str());
            long double mean = 0; for (double t : yt) mean += SpyLoss<T>::value(t, lossId); mean /= n;
            R.eval();
            if (long(ls.size()) != std::max(0, epochs)) { R.fail("train:reported-epochs", cat(ls.size(), " of ", epochs, ": ", c.o.str().substr(0, 300))); return; }
            for (double v : ls) if (!close(v, mean, (2e-5L + 3e-7L * n) * fabsl(mean) + 1e-5L)) { R.fail("train:reported-loss", cat(v, " instead of ", double(mean), ": ", c.o.str().substr(0, 300))); return; }
            R.event("trainings"); if (lossMode == 1 || lossMode == 2) R.event("zero-losses"); R.event("epochs", std::max(0, epochs)); if (epochs <= 0) R.event("no-epochs"); if (L == 0) R.event("no-layers");
        }
    }
    R.sample("trace", log.str() + " last trace: " + showEv());
    R.nontrivial(log.str() + cat(token));
}
// Real layers: every parameter tensor is updated exactly once per sample
static std::vector<const void*> updated;
template <class T> struct CountOpt : smart_dnn::Optimizer<T> {
    void optimize(const std::vector<std::reference_wrapper<Ten<T>>>& w, const std::vector<std::reference_wrapper<Ten<T>>>& g, T) override {
        R.eval();
        if (w.size() != g.size()) R.fail("real:list-lengths", "");
        for (size_t i = 0; i < w.size() && i < g.size(); ++i) { updated.push_back(&w[i].get()); if (w[i].get().getShape().size() != g[i].get().getShape().size()) R.fail("real:gradient-size", cat(show(dimsOf(w[i].get())), " parameter, ", show(dimsOf(g[i].get())), " gradient")); }
    }
};
template <class T> void real(Rng& g) {
    smart_dnn::SmartDNN<T> m; int params = 0; std::ostringstream log; log << "real layers:";
    int c = g.range(1, 2), hgt = g.range(4, 6), cls = g.range(2, 4);
    bool conv = g.chance(0.5); Dims in;
    if (conv) {
        in = {g.range(1, 3), c, hgt, hgt};
        int oc = g.range(1, 3); m.addLayer(smart_dnn::Conv2DLayer<T>(c, oc, 3)); params += 2; log << " conv";
        if (g.chance(0.5)) { m.addLayer(smart_dnn::BatchNormalizationLayer<T>(oc)); params += 2; log << " bn"; }
        m.addLayer(smart_dnn::ActivationLayer<T>(smart_dnn::ReLU<T>())); log << " relu";
        int o = hgt - 2; if (g.chance(0.4)) { m.addLayer(smart_dnn::MaxPooling2DLayer<T>(2, 1)); o -= 1; log << " pool"; }
        m.addLayer(smart_dnn::FlattenLayer<T>()); m.addLayer(smart_dnn::FullyConnectedLayer<T>(oc * o * o, cls)); params += 2; log << " flatten fc";
    } else {
        in = {g.range(1, 4), g.range(1, 5)}; int w = in[1];
        int k = g.range(1, 4);
        for (int i = 0; i < k; ++i) { int n = i + 1 == k ? cls : g.range(1, 6); m.addLayer(smart_dnn::FullyConnectedLayer<T>(w, n)); w = n; params += 2; log << " fc" << n; if (g.chance(0.3)) { m.addLayer(smart_dnn::DropoutLayer<T>(T(0.2))); log << " dropout"; } if (g.chance(0.3)) { m.addLayer(smart_dnn::BatchNormalizationLayer<T>(w)); params += 2; log << " bn"; } }
    }
    m.compile(smart_dnn::MSELoss<T>(), CountOpt<T>());
    int n = g.range(1, 3), epochs = g.range(1, 2);
    std::vector<Ten<T>> x, y; for (int i = 0; i < n; ++i) { x.push_back(mk(in, randVec<T>(g, prod(in), UNIT))); y.push_back(mk(Dims{in[0], cls}, randVec<T>(g, in[0] * cls, UNIT))); }
    R.desc = log.str(); updated.clear();
    { Capture c2; m.train(x, y, epochs); }
    R.eval();
    bool ok = int(updated.size()) == n * epochs * params;
    for (int s = 0; ok && s < n * epochs; ++s) { std::set<const void*> u(updated.begin() + s * params, updated.begin() + (s + 1) * params); ok = int(u.size()) == params && u == std::set<const void*>(updated.begin(), updated.begin() + params); }
    if (!ok) R.fail("real:each-parameter-once-per-sample", cat(updated.size(), " updates for ", n * epochs, " samples of ", params, " parameters"));
    R.event("real-models"); R.sample("real", log.str()); R.nontrivial(log.str() + show(in) + cat(n, epochs));
}
int main(int argc, char** argv) {
    return mainLoop(argc, argv, [](Rng& g, u64) {
        if (g.chance(0.1)) { if (g.chance(0.5)) real<float>(g); else real<double>(g); }
        else if (g.chance(0.5)) traced<float>(g); else traced<double>(g);
    });
}
