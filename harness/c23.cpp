// C23: evaluation-mode prediction is pure, repeatable and per-sample; mode switches reach every layer
#include "model.hpp"
using namespace h;
struct Op { int kind; std::vector<int> data; int n = 1; }; // 0 train, 1 eval mode, 2 training mode, 3 predict, 4 predict list
template <class T> void compileAny(smart_dnn::SmartDNN<T>& m, const ModelSpec& s, int opt) {
    auto with = [&](auto o) { if (s.cce) m.compile(smart_dnn::CategoricalCrossEntropyLoss<T>(), o); else m.compile(smart_dnn::MSELoss<T>(), o); };
    if (opt == 0) { smart_dnn::SGDOptions<T> o; o.learningRate = T(0.01); with(smart_dnn::SGDOptimizer<T>(o)); }
    else if (opt == 1) { smart_dnn::RMSPropOptions<T> o; o.learningRate = T(0.003); o.epsilon = T(1e-3); with(smart_dnn::RMSPropOptimizer<T>(o)); }
    else { smart_dnn::AdamOptions<T> o; o.learningRate = T(0.003); o.epsilon = T(1e-3); with(smart_dnn::AdamOptimizer<T>(o)); }
}
template <class T> Ten<T> rows(const Ten<T>& x, const std::vector<int>& r) { // a batch of the given samples of x
    Dims d = dimsOf(x); size_t f = x.getShape().size() / d[0]; auto v = vals(x); std::vector<T> o;
    for (int i : r) o.insert(o.end(), v.begin() + i * f, v.begin() + (i + 1) * f);
    d[0] = int(r.size()); return mk(d, o);
}
template <class T> bool bits(const Ten<T>& a, const Ten<T>& b) {
    auto x = vals(a), y = vals(b);
    if (dimsOf(a) != dimsOf(b)) return false;
    for (size_t i = 0; i < x.size(); ++i) if (!(x[i] == y[i] || (x[i] != x[i] && y[i] != y[i]))) return false;
    return true;
}
template <class T> void run(Rng& g) {
    ModelLimits q; q.unbatched = false; q.maxBatch = 5; q.tail = true;
    ModelSpec s = randomModel(g, q);
    for (int k = 0; k < 3 && !s.has("dropout") && !s.has("bn"); ++k) s = randomModel(g, q);
    int opt = g.range(0, 2); unsigned seed = unsigned(g.next());
    const bool longRun = g.chance(0.008);
    int D = longRun ? g.range(4, 20) : g.range(2, 4);
    if (longRun) R.event("long-histories");
    std::vector<Ten<T>> X, Y;
    for (int i = 0; i < D; ++i) { auto v = randVec<T>(g, prod(s.in), UNIT); X.push_back(mk(s.in, v)); Y.push_back(mk(s.out, randomTarget<T>(g, s))); }
    std::vector<Op> ops; bool training = true; int n = longRun ? g.range(40, 150) : g.range(3, 12);
    std::string log = s.text() + cat(" ", tname<T>(), " optimizer ", opt, " seed ", seed, ":");
    for (int i = 0; i < n; ++i) {
        Op o; o.kind = g.range(0, 6); if (o.kind > 4) o.kind = 3; if (o.kind == 0 && !training) o.kind = 3;
        int c = o.kind == 3 ? 1 : g.range(1, 3); for (int k = 0; k < c; ++k) o.data.push_back(g.range(0, D - 1));
        if (o.kind == 0) { o.n = g.range(1, 2); log += cat(" train", show(o.data), "x", o.n); }
        if (o.kind == 1) { training = false; log += " eval"; }
        if (o.kind == 2) { training = true; log += " training"; }
        if (o.kind >= 3) log += cat(o.kind == 3 ? " predict" : " predictlist", show(o.data));
        ops.push_back(o);
    }
    R.desc = log;
    Quiet quiet;
    // A does everything, B leaves the predictions in evaluation mode out
    std::vector<Ten<T>> outA, outB; // of predictions in training mode, and of the probes at the end
    std::unique_ptr<smart_dnn::SmartDNN<T>> A;
    for (int who = 0; who < 2; ++who) {
        RandomEngine::setSeed(seed);
        auto m = std::make_unique<smart_dnn::SmartDNN<T>>(); addLayers<T>(*m, s); compileAny(*m, s, opt);
        auto& out = who ? outB : outA; bool tr = true;
        std::map<int, Ten<T>> memo; // evaluation predictions since the last change
        for (auto& o : ops) {
            std::vector<Ten<T>> x, y; for (int i : o.data) { x.push_back(X[i]); y.push_back(Y[i]); }
            if (o.kind == 0) { m->train(x, y, o.n); memo.clear(); if (!who) R.event("trainings"); }
            else if (o.kind == 1) { m->evalMode(); tr = false; }
            else if (o.kind == 2) { m->trainingMode(); tr = true; }
            else if (tr) { memo.clear(); if (o.kind == 3) out.push_back(m->predict(x[0])); else for (auto& t : m->predict(x)) out.push_back(t); if (!who) R.event("training-predictions"); }
            else if (!who) {
                std::vector<Snap<T>> sn; for (auto& t : x) sn.emplace_back(t);
                std::vector<Ten<T>> r;
                if (o.kind == 3) r.push_back(m->predict(x[0])); else r = m->predict(x);
                for (auto& k : sn) k.check("predict:input-changed");
                R.eval();
                if (r.size() != x.size()) { R.fail("predict-list:count", cat(r.size())); return; }
                for (size_t i = 0; i < r.size(); ++i) {
                    R.eval();
                    auto it = memo.find(o.data[i]);
                    if (it == memo.end()) memo.emplace(o.data[i], r[i]);
                    else { R.event("repeated-predictions"); if (!bits(it->second, r[i])) { R.fail("eval:not-repeatable", cat("input ", o.data[i], ": ", showv(vals(it->second)), " then ", showv(vals(r[i])))); return; } }
                }
                if (o.kind == 4) { // the list against its elements
                    for (size_t i = 0; i < x.size(); ++i) { R.eval(); if (!bits(m->predict(x[i]), r[i])) { R.fail("predict-list:element", cat(i)); return; } }
                    R.event("list-predictions");
                }
                R.event("eval-predictions", r.size());
            }
        }
        // probes: training behaviour, then evaluation behaviour, of what is left
        m->trainingMode(); for (int i = 0; i < D; ++i) out.push_back(m->predict(X[i]));
        m->train({X[0]}, {Y[0]}, 1);
        m->evalMode(); for (int i = 0; i < D; ++i) out.push_back(m->predict(X[i]));
        if (!who) A = std::move(m);
    }
    R.eval();
    if (outA.size() != outB.size()) { R.fail("probe-count", ""); return; }
    for (size_t i = 0; i < outA.size(); ++i) { R.eval(); if (!bits(outA[i], outB[i])) { R.fail("eval:prediction-has-effects", cat("output ", i, ": ", showv(vals(outA[i])), " with, ", showv(vals(outB[i])), " without predictions in evaluation mode")); return; } }
    R.event("twins-compared");
    // composition of the layers
    {
        Ten<T> t = X[0]; for (size_t l = 0; l < s.layers.size(); ++l) t = A->getLayer(l)->forward(t);
        R.eval(); if (!bits(t, A->predict(X[0]))) { R.fail("predict:not-the-composition", ""); return; }
        R.event("compositions");
    }
    // per sample
    auto near = [&](const std::string& key, const Ten<T>& a, const Ten<T>& b) {
        auto w = vals(b); ld mx = 1e-3L; for (T v : w) mx = std::max(mx, fabsl(ld(v)));
        return same(key, a, dimsOf(b), lds(w), std::vector<ld>(w.size(), 2e4L * EPS<T> * mx));
    };
    Ten<T> all = rows(X[0], {0}); { std::vector<T> v; for (auto& x : X) { auto z = vals(x); v.insert(v.end(), z.begin(), z.end()); } Dims d = s.in; d[0] *= D; all = mk(d, v); }
    int N = D * s.in[0];
    Ten<T> base = A->predict(all);
    bool finite = true; for (T v : vals(base)) finite = finite && std::isfinite(v) && std::fabs(v) < 1e6;
    if (!finite) { R.event("diverged"); return; }
    for (int k = 0; k < 3; ++k) {
        std::vector<int> r; int c = k == 0 ? N : k == 1 ? 1 : g.range(1, 2 * N);
        for (int i = 0; i < c; ++i) r.push_back(g.range(0, N - 1));
        if (k == 0) { for (int i = 0; i < N; ++i) r[i] = i; g.shuffle(r); }
        R.desc = log + " batch of samples " + show(r);
        if (!near("eval:depends-on-other-samples", A->predict(rows(all, r)), rows(base, r))) return;
        R.event(k == 0 ? "permuted-batches" : k == 1 ? "single-samples" : "recomposed-batches");
    }
    { // a list of batches of different sizes, some with the same number of elements
        std::vector<Ten<T>> list; std::string sizes; int L = g.chance(0.02) ? g.range(60, 300) : g.range(2, 5); if (L > 5) R.event("long-lists");
        for (int k = 0; k < L; ++k) { std::vector<int> r; int c = g.range(1, std::min(N + 1, L > 5 ? 2 : 5)); for (int i = 0; i < c; ++i) r.push_back(g.range(0, N - 1)); list.push_back(rows(all, r)); sizes += cat(" ", c); }
        R.desc = log + " list of batches of" + sizes;
        auto got = A->predict(list); R.eval();
        if (got.size() != list.size()) { R.fail("predict-list:count", cat(got.size())); return; }
        for (int k = 0; k < L; ++k) { R.eval(); if (!bits(A->predict(list[k]), got[k])) { R.fail("predict-list:mixed-sizes", cat("element ", k)); return; } }
        R.event("mixed-lists");
    }
    // a sample beside extreme ones
    auto v = vals(all); size_t f = v.size() / N; for (size_t i = f; i < v.size(); ++i) v[i] = T(g.normal() * 50);
    if (N > 1) { R.desc = log + " beside extreme samples"; if (!near("eval:depends-on-other-samples", rows(A->predict(mk(dimsOf(all), v)), {0}), rows(base, {0}))) return; R.event("beside-extreme-samples"); }
    // training behaviour comes back: dropout drops again, batch statistics count again
    for (size_t l = 0; l < s.layers.size(); ++l) {
        if (s.layers[l].kind != "dropout" && s.layers[l].kind != "bn") continue;
        auto* L = A->getLayer(l); bool drop = s.layers[l].kind == "dropout";
        Dims d = drop ? Dims{400} : Dims{4, s.layers[l].a[0]};
        auto z = randVec<T>(g, prod(d), UNIT); for (T& e : z) e += T(5); auto Z = mk(d, z);
        for (int mode = 0; mode < 2; ++mode) {
            if (mode) A->trainingMode(); else A->evalMode();
            auto o = vals(L->forward(Z)); R.eval();
            bool trainingSeen;
            if (drop) { int zeros = 0; for (T e : o) zeros += e == T(0); trainingSeen = zeros > 0; if (!mode && o != z) R.fail("mode:dropout-in-evaluation", ""); }
            else { // batch statistics make the mean of each feature equal the shift, whatever offset is added to the input
                auto z2 = z; for (T& e : z2) e += T(3); auto o2 = vals(L->forward(mk(d, z2)));
                ld diff = 0, mag = 0; for (size_t i = 0; i < o.size(); ++i) { diff = std::max(diff, fabsl(ld(o[i]) - ld(o2[i]))); mag = std::max(mag, fabsl(ld(o[i]))); }
                trainingSeen = diff < 1e-3L * (1 + mag);
                if (!mode && trainingSeen) { // a learnt scale near zero would look the same
                    continue;
                }
            }
            if (trainingSeen != bool(mode)) R.fail(cat("mode:", mode ? "training" : "evaluation", "-does-not-reach-", s.layers[l].kind), cat("layer ", l));
            R.event(drop ? "dropout-modes" : "bn-modes");
        }
    }
    for (auto& l : s.layers) R.event(l.kind);
    if (s.layers.back().kind == "dropout" || s.layers.back().kind == "bn") R.event(s.layers.size() == 1 ? "mode-layer-alone" : "mode-layer-last");
    if (s.layers[0].kind == "dropout" || s.layers[0].kind == "bn") R.event("mode-layer-first");
    R.sample(s.has("bn") ? "bn" : s.has("dropout") ? "dropout" : "plain", log); R.nontrivial(log);
}
int main(int argc, char** argv) { return mainLoop(argc, argv, [](Rng& g, u64) { if (g.chance(0.5)) run<float>(g); else run<double>(g); }); }
