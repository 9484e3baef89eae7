// C20: one optimizer serving several parameters against one optimizer per parameter; rejected updates.
#include "layers.hpp"
using namespace h;
template <class T> std::unique_ptr<smart_dnn::Optimizer<T>> maker(int kind, const std::vector<double>& q) {
    if (kind == 0) { smart_dnn::SGDOptions<T> o; o.momentum = T(q[0]); o.nesterov = q[1] > 0.5; o.dampening = T(q[2]); o.weightDecay = T(q[3]); return std::make_unique<smart_dnn::SGDOptimizer<T>>(o); }
    if (kind == 1) { smart_dnn::RMSPropOptions<T> o; o.momentum = T(q[2]); o.centered = q[1] > 0.5; o.alpha = T(q[0]); o.weightDecay = T(q[3]); return std::make_unique<smart_dnn::RMSPropOptimizer<T>>(o); }
    smart_dnn::AdamOptions<T> o; o.learningRate = T(0.01); o.decay = T(q[2]); o.l2Strength = T(q[3]); o.batchSize = q[1] > 0.5 ? 4 : 1; return std::make_unique<smart_dnn::AdamOptimizer<T>>(o);
}
template <class T> void run(Rng& g) {
    using Refs = std::vector<std::reference_wrapper<Ten<T>>>;
    int kind = g.range(0, 2), K = g.chance(0.01) ? g.range(7, 80) : g.range(2, 6);
    if (K > 6) R.event("many-parameters");
    static const char* names[] = {"sgd", "rmsprop", "adam"};
    std::vector<double> q{g.one({0.9, 0.5}), g.uni(), g.one({0.0, 0.5, 0.1}), g.one({0.0, 0.01})};
    bool equal = g.chance(0.4);
    Dims d0 = randDims(g, 1, 3, 5, 40);
    std::vector<Ten<T>> w; std::vector<Ten<T>> tw;   // shared, and the twins'
    std::vector<std::unique_ptr<smart_dnn::Optimizer<T>>> twin;
    auto shared = maker<T>(kind, q);
    w.reserve(K); tw.reserve(K);
    for (int i = 0; i < K; ++i) {
        Dims d = equal ? d0 : K <= 6 && g.chance(0.05) ? Dims{g.range(1001, 1100)} : K <= 6 && g.chance(0.003) ? Dims{int(bigSize(g, 70000))} : randDims(g, 1, 3, 5, 40);
        auto v = randVec<T>(g, prod(d), UNIT);
        w.push_back(mk(d, v)); tw.push_back(mk(d, v)); twin.push_back(maker<T>(kind, q));
    }
    std::ostringstream log; log << names[kind] << "<" << tname<T>() << "> " << K << " parameters;";
    auto check = [&](const char* after) {
        for (int i = 0; i < K; ++i) if (!sameExact(cat(names[kind], ":", after), w[i], dimsOf(tw[i]), vals(tw[i]))) return false;
        return true;
    };
    int steps = K > 6 ? g.range(20, 120) : g.chance(0.01) ? g.range(100, 400) : g.range(4, 24);
    if (steps > 24) R.event("long-histories");
    for (int s = 0; s < steps; ++s) {
        int op = g.range(0, 11);
        T over = g.chance(0.7) ? T(-1) : T(0.07);
        std::vector<int> idx;
        if (op <= 3) { idx = {g.range(0, K - 1)}; R.event("single-updates"); }
        else if (op <= 6) { for (int i = 0; i < K; ++i) if (g.chance(0.6)) idx.push_back(i); g.shuffle(idx); if (g.chance(0.1) && !idx.empty()) idx.push_back(idx[0]); R.event("group-updates"); }
        if (op <= 6) {
            std::vector<Ten<T>> gr; Refs rw, rg; gr.reserve(idx.size());
            for (int i : idx) { gr.push_back(mk(dimsOf(w[i]), randVec<T>(g, w[i].getShape().size(), NORMAL))); }
            // a gradient of the same size but another shape is acceptable
            std::vector<Snap<T>> snaps; for (auto& x : gr) snaps.emplace_back(x);
            for (size_t j = 0; j < idx.size(); ++j) { rw.push_back(std::ref(w[idx[j]])); rg.push_back(std::ref(gr[j])); }
            log << " update" << show(idx); R.desc = log.str();
            shared->optimize(rw, rg, over);
            for (auto& x : snaps) x.check(cat(names[kind], ":gradient-changed"));
            for (size_t j = 0; j < idx.size(); ++j) { auto gg = mk(snaps[j].d, snaps[j].v); twin[idx[j]]->optimize({std::ref(tw[idx[j]])}, {std::ref(gg)}, over); }
            if (!check("isolation")) return;
        } else if (op == 7) { // a new value of the same size, by different kinds of assignment
            int i = g.range(0, K - 1); Dims d = dimsOf(w[i]); auto v = randVec<T>(g, prod(d), UNIT);
            int how = g.range(0, 3);
            log << " replace" << how << "(" << i << ")"; R.desc = log.str();
            if (how == 0) { auto x = mk(d, v); w[i] = x; } else if (how == 1) w[i] = mk(d, v); else if (how == 2) { auto x = mk(d, v); std::swap(w[i], x); } else for (size_t j = 0; j < v.size(); ++j) w[i][j] = v[j];
            tw[i] = mk(d, v);
            R.event("replaced-values");
        } else if (op == 8) { // exchange two parameters' values
            int i = g.range(0, K - 1), j = g.range(0, K - 1);
            if (i == j || w[i].getShape() != w[j].getShape()) continue;
            log << " swap(" << i << "," << j << ")"; R.desc = log.str();
            std::swap(w[i], w[j]); std::swap(tw[i], tw[j]);
            R.event("exchanged-values");
        } else if (op == 9) { // a parameter of a new size
            int i = g.range(0, K - 1); Dims d = randDims(g, 1, 3, 6, 60); auto v = randVec<T>(g, prod(d), UNIT);
            log << " resize(" << i << ")" << show(d); R.desc = log.str();
            w[i] = mk(d, v); tw[i] = mk(d, v);
            R.event("resized-parameters");
        } else { // a rejected update, which changes nothing
            for (int i = 0; i < K; ++i) idx.push_back(i);
            g.shuffle(idx); idx.resize(g.range(1, K));
            std::vector<Ten<T>> gr; Refs rw, rg; gr.reserve(K + 2);
            int bad = g.range(0, int(idx.size()) - 1);
            bool lengths = op == 11;
            for (size_t j = 0; j < idx.size(); ++j) {
                size_t n = w[idx[j]].getShape().size();
                if (!lengths && int(j) == bad) n = g.chance(0.5) ? n + g.range(1, 8) : (n > 1 ? n - g.range(1, int(std::min<size_t>(n - 1, 8))) : n + 1);
                gr.push_back(Ten<T>(Shape{int(n)}, T(1)));
            }
            if (lengths && g.chance(0.5)) gr.push_back(Ten<T>(Shape{3}, T(1)));
            else if (lengths) gr.pop_back();
            for (int i : idx) rw.push_back(std::ref(w[i]));
            for (auto& x : gr) rg.push_back(std::ref(x));
            std::vector<Snap<T>> snaps; for (auto& x : gr) snaps.emplace_back(x);
            log << (lengths ? " lengths" : " badsize") << show(idx); R.desc = log.str();
            mustThrow(cat(names[kind], lengths ? ":length-mismatch-accepted" : ":size-mismatch-accepted"), R.desc, [&] { shared->optimize(rw, rg, over); });
            for (auto& x : snaps) x.check(cat(names[kind], ":gradient-changed"));
            R.event(lengths ? "length-mismatches" : "size-mismatches");
            if (!check("rejected-update-changed-a-parameter")) return;
        }
    }
    R.event(names[kind]);
    R.sample(names[kind], log.str());
    R.nontrivial(log.str());
}
int main(int argc, char** argv) {
    return mainLoop(argc, argv, [](Rng& g, u64) { if (g.chance(0.5)) run<float>(g); else run<double>(g); });
}
