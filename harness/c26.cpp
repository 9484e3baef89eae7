// C26: reproducibility from a seed, ranges and distributions of the random draws, constant factories
#include "model.hpp"
#include "smart_dnn/Datasets/MNistLoader.hpp"
#include "smart_dnn/Datasets/SampleGenerator.hpp"
#include <thread>
void elsewhere(bool dbl, int what, std::vector<double>& out); // c26b.cpp
void seedElsewhere(unsigned);
using namespace h;
template <class T> void play(const std::vector<std::pair<int, u64>>& ops, std::vector<double>& out) { // draws in many ways
    auto add = [&](const Ten<T>& t) { for (T v : vals(t)) out.push_back(double(v)); };
    for (auto& o : ops) {
        Rng g(o.second);
        switch (o.first) {
        case 0: add(Ten<T>::rand(Shape(anyDims(g, 1, 4, 6, 200, 0.003)))); break;
        case 1: { double a = g.uni(-3, 3), b = a + g.uni(0.1, 4); add(Ten<T>::randn(Shape(anyDims(g, 1, 4, 6, 200, 0.003)), T(a), T(b))); break; }
        case 2: { smart_dnn::FullyConnectedLayer<T> L(g.range(1, 8), g.range(1, 8)); add(L.getWeights()); add(L.getBiases()); break; }
        case 3: { smart_dnn::Conv2DLayer<T> L(g.range(1, 3), g.range(1, 3), g.range(1, 3)); add(L.getWeights()); add(L.getBiases()); break; }
        case 4: { smart_dnn::DropoutLayer<T> L(T(0.5)); for (int i = g.range(1, 3); i; --i) add(L.forward(Ten<T>(Shape{g.range(1, 60)}, T(1)))); break; }
        case 5: for (int i = g.range(1, 5); i; --i) out.push_back(RandomEngine::getRand()); break;
        case 6: for (int i = g.range(1, 5); i; --i) { out.push_back(RandomEngine::getRandRange(-2, 5)); out.push_back(RandomEngine::getHeInit(4)); out.push_back(RandomEngine::getXavierInit(3)); out.push_back(RandomEngine::getHeRandRange(5, -1, 1)); } break;
        default: { // a whole training
            ModelLimits q; q.maxBatch = 3; ModelSpec s = randomModel(g, q);
            smart_dnn::SmartDNN<T> m; addLayers<T>(m, s);
            smart_dnn::AdamOptions<T> ao; ao.learningRate = T(0.01);
            if (s.cce) m.compile(smart_dnn::CategoricalCrossEntropyLoss<T>(), smart_dnn::AdamOptimizer<T>(ao)); else m.compile(smart_dnn::MSELoss<T>(), smart_dnn::AdamOptimizer<T>(ao));
            std::vector<Ten<T>> x{mk(s.in, randVec<T>(g, prod(s.in), UNIT))}, y{mk(s.out, randomTarget<T>(g, s))};
            m.train(x, y, 2); m.evalMode(); add(m.predict(x[0])); }
        }
    }
}
static bool differs(const std::vector<double>& a, const std::vector<double>& b) { if (a.size() != b.size()) return true; for (size_t i = 0; i < a.size(); ++i) if (!(a[i] == b[i] || (a[i] != a[i] && b[i] != b[i]))) return true; return false; }
template <class T> void run(Rng& g) {
    Quiet quiet;
    unsigned seed = g.chance(0.3) ? unsigned(g.range(0, 20)) : unsigned(g.next());
    if (g.chance(0.5)) { // reproducibility
        std::vector<std::pair<int, u64>> ops; int n = g.chance(0.02) ? g.range(20, 60) : g.range(1, 8); if (n > 8) R.event("long-sequences"); std::string log = cat("seed ", seed, " ", tname<T>(), " operations");
        for (int i = 0; i < n; ++i) { ops.push_back({g.chance(0.3) ? 0 : g.range(0, 7), g.next()}); log += cat(" ", ops.back().first); }
        R.desc = log;
        std::vector<double> a, b, c;
        RandomEngine::setSeed(seed); play<T>(ops, a);
        for (int i = g.range(0, 4); i; --i) RandomEngine::getRand();
        RandomEngine::setSeed(seed); play<T>(ops, b);
        R.eval();
        if (differs(a, b)) { R.fail("not-reproducible", log); return; }
        // enough continuous draws differ for another seed
        unsigned other; do other = g.chance(0.5) ? seed + 1 + unsigned(g.range(0, 3)) : unsigned(g.next()); while (other == seed);
        std::vector<std::pair<int, u64>> dr; for (int i = 0; i < 3; ++i) dr.push_back({5, g.next()}); dr.push_back({6, 1}); dr.push_back({6, 2});
        std::vector<double> d, e; RandomEngine::setSeed(seed); play<T>(dr, d); RandomEngine::setSeed(other); play<T>(dr, e);
        R.eval(); if (!differs(d, e)) { R.fail("same-for-different-seeds", cat(seed, " and ", other)); return; }
        { RandomEngine::setSeed(seed); auto p = vals(Ten<T>::randn(Shape{64}, T(-1), T(1))); auto p2 = vals(Ten<T>::randn(Shape{64}, T(-1), T(1))); RandomEngine::setSeed(other); auto q = vals(Ten<T>::randn(Shape{64}, T(-1), T(1)));
          R.eval(2); if (p == q) R.fail("tensor-same-for-different-seeds", cat(seed, " and ", other)); if (p == p2) R.fail("draws-repeat", cat(seed)); }
        // one stream of draws for the whole program: other threads (one after the other) and other source files continue it
        {
            std::vector<int> what(g.range(2, 6)), how(what.size()); for (size_t i = 0; i < what.size(); ++i) { what[i] = g.range(0, 4); how[i] = g.range(0, 2); }
            bool there = g.chance(0.5), dbl = sizeof(T) == 8;
            auto draws = [&](unsigned sd, bool mixed) { std::vector<double> o; if (mixed && there) seedElsewhere(sd); else RandomEngine::setSeed(sd);
                for (size_t i = 0; i < what.size(); ++i) { u64 q = mix(what[i]); int h = mixed ? how[i] : 0; if (h == 0) elsewhere(dbl, what[i], o); else if (h == 1) std::thread([&] { elsewhere(dbl, what[i], o); }).join(); else { std::vector<std::pair<int, u64>> one{{5, q}}; play<T>(one, o); } }
                for (int i = 0; i < 3; ++i) o.push_back(RandomEngine::getRand()); return o; };
            std::string text; for (size_t i = 0; i < what.size(); ++i) text += cat(" ", what[i], "/", how[i]);
            R.desc = cat(log, "; elsewhere", text); R.eval(3); R.event("other-threads-and-files");
            auto p = draws(seed, true), q = draws(seed, true); if (differs(p, q)) R.fail("not-reproducible-elsewhere", R.desc);
            auto r = draws(other, true); if (!differs(p, r)) R.fail("elsewhere-same-for-different-seeds", R.desc);
            // drawn by this thread only
            bool plain = true; for (int h : how) if (h == 2) plain = false;
            if (plain) { auto s = draws(seed, false); if (differs(p, s)) R.fail("thread-has-a-stream-of-its-own", R.desc); R.event("thread-streams"); }
        }
        R.event("reproductions"); for (auto& o : ops) R.event(cat("operation-", o.first));
        R.sample("sequence", log); R.nontrivial(log);
        return;
    }
    RandomEngine::setSeed(seed);
    Dims d = g.chance(0.3) ? g.chance(0.03) ? Dims{g.range(1000, 70000)} : Dims{g.range(64, 900)} : anyDims(g, 1, 4, 12, 2000, 0.006); size_t n = prod(d);
    auto within = [&](const char* key, const Ten<T>& t, const Dims& d, double lo, double hi, bool vary) {
        R.eval();
        if (dimsOf(t) != d) { R.fail(cat(key, ":shape"), show(dimsOf(t))); return; }
        auto v = vals(t); std::set<T> s(v.begin(), v.end());
        for (T x : v) if (!(ld(x) >= lo && ld(x) <= hi)) { R.fail(cat(key, ":range"), cat(double(x), " outside [", lo, ", ", hi, "]")); return; }
        if (vary && v.size() >= 64 && s.size() < 4) R.fail(cat(key, ":constant"), cat(s.size(), " values in ", v.size(), " elements"));
        if (vary && v.size() >= 64) R.event("variation-checked");
        if (vary && v.size() >= 8 * 64) { // no part of the tensor repeats another one; values at the ends of the interval apart
            std::map<std::vector<T>, size_t> blocks; bool told = false;
            for (size_t i = 0; i + 4 <= v.size() && !told; ++i) {
                bool inside = true; for (size_t j = i; j < i + 4; ++j) inside = inside && ld(v[j]) > lo && ld(v[j]) < hi;
                if (!inside) continue;
                auto f = blocks.emplace(std::vector<T>(v.begin() + i, v.begin() + i + 4), i);
                if (!f.second) { R.fail(cat(key, ":repeats"), cat("elements ", f.first->second, " and ", i, " begin the same four values")); told = true; }
            }
            R.event("repetition-checked");
        }
    };
    int k = g.range(0, 5);
    if (k == 0) {
        R.desc = cat("rand ", show(d), " seed ", seed); within("rand", Ten<T>::rand(Shape(d)), d, 0, 1, true);
        int z = g.range(1, 300); within("rand-int", Ten<T>::rand(z), {z}, 0, 1, true); R.event("rand");
    } else if (k == 1) {
        float lo = g.one({-1.0f, -0.5f, 0.0f, -100.0f, 2.0f, -7.0f, -0.125f}), hi = lo + g.one({0.5f, 1.0f, 2.0f, 200.0f, 0.0f});
        bool vary = (lo <= 0 && hi >= 0.01f) || (lo <= -0.01f && hi >= 0);
        R.desc = cat("randn ", show(d), " in [", lo, ", ", hi, "] seed ", seed);
        within("randn", Ten<T>::randn(Shape(d), T(lo), T(hi)), d, lo, hi, vary);
        int z = g.range(1, 300); within("randn-int", Ten<T>::randn(z, T(lo), T(hi)), {z}, lo, hi, vary); R.event("randn");
    } else if (k == 2) { // uniform draws
        float lo = g.one({0.0f, -1.0f, 5.0f, -100.0f}), hi = lo + g.one({1.0f, 2.0f, 50.0f}); int N = 2000, q[8] = {}; bool unit = g.chance(0.4);
        if (unit) lo = 0, hi = 1;
        R.desc = cat(unit ? "getRand" : "getRandRange", " in [", lo, ", ", hi, "] seed ", seed);
        for (int i = 0; i < N; ++i) {
            float x = unit ? RandomEngine::getRand() : RandomEngine::getRandRange(lo, hi); R.eval();
            if (!(x >= lo && x <= hi)) { R.fail("uniform:range", cat(x)); return; }
            q[std::min(7, int((x - lo) / (hi - lo) * 8))]++;
        }
        for (int c : q) if (std::fabs(c - N / 8.0) > 6.5 * std::sqrt(N * 7 / 64.0)) { R.fail("uniform:coverage", cat(c, " of ", N, " in one eighth")); return; }
        R.event("uniform");
    } else if (k == 3) { // normal draws
        float nin = float(g.range(1, 500)); int N = 3000; bool he = g.chance(0.5); double sd = std::sqrt((he ? 2.0 : 1.0) / nin), s = 0, s2 = 0; int in = 0;
        R.desc = cat(he ? "getHeInit" : "getXavierInit", "(", nin, ") seed ", seed);
        for (int i = 0; i < N; ++i) { double x = he ? RandomEngine::getHeInit(nin) : RandomEngine::getXavierInit(nin); s += x; s2 += x * x; in += std::fabs(x) < sd; }
        R.eval(3);
        if (std::fabs(s / N) > 6.5 * sd / std::sqrt(N) || std::fabs(s2 / N - sd * sd) > 6.5 * sd * sd * std::sqrt(2.0 / N) * 1.2 || std::fabs(in - 0.6827 * N) > 6.5 * std::sqrt(N * 0.2166)) R.fail(he ? "he" : "xavier", cat("mean ", s / N, " deviation ", std::sqrt(s2 / N), " instead of ", sd, ", ", in, " of ", N, " within"));
        bool any = false; float lo = float(-sd * 0.7), hi = float(sd * 1.1); int atlo = 0, athi = 0;
        for (int i = 0; i < 500; ++i) { float x = RandomEngine::getHeRandRange(nin, lo, hi); R.eval(); any |= x != lo && x != hi; atlo += x == lo; athi += x == hi; if (!(x >= lo && x <= hi)) { R.fail("he-range", cat(x)); return; } }
        if (!any) R.fail("he-range:constant", ""); (void)atlo; (void)athi;
        R.event("normal");
    } else { // constants
        R.desc = cat("constants ", show(d));
        sameExact("zeros", Ten<T>::zeros(Shape(d)), d, std::vector<T>(n, T(0))); sameExact("ones", Ten<T>::ones(Shape(d)), d, std::vector<T>(n, T(1)));
        int z = g.range(1, 40); sameExact("zeros-int", Ten<T>::zeros(z), {z}, std::vector<T>(z, T(0))); sameExact("ones-int", Ten<T>::ones(z), {z}, std::vector<T>(z, T(1)));
        std::vector<T> id(z * z, T(0)); for (int i = 0; i < z; ++i) id[i * z + i] = T(1);
        sameExact("identity", Ten<T>::identity(z), {z, z}, id); R.event("constants");
    }
    R.nontrivial(R.desc);
    R.sample(R.desc.substr(0, R.desc.find(' ')), R.desc);
}
int main(int argc, char** argv) { return mainLoop(argc, argv, [](Rng& g, u64) { if (g.chance(0.5)) run<float>(g); else run<double>(g); }); }
