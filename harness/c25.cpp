// C25: generated linear datasets. The generators seed themselves from the system, so every bound is one that a
// correct generator misses with probability below 1e-9.
#include "common.hpp"
#include <iostream>
#include <random>
#include "smart_dnn/Datasets/SampleGenerator.hpp"
using namespace h;
static bool relation(const std::vector<float>& x, const std::vector<float>& y, double noise) {
    size_t n = x.size();
    double s = 0, s2 = 0, sx = 0, sxx = 0, sxr = 0; int quarter[4] = {};
    for (size_t i = 0; i < n; ++i) {
        R.eval();
        if (!(x[i] >= 0 && x[i] <= 100)) { R.fail("input-range", cat("input ", x[i])); return false; }
        double r = double(y[i]) - 2.0 * x[i] - 3.0;
        if (!(std::fabs(r) <= 8.5 * noise + 6e-5 + 1e-6 * std::fabs(double(y[i])))) { R.fail("relation", cat("input ", x[i], " target ", y[i], " noise ", noise)); return false; }
        s += r; s2 += r * r; sx += x[i]; sxx += double(x[i]) * x[i]; sxr += (x[i] - 50.0) * r; quarter[std::min(3, int(x[i] / 25))]++;
    }
    R.event("samples", n);
    if (n >= 200) {
        double e = 6e-5; // rounding
        R.eval(4); R.event("statistics");
        if (std::fabs(s / n) > 6.5 * noise / std::sqrt(double(n)) + e) { R.fail("noise-mean", cat(s / n, " over ", n, " samples, noise ", noise)); return false; }
        if (noise > 1e-3) {
            double sd = std::sqrt(s2 / n), tol = 6.5 / std::sqrt(2.0 * n) * noise * 1.3 + e;
            if (std::fabs(sd - noise) > tol) { R.fail("noise-deviation", cat(sd, " instead of ", noise, " over ", n)); return false; }
            if (std::fabs(sxr / n) > 6.5 * 29 * noise / std::sqrt(double(n)) + 50 * e) { R.fail("noise-depends-on-input", cat(sxr / n)); return false; }
            std::vector<double> a; int in = 0, pos = 0; for (size_t i = 0; i < n; ++i) { double r = double(y[i]) - 2.0 * x[i] - 3.0; in += std::fabs(r) < noise; pos += r > 0; }
            if (std::fabs(in - 0.6827 * n) > 6.5 * std::sqrt(n * 0.6827 * 0.3173) + 2) { R.fail("noise-not-normal", cat(in, " of ", n, " within one deviation")); return false; }
            if (std::fabs(pos - 0.5 * n) > 6.5 * std::sqrt(n * 0.25) + 2) { R.fail("noise-not-symmetric", cat(pos, " of ", n)); return false; }
        }
        for (int q : quarter) if (std::fabs(q - 0.25 * n) > 6.5 * std::sqrt(n * 0.1875) + 2) { R.fail("inputs-not-uniform", cat(q, " of ", n, " in one quarter")); return false; }
    }
    std::set<float> d(x.begin(), x.end());
    if (n >= 10 && d.size() < n / 2) { R.fail("inputs-repeat", cat(d.size(), " of ", n)); return false; }
    return true;
}
int main(int argc, char** argv) {
    return mainLoop(argc, argv, [](Rng& g, u64) {
        int n = g.chance(0.003) ? g.range(65000, 140000) : g.chance(0.05) ? g.range(2000, 6000) : g.chance(0.2) ? g.range(200, 900) : g.range(0, 40);
        float noise = g.one({1.0f, 0.1f, 5.0f, 0.01f, 30.0f, 0.0f, 0.5f}); bool dflt = g.chance(0.2); if (dflt) noise = 1;
        std::vector<float> x, y;
        if (g.chance(0.4)) {
            R.desc = cat("single, ", n, " samples, noise ", noise);
            auto d = dflt ? smart_dnn::generateLinearDataset(n) : smart_dnn::generateLinearDataset(n, noise);
            R.eval();
            if (int(d.first.size()) != n || int(d.second.size()) != n) { R.fail("single:count", cat(d.first.size(), " inputs and ", d.second.size(), " targets for ", n)); return; }
            for (int i = 0; i < n; ++i) {
                if (d.first[i].getShape().size() != 1 || d.second[i].getShape().size() != 1) { R.fail("single:shape", ""); return; }
                x.push_back(vals(d.first[i])[0]); y.push_back(vals(d.second[i])[0]);
            }
            R.event("single");
        } else {
            int b = g.chance(0.05) ? g.one({INT_MAX, INT_MAX - 1, 1 << 30}) : g.chance(0.3) ? g.range(1, 7) : g.chance(0.2) ? std::max(1, n) : g.range(1, n + 10);
            R.desc = cat("batches of ", b, ", ", n, " samples, noise ", noise);
            auto d = dflt ? smart_dnn::generateBatchedLinearDataset(n, b) : smart_dnn::generateBatchedLinearDataset(n, b, noise);
            size_t nb = n / b + (n % b > 0);
            R.eval();
            if (d.first.size() != nb || d.second.size() != nb) { R.fail("batched:count", cat(d.first.size(), " and ", d.second.size(), " batches instead of ", nb)); return; }
            for (size_t i = 0; i < nb; ++i) {
                int k = std::min<long long>(b, n - (long long)i * b);
                for (auto* t : {&d.first[i], &d.second[i]}) if (dimsOf(*t) != Dims{k, 1}) { R.fail("batched:shape", cat("batch ", i, ": ", show(dimsOf(*t)), " instead of ", show({k, 1}))); return; }
                auto a = vals(d.first[i]), c = vals(d.second[i]); x.insert(x.end(), a.begin(), a.end()); y.insert(y.end(), c.begin(), c.end());
            }
            R.event("batched"); if (nb > 1000) R.event("over-1000-batches"); if (n % b) R.event("short-last-batches"); if (b > n) R.event("batch-larger-than-set");
            if (g.chance(0.2)) { int z = g.one({0, -1, INT_MIN, -7}); mustThrow("batch-size-below-1-accepted", cat(z), [&] { smart_dnn::generateBatchedLinearDataset(n, z, noise); }); }
        }
        R.sample(R.desc.substr(0, 6), R.desc + " inputs " + showv(x, 5)); if (n == 0) R.event("empty"); if (n > 65536) R.event("beyond-65536-samples");
        relation(x, y, noise);
        R.nontrivial(hashV(Dims{}, x));
    });
}
