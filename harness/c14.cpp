// C14: dropout
#include "layers.hpp"
using namespace h;
// Random draws are checked by bounds at 6.5 standard deviations.
static void rate(const std::string& key, double hits, double n, double p) {
    R.eval(); R.event("statistics");
    double sd = std::sqrt(n * p * (1 - p));
    if (std::fabs(hits - n * p) > 6.5 * sd + 2) R.fail(key, cat(hits, " of ", n, " where ", n * p, " +- ", sd, " are expected"));
}
template <class T> T someRate(Rng& g) { return g.chance(0.15) ? T(0) : g.chance(0.5) ? g.one({T(0.1), T(0.25), T(0.5), T(0.75), T(0.9), T(0.97), T(0.99), T(0.999)}) : T(g.uni(0.01, 0.97)); }
// forward and check the factors; returns the mask
template <class T> bool factors(const std::string& key, const std::vector<T>& x, const Ten<T>& y, T r, std::vector<char>& keep) {
    keep.assign(x.size(), 0);
    R.eval();
    for (size_t i = 0; i < x.size(); ++i) {
        T o = y.getData()[i];
        if (o == T(0) && x[i] != T(0)) continue;
        keep[i] = 1;
        ld want = x[i] / (1 - ld(r)), tol = 6 * EPS<T> / (1 - ld(r)) * fabsl(want);
        if (r == T(0)) tol = 0;
        if (!close(o, want, tol)) { R.fail(key, cat("element ", i, ": ", double(x[i]), " became ", double(o), " at rate ", double(r))); return false; }
    }
    return true;
}
template <class T> std::vector<T> nonzero(Rng& g, size_t n) { std::vector<T> v(n); for (T& x : v) { x = T(g.uni(0.5, 4)); if (g.chance(0.5)) x = -x; } return v; }
template <class T> void history(Rng& g) {
    T r = someRate<T>(g);
    smart_dnn::DropoutLayer<T> L(r);
    bool training = true, fresh = false;
    Dims d; std::vector<T> x; std::vector<char> keep;
    std::string hist = cat("dropout ", tname<T>(), " rate ", double(r));
    int n = g.chance(0.006) ? g.range(100, 300) : g.range(2, 14);
    if (n > 14) R.event("long-histories");
    for (int k = 0; k < n; ++k) {
        R.desc = hist;
        int o = g.range(0, 5);
        if (o == 0) { training = !training; L.setTrainingMode(training); fresh = false; hist += training ? " train" : " eval"; continue; }
        if (o <= 3 || !fresh) {
            d = n > 14 ? randDims(g, 1, 4, 7, 60) : anyDims(g, 1, 4, 7, 500);
            if (prod(d) > 500) R.event("beyond-500-elements");
            x = nonzero<T>(g, prod(d));
            Ten<T> X = mk<T>(d, x);
            Snap<T> s(X);
            hist += " forward" + show(d);
            Ten<T> y = L.forward(X);
            s.check("dropout:input-changed");
            if (dimsOf(y) != d) { R.fail("dropout:shape", show(dimsOf(y))); return; }
            if (training) { if (!factors("dropout:factor", x, y, r, keep)) return; if (r == T(0)) { R.event("rate-0"); sameExact("dropout:rate-0", y, d, x); } R.event("training-forward"); }
            else { sameExact("dropout:eval-forward", y, d, x); R.event("eval-forward"); }
            fresh = true;
        } else {
            auto u = nonzero<T>(g, x.size());
            Ten<T> U = mk<T>(d, u);
            Snap<T> s(U);
            hist += " backward";
            Ten<T> b = L.backward(U);
            s.check("dropout:gradient-changed");
            if (dimsOf(b) != d) { R.fail("dropout:gradient-shape", show(dimsOf(b))); return; }
            if (training) {
                std::vector<char> k2;
                if (!factors("dropout:gradient-factor", u, b, r, k2)) return;
                R.event("training-backward");
                if (k2 != keep) { R.fail("dropout:gradient-mask", "backward dropped other elements than the latest forward pass"); return; }
            } else { sameExact("dropout:eval-backward", b, d, u); R.event("eval-backward"); }
        }
        R.nontrivial(hashS(hist));
    }
    R.sample("history", hist);
}
template <class T> void statistics(Rng& g) {
    T r = someRate<T>(g); if (r == T(0)) r = T(0.3);
    smart_dnn::DropoutLayer<T> L(r);
    double p = double(r);
    RandomEngine::setSeed(unsigned(g.next()));
    Dims d = g.chance(0.3) ? Dims{g.one({1, 2, 3, 5, 8, 16})} : g.chance(0.4) ? Dims{g.range(1, 40), g.range(1, 60)} : g.chance(0.5) ? Dims{2, g.range(1, 4), g.range(1, 30), g.range(1, 30)} : Dims{g.range(2000, 24000)};
    size_t n = prod(d), reps = std::max<size_t>(2, 24000 / n);
    R.desc = cat("dropout statistics ", tname<T>(), show(d), " rate ", p, ", ", reps, " passes");
    std::vector<T> x = nonzero<T>(g, n);
    Ten<T> X = mk<T>(d, x);
    std::vector<char> keep, last;
    std::vector<double> dropsAt(n, 0);
    double drops = 0, adj = 0, nAdj = 0, rep = 0, nRep = 0, half = 0, nHalf = 0;
    std::vector<size_t> lags; // distances at which a mask might repeat itself
    for (size_t l = 16; l < n; l *= 2) lags.push_back(l);
    for (size_t l = 10; l < n; l *= 10) lags.push_back(l);
    if (n > 100) for (int i = 0; i < 3; ++i) lags.push_back(g.range(2, int(n) - 1));
    if (d.size() > 1) { lags.push_back(d.back()); size_t s = n / d[0]; if (s && s < n) lags.push_back(s); }
    std::vector<double> lagHits(lags.size(), 0), lagPairs(lags.size(), 0);
    for (size_t k = 0; k < reps; ++k) {
        Ten<T> y = L.forward(X);
        if (!factors("dropout:factor", x, y, r, keep)) return;
        for (size_t i = 0; i < n; ++i) {
            if (!keep[i]) { ++drops; ++dropsAt[i]; }
            if (i) { nAdj += 1; adj += !keep[i] && !keep[i - 1]; }
            if (k) { nRep += 1; rep += !keep[i] && !last[i]; }
            if (n > 8 && i >= n / 2) { nHalf += 1; half += !keep[i] && !keep[i - n / 2]; }
        }
        for (size_t l = 0; l < lags.size(); ++l) for (size_t i = lags[l]; i < n; ++i) { lagPairs[l] += 1; lagHits[l] += !keep[i] && !keep[i - lags[l]]; }
        last = keep;
    }
    rate("dropout:rate", drops, double(n) * reps, p);
    // joint drops happen at rate p^2: adjacent elements, same element in successive passes, elements half a tensor apart.
    // The pairs overlap, which the widened bound allows for.
    auto joint = [&](const char* key, double hits, double m) { if (m < 2000) return; R.eval(); R.event("independence"); double q = p * p, sd = std::sqrt(m * q * (1 - q) * (1 + 2 * p)) ; if (std::fabs(hits - m * q) > 7 * sd * 1.5 + 3) R.fail(key, cat(hits, " joint drops of ", m, " where ", m * q, " are expected")); };
    joint("dropout:adjacent", adj, nAdj); joint("dropout:repeated", rep, nRep); joint("dropout:halves", half, nHalf);
    for (size_t l = 0; l < lags.size(); ++l) { joint("dropout:lag", lagHits[l], lagPairs[l]); R.event("lags"); }
    if (reps >= 400) for (size_t i = 0; i < n; ++i) rate("dropout:position-rate", dropsAt[i], reps, p);
    R.event(n <= 16 ? "small-tensors" : "large-tensors");
    R.nontrivial(hashS(R.desc));
    R.sample(n <= 16 ? "small" : "large", cat(R.desc, ": ", drops, " dropped of ", double(n) * reps));
}
// Rates close to none or all: as many elements as it takes to expect two hundred of the rare outcome
template <class T> void rareOutcomes(Rng& g) {
    bool few = g.chance(0.7); double q = std::pow(10.0, g.uni(few ? -4 : -3, -2)); T r = few ? T(q) : T(1 - q); double p = double(r), rare = few ? p : 1 - p;
    smart_dnn::DropoutLayer<T> L(r); RandomEngine::setSeed(unsigned(g.next()));
    Dims d{g.range(20000, 60000)}; size_t n = prod(d), reps = size_t(200 / rare / n) + 1; double drops = 0;
    R.desc = cat("dropout statistics ", tname<T>(), show(d), " rate ", p, ", ", reps, " passes");
    std::vector<T> x = nonzero<T>(g, n); Ten<T> X = mk<T>(d, x); std::vector<char> keep;
    for (size_t k = 0; k < reps; ++k) { if (!factors("dropout:factor", x, L.forward(X), r, keep)) return; for (char c : keep) drops += !c; }
    rate("dropout:rare-outcomes", drops, double(n) * reps, p); R.event("rare-outcomes");
    R.nontrivial(hashS(R.desc)); R.sample("rare", cat(R.desc, ": ", drops, " dropped of ", double(n) * reps));
}
int main(int c, char** v) { return mainLoop(c, v, [](Rng& g, u64) { if (g.chance(0.004)) { g.chance(0.5) ? rareOutcomes<float>(g) : rareOutcomes<double>(g); return; } if (g.chance(0.75)) { RandomEngine::setSeed(unsigned(g.next())); g.chance(0.5) ? history<float>(g) : history<double>(g); } else g.chance(0.5) ? statistics<float>(g) : statistics<double>(g); }); }
