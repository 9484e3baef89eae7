// C01: shapes, multi-index addressing, reshape
#include "common.hpp"
using namespace h;
typedef unsigned __int128 u128;

static bool valid(const Dims& d, size_t& size) {
    if (d.empty()) return false;
    u128 p = 1;
    for (int x : d) if (x <= 0) return false;
    for (int x : d) { p *= u128(x); if (p > u128(SIZE_MAX)) return false; }
    size = size_t(p);
    return true;
}
static void checkShape(const std::string& key, const Shape& s, const Dims& d) {
    R.eval();
    size_t n = 0; valid(d, n);
    if (s.rank() != d.size()) R.fail(key + ":rank", cat("rank ", s.rank(), " for ", show(d)));
    if (s.size() != n) R.fail(key + ":size", cat("size ", s.size(), " for ", show(d)));
    if (s.getDimensions() != d) R.fail(key + ":dimensions", cat(show(s.getDimensions()), " for ", show(d)));
    if (s.getStride() != strides(d)) R.fail(key + ":strides", cat("wrong strides for ", show(d)));
    if (s.rank() == d.size()) for (size_t i = 0; i < d.size(); ++i) if (s[i] != d[i]) R.fail(key + ":index", cat("[", i, "] of ", show(d), " is ", s[i]));
    if (Dims(s.begin(), s.end()) != d) R.fail(key + ":iteration", show(d));
}
// dimensions whose product is congruent to n modulo 2^64 but larger
static Dims congruent(Rng& g, size_t n) {
    static std::vector<int> primes;
    if (primes.empty()) { std::vector<char> c(30000); for (int i = 2; i < 30000; ++i) if (!c[i]) { primes.push_back(i); for (int j = 2 * i; j < 30000; j += i) c[j] = 1; } }
    for (int t = 0; t < 30; ++t) {
        u128 v = (u128(g.range(1, 4000)) << 64) + n;
        Dims d;
        for (int p : primes) while (v % p == 0) { d.push_back(p); v /= p; }
        if (v > u128(INT_MAX)) continue;
        if (v > 1) d.push_back(int(v));
        g.shuffle(d);
        for (size_t i = 0; i + 1 < d.size();) { // merge some factors
            if (g.chance(0.6) && (long long)d[i] * d[i + 1] <= INT_MAX) { d[i] *= d[i + 1]; d.erase(d.begin() + i + 1); } else ++i;
        }
        return d;
    }
    return {65536, 65536, 65536, 65536};
}
static Dims wildDims(Rng& g) {
    int r = g.range(0, 6);
    if (g.chance(0.05)) r = g.range(7, 30);
    Dims d(r);
    int style = g.range(0, 5);
    for (int& x : d) {
        if (style == 0) x = g.range(-2, 5);
        else if (style == 1) x = g.range(1, 7);
        else if (style == 2) x = g.one({1, 2, 65536, 46341, INT_MAX, 1 << 16, 1 << 30, 3});
        else if (style == 3) x = g.one({INT_MIN, -1, 0, 1, INT_MAX, -65536, 2});
        else if (style == 4) x = 1 << g.range(0, 30);
        else x = g.range(1, INT_MAX);
    }
    if (style == 1 && r && g.chance(0.5)) d[g.range(0, r - 1)] = g.one({0, -1, -3});
    if (style == 5 && g.chance(0.4)) d = congruent(g, g.range(0, 40));
    return d;
}
static void shapes(Rng& g) {
    Dims d = wildDims(g), e = g.chance(0.3) ? d : randDims(g, 1, 4, 5);
    R.desc = "Shape" + show(d);
    size_t n = 0;
    bool ok = valid(d, n);
    R.nontrivial(hashS(show(d)));
    R.event(ok ? "shapes-accepted" : "shapes-to-reject");
    if (!ok) {
        if (!d.empty() && std::all_of(d.begin(), d.end(), [](int x) { return x > 0; })) R.event("overflowing-shapes");
        mustThrow("shape-invalid-accepted", show(d), [&] { Shape s(d); });
        if (d.size() == 1) mustThrow("shape-invalid-accepted", show(d), [&] { Shape s{d[0]}; });
        if (d.size() == 2) mustThrow("shape-invalid-accepted", show(d), [&] { Shape s({d[0], d[1]}); });
        if (d.size() == 3) mustThrow("shape-invalid-accepted", show(d), [&] { Shape s({d[0], d[1], d[2]}); });
        if (d.size() == 4) mustThrow("shape-invalid-accepted", show(d), [&] { Shape s({d[0], d[1], d[2], d[3]}); });
        if (d.empty()) mustThrow("shape-invalid-accepted", show(d), [&] { Shape s(std::initializer_list<int>{}); });
        return;
    }
    Shape s(d);
    checkShape("shape", s, d);
    if (d.size() == 1) checkShape("shape-list", Shape({d[0]}), d);
    if (d.size() == 2) checkShape("shape-list", Shape({d[0], d[1]}), d);
    if (d.size() == 3) checkShape("shape-list", Shape({d[0], d[1], d[2]}), d);
    if (d.size() == 4) checkShape("shape-list", Shape({d[0], d[1], d[2], d[3]}), d);
    Shape t(e);
    R.eval();
    if ((s == t) != (d == e) || (s != t) != (d != e)) R.fail("shape-equality", cat(show(d), " and ", show(e)));
    Shape c(s); checkShape("shape-copy", c, d);
    c = t; checkShape("shape-assign", c, e);
    Shape m(std::move(c)); checkShape("shape-move", m, e);
    t = std::move(m); checkShape("shape-move-assign", t, e);
    checkShape("shape", s, d);
    { Dims both = e; both.insert(both.end(), d.begin(), d.end()); size_t m; if (valid(both, m)) checkShape("concat", smart_dnn::ShapeOperations::concat(Shape(e), s), both); else mustThrow("concat-overflow-accepted", show(both), [&] { smart_dnn::ShapeOperations::concat(Shape(e), s); }); R.event("concatenations"); }
}
template <class T> void addressing(Rng& g) {
    Dims d = anyDims(g, 1, 6, 6, 700, 0.001); if (d.size() > 6) R.event("beyond-rank-6"); if (prod(d) > 1000) R.event("beyond-1000-elements");
    size_t n = prod(d);
    R.desc = cat("at on ", tname<T>(), show(d));
    R.event("tensors-addressed");
    std::vector<T> v = distinctVec<T>(n);
    Ten<T> t = mk<T>(d, v);
    const Ten<T>& ct = t;
    Dims i(d.size(), 0);
    size_t f = 0;
    do { // all tuples in row-major order
        R.eval();
        if (ct.at(i) != v[f] || t.at(i) != v[f]) { R.fail("at-read", cat("at", show(i), " of ", show(d), " is ", double(ct.at(i)), ", not element ", f)); return; }
        t.at(i) = T(-int(f) - 1);
        if (!(t[f] == T(-int(f) - 1) && ct[f] == t[f])) { R.fail("at-write", cat("write at", show(i), " of ", show(d), " did not reach element ", f)); return; }
        ++f;
    } while (next(i, d));
    R.event("tuples", f);
    std::vector<T> w(n);
    for (size_t k = 0; k < n; ++k) w[k] = T(-int(k) - 1);
    sameExact("at-write-all", t, d, w);
    Snap<T> snap(t);
    for (int k = 0; k < 25; ++k) { // invalid tuples
        Dims j(d.size());
        for (size_t a = 0; a < d.size(); ++a) j[a] = g.range(0, d[a] - 1);
        std::string kind;
        int r = g.range(0, 3);
        if (r == 0) { kind = "length"; if (g.chance(0.5) || j.size() == 1) j.push_back(g.one({0, 1, -1})); else if (g.chance(0.5)) j.pop_back(); else j.erase(j.begin()); if (g.chance(0.1)) j.clear(); }
        else if (r == 1) { kind = "high"; int a = g.range(0, d.size() - 1); j[a] = g.chance(0.6) ? d[a] : g.one({d[a] + 1, INT_MAX, d[a] * 2, 1 << 30}); }
        else if (r == 2) { kind = "low"; int a = g.range(0, d.size() - 1); j[a] = g.one({-1, -1, -2, INT_MIN, -d[a]}); }
        else { // out of range in one component, while the flat position stays inside the tensor
            kind = "high"; int a = g.range(0, d.size() - 1); j[a] = d[a] + g.range(0, 2); if (a > 0) j[a - 1] = 0; if (a > 0 && g.chance(0.5)) { j[a - 1] = -1; }
        }
        mustThrow("at-accepts-" + kind, cat("at", show(j), " on ", show(d)), [&] { (void)ct.at(j); });
        mustThrow("at-accepts-" + kind, cat("at", show(j), " on ", show(d)), [&] { (void)t.at(j); });
    }
    snap.check("at-changed");
    R.nontrivial(hashV(d, v));
    R.sample("addressing", cat(show(d), ": ", n, " tuples mapped to elements 0..", n - 1));
}
static Dims refactor(Rng& g, size_t n) { // dimensions with product n
    Dims d;
    for (int p = 2; n > 1; ++p) { if (size_t(p) * p > n) p = int(n); while (n % p == 0) { d.push_back(p); n /= p; } }
    g.shuffle(d);
    for (size_t i = 0; i + 1 < d.size();) if (g.chance(0.6)) { d[i] *= d[i + 1]; d.erase(d.begin() + i + 1); } else ++i;
    while (d.empty() || g.chance(0.3)) d.insert(d.begin() + g.range(0, d.size()), 1);
    return d;
}
template <class T> void reshapes(Rng& g) {
    Dims d = randDims(g, 1, 5, 6, 500);
    size_t n = prod(d);
    std::vector<T> v = distinctVec<T>(n);
    Ten<T> t = mk<T>(d, v);
    Shape s(d);
    std::string hist = show(d);
    for (int k = 0; k < 12; ++k) {
        Dims e;
        int r = g.range(0, 6);
        if (r <= 2) e = refactor(g, n);
        else if (r == 3) { e = refactor(g, n); e[g.range(0, e.size() - 1)] += g.one({1, -1}); }
        else if (r == 4) { e = refactor(g, n); if (e.size() > 1) { e[0] = -e[0]; e[1] = -e[1]; } else e = {-e[0], -1}; if (g.chance(0.3)) e.push_back(0); }
        else if (r == 5) e = congruent(g, n);
        else e = g.chance(0.3) ? Dims{} : wildDims(g);
        size_t m = 0;
        bool ok = valid(e, m) && m == n;
        hist += (ok ? ">" : "!") + show(e);
        R.desc = "reshapes " + hist;
        int form = g.range(0, 2);
        auto call = [&](auto& x) {
            if (form == 0 || e.size() > 3 || e.empty()) x.reshape(e);
            else if (form == 1) x.reshape(Shape(e));
            else if (e.size() == 1) x.reshape({e[0]});
            else if (e.size() == 2) x.reshape({e[0], e[1]});
            else x.reshape({e[0], e[1], e[2]});
        };
        auto callS = [&] { if (form == 1) s.reshape(Shape(e)); else s.reshape(e); };
        R.eval();
        if (ok) { R.event("reshapes-accepted"); call(t); callS(); d = e; }
        else {
            R.event("reshapes-rejected");
            if (!throws([&] { call(t); })) { R.fail("reshape-accepted", cat("reshape of ", n, " elements to ", show(e), " was accepted")); return; }
            if (!throws(callS)) { R.fail("shape-reshape-accepted", cat("reshape of ", n, " elements to ", show(e), " was accepted")); return; }
        }
        checkShape("reshaped", t.getShape(), d);
        checkShape("reshaped-shape", s, d);
        if (!sameExact("reshape", t, d, v)) return;
        Dims i(d.size());
        for (size_t a = 0; a < d.size(); ++a) i[a] = g.range(0, d[a] - 1);
        if (t.at(i) != v[ravel(i, d)]) R.fail("reshape-at", cat("at", show(i), " after reshape to ", show(d)));
        auto q = smart_dnn::AdvancedTensorOperations<T>::reshape;
        if (ok) { Ten<T> o = mk<T>(d, v); Ten<T> u = q(o, Shape(refactor(g, n))); R.eval(); if (vals(u) != v) R.fail("reshape-copy", "elements changed"); sameExact("reshape-copy-operand", o, d, v); }
    }
    R.nontrivial(hashS(hist));
    R.sample("reshapes", hist);
}
int main(int c, char** v) {
    return mainLoop(c, v, [](Rng& g, u64) {
        switch (g.range(0, 5)) {
        case 0: case 1: for (int i = 0; i < 12; ++i) shapes(g); break;
        case 2: addressing<float>(g); break;
        case 3: g.chance(0.5) ? addressing<double>(g) : addressing<int>(g); break;
        case 4: reshapes<float>(g); break;
        case 5: g.chance(0.5) ? reshapes<double>(g) : reshapes<int>(g); break;
        }
    });
}
