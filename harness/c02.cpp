// C02: element-wise arithmetic and broadcasting
#include "common.hpp"
using namespace h;
using AO_f = smart_dnn::AdvancedTensorOperations<float>;

template <class T> T special(Rng& g) {
    if constexpr (std::is_integral<T>::value) return T(g.range(-9, 9));
    else return g.one({T(0), T(-0.0), std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(), std::numeric_limits<T>::quiet_NaN(), std::numeric_limits<T>::max(), std::numeric_limits<T>::min(), T(1), T(-1)});
}
template <class T> std::vector<T> values(Rng& g, size_t n) {
    std::vector<T> v = randVec<T>(g, n, randKind(g));
    if (g.chance(0.3)) for (T& x : v) if (g.chance(0.2)) x = special<T>(g);
    return v;
}
template <class T> ld op(int o, T a, T b) { // in T: IEEE semantics of infinities; the tolerance covers other evaluation orders
    if constexpr (std::is_integral<T>::value) { switch (o) { case 0: return a + b; case 1: return a - b; case 2: return a * b; default: return a / b; } }
    else switch (o) { case 0: return T(a + b); case 1: return T(a - b); case 2: return T(a * b); default: return T(a / b); }
}
template <class T> ld tolOf(ld want) { return std::is_integral<T>::value ? 0 : (std::isfinite(want) ? 4 * EPS<T> * fabsl(want) + 8 * ld(std::numeric_limits<T>::denorm_min()) : 0); }
static const char* names[] = {"add", "sub", "mul", "div"};

// two random shapes; mostly broadcastable
static void shapePair(Rng& g, Dims& a, Dims& b) {
    a = anyDims(g, 1, 5, 6, 600, 0.003);
    b = a;
    int r = g.range(0, 9);
    if (r == 0) return;
    if (r == 1) { b = randDims(g, 1, 5, 6, 600); return; }
    for (int& x : a) if (g.chance(0.25)) x = 1;
    for (int& x : b) if (g.chance(0.25)) x = 1;
    if (g.chance(0.5)) { Dims& t = g.chance(0.5) ? a : b; t.erase(t.begin(), t.begin() + g.range(0, int(t.size()) - 1)); }
    if (r == 2) { Dims& t = g.chance(0.5) ? a : b; t[g.range(0, t.size() - 1)] += g.range(1, 2); }
}
template <class T> void binary(Rng& g) {
    Dims da, db, dr;
    do shapePair(g, da, db); while (!broadcast(da, db, dr) && prod(da) * prod(db) > 300000);
    bool ok = broadcast(da, db, dr);
    if (ok && prod(dr) > 150000) return;
    if (prod(dr) > 1000) R.event("beyond-1000-elements");
    if (prod(dr) > 65536) R.event("beyond-65536-elements");
    auto va = values<T>(g, prod(da)), vb = values<T>(g, prod(db));
    int o = g.range(0, 3);
    if (std::is_integral<T>::value && o == 3) for (T& x : vb) if (x == T(0)) x = T(3);
    R.desc = cat(names[o], " ", tname<T>(), show(da), " ", show(db), " a=", showv(va, 6), " b=", showv(vb, 6));
    Ten<T> a = mk<T>(da, va), b = mk<T>(db, vb);
    Snap<T> sa(a), sb(b);
    R.eval(); if (smart_dnn::ShapeOperations::areBroadcastable(a.getShape(), b.getShape()) != ok) R.fail("areBroadcastable", cat(show(da), " and ", show(db)));
    if (!ok) mustThrow("broadcastShapes:incompatible", cat(show(da), " and ", show(db)), [&] { smart_dnn::ShapeOperations::broadcastShapes(a.getShape(), b.getShape()); });
    else if (smart_dnn::ShapeOperations::broadcastShapes(a.getShape(), b.getShape()).getDimensions() != dr) R.fail("broadcastShapes", cat(show(da), " and ", show(db)));
    if (dr.size() > 6) R.event("beyond-rank-6");
    std::string k = names[o];
    auto eval = [&] { return o == 0 ? a + b : o == 1 ? a - b : o == 2 ? a * b : a / b; };
    auto inPlace = [&](Ten<T>& x, const Ten<T>& y) { return o == 0 ? &(x += y) : o == 1 ? &(x -= y) : o == 2 ? &(x *= y) : &(x /= y); };
    if (!ok) {
        R.event("incompatible-pairs");
        mustThrow(k + ":incompatible", cat(show(da), " with ", show(db)), [&] { eval(); });
        Ten<T> c = mk<T>(da, va);
        mustThrow(k + "=:incompatible", cat(show(da), " with ", show(db)), [&] { inPlace(c, b); });
        sameExact(k + "=:changed-by-throw", c, da, va);
        sa.check(k + ":lhs-changed"); sb.check(k + ":rhs-changed");
        R.nontrivial(hashS(R.desc));
        return;
    }
    std::vector<ld> want(prod(dr)), tol(prod(dr));
    Dims i(dr.size(), 0);
    size_t f = 0;
    do { want[f] = op<T>(o, va[bindex(i, da)], vb[bindex(i, db)]); tol[f] = tolOf<T>(want[f]); ++f; } while (next(i, dr));
    R.event(da == db ? "same-shape" : da.size() != db.size() ? "broadcast-ranks" : "broadcast-ones");
    R.event(std::string("op-") + k);
    same(k, eval(), dr, want, tol);
    sa.check(k + ":lhs-changed"); sb.check(k + ":rhs-changed");
    Ten<T> c = mk<T>(da, va);
    if (dr == da) {
        R.event("in-place-fits");
        if (inPlace(c, b) != &c) R.fail(k + "=:return", "does not return its left operand");
        same(k + "=", c, da, want, tol);
        sb.check(k + "=:rhs-changed");
    } else if (prod(dr) != prod(da)) {
        R.event("in-place-does-not-fit");
        mustThrow(k + "=:does-not-fit", cat(show(da), " with ", show(db)), [&] { inPlace(c, b); });
        sameExact(k + "=:changed-by-throw", c, da, va);
    } else { // as many elements in more dimensions: refused or computed, nothing else
        R.event("in-place-more-dimensions");
        try { inPlace(c, b); } catch (const std::exception&) { sameExact(k + "=:changed-by-throw", c, da, va); c = Ten<T>(Shape(da)); }
        if (dimsOf(c) != da) R.fail(k + "=:shape-changed", show(dimsOf(c)));
        sb.check(k + "=:rhs-changed");
    }
    if (g.chance(0.25)) { // aliased operands
        R.event("aliased");
        std::vector<ld> w(va.size()), t(va.size());
        bool bad = false;
        for (size_t j = 0; j < va.size(); ++j) { if (std::is_integral<T>::value && o == 3 && va[j] == T(0)) { bad = true; break; } w[j] = op<T>(o, va[j], va[j]); t[j] = tolOf<T>(w[j]); }
        if (!bad) {
            same(k + ":aliased", o == 0 ? a + a : o == 1 ? a - a : o == 2 ? a * a : a / a, da, w, t);
            sa.check(k + ":aliased-changed");
            Ten<T> e = mk<T>(da, va);
            inPlace(e, e);
            same(k + "=:aliased", e, da, w, t);
        }
    }
    R.nontrivial(hashV(da, va, hashV(db, vb, o)));
    R.sample(k + (da == db ? "" : "-broadcast"), cat(tname<T>(), show(da), " with ", show(db), " -> ", show(dr), ", first elements ", double(va[0]), " ", double(vb[0]), " -> ", double(want[0])));
}
template <class T> void scalar(Rng& g) {
    Dims d = anyDims(g, 1, 5, 6, 600);
    auto v = values<T>(g, prod(d));
    T s = g.chance(0.15) ? special<T>(g) : randVal<T>(g, randKind(g));
    int o = g.range(0, 3);
    bool intT = std::is_integral<T>::value;
    if (o == 3 && s == T(0) && intT && g.chance(0.5)) s = T(2);
    Ten<T> a = mk<T>(d, v);
    Snap<T> sa(a);
    std::string k = names[o];
    R.desc = cat("scalar ", k, " ", tname<T>(), show(d), " s=", double(s), " v=", showv(v, 6));
    R.event("scalar-" + k);
    auto right = [&] { return o == 0 ? a + s : o == 1 ? a - s : o == 2 ? a * s : a / s; };
    auto inPlace = [&](Ten<T>& x) { return o == 0 ? &(x += s) : o == 1 ? &(x -= s) : o == 2 ? &(x *= s) : &(x /= s); };
    Ten<T> c = mk<T>(d, v);
    if (o == 3 && s == T(0)) {
        R.event("division-by-scalar-zero");
        mustThrow("div-scalar-zero", show(d), [&] { right(); });
        mustThrow("div=-scalar-zero", show(d), [&] { inPlace(c); });
        sameExact("div=-scalar-zero-changed", c, d, v);
    } else {
        std::vector<ld> w(v.size()), t(v.size());
        for (size_t i = 0; i < v.size(); ++i) { w[i] = op<T>(o, v[i], s); t[i] = tolOf<T>(w[i]); if (o == 3 && std::isfinite(w[i])) t[i] *= 2; }
        same("scalar-" + k, right(), d, w, t);
        if (inPlace(c) != &c) R.fail("scalar-" + k + "=:return", "does not return its left operand");
        same("scalar-" + k + "=", c, d, w, t);
    }
    sa.check("scalar-" + k + ":changed");
    // scalar on the left
    if (o == 3 && intT) for (T& x : v) if (x == T(0)) x = T(5);
    Ten<T> b = mk<T>(d, v);
    Snap<T> sb(b);
    std::vector<ld> w(v.size()), t(v.size());
    for (size_t i = 0; i < v.size(); ++i) { w[i] = op<T>(o, s, v[i]); t[i] = tolOf<T>(w[i]); }
    R.event("left-scalar");
    same("left-scalar-" + k, o == 0 ? s + b : o == 1 ? s - b : o == 2 ? s * b : s / b, d, w, t);
    sb.check("left-scalar-" + k + ":changed");
    R.nontrivial(hashV(d, v, hashS(cat(double(s), o))));
    R.sample("scalar-" + k, cat(tname<T>(), show(d), " with ", double(s), ": first element ", double(v[0])));
}
template <class T> void unary(Rng& g) {
    using AO = smart_dnn::AdvancedTensorOperations<T>;
    Dims d = anyDims(g, 1, 5, 6, 600);
    auto v = values<T>(g, prod(d));
    Ten<T> a = mk<T>(d, v);
    Snap<T> sa(a);
    size_t n = v.size();
    R.desc = cat("unary ", tname<T>(), show(d), " ", showv(v, 8));
    std::vector<ld> w(n), t(n, 0);
    for (size_t i = 0; i < n; ++i) w[i] = -ld(v[i]);
    same("negate", -a, d, w, t);
    R.event("negate");
    if constexpr (!std::is_integral<T>::value) {
        for (size_t i = 0; i < n; ++i) { w[i] = std::sqrt(v[i]); t[i] = tolOf<T>(w[i]); }
        same("sqrt", a.sqrt(), d, w, t);
        sa.check("sqrt:changed");
        R.event("sqrt");
        T floor = g.chance(0.4) ? T(1e-12) : T(std::pow(10.0, g.uni(-10, 0)));
        std::vector<T> u;
        for (T x : v) { if (std::isnan(x)) x = T(1); if (g.chance(0.2)) x = T(g.uni(-2, 2)) * floor; if (g.chance(0.05)) x = g.one({floor, -floor, T(0), T(-0.0)}); u.push_back(x); }
        Ten<T> b = mk<T>(d, u);
        for (size_t i = 0; i < n; ++i) { w[i] = std::abs(u[i]) > floor ? 1.0L / ld(u[i]) : 1.0L / ld(floor); if (fabsl(w[i]) > std::numeric_limits<T>::max()) w[i] = T(1) / u[i]; t[i] = tolOf<T>(w[i]); }
        R.event("reciprocal");
        same("reciprocal", AO::reciprocal(b, floor), d, w, t);
        if (floor == T(1e-12)) same("reciprocal-default", AO::reciprocal(b), d, w, t);
        sameExact("reciprocal:changed", b, d, u);
    }
    // user functions: every element exactly once
    std::multiset<double> seen;
    long calls = 0;
    auto fn = [&](T x) { ++calls; if (x == x) seen.insert(double(x)); return std::is_integral<T>::value ? T(x * 3 + 1) : T(std::cos(double(x)) + 2 * double(x)); };
    for (size_t i = 0; i < n; ++i) { w[i] = std::is_integral<T>::value ? T(v[i] * 3 + 1) : T(std::cos(double(v[i])) + 2 * double(v[i])); t[i] = 0; }
    std::multiset<double> all;
    for (T x : v) if (x == x) all.insert(double(x));
    R.event("apply");
    same("apply", AO::apply(a, fn), d, w, t);
    R.eval();
    if (calls != long(n) || seen != all) R.fail("apply:calls", cat(calls, " calls for ", n, " elements"));
    sa.check("apply:changed");
    calls = 0; seen.clear();
    Ten<T> c = mk<T>(d, v);
    if (&c.apply(fn) != &c) R.fail("apply-in-place:return", "does not return itself");
    same("apply-in-place", c, d, w, t);
    R.eval();
    if (calls != long(n) || seen != all) R.fail("apply-in-place:calls", cat(calls, " calls for ", n, " elements"));
    auto v2 = values<T>(g, n);
    Ten<T> b = mk<T>(d, v2);
    auto fn2 = [](T x, T y) { return std::is_integral<T>::value ? T(x * 7 - y) : T(double(x) * 0.5 - double(y)); };
    for (size_t i = 0; i < n; ++i) w[i] = fn2(v[i], v2[i]);
    R.event("applyPair");
    same("applyPair", AO::applyPair(a, b, fn2), d, w, t);
    sa.check("applyPair:changed");
    Dims e = randDims(g, 1, 5, 6, 600);
    if (e != d) { Ten<T> x(Shape(e), T(1)); mustThrow("applyPair:mismatch", cat(show(d), " with ", show(e)), [&] { AO::applyPair(a, x, fn2); }); }
    R.nontrivial(hashV(d, v));
    R.sample("unary", R.desc);
}
template <class T> void one(Rng& g) {
    int r = g.range(0, 9);
    if (r < 5) for (int i = 0; i < 3; ++i) binary<T>(g);
    else if (r < 8) scalar<T>(g);
    else unary<T>(g);
}
int main(int c, char** v) {
    return mainLoop(c, v, [](Rng& g, u64) {
        switch (g.range(0, 4)) { case 0: case 1: one<float>(g); break; case 2: case 3: one<double>(g); break; default: one<int>(g); }
    });
}
