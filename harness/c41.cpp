// C41: tensor operations in every arithmetic element type
#include "model.hpp"
#include "smart_dnn/Tensor/SliceView.hpp"
using namespace h;
using namespace smart_dnn;
typedef __int128 wide;
template <class T> const char* type() {
    if (std::is_same<T, signed char>::value) return "signed char"; if (std::is_same<T, unsigned char>::value) return "unsigned char"; if (std::is_same<T, char>::value) return "char";
    if (std::is_same<T, short>::value) return "short"; if (std::is_same<T, unsigned short>::value) return "unsigned short"; if (std::is_same<T, int>::value) return "int"; if (std::is_same<T, unsigned>::value) return "unsigned";
    if (std::is_same<T, long>::value) return "long"; if (std::is_same<T, long long>::value) return "long long"; if (std::is_same<T, unsigned long long>::value) return "unsigned long long"; if (std::is_same<T, long double>::value) return "long double";
    return std::is_same<T, float>::value ? "float" : "double";
}
// exact arithmetic of integers, converted as the language does; long double otherwise
template <class T> using Acc = typename std::conditional<std::is_integral<T>::value, wide, long double>::type;
template <class T> constexpr bool INT = std::is_integral<T>::value;
// types whose arithmetic cannot overflow (it is done in int and converted, or it wraps)
template <class T> constexpr bool FREE = INT<T> && (sizeof(T) < 4 || !std::is_signed<T>::value);
template <class T> wide times(wide a, wide b) { return std::is_signed<T>::value ? a * b : wide((unsigned __int128)a * (unsigned __int128)b); }
template <class T> T narrow(Acc<T> x) { return T(x); }
template <class T> std::vector<T> values(Rng& g, size_t n, bool small = false) {
    std::vector<T> v(n); int style = small ? 0 : g.range(0, 3);
    for (T& x : v) {
        if constexpr (INT<T>) {
            if (style == 0 || (!FREE<T> && sizeof(T) < 8)) x = T(std::is_signed<T>::value ? g.range(-9, 9) : g.range(0, 9));
            else if constexpr (FREE<T>) { x = T(g.next()); if (std::is_same<T, unsigned short>::value) x = T((unsigned long long)x % 32768); } // all of them (two unsigned shorts are multiplied in int)
            else x = T((long long)(g.next() >> 36) * (g.chance(0.5) ? 1 : -1)); // beyond 32 bits only in results
            if (style == 3 && sizeof(T) == 8 && !small && !FREE<T>) x = T(x) * 3;
        } else { x = T(style == 0 ? ld(g.range(-9, 9)) : style == 1 ? ld(g.uni(-1, 1)) + ld(g.uni(-1, 1)) * 1e-17L : ld(g.normal()) * std::pow(10.0L, ld(g.range(-4, 4)))); }
    }
    return v;
}
template <class T> struct Kept { const Ten<T>& t; Dims d; std::vector<T> v; explicit Kept(const Ten<T>& t) : t(t), d(dimsOf(t)), v(vals(t)) {} void check(const std::string& k) const { sameExact(k, t, d, v); } }; // by value: long double has padding
template <class T> bool closeTo(const std::string& key, const Ten<T>& t, const Dims& d, const std::vector<T>& want, const std::vector<ld>& mag, ld factor) {
    if constexpr (INT<T>) return sameExact(key, t, d, want);
    else { std::vector<ld> w(want.begin(), want.end()), tol(want.size()); for (size_t i = 0; i < tol.size(); ++i) tol[i] = factor * EPS<T> * mag[i] + TINY<T>; return same(key, t, d, w, tol); }
}
template <class T> T opOf(int o, T a, T b) {
    if constexpr (INT<T>) { wide x = a, y = b; return T(o == 0 ? x + y : o == 1 ? x - y : o == 2 ? times<T>(x, y) : x / y); }
    else return o == 0 ? a + b : o == 1 ? a - b : o == 2 ? a * b : a / b;
}
template <class T> void elementwise(Rng& g) {
    Dims da = anyDims(g, 1, 5, 6, 300), db = da, dr;
    for (int& x : da) if (g.chance(0.2)) x = 1;
    for (int& x : db) if (g.chance(0.2)) x = 1;
    if (g.chance(0.4)) { Dims& t = g.chance(0.5) ? da : db; t.erase(t.begin(), t.begin() + g.range(0, int(t.size()) - 1)); }
    broadcast(da, db, dr); if (prod(dr) > 50000) return;
    auto va = values<T>(g, prod(da)), vb = values<T>(g, prod(db)); int o = g.range(0, 3); static const char* names[] = {"add", "sub", "mul", "div"};
    bool zero = o == 3 && INT<T> && g.chance(0.3); // a zero among the divisors
    if (o == 3) for (T& x : vb) if (x == T(0)) x = T(7);
    if (o == 3 && INT<T> && std::is_signed<T>::value) for (T& x : vb) if (x == T(-1)) x = T(3);
    if (zero) vb[g.next() % vb.size()] = T(0);
    R.desc = cat(type<T>(), " ", names[o], " ", show(da), " ", show(db)); std::string k = names[o];
    Ten<T> a = mk(da, va), b = mk(db, vb); Kept<T> sa(a), sb(b);
    auto eval = [&] { return o == 0 ? a + b : o == 1 ? a - b : o == 2 ? a * b : a / b; };
    auto in = [&](Ten<T>& x) { o == 0 ? x += b : o == 1 ? x -= b : o == 2 ? x *= b : x /= b; };
    R.event(std::string("type-") + type<T>());
    if (zero) {
        R.event("integer-division-by-a-zero-element");
        mustThrow("div:zero-element", R.desc, [&] { eval(); });
        if (dr == da) mustThrow("div=:zero-element", R.desc, [&] { in(a); });
        if (g.chance(0.5)) mustThrow("left-scalar-div:zero-element", R.desc, [&] { T(5) / b; });
        sa.check(k + ":lhs"); sb.check(k + ":rhs"); R.nontrivial(hashS(R.desc)); return;
    }
    std::vector<T> w(prod(dr)); std::vector<ld> mag(w.size()); Dims i(dr.size(), 0); size_t f = 0;
    do { w[f] = opOf<T>(o, va[bindex(i, da)], vb[bindex(i, db)]); mag[f] = fabsl(ld(w[f])); ++f; } while (next(i, dr));
    closeTo(k, eval(), dr, w, mag, 4); sa.check(k + ":lhs"); sb.check(k + ":rhs");
    if (dr == da) { Ten<T> c(a); in(c); closeTo(k + "=", c, dr, w, mag, 4); }
    // scalars
    T s = values<T>(g, 1)[0]; if (o == 3 && (s == T(0) || s == T(-1))) s = T(5);
    w.resize(va.size()); mag.resize(va.size()); for (size_t j = 0; j < va.size(); ++j) { w[j] = opOf<T>(o, va[j], s); mag[j] = fabsl(ld(w[j])); }
    closeTo("scalar-" + k, o == 0 ? a + s : o == 1 ? a - s : o == 2 ? a * s : a / s, da, w, mag, 8);
    { Ten<T> c(a); o == 0 ? c += s : o == 1 ? c -= s : o == 2 ? c *= s : c /= s; closeTo("scalar-" + k + "=", c, da, w, mag, 8); }
    w.resize(vb.size()); mag.resize(vb.size()); for (size_t j = 0; j < vb.size(); ++j) { w[j] = opOf<T>(o, s, vb[j] == T(0) && o == 3 ? T(1) : vb[j]); mag[j] = fabsl(ld(w[j])) + (o == 1 ? fabsl(ld(s)) + fabsl(ld(vb[j])) : 0); }
    closeTo("left-scalar-" + k, o == 0 ? s + b : o == 1 ? s - b : o == 2 ? s * b : s / b, db, w, mag, 8);
    for (size_t j = 0; j < vb.size(); ++j) { w[j] = narrow<T>(-Acc<T>(vb[j])); mag[j] = 0; }
    closeTo("negate", -b, db, w, mag, 0);
    for (size_t j = 0; j < vb.size(); ++j) w[j] = T(vb[j] / T(2) + T(1));
    auto fn = [](T x) { return T(x / T(2) + T(1)); };
    closeTo("apply", AdvancedTensorOperations<T>::apply(b, fn), db, w, mag, 0); Ten<T> c(b); c.apply(fn); sameExact("apply-in-place", c, db, w);
    if (va.size() == vb.size() && da == db) { for (size_t j = 0; j < vb.size(); ++j) w[j] = T(va[j] / T(2) + vb[j] / T(4)); sameExact("applyPair", AdvancedTensorOperations<T>::applyPair(a, b, [](T x, T y) { return T(x / T(2) + y / T(4)); }), da, w); }
    sa.check(k + ":lhs"); sb.check(k + ":rhs");
    R.nontrivial(hashV(da, va, hashV(db, vb, o))); R.sample(k, R.desc);
}
template <class T> void reduce(Rng& g) {
    using AO = AdvancedTensorOperations<T>;
    Dims d = anyDims(g, 1, 5, 6, 400); size_t n = prod(d), rank = d.size(); auto v = values<T>(g, n, !FREE<T> || g.chance(0.5)); Ten<T> t = mk(d, v); Kept<T> s(t);
    std::vector<size_t> axes; for (size_t i = 0; i < rank; ++i) axes.push_back(i); g.shuffle(axes); axes.resize(g.range(1, int(rank)));
    R.desc = cat(type<T>(), " reduce ", show(d), " axes ", axes.size(), " from ", axes[0]); R.event(std::string("type-") + type<T>()); R.event("reductions");
    auto sums = [&](const std::vector<size_t>& ax, Dims& keep, Dims& drop, std::vector<Acc<T>>& sum, std::vector<ld>& mag, size_t& cnt) {
        keep = d; drop.clear(); cnt = 1; for (size_t a : ax) { keep[a] = 1; cnt *= d[a]; }
        for (size_t i = 0; i < rank; ++i) if (std::find(ax.begin(), ax.end(), i) == ax.end()) drop.push_back(d[i]);
        if (drop.empty()) drop = {1};
        sum.assign(prod(keep), 0); mag.assign(prod(keep), 0); Dims i(rank, 0); size_t f = 0;
        do { size_t o = bindex(i, keep); sum[o] += v[f]; mag[o] += fabsl(ld(v[f])); ++f; } while (next(i, d));
    };
    Dims keep, drop; std::vector<Acc<T>> sum; std::vector<ld> mag; size_t cnt;
    auto conv = [](const std::vector<Acc<T>>& x) { std::vector<T> r; for (auto& e : x) r.push_back(narrow<T>(e)); return r; };
    std::vector<size_t> every; for (size_t i = 0; i < rank; ++i) every.push_back(i);
    auto means = [&](const std::string& k, const Ten<T>& m, const Dims& dims) { // where the sums and counts are representable
        if constexpr (INT<T>) {
            for (size_t i = 0; i < sum.size(); ++i) if (Acc<T>(T(sum[i])) != sum[i]) return; if (size_t(T(cnt)) != cnt || T(cnt) <= T(0)) return;
            R.event("integer-means"); std::vector<T> w; for (auto& x : sum) w.push_back(T(x / Acc<T>(cnt))); sameExact(k, m, dims, w);
        } else { std::vector<T> w; std::vector<ld> q; for (size_t i = 0; i < sum.size(); ++i) { w.push_back(sum[i] / cnt); q.push_back(mag[i] / cnt); } closeTo(k, m, dims, w, q, cnt + 8); }
    };
    // (a mean over more elements than the type can count is refused or meaningless, and not asked for)
    bool counts = !INT<T> || (size_t(T(n)) == n && T(n) > T(0));
    sums(every, keep, drop, sum, mag, cnt); closeTo("sum", AO::sum(t), Dims{1}, conv(sum), mag, cnt + 4);
    if (counts) means("mean", AO::mean(t), Dims{1});
    sums({axes[0]}, keep, drop, sum, mag, cnt); closeTo("sum-axis", AO::sum(t, axes[0]), drop, conv(sum), mag, cnt + 4);
    sums(axes, keep, drop, sum, mag, cnt); closeTo("sum-axes", AO::sum(t, axes), drop, conv(sum), mag, cnt + 4);
    if (counts) { Ten<T> m = AO::mean(t, axes); if (axes.size() == rank) m.reshape({1}); means("mean-axes", m, axes.size() == rank ? Dims{1} : keep); }
    s.check("operand-changed"); R.nontrivial(hashV(d, v)); R.sample("reduce", R.desc);
}
template <class T> void products(Rng& g) {
    int m = g.range(1, 7), k = g.chance(0.1) ? g.range(60, 200) : g.range(1, 9), n = g.range(1, 7), b = g.range(1, 4), c = g.range(0, 6);
    Dims A[] = {{k}, {k}, {m, k}, {m, k}, {b, m, k}, {m, k}, {b, m, k}}, B[] = {{k}, {k, n}, {k}, {k, n}, {k, n}, {b, k, n}, {b, k, n}}, C[] = {{1}, {n}, {m}, {m, n}, {b, m, n}, {b, m, n}, {b, m, n}};
    Dims da = A[c], db = B[c], dc = C[c]; auto va = values<T>(g, prod(da), !FREE<T>), vb = values<T>(g, prod(db), !FREE<T>);
    R.desc = cat(type<T>(), " matmul ", show(da), " ", show(db)); R.event(std::string("type-") + type<T>()); R.event("products");
    Ten<T> a = mk(da, va), bb = mk(db, vb); Kept<T> sa(a), sb(bb); std::vector<T> w; std::vector<ld> mag;
    int M = da.size() == 1 ? 1 : m, N = db.size() == 1 ? 1 : n, L = da.size() == 3 || db.size() == 3 ? b : 1;
    for (int l = 0; l < L; ++l) for (int i = 0; i < M; ++i) for (int j = 0; j < N; ++j) {
        Acc<T> s = 0; ld q = 0; for (int p = 0; p < k; ++p) { T x = va[(size_t(da.size() == 3 ? l : 0) * M + i) * k + p], y = vb[(size_t(db.size() == 3 ? l : 0) * k + p) * N + j]; if constexpr (INT<T>) s += Acc<T>(T(times<T>(x, y))); else s += x * y; q += fabsl(ld(x) * ld(y)); }
        w.push_back(narrow<T>(s)); mag.push_back(q);
    }
    closeTo("matmul", AdvancedTensorOperations<T>::matmul(a, bb), dc, w, mag, k + 8);
    sa.check("matmul:lhs"); sb.check("matmul:rhs"); R.nontrivial(hashV(da, va, hashV(db, vb))); R.sample("matmul", R.desc);
}
template <class T> void structure(Rng& g) {
    using AO = AdvancedTensorOperations<T>;
    Dims d = anyDims(g, 2, 5, 6, 300); size_t n = prod(d); int r = d.size(); auto v = values<T>(g, n); R.desc = cat(type<T>(), " structure ", show(d)); R.event(std::string("type-") + type<T>()); R.event("structure");
    const Ten<T> t = mk(d, v); Kept<T> s(t);
    { T x = values<T>(g, 1)[0]; sameExact("fill", Ten<T>(Shape(d), x), d, std::vector<T>(n, x)); sameExact("empty", Ten<T>(Shape(d)), d, std::vector<T>(n, T(0))); }
    sameExact("vector", Ten<T>(Shape(d), v), d, v); sameExact("ones", Ten<T>::ones(Shape(d)), d, std::vector<T>(n, T(1))); sameExact("zeros", Ten<T>::zeros(Shape(d)), d, std::vector<T>(n, T(0)));
    { int q = g.range(1, 9); std::vector<T> w(size_t(q) * q, T(0)); for (int i = 0; i < q; ++i) w[size_t(i) * q + i] = T(1); sameExact("identity", Ten<T>::identity(q), Dims{q, q}, w); }
    Ten<T> c(t), e(Shape{1}), f(Shape{2}); e = t; f = Ten<T>(t); R.eval(); if (!(c == t) || !(e == t) || !(f == t) || c != t) R.fail("equality", R.desc);
    c.getData().data()[n - 1] = T(c.getData().data()[n - 1] + T(1)); R.eval(); if (c == t || !(c != t)) R.fail("equality-of-different", R.desc); s.check("copy-shares-storage");
    c.reshape(Shape{int(n)}); R.eval(); if (dimsOf(c) != Dims{int(n)}) R.fail("reshape", R.desc);
    // indexing, transposition, slices, views
    int x = g.range(0, r - 1), y = g.range(0, r - 1), q = g.range(0, d[x] - 1); Dims dt = d; std::swap(dt[x], dt[y]); Dims ds = d; ds.erase(ds.begin() + x);
    std::vector<T> wt(n), ws; Dims i(r, 0); size_t k = 0;
    do { R.eval(); if (!(t.at(i) == v[k])) { R.fail("at", cat(R.desc, show(i))); break; } Dims j = i; std::swap(j[x], j[y]); wt[bindex(j, dt)] = v[k]; if (i[x] == q) ws.push_back(v[k]); ++k; } while (next(i, d));
    sameExact("transpose", AO::transpose(t, x, y), dt, wt); sameExact("slice", t.slice(x, q), ds, ws);
    { std::vector<std::pair<int, int>> sl; std::vector<int> st; for (int z : d) { int b = g.range(0, z - 1); sl.push_back({b, g.range(b + 1, z)}); st.push_back(g.range(1, 3)); }
      SliceView<T> view(t.getData(), sl, st); Dims p(r, 0), dv = view.shape().getDimensions(); R.event("views");
      auto it = view.begin(); do { Dims o = p; for (int z = 0; z < r; ++z) o[z] = sl[z].first + p[z] * st[z]; R.eval(); if (!(view[p] == v[bindex(o, d)]) || it == view.end() || !(*it == view[p])) { R.fail("slice-view", cat(R.desc, show(p))); break; } ++it; } while (next(p, dv)); }
    { Dims db = d; for (int& z : db) if (g.chance(0.4)) z = 1; auto w = values<T>(g, prod(db)); Ten<T> small = mk(db, w); BroadcastView<T, CPUDevice> view(small.getData(), Shape(d)); Dims p(r, 0); auto it = view.begin(); do { R.eval(); if (!(view[p] == w[bindex(p, db)]) || !(*it == view[p])) { R.fail("broadcast-view", cat(R.desc, show(p))); break; } ++it; } while (next(p, d)); }
    { // elements are printed as numbers
      std::string text = t.toDataString(); R.eval(); R.event("texts"); if (INT<T>) { std::string want = "["; for (size_t z = 0; z < n; ++z) want += (z ? ", " : "") + std::to_string(v[z]); if (text != want + "]") R.fail("text", cat(R.desc, ": ", text.substr(0, 200))); }
      std::string more = t.toDetailedString(); if (INT<T>) for (size_t z = 0; z < std::min<size_t>(n, 10); ++z) if (more.find(std::to_string(v[z])) == std::string::npos) { R.fail("detailed-text", more.substr(0, 300)); break; } }
    s.check("operand-changed"); R.nontrivial(hashV(d, v)); R.sample("structure", R.desc);
}
// extended precision is not lost on the way
void extended(Rng& g) {
    typedef long double T; Dims d = {g.range(1, 5), g.range(1, 9)}; size_t n = prod(d); std::vector<T> v(n); for (T& x : v) x = ld(g.uni(-1, 1)) * g.one({0.5L, 3.0L, 20.0L}) + ld(g.uni(-1, 1)) * 1e-17L;
    Ten<T> x = mk(d, v); Kept<T> kx(x); std::vector<T> w(n); std::vector<ld> mag(n, 1); R.event("type-long double"); R.event("extended-precision"); R.desc = cat("long double functions ", show(d));
    auto each = [&](const char* k, const Activation<T>& a, auto f) { for (size_t i = 0; i < n; ++i) { w[i] = f(v[i]); mag[i] = fabsl(w[i]) + fabsl(v[i]); } closeTo(std::string(k), a.forward(x), d, w, mag, 64); };
    auto sg = [](T y) { return y >= 0 ? 1 / (1 + expl(-y)) : expl(y) / (1 + expl(y)); }; auto sp = [](T y) { return (y > 0 ? y : 0) + log1pl(expl(-fabsl(y))); };
    T slope = ld(g.uni(0.001, 0.3));
    each("relu", ReLU<T>(), [](T y) { return y > 0 ? y : 0; }); each("leaky", LeakyReLU<T>(slope), [&](T y) { return y > 0 ? y : slope * y; }); each("sigmoid", Sigmoid<T>(), sg); each("tanh", Tanh<T>(), [](T y) { return tanhl(y); });
    each("swish", Swish<T>(), [&](T y) { return y * sg(y); }); each("mish", Mish<T>(), [&](T y) { return y * tanhl(sp(y)); });
    for (int b = 0; b < d[0]; ++b) { T m = v[size_t(b) * d[1]], q = 0; for (int i = 0; i < d[1]; ++i) m = std::max(m, v[size_t(b) * d[1] + i]); for (int i = 0; i < d[1]; ++i) q += expl(v[size_t(b) * d[1] + i] - m); for (int i = 0; i < d[1]; ++i) { size_t z = size_t(b) * d[1] + i; w[z] = expl(v[z] - m) / q; mag[z] = w[z] * 8 + EPS<T>; } }
    closeTo("softmax", Softmax<T>().forward(x), d, w, mag, 64);
    auto u = v; for (T& z : u) z += ld(g.uni(-1, 1)); Ten<T> y = mk(d, u); T q = 0; for (size_t i = 0; i < n; ++i) { T e = v[i] - u[i]; q += e * e; w[i] = 2 * e / n; mag[i] = fabsl(v[i]) + fabsl(u[i]); }
    closeTo("mse", MSELoss<T>().compute(x, y), Dims{1}, std::vector<T>{q / n}, {fabsl(q / n) + 1e-2L}, 64 + 2 * n); closeTo("mse-gradient", MSELoss<T>().gradient(x, y), d, w, mag, 64);
    // one and two optimizer steps
    auto gr = values<T>(g, n); for (T& z : gr) z = ld(g.uni(-1, 1)) + ld(g.uni(-1, 1)) * 1e-17L; T rate = ld(g.uni(0.001, 0.5)) + 1e-19L;
    auto steps = [&](const char* k, auto opt, auto f) { Ten<T> p(x), gt = mk(d, gr); for (size_t i = 0; i < n; ++i) { w[i] = f(v[i], gr[i]); mag[i] = fabsl(v[i]) + 2; } std::vector<std::reference_wrapper<Ten<T>>> ps{p}, gs{gt}; opt.optimize(ps, gs); opt.optimize(ps, gs); closeTo(std::string(k), p, d, w, mag, 256); };
    SGDOptions<T> so; so.learningRate = rate; so.momentum = T(0.9L); steps("sgd", SGDOptimizer<T>(so), [&](T p, T c) { T b = c; p -= rate * b; b = 0.9L * b + c; return p - rate * b; });
    RMSPropOptions<T> ro; ro.learningRate = rate; ro.alpha = T(0.9L); ro.epsilon = T(1e-3L); steps("rmsprop", RMSPropOptimizer<T>(ro), [&](T p, T c) { T s = 0; for (int i = 0; i < 2; ++i) { s = 0.9L * s + (1 - 0.9L) * c * c; p -= rate * c / sqrtl(s + 1e-3L); } return p; });
    AdamOptions<T> ao; ao.learningRate = rate; ao.beta1 = T(0.9L); ao.beta2 = T(0.99L); ao.epsilon = T(1e-3L); steps("adam", AdamOptimizer<T>(ao), [&](T p, T c) { T m = 0, s = 0, b1 = 1, b2 = 1; for (int i = 0; i < 2; ++i) { m = 0.9L * m + (1 - 0.9L) * c; s = 0.99L * s + (1 - 0.99L) * c * c; b1 *= 0.9L; b2 *= 0.99L; p -= rate * (m / (1 - b1)) / (sqrtl(s / (1 - b2)) + 1e-3L); } return p; });
    kx.check("operand-changed"); R.nontrivial(hashV(d, v)); R.sample("extended precision", R.desc);
}
template <class T> void run(Rng& g) { switch (g.range(0, 5)) { case 0: case 1: elementwise<T>(g); break; case 2: reduce<T>(g); break; case 3: products<T>(g); break; default: structure<T>(g); } }
int main(int argc, char** argv) {
    return mainLoop(argc, argv, [](Rng& g, u64) {
        switch (g.range(0, 10)) {
        case 0: run<signed char>(g); break; case 1: run<unsigned char>(g); break; case 2: run<short>(g); break; case 3: run<unsigned short>(g); break;
        case 4: run<int>(g); break; case 5: run<unsigned>(g); break; case 6: run<long long>(g); break; case 7: run<unsigned long long>(g); break; case 8: if (g.chance(0.5)) extended(g); else run<long double>(g); break; case 9: run<long>(g); break; default: run<char>(g); }
    });
}
