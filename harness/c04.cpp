// C04: reductions
#include "common.hpp"
using namespace h;
template <class T> void run(Rng& g) {
    using AO = smart_dnn::AdvancedTensorOperations<T>;
    constexpr bool INT = std::is_integral<T>::value;
    Dims d = g.chance(0.03) ? Dims{g.range(2, 4000)} : randDims(g, 1, 6, g.chance(0.2) ? 20 : 6, 3000);
    if (g.chance(0.03)) { d = {g.range(1, 3), g.range(1, 1500)}; if (g.chance(0.5)) std::swap(d[0], d[1]); }
    if (g.chance(0.006)) { d = bigDims(g, 1, 5); R.event("beyond-200-elements-any-axis"); }
    size_t n = prod(d);
    std::vector<T> v;
    int style = g.range(0, 5);
    if (style == 0) v = std::vector<T>(n, randVal<T>(g, NORMAL));
    else if (style == 1) { v = distinctVec<T>(n); }
    else if (style == 2 && !INT) { T off = T(g.uni(-1e3, 1e3)); v = randVec<T>(g, n, UNIT); for (T& x : v) x += off; }
    else v = randVec<T>(g, n, randKind(g));
    if (INT) for (T& x : v) x = T(g.range(-100, 100));
    Ten<T> t = mk<T>(d, v);
    Snap<T> snap(t);
    int rank = d.size();
    std::vector<size_t> axes;
    for (int i = 0; i < rank; ++i) axes.push_back(i);
    g.shuffle(axes);
    int k = g.chance(0.2) ? rank : g.range(1, rank);
    axes.resize(k);
    std::vector<int> ia(axes.begin(), axes.end());
    R.desc = cat(tname<T>(), show(d), " axes ", show(ia), " values ", showv(v, 10));
    // reference over an axis set
    struct Ref { Dims keep, drop; std::vector<ld> sum, mag, mean, var; size_t cnt; };
    auto ref = [&](const std::vector<size_t>& ax) {
        Ref r; r.keep = d; std::vector<char> in(rank, 0); r.cnt = 1;
        for (size_t a : ax) { in[a] = 1; r.keep[a] = 1; r.cnt *= d[a]; }
        for (int i = 0; i < rank; ++i) if (!in[i]) r.drop.push_back(d[i]);
        if (r.drop.empty()) r.drop = {1};
        size_t m = prod(r.keep);
        r.sum.assign(m, 0); r.mag.assign(m, 0); r.mean.assign(m, 0); r.var.assign(m, 0);
        Dims i(rank, 0); size_t f = 0;
        std::vector<size_t> to(n);
        do { size_t o = bindex(i, r.keep); to[f] = o; r.sum[o] += v[f]; r.mag[o] += fabsl(ld(v[f])); ++f; } while (next(i, d));
        for (size_t o = 0; o < m; ++o) { r.mean[o] = r.sum[o] / r.cnt; }
        for (f = 0; f < n; ++f) r.var[to[f]] += (v[f] - r.mean[to[f]]) * (v[f] - r.mean[to[f]]) / r.cnt;
        return r;
    };
    const bool exact = style >= 3 && exactSums(v, 16 * n); // then sums have no rounding at all
    auto tolSum = [&](const Ref& r, ld scale) { std::vector<ld> q(r.sum.size()); for (size_t i = 0; i < q.size(); ++i) q[i] = INT ? 0 : (exact && scale == 1 ? 0.01L : (r.cnt + 4) * EPS<T> * r.mag[i]) * scale + TINY<T> * r.cnt; return q; };
    auto tolVar = [&](const Ref& r) { std::vector<ld> q(r.sum.size()); for (size_t i = 0; i < q.size(); ++i) { ld dm = (r.cnt + 4) * EPS<T> * r.mag[i] / r.cnt; q[i] = 2 * (r.cnt + 8) * EPS<T> * r.var[i] + 2 * dm * dm + 2 * EPS<T> * EPS<T> * r.mag[i] * r.mag[i] + TINY<T> * 8; } return q; };
    std::vector<size_t> every; for (int i = 0; i < rank; ++i) every.push_back(i);
    Ref whole = ref(every);
    whole.keep = {1};
    same("sum-all", AO::sum(t), Dims{1}, whole.sum, tolSum(whole, 1));
    R.event("sum-whole");
    Ref one = ref({axes[0]});
    same("sum-axis", AO::sum(t, axes[0]), one.drop, one.sum, tolSum(one, 1));
    same("sum-axis-list1", AO::sum(t, std::vector<size_t>{axes[0]}), one.drop, one.sum, tolSum(one, 1));
    R.event("sum-one-axis");
    Ref r = ref(axes);
    same("sum-axes", AO::sum(t, axes), r.drop, r.sum, tolSum(r, 1));
    R.event(k == rank ? "sum-every-axis-by-list" : "sum-axis-sets");
    if (k > 1 && !std::is_sorted(axes.begin(), axes.end())) R.event("unsorted-axes");
    if (d[axes[0]] == 1) R.event("size-1-axis");
    if constexpr (!INT) {
        auto whole1 = whole;
        Ten<T> m = AO::mean(t);
        same("mean-all", m, Dims{1}, whole.mean, tolSum(whole, 1.0L / n));
        R.event("mean-whole");
        same("variance-all", AO::variance(t, m), Dims{1}, whole.var, tolVar(whole));
        R.event("variance-whole");
        Ten<T> mm = AO::mean(t, axes);
        if (k == rank) {
            R.eval();
            if (mm.getShape().size() != 1) R.fail("mean-every-axis:size", show(dimsOf(mm)));
            mm.reshape({1});
            same("mean-every-axis", mm, Dims{1}, whole.mean, tolSum(whole, 1.0L / n));
            Ten<T> vv = AO::variance(t, AO::mean(t, axes), axes);
            if (vv.getShape().size() != 1) R.fail("variance-every-axis:size", show(dimsOf(vv)));
            vv.reshape({1});
            same("variance-every-axis", vv, Dims{1}, whole.var, tolVar(whole));
            R.event("mean-every-axis-by-list");
        } else {
            same("mean-axes", mm, r.keep, r.mean, tolSum(r, 1.0L / r.cnt));
            R.event("mean-axis-sets");
            auto tv = tolVar(r);
            same("variance-axes", AO::variance(t, mm, axes), r.keep, r.var, tv);
            R.event("variance-axis-sets");
            std::vector<T> exact(r.mean.begin(), r.mean.end()); // the correctly rounded mean
            same("variance-axes-given-mean", AO::variance(t, mk<T>(r.keep, exact), axes), r.keep, r.var, tv);
        }
    }
    snap.check("operand-changed");
    // invalid axes
    size_t bad = g.chance(0.5) ? rank : g.one({size_t(rank + 1), size_t(-1), size_t(INT_MAX), size_t(1) << 32, size_t(100)});
    R.event("invalid-axes");
    mustThrow("sum-axis:invalid", cat("axis ", bad, " of ", show(d)), [&] { AO::sum(t, bad); });
    std::vector<size_t> ba = axes; ba.insert(ba.begin() + g.range(0, ba.size()), bad);
    std::vector<size_t> bo = axes; bo[g.range(0, k - 1)] = bad;
    mustThrow("sum-axes:invalid", cat("axis ", bad, " of ", show(d)), [&] { AO::sum(t, ba); });
    mustThrow("sum-axes:invalid", cat("axis ", bad, " of ", show(d)), [&] { AO::sum(t, bo); });
    if constexpr (!INT) {
        mustThrow("mean-axes:invalid", cat("axis ", bad, " of ", show(d)), [&] { AO::mean(t, ba); });
        mustThrow("mean-axes:invalid", cat("axis ", bad, " of ", show(d)), [&] { AO::mean(t, bo); });
        Ten<T> m = AO::mean(t, axes);
        mustThrow("variance-axes:invalid", cat("axis ", bad, " of ", show(d)), [&] { AO::variance(t, m, ba); });
        mustThrow("variance-axes:invalid", cat("axis ", bad, " of ", show(d)), [&] { AO::variance(t, m, bo); });
    }
    snap.check("operand-changed-by-throw");
    R.nontrivial(hashV(d, v, hashS(show(ia))));
    R.sample(cat("rank", rank, "-axes", k), R.desc);
}
int main(int c, char** v) {
    return mainLoop(c, v, [](Rng& g, u64) { switch (g.range(0, 4)) { case 0: case 1: run<float>(g); break; case 2: case 3: run<double>(g); break; default: run<int>(g); } });
}
