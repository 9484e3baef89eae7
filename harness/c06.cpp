// C06: transpose, slice, strided and broadcast views
#include "common.hpp"
using namespace h;
template <class T> void transposes(Rng& g) {
    using AO = smart_dnn::AdvancedTensorOperations<T>;
    Dims d = anyDims(g, 1, 6, 6, 700, 0.01);
    int r = d.size();
    const bool big = prod(d) > 700;
    const int onlyA = g.range(0, r - 1), onlyB = g.range(0, r - 1);
    if (big) R.event("transposes-of-large-tensors");
    auto v = distinctVec<T>(prod(d));
    Ten<T> t = mk<T>(d, v);
    Snap<T> s(t);
    R.desc = cat("transpose ", tname<T>(), show(d));
    for (int a = 0; a < r; ++a) for (int b = 0; b < r; ++b) {
        if (big && !(a == onlyA && b == onlyB)) continue;
        Dims e = d; std::swap(e[a], e[b]);
        std::vector<T> w(v.size());
        Dims i(r, 0); size_t f = 0;
        do { Dims j = i; std::swap(j[a], j[b]); w[ravel(j, e)] = v[f++]; } while (next(i, d));
        R.event("transposes");
        sameExact("transpose", AO::transpose(t, a, b), e, w);
    }
    for (size_t bad : {size_t(r), size_t(r + 1), size_t(-1), size_t(1) << 32}) {
        mustThrow("transpose:axis", cat(bad, " of ", show(d)), [&] { AO::transpose(t, bad, 0); });
        mustThrow("transpose:axis", cat(bad, " of ", show(d)), [&] { AO::transpose(t, 0, bad); });
        mustThrow("transpose:axis", cat(bad, " of ", show(d)), [&] { AO::transpose(t, bad, bad); });
    }
    s.check("transpose:operand");
    R.nontrivial(hashS(R.desc));
    R.sample("transpose", R.desc);
}
template <class T> void slices(Rng& g) {
    Dims d = anyDims(g, 2, 6, 6, 700, 0.008);
    int r = d.size();
    const bool big = prod(d) > 700;
    if (big) R.event("slices-of-large-tensors");
    auto v = distinctVec<T>(prod(d));
    Ten<T> t = mk<T>(d, v);
    Snap<T> s(t);
    R.desc = cat("slice ", tname<T>(), show(d));
    for (int a = 0; a < r; ++a) {
        for (int k = 0; k < d[a]; ++k) {
            if (big && k != d[a] - 1 && !g.chance(1.0 / d[a])) continue;
            Dims e = d; e.erase(e.begin() + a);
            std::vector<T> w;
            Dims i(r, 0); size_t f = 0;
            do { if (i[a] == k) w.push_back(v[f]); ++f; } while (next(i, d));
            R.event("slices");
            Ten<T> x = t.slice(a, k);
            sameExact("slice", x, e, w);
            x += T(1); // a slice is a tensor of its own
        }
        for (int bad : {-1, d[a], d[a] + 1, INT_MIN, INT_MAX}) mustThrow("slice:index", cat(bad, " of axis ", a, " of ", show(d)), [&] { t.slice(a, bad); });
    }
    for (int bad : {-1, r, r + 1, INT_MIN, INT_MAX}) mustThrow("slice:axis", cat(bad, " of ", show(d)), [&] { t.slice(bad, 0); });
    s.check("slice:operand");
    R.nontrivial(hashS(R.desc));
    R.sample("slice", R.desc);
}
template <class T> void sliceViews(Rng& g) {
    using SV = smart_dnn::SliceView<T>;
    Dims d = anyDims(g, 1, 5, 7, 700);
    if (prod(d) > 700) R.event("views-of-large-tensors");
    int r = d.size();
    auto v = distinctVec<T>(prod(d));
    Ten<T> t = mk<T>(d, v);
    std::vector<std::pair<int, int>> b(r);
    std::vector<int> st(r), s0(r), e0(r);
    Dims e(r);
    bool empty = false, over = false;
    for (int a = 0; a < r; ++a) {
        int s = g.range(0, d[a] - 1), q = g.range(s + 1, d[a]);
        if (g.chance(0.02)) q = g.range(0, s); // empty
        st[a] = g.one({1, 1, 1, 2, 3, d[a], d[a] + 2});
        s0[a] = s; e0[a] = q;
        b[a] = {g.chance(0.3) ? s - d[a] : s, q < d[a] && g.chance(0.3) ? q - d[a] : q};
        if (b[a].first < 0 || b[a].second < 0) R.event("negative-bounds");
        if (q == d[a] && g.chance(0.1)) { b[a].second = d[a] + g.range(1, 5); over = true; }
        if (q <= s) empty = true;
        e[a] = q > s ? (q - s + st[a] - 1) / st[a] : 0;
        if (st[a] > 1) R.event("steps");
    }
    std::ostringstream o; for (int a = 0; a < r; ++a) o << b[a].first << ":" << b[a].second << ":" << st[a] << " ";
    R.desc = cat("SliceView ", tname<T>(), show(d), " ", o.str());
    R.nontrivial(hashS(R.desc));
    if (empty) { R.event("empty-selections"); mustThrow("sliceview:empty", R.desc, [&] { SV x(t.getData(), b, st); }); return; }
    std::unique_ptr<SV> p;
    if (over) { R.event("end-beyond"); if (throws([&] { p.reset(new SV(t.getData(), b, st)); })) return; } // clamped or rejected
    else p.reset(new SV(t.getData(), b, st));
    const SV& view = *p;
    R.event("slice-views");
    R.eval();
    if (view.shape().getDimensions() != e) { R.fail("sliceview:shape", cat(show(view.shape().getDimensions()), " instead of ", show(e), " for ", R.desc)); return; }
    Dims i(r, 0);
    auto it = view.begin();
    size_t cnt = 0;
    do {
        Dims j(r);
        for (int a = 0; a < r; ++a) j[a] = s0[a] + i[a] * st[a];
        T w = v[ravel(j, d)];
        R.eval();
        if (view[i] != w) { R.fail("sliceview:index", cat(show(i), " of ", R.desc, " is ", double(view[i]), " instead of ", double(w))); return; }
        if (!(it != view.end()) || it == view.end()) { R.fail("sliceview:iteration-short", R.desc); return; }
        if (*it != w || it.getCurrentIndices() != i) { R.fail("sliceview:iteration", cat(show(i), " of ", R.desc, " is ", double(*it), " instead of ", double(w))); return; }
        ++it; ++cnt;
    } while (next(i, e));
    R.eval();
    if (it != view.end()) R.fail("sliceview:iteration-long", R.desc);
    // writing through the view reaches exactly the selected element
    for (int a = 0; a < r; ++a) i[a] = g.range(0, e[a] - 1);
    Dims j(r); for (int a = 0; a < r; ++a) j[a] = s0[a] + i[a] * st[a];
    auto w = v; w[ravel(j, d)] = T(-7);
    view.set(i, T(-7));
    sameExact("sliceview:set", t, d, w);
    // invalid
    auto bs = st; int a = g.range(0, r - 1);
    for (int bad : {0, -1, INT_MIN}) { bs[a] = bad; mustThrow("sliceview:step", cat("step ", bad), [&] { SV x(t.getData(), b, bs); }); }
    auto bb = b; bb.push_back({0, 1});
    mustThrow("sliceview:count", "one bound too many", [&] { SV x(t.getData(), bb, st); });
    bs = st; bs.push_back(1);
    mustThrow("sliceview:count", "one step too many", [&] { SV x(t.getData(), b, bs); });
    bb = b; bb.pop_back(); bs = st; bs.pop_back();
    mustThrow("sliceview:count", "one bound too few", [&] { SV x(t.getData(), bb, st); });
    mustThrow("sliceview:count", "one step too few", [&] { SV x(t.getData(), b, bs); });
    mustThrow("sliceview:count", "one step and bound too few", [&] { SV x(t.getData(), bb, bs); });
    bb = b; bb[a] = {s0[a], s0[a]};
    mustThrow("sliceview:empty", "start equal to end", [&] { SV x(t.getData(), bb, st); });
    bb[a] = {d[a], d[a] + 1};
    mustThrow("sliceview:empty", "start behind the last element", [&] { SV x(t.getData(), bb, st); });
    R.sample("slice-view", cat(R.desc, "-> ", show(e), ", ", cnt, " elements"));
}
template <class T> void broadcastViews(Rng& g) {
    using BV = smart_dnn::BroadcastView<T, CPUDevice>;
    Dims target = anyDims(g, 1, 6, 5, 1500), d = target;
    for (int& x : d) if (g.chance(0.4)) x = 1;
    d.erase(d.begin(), d.begin() + g.range(0, int(d.size()) - 1));
    if (g.chance(0.1)) { d = target; }
    bool ok = true;
    int spoil = g.range(0, 5);
    if (spoil == 0) { int i = g.range(0, d.size() - 1); d[i] += g.range(1, 2); ok = d[i] == target[target.size() - d.size() + i]; }
    else if (spoil == 1) { d.insert(d.begin(), g.range(2, 3)); while (d.size() <= target.size()) d.insert(d.begin(), g.range(2, 3)); ok = false; }
    else if (spoil == 2) { int i = g.range(0, d.size() - 1); if (d[i] > 1) { target[target.size() - d.size() + i] = 1; ok = false; } }
    auto v = distinctVec<T>(prod(d));
    Ten<T> t = mk<T>(d, v);
    R.desc = cat("BroadcastView ", tname<T>(), show(d), " to ", show(target));
    R.nontrivial(hashS(R.desc));
    if (!ok) { R.event("impossible-broadcasts"); mustThrow("broadcastview:impossible", R.desc, [&] { BV x(t.getData(), Shape(target)); }); return; }
    R.event("broadcast-views");
    BV made(t.getData(), Shape(target)); Shape gone{1, 2, 3}; BV view(made); // copies look at the same tensor
    R.eval();
    if (view.shape().getDimensions() != target) { R.fail("broadcastview:shape", R.desc); return; }
    Dims i(target.size(), 0);
    auto it = view.begin();
    do {
        T w = v[bindex(i, d)];
        R.eval();
        if (view[i] != w) { R.fail("broadcastview:index", cat(show(i), " of ", R.desc, " is ", double(view[i]), " instead of ", double(w))); return; }
        if (!(it != view.end()) || it == view.end()) { R.fail("broadcastview:iteration-short", R.desc); return; }
        if (*it != w) { R.fail("broadcastview:iteration", cat(show(i), " of ", R.desc, " is ", double(*it), " instead of ", double(w))); return; }
        ++it;
    } while (next(i, target));
    R.eval();
    if (it != view.end()) R.fail("broadcastview:iteration-long", R.desc);
    sameExact("broadcastview:operand", t, d, v);
    R.sample("broadcast-view", R.desc);
}
template <class T> void run(Rng& g) {
    switch (g.range(0, 5)) { case 0: transposes<T>(g); break; case 1: slices<T>(g); break; case 2: case 3: sliceViews<T>(g); break; default: broadcastViews<T>(g); }
}
int main(int c, char** v) {
    return mainLoop(c, v, [](Rng& g, u64) { switch (g.range(0, 2)) { case 0: run<float>(g); break; case 1: run<double>(g); break; default: run<int>(g); } });
}
