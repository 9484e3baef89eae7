// C40: tensors of more than 2^31 (and 2^32) elements: every operation reaches all of their elements, at the right place, or refuses.
// int8_t elements keep such a tensor at 2 GB; it is one value everywhere except at some positions, which are followed through each operation.
#include "common.hpp"
#include <iostream>
#include "smart_dnn/Activations/ReLU.hpp"
#include "smart_dnn/Activations/Softmax.hpp"
#include "smart_dnn/Layers/FlattenLayer.hpp"
#include "smart_dnn/Layers/Conv2DLayer.hpp"
#include "smart_dnn/Layers/ActivationLayer.hpp"
#include "smart_dnn/Regularisation/DropoutLayer.hpp"
#include "smart_dnn/Regularisation/MaxPooling2DLayer.hpp"
#include "smart_dnn/Optimizers/SGDOptimizer.hpp"
#include "smart_dnn/Loss/MSELoss.hpp"
using namespace h;
// The library allocates small index vectors for every element: blocks of up to 64 bytes come from lists of the thread.
// A header keeps the size class; larger blocks are malloc's.
struct SmallBlocks { void* head = nullptr; };
static thread_local SmallBlocks small_;
static void* take(size_t n) {
    if (n <= 48) {
        char* p = (char*)small_.head;
        if (p) small_.head = *(void**)(p + 16);
        else { p = (char*)malloc(64 * 1024); if (!p) throw std::bad_alloc(); for (int i = 1; i < 1024; ++i) { *(void**)(p + 64 * i + 16) = small_.head; small_.head = p + 64 * i; } }
        *(size_t*)p = 1; return p + 16;
    }
    char* p = (char*)malloc(n + 16); if (!p) throw std::bad_alloc();
    *(size_t*)p = 2; return p + 16;
}
static void give(void* q) noexcept { if (!q) return; char* p = (char*)q - 16; if (*(size_t*)p == 1) { *(void**)q = small_.head; small_.head = p; } else free(p); }
void* operator new(size_t n) { return take(n); }
void* operator new[](size_t n) { return take(n); }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, size_t) noexcept { give(p); }
void operator delete[](void* p, size_t) noexcept { give(p); }
struct NullBuf : std::streambuf { int overflow(int c) override { return c; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };
using I = int8_t;
using smart_dnn::BroadcastView;
using smart_dnn::SliceView;
using AT = smart_dnn::AdvancedTensorOperations<I>;
static const size_t H = size_t(1) << 31;
using Sp = std::map<size_t, I>;
static size_t size_(const Dims& d) { return prod(d); }

// a shape of a little more than `over` elements, with `rank` axes
static Dims hugeDims(Rng& g, int rank, size_t over) {
    for (;;) {
        Dims d; size_t rest = over + 1 + g.next() % 5000; double r = double(rest);
        if (rank == 2 && g.chance(0.3)) { int a = g.range(2, 9); d = {a, int(rest / a + 1)}; if (g.chance(0.5)) std::swap(d[0], d[1]); }
        else for (int i = 0; i < rank; ++i) { int x = i + 1 == rank ? int(r) + 1 : std::max(2, int(std::pow(r, g.uni(0.7, 1.3) / (rank - i)))); d.push_back(x); r /= x; }
        bool ok = true; for (int x : d) ok = ok && x > 0;
        size_t n = ok ? size_(d) : 0;
        if (n > over && n < over + over / 20) return d;
    }
}
static std::set<size_t> positions(Rng& g, size_t n) {
    std::set<size_t> p{0, n - 1, n - 2, n / 2};
    for (size_t q : {H - 1, H, H + 1, 2 * H - 1, 2 * H, 2 * H + 1}) if (q < n) p.insert(q);
    for (int i = 0; i < 40; ++i) p.insert(g.next() % n);
    for (int i = 0; i < 25; ++i) p.insert((n > 2 * H ? 2 * H : H) + g.next() % (n - (n > 2 * H ? 2 * H : H)));
    return p;
}
struct M { Dims d; I base; Sp at; size_t n() const { return size_(d); } I operator[](size_t i) const { auto f = at.find(i); return f == at.end() ? base : f->second; } };
static M model(Rng& g, const Dims& d, int base) { M m{d, I(base), {}}; for (size_t p : positions(g, m.n())) m.at[p] = I(g.one({-1, 1}) * g.range(1, 9)); return m; }
static Ten<I> build(const M& m) { Ten<I> t(Shape(m.d), m.base); I* p = t.getData().data(); for (auto& e : m.at) p[e.first] = e.second; R.event("elements-created", m.n()); return t; }
template <class F> static M map1(const M& a, F f) { M r{a.d, f(a.base), {}}; for (auto& e : a.at) r.at[e.first] = f(e.second); return r; }
template <class F> static M map2(const M& a, const M& b, F f) { M r{a.d, f(a.base, b.base), {}}; for (auto* m : {&a, &b}) for (auto& e : m->at) r.at[e.first] = f(a[e.first], b[e.first]); return r; }
static void same(const char* what, const Ten<I>& t, const M& m) {
    R.eval();
    if (dimsOf(t) != m.d) { R.fail(cat(what, ":shape"), cat(show(dimsOf(t)), ", not ", show(m.d))); return; }
    const I* p = t.getData().data(); size_t n = m.n(), wrong = 0, first = 0;
    if (t.getShape().size() != n || t.getData().size() != n) { R.fail(cat(what, ":size"), cat(t.getShape().size(), " elements, not ", n)); return; }
    auto e = m.at.begin();
    for (size_t i = 0; i < n;) {
        size_t end = std::min(n, i + (size_t(1) << 16)); bool odd = e != m.at.end() && e->first < end;
        if (!odd) { unsigned bad = 0; for (size_t j = i; j < end; ++j) bad |= unsigned(p[j] != m.base); odd = bad; }
        if (odd) for (size_t j = i; j < end; ++j) { I want = m.base; if (e != m.at.end() && e->first == j) { want = e->second; ++e; } if (p[j] != want && !wrong++) first = j; }
        i = end;
    }
    R.event("elements-checked", n); R.event("followed-positions", m.at.size()); R.event("results-checked");
    if (wrong) R.fail(cat(what, ":elements"), cat(wrong, " of ", n, " elements differ, the first at ", first, ": ", int(p[first]), " instead of ", int(m[first])));
}
static I w(int x) { return I(x); } // the narrowing that storing an int result in an int8_t does
// the sum over some axes, as int8_t
static M sumOver(const M& a, const std::set<size_t>& axes) {
    Dims out; long long per = 1; for (size_t i = 0; i < a.d.size(); ++i) if (axes.count(i)) per *= a.d[i]; else out.push_back(a.d[i]);
    if (out.empty()) out.push_back(1);
    M r{out, w(int((long long)a.base * per)), {}};
    std::map<size_t, long long> acc;
    for (auto& e : a.at) { Dims ix = unravel(e.first, a.d); size_t f = 0; for (size_t i = 0; i < a.d.size(); ++i) if (!axes.count(i)) f = f * a.d[i] + ix[i]; acc[f] += (long long)e.second - a.base; }
    for (auto& e : acc) r.at[e.first] = w(int(r.base + e.second));
    return r;
}
template <class F> static void orRefuse(const char* what, F f) { try { f(); } catch (const std::exception& e) { R.event(cat("refused-", what)); } }

int main(int argc, char** argv) {
    static NullBuf nb; std::cout.rdbuf(&nb);
    return mainLoop(argc, argv, [](Rng& g, u64 c) {
        static const int OPS = 20;
        static const std::vector<int> ops = [] { std::vector<int> v; std::istringstream s(getenv("OPS") ? getenv("OPS") : ""); for (int x; s >> x;) v.push_back(x); if (v.empty()) for (int i = 0; i < OPS; ++i) v.push_back(i); return v; }();
        int op = ops[c % ops.size()];
        Dims d = hugeDims(g, op == 3 || op == 9 ? 2 : g.range(2, 4), H);
        R.desc = cat("operation group ", op, " on ", show(d));
        auto views = [&](Ten<I>& a, const M& m) { // elements at chosen places
            const Dims& d = m.d;
            BroadcastView<I, CPUDevice> bv(a.getData(), Shape(d));
            Dims up = d; up.insert(up.begin(), 3); BroadcastView<I, CPUDevice> bu(a.getData(), Shape(up));
            std::vector<std::pair<int, int>> rg; std::vector<int> st; Dims lo, cnt;
            for (int x : d) { int s = g.range(0, std::min(x - 1, 5)), t = g.range(1, 2); if (rg.empty() && t == 2 && (x - 1 - s) % 2) s = s > 0 ? s - 1 : x > 1 ? 1 : 0; /* reach the last rows */ rg.push_back({s, x}); st.push_back(t); lo.push_back(s); cnt.push_back((x - s - 1) / t + 1); }
            SliceView<I> sv(a.getData(), rg, st);
            R.eval(); if (sv.shape().getDimensions() != cnt) R.fail("slice-view:shape", cat(show(sv.shape().getDimensions()), ", not ", show(cnt)));
            for (auto& e : m.at) {
                Dims ix = unravel(e.first, d);
                R.eval(2); if (bv[ix] != e.second) R.fail("broadcast-view:element", cat("at ", show(ix)));
                Dims iu = ix; iu.insert(iu.begin(), g.range(0, 2)); if (bu[iu] != e.second) R.fail("broadcast-view:element", cat("at ", show(iu)));
                bool in = true; Dims is; for (size_t i = 0; i < d.size(); ++i) { int k = ix[i] - lo[i]; in = in && k >= 0 && k % st[i] == 0; is.push_back(k / st[i]); }
                if (in) { R.eval(); R.event("slice-view-elements"); if (sv[is] != e.second) R.fail("slice-view:element", cat("at ", show(is))); sv.set(is, w(e.second + 1)); }
                if (in) { R.eval(); if (a.getData().data()[e.first] != w(e.second + 1)) R.fail("slice-view:set", cat("at ", show(is))); a.getData().data()[e.first] = e.second; }
            }
            // the last index of every axis of the slice, wherever it falls
            for (int i = 0; i < 50; ++i) { Dims is, ix; for (size_t k = 0; k < d.size(); ++k) { is.push_back(g.chance(0.6) ? cnt[k] - 1 : g.range(0, cnt[k] - 1)); ix.push_back(lo[k] + is[k] * st[k]); } R.eval(); if (sv[is] != m[ravel(ix, d)]) R.fail("slice-view:element", cat("at ", show(is))); }
        };
        auto pickAxes = [&](size_t rank) { std::set<size_t> s; while (s.empty()) for (size_t i = 0; i < rank; ++i) if (g.chance(0.5)) s.insert(i); return s; };
        switch (op) {
        case 0: { // creating, copying, moving, comparing, reshaping
            M m = model(g, d, g.range(-3, 3)); Ten<I> a = build(m);
            same("create", a, m);
            for (auto& e : m.at) { Dims ix = unravel(e.first, d); R.eval(); if (a.at(ix) != e.second) R.fail("at:elements", cat("at ", show(ix))); }
            Ten<I> b = a; same("copy", b, m);
            R.eval(); if (!(a == b)) R.fail("equal", "a copy compares unequal");
            size_t last = m.n() - 1 - g.range(0, 3); b.getData().data()[last] = I(b.getData().data()[last] ^ 1);
            R.eval(); if (a == b) R.fail("unequal", cat("a difference at element ", last, " of ", m.n(), " is not seen"));
            Ten<I> e = std::move(a); same("move", e, m);
            M r = m; std::reverse(r.d.begin(), r.d.end()); e.reshape(Shape(r.d)); same("reshape", e, r);
            a = std::move(e); same("move-assign", a, r);
            M z{d, 0, {}}; b = Ten<I>(Shape(d)); same("zeroed", b, z);
            break; }
        case 1: { // with a scalar, in place and not
            M m = model(g, d, 2); Ten<I> a = build(m); I s = I(g.range(2, 5));
            same("add-scalar", a + s, map1(m, [s](I x) { return w(x + s); }));
            same("subtract-scalar", a - s, map1(m, [s](I x) { return w(x - s); }));
            same("multiply-scalar", a * s, map1(m, [s](I x) { return w(x * s); }));
            same("divide-scalar", a / s, map1(m, [s](I x) { return w(x / s); }));
            a += s; m = map1(m, [s](I x) { return w(x + s); }); same("add-scalar-in-place", a, m);
            a *= s; m = map1(m, [s](I x) { return w(x * s); }); same("multiply-scalar-in-place", a, m);
            a -= s; m = map1(m, [s](I x) { return w(x - s); }); same("subtract-scalar-in-place", a, m);
            a /= s; m = map1(m, [s](I x) { return w(x / s); }); same("divide-scalar-in-place", a, m);
            break; }
        case 2: { // functions
            M m = model(g, d, g.range(-3, 3)), n = model(g, d, g.range(-3, 3)); Ten<I> a = build(m), b = build(n);
            auto f = [](I x) { return w(3 * x + 1); };
            same("apply", AT::apply(a, f), map1(m, f));
            auto h2 = [](I x, I y) { return w(2 * x - 5 * y); };
            same("apply-pair", AT::applyPair(a, b, h2), map2(m, n, h2));
            a.apply(f); same("apply-in-place", a, map1(m, f));
            break; }
        case 3: { // arithmetic of two
            M m = model(g, d, g.range(-3, 3)); Ten<I> a = build(m);
            // a row, shown once for each row
            Dims rd{d[1]}; M row{rd, 1, {}}; row.at[d[1] - 1] = 7; row.at[d[1] / 2] = -6;
            Ten<I> r(Shape(rd), I(1)); r.getData().data()[d[1] - 1] = 7; r.getData().data()[d[1] / 2] = -6;
            M want{d, w(m.base + 1), {}};
            auto put = [&](size_t i) { want.at[i] = w(m[i] + row[i % size_t(d[1])]); };
            for (auto& e : m.at) put(e.first);
            for (size_t k = 0; k < size_t(d[0]); ++k) { put(k * d[1] + d[1] - 1); put(k * d[1] + d[1] / 2); }
            same("add-broadcast", a + r, want);
            break; }
        case 4: { M m = model(g, d, g.range(-3, 3)), n = model(g, d, g.range(-3, 3)); Ten<I> a = build(m), b = build(n);
            if (g.chance(0.5)) { a += b; same("add-in-place", a, map2(m, n, [](I x, I y) { return w(x + y); })); }
            else { a -= b; same("subtract-in-place", a, map2(m, n, [](I x, I y) { return w(x - y); })); }
            break; }
        case 5: { M m = model(g, d, g.range(-3, 3)), n = model(g, d, g.range(1, 3)); Ten<I> a = build(m), b = build(n);
            if (g.chance(0.5)) same("multiply", a * b, map2(m, n, [](I x, I y) { return w(x * y); }));
            else same("subtract", a - b, map2(m, n, [](I x, I y) { return w(x - y); }));
            break; }
        case 6: { // sums
            M m = model(g, d, g.range(-3, 3)); Ten<I> a = build(m); std::set<size_t> all; for (size_t i = 0; i < d.size(); ++i) all.insert(i);
            same("sum-all", AT::sum(a), sumOver(m, all));
            auto ax = pickAxes(d.size()); same("sum-axes", AT::sum(a, std::vector<size_t>(ax.begin(), ax.end())), sumOver(m, ax));
            break; }
        case 7: { // views: elements at chosen places
            M m = model(g, d, 0); Ten<I> a = build(m);
            views(a, m);
            same("views-leave-tensor", a, m);
            break; }
        case 8: { // slices
            M m = model(g, d, g.range(-3, 3)); Ten<I> a = build(m);
            for (int i = 0; i < 6; ++i) {
                int dim = g.range(0, int(d.size()) - 1), idx = i < 3 ? d[dim] - 1 - (i == 2) : g.range(0, d[dim] - 1);
                if (i >= 3) { auto it = m.at.begin(); std::advance(it, g.next() % m.at.size()); idx = unravel(it->first, d)[dim]; }
                M r{d, m.base, {}}; r.d.erase(r.d.begin() + dim);
                for (auto& e : m.at) { Dims ix = unravel(e.first, d); if (ix[dim] != idx) continue; ix.erase(ix.begin() + dim); r.at[ravel(ix, r.d)] = e.second; }
                same("slice", a.slice(dim, idx), r);
            }
            break; }
        case 9: { // matrix by vector, and by a matrix of one column
            M m = model(g, d, 0); Ten<I> a = build(m);
            Ten<I> v(Shape({d[1]}), I(3)); int odd = g.range(0, d[1] - 1); v.getData().data()[odd] = -2;
            M r{{d[0]}, 0, {}}; std::map<size_t, int> acc;
            for (auto& e : m.at) acc[e.first / d[1]] += e.second * (int(e.first % d[1]) == odd ? -2 : 3);
            for (auto& e : acc) r.at[e.first] = w(e.second);
            same("matrix-vector", AT::matmul(a, v), r);
            M rc = r; rc.d.push_back(1); v.reshape(Shape({d[1], 1}));
            same("matrix-column", AT::matmul(a, v), rc);
            Ten<I> u(Shape({1, d[0]}), I(2)); M rr{{1, d[1]}, 0, {}}; acc.clear(); // a row by the huge matrix
            for (auto& e : m.at) acc[e.first % d[1]] += e.second * 2;
            for (auto& e : acc) rr.at[e.first] = w(e.second);
            if (d[0] < 3000000) same("row-matrix", AT::matmul(u, a), rr);
            break; }
        case 10: { // a huge product of a column and a row
            Ten<I> u(Shape({d[0], 1}), I(0)); Dims rd{1, int(size_(d) / d[0])}; Ten<I> v(Shape(rd), I(0));
            std::map<int, int> pu{{d[0] - 1, 3}, {d[0] / 2, -2}}, pv{{rd[1] - 1, 5}, {rd[1] / 3, 2}, {g.range(0, rd[1] - 1), -7}};
            for (auto& e : pu) u.getData().data()[e.first] = I(e.second);
            for (auto& e : pv) v.getData().data()[e.first] = I(e.second);
            M r{{d[0], rd[1]}, 0, {}}; for (auto& x : pu) for (auto& y : pv) r.at[size_t(x.first) * rd[1] + y.first] = w(x.second * y.second);
            same("column-row", AT::matmul(u, v), r);
            break; }
        case 11: { // activations
            M m = model(g, d, g.range(-3, 3)); Ten<I> a = build(m); smart_dnn::ReLU<I> relu;
            same("relu", relu.forward(a), map1(m, [](I x) { return x > 0 ? x : I(0); }));
            M n = model(g, d, 2); Ten<I> b = build(n);
            Ten<I> gr = relu.backward(a, b); a = Ten<I>(Shape({1})); same("relu-backward", gr, map2(m, n, [](I x, I y) { return x > 0 ? y : I(0); }));
            break; }
        case 12: { // softmax: with int8_t the weights are 1 for the greatest element of each sample and 0 for the others unless exp(0) is one for several
            Dims sd{g.range(60000, 70000), 0}; sd[1] = int((H + H / 60) / sd[0]); Ten<I> a(Shape(sd), I(0));
            std::map<size_t, int> top; for (int i = 0; i < sd[0]; ++i) { size_t k = g.chance(0.5) ? sd[1] - 1 : g.next() % sd[1]; a.getData().data()[size_t(i) * sd[1] + k] = 9; top[i] = int(k); }
            M r{sd, 0, {}}; for (auto& e : top) r.at[size_t(e.first) * sd[1] + e.second] = 1;
            smart_dnn::Softmax<I> sm; same("softmax", sm.forward(a), r);
            // all in one sample
            a = Ten<I>(Shape({1, sd[0], sd[1]}), I(0)); size_t k = a.getShape().size() - 1 - g.next() % 1000; a.getData().data()[k] = 9; r = M{{1, sd[0], sd[1]}, 0, {{k, 1}}};
            same("softmax-one-sample", sm.forward(a), r);
            break; }
        case 13: { // the optimizer reaches every weight
            M m = model(g, d, g.range(-3, 3)), n = model(g, d, g.range(-3, 3)); Ten<I> a = build(m), b = build(n);
            smart_dnn::SGDOptions<I> o; o.learningRate = 2; o.momentum = 0; smart_dnn::SGDOptimizer<I> opt(o);
            opt.optimize({std::ref(a)}, {std::ref(b)});
            same("sgd-weights", a, map2(m, n, [](I x, I y) { return w(x - 2 * y); }));
            same("sgd-gradient", b, n);
            break; }
        case 14: { // flatten refuses what no int can count, and stays usable; otherwise it keeps all elements
            M m = model(g, d, g.range(-3, 3)); Ten<I> a = build(m); smart_dnn::FlattenLayer<I> fl;
            M one = m; one.d.insert(one.d.begin(), 1); a.reshape(Shape(one.d));
            orRefuse("flatten", [&] { Ten<I> y = fl.forward(a); R.fail("flatten:accepted", cat("a sample of ", m.n(), " elements was flattened to ", show(dimsOf(y)))); });
            if (fl.forward(Ten<I>(Shape({2, 3, 4}))).getShape() != Shape({2, 12})) R.fail("flatten:small", "an ordinary input after the refused one");
            orRefuse("flatten", [&] { fl.forward(a); R.fail("flatten:accepted", "accepted the second time"); });
            R.eval(); try { if (fl.backward(Ten<I>(Shape({2, 12}))).getShape() != Shape({2, 3, 4})) R.fail("flatten:state", "wrong shape"); } catch (const std::exception& e) { R.fail("flatten:state", cat("a refused input replaced the stored shape: ", e.what())); }
            a.reshape(Shape(d)); M f = m; f.d = {d[0], int(size_(d) / d[0])};
            Ten<I> y = fl.forward(a); a = Ten<I>(Shape({1})); same("flatten", y, f); y = fl.backward(y); same("flatten-backward", y, m);
            break; }
        case 15: { // few windows over a huge image
            Dims im{g.range(1, 3), g.range(1, 2), g.range(20000, 40000), 0}; size_t rest = (H + H / 60) / (size_t(im[0]) * im[1] * im[2]); im[3] = int(rest); int s = g.range(2000, 4000);
            M m{im, 0, {}}; int oh = (im[2] - 2) / s + 1, ow = (im[3] - 2) / s + 1;
            Ten<I> a(Shape(im), I(-5)); m.base = -5;
            M want{{im[0], im[1], oh, ow}, -5, {}};
            for (int i = 0; i < 40; ++i) { Dims o{g.range(0, im[0] - 1), g.range(0, im[1] - 1), g.chance(0.5) ? oh - 1 : g.range(0, oh - 1), g.chance(0.5) ? ow - 1 : g.range(0, ow - 1)}; Dims p{o[0], o[1], o[2] * s + g.range(0, 1), o[3] * s + g.range(0, 1)}; m.at[ravel(p, im)] = I(g.range(1, 9)); }
            for (auto& e : m.at) { a.getData().data()[e.first] = e.second; Dims p = unravel(e.first, im); size_t f = ravel({p[0], p[1], p[2] / s, p[3] / s}, want.d); I& x = want.at.emplace(f, I(-5)).first->second; x = std::max(x, e.second); }
            smart_dnn::MaxPooling2DLayer<I> pool(2, s, 0); Ten<I> y = pool.forward(a); same("pool", y, want);
            a = Ten<I>(Shape({1}));
            // the gradient goes to the greatest element of each window
            Ten<I> gy(Shape(want.d), I(0)); std::map<size_t, I> last; // windows with one followed element only, so that there is no tie
            std::map<size_t, std::vector<size_t>> in; for (auto& e : m.at) { Dims p = unravel(e.first, im); in[ravel({p[0], p[1], p[2] / s, p[3] / s}, want.d)].push_back(e.first); }
            M back{im, 0, {}}; for (auto& e : in) if (e.second.size() == 1) { I v = I(g.range(1, 9)); gy.getData().data()[e.first] = v; back.at[e.second[0]] = v; }
            same("pool-backward", pool.backward(gy), back);
            break; }
        case 16: { // few windows of a convolution
            Dims im{g.range(1, 3), 1, g.range(20000, 40000), 0}; im[3] = int((H + H / 60) / (size_t(im[0]) * im[2])); int s = g.range(2000, 4000);
            int oh = (im[2] - 2) / s + 1, ow = (im[3] - 2) / s + 1; Ten<I> a(Shape(im), I(0)); M m{im, 0, {}};
            smart_dnn::Conv2DLayer<I> conv(1, 1, 2, 2, s, 0, 1);
            auto ps = conv.getWeights(); (void)ps;
            Ten<I> wt(Shape({1, 1, 2, 2}), I(0)); for (int k = 0; k < 4; ++k) wt.getData().data()[k] = I(k + 1);
            conv.setWeights(wt); conv.setBiases(Ten<I>(Shape({1, 1}), I(0)));
            M want{{im[0], 1, oh, ow}, 0, {}}; std::map<size_t, int> acc;
            for (int i = 0; i < 40; ++i) { int b = g.range(0, im[0] - 1), y = g.chance(0.5) ? oh - 1 : g.range(0, oh - 1), x = g.chance(0.5) ? ow - 1 : g.range(0, ow - 1), k = g.range(0, 3); size_t p = ravel({b, 0, y * s + k / 2, x * s + k % 2}, im); if (m.at.count(p)) continue; I v = I(g.range(1, 5)); m.at[p] = v; a.getData().data()[p] = v; acc[ravel({b, 0, y, x}, want.d)] += v * (k + 1); }
            for (auto& e : acc) want.at[e.first] = w(e.second);
            same("convolution", conv.forward(a), want);
            break; }
        case 17: { // beyond 2^32 elements, where a 32-bit count comes out positive again
            Dims q = hugeDims(g, g.range(2, 3), 2 * H); R.desc = cat("in place on ", show(q));
            M m = model(g, q, g.range(-3, 3)); Ten<I> a = build(m); R.event("beyond-2^32");
            I s = I(g.range(2, 5)); a += s; m = map1(m, [s](I x) { return w(x + s); }); same("add-scalar-in-place", a, m);
            a *= s; m = map1(m, [s](I x) { return w(x * s); }); same("multiply-scalar-in-place", a, m);
            auto f = [](I x) { return w(5 * x + 1); }; a.apply(f); m = map1(m, f); same("apply-in-place", a, m);
            std::set<size_t> all; for (size_t i = 0; i < q.size(); ++i) all.insert(i); same("sum-all", AT::sum(a), sumOver(m, all));
            for (auto& e : m.at) { Dims ix = unravel(e.first, q); R.eval(); if (a.at(ix) != e.second) R.fail("at:elements", cat("at ", show(ix))); }
            int dim = g.range(0, int(q.size()) - 1); M r{q, m.base, {}}; int idx = q[dim] - 1; r.d.erase(r.d.begin() + dim);
            for (auto& e : m.at) { Dims ix = unravel(e.first, q); if (ix[dim] != idx) continue; ix.erase(ix.begin() + dim); r.at[ravel(ix, r.d)] = e.second; }
            if (r.n() < H) same("slice", a.slice(dim, idx), r);
            views(a, m);
            M rs = m; std::reverse(rs.d.begin(), rs.d.end()); a.reshape(Shape(rs.d)); same("reshape", a, rs);
            break; }
        case 18: { // transposing
            M m = model(g, d, g.range(-3, 3)); Ten<I> a = build(m); int p = g.range(0, int(d.size()) - 1), q = g.range(0, int(d.size()) - 1);
            M r = m; std::swap(r.d[p], r.d[q]); r.at.clear(); for (auto& e : m.at) { Dims ix = unravel(e.first, d); std::swap(ix[p], ix[q]); r.at[ravel(ix, r.d)] = e.second; }
            same("transpose", AT::transpose(a, p, q), r);
            break; }
        case 19: { // the sum over one axis
            M m = model(g, d, g.range(-3, 3)); Ten<I> a = build(m); size_t ax = g.next() % d.size();
            same("sum-axis", AT::sum(a, ax), sumOver(m, {ax}));
            break; }
        }
        R.event(cat("group-", op)); R.nontrivial(g.next()); R.sample(cat("group ", op), R.desc);
    });
}
