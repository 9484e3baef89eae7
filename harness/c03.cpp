// C03: tensors as independent values: a population of tensors against a model of plain vectors
#include "common.hpp"
using namespace h;
template <class T> struct Model {
    struct M { Dims d; std::vector<T> v; };
    std::vector<std::unique_ptr<Ten<T>>> ts;
    std::vector<M> ms;
    Rng& g;
    std::string hist;
    bool big = false;
    explicit Model(Rng& g) : g(g) {}
    std::vector<T> rv(size_t n) { return randVec<T>(g, n, g.one({INTS, NORMAL})); }
    void add(Ten<T>* t, Dims d, std::vector<T> v) { ts.emplace_back(t); ms.push_back({std::move(d), std::move(v)}); }
    void resync(size_t i) { ms[i] = {dimsOf(*ts[i]), vals(*ts[i])}; }
    int any() { return g.range(0, ts.size() - 1); }
    bool checkAll(const std::string& after) {
        for (size_t i = 0; i < ts.size(); ++i)
            if (!sameExact(after, *ts[i], ms[i].d, ms[i].v)) { R.fail(after + ":population", cat("tensor ", i, " after ", hist)); return false; }
        return true;
    }
    void valid(const std::string& key, Ten<T>& t) { // a moved-from tensor can be used
        R.event("moved-from-used");
        size_t n = t.getShape().size();
        R.eval();
        if (n == 0 || n != prod(dimsOf(t)) || t.getData().data() == nullptr || dimsOf(t).empty()) { R.fail(key, "moved-from tensor has no elements"); return; }
        std::vector<T> v = vals(t);
        Ten<T> c = t;
        sameExact(key + ":copy", c, dimsOf(t), v);
        c.reshape({int(n)});
        Ten<T> s = t + t;
        (void)s;
        (void)(t == c);
        (void)t.toDataString();
    }
    bool step() {
        int o = ts.size() < 2 ? 0 : g.range(0, 21);
        std::string name;
        if (o <= 4 || ts.size() < 2) { // construction
            Dims d = big && g.chance(0.4) ? bigDims(g, 1, 4) : randDims(g, 1, 4, 4, 60);
            if (prod(d) > 1000) R.event("beyond-1000-elements");
            size_t n = prod(d);
            int k = g.range(0, 9);
            name = cat("construct", k);
            hist += " " + name + show(d);
            R.desc = hist;
            if (k == 0) add(new Ten<T>(Shape(d)), d, std::vector<T>(n, T(0)));
            else if (k == 1) { T x = randVal<T>(g, NORMAL); add(new Ten<T>(Shape(d), x), d, std::vector<T>(n, x)); }
            else if (k == 2) { auto v = rv(n); add(new Ten<T>(Shape(d), v.data()), d, v); std::fill(v.begin(), v.end(), T(77)); }
            else if (k == 3) { auto v = rv(n); auto w = v; add(new Ten<T>(Shape(d), v), d, w); for (T& x : v) x = T(78); }
            else if (k == 4) { auto v = rv(n); auto w = v; add(new Ten<T>(Shape(d), std::move(v)), d, w); }
            else if (k == 5) { auto v = rv(4); Dims e = g.one({Dims{4}, Dims{2, 2}, Dims{1, 4}}); add(new Ten<T>(Shape(e), {v[0], v[1], v[2], v[3]}), e, v); }
            else if (k == 6) { smart_dnn::TensorData<T, CPUDevice> td{Shape(d), T(4)}; add(new Ten<T>(td), d, std::vector<T>(n, T(4))); td[0] = T(9); td.fill(T(3)); }
            else if (k == 7) { auto v = rv(n); const T* p = v.data(); smart_dnn::TensorData<T, CPUDevice> td{Shape(d), p}; add(new Ten<T>(std::move(td)), d, v); }
            else { // list of another length
                size_t m = g.chance(0.5) ? n + g.range(1, 3) : n - g.range(1, std::min<int>(n, 3));
                std::vector<T> v = rv(m);
                R.event("wrong-count");
                if (k == 8) mustThrow("list-length", cat(m, " values for ", show(d)), [&] { Ten<T> x(Shape(d), v); });
                else mustThrow("list-length", cat(m, " values for ", show(d)), [&] { Ten<T> x(Shape(d), std::move(v)); });
                if (n != 3) mustThrow("list-length", cat("3 values for ", show(d)), [&] { Ten<T> x(Shape(d), {T(1), T(2), T(3)}); });
                if (n != 1) mustThrow("list-length", cat("1 value for ", show(d)), [&] { Ten<T> x(Shape(d), std::initializer_list<T>{T(1)}); });
            }
            R.event("constructed");
        } else {
            int i = any(), j = any();
            Ten<T>&a = *ts[i], &b = *ts[j];
            R.eval();
            switch (o) {
            case 5: { name = "copy-construct"; auto* t = new Ten<T>(a); add(t, ms[i].d, ms[i].v); break; }
            case 6: { name = "copy-assign"; Ten<T>& r = (a = b); ms[i] = ms[j]; if (&r != &a) R.fail("copy-assign:return", ""); break; }
            case 7: { name = "self-copy-assign"; Ten<T>& s = a; a = s; break; }
            case 8: { name = "move-construct"; auto* t = new Ten<T>(std::move(a)); M m = ms[i]; valid("moved-from-construct", a); resync(i); add(t, m.d, m.v); break; }
            case 9: { name = "move-assign"; if (i == j) break; Ten<T>& r = (a = std::move(b)); ms[i] = ms[j]; valid("moved-from-assign", b); resync(j); if (&r != &a) R.fail("move-assign:return", ""); break; }
            case 10: { name = "self-move-assign"; Ten<T>& s = a; a = std::move(s); valid("self-move", a); resync(i); break; }
            case 11: { name = "write"; size_t k = g.range(0, ms[i].v.size() - 1); T x = randVal<T>(g, INTS); int w = g.range(0, 3);
                if (w == 0) a[k] = x; else if (w == 1) a.at(unravel(k, ms[i].d)) = x; else if (w == 2) a.getData()[k] = x; else { a.getData().fill(x); std::fill(ms[i].v.begin(), ms[i].v.end(), x); }
                ms[i].v[k] = x; break; }
            case 12: { name = "in-place-scalar"; T x = T(g.range(1, 3)); if (g.chance(0.5)) { a += x; for (T& y : ms[i].v) y = y + x; } else { a -= x; for (T& y : ms[i].v) y = y - x; } break; }
            case 13: { name = "in-place-tensor"; if (ms[i].d != ms[j].d) break; auto w = ms[j].v; a -= b; for (size_t k = 0; k < w.size(); ++k) ms[i].v[k] = ms[i].v[k] - w[k]; break; }
            case 14: { name = "operation-result"; int w = g.range(0, 5);
                auto* t = w == 0 ? new Ten<T>(a + T(1)) : w == 1 ? new Ten<T>(-a) : w == 2 ? new Ten<T>(smart_dnn::AdvancedTensorOperations<T>::reshape(a, a.getShape())) : w == 3 ? new Ten<T>(smart_dnn::AdvancedTensorOperations<T>::transpose(a, 0, 0)) : w == 4 ? new Ten<T>(T(2) - a) : new Ten<T>(smart_dnn::AdvancedTensorOperations<T>::sum(a));
                M m{dimsOf(*t), vals(*t)}; ts.emplace_back(t); ms.push_back(m); break; }
            case 15: { name = "reshape"; int n = ms[i].v.size(); a.reshape({n}); ms[i].d = {n}; break; }
            case 16: { name = "apply"; a.apply([](T x) { return T(x + T(1)); }); for (T& x : ms[i].v) x = x + T(1); break; }
            case 17: { name = "destroy"; ts.erase(ts.begin() + i); ms.erase(ms.begin() + i); break; }
            case 18: { name = "equality"; // near-copies differ in one element or only in shape
                Ten<T> c = a;
                if (!(a == c) || a != c || !(c == a)) R.fail("equality:copy", "a copy is not equal");
                size_t k = big && g.chance(0.5) ? ms[i].v.size() - 1 : g.range(0, ms[i].v.size() - 1); c[k] = c[k] + T(1);
                if (c[k] != a[k] && (a == c || !(a != c))) R.fail("equality:element", cat("equal although element ", k, " of ", ms[i].v.size(), " differs"));
                Ten<T> s = a; int n = ms[i].v.size(); Dims e = n % 2 == 0 ? Dims{2, n / 2} : Dims{n, 1};
                s.reshape(e);
                if (e != ms[i].d && (s == a || !(s != a))) R.fail("equality:shape", cat("equal although shapes ", show(e), " and ", show(ms[i].d), " differ"));
                bool eq = ms[i].d == ms[j].d && ms[i].v == ms[j].v;
                if ((a == b) != eq || (a != b) == eq) R.fail("equality:pair", "");
                R.event("equalities"); break; }
            case 19: { name = "vector-growth"; std::vector<Ten<T>> vec; int n = g.range(2, 9); for (int k = 0; k < n; ++k) vec.push_back(*ts[k % ts.size()]);
                for (int k = 0; k < n; ++k) sameExact("vector-growth", vec[k], ms[k % ts.size()].d, ms[k % ts.size()].v);
                vec.erase(vec.begin()); vec.insert(vec.begin() + 1, a); sameExact("vector-insert", vec[1], ms[i].d, ms[i].v);
                vec[0] += T(1); break; }
            case 20: { name = "optional-and-swap"; std::optional<Ten<T>> q; q = a; q = b; sameExact("optional", *q, ms[j].d, ms[j].v); *q += T(1);
                if (i != j) { std::swap(a, b); std::swap(ms[i], ms[j]); } break; }
            case 21: { name = "by-value"; auto f = [](Ten<T> x) { x += T(5); return x; }; auto* t = new Ten<T>(f(a)); M m = ms[i]; for (T& x : m.v) x = x + T(5); add(t, m.d, m.v); break; }
            }
            hist += " " + name + cat("(", i, ",", j, ")");
        }
        R.event("op-" + name);
        if (ts.size() > (big ? 5 : 12)) { ts.erase(ts.begin()); ms.erase(ms.begin()); }
        return checkAll(name);
    }
};
// Two large tensors that differ in one element anywhere, often near the end
template <class T> void largeEquality(Rng& g) {
    Dims d = bigDims(g, 1, 4, 400000); if (g.chance(0.5)) d = {g.range(60000, 300000)};
    size_t n = prod(d);
    auto v = randVec<T>(g, n, INTS);
    R.desc = cat("equality of large ", tname<T>(), show(d));
    Ten<T> a = mk(d, v), b = mk(d, v);
    R.eval(); if (!(a == b) || a != b) { R.fail("equality:large-copy", "equal large tensors are not equal"); return; }
    for (int r = 0; r < 6; ++r) {
        size_t k = r == 0 ? n - 1 : r == 1 ? n - 1 - g.range(0, std::min<int>(int(n) - 1, 70)) : g.next() % n;
        T was = a[k]; a[k] = T(was + T(1)); R.eval();
        if (a == b || b == a || !(a != b)) { R.fail("equality:large-element", cat("equal although element ", k, " of ", n, " differs")); return; }
        b.at(unravel(k, d)) = a[k]; R.eval();
        if (!(a == b)) { R.fail("equality:large-copy", "equal large tensors are not equal"); return; }
    }
    R.event("large-equalities"); if (n > 65536) R.event("beyond-65536-elements");
    R.nontrivial(hashS(R.desc));
}
template <class T> void run(Rng& g) {
    if (g.chance(0.004)) { largeEquality<T>(g); return; }
    Model<T> m(g);
    m.big = g.chance(0.008);
    int n = g.range(5, m.big ? 18 : 60);
    for (int i = 0; i < n; ++i) { R.desc = cat(tname<T>(), m.hist); if (!m.step()) return; }
    R.nontrivial(hashS(m.hist));
    R.sample(tname<T>(), m.hist);
}
int main(int c, char** v) {
    return mainLoop(c, v, [](Rng& g, u64) { switch (g.range(0, 2)) { case 0: run<float>(g); break; case 1: run<double>(g); break; default: run<int>(g); } });
}
