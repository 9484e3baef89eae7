// C35: textual output of shapes and tensors, parsed back
#include "model.hpp"
#include "smart_dnn/Tensor/SliceView.hpp"
#include "smart_dnn/Tensor/BroadcastView.hpp"
using namespace h;
using namespace smart_dnn;
static std::vector<std::string> split(const std::string& s) { std::vector<std::string> r; size_t i = 0; for (;;) { size_t j = s.find(", ", i); r.push_back(s.substr(i, j == std::string::npos ? j : j - i)); if (j == std::string::npos) return r; i = j + 2; } }
template <class T> bool token(const std::string& s, T v) { // six significant digits
    if (std::is_integral<T>::value) return s == std::to_string((long long)v);
    if (std::isnan(double(v))) return s == "nan" || s == "-nan";
    if (std::isinf(double(v))) return s == (v > 0 ? "inf" : "-inf");
    if (s.empty() || isspace(s[0])) return false;
    char* e; errno = 0; long double d = strtold(s.c_str(), &e);
    return !*e && fabsl(d - ld(v)) <= 6e-6L * fabsl(ld(v));
}
template <class T> T value(Rng& g, int style) {
    if (std::is_integral<T>::value) return style == 0 ? T(g.range(-9, 9)) : T(g.one({INT_MAX, INT_MIN, 0, 1, -1, 1000000, 123456789}));
    switch (style) {
    case 0: return T(g.range(-9, 9)); case 1: return T(g.normal()); case 2: return T(g.uni(-1, 1) * std::pow(10.0, g.uni(-30, 30)));
    case 3: return T(g.one({0.0, -0.0, 1e6, 999999.5, 123456.75, 1e-5, 1e20, double(INFINITY), -double(INFINITY), double(NAN), 0.1, 1.0 / 3}));
    default: return T(g.range(-2000000, 2000000)); }
}
template <class T> void run(Rng& g) {
    Dims d = g.chance(0.15) ? Dims{g.range(8, 14)} : anyDims(g, 1, 5, 7, 300, 0.003); size_t n = prod(d); std::vector<T> v(n); int style = g.range(0, 4);
    for (T& x : v) x = value<T>(g, g.chance(0.7) ? style : g.range(0, 4));
    R.desc = cat(tname<T>(), show(d), " ", showv(v, 14));
    const Ten<T> t = mk(d, v); Snap<T> s(t);
    std::string shape = t.getShape().toString(), data = t.toDataString(), detail = t.toDetailedString();
    R.eval(3); R.event("tensors"); if (n > 10) R.event("abbreviated"); if (n <= 10) R.event("complete"); if (n == 10) R.event("exactly-10"); if (n == 11) R.event("exactly-11"); if (n > 1000) R.event("beyond-1000-elements");
    auto dims = [&](const std::string& x) { if (x.size() < 2 || x.front() != '(' || x.back() != ')') return false; auto p = split(x.substr(1, x.size() - 2)); if (p.size() != d.size()) return false; for (size_t i = 0; i < p.size(); ++i) if (p[i] != std::to_string(d[i])) return false; return true; };
    if (!dims(shape)) { R.fail("shape-text", shape); return; }
    { std::ostringstream o; o << t.getShape(); if (o.str() != shape) R.fail("shape-stream", o.str()); }
    auto list = [&](const std::string& x, size_t limit) {
        if (x.size() < 2 || x.front() != '[' || x.back() != ']') return false;
        auto p = split(x.substr(1, x.size() - 2)); size_t shown = std::min(n, limit);
        if (p.size() != shown + (n > limit)) return false;
        for (size_t i = 0; i < shown; ++i) if (!token(p[i], v[i])) return false;
        return n <= limit || p.back() == "...";
    };
    if (!list(data, n)) { R.fail("data-text", data.substr(0, 300)); return; }
    // the detailed text: a heading, the kind, the shape, the first ten elements
    std::vector<std::string> lines; { std::istringstream i(detail); for (std::string l; std::getline(i, l);) lines.push_back(l); }
    bool ok = lines.size() >= 4 && lines[0] == "Tensor:" && lines[2] == "Shape: " + shape && lines[3].substr(0, 6) == "Data: " && list(lines[3].substr(6), 10);
    if (!ok) { R.fail("detailed-text", detail.substr(0, 400)); return; }
    if (t.toDataString() != data || t.toDetailedString() != detail || t.getShape().toString() != shape) R.fail("text-changes", "asking again gives another text");
    Ten<T> c(t); if (c.toDataString() != data || c.toDetailedString() != detail) R.fail("text-of-copy", "");
    { // the formatting of other streams does not matter
        auto f = std::cout.flags(); auto p = std::cout.precision(); std::cout.precision(2); std::cout << std::scientific << std::showpos << std::hex;
        if (t.toDataString() != data || t.toDetailedString() != detail || t.getShape().toString() != shape) R.fail("text-depends-on-stream-state", "");
        std::cout.flags(f); std::cout.precision(p);
    }
    if (n <= 400) { // views name their own shape first, then the one they look at
        Dims big = d; for (int& x : big) if (x == 1 && g.chance(0.5)) x = g.range(2, 4); if (g.chance(0.5)) big.insert(big.begin(), g.range(1, 3));
        Dims cut = d; std::vector<std::pair<int, int>> sl; std::vector<int> st; for (int& x : cut) { int lo = g.range(0, x - 1), hi = g.range(lo + 1, x), k = g.range(1, 3); sl.push_back({lo, hi}); st.push_back(k); x = (hi - lo + k - 1) / k; }
        auto text = [](const Dims& x) { return Shape(x).toString(); };
        auto names = [&](const char* what, std::string x, const Dims& own) {
            R.eval(); size_t p = x.find(text(own)), q = p == std::string::npos ? p : x.find(shape, p + text(own).size());
            if (q == std::string::npos) R.fail(cat(what, "-text"), cat(x, " for ", show(own), " from ", show(d))); else R.event(own == d ? "view-texts" : "view-texts-of-other-shapes");
        };
        BroadcastView<T, CPUDevice> bv(t.getData(), Shape(big)); names("broadcast-view", bv.toString(), big);
        SliceView<T> sv(t.getData(), sl, st); names("slice-view", sv.toString(), cut);
    }
    s.check("operand-changed");
    R.sample(cat(tname<T>(), n > 10 ? " abbreviated" : ""), data.substr(0, 100)); R.nontrivial(hashS(detail + data));
}
int main(int argc, char** argv) { return mainLoop(argc, argv, [](Rng& g, u64) { switch (g.range(0, 4)) { case 0: case 1: run<float>(g); break; case 2: case 3: run<double>(g); break; default: run<int>(g); } }); }
