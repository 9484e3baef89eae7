// Shared by all harnesses: random cases, reporting, reference tensors.
#pragma once
#include <algorithm>
#include <atomic>
#include <climits>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <csignal>
#include <type_traits>
#include <unistd.h>
#include <unordered_set>
#include <vector>

#include "smart_dnn/Tensor/Tensor.hpp"
#include "smart_dnn/Tensor/AdvancedTensorOperations.hpp"

namespace h {
using u64 = uint64_t;
using ld = long double;

inline u64 mix(u64 x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }

struct Rng {
    u64 s;
    explicit Rng(u64 seed = 1) : s(mix(seed)) {}
    u64 next() { s += 0x9e3779b97f4a7c15ull; return mix(s); }
    int range(int lo, int hi) { return lo + int(next() % u64((long long)hi - lo + 1)); }
    double uni() { return double(next() >> 11) * 0x1p-53; }
    double uni(double a, double b) { return a + (b - a) * uni(); }
    bool chance(double p) { return uni() < p; }
    template <class C> auto pick(const C& c) { return *(std::begin(c) + (next() % std::size(c))); }
    template <class X> X one(std::initializer_list<X> l) { return *(l.begin() + next() % l.size()); }
    double normal() { double a = uni() + 1e-18, b = uni(); return std::sqrt(-2 * std::log(a)) * std::cos(6.283185307179586 * b); }
    template <class V> void shuffle(V& v) { for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[next() % i]); }
};

// ---------------------------------------------------------------- reporting
inline std::string jstr(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += char(c);
    }
    return o + "\"";
}

struct Report {
    FILE* out = nullptr;
    std::map<std::string, u64> events;
    std::unordered_set<u64> distinct;
    std::map<std::string, int> sampled, failed;
    u64 cases = 0, evaluations = 0, violations = 0;
    u64 seed = 1;
    volatile u64* progress = nullptr; // shared with the runner: case number + 1, count of monitored calls
    std::string desc;                 // describes the current case
    u64 cur = 0;

    void event(const std::string& e, u64 n = 1) { events[e] += n; }
    void eval(u64 n = 1) { evaluations += n; if (progress) progress[1] += n; }
    void nontrivial(u64 hash) { if (distinct.size() < 400000) distinct.insert(hash); }
    void nontrivial(const std::string& s) { nontrivial(std::hash<std::string>()(s)); }
    void sample(const std::string& kind, const std::string& text) {
        if (sampled[kind]++ == 0 && sampled.size() <= 12 && out) { fprintf(out, "{\"sample\":%s}\n", jstr(kind + ": " + text.substr(0, 400)).c_str()); fflush(out); }
    }
    // key: stable name of what was violated, without data
    void fail(const std::string& key, const std::string& msg) {
        ++violations;
        if (failed[key]++ < 3 && out) {
            fprintf(out, "{\"violation\":%s,\"case\":%llu,\"seed\":%llu,\"desc\":%s,\"msg\":%s}\n", jstr(key).c_str(), (unsigned long long)cur,
                    (unsigned long long)seed, jstr(desc.substr(0, 1500)).c_str(), jstr(msg.substr(0, 1500)).c_str());
            fflush(out);
        }
    }
    void finish() {
        if (!out) return;
        fprintf(out, "{\"summary\":1,\"cases\":%llu,\"evaluations\":%llu,\"violations\":%llu,\"events\":{", (unsigned long long)cases, (unsigned long long)evaluations, (unsigned long long)violations);
        bool first = true;
        for (auto& e : events) { fprintf(out, "%s%s:%llu", first ? "" : ",", jstr(e.first).c_str(), (unsigned long long)e.second); first = false; }
        fprintf(out, "},\"distinct\":[");
        first = true;
        for (u64 d : distinct) { fprintf(out, "%s%llu", first ? "" : ",", (unsigned long long)(d >> 12)); first = false; }
        fprintf(out, "]}\n");
        fflush(out);
    }
};
inline Report R;

inline void onDeath(int sig) {
    char b[2200];
    int n = snprintf(b, sizeof b, "\nHARNESS-DEATH signal=%d case=%llu desc=%.1500s\n", sig, (unsigned long long)R.cur, R.desc.c_str());
    if (write(2, b, n)) {}
    signal(sig, SIG_DFL);
    raise(sig);
}
inline void onTerminate() {
    std::string what = "no exception";
    if (auto e = std::current_exception()) {
        try { std::rethrow_exception(e); } catch (const std::exception& x) { what = std::string("uncaught ") + typeid(x).name(); } catch (...) { what = "uncaught non-standard exception"; }
    }
    fprintf(stderr, "\nHARNESS-TERMINATE %s\n", what.c_str());
    fflush(stderr);
    abort();
}

template <class F> int mainLoop(int argc, char** argv, F runCase) {
    u64 seed = 1, start = 0, n = 100;
    std::string out, prog;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i];
        if (a == "--seed") seed = strtoull(argv[i + 1], 0, 10);
        else if (a == "--start") start = strtoull(argv[i + 1], 0, 10);
        else if (a == "--cases") n = strtoull(argv[i + 1], 0, 10);
        else if (a == "--out") out = argv[i + 1];
        else if (a == "--progress") prog = argv[i + 1];
    }
    R.seed = seed;
    R.out = out.empty() ? stdout : fopen(out.c_str(), "a");
    if (!R.out) return 2;
    if (!prog.empty()) {
        int fd = open(prog.c_str(), O_RDWR | O_CREAT, 0644);
        if (fd >= 0 && ftruncate(fd, 16) == 0) R.progress = (volatile u64*)mmap(nullptr, 16, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (R.progress == MAP_FAILED) R.progress = nullptr;
    }
    std::set_terminate(onTerminate);
    for (int s : {SIGABRT, SIGFPE, SIGILL}) signal(s, onDeath);
    for (u64 c = start; c < start + n; ++c) {
        R.cur = c;
        if (R.progress) R.progress[0] = c + 1;
        R.desc.clear();
        Rng rng(seed * 0x100000001b3ull ^ mix(c));
        try { runCase(rng, c); }
        catch (const std::exception& e) { R.fail("unexpected-exception", std::string("a call that should succeed threw ") + e.what()); }
        catch (...) { R.fail("nonstandard-exception", "something not derived from std::exception was thrown"); }
        ++R.cases;
    }
    R.finish();
    return 0;
}

// true if f() throws a standard exception
template <class F> bool throws(F f) {
    R.eval();
    try { f(); } catch (const std::exception&) { return true; }
    return false;
}
template <class F> void mustThrow(const std::string& key, const std::string& msg, F f) {
    R.event("rejections-tried");
    if (!throws(f)) R.fail(key, "accepted although it must be rejected: " + msg);
}

// ---------------------------------------------------------------- text
inline std::string show(const std::vector<int>& v) { std::ostringstream o; o << "("; for (size_t i = 0; i < v.size(); ++i) o << (i ? "," : "") << v[i]; o << ")"; return o.str(); }
template <class T> std::string showv(const std::vector<T>& v, size_t m = 12) { std::ostringstream o; o.precision(10); o << "["; for (size_t i = 0; i < v.size() && i < m; ++i) o << (i ? "," : "") << v[i]; o << (v.size() > m ? ",...]" : "]"); return o.str(); }
template <class... A> std::string cat(const A&... a) { std::ostringstream o; o.precision(12); (o << ... << a); return o.str(); }

// ---------------------------------------------------------------- shapes
using Dims = std::vector<int>;
inline size_t prod(const Dims& d) { size_t p = 1; for (int x : d) p *= size_t(x); return p; }
inline std::vector<size_t> strides(const Dims& d) { std::vector<size_t> s(d.size(), 1); for (int i = int(d.size()) - 2; i >= 0; --i) s[i] = s[i + 1] * size_t(d[i + 1]); return s; }
inline Dims unravel(size_t f, const Dims& d) { Dims r(d.size()); for (int i = int(d.size()) - 1; i >= 0; --i) { r[i] = int(f % d[i]); f /= d[i]; } return r; }
inline size_t ravel(const Dims& idx, const Dims& d) { size_t f = 0; for (size_t i = 0; i < d.size(); ++i) f = f * d[i] + idx[i]; return f; }
inline bool next(Dims& idx, const Dims& d) { for (int i = int(d.size()) - 1; i >= 0; --i) { if (++idx[i] < d[i]) return true; idx[i] = 0; } return false; }
// a random shape of at most maxSize elements
inline Dims randDims(Rng& g, int minRank, int maxRank, int maxDim, size_t maxSize = 4000) {
    bool many = maxRank >= 4 && g.chance(0.02); // sometimes more axes than any fixed bound would allow for
    for (;;) {
        Dims d(many ? g.range(7, 12) : g.range(minRank, maxRank));
        for (int& x : d) x = many ? g.one({1, 1, 1, 2, 2, 3}) : g.chance(0.2) ? 1 : g.range(1, maxDim);
        if (prod(d) <= maxSize) return d;
    }
}
// shapes beyond any plausible size threshold: element counts from 250 to about 140000, often at or next to a round number
inline size_t bigSize(Rng& g, size_t maxSize = 140000) {
    for (;;) {
        size_t n = g.chance(0.5) ? size_t(std::pow(10.0, g.uni(2.4, 5.15)))
                                 : size_t(g.one({256, 512, 1000, 1024, 2000, 2048, 4096, 5000, 8192, 10000, 16384, 20000, 32768, 50000, 65536, 100000, 131072}) + g.one({-1, 0, 1, 2, 3, 7}));
        if (n <= maxSize) return n;
    }
}
inline Dims bigDims(Rng& g, int minRank, int maxRank, size_t maxSize = 140000) {
    for (;;) {
        size_t n = bigSize(g, maxSize);
        Dims d(g.range(minRank, maxRank), 1);
        size_t rest = n;
        int main = g.range(0, int(d.size()) - 1), second = g.chance(0.5) ? g.range(0, int(d.size()) - 1) : main;
        for (int i = 0; i < int(d.size()); ++i) if (i != main) {
            d[i] = i == second ? int(std::pow(double(n), g.uni(0.2, 0.6))) : g.chance(0.4) ? 1 : g.range(1, 5);
            d[i] = std::max(1, std::min<int>(d[i], int(rest)));
            rest /= d[i];
        }
        d[main] = int(std::max<size_t>(rest, 1));
        if (prod(d) <= maxSize && prod(d) >= 200) return d;
    }
}
// randDims, and rarely a big shape
inline Dims anyDims(Rng& g, int minRank, int maxRank, int maxDim, size_t maxSize, double p = 0.004) { return g.chance(p) ? bigDims(g, minRank, maxRank) : randDims(g, minRank, maxRank, maxDim, maxSize); }
// sums of integers that stay exact in any order
template <class T> bool exactSums(const std::vector<T>& v, size_t limit) { for (T x : v) if (!(std::abs(double(x)) <= 16) || double(x) != std::floor(double(x))) return false; return limit < (size_t(1) << 24); }
inline bool broadcast(const Dims& a, const Dims& b, Dims& out) {
    out.assign(std::max(a.size(), b.size()), 1);
    for (size_t i = 0; i < out.size(); ++i) {
        int x = i < a.size() ? a[a.size() - 1 - i] : 1, y = i < b.size() ? b[b.size() - 1 - i] : 1;
        if (x != y && x != 1 && y != 1) return false;
        out[out.size() - 1 - i] = x == 1 ? y : x;
    }
    return true;
}
inline size_t bindex(const Dims& idx, const Dims& to) { // index of the element of a tensor of shape `to` shown at idx
    size_t f = 0, off = idx.size() - to.size();
    for (size_t i = 0; i < to.size(); ++i) f = f * to[i] + (to[i] == 1 ? 0 : idx[off + i]);
    return f;
}

// ---------------------------------------------------------------- values
template <class T> using Ten = smart_dnn::Tensor<T>;
template <class T> Ten<T> mk(const Dims& d, const std::vector<T>& v) { return Ten<T>(Shape(d), v.data()); }
template <class T> Dims dimsOf(const Ten<T>& t) { return t.getShape().getDimensions(); }
template <class T> std::vector<T> vals(const Ten<T>& t) { const T* p = t.getData().data(); return std::vector<T>(p, p + t.getShape().size()); }
template <class T> constexpr ld EPS = std::numeric_limits<T>::epsilon();
template <class T> constexpr ld TINY = std::is_integral<T>::value ? 0.0L : ld(std::numeric_limits<T>::min());
template <class T> const char* tname() { return std::is_same<T, float>::value ? "float" : std::is_same<T, double>::value ? "double" : "int"; }

enum Kind { INTS, UNIT, NORMAL, WIDE };
template <class T> T randVal(Rng& g, Kind k) {
    if (std::is_integral<T>::value || k == INTS) return T(g.range(-9, 9));
    if (k == UNIT) return T(g.uni(-1, 1));
    if (k == NORMAL) return T(g.normal() * 3);
    return T(g.uni(-1, 1) * std::pow(10.0, g.uni(-6, 6)));
}
inline Kind randKind(Rng& g) { return g.one({INTS, UNIT, NORMAL, WIDE}); }
template <class T> std::vector<T> randVec(Rng& g, size_t n, Kind k) { std::vector<T> v(n); for (T& x : v) x = randVal<T>(g, k); return v; }
template <class T> std::vector<T> distinctVec(size_t n, int base = 1) { std::vector<T> v(n); for (size_t i = 0; i < n; ++i) v[i] = T(base + int(i)); return v; }
template <class T> u64 hashV(const Dims& d, const std::vector<T>& v, u64 s = 0) {
    for (int x : d) s = mix(s ^ u64(x));
    for (size_t i = 0; i < v.size(); ++i) { double q = double(v[i]); u64 b; memcpy(&b, &q, 8); s = mix(s ^ b); }
    return s;
}
inline u64 hashS(const std::string& s) { return mix(std::hash<std::string>()(s)); }

inline bool close(ld got, ld want, ld tol) {
    if (std::isnan(want)) return std::isnan(got);
    if (std::isinf(want)) return got == want;
    return std::isfinite(got) && fabsl(got - want) <= tol;
}
// Compare a tensor with the wanted shape and values (tol per element)
template <class T> bool same(const std::string& key, const Ten<T>& t, const Dims& d, const std::vector<ld>& want, const std::vector<ld>& tol) {
    R.eval();
    if (dimsOf(t) != d) { R.fail(key + ":shape", cat("shape ", show(dimsOf(t)), " instead of ", show(d))); return false; }
    if (t.getShape().size() != want.size()) { R.fail(key + ":size", cat("size ", t.getShape().size(), " for shape ", show(d))); return false; }
    const T* p = t.getData().data();
    for (size_t i = 0; i < want.size(); ++i)
        if (!close(ld(p[i]), want[i], tol[i])) { R.fail(key + ":value", cat("element ", show(unravel(i, d)), " of ", show(d), " is ", double(p[i]), " instead of ", double(want[i]), " (tolerance ", double(tol[i]), ")")); return false; }
    return true;
}
template <class T> bool sameExact(const std::string& key, const Ten<T>& t, const Dims& d, const std::vector<T>& want) {
    R.eval();
    if (dimsOf(t) != d) { R.fail(key + ":shape", cat("shape ", show(dimsOf(t)), " instead of ", show(d))); return false; }
    if (t.getShape().size() != want.size()) { R.fail(key + ":size", cat("size ", t.getShape().size(), " for shape ", show(d))); return false; }
    const T* p = t.getData().data();
    for (size_t i = 0; i < want.size(); ++i)
        if (!(p[i] == want[i] || (p[i] != p[i] && want[i] != want[i]))) { R.fail(key + ":value", cat("element ", show(unravel(i, d)), " of ", show(d), " is ", double(p[i]), " instead of ", double(want[i]))); return false; }
    return true;
}
// Remembers a tensor's value, to see later that it was not changed
template <class T> struct Snap {
    const Ten<T>& t; Dims d; std::vector<T> v;
    explicit Snap(const Ten<T>& t) : t(t), d(dimsOf(t)), v(vals(t)) {}
    bool ok() const { return dimsOf(t) == d && t.getShape().size() == v.size() && memcmp(t.getData().data(), v.data(), v.size() * sizeof(T)) == 0; }
    void check(const std::string& key) const { R.eval(); if (!ok()) R.fail(key, cat("operand of shape ", show(d), " was changed")); }
};
} // namespace h
