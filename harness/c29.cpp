// C29: every parallelised operation with several threads against the serial build.
#define NS omp_build
#include "c29prog.hpp"
#ifdef SHIM
namespace gomp { extern int wanted; extern std::atomic<unsigned long long> regions, threadsRun, order; extern std::atomic<unsigned> noise; }
#endif
extern "C" void omp_set_num_threads(int);
void serialProgram(h::u64 seed, std::vector<Out>& out, bool dbl, int scale);
struct NullBuf : std::streambuf { int overflow(int c) override { return c; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };
#ifndef _OPENMP
#error compile with OpenMP
#endif
int main(int argc, char** argv) {
    static NullBuf nb; std::cout.rdbuf(&nb);
    static const int SCALE = getenv("SCALE") ? atoi(getenv("SCALE")) : 400;
    return h::mainLoop(argc, argv, [](h::Rng& g, h::u64) {
        using namespace h;
        bool dbl = g.chance(0.5); u64 seed = g.next(); int n = g.chance(0.02) ? g.range(9, 80) : g.range(2, 8); omp_set_num_threads(n);
#ifdef SHIM
        gomp::noise = unsigned(g.next()); gomp::order = 0; auto r0 = gomp::regions.load(), t0 = gomp::threadsRun.load();
#endif
        R.desc = cat("program ", seed, " ", dbl ? "double" : "float", " threads ", n);
        std::vector<Out> a, b; serialProgram(seed, b, dbl, SCALE);
        if (dbl) omp_build::program<double>(seed, a, SCALE); else omp_build::program<float>(seed, a, SCALE);
        if (a.size() != b.size()) { R.fail("results", cat(a.size(), " results, serially ", b.size())); return; }
        for (size_t i = 0; i < a.size(); ++i) {
            R.eval(); R.event(a[i].name); R.desc += " " + a[i].name + show(a[i].dims);
            if (a[i].dims != b[i].dims) { R.fail(a[i].name + ":shape", cat(show(a[i].dims), ", serially ", show(b[i].dims))); continue; }
            for (size_t j = 0; j < a[i].v.size(); ++j) {
                double p = a[i].v[j], q = b[i].v[j], m = std::max({1.0, std::fabs(p), std::fabs(q)});
                if (!(p == q || (p != p && q != q) || std::fabs(p - q) <= a[i].tol[0] * m)) { R.fail(a[i].name + ":value", cat("element ", j, " is ", p, ", serially ", q)); break; }
            }
            R.sample(a[i].name, R.desc);
        }
        R.event("programs"); R.event(n > 8 ? std::string("many-threads") : cat("threads-", n));
#ifdef SHIM
        R.event("parallel-regions", gomp::regions - r0); R.event("region-threads", gomp::threadsRun - t0);
        R.nontrivial(mix(seed) ^ gomp::order.load()); // which threads began in which order
#else
        R.event("libgomp-programs"); R.nontrivial(R.desc);
#endif
    });
}
