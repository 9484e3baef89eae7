// C39: one build of the library: a random program or job, its results given to the caller one by one.
#define JOB_LOG
#define NS one_build
#include "jobs.hpp"
#include "c29prog.hpp"
using namespace h;
template <class T> static void go(u64 seed, int scale, void (*put)(void*, double), void (*name)(void*, const char*), void* ctx) {
    Rng g(seed);
    if (g.chance(0.5)) {
        std::vector<Out> o; one_build::program<T>(g.next(), o, scale);
        for (auto& x : o) { name(ctx, x.name.c_str()); for (int d : x.dims) put(ctx, d); for (double v : x.v) put(ctx, v); }
    } else {
        Shared<T> sh; fill(g, sh); Job<T> j(g.next(), sh); name(ctx, j.name.c_str());
        j.work(); for (double v : j.H.log) put(ctx, v); put(ctx, j.error.empty() ? 0 : 1);
        for (auto& t : sh.t) for (T v : vals(t)) put(ctx, v);
    }
}
extern "C" __attribute__((visibility("default"))) void job(unsigned long long seed, int dbl, int scale, void (*put)(void*, double), void (*name)(void*, const char*), void* ctx) {
    static NullBuf nb; auto* old = std::cout.rdbuf(&nb);
    if (dbl) go<double>(seed, scale, put, name, ctx); else go<float>(seed, scale, put, name, ctx);
    std::cout.rdbuf(old);
}
