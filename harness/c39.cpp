// C39: the same work in every build configuration of the library.
#include "common.hpp"
#include <dlfcn.h>
using namespace h;
using JobFn = void (*)(unsigned long long, int, int, void (*)(void*, double), void (*)(void*, const char*), void*);
struct Log { std::vector<double> v; std::vector<std::pair<size_t, std::string>> names; };
int main(int argc, char** argv) {
    std::vector<std::pair<std::string, JobFn>> builds; std::istringstream names(getenv("SOS")); std::string n;
    while (names >> n) {
        void* so = dlopen((std::string(getenv("SODIR")) + "/" + n + ".so").c_str(), RTLD_NOW | RTLD_LOCAL);
        if (!so) { fprintf(stderr, "%s\n", dlerror()); return 2; }
        builds.push_back({n, JobFn(dlsym(so, "job"))});
    }
    return mainLoop(argc, argv, [&](Rng& g, u64) {
        u64 seed = g.next(); int dbl = g.chance(0.5), scale = g.chance(0.05) ? 4000 : 400;
        auto run = [&](JobFn f) {
            Log l; f(seed, dbl, scale, [](void* c, double x) { ((Log*)c)->v.push_back(x); }, [](void* c, const char* s) { auto* l = (Log*)c; l->names.push_back({l->v.size(), s}); }, &l); return l;
        };
        R.desc = cat("job ", seed, dbl ? " double" : " float"); Log a = run(builds[0].second); R.desc += " " + (a.names.empty() ? "" : a.names[0].second);
        for (auto& x : a.names) R.event(x.second);
        R.nontrivial(mix(seed)); R.sample(a.names.empty() ? "none" : a.names[0].second, R.desc);
        for (size_t b = 1; b < builds.size(); ++b) {
            std::string d = R.desc; R.desc += " in " + builds[b].first; Log x = run(builds[b].second); R.event(builds[b].first); R.eval(x.v.size() + 1); bool bits = true;
            if (x.v.size() != a.v.size()) { R.fail(builds[b].first + ":results", cat(x.v.size(), " numbers, otherwise ", a.v.size())); R.desc = d; continue; }
            for (size_t i = 0; i < x.v.size(); ++i) {
                double p = a.v[i], q = x.v[i]; if (p == q || (p != p && q != q)) continue;
                bits = false; double m = std::max({1.0, std::fabs(p), std::fabs(q)});
                if (!(std::fabs(p - q) <= (dbl ? 1e-9 : 1e-3) * m)) { std::string what; for (auto& y : a.names) if (y.first <= i) what = y.second; R.fail(builds[b].first + ":" + what, cat("number ", i, " is ", q, ", otherwise ", p)); break; }
            }
            R.event(bits ? "identical" : "within-rounding"); R.desc = d;
        }
    });
}
