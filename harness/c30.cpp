// C30: threads with objects of their own, sharing tensors and activations they only read, against the same work done alone.
#include <unistd.h>
#define KINDS 6
#include "jobs.hpp"
#include <pthread.h>
#include <sched.h>
using namespace h;
struct Start { std::function<void()> f; pthread_barrier_t* b; int spin; };
static void* entry(void* p) { auto* s = (Start*)p; pthread_barrier_wait(s->b); for (volatile int i = 0; i < s->spin; ++i) {} if (s->spin % 3 == 0) sched_yield(); s->f(); return nullptr; }
template <class T> void run(Rng& g) {
    Shared<T> sh; fill(g, sh);
    int n = g.range(2, 6); bool alike = g.chance(0.3); u64 s0 = g.next(); std::vector<u64> seeds; for (int i = 0; i < n; ++i) seeds.push_back(alike ? s0 : g.next());
    std::vector<std::unique_ptr<Job<T>>> alone, jobs; std::string text;
    for (u64 s : seeds) jobs.push_back(std::make_unique<Job<T>>(s, sh));
    for (u64 s : seeds) alone.push_back(std::make_unique<Job<T>>(s, sh));
    for (auto& j : jobs) { text += j->name + " "; R.event("jobs-" + j->name); }
    R.desc = cat(tname<T>(), " ", n, " threads: ", text, " seed ", s0);
    std::vector<Snap<T>> snaps; for (auto& t : sh.t) snaps.emplace_back(t);
    // concurrently first: a race in initialising something shared happens only once per process
    pthread_barrier_t b; pthread_barrier_init(&b, nullptr, n); std::vector<Start> st(n); std::vector<pthread_t> th(n);
    for (int i = 0; i < n; ++i) st[i] = {[&jobs, i] { jobs[i]->work(); }, &b, g.range(0, 2000)};
    for (int i = 0; i < n; ++i) if (pthread_create(&th[i], nullptr, entry, &st[i])) { fprintf(stderr, "no thread\n"); exit(2); }
    for (int i = 0; i < n; ++i) pthread_join(th[i], nullptr);
    pthread_barrier_destroy(&b);
    for (auto& j : alone) j->work();
    for (int i = 0; i < n; ++i) {
        R.eval();
        if (jobs[i]->error != alone[i]->error) R.fail(jobs[i]->name + ":exception", cat("'", jobs[i]->error, "' beside other threads, '", alone[i]->error, "' alone"));
        else if (!alone[i]->error.empty()) R.fail(jobs[i]->name + ":unexpected-exception", alone[i]->error);
        else if (jobs[i]->result != alone[i]->result) R.fail(jobs[i]->name + ":result", "another result beside other threads than alone");
    }
    for (auto& s : snaps) s.check("shared-tensor-changed");
    R.event("threads", n); R.event(cat("groups-of-", n)); if (alike) R.event("same-work");
    R.sample(cat("group of ", n), R.desc); R.nontrivial(R.desc);
}
int main(int argc, char** argv) { static NullBuf nb; std::cout.rdbuf(&nb); makeMnist(); atexit(dropMnist); return mainLoop(argc, argv, [](Rng& g, u64) { if (g.chance(0.5)) run<float>(g); else run<double>(g); }); }
