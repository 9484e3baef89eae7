// A small OpenMP run time on pthreads: unlike libgomp, ThreadSanitizer understands how its threads synchronise.
// Threads are started in random order with random delays, so that every run explores other schedules.
#include <atomic>
#include <condition_variable>
#include <cstdint>
#include <cstdlib>
#include <mutex>
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
#include <vector>
typedef unsigned long long ull;
namespace gomp {
struct Team {
    int n; std::mutex m; std::condition_variable cv; int waiting = 0, gen = 0;
    std::mutex loops; // work sharing: one record per loop construct met by the team
    struct Loop { long long next, end, incr, chunk; ull unext, uend, uincr, uchunk; bool up; int left; };
    std::vector<Loop*> list; std::vector<int> at; std::vector<int> singles; std::vector<int> singleAt; std::mutex crit;
};
int wanted = 4;                      // number of threads of the next regions
std::atomic<ull> regions{0}, threadsRun{0}, order{0};
std::atomic<unsigned> noise{1};
static thread_local Team* team = nullptr; static thread_local int id = 0;
static std::mutex global;
struct Start { void (*fn)(void*); void* data; Team* t; int id; };
static unsigned rnd() { unsigned x = noise.fetch_add(0x9e3779b9u, std::memory_order_relaxed); x ^= x >> 16; x *= 0x7feb352du; x ^= x >> 15; x *= 0x846ca68bu; return x ^ (x >> 16); }
static void jitter() { unsigned r = rnd() % 16; if (r < 4) sched_yield(); else if (r == 4) usleep(rnd() % 60); else if (r < 8) for (volatile unsigned i = 0; i < rnd() % 400; ++i) {} }
static void* run(void* p) {
    Start s = *(Start*)p; Team* old = team; int oldId = id;
    team = s.t; id = s.id; jitter();
    order.store(order.load(std::memory_order_relaxed) * 31 + unsigned(s.id) + 1, std::memory_order_relaxed); // what ran when: evidence only
    s.fn(s.data);
    team = old; id = oldId; return nullptr;
}
static void parallel(void (*fn)(void*), void* data, unsigned n, Team& t) {
    if (team) n = 1; // nested regions have one thread
    else if (!n) n = wanted;
    t.n = n; t.at.assign(n, 0); t.singleAt.assign(n, 0);
    regions.fetch_add(1, std::memory_order_relaxed); threadsRun.fetch_add(n, std::memory_order_relaxed);
    std::vector<Start> st(n); std::vector<pthread_t> th(n); std::vector<int> o;
    for (unsigned i = 1; i < n; ++i) o.push_back(i);
    for (size_t i = o.size(); i > 1; --i) std::swap(o[i - 1], o[rnd() % i]);
    for (unsigned i = 0; i < n; ++i) st[i] = {fn, data, &t, int(i)};
    for (int i : o) if (pthread_create(&th[i], nullptr, run, &st[i])) abort();
    run(&st[0]);
    for (int i : o) pthread_join(th[i], nullptr);
    for (auto* l : t.list) delete l;
}
static Team::Loop* enter(Team* t, bool& fresh) { // t->loops held
    int k = t->at[id]++; fresh = size_t(k) >= t->list.size();
    if (fresh) t->list.push_back(new Team::Loop{});
    return t->list[k];
}
static Team::Loop* current() { return team->list[team->at[id] - 1]; }
static Team solo{}; // for work sharing outside a region
static Team* here() { if (!team) { static thread_local Team* one = nullptr; if (!one) { one = new Team; one->n = 1; one->at.assign(1, 0); one->singleAt.assign(1, 0); } team = one; } return team; }
static bool grab(long* a, long* b) { Team* t = team; jitter(); std::lock_guard<std::mutex> l(t->loops); auto* p = current(); if (p->incr > 0 ? p->next >= p->end : p->next <= p->end) return false; *a = p->next; long long e = p->next + p->incr * p->chunk; if (p->incr > 0 ? e > p->end : e < p->end) e = p->end; p->next = e; *b = e; return true; }
static bool ugrab(ull* a, ull* b) { Team* t = team; jitter(); std::lock_guard<std::mutex> l(t->loops); auto* p = current(); if (p->up ? p->unext >= p->uend : p->unext <= p->uend) return false; *a = p->unext; ull left = p->up ? (p->uend - p->unext + p->uincr - 1) / p->uincr : (p->unext - p->uend - p->uincr - 1) / -p->uincr; ull c = p->uchunk < left ? p->uchunk : left; ull e = c == left ? p->uend : p->unext + c * p->uincr; p->unext = e; *b = e; return true; }
static void barrier() { Team* t = team; if (!t || t->n == 1) return; std::unique_lock<std::mutex> l(t->m); int g = t->gen; if (++t->waiting == t->n) { t->waiting = 0; ++t->gen; t->cv.notify_all(); } else t->cv.wait(l, [&] { return t->gen != g; }); }
static bool start(long s, long e, long i, long c, long* a, long* b) { { Team* t = here(); std::lock_guard<std::mutex> l(t->loops); bool f; auto* p = enter(t, f); if (f) { p->next = s; p->end = e; p->incr = i; p->chunk = c < 1 ? 1 : c; } } return grab(a, b); }
static bool ustart(bool up, ull s, ull e, ull i, ull c, ull* a, ull* b) { { Team* t = here(); std::lock_guard<std::mutex> l(t->loops); bool f; auto* p = enter(t, f); if (f) { p->unext = s; p->uend = e; p->uincr = i; p->uchunk = c < 1 ? 1 : c; p->up = up; } } return ugrab(a, b); }
static void ploop(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c) {
    Team t; auto* p = new Team::Loop{}; p->next = s; p->end = e; p->incr = i; p->chunk = c < 1 ? 1 : c; t.list.push_back(p);
    struct W { void (*fn)(void*); void* d; } w{fn, d};
    parallel([](void* q) { team->at[id] = 1; auto* w = (W*)q; w->fn(w->d); }, &w, n, t);
}
} // namespace gomp
using namespace gomp;
extern "C" {
void GOMP_parallel(void (*fn)(void*), void* d, unsigned n, unsigned) { Team t; gomp::parallel(fn, d, n, t); }
void GOMP_barrier() { gomp::barrier(); }
void GOMP_critical_start() { gomp::global.lock(); }
void GOMP_critical_end() { gomp::global.unlock(); }
void GOMP_critical_name_start(void**) { gomp::global.lock(); }
void GOMP_critical_name_end(void**) { gomp::global.unlock(); }
static std::mutex atom;
void GOMP_atomic_start() { atom.lock(); }
void GOMP_atomic_end() { atom.unlock(); }
bool GOMP_single_start() { Team* t = gomp::here(); std::lock_guard<std::mutex> l(t->loops); int k = t->singleAt[gomp::id]++; if (size_t(k) < t->singles.size()) return false; t->singles.push_back(1); return true; }
void GOMP_loop_end() { gomp::barrier(); }
void GOMP_loop_end_nowait() {}
#define LOOP(kind) \
bool GOMP_loop_##kind##_start(long s, long e, long i, long c, long* a, long* b) { return gomp::start(s, e, i, c, a, b); } \
bool GOMP_loop_##kind##_next(long* a, long* b) { return gomp::grab(a, b); } \
bool GOMP_loop_ull_##kind##_start(bool up, ull s, ull e, ull i, ull c, ull* a, ull* b) { return gomp::ustart(up, s, e, i, c, a, b); } \
bool GOMP_loop_ull_##kind##_next(ull* a, ull* b) { return gomp::ugrab(a, b); } \
void GOMP_parallel_loop_##kind(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { gomp::ploop(fn, d, n, s, e, i, c); }
LOOP(static) LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
#define LOOPR(kind) \
bool GOMP_loop_##kind##_start(long s, long e, long i, long* a, long* b) { return gomp::start(s, e, i, 1, a, b); } \
bool GOMP_loop_##kind##_next(long* a, long* b) { return gomp::grab(a, b); } \
bool GOMP_loop_ull_##kind##_start(bool up, ull s, ull e, ull i, ull* a, ull* b) { return gomp::ustart(up, s, e, i, 1, a, b); } \
bool GOMP_loop_ull_##kind##_next(ull* a, ull* b) { return gomp::ugrab(a, b); } \
void GOMP_parallel_loop_##kind(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { gomp::ploop(fn, d, n, s, e, i, 1); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
int omp_get_thread_num() { return gomp::team ? gomp::id : 0; }
int omp_get_num_threads() { return gomp::team ? gomp::team->n : 1; }
int omp_get_max_threads() { return gomp::wanted; }
int omp_get_num_procs() { return 8; }
int omp_in_parallel() { return gomp::team && gomp::team->n > 1; }
void omp_set_num_threads(int n) { gomp::wanted = n < 1 ? 1 : n; }
double omp_get_wtime() { return 0; }
int omp_get_level() { return gomp::team ? 1 : 0; }
}
