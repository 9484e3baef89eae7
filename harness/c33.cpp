// C33: the same work alone, interleaved step by step with other work, repeated, over differently filled memory: bit for bit the same results.
#define LAYER_KINDS 7
#include "jobs.hpp"
#include <malloc.h>
#include <new>
static volatile unsigned char fillByte = 0xA5;
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); memset(p, fillByte, n); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t n) noexcept { if (p) memset(p, fillByte, n); free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
using namespace h;
struct Any { u64 result = 0; std::string error, name; virtual bool step() = 0; virtual ~Any() {} };
template <class T> struct Of : Any { Job<T> j; Of(u64 seed, const Shared<T>& s) : j(seed, s) { name = j.name; } bool step() override { bool m = j.step(); result = j.result; error = j.error; return m; } };
__attribute__((noinline)) static void smear(int byte) { volatile char b[24000]; for (size_t i = 0; i < sizeof b; ++i) b[i] = char(byte); }
int main(int argc, char** argv) {
    static NullBuf nb; std::cout.rdbuf(&nb);
    return mainLoop(argc, argv, [](Rng& g, u64) {
        auto byte = [&g] { fillByte = (unsigned char)g.one({0x00, 0xFF, 0x7F, 0x3F, 0xBF, 0x01, 0x40, 0xC1}); };
        fillByte = 0xA5;
        Shared<float> sf; Shared<double> sd; fill(g, sf); fill(g, sd);
        std::vector<Snap<float>> snf; for (auto& t : sf.t) snf.emplace_back(t);
        std::vector<Snap<double>> snd; for (auto& t : sd.t) snd.emplace_back(t);
        int n = g.range(1, 6); bool alike = g.chance(0.2); u64 s0 = g.next();
        std::vector<std::pair<u64, bool>> plan; for (int i = 0; i < n; ++i) plan.push_back({alike ? s0 : g.next(), alike ? s0 & 1 : g.chance(0.5)});
        auto make = [&](int i) -> std::unique_ptr<Any> { if (plan[i].second) return std::make_unique<Of<float>>(plan[i].first, sf); return std::make_unique<Of<double>>(plan[i].first, sd); };
        std::vector<std::vector<std::pair<u64, std::string>>> res(n); std::vector<std::string> names(n);
        std::vector<std::vector<char>> noise;
        auto disturb = [&] {
            if (g.chance(0.3)) byte();
            if (g.chance(0.3)) smear(g.range(-128, 127));
            if (g.chance(0.4)) { if (noise.size() > 30 || (g.chance(0.5) && !noise.empty())) noise.erase(noise.begin() + g.next() % noise.size()); else noise.emplace_back(g.range(1, 3000), char(g.range(-128, 127))); }
        };
        auto alone = [&] { for (int i = 0; i < n; ++i) { byte(); auto j = make(i); smear(g.range(-128, 127)); while (j->step()) {} res[i].push_back({j->result, j->error}); names[i] = j->name; R.event("alone"); } };
        auto together = [&] { // objects appear, work and disappear at random moments
            std::vector<std::unique_ptr<Any>> live(n), done; std::vector<int> todo; for (int i = 0; i < n; ++i) todo.push_back(i);
            g.shuffle(todo); u64 order = 0;
            std::vector<int> running;
            while (!todo.empty() || !running.empty()) {
                disturb();
                if (!todo.empty() && (running.empty() || g.chance(0.3))) { int i = todo.back(); todo.pop_back(); live[i] = make(i); running.push_back(i); continue; }
                size_t k = g.next() % running.size(); int i = running[k]; order = mix(order ^ i);
                R.event("steps");
                if (!live[i]->step()) { res[i].push_back({live[i]->result, live[i]->error}); names[i] = live[i]->name; running.erase(running.begin() + k); if (g.chance(0.5)) live[i].reset(); else done.push_back(std::move(live[i])); }
            }
            R.nontrivial(order ^ s0); R.event("interleavings");
        };
        bool first = g.chance(0.5); int extra = g.range(0, 2);
        if (first) together();
        alone();
        if (!first) together();
        for (int i = 0; i < extra; ++i) if (g.chance(0.5)) alone(); else together();
        std::string text; for (int i = 0; i < n; ++i) text += cat(names[i], plan[i].second ? "(float) " : " ");
        R.desc = cat(n, " jobs: ", text, first ? "interleaved first" : "alone first");
        for (int i = 0; i < n; ++i) {
            R.event("jobs-" + names[i]);
            for (size_t k = 1; k < res[i].size(); ++k) {
                R.eval();
                if (!res[i][k].second.empty() || !res[i][0].second.empty()) { if (res[i][k].second != res[i][0].second) R.fail(names[i] + ":exception", cat("'", res[i][0].second, "' once, '", res[i][k].second, "' in run ", k)); else R.fail(names[i] + ":unexpected-exception", res[i][0].second); break; }
                if (res[i][k].first != res[i][0].first) { R.fail(names[i] + ":result", cat("run ", k, " gives another result than run 0")); break; }
            }
        }
        for (auto& s : snf) s.check("shared-tensor-changed");
        for (auto& s : snd) s.check("shared-tensor-changed");
        if (alike && n > 1) R.event("same-work");
        R.sample(cat(n, " jobs"), R.desc); fillByte = 0xA5;
    });
}
