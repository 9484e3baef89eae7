// C09: fully connected layer
#include "layers.hpp"
using namespace h;
template <class T> void run(Rng& g) {
    bool big = g.chance(0.04);
    int in = big ? g.range(30, 130) : g.range(1, 9), out = big ? g.range(30, 130) : g.range(1, 9);
    int maxB = 9;
    if (g.chance(0.006)) { // one long side, or a large batch
        big = true;
        int which = g.range(0, 2);
        in = g.range(1, 12); out = g.range(1, 12);
        if (which == 0) in = int(bigSize(g, 5000)); else if (which == 1) out = int(bigSize(g, 5000)); else { maxB = int(bigSize(g, 3000)); }
        if (g.chance(0.3)) { in = g.range(200, 600); out = g.range(200, 600); maxB = 3; }
        R.event("very-wide-or-large-batch");
    }
    smart_dnn::FullyConnectedLayer<T> L(in, out);
    std::vector<T> w, b;
    R.desc = cat("FC ", tname<T>(), " ", in, "->", out);
    Kind kind = randKind(g);
    auto setParams = [&](bool set) {
        if (set) {
            w = randVec<T>(g, in * out, kind); b = randVec<T>(g, out, kind);
            L.setWeights(mk<T>({in, out}, w)); L.setBiases(mk<T>({1, out}, b));
            R.event("parameters-set");
        }
        Ten<T> gw = L.getWeights(), gb = L.getBiases();
        if (dimsOf(gw) != Dims{in, out} || dimsOf(gb) != Dims{1, out}) { R.fail("fc:parameter-shape", cat(show(dimsOf(gw)), show(dimsOf(gb)))); return false; }
        if (set) { sameExact("fc:set-weights", gw, {in, out}, w); sameExact("fc:set-biases", gb, {1, out}, b); }
        w = vals(gw); b = vals(gb);
        return true;
    };
    if (!setParams(g.chance(0.8))) return;
    int passes = big ? 1 : g.range(1, 5);
    for (int p = 0; p < passes; ++p) {
        if (p && g.chance(0.2) && !setParams(true)) return;
        bool vec = g.chance(0.25);
        int B = vec ? 1 : maxB > 9 ? maxB - g.range(0, 1) : g.chance(0.2) ? 1 : g.range(1, maxB);
        Dims dx = vec ? Dims{in} : Dims{B, in}, dy = vec ? Dims{out} : Dims{B, out};
        R.event(vec ? "unbatched" : "batched");
        auto x = randVec<T>(g, B * in, kind);
        R.desc += cat(" forward", show(dx));
        Ten<T> X = mk<T>(dx, x);
        Snap<T> sx(X);
        std::vector<ld> want(B * out), tol(B * out);
        for (int n = 0; n < B; ++n) for (int o = 0; o < out; ++o) {
            ld s = b[o], q = fabsl(ld(b[o]));
            for (int i = 0; i < in; ++i) { ld t = ld(x[n * in + i]) * w[i * out + o]; s += t; q += fabsl(t); }
            want[n * out + o] = s; tol[n * out + o] = (in + 6) * EPS<T> * q + TINY<T> * in;
        }
        same("fc:forward", L.forward(X), dy, want, tol);
        sx.check("fc:input-changed");
        R.nontrivial(hashV(dx, x, hashV({in, out}, w)));
        if (p == 0) R.sample(vec ? "vector" : "batch", cat(R.desc, " first output ", double(want[0])));
        if (g.chance(0.2)) { // rejected inputs leave the layer with the last accepted one
            for (int t = 0; t < 2; ++t) {
                int wrong = in + g.one({1, 2, -1}); if (wrong < 1) wrong = in + 3;
                Ten<T> bad(g.chance(0.5) ? Shape({wrong}) : Shape({g.range(1, 5), wrong}), T(1));
                R.event("wrong-widths");
                mustThrow("fc:wrong-width", cat(show(dimsOf(bad)), " for width ", in), [&] { L.forward(bad); });
            }
        }
        int backs = g.chance(0.2) ? 2 : g.chance(0.1) ? 0 : 1;
        for (int k = 0; k < backs; ++k) {
            auto u = randVec<T>(g, B * out, kind);
            Ten<T> U = mk<T>(dy, u);
            Snap<T> su(U);
            R.event(k ? "second-backward" : "backward");
            std::vector<ld> gx(B * in), tx(B * in), gw(in * out), tw(in * out), gb(out), tb(out);
            for (int n = 0; n < B; ++n) for (int i = 0; i < in; ++i) { ld q = 0; for (int o = 0; o < out; ++o) { ld t = ld(u[n * out + o]) * w[i * out + o]; gx[n * in + i] += t; q += fabsl(t); } tx[n * in + i] = (out + 6) * EPS<T> * q + TINY<T> * out; }
            for (int i = 0; i < in; ++i) for (int o = 0; o < out; ++o) { ld q = 0; for (int n = 0; n < B; ++n) { ld t = ld(x[n * in + i]) * u[n * out + o]; gw[i * out + o] += t; q += fabsl(t); } tw[i * out + o] = (B + 6) * EPS<T> * q + TINY<T> * B; }
            for (int o = 0; o < out; ++o) { ld q = 0; for (int n = 0; n < B; ++n) { gb[o] += u[n * out + o]; q += fabsl(ld(u[n * out + o])); } tb[o] = (B + 6) * EPS<T> * q; }
            same("fc:input-gradient", L.backward(U), dx, gx, tx);
            same("fc:weight-gradient", L.getWeightGradients(), {in, out}, gw, tw);
            same("fc:bias-gradient", L.getBiasGradients(), {1, out}, gb, tb);
            su.check("fc:gradient-changed");
            Spy<T> spy; // the update gets the same gradients and parameters
            L.updateWeights(spy);
            R.eval();
            if (spy.grads.size() != 2 || spy.calls != 1) R.fail("fc:update-count", "");
            else {
                int iw = spy.grads[0].getShape().size() == size_t(in * out) && dimsOf(spy.params[0]) == Dims{in, out} ? 0 : 1;
                if (in == 1) iw = vals(spy.params[0]) == w ? 0 : 1; // same shape: told apart by value
                same("fc:update-weight-gradient", spy.grads[iw], {in, out}, gw, tw);
                same("fc:update-bias-gradient", spy.grads[1 - iw], {1, out}, gb, tb);
                sameExact("fc:update-weights", spy.params[iw], {in, out}, w);
                sameExact("fc:update-biases", spy.params[1 - iw], {1, out}, b);
            }
            sameExact("fc:weights-changed", L.getWeights(), {in, out}, w);
        }
    }
}
int main(int c, char** v) { return mainLoop(c, v, [](Rng& g, u64) { g.chance(0.5) ? run<float>(g) : run<double>(g); }); }
