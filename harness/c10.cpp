// C10: 2D convolution
#include "layers.hpp"
using namespace h;
template <class T> void run(Rng& g) {
    using Conv = smart_dnn::Conv2DLayer<T>;
    int ic = g.range(1, 3), oc = g.range(1, 3), kh = g.range(1, 4), kw = g.range(1, 4), st = g.one({1, 1, 2, 3, 4}), pad = g.one({0, 0, 1, 2, 3}), dil = g.one({1, 1, 2, 3});
    const bool big = g.chance(0.012);
    if (big) { ic = g.one({1, 2, 3, 8, 17, 33, 64}); oc = g.one({1, 2, 5, 8, 16, 33, 65}); kh = g.range(1, g.chance(0.5) ? 7 : 20); kw = g.range(1, g.chance(0.5) ? 7 : 20); st = g.range(1, 5); pad = g.range(0, 5); dil = g.range(1, 4); R.event("large-geometries"); if (kh > 7 || kw > 7) { ic = g.range(1, 3); oc = g.range(1, 3); R.event("kernels-beyond-7"); } }
    bool square = g.chance(0.25);
    if (square) { kw = kh; st = 1; pad = 0; dil = 1; }
    std::unique_ptr<Conv> L(square ? new Conv(ic, oc, kh) : new Conv(ic, oc, kh, kw, st, pad, dil));
    int passes = g.range(1, 3);
    Kind kind = randKind(g);
    R.desc = cat("conv ", tname<T>(), " ", ic, "->", oc, " kernel ", kh, "x", kw, " stride ", st, " padding ", pad, " dilation ", dil);
    std::vector<T> w, b;
    Dims dw{oc, ic, kh, kw}, dbv{oc, 1};
    if (g.chance(0.85)) {
        w = randVec<T>(g, prod(dw), kind); b = randVec<T>(g, oc, kind);
        L->setWeights(mk<T>(dw, w)); L->setBiases(mk<T>(dbv, b));
    }
    {
        Ten<T> gw = L->getWeights(), gb = L->getBiases();
        if (dimsOf(gw) != dw || dimsOf(gb) != dbv) { R.fail("conv:parameter-shape", cat(show(dimsOf(gw)), show(dimsOf(gb)))); return; }
        if (!w.empty()) { sameExact("conv:set-weights", gw, dw, w); sameExact("conv:set-biases", gb, dbv, b); }
        w = vals(gw); b = vals(gb);
    }
    for (int p = 0; p < passes; ++p) {
        int N = g.range(1, 3), H = g.range(1, 8), W = g.range(1, 8);
        if (big) { // one or two sizes beyond any plausible limit, the work bounded
            double work; int tries = 0;
            do { N = g.one({1, 1, 2, 5, 33}); H = g.one({3, 9, 16, 28, 33, 64}); W = g.one({3, 9, 16, 28, 33, 130}); work = double(N) * oc * ic * kh * kw * H * W / st / st; } while (work > 80000 && ++tries < 200);
            if (work > 80000) { N = 1; H = kh * dil + 1; W = kw * dil; }
        }
        auto outSize = [&](int n, int k) { int s = n + 2 * pad - dil * (k - 1) - 1; return s < 0 ? 0 : s / st + 1; };
        int OH = outSize(H, kh), OW = outSize(W, kw);
        Dims dx{N, ic, H, W}, dy{N, oc, OH, OW};
        auto x = randVec<T>(g, prod(dx), kind);
        Ten<T> X = mk<T>(dx, x);
        if (!OH || !OW) { R.event("kernel-too-large"); mustThrow("conv:kernel-too-large", cat(R.desc, " on ", show(dx)), [&] { L->forward(X); }); continue; }
        std::string d0 = R.desc;
        R.desc += cat(" on ", show(dx));
        R.nontrivial(hashV(dx, x, hashV(dw, w, hashS(R.desc))));
        if (kh != kw) R.event("rectangular-kernel"); if (H != W) R.event("rectangular-image");
        if (st > 1) R.event("strides"); if (pad) R.event("paddings"); if (dil > 1) R.event("dilations"); if (N > 1) R.event("batches"); if (ic > 1) R.event("input-channels"); if (oc > 1) R.event("output-channels");
        if (st > 1 && ((H + 2 * pad - dil * (kh - 1) - 1) % st)) R.event("ragged-stride");
        Snap<T> sx(X);
        auto u = randVec<T>(g, prod(dy), kind);
        std::vector<ld> y(prod(dy)), qy(prod(dy)), gx(prod(dx)), qx(prod(dx)), gw(prod(dw)), qw(prod(dw)), gb(oc), qb(oc);
        for (int n = 0; n < N; ++n) for (int o = 0; o < oc; ++o) for (int i = 0; i < OH; ++i) for (int j = 0; j < OW; ++j) {
            size_t iy = ravel({n, o, i, j}, dy);
            y[iy] = b[o]; qy[iy] = fabsl(ld(b[o]));
            gb[o] += u[iy]; qb[o] += fabsl(ld(u[iy]));
            for (int c = 0; c < ic; ++c) for (int a = 0; a < kh; ++a) for (int e = 0; e < kw; ++e) {
                int r = i * st + a * dil - pad, s = j * st + e * dil - pad;
                if (r < 0 || r >= H || s < 0 || s >= W) continue;
                size_t ix = ravel({n, c, r, s}, dx), iw = ravel({o, c, a, e}, dw);
                ld t = ld(x[ix]) * w[iw]; y[iy] += t; qy[iy] += fabsl(t);
                t = ld(u[iy]) * w[iw]; gx[ix] += t; qx[ix] += fabsl(t);
                t = ld(u[iy]) * x[ix]; gw[iw] += t; qw[iw] += fabsl(t);
            }
        }
        auto tolOf = [&](const std::vector<ld>& q, size_t n) { std::vector<ld> t; for (ld z : q) t.push_back(kind == INTS && z < 1e6L ? 0.25L : (n + 6) * EPS<T> * z + TINY<T> * n); return t; };
        if (kind == INTS) R.event("exact-sums");
        same("conv:forward", L->forward(X), dy, y, tolOf(qy, ic * kh * kw));
        sx.check("conv:input-changed");
        Ten<T> U = mk<T>(dy, u);
        Snap<T> su(U);
        for (int k = 0; k < (g.chance(0.2) ? 2 : 1); ++k) {
            same("conv:input-gradient", L->backward(U), dx, gx, tolOf(qx, oc * kh * kw));
            same("conv:weight-gradient", L->getWeightGradients(), dw, gw, tolOf(qw, N * OH * OW));
            same("conv:bias-gradient", L->getBiasGradients(), dbv, gb, tolOf(qb, N * OH * OW));
        }
        R.event("passes");
        su.check("conv:gradient-changed");
        sameExact("conv:weights-changed", L->getWeights(), dw, w);
        R.sample(square ? "square" : st > 1 ? "strided" : dil > 1 ? "dilated" : pad ? "padded" : "plain", cat(R.desc, " -> ", show(dy), " first output ", double(y[0])));
        R.desc = d0;
    }
    if (g.chance(0.2)) {
        R.event("invalid-geometry");
        mustThrow("conv:stride", "stride 0", [&] { Conv c(ic, oc, kh, kw, 0, pad, dil); });
        mustThrow("conv:stride", "negative stride", [&] { Conv c(ic, oc, kh, kw, -g.range(1, 3), pad, dil); });
        mustThrow("conv:dilation", "dilation 0", [&] { Conv c(ic, oc, kh, kw, st, pad, 0); });
        mustThrow("conv:dilation", "negative dilation", [&] { Conv c(ic, oc, kh, kw, st, pad, -g.range(1, 3)); });
        mustThrow("conv:padding", "negative padding", [&] { Conv c(ic, oc, kh, kw, st, -g.range(1, 3), dil); });
        mustThrow("conv:kernel", "kernel height 0", [&] { Conv c(ic, oc, 0, kw, st, pad, dil); });
        mustThrow("conv:kernel", "kernel width 0", [&] { Conv c(ic, oc, kh, 0, st, pad, dil); });
        mustThrow("conv:kernel", "negative kernel", [&] { Conv c(ic, oc, -kh, -kw, st, pad, dil); });
        mustThrow("conv:kernel", "square kernel 0", [&] { Conv c(ic, oc, 0); });
        mustThrow("conv:channels", "no input channels", [&] { Conv c(0, oc, kh, kw, st, pad, dil); });
        mustThrow("conv:channels", "no output channels", [&] { Conv c(ic, 0, kh, kw, st, pad, dil); });
    }
}
int main(int c, char** v) { return mainLoop(c, v, [](Rng& g, u64) { g.chance(0.5) ? run<float>(g) : run<double>(g); }); }
