// Random stacks of library layers
#pragma once
#include "layers.hpp"
#include <iostream>
#include "smart_dnn/RandomEngine.hpp"
#include "smart_dnn/SmartDNN.hpp"
#include "smart_dnn/Loss/MSELoss.hpp"
#include "smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp"
namespace h {
struct Quiet { // swallows standard output
    std::ostringstream o; std::streambuf* old;
    Quiet() : old(std::cout.rdbuf(o.rdbuf())) {}
    ~Quiet() { std::cout.rdbuf(old); }
};
struct LayerSpec { std::string kind; std::vector<int> a; double r = 0; };
struct ModelSpec {
    std::vector<LayerSpec> layers; Dims in, out; bool cce = false;
    std::string text() const {
        std::ostringstream o; o << show(in) << " ";
        for (auto& l : layers) { o << l.kind; if (!l.a.empty()) o << show(l.a); if (l.kind == "dropout") o << l.r; o << " "; }
        o << (cce ? "cce" : "mse"); return o.str();
    }
    bool has(const std::string& k) const { for (auto& l : layers) if (l.kind == k) return true; return false; }
};
struct ModelLimits { bool dropout = true, unbatched = true, image = true, bn = true, softmaxInside = true, tail = false; int maxBatch = 4; };
inline ModelSpec randomModel(Rng& g, ModelLimits q = {}) {
    ModelSpec m; m.cce = g.chance(0.4);
    Dims d;
    auto act = [&](bool soft) { m.layers.push_back({actNames[soft && d.size() > 1 && q.softmaxInside && g.chance(0.1) ? 6 : g.range(0, 5)], {}}); };
    bool image = q.image && g.chance(0.45);
    if (image) {
        d = {g.range(1, std::min(3, q.maxBatch)), g.range(1, 2), g.range(4, 7), g.range(4, 7)}; m.in = d;
        int n = g.range(1, 3);
        for (int i = 0; i < n; ++i) {
            switch (g.range(0, 5)) {
            case 0: case 1: {
                int kh = g.range(1, 3), kw = g.range(1, 3), st = g.range(1, 2), pad = g.range(0, 1), dil = g.range(1, 2), oc = g.range(1, 3);
                int oh = (d[2] + 2 * pad - dil * (kh - 1) - 1), ow = (d[3] + 2 * pad - dil * (kw - 1) - 1);
                if (oh < 0 || ow < 0) continue;
                m.layers.push_back({"conv", {d[1], oc, kh, kw, st, pad, dil}}); d = {d[0], oc, oh / st + 1, ow / st + 1}; break; }
            case 2: if (q.bn) m.layers.push_back({"bn", {d[1]}}); break;
            case 3: {
                int p = g.range(1, 2), st = g.range(1, 2), pad = g.chance(0.3) ? p - 1 : 0; int oh = d[2] + 2 * pad - p, ow = d[3] + 2 * pad - p;
                if (oh < 0 || ow < 0) continue;
                m.layers.push_back({"pool", {p, st, pad}}); d = {d[0], d[1], oh / st + 1, ow / st + 1}; break; }
            default: act(true);
            }
        }
        m.layers.push_back({"flatten", {}}); d = {d[0], d[1] * d[2] * d[3]};
    } else { d = {g.range(1, q.maxBatch), g.range(1, 5)}; if (q.unbatched && !m.cce && g.chance(0.3)) d = {d[1]}; m.in = d; }
    int n = g.range(image ? 0 : 1, 3), width = d.back();
    for (int i = 0; i < n; ++i) {
        switch (g.range(0, 4)) {
        case 0: case 1: { int o = g.range(1, 5); m.layers.push_back({"fc", {width, o}}); width = o; break; }
        case 2: if (q.bn && d.size() == 2) { m.layers.push_back({"bn", {width}}); } break;
        case 3: if (q.dropout && g.chance(0.5)) { m.layers.push_back({"dropout", {}, g.one({0.2, 0.5})}); } break;
        default: act(true);
        }
    }
    int o = g.range(m.cce ? 2 : 1, 4);
    m.layers.push_back({"fc", {width, o}});
    if (m.cce) m.layers.push_back({g.chance(0.7) ? "softmax" : "sigmoid", {}}); else if (g.chance(0.4)) act(true);
    if (q.tail && !m.cce && g.chance(0.35)) { // a layer that depends on the mode at the very end, possibly alone
        if (g.chance(0.2) && !image) { m.layers.clear(); o = width = m.in.back(); }
        if (q.dropout && (d.size() != 2 || !q.bn || g.chance(0.5))) m.layers.push_back({"dropout", {}, g.one({0.2, 0.5})}); else if (q.bn && d.size() == 2) m.layers.push_back({"bn", {o}});
        if (m.layers.empty()) m.layers.push_back({"fc", {width, o}});
    }
    m.out = d; m.out.back() = o;
    return m;
}
template <class T, class M> void addLayers(M& m, const ModelSpec& s) {
    using namespace smart_dnn;
    for (auto& l : s.layers) {
        auto& k = l.kind;
        if (k == "conv") m.addLayer(Conv2DLayer<T>(l.a[0], l.a[1], l.a[2], l.a[3], l.a[4], l.a[5], l.a[6]));
        else if (k == "bn") m.addLayer(BatchNormalizationLayer<T>(l.a[0]));
        else if (k == "pool") m.addLayer(MaxPooling2DLayer<T>(l.a[0], l.a[1], l.a[2]));
        else if (k == "flatten") m.addLayer(FlattenLayer<T>());
        else if (k == "fc") m.addLayer(FullyConnectedLayer<T>(l.a[0], l.a[1]));
        else if (k == "dropout") m.addLayer(DropoutLayer<T>(T(l.r)));
        else if (k == "relu") m.addLayer(ActivationLayer<T>(ReLU<T>()));
        else if (k == "leaky") m.addLayer(ActivationLayer<T>(LeakyReLU<T>()));
        else if (k == "sigmoid") m.addLayer(ActivationLayer<T>(Sigmoid<T>()));
        else if (k == "tanh") m.addLayer(ActivationLayer<T>(Tanh<T>()));
        else if (k == "swish") m.addLayer(ActivationLayer<T>(Swish<T>()));
        else if (k == "mish") m.addLayer(ActivationLayer<T>(Mish<T>()));
        else if (k == "softmax") m.addLayer(ActivationLayer<T>(Softmax<T>()));
        else { fprintf(stderr, "unknown layer %s\n", k.c_str()); exit(2); }
    }
}
template <class T> std::vector<T> randomTarget(Rng& g, const ModelSpec& s) {
    std::vector<T> t(prod(s.out)); int C = s.out.back();
    for (size_t i = 0; i < t.size(); ++i) t[i] = s.cce ? T(0) : T(g.uni(-1, 1));
    if (s.cce) for (size_t r = 0; r < t.size() / C; ++r) if (g.chance(0.7)) t[r * C + g.range(0, C - 1)] = T(1); else for (int j = 0; j < C; ++j) t[r * C + j] = T(1) / C;
    return t;
}
} // namespace h
