// Reference activations in long double
#pragma once
#include "common.hpp"
#include "smart_dnn/Activations/ReLU.hpp"
#include "smart_dnn/Activations/LeakyReLU.hpp"
#include "smart_dnn/Activations/Sigmoid.hpp"
#include "smart_dnn/Activations/Tanh.hpp"
#include "smart_dnn/Activations/Softmax.hpp"
#include "smart_dnn/Activations/Swish.hpp"
#include "smart_dnn/Activations/Mish.hpp"
namespace h {
enum Act { RELU, LEAKY, SIGMOID, TANH, SWISH, MISH, SOFTMAX };
inline const char* actNames[] = {"relu", "leaky", "sigmoid", "tanh", "swish", "mish", "softmax"};
inline ld sigm(ld x) { return 1 / (1 + expl(-x)); }
inline ld softplus(ld x) { return x > 60 ? x : log1pl(expl(x)); }
inline ld actF(Act a, ld x, ld alpha) {
    switch (a) {
    case RELU: return x > 0 ? x : 0;
    case LEAKY: return x > 0 ? x : alpha * x;
    case SIGMOID: return sigm(x);
    case TANH: return tanhl(x);
    case SWISH: return x < -10000 ? 0 : x * sigm(x);
    case MISH: return x < -10000 ? 0 : x * tanhl(softplus(x));
    default: return 0;
    }
}
inline ld actD(Act a, ld x, ld alpha) {
    switch (a) {
    case RELU: return x > 0 ? 1 : 0;
    case LEAKY: return x > 0 ? 1 : alpha;
    case SIGMOID: return sigm(x) * sigm(-x);
    case TANH: { ld c = coshl(std::min(fabsl(x), 5000.0L)); return 1 / (c * c); }
    case SWISH: if (fabsl(x) > 10000) return x > 0 ? 1 : 0; return sigm(x) * (1 + x * sigm(-x));
    case MISH: { if (fabsl(x) > 5000) return x > 0 ? 1 : 0; ld s = softplus(x), c = coshl(s); return tanhl(s) + x / (c * c) * sigm(x); }
    default: return 0;
    }
}
template <class T> smart_dnn::Activation<T>* newAct(Act a, T alpha, bool dflt = false) {
    switch (a) {
    case RELU: return new smart_dnn::ReLU<T>();
    case LEAKY: return dflt ? new smart_dnn::LeakyReLU<T>() : new smart_dnn::LeakyReLU<T>(alpha);
    case SIGMOID: return new smart_dnn::Sigmoid<T>();
    case TANH: return new smart_dnn::Tanh<T>();
    case SWISH: return new smart_dnn::Swish<T>();
    case MISH: return new smart_dnn::Mish<T>();
    default: return new smart_dnn::Softmax<T>();
    }
}
template <class T> T actInput(Rng& g, int style) {
    ld mx = std::numeric_limits<T>::max();
    switch (style) {
    case 0: return T(g.normal() * 3);
    case 1: return T(g.uni(-1, 1) * std::pow(10.0, g.uni(-8, 3)));
    case 2: return T(g.range(-120, 120));
    case 3: return T(g.one({0.0L, -0.0L, 1e-30L, -1e-30L, 88.5L, -88.5L, 89.0L, -89.0L, 103.0L, -104.0L, 709.5L, -709.5L, 710.0L, -746.0L, 1e4L, -1e4L, 1e9L, -1e9L, 1e30L, -1e30L, mx, -mx, mx / 2, -mx / 2, ld(std::numeric_limits<T>::min()), ld(std::numeric_limits<T>::denorm_min()), 19.06L, -19.06L, 20.0L, -20.0L, 36.7L, -36.7L, 9.0L, -9.0L, 1.0L, -1.0L}));
    case 4: return T((g.chance(0.5) ? 1 : -1) * std::pow(10.0, g.uni(0, std::numeric_limits<T>::max_exponent10 - 1)));
    default: return T(g.uni(-40, 40));
    }
}
template <class T> std::vector<T> actInputs(Rng& g, const Dims& d) { // the style changes from sample to sample
    std::vector<T> v(prod(d));
    size_t f = v.size() / d[0];
    int style = g.range(0, 5), mixed = g.chance(0.5), equal = g.chance(0.1);
    for (size_t i = 0; i < v.size(); ++i) {
        if (mixed && i % f == 0) style = g.range(0, 5);
        v[i] = actInput<T>(g, style);
        if (equal && i % f) v[i] = v[i - 1];
    }
    return v;
}
// what the result of an element formula may differ from the exact value
template <class T> ld actTol(Act a, ld x, ld want) {
    if (a == RELU) return 0;
    if (a == LEAKY) return 2 * EPS<T> * fabsl(want) + TINY<T>;
    if (a == SIGMOID || a == TANH) x = 0;
    return 12 * EPS<T> * (1 + std::min(fabsl(x), 50.0L)) + 2 * EPS<T> * fabsl(want) + TINY<T>;
}
} // namespace h
