// Jobs: self-contained pieces of work whose results are hashed, done at once or step by step
#pragma once
#include "model.hpp"
#include "smart_dnn/Tensor/SliceView.hpp"
#include "smart_dnn/Tensor/BroadcastView.hpp"
#include "smart_dnn/Datasets/MNistLoader.hpp"
#if defined(KINDS) && KINDS > 5
#include "smart_dnn/Datasets/SampleGenerator.hpp"
static std::string mnistImages, mnistLabels;
static void makeMnist() { // a small data set in the process's own directory
    char dir[] = "/tmp/smartdnn-mnist-XXXXXX"; if (!mkdtemp(dir)) { perror("mkdtemp"); exit(2); }
    mnistImages = std::string(dir) + "/images"; mnistLabels = std::string(dir) + "/labels";
    auto put = [](FILE* f, unsigned x) { for (int s = 24; s >= 0; s -= 8) fputc(int(x >> s & 255), f); };
    FILE* f = fopen(mnistImages.c_str(), "wb"); for (unsigned x : {2051u, 7u, 5u, 4u}) put(f, x); for (int i = 0; i < 7 * 20; ++i) fputc(i * 37 % 256, f); fclose(f);
    f = fopen(mnistLabels.c_str(), "wb"); for (unsigned x : {2049u, 7u}) put(f, x); for (int i = 0; i < 7; ++i) fputc(i, f); fclose(f);
}
static void dropMnist() { unlink(mnistImages.c_str()); unlink(mnistLabels.c_str()); rmdir(mnistImages.substr(0, mnistImages.rfind('/')).c_str()); }
#endif
namespace h {
using namespace smart_dnn;
struct NullBuf : std::streambuf { int overflow(int c) override { return c; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };
template <class T> struct Shared { std::vector<Ten<T>> t; std::vector<std::unique_ptr<Activation<T>>> acts; std::vector<std::unique_ptr<Loss<T>>> losses; };
#ifdef JOB_LOG // keeps the results themselves (texts only as far as they do not show rounded numbers)
template <class T> struct Hash { u64 s = 1; std::vector<double> log; void operator()(const Ten<T>& t) { for (int d : dimsOf(t)) log.push_back(d); for (T x : vals(t)) log.push_back(double(x)); } void operator()(double d) { log.push_back(d); } void operator()(const std::string& x) { log.push_back(x == "rejected" ? -1 : -2); } };
#else
template <class T> struct Hash { u64 s = 1; void operator()(const Ten<T>& t) { s = hashV(dimsOf(t), vals(t), s); } void operator()(double d) { u64 b; memcpy(&b, &d, 8); s = mix(s ^ b); } void operator()(const std::string& x) { s = mix(s ^ hashS(x)); } };
#endif
#ifndef LAYER_KINDS
#define LAYER_KINDS 6 // 7: with dropout, which draws from the one engine
#endif
#ifndef KINDS
#define KINDS 5 // 6: with data sets
#endif
template <class T> struct Job {
    int kind; u64 seed; const Shared<T>* sh; std::vector<Ten<T>> own; std::string name;
    ModelSpec spec; std::unique_ptr<SmartDNN<T>> model; std::unique_ptr<Layer<T>> layer; std::unique_ptr<Optimizer<T>> opt; bool training = true;
    u64 result = 0; std::string error;
    Job(u64 seed, const Shared<T>& s) : seed(seed), sh(&s) { // in the main thread: weights are drawn from the one engine
        Rng g(seed); kind = g.range(0, KINDS - 1); RandomEngine::setSeed(unsigned(seed));
        static const char* names[] = {"tensors", "model", "layer", "optimizer", "activations", "data"}; name = names[kind];
        for (int i = 0; i < 3; ++i) { Dims d = g.chance(0.06) ? Dims{g.range(1001, 1300)} : randDims(g, 1, 4, 5, 80); own.push_back(mk(d, randVec<T>(g, prod(d), UNIT))); }
        switch (g.range(0, 2)) { case 0: { SGDOptions<T> o; o.learningRate = T(0.01); opt = std::make_unique<SGDOptimizer<T>>(o); break; } case 1: { RMSPropOptions<T> o; o.learningRate = T(0.01); o.centered = true; o.epsilon = T(1e-3); opt = std::make_unique<RMSPropOptimizer<T>>(o); break; } default: opt = std::make_unique<AdamOptimizer<T>>(); }
        if (kind == 1) {
            ModelLimits q; q.maxBatch = 2; q.dropout = false; spec = randomModel(g, q); model = std::make_unique<SmartDNN<T>>(); addLayers<T>(*model, spec);
            if (!spec.has("bn") && g.chance(0.3)) { model->addLayer(DropoutLayer<T>(T(0.5))); model->evalMode(); }
            if (spec.cce) model->compile(CategoricalCrossEntropyLoss<T>(), AdamOptimizer<T>()); else if (g.chance(0.5)) model->compile(MSELoss<T>(), RMSPropOptimizer<T>()); else model->compile(MSELoss<T>(), SGDOptimizer<T>());
            own.clear(); own.push_back(mk(spec.in, randVec<T>(g, prod(spec.in), UNIT))); own.push_back(mk(spec.out, randomTarget<T>(g, spec)));
        } else if (kind == 2) {
            int c = g.range(1, 3), k = g.range(0, LAYER_KINDS - 1); Dims in{2, c};
            switch (k) { case 0: layer = std::make_unique<FullyConnectedLayer<T>>(c, 4); break; case 1: layer = std::make_unique<Conv2DLayer<T>>(c, 2, 2, 3, 1, 1, 1); in = {2, c, 4, 4}; break; case 2: layer = std::make_unique<BatchNormalizationLayer<T>>(c); in = {2, c, 3, 2}; break; case 3: layer = std::make_unique<MaxPooling2DLayer<T>>(2, 2); in = {2, c, 4, 4}; break; case 4: layer = std::make_unique<FlattenLayer<T>>(); in = {2, c, 3, 2}; break; case 6: layer = std::make_unique<DropoutLayer<T>>(T(0.5)); in = {3, 5, c}; break; default: layer = std::make_unique<ActivationLayer<T>>(Mish<T>()); }
            name += cat("-", k); own.clear(); own.push_back(mk(in, randVec<T>(g, prod(in), UNIT)));
        }
    }
    Rng rng{seed ^ 77}; Hash<T> H; int at = 0; bool over = false;
    bool step() { // does the next piece of work; false once there is none left
        if (over) return false;
        bool more = true;
        try { switch (kind) { case 0: tensors(rng, H); more = ++at < 14; break; case 1: train(rng, H); more = ++at < 6; break; case 2: pass(rng, H); more = ++at < 9; break; case 3: optimize(rng, H); more = ++at < 8; break; case 5: data(rng, H); more = ++at < 3; break; default: activate(rng, H); more = ++at < 6; } }
        catch (const std::exception& e) { error = e.what(); more = false; }
        if (!more) { over = true; result = H.s; }
        return more;
    }
    void work() { while (step()) {} }
    const Ten<T>& any(Rng& g) { return g.chance(0.6) ? sh->t[g.next() % sh->t.size()] : own[g.next() % own.size()]; }
    void tensors(Rng& g, Hash<T>& H) {
        using A = AdvancedTensorOperations<T>;
        {
            const Ten<T>&a = any(g), &b = g.chance(0.5) ? a : any(g);
            try { switch (g.range(0, 23)) {
                case 0: H(a + b); break; case 1: H(a * b); break; case 2: H(a / T(3) - b); break; case 3: H(A::sum(a)); break; case 4: H(A::sum(a, size_t(g.range(0, 2)))); break; case 5: H(A::mean(a, {0})); break;
                case 6: if (a.getShape().rank() == 2) H(A::matmul(a, A::transpose(a, 0, 1))); H(A::matmul(a, b)); break; case 7: H(A::transpose(a, 0, a.getShape().rank() - 1)); break; case 8: H(a.slice(0, 0)); break; case 9: { Ten<T> c = a; c += b; H(c); break; }
                case 10: { SliceView<T> v(a.getData(), std::vector<std::pair<int, int>>(a.getShape().rank(), {0, 1}), std::vector<int>(a.getShape().rank(), 1)); for (auto it = v.begin(); it != v.end(); ++it) H(double(*it)); break; }
                case 11: { Dims d = dimsOf(a); d.insert(d.begin(), 2); BroadcastView<T, CPUDevice> v(a.getData(), Shape(d)); for (auto it = v.begin(); it != v.end(); ++it) H(double(*it)); break; }
                case 12: H(a.toDetailedString() + a.toDataString() + a.getShape().toString()); break; case 13: H((a == b) + 2.0 * (a != b)); break; case 14: H(double(a.at(Dims(a.getShape().rank(), 0)))); break;
                case 15: { Ten<T> c(a); c.reshape(std::vector<int>{int(c.getShape().size())}); H(c); own[0] = c; break; } case 16: H(A::reciprocal(a).sqrt()); break;
                case 17: H(Ten<T>(Shape{g.chance(0.3) ? int(bigSize(g, 20000)) : g.range(1, 60)})); H(Ten<T>::zeros(3)); H(Ten<T>::ones(Shape{2, 2})); H(Ten<T>::identity(3)); H(Ten<T>(Shape{2}, {T(1), T(2)})); break;
                case 18: H(A::variance(a, A::mean(a, {0}), {0})); H(A::variance(a, A::mean(a))); break; case 19: { MNISTLoader<T> L("none", "none", 1); H(L.toAsciiArt(a)); break; }
                case 20: H(-a); H(T(2) - a); H(T(2) / (a * a + T(1))); break; case 21: { Ten<T> c = a; Ten<T> d(std::move(c)); c = d; std::swap(c, d); c *= d; c -= T(1); H(c); break; }
                case 22: { Ten<T> c = a; c.apply([](T x) { return x * x; }); H(c); H(A::sum(a, {0, a.getShape().rank() - 1})); break; }
                default: H(A::apply(a, [](T x) { return x + 1; })); H(A::applyPair(a, a, [](T x, T y) { return x * y; })); }
            } catch (const std::exception& e) { H(std::string("rejected")); }
        }
    }
    void train(Rng&, Hash<T>& H) {
        std::vector<Ten<T>> x(2, own[0]), y(2, own[1]);
        switch (at) {
        case 0: case 2: model->train(x, y, 1); break;
        case 1: case 3: H(model->predict(own[0])); break;
        case 4: for (auto& p : model->predict(x)) H(p); break;
        default: try { y.pop_back(); model->train(x, y, 1); } catch (const std::exception& e) { H(std::string(e.what())); }
        }
    }
    void data(Rng& g, Hash<T>& H) { // generators draw from an engine of their own: only what does not depend on the draws is compared
#if KINDS > 5
        if (g.chance(0.6)) {
            int n = g.range(1, 20), b = g.range(1, 6); bool batched = g.chance(0.5); auto d = batched ? generateBatchedLinearDataset(n, b, 0.0f) : generateLinearDataset(n, 0.0f);
            H(double(d.first.size())); H(double(d.second.size()));
            for (size_t i = 0; i < d.first.size(); ++i) { auto x = vals(d.first[i]), y = vals(d.second[i]); H(double(x.size())); bool ok = x.size() == y.size(); for (size_t j = 0; ok && j < x.size(); ++j) ok = x[j] >= 0 && x[j] <= 100 && std::fabs(y[j] - (2.0f * x[j] + 3.0f)) <= 1e-3f; H(ok ? 1.0 : 2.0); if (!ok) error = "a sample is off the line"; }
            return;
        }
        MNISTLoader<T> L(mnistImages, mnistLabels, g.range(1, 4), g.range(1, 7)); auto d = L.loadData();
        for (auto& t : d.first) H(t); for (auto& t : d.second) H(t);
#else
        (void)g; (void)H;
#endif
    }
    std::optional<Ten<T>> y;
    void pass(Rng&, Hash<T>& H) {
        if (dynamic_cast<DropoutLayer<T>*>(layer.get())) { // what is dropped is drawn from the one engine, but the gradient follows the layer's own last forward pass, whatever others did in between
            Ten<T> one(own[0].getShape(), T(1));
            if (at % 3 == 0 || !y) y = layer->forward(one); else { H(double(layer->backward(one) == *y)); if (at == 5) { layer->setTrainingMode(false); H(layer->forward(one)); layer->setTrainingMode(true); y = layer->forward(one); } }
            return;
        }
        if (at % 3 == 0) { y = layer->forward(own[0]); H(*y); }
        else if (at % 3 == 1) H(layer->backward(*y));
        else if (dynamic_cast<FullyConnectedLayer<T>*>(layer.get()) || dynamic_cast<Conv2DLayer<T>*>(layer.get()) || dynamic_cast<BatchNormalizationLayer<T>*>(layer.get())) layer->updateWeights(*opt);
    }
    std::vector<Ten<T>> q;
    void optimize(Rng&, Hash<T>& H) {
        if (at == 0) q = own;
        if (at % 2 == 0) { opt->optimize({std::ref(own[0]), std::ref(own[1])}, {std::ref(q[0]), std::ref(q[1])}); H(own[0]); H(own[1]); }
        else { opt->optimize({std::ref(own[2])}, {std::ref(q[2])}, T(0.1)); H(own[2]); }
    }
    void activate(Rng& g, Hash<T>& H) { const auto& a = any(g); auto& f = *sh->acts[g.next() % sh->acts.size()]; try { auto y = f.forward(a); H(y); H(f.backward(a, y)); auto& l = *sh->losses[g.next() % sh->losses.size()]; H(l.compute(y, a)); H(l.gradient(y, a)); } catch (const std::exception&) { H(std::string("rejected")); } }
};
template <class T> void fill(Rng& g, Shared<T>& sh) {
    for (int i = 0; i < 3; ++i) { Dims d = randDims(g, 1, 3, 5, 60); sh.t.push_back(mk(d, randVec<T>(g, prod(d), UNIT))); }
    for (int a = 0; a < 7; ++a) sh.acts.emplace_back(newAct<T>(Act(a), T(0.1)));
    sh.losses.push_back(std::make_unique<MSELoss<T>>()); sh.losses.push_back(std::make_unique<CategoricalCrossEntropyLoss<T>>());
}
} // namespace h
