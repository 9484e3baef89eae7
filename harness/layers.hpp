// Shared by the layer harnesses
#pragma once
#include "act.hpp"
#include "smart_dnn/Layers/FullyConnectedLayer.hpp"
#include "smart_dnn/Layers/Conv2DLayer.hpp"
#include "smart_dnn/Layers/FlattenLayer.hpp"
#include "smart_dnn/Layers/ActivationLayer.hpp"
#include "smart_dnn/Regularisation/BatchNormalizationLayer.hpp"
#include "smart_dnn/Regularisation/MaxPooling2DLayer.hpp"
#include "smart_dnn/Regularisation/DropoutLayer.hpp"
#include "smart_dnn/Optimizers/SGDOptimizer.hpp"
#include "smart_dnn/Optimizers/RMSPropOptimizer.hpp"
#include "smart_dnn/Optimizers/AdamOptimizer.hpp"
namespace h {
// An optimizer that records the gradients it is given and can assign parameters
template <class T> struct Spy : smart_dnn::Optimizer<T> {
    std::vector<Ten<T>> grads, params;
    std::vector<Ten<T>*> where;              // the parameters themselves
    std::vector<std::vector<T>> assign;      // values to assign, by position
    int calls = 0;
    void optimize(const std::vector<std::reference_wrapper<Ten<T>>>& w, const std::vector<std::reference_wrapper<Ten<T>>>& gr, T lr) override { doit(w, gr); (void)lr; }
    void doit(const std::vector<std::reference_wrapper<Ten<T>>>& w, const std::vector<std::reference_wrapper<Ten<T>>>& gr) {
        ++calls;
        grads.clear(); params.clear(); where.clear();
        for (auto& x : gr) grads.push_back(x.get());
        for (size_t i = 0; i < w.size(); ++i) {
            if (i < assign.size() && !assign[i].empty()) for (size_t j = 0; j < assign[i].size() && j < w[i].get().getShape().size(); ++j) w[i].get()[j] = assign[i][j];
            params.push_back(w[i].get()); where.push_back(&w[i].get());
        }
    }
};
template <class T> std::vector<ld> lds(const std::vector<T>& v) { return std::vector<ld>(v.begin(), v.end()); }
} // namespace h
