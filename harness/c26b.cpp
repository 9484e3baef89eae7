// C26: a second source file of the same program, which draws random numbers and uses every part of the library
#include "smart_dnn/SmartDNN.hpp"
#include "smart_dnn/Datasets/MNistLoader.hpp"
#include "smart_dnn/Datasets/SampleGenerator.hpp"
#include "smart_dnn/Layers/FullyConnectedLayer.hpp"
#include "smart_dnn/Layers/Conv2DLayer.hpp"
#include "smart_dnn/Regularisation/DropoutLayer.hpp"
#include "smart_dnn/RandomEngine.hpp"
#include <vector>
template <class T> static void draw(int what, std::vector<double>& out) {
    using namespace smart_dnn;
    auto add = [&](const Tensor<T>& t) { for (size_t i = 0; i < t.getShape().size(); ++i) out.push_back(double(t.getData().data()[i])); };
    switch (what) {
    case 0: for (int i = 0; i < 4; ++i) out.push_back(RandomEngine::getRand()); break;
    case 1: add(Tensor<T>::rand(Shape{5})); add(Tensor<T>::randn(Shape{5}, T(-1), T(1))); break;
    case 2: { FullyConnectedLayer<T> L(3, 2); add(L.getWeights()); break; }
    case 3: { Conv2DLayer<T> L(2, 2, 2); add(L.getWeights()); break; }
    default: { DropoutLayer<T> L(T(0.5)); add(L.forward(Tensor<T>(Shape{40}, T(1)))); }
    }
}
void elsewhere(bool dbl, int what, std::vector<double>& out) { if (dbl) draw<double>(what, out); else draw<float>(what, out); }
void seedElsewhere(unsigned s) { RandomEngine::setSeed(s); }
