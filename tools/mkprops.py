#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program only so the long strings stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})
S = "smart_dnn/"
TD, TI, TO = S+"Tensor/TensorDataCPU.impl.hpp", S+"Tensor/Tensor.impl.hpp", S+"Tensor/TensorOperations.hpp"
AT, SH, SO = S+"Tensor/AdvancedTensorOperations.hpp", S+"Shape/Shape.hpp", S+"Shape/ShapeOperations.hpp"
BV, SV = S+"Tensor/BroadcastView.hpp", S+"Tensor/SliceView.hpp"

prop("C01", "Shapes and multi-index addressing are consistent and bounds-checked",
 "A shape is exactly a non-empty list of positive dimensions whose element count is representable: any other list is rejected by an exception, and rank, element count, strides and per-dimension sizes of every accepted shape agree with the list. Multi-index access maps the in-range index tuples one-to-one, in row-major order, onto the stored elements, for reading and writing, and rejects by an exception every tuple of the wrong length or with an out-of-range component. Reshaping keeps the element sequence, succeeds exactly when the new dimensions are valid and the element counts agree, and otherwise throws and leaves the tensor unchanged.",
 ["inputs", "histories"], "all dimension lists (rank 1 and up, including zero, negative and overflowing products), all index tuples, all sequences of reshapes",
 "Tests use five fixed shapes, one invalid shape and one failing reshape; no test indexes out of range or looks at strides.",
 [SH, SO, TD], [("dimension validation, size and stride computation", SH), ("flat index computation", SO)],
 [("_dimensions/_size/_stride", "dimension list with derived size and strides", SH)], ["Tensor::getShape", "Tensor::at", "Tensor::reshape"])

prop("C02", "Element-wise arithmetic follows the broadcasting rules",
 "For every pair of tensors, +, -, * and / yield the element-wise result under right-aligned broadcasting (paired dimensions equal, or one of them 1) with the broadcast shape, and incompatible shapes are rejected by an exception. The forms with a scalar on either side, negation, square root, reciprocal with a floor, and application of a user function act on each element, in every element type. The in-place forms compute the same values, keep the left operand's shape, and throw without changing it when the result would not fit in it; dividing a tensor by the scalar zero is rejected.",
 ["inputs"], "all pairs of shapes (any ranks, ones anywhere), all element values including zeros, infinities and NaN, float/double/int elements, all operator forms, aliased operands",
 "Tests use constant-filled tensors of one shape, so they cannot see a wrong element mapping; broadcasting is tried on one trivial case; two scalar in-place operators are never instantiated.",
 [TO, TI, BV, SO], [("broadcast shape computation", SO), ("broadcast index mapping and iteration", BV), ("element-wise kernels", TO)],
 [], ["Tensor operators", "AdvancedTensorOperations::apply/applyPair/reciprocal"])

prop("C03", "Tensors are independent values",
 "A tensor built from a fill value, an array or a list holds exactly the supplied elements (a list whose length differs from the element count is rejected), and equality holds exactly when shape and elements agree. Copies, assigned-to tensors and results never share storage with their source: modifying one tensor never changes another, and operations that return a new tensor never modify their operands. After a move the target holds the old value and the source is still a valid tensor that can be read, copied, reshaped and assigned.",
 ["histories"], "all histories of construction, copy, move, assignment, mutation and destruction over a population of tensors, including self-assignment and aliased operands",
 "Tests make three short copy/move sequences; moved-from by assignment, aliasing and mismatching lists are not tried.",
 [TD, TI, S+"Tensor/TensorData.hpp"], [("deep copy / move of the owned buffer", TD), ("moved-from tensor replaced by a one-element tensor", TI)],
 [("data_", "exclusively owned buffer", S+"Tensor/TensorData.hpp")], ["Tensor constructors, assignment, ==, element access"])

prop("C04", "Reductions compute sum, mean and variance over any axes",
 "Sum, mean and variance over the whole tensor, over one axis, or over any set of distinct axes equal the mathematical value to within floating-point rounding. A sum drops the reduced axes, mean and variance over a set of axes keep them with size one, and reducing every axis by sum or mean gives a one-element tensor. An axis outside the tensor's rank is rejected by an exception.",
 ["inputs"], "all shapes, all axes and axis sets in any order (including all axes and axes of size 1), all finite values",
 "Tests reduce four tensors of two shapes; no axis set in a different order, no size-1 axes, no reduction of all axes by list, no axis-wise variance.",
 [AT, TO], [("multi-axis sum by paired index increment", AT), ("single-axis sum", TO)], [], ["AdvancedTensorOperations::sum/mean/variance"])

prop("C05", "Matrix products are correct for every supported rank combination",
 "Multiplying vector by vector, vector by matrix, matrix by vector, matrix by matrix, batch of matrices by matrix, matrix by batch of matrices, and same-rank batches of matrices gives the sum-of-products value of every entry to within floating-point rounding, in a tensor of the conventional result shape. Operands whose inner dimensions differ, or whose rank combination is not one of these, are rejected by an exception. Batch dimensions that differ are either broadcast correctly or rejected, never silently mis-paired.",
 ["inputs"], "all rank pairs 1..5, all dimensions (including 1, non-square, and sizes beyond typical block sizes), all finite values",
 "Tests use about a dozen tiny, mostly square products; a kernel wrong for rectangular or large operands, or for one batch index, passes.",
 [AT], [("rank dispatch and kernels", AT)], [], ["AdvancedTensorOperations::matmul"])

prop("C06", "Transpose, slicing and views select exactly the right elements",
 "Transposing two axes of a tensor moves every element to the position with those two indices exchanged, and slicing a tensor at an index of an axis returns exactly the elements having that index, in order, without that axis. A strided slice view exposes exactly the elements from start up to but excluding end with the given step on each axis (negative bounds counting from the end), and a broadcast view exposes exactly the broadcast of its tensor to the target shape, by index and by iteration alike. Invalid axes, indices, steps, empty selections and impossible broadcasts are rejected by an exception.",
 ["inputs"], "all shapes of rank 1..6, all axis pairs, indices, (start, end, step) triples and target shapes",
 "Tests transpose two tensors and never slice or use a view on its own.",
 [AT, TI, SV, BV], [("index permutation", AT), ("slice copy", TI), ("view index mapping and iterator", SV), ("broadcast factors", BV)],
 [], ["AdvancedTensorOperations::transpose", "Tensor::slice", "SliceView", "BroadcastView"])

A = [S+"Activations/"+n+".hpp" for n in ("ReLU", "LeakyReLU", "Sigmoid", "Tanh", "Softmax", "Swish", "Mish")]
prop("C07", "Activation functions are accurate and finite on every finite input",
 "ReLU, leaky ReLU, sigmoid, tanh, swish, mish and softmax return, for every finite input of any magnitude, finite values that agree with their mathematical definition to within the precision of the element type, in a tensor of the input's shape. Softmax treats the first dimension as the batch: each sample's outputs are non-negative, sum to one and depend only on that sample, and an input of rank below two is rejected.",
 ["inputs"], "all finite inputs (tiny, huge, saturating, equal entries), all shapes, float and double",
 "Tests evaluate six values in [-2, 3] in float at 1e-5, so overflow, saturation and lost precision are invisible.",
 A, [("element formulas", A[3]), ("max-subtracted softmax", A[4])], [], ["Activation::forward"])

prop("C08", "Activation gradients are the derivatives of the activations",
 "For every activation, the backward result equals the incoming gradient multiplied by the derivative of the forward function at the given input (for softmax, by its full Jacobian within each sample), wherever that derivative exists, to within working precision and finite for every finite input, in the input's shape. An incoming gradient that cannot be matched with the input is rejected by an exception and not read out of bounds.",
 ["inputs"], "all finite inputs and incoming gradients, all shapes, float and double",
 "Tests use an all-ones incoming gradient at six points (so a gradient that ignores it passes) and only check that softmax gradients sum to zero.",
 A, [("derivative formulas", A[0]), ("softmax Jacobian product", A[4])], [], ["Activation::backward"])

prop("C09", "Fully connected layer computes the affine map and its exact gradients",
 "For every batch or single vector the fully connected layer returns input times weights plus bias, one independent row per sample. After a forward pass, its backward pass returns the gradient with respect to the input, in the input's shape, and sets the weight and bias gradients, all equal to the exact gradients for that input and incoming gradient summed over the batch and not accumulated from earlier passes. Inputs of the wrong width are rejected by an exception.",
 ["inputs", "histories"], "all layer sizes, batch sizes (1 and up, and unbatched vectors), finite weights, inputs, incoming gradients; repeated passes with changing batch size",
 "Tests use one 2-to-3 layer with all-ones incoming gradients; unbatched backward and repeated passes are not checked.",
 [S+"Layers/FullyConnectedLayer.hpp", AT], [("matmul/transposed-matmul/sum", S+"Layers/FullyConnectedLayer.hpp")],
 [("input, weightGradients, biasGradients", "state carried from forward to backward to update", S+"Layers/FullyConnectedLayer.hpp")], ["FullyConnectedLayer::forward/backward/getWeightGradients/getBiasGradients"])

prop("C10", "2D convolution honours channels, stride, padding and dilation",
 "For every batch and every configuration of input and output channels, kernel height and width, stride, zero padding and dilation, the convolution layer returns the cross-correlation of the input with the weights over all input channels plus the output channel's bias, of the standard output size. Its backward pass returns the exact gradient with respect to the input and sets the exact weight and bias gradients, summed over all samples and positions. A kernel that does not fit the padded input and non-positive geometry are rejected by an exception.",
 ["inputs", "configurations"], "all batch sizes, channel counts, rectangular kernels and images, strides, paddings, dilations; finite values",
 "Value tests use one sample, one input and one output channel and unit stride, and elsewhere only shapes are looked at.",
 [S+"Layers/Conv2DLayer.hpp"], [("direct convolution and gradient loops", S+"Layers/Conv2DLayer.hpp")], [], ["Conv2DLayer::forward/backward/get*Gradients"])

prop("C11", "Max pooling returns window maxima and routes gradients to them",
 "For every pool size, stride and padding the max-pooling layer returns the maximum of each window restricted to the image, independently per sample and channel, with the standard output size. Its backward pass adds each incoming gradient to exactly one position, which attains the maximum of its window, accumulating where windows overlap, so the total gradient is conserved and every other position is zero. Inputs that are not batch-channel-height-width or are smaller than the window even when padded are rejected by an exception.",
 ["inputs", "configurations"], "all images (ties, all-negative, constant, all minus infinity; floating point or integer), pool sizes, strides smaller and larger than the pool, paddings",
 "No test touches max pooling.", [S+"Regularisation/MaxPooling2DLayer.hpp"], [("window scan", S+"Regularisation/MaxPooling2DLayer.hpp")], [], ["MaxPooling2DLayer::forward/backward"])

BN = S+"Regularisation/BatchNormalizationLayer.hpp"
prop("C12", "Batch normalization normalizes per feature and tracks running statistics",
 "In training mode, for rank-2 and rank-4 inputs, each feature or channel of the output is the input standardised with that feature's mean and (biased) variance over the batch (and image positions), then scaled and shifted by the layer's learnt parameters; other ranks and other feature counts are rejected. Every training pass replaces the running mean and (biased) variance by momentum times their old value plus (1 - momentum) times the batch statistic. In evaluation mode the output uses only the running statistics and learnt parameters, whatever the batch contains, works after any history of training passes, and changes no state.",
 ["histories", "inputs"], "all histories of training and evaluation passes with rank-2 or rank-4 inputs, batch sizes (1 included), feature counts, epsilon and momentum",
 "Tests check output shapes only and never leave training mode.", [BN, AT], [("batch statistics", BN), ("running average", BN)],
 [("runningMean/runningVariance", "statistics used in evaluation mode", BN)], ["BatchNormalizationLayer::forward, setTrainingMode"])

prop("C13", "Batch normalization gradients are the derivatives of its output",
 "After a training-mode forward pass on a rank-2 or rank-4 input, the backward pass of batch normalization returns the exact derivative with respect to the input, including the dependence of the batch mean and variance on it, and the parameter gradients handed to the optimizer are the exact derivatives with respect to scale and shift.",
 ["inputs"], "all batch sizes of at least 2, feature counts, image sizes, epsilons, learnt scales and shifts, and incoming gradients",
 "The only test checks the gradient's shape.", [BN], [("backward formula", BN)], [("batchVariance, normalizedInput", "forward state used by backward", BN)],
 ["BatchNormalizationLayer::backward, updateWeights"])

DR, FL = S+"Regularisation/DropoutLayer.hpp", S+"Layers/FlattenLayer.hpp"
prop("C14", "Dropout drops at the configured rate, rescales, and is inert in evaluation",
 "In training mode every element is, independently and with probability equal to the configured rate whatever the tensor's size, replaced by zero, and otherwise multiplied by 1/(1-rate); rate 0 changes nothing. The backward pass multiplies the incoming gradient by exactly the same per-element factors as the latest forward pass. In evaluation mode forward and backward return their argument unchanged.",
 ["inputs", "histories"], "all rates in [0,1), tensor shapes and sizes, histories of forward, backward and mode switches",
 "Tests count zeros in one 8-element tensor for one rate; the mask of the backward pass is not compared.", [DR, TO, S+"RandomEngine.hpp"], [("mask generation and scaling", DR)],
 [("mask", "per-element factor of the latest training forward pass", DR)], ["DropoutLayer::forward/backward"])

prop("C15", "Every layer's backward pass matches its most recent forward pass",
 "For every layer in training mode and every history of calls, a backward pass returns a gradient of the same shape as the input of that layer's most recent forward pass, computed from that input and the current parameters and not from any earlier one. Flattening keeps the batch dimension and the element order, and its backward pass restores the original shape and order. Calling backward before any forward, or a parameter update before any backward on a layer with parameters, is rejected by an exception.",
 ["histories"], "all interleavings of forward (changing batch sizes, ranks and image sizes), backward and update calls on each layer type",
 "Tests make at most one forward followed by one backward on each layer; flatten and activation layers are untested.",
 [FL, S+"Layers/ActivationLayer.hpp", S+"Layers/FullyConnectedLayer.hpp", S+"Layers/Conv2DLayer.hpp", BN, DR, S+"Regularisation/MaxPooling2DLayer.hpp"],
 [("input stored by forward", S+"Layers/ActivationLayer.hpp"), ("originalShape", FL)], [], ["Layer::forward/backward/updateWeights"])

L1, L2 = S+"Loss/MSELoss.hpp", S+"Loss/CategoricalCrossEntropyLoss.hpp"
prop("C16", "Loss values and loss gradients are mutually consistent",
 "Mean squared error equals the mean of squared differences over all elements; categorical cross entropy equals the batch mean of minus target times log prediction, finite even for predictions of 0 or 1. The gradient of each loss is the derivative of its value with respect to the prediction, in the prediction's shape. Shapes that do not match (other than a vector target for an equally long single column in mean squared error) are rejected by an exception.",
 ["inputs"], "all prediction/target pairs of matching and mismatching shapes; probabilities including 0 and 1; soft and one-hot targets",
 "No test touches the loss functions.", [L1, L2], [("value and gradient formulas", L1), ("clamped log", L2)], [], ["Loss::compute/gradient"])

SG, RM, AD = (S+"Optimizers/"+n+".hpp" for n in ("SGDOptimizer", "RMSPropOptimizer", "AdamOptimizer"))
prop("C17", "SGD follows its update rule over whole training histories",
 "Over any sequence of optimization steps, stochastic gradient descent updates every parameter element by w -= rate * d, where g is the gradient plus weight decay times w, and d is g without momentum, the velocity v = momentum * v + (1 - dampening) * g (starting from zero) with momentum, or g + momentum * v with Nesterov momentum. A positive learning-rate override applies to that step only.",
 ["histories", "configurations"], "all option combinations, all sequences of gradients and overrides, parameters of any shape",
 "Tests run at most two steps on at most four elements with hand-picked options; dampening and combinations of options are not tested.",
 [SG], [("updateTensor", SG)], [("momentumBuffers", "velocity per parameter", SG)], ["Optimizer::optimize"])
prop("C18", "RMSProp follows its update rule over whole training histories",
 "Over any sequence of optimization steps, RMSProp divides each gradient (plus weight decay times the parameter) by the square root of epsilon plus its exponentially averaged square, minus the square of the averaged gradient (never below zero) when centered, optionally accumulates the quotient with momentum, and subtracts it times the learning rate or that step's positive override. Gradients whose square is representable never produce a NaN or infinite parameter, however many steps are taken.",
 ["histories", "configurations"], "all option combinations, all sequences of finite gradients (constant, tiny, large, sign-changing), parameters of any shape",
 "Tests assert only the direction of one or two steps.", [RM], [("updateTensor", RM)], [("squaredGrads/meanGrads/velocityBuffers", "running averages per parameter", RM)], ["Optimizer::optimize"])
prop("C19", "Adam follows its update rule over whole training histories",
 "Over any sequence of optimization steps, Adam keeps exponential averages of each parameter's gradient (divided by the configured batch size) and of its square, corrects each once for its initialisation bias using the number of updates that parameter has received, and moves the parameter by the learning rate times their ratio (mean over root mean square plus epsilon), plus learning rate times the optional L1 (sign) and L2 (value) penalties. The learning rate is the initial one divided by 1 + decay times that update count, or the positive override given for that step only.",
 ["histories", "configurations"], "all option combinations, sequences of thousands of steps, finite gradients, parameters of any shape including more than 1000 elements",
 "Tests only assert that one step changes the weights.", [AD], [("updateParameter", AD), ("updateLearningRate", AD)], [("m/v", "first and second moments per parameter", AD)], ["Optimizer::optimize"])
prop("C20", "Optimizer state belongs to each parameter and bad updates are rejected",
 "When one optimizer serves several parameters, in any order, grouping or interleaving of calls, each parameter evolves exactly as if it had an optimizer of its own, and replacing a parameter's value does not hand its accumulated state to another parameter. Lists of different lengths, or a gradient whose element count differs from its parameter's, are rejected by an exception; gradients are never modified, and reusing an optimizer for a parameter of a new size never touches memory outside it.",
 ["histories"], "all interleavings of optimize calls over several parameters of equal and different shapes, single or grouped, with values replaced in between; all three optimizers",
 "Every test gives one fresh optimizer one parameter.", [SG, RM, AD], [("state maps keyed by parameter", AD)], [("per-parameter state maps", "momentum/moment buffers", SG)], ["Optimizer::optimize"])

MD = S+"SmartDNN/SmartDNN.impl.hpp"
prop("C21", "Training visits every sample, layer and parameter exactly once, in order",
 "In each epoch, for each input in order, training feeds the sample through all layers first to last, evaluates the loss value and gradient on the final output with the matching target, propagates the gradient through all layers last to first, each receiving the gradient its successor returned, and then updates each layer exactly once with the compiled optimizer before the next sample. The loss reported per epoch is the mean of the sample losses of that epoch. Training without a compiled loss and optimizer, or with different numbers of inputs and targets, is rejected by an exception.",
 ["programs", "histories"], "all models (any number and kind of layers), data sets, epoch counts, repeated train calls",
 "No test builds a model.", [MD, S+"SmartDNN.hpp"], [("train / backward / updateWeights", MD)], [("layers", "owned layer sequence", S+"SmartDNN.hpp")], ["Layer, Loss and Optimizer virtual calls", "standard output"])
prop("C22", "Whole-model parameter gradients are the derivatives of the training loss",
 "For every model composed of the library's layers, activations and losses, the gradient handed to the optimizer for each parameter on a training sample equals the derivative of that sample's loss with respect to that parameter, wherever it exists. Consequently a small enough plain gradient step along it does not increase that sample's loss.",
 ["programs", "inputs"], "all stacks of convolution, batch normalization, pooling, flatten, fully connected and activation layers with either loss, for unbatched and batched samples",
 "No test composes two layers or differentiates numerically.", [MD, S+"Layers/FullyConnectedLayer.hpp", S+"Layers/Conv2DLayer.hpp", BN, S+"Regularisation/MaxPooling2DLayer.hpp", L1, L2], [("reverse-order composition of backward passes", MD)], [], ["Optimizer::optimize arguments, Loss::compute"])
prop("C23", "Prediction in evaluation mode is pure and per-sample",
 "Prediction returns the composition of all layers on the input, and predicting a list returns the predictions of its elements in order. In evaluation mode predicting is repeatable and changes nothing that later predictions or training depend on, and each sample's output is independent of the other samples in its batch and of their order. Switching modes reaches every layer, and returning to training mode restores training behaviour.",
 ["histories", "inputs"], "all models including dropout and batch normalization, all interleavings of training, mode switches and predictions, all batch compositions",
 "No test builds a model or switches modes on more than one layer.", [MD, S+"Layer.hpp", BN, DR], [("setTrainingMode", MD), ("predict", MD)], [], ["SmartDNN::predict/evalMode/trainingMode"])

ML, GEN = S+"Datasets/MNistLoader.hpp", S+"Datasets/SampleGenerator.hpp"
prop("C24", "The MNIST loader decodes files exactly and rejects malformed ones",
 "From well-formed image and label files the loader returns the first requested samples (or all) in file order, grouped into batches of the requested size with a shorter last batch, every pixel being its byte divided by 255 at its row and column and every label a one-hot row. Files that are missing, have a wrong magic number, an impossible size, a label above 9, or fewer samples than requested (or, when all are requested, than announced) are rejected by an exception, never crashing or inventing data. Rendering a loaded image as text gives 28 lines of 28 characters whose darkness is monotone in the pixel values.",
 ["inputs", "fault_sequences"], "all image sizes, sample counts, batch sizes, byte contents; truncation at every byte, corrupted headers and labels",
 "No test touches the loader.", [ML], [("header parsing and batching", ML)], [], ["MNISTLoader::loadData/toAsciiArt"])
prop("C25", "Generated linear datasets have the promised size, shape and relation",
 "The linear dataset generators return exactly the requested number of samples, as one-element tensors or as batches of the requested size with a shorter last batch, inputs lying in [0, 100] and each target equal to 2 * input + 3 plus zero-mean normal noise of the requested standard deviation. Inputs and targets correspond one to one. A batch size below 1 is rejected by an exception.",
 ["inputs"], "all sample counts (0 included), batch sizes (dividing or not, larger than the data set), noise levels",
 "No test touches the generators.", [GEN], [("generator loops", GEN)], [], ["generateLinearDataset, generateBatchedLinearDataset"])
prop("C26", "Seeding makes every random draw reproducible and draws stay in range",
 "After seeding the random engine with a value, every sequence of library operations that draw random numbers (tensor factories, layer construction, dropout, training) gives identical results each time it is run, and different seeds give different results; all draws of a program, from whichever source file and (one after the other) whichever thread, continue the one seeded stream. Random tensors have all elements within the requested minimum and maximum and, over an interval that reaches beyond zero, are not constant; uniform draws cover their interval, He and Xavier draws have mean zero and variance 2/n and 1/n, and the zero, one and identity factories hold exactly those values.",
 ["histories", "inputs"], "all seeds, shapes, ranges and sequences of drawing operations",
 "Tests never seed the engine or look at ranges of the factories.", [S+"RandomEngine.hpp", TO, S+"Tensor/TensorFactory.hpp"], [("single seeded engine", S+"RandomEngine.hpp")], [("engine", "the one pseudo-random state", S+"RandomEngine.hpp")], ["RandomEngine", "Tensor::rand/randn/zeros/ones/identity"])

prop("C27", "Public calls never corrupt memory or have undefined behaviour",
 "Any sequence of public tensor, layer, activation, loss, optimizer and model calls with well-typed but arbitrary arguments (mismatched shapes, wrong ranks, invalid axes and indices, calls out of order) either completes or throws a standard exception, without out-of-bounds access, use of freed or uninitialised memory, null dereference, arithmetic undefined behaviour or termination. A call that throws leaves its tensor operands unchanged. (Excluded: the unchecked operator[] of tensors, shapes and views, and violated documented asserts.)",
 ["histories", "inputs"], "all call sequences over a population of tensors, layers, losses, optimizers and models with arbitrary argument shapes",
 "Tests contain ten expected exceptions and run without sanitizers.", [TI, AT, TO, SH, MD, AD, SG, RM, A[4], L1, L2], [("argument validation throughout", SO)], [], ["sanitizer reports", "exceptions", "operand values after a throw"])
prop("C28", "Memory use is bounded by the live objects: no leaks, no growth while training",
 "Destroying tensors, layers, optimizers and models returns every byte they allocated, also after exceptions. Training, predicting or optimizing repeatedly with unchanging or recurring shapes retains no additional memory from one iteration to the next once warmed up.",
 ["histories"], "all object life cycles; training and prediction runs of any length with every layer and optimizer",
 "Tests never measure memory.", [TD, MD, AD, SG, RM], [("owning smart pointers and state maps", TD)], [], ["allocation counters, LeakSanitizer"])

prop("C29", "Enabling OpenMP changes neither results nor safety",
 "Compiled with OpenMP, every parallelised operation gives, for any number of threads and any schedule, the results of the serial build (up to rounding) and has no data race; random tensors remain reproducible for a seed.",
 ["schedules", "configurations"], "all thread counts and interleavings of the parallel regions; operand sizes below and above the parallel thresholds",
 "No build or test enables OpenMP: the pragmas are never active.", [AT, TO, AD, S+"Layers/Conv2DLayer.hpp"], [("omp parallel for directives", AT)], [], ["ThreadSanitizer reports, results against the serial build"])
prop("C30", "Independent objects can be used from different threads",
 "Threads that work on different tensors, layers, optimizers and models, sharing only read-only tensors and activations, have no data race and obtain the results they would obtain alone; reading one tensor from several threads is safe. (Random draws share one engine and are excluded.)",
 ["schedules"], "all interleavings of threads training, predicting and computing on disjoint objects and reading shared tensors",
 "All tests are single-threaded.", [AT, TO, MD, AD, SG, RM, S+"Activation.hpp"], [("no shared mutable state outside the random engine", TO)], [], ["ThreadSanitizer reports, results against a serial run"])
prop("C31", "Running out of memory is reported and corrupts nothing",
 "When any allocation made by a tensor constructor, copy, assignment, arithmetic, reduction, product, layer pass or optimizer step fails, the failure reaches the caller as an exception, no memory is leaked or corrupted, every tensor involved is still valid (operands of non-mutating operations unchanged), and the same call succeeds once memory is available again.",
 ["fault_sequences"], "failure of every single allocation of each operation, for many operations and shapes",
 "No test injects allocation failures.", [TD, TI, S+"Tensor/Tensor.hpp", SH], [("constructors and assignment allocate before committing", TD)], [], ["replaced allocation functions"])
prop("C32", "Training learns: it descends on convex problems and fits realizable ones",
 "Training a single linear layer with mean squared error by plain full-batch gradient descent with a rate below the inverse of the loss's curvature never increases the loss from epoch to epoch, and approaches the least-squares solution at the rate that curvature guarantees. Every optimizer, started from any seed with a moderate learning rate, brings the loss of a linear target to a small fraction of its starting value within a bounded number of epochs.",
 ["inputs", "histories", "configurations"], "all regression data sets of bounded size, all three optimizers, seeds; bounded number of epochs",
 "No test trains a model.", [MD, SG, RM, AD, S+"Layers/FullyConnectedLayer.hpp", L1], [("the composition of all training parts", MD)], [], ["loss and weights after each epoch"])
prop("C33", "Results depend only on operands and an object's own history",
 "The result of every operation is determined by its arguments and the history of the object it is called on: it is bit for bit the same whatever other tensors, layers, models, losses and optimizers exist, were used or were destroyed before or in between, of any size and element type, whatever unused memory contains, and however often the same work was done earlier in the process. (Random draws share one engine and are excluded.)",
 ["histories", "schedules"], "all interleavings of the steps of several independent pieces of work, all repetitions, all contents of fresh memory",
 "A test runs each piece of work once, in one order, in a fresh process.", [AT, TO, TD, MD, AD, SG, RM, S+"Activation.hpp"], [("no state outside the objects except the random engine", TO)], [], ["hashes of all results of each piece of work"])
prop("C34", "Layers, losses, optimizers and activations are values",
 "A copy of a layer, activation, loss or optimizer, made at any point of its history, behaves from then on exactly as the original would, and the two never influence each other again; the same holds for assignment, and a moved-to object continues where the moved-from one stopped. A model keeps its own copies of the layers, loss and optimizer it is given: adding a named layer (even twice) or compiling with a named optimizer leaves the given objects unchanged by training, and their later use does not affect the model.",
 ["histories"], "all histories of use, copying, moving, assigning and destroying, for every type that can be copied or moved; all models built from named objects",
 "Tests copy no layer, loss or optimizer.", [MD, L1, L2, AD, SG, RM, S+"Layers/ActivationLayer.hpp"], [("members are values or owned; addLayer and compile store decayed copies", MD)], [], ["results of every event of every object's history"])
prop("C35", "Printed shapes and tensors show what they hold",
 "The text of a tensor's data lists every element in row-major order, in brackets separated by commas, each to six significant digits (NaN and infinities included); the detailed text names the shape and the first ten elements, followed by dots exactly if there are more; the text of a shape lists its dimensions in parentheses. Printing changes nothing, gives the same text every time, and does not depend on the formatting state of other streams.",
 ["inputs"], "all shapes and values of every element type",
 "Tests print but never look at the text.", [TD, S+"Tensor/Tensor.hpp", SH], [("toString, toDataString, toDetailedString", TD)], [], ["the texts, parsed back"])
prop("C36", "New objects start in the documented state; omitted arguments mean the documented defaults",
 "A new fully connected or convolution layer has weights of shape (inputs, outputs) or (output channels, input channels, kernel height, kernel width), drawn from the one random engine by the seed (scaled normal draws limited to the unit interval, different for each layer and seed), and zero biases; a new batch normalization layer has scale 1, shift 0, running mean 0 and running variance 1; layers and models start in training mode, models uncompiled and empty. Accessors give and take copies. Omitted layer arguments (square kernel, stride 1, padding 0, dilation 1; pooling stride equal to the window, no padding; batch normalization 1e-5 and 0.9; leaky slope 0.01) and omitted optimizer options equal the documented defaults given explicitly.",
 ["inputs", "configurations"], "all layer sizes, seeds and element types; every optional argument",
 "Tests check the shape of two layers' weights.", [S+"Layers/FullyConnectedLayer.hpp", S+"Layers/Conv2DLayer.hpp", S+"Regularisation/BatchNormalizationLayer.hpp", AD, SG, RM], [("constructors and default member values", S+"Layers/Conv2DLayer.hpp")], [], ["accessors, parameters seen by the optimizer, first results"])
prop("C37", "A model does exactly what its layers, loss and optimizer do when called by hand",
 "Over any history of adding layers, compiling, training, predicting, manual steps, mode switches and direct work on layers obtained from it, a model gives bit for bit the predictions and parameters obtained by calling the same layers, loss and optimizer by hand in the documented order from the same seed: prediction is the layers' forward passes in order (a list of inputs one by one), a training epoch is forward, loss, loss gradient, backward passes in reverse and one update of every layer for each sample in order, a mode switch reaches every layer and nothing else changes modes, layers added later join at the end, and compiling again replaces loss and optimizer with fresh ones. It accepts and rejects exactly what its parts do.",
 ["histories", "configurations"], "all stacks of library layers, losses, optimizers and histories of calls",
 "No test builds a model, and none compares one with its parts.", [MD], [("addLayer, compile, train, predict, backward, updateWeights, trainingMode, evalMode, getLayer", MD)], [], ["predictions, layer parameters, exceptions"])
prop("C38", "Training on finite data of moderate size never produces infinities or NaN",
 "Whatever the stack of layers, loss and optimizer, as long as data and parameters stay of moderate size, every value passed between layers, every loss and loss gradient, every gradient given to the optimizer, every parameter after a step and every prediction in either mode is finite: also for all-zero, constant, repeated, tiny (denormal) and large inputs, batches of one sample, saturated probabilities and activations, vanished gradients and zero variances.",
 ["inputs", "histories", "configurations"], "all stacks of library layers, losses, optimizers with bounded steps, and finite inputs",
 "No test trains, and division by a vanishing quantity shows only on degenerate data.", [L1, SO, S+"Regularisation/BatchNormalizationLayer.hpp", AD, SG, RM, MD], [("epsilons, clamps and maxima guarding every division, logarithm, root and exponential", S+"Regularisation/BatchNormalizationLayer.hpp")], [], ["all tensors between layers, loss and optimizer"])
prop("C39", "Results do not depend on how the library is built",
 "Built by gcc or clang, at any optimization level, as C++17, C++20 or C++23, with or without assertions (NDEBUG), logging (ENABLE_LOGGING), debugging containers, unsigned char or pre-initialised variables, the library compiles and gives the same results for the same calls and seed.",
 ["configurations", "inputs"], "all supported build configurations; all programs",
 "The tests are built in one configuration.", [TI, TO, AT, MD, S+"Debugging/Logger.hpp"], [("preprocessor branches on __cplusplus, ENABLE_LOGGING; assert", TO)], [], ["results of the same program in every build"])

prop("C40", "No element count is too large for an operation that accepts it",
 "Tensors whose total number of elements exceeds what an int can hold (2^31 and beyond, each dimension still an int) behave like small ones: creation, copying, comparison, reshaping, arithmetic, functions, sums, views, slices, matrix products, transposition, activations, optimizer steps, pooling and convolution reach every element at its right place and never read or write outside the storage. What cannot be represented, such as flattening a sample of more than INT_MAX elements into one dimension, is refused by an exception that leaves the object usable.",
 ["inputs"], "all shapes whose element count fits in size_t and in memory",
 "Tests use tensors of at most some thousand elements; index arithmetic in int is right for all of those.", [S+"Shape/Shape.hpp", AT, TO, S+"Tensor/BroadcastView.hpp", S+"Tensor/SliceView.hpp", A[4], S+"Layers/FlattenLayer.hpp"], [("offsets and counts", AT)], [], ["elements of tensors beyond 2^31 elements"])

prop("C41", "Tensor operations are correct in every arithmetic element type",
 "For every built-in arithmetic element type, tensor construction, access, arithmetic with tensors and scalars, functions, sums, means, matrix products, transposition, slices, views, equality and text give what the language's own arithmetic gives on the elements: integers wrap or convert as their type does, products and sums included; integer means are sums divided and truncated; dividing an integer tensor by one that has a zero element is rejected by an exception and changes nothing; elements of character type are printed as numbers; and long double keeps its full precision through tensor operations, activations, mean squared error and optimizer steps. (Excluded: overflow of signed arithmetic, undefined in the language.)",
 ["inputs", "configurations"], "all built-in arithmetic element types, shapes and values",
 "The tests use float, double and int with a handful of values.", [TI, TO, TD, AT, A[3], AD, SG, RM], [("element type parameter T", TO)], [], ["results of every operation in eleven element types"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
