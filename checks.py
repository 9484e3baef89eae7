"""What check.py builds and runs for each property."""
def P(src, quick, thorough=None, **kw):
    d = {"src": [src] if isinstance(src, str) else src, "cases": (quick, thorough or quick * 40)}
    d.update(kw); return d
VALGRIND = ["valgrind", "-q", "--error-exitcode=77", "--exit-on-first-error=yes", "--leak-check=no", "--undef-value-errors=yes", "--expensive-definedness-checks=yes", "--show-mismatched-frees=no"]
CHECKS = {}
def check(id, rule, parts, require=(), **kw):
    CHECKS[id] = dict(rule=rule, parts=parts, require=list(require), **kw)

check("C01", "cases: random and hostile dimension lists (zero, negative, products beyond 2^64, products congruent to the size mod 2^64), all index tuples of random shapes, invalid tuples, reshape histories; nontrivial = distinct (shape, history)",
      [P("c01.cpp", 40000, 2000000)], ["beyond-rank-6", "concatenations", "shapes-accepted", "overflowing-shapes", "tuples", "reshapes-accepted", "reshapes-rejected", "rejections-tried"])
check("C02", "cases: random pairs of shapes (equal, ones anywhere, different ranks, incompatible), all operators and forms, float/double/int values with zeros/infinities/NaN; nontrivial = distinct (operator, shapes, values)",
      [P("c02.cpp", 60000, 3000000)], ["beyond-1000-elements", "beyond-65536-elements", "beyond-rank-6", "same-shape", "broadcast-ranks", "broadcast-ones", "incompatible-pairs", "in-place-fits", "in-place-does-not-fit", "aliased", "left-scalar", "division-by-scalar-zero", "negate", "sqrt", "reciprocal", "apply", "applyPair"])
check("C03", "cases: random histories of construction, copy, move, assignment, mutation, destruction over a population of tensors, all tensors compared with plain vectors after every step; nontrivial = distinct histories",
      [P("c03.cpp", 24000, 1200000)], ["constructed", "wrong-count", "moved-from-used", "equalities", "op-copy-assign", "op-move-assign", "op-self-move-assign", "op-vector-growth", "large-equalities"])

check("C04", "cases: random shapes of rank 1-6 (size-1 and long axes), random axis subsets in random order, sum/mean/variance by whole tensor, axis and list, invalid axes; nontrivial = distinct (shape, axes, values)",
      [P("c04.cpp", 30000, 1500000)], ["sum-whole", "sum-one-axis", "sum-axis-sets", "sum-every-axis-by-list", "unsorted-axes", "size-1-axis", "mean-axis-sets", "mean-every-axis-by-list", "variance-whole", "variance-axis-sets", "invalid-axes"])
check("C05", "cases: random rank pairs 1-5, dimensions 1-129, valid, inner mismatch, unsupported ranks, differing batches, against long double sums; nontrivial = distinct (shapes, values)",
      [P("c05.cpp", 8000, 400000)], ["long-inner", "ranks-1x1", "ranks-1x2", "ranks-2x1", "ranks-2x2", "ranks-3x2", "ranks-2x3", "ranks-3x3", "ranks-4x4", "ranks-5x5", "unsupported-ranks", "inner-mismatch", "batch-mismatch", "batch-differs", "beyond-64", "rectangular", "aliased"])
check("C06", "cases: all axis pairs and indices of random shapes, random start/end/step per axis, random broadcast targets, invalid ones; nontrivial = distinct (shape, selection)",
      [P("c06.cpp", 20000, 1000000)], ["transposes", "slices", "slice-views", "negative-bounds", "steps", "empty-selections", "broadcast-views", "impossible-broadcasts"])

check("C07", "cases: every activation on random shapes with inputs from denormal to the largest finite value, style changing per sample, against long double formulas; nontrivial = distinct (activation, shape, input)",
      [P("c07.cpp", 12000, 800000)], ["relu", "leaky", "sigmoid", "tanh", "swish", "mish", "softmax", "softmax-samples", "saturated"])
check("C08", "cases: every activation gradient on random inputs of any magnitude and random incoming gradients, against long double derivatives, plus mismatching gradients; nontrivial = distinct (activation, input, gradient)",
      [P("c08.cpp", 12000, 800000)], ["relu", "leaky", "sigmoid", "tanh", "swish", "mish", "softmax", "softmax-batches", "mismatched-gradients", "saturated"])

check("C09", "cases: random layer sizes, weights, batched and unbatched inputs, repeated passes with changing batch size, rejected widths, against long double affine maps and gradients; nontrivial = distinct (shapes, weights, inputs)",
      [P("c09.cpp", 12000, 600000)], ["unbatched", "batched", "backward", "second-backward", "wrong-widths", "parameters-set"])
check("C10", "cases: random channels, rectangular kernels and images, stride, padding, dilation, batch, against a long double direct convolution and its gradients; nontrivial = distinct (geometry, weights, inputs)",
      [P("c10.cpp", 6000, 300000)], ["large-geometries", "kernels-beyond-7", "passes", "rectangular-kernel", "rectangular-image", "strides", "ragged-stride", "paddings", "dilations", "batches", "input-channels", "output-channels", "kernel-too-large", "invalid-geometry"])
check("C11", "cases: random pool sizes, strides, paddings, images (constant, ties, negative, masked with minus infinity; float, double, int); every window's gradient routed alone; nontrivial = distinct (geometry, image)",
      [P("c11.cpp", 6000, 300000)], ["long-images", "large-geometries", "overlapping", "gaps", "padded", "ties", "windows-routed", "backward", "too-small", "wrong-rank", "integers", "least-only-windows"] + [f"style-{i}" for i in range(6)])
check("C12", "cases: random histories of training passes (rank 2 and 4), learning, mode switches, evaluation passes and rejected inputs, against long double statistics with propagated rounding bounds; nontrivial = distinct (history, input)",
      [P("c12.cpp", 8000, 400000)], ["evaluations-before-backward", "many-features", "large-batches", "long-histories", "training-rank2", "training-rank4", "evaluations-after-training", "evaluations-untrained", "parameters-learnt", "mode-switches", "rejected-inputs", "single-element-batches"])
check("C13", "cases: random inputs and incoming gradients of rank 2 and 4 with learnt scale and shift, against the analytic derivative in long double; nontrivial = distinct (input, gradient)",
      [P("c13.cpp", 8000, 400000)], ["many-features", "large-batches", "long-histories", "rank2", "rank4", "parameter-gradients", "eval-between", "eval-before-backward"])

check("C14", "cases: histories of forward/backward/mode switches with the factor of every element recovered, and drop-rate and independence statistics at 6.5 sigma on tensors of 1 to 12000 elements; nontrivial = distinct histories and configurations",
      [P("c14.cpp", 4000, 200000)], ["rare-outcomes", "training-forward", "training-backward", "eval-forward", "eval-backward", "rate-0", "statistics", "independence", "lags", "small-tensors", "large-tensors"],
      assumptions=["independence is tested for adjacent, half-tensor-apart and successive draws, not for all joint distributions"])
check("C15", "cases: random histories of forward, backward, update on every layer type, each backward compared with a fresh twin that saw only the latest forward pass; nontrivial = distinct histories",
      [P("c15.cpp", 8000, 400000)], ["interleaved-layers", "replaced-layers", "long-histories", "forwards", "backwards", "updates", "flattened", "parameter-gradients", "backward-before-forward", "update-before-backward", "backwards-fc", "backwards-conv", "backwards-bn", "backwards-maxpool", "backwards-dropout", "backwards-flatten", "backwards-activation"])

check("C16", "cases: random prediction/target pairs for both losses in float and double, probabilities including 0, 1 and denormal, soft and one-hot targets, vector targets, mismatching (also broadcastable) shapes; nontrivial = distinct (shape, values)",
      [P("c16.cpp", 40000, 2000000)], ["mse", "cce", "vector-targets", "clamped-predictions", "cce-batches", "cce-mismatches", "broadcastable-mismatches"])
check("C17", "cases: random options and histories of up to thousands of steps (random, constant, alternating, sparse, decaying gradients, overrides), every element of every step judged; nontrivial = distinct (options, history)",
      [P("optim.cpp", 24000, 1000000, flags=["-DOPT=17"])], ["interleaved-optimizers", "unusual-options", "many-parameters", "over-64-parameters", "over-10000-elements", "no-momentum", "momentum", "nesterov", "dampening", "weight-decay", "overrides", "long-histories", "over-1000-elements", "default-options"])
check("C18", "cases: random options and histories of up to thousands of steps (random, constant, alternating, sparse, decaying gradients, overrides), every element of every step judged; nontrivial = distinct (options, history)",
      [P("optim.cpp", 24000, 1000000, flags=["-DOPT=18"])], ["interleaved-optimizers", "unusual-options", "many-parameters", "over-64-parameters", "over-10000-elements", "centered", "uncentered", "momentum", "weight-decay", "overrides", "long-histories", "constant-gradients", "over-1000-elements", "default-options"])
check("C19", "cases: random options and histories of up to thousands of steps (random, constant, alternating, sparse, decaying gradients, overrides), every element of every step judged; nontrivial = distinct (options, history)",
      [P("optim.cpp", 24000, 1000000, flags=["-DOPT=19"])], ["interleaved-optimizers", "unusual-options", "many-parameters", "over-64-parameters", "over-10000-elements", "l1", "l2", "decay", "batch-averages", "overrides", "long-histories", "over-1000-elements", "default-options"])
check("C20", "cases: random interleavings of single and grouped updates of 2-6 parameters, value replacement, exchange, resizing and rejected updates, each parameter compared bit for bit with one served by its own optimizer; nontrivial = distinct histories",
      [P("c20.cpp", 40000, 1000000)], ["many-parameters", "long-histories", "sgd", "rmsprop", "adam", "single-updates", "group-updates", "replaced-values", "exchanged-values", "resized-parameters", "length-mismatches", "size-mismatches"])
check("C21", "cases: random models of 0-7 recording layers (and real layers), histories of compile, train, predict, mode switches, rejected trainings and exceptions inside layers; every call checked against the trace specification and the printed losses against the sample losses; nontrivial = distinct histories",
      [P("c21.cpp", 24000, 1000000)], ["many-layers", "long-trainings", "samples-traced", "trainings", "epochs", "no-epochs", "no-layers", "uncompiled", "count-mismatches", "injected-exceptions", "manual-steps", "predictions", "compiles", "real-models", "zero-losses"],
      technique="runtime monitoring: recording layers, loss and optimizer; the event trace is checked against a trace specification, under ASan and UBSan")
check("C22", "cases: random stacks of 1-9 layers (convolution, batch normalization, pooling, flatten, dropout with a fixed mask, fully connected, all activations) with either loss, unbatched and batched; every sampled parameter gradient seen by the optimizer compared with Richardson-extrapolated central differences, elements at kinks skipped and counted; nontrivial = distinct (model, seed, sample)",
      [P("c22.cpp", 1200, 100000)], ["derivatives", "descents", "conv", "bn", "pool", "flatten", "fc", "dropout", "relu", "leaky", "sigmoid", "tanh", "swish", "mish", "softmax", "cce", "mse", "unbatched", "batched"],
      technique="runtime monitoring: gradients recorded at the optimizer during real training against numerical differentiation of the recorded loss, under ASan and UBSan")
check("C23", "cases: random models (dropout and batch normalization anywhere) under random histories of training, mode switches and predictions; a twin without the evaluation-mode predictions must end bit for bit the same, predictions must repeat, and batches are permuted, split, recomposed and mixed with extreme samples; nontrivial = distinct (model, history)",
      [P("c23.cpp", 4000, 200000)], ["long-lists", "trainings", "training-predictions", "eval-predictions", "repeated-predictions", "list-predictions", "twins-compared", "compositions", "permuted-batches", "single-samples", "recomposed-batches", "beside-extreme-samples", "mixed-lists", "dropout-modes", "bn-modes", "conv", "pool", "softmax", "mode-layer-alone", "mode-layer-last", "mode-layer-first"])
check("C24", "cases: generated image/label files (any size, count, byte), every truncation of both files, corrupted magic numbers, counts, sizes and labels, missing files, text rendering, in a scratch directory; nontrivial = distinct (file contents, request)",
      [P("c24.cpp", 8000, 300000)], ["large-files", "loads", "batches", "short-last-batches", "some-requested", "rectangular", "empty", "truncations", "enough-despite-truncation", "corrupt-headers", "bad-labels", "missing-files", "ascii-art"],
      technique="runtime monitoring: fault injection into generated files, results against the bytes written, under ASan and UBSan")
check("C25", "cases: random sample counts, batch sizes (1 to INT_MAX), noise levels; every sample checked against the relation, and mean, deviation, shape, uniformity and independence at 6.5 sigma; nontrivial = distinct generated data sets",
      [P("c25.cpp", 16000, 400000)], ["beyond-65536-samples", "over-1000-batches", "samples", "statistics", "single", "batched", "short-last-batches", "batch-larger-than-set", "empty"],
      assumptions=["the generators seed themselves, so a run is not repeatable; each bound is missed by a correct generator with probability below 1e-9"])
check("C26", "cases: random sequences of eight kinds of drawing operations replayed from a seed, other seeds, ranges and distributions at 6.5 sigma, constant factories; nontrivial = distinct (seed, operations)",
      [P(["c26.cpp", "c26b.cpp"], 12000, 600000)], ["reproductions", "other-threads-and-files", "thread-streams", "rand", "randn", "uniform", "normal", "constants", "variation-checked", "repetition-checked"] + [f"operation-{i}" for i in range(8)])
check("C27", "cases: random sequences of up to 90 public calls with hostile arguments over a population of tensors, layers, activations, losses, optimizers and models; nontrivial = distinct call sequences",
      [P("c27.cpp", 48000, 1500000),
       P("c27.cpp", 480, 16000, san="none", opt="-Og", flags=["-g"], wrap=VALGRIND, env={"LIGHT": "1"})], ["calls", "completed", "threw", "slice-views", "broadcast-views", "parameters-set"] + [f"layer-{i}" for i in range(9)],
      technique="runtime monitoring: hostile call sequences under ASan, UBSan and valgrind, with operand and consistency monitors")
check("C28", "cases: random life cycles of tensors, layers, optimizers, models and losses (with rejected calls and exceptions thrown by user code), each run three times and every counted block must be gone afterwards; and steady training, prediction, optimization and tensor work whose live blocks and bytes must not grow after a warm-up; nontrivial = distinct histories",
      [P("c28.cpp", 16000, 800000, leaks=True), P("c27.cpp", 4000, 100000, leaks=True)], ["alternating-shapes", "allocations", "lives-tensors", "lives-layers", "lives-optimizers", "lives-models", "lives-others", "rejected-calls", "steady-train", "steady-predict", "steady-train-and-predict", "steady-layer", "steady-optimize", "steady-lives", "steady-allocations"],
      technique="runtime monitoring: counted allocation functions and LeakSanitizer under random object life cycles and steady workloads")
check("C29", "cases: random programs over every parallelised operation (applyPair, transpose, products, Adam on either side of its threshold, layers, training, random tensors), run with 2-8 and sometimes up to 80 threads under ThreadSanitizer (on a run time it understands, with random thread starts) and with libgomp, compared with the serial build of the same sources; nontrivial = distinct (program, order in which the threads began)",
      [P(["c29.cpp", "gomp.cpp"], 20000, 400000, cxx="g++", san="tsan", flags=["-fopenmp", "-DSHIM"], objs=[("c29ref.cpp", [])], env={"SCALE": "300"}),
       P("c29.cpp", 40000, 1600000, cxx="g++", san="none", opt="-O2", flags=["-fopenmp"], objs=[("c29ref.cpp", [])], env={"SCALE": "4000", "OMP_WAIT_POLICY": "passive", "GOMP_SPINCOUNT": "0"}, shards=4)],
      ["programs", "libgomp-programs", "parallel-regions", "batch-matrix", "matrix-batch", "broadcast", "in-place", "scalar", "reduction", "activation", "loss", "structure", "sgd", "rmsprop", "applyPair", "transpose", "dot", "matrix-vector", "matrix-matrix", "batched", "adam-parallel", "adam-serial", "many-threads", "rand", "randn", "model"] + [f"layer-backward-{i}" for i in range(4)] + [f"threads-{i}" for i in range(2, 9)],
      technique="runtime monitoring: ThreadSanitizer over OpenMP regions with randomised thread starts, results compared online with a serial build")
check("C30", "cases: groups of 2-6 threads doing tensor, model, layer, optimizer and activation work on objects of their own while reading shared tensors, activations and losses, with random starts, under ThreadSanitizer; every thread's results must be bit for bit those of the same work done alone; nontrivial = distinct groups of jobs",
      [P("c30.cpp", 12000, 400000, san="tsan", shards=4)], ["threads", "jobs-data", "jobs-tensors", "jobs-model", "jobs-optimizer", "jobs-activations", "same-work"] + [f"jobs-layer-{i}" for i in range(6)] + [f"groups-of-{i}" for i in range(2, 7)],
      technique="runtime monitoring: ThreadSanitizer over groups of threads with randomised starts, results compared online with the same work done alone")
check("C31", "cases: random operations (tensor construction, assignment, arithmetic, reductions, products, views, layers, optimizers, losses, activations, models); each of an operation's allocations fails in turn (all of them up to 80, else 60 chosen at random), sometimes two in a row, then the call is repeated; nontrivial = distinct (operation, operands, allocation count)",
      [P("c31.cpp", 24000, 1000000), P("c31.cpp", 1200, 60000, env={"MODELS": "1"})],
      ["faults", "retries", "operations-enumerated", "operations-sampled", "op-copy-assign", "op-add-in", "op-matmul", "op-layer-fc", "op-layer-conv", "op-layer-bn", "op-layer-maxpool", "op-layer-dropout", "op-layer-flatten", "op-layer-activation", "op-optimizer-0", "op-optimizer-1", "op-optimizer-2", "op-loss-mse", "op-loss-cce", "op-model-train", "op-model-predict", "op-model-build", "op-model-compile", "op-mnist-load", "op-generator", "op-weights", "op-shapes", "op-factories-int", "op-reshape-list", "op-slice-view", "op-move", "op-swap", "op-reshape", "op-slice-view", "op-broadcast-view"],
      level="fault_enumeration", technique="runtime monitoring with fault injection: every allocation of an operation fails in turn, operands, leaks and the repeated call are judged, under ASan and UBSan")
check("C32", "cases: random regression problems (well and ill conditioned, underdetermined, realizable or noisy) trained by full-batch gradient descent, loss and parameters judged after every epoch against the eigenvalues of the loss; and linear targets fitted by every optimizer; nontrivial = distinct (problem, rate, seed)",
      [P("c32.cpp", 4000, 200000, opt="-O2")], ["convex", "epochs", "realizable", "underdetermined", "ill-conditioned", "loss-halved", "fits-sgd", "fits-sgd-momentum", "fits-sgd-nesterov", "fits-rmsprop", "fits-rmsprop-centered", "fits-adam"],
      technique="runtime monitoring: loss and parameters observed after every epoch of real training against exact convergence bounds, under ASan and UBSan")
check("C33", "cases: 1-6 jobs (tensor work, models, layers, optimizers, activations, float and double) done alone and interleaved step by step in random order, with objects appearing and disappearing, allocation noise, and heap and stack filled with changing bytes; every job's hash of all results must be the same every time; nontrivial = distinct interleavings",
      [P("c33.cpp", 12000, 600000), P("c33.cpp", 30000, 1500000, san="none", opt="-O2")], ["alone", "interleavings", "steps", "same-work", "jobs-tensors", "jobs-model", "jobs-optimizer", "jobs-activations"] + [f"jobs-layer-{i}" for i in range(7)],
      technique="runtime monitoring: results of interleaved, repeated and memory-perturbed runs compared bit for bit with the same work done alone, under ASan and UBSan and uninstrumented")
check("C34", "cases: populations of 1-8 objects of one type (every layer, activation, loss, optimizer) that work, are copied, moved, assigned, swapped, kept in growing vectors and destroyed in random order; every object's whole inherited history is replayed on a fresh object and every result compared bit for bit; and models given named layers, losses and optimizers that go on working elsewhere, against models given temporaries; nontrivial = distinct histories containing a copy or move",
      [P("c34.cpp", 24000, 1500000)], ["events", "histories-after-copies", "copy-assignments", "self-assignments", "move-assignments", "swaps", "vector-growth", "models", "same-layer-twice", "given-optimizer-used", "given-layers-used", "moves-activation"] + [f"{a}-{b}" for a in ("copies", "moves") for b in ("fc", "conv", "bn", "dropout", "pool", "flatten", "sgd", "rmsprop", "adam", "leaky", "softmax", "cce", "mse")],
      technique="runtime monitoring: recorded histories of copied, moved and assigned objects replayed on fresh objects and compared bit for bit, under ASan and UBSan")
check("C35", "cases: random shapes and values (float, double, int; infinities, NaN, extreme magnitudes) printed in every way and parsed back; nontrivial = distinct texts",
      [P("c35.cpp", 60000, 3000000)], ["tensors", "abbreviated", "complete", "exactly-10", "exactly-11", "beyond-1000-elements"])
check("C36", "cases: new layers of random sizes, seeds and types (weights, biases, modes, statistics), every optional argument omitted and given, optimizers without and with spelled-out options; nontrivial = distinct (construction, seed)",
      [P("c36.cpp", 60000, 3000000)], ["layers-fc", "layers-conv", "weight-statistics", "seeds-distinguished", "bn-initial", "initial-modes"] + [f"defaults-{x}" for x in ("conv", "pool", "pool-stride", "bn", "leaky", "sgd", "rmsprop", "adam")])
check("C37", "cases: random stacks of library layers with either loss and any optimizer under random histories of compile, train, predict, manual steps, mode switches, growth, direct work on layers and rejected calls; the same public parts called by hand must give bit for bit the same results, parameters and rejections; nontrivial = distinct (model, history)",
      [P("c37.cpp", 8000, 500000)], ["train", "predict", "predict-list", "manual-step", "training-mode", "eval-mode", "one-layer-mode", "recompiled", "layers-added-after-training", "layers-inspected", "weights-set", "rejected", "bad-sample-inside", "repeated-inputs", "target-is-the-prediction", "long-histories", "large-batches"] + [f"with-{x}" for x in ("fc", "conv", "bn", "pool", "flatten", "dropout", "relu", "leaky", "sigmoid", "tanh", "swish", "mish", "softmax")],
      technique="runtime monitoring: whole histories of models compared bit for bit with their parts called by hand, under ASan and UBSan")
check("C38", "cases: random stacks of library layers with a watching stage behind every layer, watched loss and optimizer, trained on ordinary, zero, constant, equal, large (to 1000), tiny (to denormal), one-hot and mixed data, some for hundreds of epochs, predictions in both modes; every tensor seen must be finite; nontrivial = distinct (model, data, training)",
      [P("c38.cpp", 12000, 600000)], ["tensors-watched", "trainings", "predictions", "long-trainings", "batches-of-one", "ordinary", "zeros", "constants", "equal-samples", "large", "tiny", "one-hot", "mixed", "sgd", "rmsprop", "adam", "cce", "mse"] + [f"with-{x}" for x in ("fc", "conv", "bn", "pool", "flatten", "dropout", "relu", "leaky", "sigmoid", "tanh", "swish", "mish", "softmax")],
      technique="runtime monitoring: every value passing between layers, loss and optimizer during real training watched online, under ASan and UBSan",
      assumptions=["a training whose values exceed 1e12 (float) or 1e60 (double) has diverged legitimately and is not judged further; such cases are counted as given-up"])
check("C39", "cases: random programs and jobs (tensor operations, layers, optimizers, models, activations; float and double) done by the library in ten build configurations (gcc and clang, -O0 to -O3, C++17/20/23, with and without assertions, logging, debug containers, unsigned char, pattern-initialised variables) loaded side by side; all results compared; nontrivial = distinct programs",
      [P("c39.cpp", 60000, 2400000, san="none", opt="-O2", libs=["-ldl"], sos=[
          ("clang-O1", "c39job.cpp", "clang++", ["-std=c++17", "-O1"]),
          ("gcc-O3-ndebug", "c39job.cpp", "g++", ["-std=c++17", "-O3", "-DNDEBUG"]),
          ("gcc-O0", "c39job.cpp", "g++", ["-std=c++17", "-O0"]),
          ("clang-O2-cxx20-logging", "c39job.cpp", "clang++", ["-std=c++20", "-O2", "-DENABLE_LOGGING"]),
          ("gcc-O2-cxx20", "c39job.cpp", "g++", ["-std=c++20", "-O2"]),
          ("gcc-O1-debug-containers", "c39job.cpp", "g++", ["-std=c++17", "-O1", "-D_GLIBCXX_DEBUG", "-D_GLIBCXX_DEBUG_PEDANTIC"]),
          ("clang-O3-cxx23-unsigned-char", "c39job.cpp", "clang++", ["-std=c++23", "-O3", "-funsigned-char", "-DNDEBUG"]),
          ("gcc-Os-logging", "c39job.cpp", "g++", ["-std=c++17", "-Os", "-DENABLE_LOGGING"]),
          ("clang-O2-pattern", "c39job.cpp", "clang++", ["-std=c++17", "-O2", "-ftrivial-auto-var-init=pattern", "-fno-strict-aliasing"]),
          ("gcc-O2-pattern", "c39job.cpp", "g++", ["-std=c++17", "-O2", "-ftrivial-auto-var-init=pattern"])])],
      ["identical", "gcc-O3-ndebug", "gcc-O0", "clang-O2-cxx20-logging", "gcc-O2-cxx20", "gcc-O1-debug-containers", "clang-O3-cxx23-unsigned-char", "gcc-Os-logging", "clang-O2-pattern", "gcc-O2-pattern", "tensors", "model", "optimizer", "activations", "applyPair", "transpose", "matrix-matrix", "batched", "adam-parallel", "rand", "randn"] + [f"layer-{i}" for i in range(6)],
      technique="runtime monitoring: the results of ten builds of the same sources under the same workload compared online")
check("C40", "cases: tensors of 2^31 to 1.05 * 2^31 (some of 2^32) elements of type int8_t in random shapes of two to four axes: creation, copies, reshaping, scalar, broadcast and pairwise arithmetic, functions, sums, views, slices, matrix products, transposition, activations, an optimizer step, flattening, pooling, convolution; every element of every result compared with a sparse model; nontrivial = distinct cases",
      [P("c40.cpp", 7, 21, san="none", cxx="g++", opt="-O2", flags=["-fopenmp", "-fwrapv"], env={"OPS": o}, shards=1, tshards=1, cap=700, stall=300, tcap=6000, tstall=900, sepdistinct=True) for o in ("0 1 3 7 8 17 18", "2 4 11 13 15 16 12", "5 6 9 10 12 14 19")],
      [f"group-{i}" for i in range(20)] + ["beyond-2^32", "refused-flatten", "followed-positions", "elements-checked", "results-checked"])
check("C41", "cases: tensors of eleven arithmetic element types (char and its signed and unsigned forms, short, int, long, long long and unsigned forms, long double): broadcasting and scalar arithmetic, functions, reductions, products, transposition, slices, views, construction, equality, texts; long double also activations, mean squared error and optimizer steps; nontrivial = distinct (type, operands)",
      [P("c41.cpp", 300000, 10000000)], ["integer-division-by-a-zero-element", "integer-means", "reductions", "products", "structure", "views", "texts", "extended-precision"] + [f"type-{x}" for x in ("signed char", "unsigned char", "char", "short", "unsigned short", "int", "unsigned", "long", "long long", "unsigned long long", "long double")])
