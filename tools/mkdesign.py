#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, the per-property notes below, known_findings.txt, seeded/*/meta.json and planted_results.txt."""
import json, os, re, sys
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H)
sys.path.insert(0, V); import checks
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
N = {}
def note(id, monitored, oracle, bounds, beyond): N[id] = (monitored, oracle, bounds, beyond)

note("C01", "Every construction of a `Shape` from valid and hostile lists (zeros, negatives, products that overflow or are congruent to a small size modulo 2^64), every in-range index tuple and many out-of-range ones of each shape, histories of reshapes through all overloads.",
 "Rank, size, strides and sizes recomputed in 128-bit arithmetic; reads and writes through `at` against a plain vector (one-to-one: each write must change exactly one stored element); accept/reject decided by the definition.",
 "Rank 1-8; element storage up to a few thousand elements; shapes without storage are unbounded.", "Wrap-around products, single bad components with a valid flat offset, state after a failed reshape.")
note("C02", "All operator forms (tensor/tensor, scalar on either side, in-place, aliased, negate, sqrt, reciprocal, apply, applyPair) on random pairs of shapes for float, double and int.",
 "Element-wise reference over an index walk written from the broadcasting rule; operands compared before and after, also after a rejection.", "Ranks 1-6, up to a few hundred elements.", "Every mapping of broadcast axes instead of constant-filled tensors of one shape; infinities, NaN, exact zero.")
note("C03", "Random histories over a population of tensors (construct, copy, move, self-assign, swap, vector growth, mutate, destroy).",
 "A shadow population of plain vectors compared after *every* step; storage addresses must be disjoint; equality against the shadow's.", "Histories of up to 60 steps; equality also of tensors of up to a million elements that differ in one.", "Sharing only shows when some other tensor is modified later; moved-from objects; ASan sees use after free.")
note("C04", "Sum, mean, variance over whole tensors, one axis, any list of distinct axes in any order, invalid axes.",
 "long double sums with a forward error bound; exact for integer-valued inputs; result shape by definition.", "Rank 1-6, axes up to 40.", "Axis sets, orders and size-1 axes at every position.")
note("C05", "Products for every rank pair 1..5, valid and invalid.", "long double sums of products, error bound from the sum of absolute terms; differing batches may be broadcast correctly or rejected, nothing else.", "Dimensions to 129 (beyond the blocking factor of 64), sometimes one or two sides to 20000 (vectors to 140000).", "Remainders of the blocking, rectangular operands, every batch index.")
note("C06", "All axis pairs, all slices of random shapes; slice views and broadcast views by index and by iterator.", "Index arithmetic from the definition; integer-valued elements identify their origin exactly.", "Rank 1-6.", "The tests never slice or use a view alone.")
note("C07", "All seven activations on every magnitude from denormal to the largest finite value, per sample of a batch.", "long double formulas rearranged to be stable; bound relative in the precision of the element type; softmax sums, independence of samples by changing the others.", "Shapes of rank 1-4.", "Saturation and overflow.")
note("C08", "Gradients of all activations with random incoming gradients, and mismatching ones.", "long double derivatives, full Jacobian for softmax; finite everywhere; rejection under ASan.", "as C07; the derivative at the kink itself is not judged.", "Tests use an all-ones incoming gradient at six points.")
note("C09", "Fully connected forward/backward in batches and single vectors, repeated with changing batch sizes, parameters set and read back.", "Affine map and gradients in long double with error bounds.", "Widths 1-9 (sometimes 30-130), batches 1-9, up to 5 passes per layer.", "Accumulation over passes, rows leaking into each other.")
note("C10", "Convolution with all geometry parameters; forward and backward repeated on one layer; invalid geometry.", "Direct seven-fold loop in long double, gradients by scattering the same index relation.", "Channels 1-3, kernels 1-4 (few channels: to 20), images to 8x8 (more for those kernels), stride to 4, dilation and padding to 3, batches to 3, up to 3 passes.", "Value tests use one sample, one channel, stride 1; ragged strides and dilations differ only in some positions.")
note("C11", "Max pooling geometry; each window's gradient is routed *alone* first, then all together.", "Window maxima; alone, the gradient must land on one position attaining the maximum of that window; together, the sum of what was observed alone (so any tie-breaking is accepted).", "Images to 7x7 (sometimes to 34x34 or 300 long), windows to 4 (sometimes to 9), stride to 5, padding below the window.", "No test touches pooling; ties and overlap are where routing goes wrong.")
note("C12", "Histories of training passes (rank 2 and 4), learning steps, mode switches, evaluation passes, rejected inputs.", "Batch and running statistics in long double carried through the whole history with a propagated rounding bound; the learnt scale and shift are taken from a recording optimizer.", "Features 1-5, histories to 14 operations.", "Running statistics appear only after a mode switch.")
note("C13", "Backward passes of batch normalization after training-mode forwards, with learnt parameters.", "Analytic derivative in long double with error bounds; parameter gradients read at the optimizer.", "Features 1-5, batches of at least 2, up to 4 passes.", "The test looks at the shape only.")
note("C14", "Per-element factor (output / input) of every training-mode pass; histories of forward, backward, mode switches.", "Factors must be 0 or 1/(1-rate) and equal in the backward pass; drop counts, adjacent, half-distance and successive-draw correlations at 6.5 sigma.", "Tensors of 1 to 12000 elements; correlations at lags over many distances; rates down to 1e-4 and up to 0.999 on as many elements as show 200 of the rare outcome.", "Rates that depend on the size, masks that do not match.")
note("C15", "Histories of forward/backward/update on each layer type.", "A fresh twin with the same parameters that saw only the latest forward pass: results must agree; flatten by element identity; call-order errors must throw.", "Histories to 16 calls.", "Stale state.")
note("C16", "Values and gradients of both losses.", "long double formulas (clamp positions of the cross entropy are not prescribed: below the clamp only finiteness and monotone behaviour are judged); gradient against the derivative.", "Batches to 400, classes to 14.", "No test touches the losses.")
for o, n in (("C17", "SGD"), ("C18", "RMSProp"), ("C19", "Adam")):
    note(o, f"Every element of every step of {n} over random option sets and histories (random, constant, alternating, sparse, decaying gradients, overrides).", "The update rule in long double run alongside, from the observed parameter of the step before, with an error bound on each internal state; NaN and infinity are violations.", "Histories to beyond 65536 steps; tensors to 1300 elements; one optimizer with up to 600 parameters; options and overrides log-uniform over the exponents that keep the squares representable.", "Compounding state: bias corrections, dampening, decay, overrides.")
note("C20", "Interleavings of single and grouped updates of 2-6 parameters, value exchange, replacement, resizing and bad updates, all optimizers.", "A twin per parameter with an optimizer of its own: equal bit for bit; gradients and rejected parameters unchanged; ASan for the memory.", "Histories to 40 calls.", "Every test gives one fresh optimizer one parameter.")
note("C21", "Recording layers, loss and optimizer: each virtual call logs (kind, object, token in, token out, mode). Losses of exactly zero, negative losses and zero gradients included. Also stacks of real layers with a counting optimizer.", "An offline checker of the trace against a specification automaton (forward chain, loss arguments, backward chain, one update per layer, reported mean); exceptions injected at any event must surface.", "0-7 layers, to 60 samples, to 5 epochs, histories of 8 operations.", "No test builds a model.")
note("C22", "Gradients captured at the optimizer during `train` on random stacks of library layers.", "Richardson-extrapolated central differences of the recorded loss in double; elements at kinks are detected (differences disagree across step sizes) and skipped, and counted; a small SGD step must not increase the loss.", "1-9 layers.", "Composition errors that no single layer shows.")
note("C23", "Histories of training, mode switches and predictions on random models with mode-dependent layers anywhere (first, last, alone).", "Twin without the evaluation-mode predictions ends bit for bit the same; repeated predictions equal; composition through `getLayer`; batches permuted, split, recomposed, lists of batches of different sizes predicted at once, put beside extreme samples; each mode-dependent layer probed after a switch.", "as C22.", "Purity needs a history to be falsified.")
note("C24", "Generated image/label files in a scratch directory: all sizes, every truncation point, corrupted headers and labels, missing files.", "The bytes written.", "Images to 12x12 (28x28 for text), some of 300, a few of up to 70000 samples.", "Fault at every byte.")
note("C25", "Generated datasets.", "Relation exact for noise 0, statistics at 6.5 sigma otherwise.", "To 6000 samples.", "The generators seed themselves from `random_device`: a run cannot be replayed, but every bound is missed by a correct generator with negligible probability.")
note("C26", "Programs of eight kinds of drawing operations replayed from a seed.", "Bit equality of two runs after seeding with unrelated draws before; other seeds differ; ranges; first two moments and uniformity at 6.5 sigma.", "Programs to 8 operations.", "Hidden state surviving the seeding.")
note("C27", "Sequences of up to 90 public calls with hostile arguments over a population of tensors, views, layers, activations, losses, optimizers and models.", "ASan, UBSan (integer overflow, float casts, null, bounds), valgrind memcheck (uninitialised values) on a second build; operands snapshot before a throwing call; every tensor consistent afterwards; only `std::exception`s.", "Excluded: unchecked `operator[]`, documented asserts.", "The sanitizers see what no assertion sees.")
note("C28", "Life cycles under counting `operator new`/`delete`; steady workloads after a warm-up; LeakSanitizer on a second part.", "Blocks and bytes alive after equal those before; steady state may not grow over iterations, nor when a few shapes alternate.", "Each life three times, to tell caches from leaks.", "Tests never measure memory.")
note("C29", "Programs over all parallelised operations built with `-fopenmp` (2-8 threads, sometimes up to 80). Part one under TSan with a small run time of ours (`gomp.cpp`: pthreads it understands, random thread starts and chunk splits); part two with libgomp itself.", "TSan reports; results compared online with the same sources compiled without OpenMP in the same process (separate namespace); reproducibility from a seed.", "2-8 threads; schedules are sampled, not enumerated.", "No build enables OpenMP.")
note("C30", "Groups of 2-6 threads, own objects, shared read-only tensors/activations/losses.", "TSan reports; every thread's hash of all results equals that of the same job alone.", "Schedules are sampled; random draws are excluded (one engine, documented).", "Tests are single-threaded.")
note("C31", "Each allocation of an operation fails in turn (all up to 80, else 60 sampled), also two in a row; then the call is repeated.", "An exception reaches the caller; operands unchanged or, for mutated ones, valid; no block leaked; the repeated call gives the result of an undisturbed run.", "About 45 operations, including model training.", "No test injects faults.")
note("C32", "Real training, observed after every epoch.", "For full-batch gradient descent: exact bound from the eigenvalues of the quadratic (computed by Jacobi rotation); for other optimizers: loss must fall to a small fraction.", "Features to 6, outputs to 4, samples to 24.", "A property of the whole pipeline.")
note("C33", "The jobs of C30 (tensor work, models, layers, optimizers, activations; float and double) in one thread: alone, and interleaved step by step in random order with objects appearing and disappearing; replaced allocation functions fill fresh and freed blocks with a changing byte, the stack is smeared.", "The hash of all results of a job is the same in every run, shared tensors are unchanged.", "To 6 jobs at once; the steps are whole public calls.", "Static scratch buffers, caches keyed too coarsely, counters shared between instances, uninitialised reads.")
note("C34", "Populations of up to 8 objects of one type working (forward, backward, update, mode switch; optimizer steps on parameters at fixed places; activation and loss calls) while being copied, moved, assigned (also to themselves), swapped, stored in growing vectors and destroyed. Models given named and constant objects that are used elsewhere between trainings.", "Each object carries the events it or its ancestors saw, with the results; the whole history is replayed on a fresh object that was never copied, every result must be equal bit for bit. Models against models given temporaries.", "To 80 operations. A moved-from object is only assigned to or destroyed.", "Shared buffers after a shallow copy (found in SGD and RMSProp), members forgotten in a hand-written copy, references kept to the caller's objects.")
note("C35", "Texts of shapes and tensors of all types, before and after changing the formatting of `std::cout`.", "The text is parsed back and compared with the elements (six digits) and dimensions; exactly ten elements in the detailed text, dots exactly if there are more.", "Ranks 1-12; mostly up to 300 elements, rarely to 140000.", "Nothing in the tests reads a text; off-by-one at 10 elements.")
note("C36", "Constructors of every layer, model and optimizer, with and without their optional arguments.", "Shapes, ranges and zeros by definition; mean, second moment, zeros and neighbour correlation of the weights at 6.5 sigma; bit equality with objects given the defaults explicitly, over passes in both modes or optimizer steps.", "Layers to 600x200 and 64x32x5x5 weights.", "A changed default shows in no test.")
note("C37", "Models of every layer kind, loss and optimizer through histories of up to 120 public calls, including growth after training, recompilation, manual steps, mode switches of one layer, parameters set through `getLayer`, and rejected samples.", "The same public parts in a plain list, called in the documented order from the same seed: predictions, parameters and rejections must be equal bit for bit (how far a rejected training got is not judged).", "1-9 layers (grown to 15), to 4 samples and 3 epochs per training, a few batches of 300 samples.", "Anything the model adds to, drops from or reorders in the work of its parts, however rarely.")
note("C38", "A watching stage behind every layer, a watched loss and a watched optimizer during training of random models on ordinary and degenerate data, and predictions in both modes.", "Every tensor must be finite; a training whose values exceed 1e12 (float) or 1e60 (double) has diverged and is dropped (below 1% of cases, counted). SGD only with cross entropy, whose gradients are bounded; centered RMSProp and alpha 0 with epsilon 1e-3.", "1-9 layers, to 4 samples, to 300 epochs.", "Divisions by zero variance, log 0, 0/0 appear only on degenerate data deep in a pipeline.")
note("C39", "The jobs of C30 and the programs of C29 in ten shared objects, each the whole library built in another configuration (gcc/clang, -O0/-O1/-O2/-O3/-Os, C++17/20/23, NDEBUG, ENABLE_LOGGING, _GLIBCXX_DEBUG, -funsigned-char, pattern-initialised variables), loaded side by side with hidden symbols.", "All results compared number by number with the first build (in practice all are bit-identical; the bound of 1e-3 float, 1e-9 double leaves room for contraction and constant folding). A configuration that does not compile while the first does is a violation. Debug containers abort on invalid iterators.", "Ten configurations.", "Code behind preprocessor branches, asserts with effects, uninitialised variables, unspecified evaluation order. (Found: no C++20 build compiled.)")

note("C40", "Twenty groups of operations on int8_t tensors of 2^31 to 1.05 * 2^31 elements (one group beyond 2^32), shapes of 2-4 axes, built with OpenMP and -fwrapv, so that an overflowing int offset is a wrong offset whatever the optimizer makes of it.", "A sparse model: one value everywhere except at about 70 followed positions (first, last, around 2^31 and 2^32, random ones); every element of every result is compared.", "2-9 GB per tensor; element type int8_t, so means and variances, whose results do not fit in it, are not covered. Transposition and the sum over one axis (100-250 s each) run in the thorough tier only.", "int counters, offsets and products of ints. (Found: pairwise functions, broadcasts, sums over axes, matrix products, softmax, views, flattening.)")

note("C41", "Every tensor operation in eleven element types; activations, mean squared error and optimizers in long double.", "Exact 128-bit integer arithmetic converted to the element type; long double formulas with bounds of a few units of its precision.", "Values are chosen so that no signed arithmetic overflows (unsigned short stays below 2^15 because the language multiplies it in int). Means only where count and sum are representable. `reciprocal` of integers (whose default floor is 0) and INT_MIN / -1 are left out.", "Literals or intermediate results of type float, int or double in generic code; integer division. (Found: means of integers were 0, an integer tensor divided by one with a zero ended the process, characters were printed raw.)")

exec(open(H + "/design_notes_extra.py").read()) if os.path.exists(H + "/design_notes_extra.py") else None
o = [open(H + "/design_head.md").read().rstrip(), "", "## Per property", ""]
for p in props:
    c = checks.CHECKS[p["id"]]; m = N[p["id"]]
    cost = []
    try: cost = [f"{json.load(open(V + '/evidence/' + p['id'] + '.json'))['wall_s']:.0f} s"] if os.environ.get("COST") else []
    except Exception: pass
    parts = "; ".join(f"`{' + '.join(x['src'])}` ({ {'asan': 'ASan+UBSan', 'tsan': 'TSan', 'none': 'valgrind' if x.get('wrap') else 'uninstrumented'}[x.get('san', 'asan')] }{', LSan' if x.get('leaks') else ''}, {x['cases'][0]} quick / {x['cases'][1]} thorough cases)" for x in c["parts"])
    o += [f"### {p['id']} {p['title']}", "", f"*Parts:* {parts}.  ", f"*Monitored:* {m[0]}  ", f"*Oracle:* {m[1]}  ", f"*Bounds:* {m[2]}  ", f"*Beyond the tests:* {m[3]}", ""]
o += [open(H + "/design_tail.md").read().rstrip(), ""]
o += ["## Defects found in the original code and repaired", "", "Each is one `fix:` commit in /repo (see `known_findings.txt`); none is left open.", ""]
for l in open(V + "/known_findings.txt"):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m: o.append(f"- {m.group(1)} `{m.group(2)}` {m.group(3)}")
o += ["", "## Planted bugs and the checks that catch them", "", "Each is in `seeded/<id>/`; the column *caught* is from running the named property's check with the patch applied (quick tier, seed 1).", "", "| bug | breaks | needs | caught |", "|---|---|---|---|"]
res = {}
for l in open(H + "/planted_results.txt"):
    w = l.split(None, 2)
    if len(w) > 1: res[w[0]] = w[1]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json")); o.append(f"| {d} | {m['what_it_breaks']} | {m['needs']} | {res.get(d, '?')} |")
o.append("")
open(V + "/DESIGN.md", "w").write("\n".join(o))
