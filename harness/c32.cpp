// C32: training descends on convex problems at the guaranteed rate, and every optimizer fits a linear target.
#include "model.hpp"
using namespace h;
using namespace smart_dnn;
struct NullBuf : std::streambuf { int overflow(int c) override { return c; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };
using Mat = std::vector<std::vector<ld>>;
// eigenvalues and vectors of a small symmetric matrix (Jacobi)
static void eigen(Mat a, std::vector<ld>& w, Mat& v) {
    size_t n = a.size(); v.assign(n, std::vector<ld>(n, 0)); for (size_t i = 0; i < n; ++i) v[i][i] = 1;
    for (int sweep = 0; sweep < 60; ++sweep) {
        ld off = 0; for (size_t p = 0; p < n; ++p) for (size_t q = p + 1; q < n; ++q) off += a[p][q] * a[p][q];
        if (off < 1e-34L) break;
        for (size_t p = 0; p < n; ++p) for (size_t q = p + 1; q < n; ++q) {
            if (fabsl(a[p][q]) < 1e-22L) continue;
            ld th = (a[q][q] - a[p][p]) / (2 * a[p][q]), t = (th >= 0 ? 1 : -1) / (fabsl(th) + sqrtl(th * th + 1)), c = 1 / sqrtl(t * t + 1), s = t * c;
            for (size_t k = 0; k < n; ++k) { ld x = a[k][p], y = a[k][q]; a[k][p] = c * x - s * y; a[k][q] = s * x + c * y; }
            for (size_t k = 0; k < n; ++k) { ld x = a[p][k], y = a[q][k]; a[p][k] = c * x - s * y; a[q][k] = s * x + c * y; }
            for (size_t k = 0; k < n; ++k) { ld x = v[k][p], y = v[k][q]; v[k][p] = c * x - s * y; v[k][q] = s * x + c * y; }
        }
    }
    w.resize(n); for (size_t i = 0; i < n; ++i) w[i] = a[i][i];
}
struct Quadratic { int N, d, o; std::vector<ld> X, Y; Mat H, V; std::vector<ld> w; ld lmax, lmin; // the loss of a linear layer as a function of (weights; bias)
    Quadratic(int N, int d, int o, std::vector<ld> X, std::vector<ld> Y) : N(N), d(d), o(o), X(X), Y(Y), H(d + 1, std::vector<ld>(d + 1, 0)) {
        for (int r = 0; r < N; ++r) for (int i = 0; i <= d; ++i) for (int j = 0; j <= d; ++j) H[i][j] += 2 * at(r, i) * at(r, j) / (N * o);
        eigen(H, w, V); lmax = *std::max_element(w.begin(), w.end()); lmin = *std::min_element(w.begin(), w.end());
    }
    ld at(int r, int i) const { return i < d ? X[r * d + i] : 1; }
    ld loss(const Mat& W) const { ld s = 0; for (int r = 0; r < N; ++r) for (int c = 0; c < o; ++c) { ld p = 0; for (int i = 0; i <= d; ++i) p += at(r, i) * W[i][c]; s += (p - Y[r * o + c]) * (p - Y[r * o + c]); } return s / (N * o); }
    Mat solution() const { // least squares of least norm
        Mat b(d + 1, std::vector<ld>(o, 0)), W = b; for (int i = 0; i <= d; ++i) for (int c = 0; c < o; ++c) for (int r = 0; r < N; ++r) b[i][c] += 2 * at(r, i) * Y[r * o + c] / (N * o);
        for (int k = 0; k <= d; ++k) if (w[k] > 1e-12L * lmax) for (int c = 0; c < o; ++c) { ld z = 0; for (int i = 0; i <= d; ++i) z += V[i][k] * b[i][c]; z /= w[k]; for (int i = 0; i <= d; ++i) W[i][c] += V[i][k] * z; }
        return W;
    }
};
template <class T> Mat params(FullyConnectedLayer<T>& f, int d, int o) { auto w = vals(f.getWeights()), b = vals(f.getBiases()); Mat W(d + 1, std::vector<ld>(o)); for (int i = 0; i < d; ++i) for (int c = 0; c < o; ++c) W[i][c] = w[i * o + c]; for (int c = 0; c < o; ++c) W[d][c] = b[c]; return W; }
template <class T> ld predictedLoss(SmartDNN<T>& m, const Ten<T>& x, const std::vector<T>& y) { auto p = vals(m.predict(x)); ld s = 0; if (p.size() != y.size()) return NAN; for (size_t i = 0; i < p.size(); ++i) s += (ld(p[i]) - y[i]) * (ld(p[i]) - y[i]); return s / p.size(); }
template <class T> void convex(Rng& g) {
    int d = g.range(1, 6), o = g.range(1, 4), N = g.range(1, 24); unsigned seed = unsigned(g.next());
    bool realizable = g.chance(0.4), skewed = g.chance(0.3); double scale = std::pow(10.0, g.uni(-1, 1));
    std::vector<T> X(N * d), Y(N * o); std::vector<double> col(d); for (auto& c : col) c = scale * (skewed ? std::pow(10.0, g.uni(-1, 0)) : 1);
    for (int r = 0; r < N; ++r) for (int i = 0; i < d; ++i) X[r * d + i] = T(col[i] * g.normal());
    std::vector<double> W0((d + 1) * o); for (auto& x : W0) x = g.uni(-2, 2);
    for (int r = 0; r < N; ++r) for (int c = 0; c < o; ++c) { double y = W0[d * o + c]; for (int i = 0; i < d; ++i) y += W0[i * o + c] * double(X[r * d + i]); Y[r * o + c] = T(realizable ? y : y + g.normal()); }
    Quadratic q(N, d, o, lds(X), lds(Y));
    ld c = g.uni(0.05, 1.0), lr = c / q.lmax; int epochs = g.range(5, 60);
    RandomEngine::setSeed(seed);
    SmartDNN<T> m; m.addLayer(FullyConnectedLayer<T>(d, o)); SGDOptions<T> op; op.learningRate = T(lr); op.momentum = T(0); m.compile(MSELoss<T>(), SGDOptimizer<T>(op)); lr = ld(op.learningRate);
    auto& fc = dynamic_cast<FullyConnectedLayer<T>&>(*m.getLayer(0)); auto x = mk({N, d}, X), y = mk({N, o}, Y);
    R.desc = cat(tname<T>(), " ", N, "x", d, "->", o, " rate ", double(c), "/curvature, ", epochs, " epochs, seed ", seed, realizable ? " realizable" : "", skewed ? " skewed" : "");
    Mat S = q.solution(), W = params(fc, d, o); ld best = q.loss(S), start = q.loss(W), prev = start, dist = 0;
    // distance to the set of solutions, along the directions in which the loss bends
    for (int k = 0; k <= d; ++k) if (q.w[k] > 1e-12L * q.lmax) for (int j = 0; j < o; ++j) { ld z = 0; for (int i = 0; i <= d; ++i) z += q.V[i][k] * (W[i][j] - S[i][j]); dist += z * z; }
    ld mag = 0; for (int r = 0; r < N; ++r) for (int j = 0; j < o; ++j) { ld s = fabsl(q.Y[r * o + j]); for (int i = 0; i <= d; ++i) s += fabsl(q.at(r, i)) * std::max(fabsl(S[i][j]), fabsl(W[i][j])) * 2; mag = std::max(mag, s); }
    ld floor_ = 64 * (d + 2) * EPS<T> * mag * mag; // rounding in the predictions
    bool perEpoch = g.chance(0.8);
    for (int e = 1; e <= epochs; ++e) {
        if (perEpoch) m.train({x}, {y}, 1); else if (e == epochs) m.train({x}, {y}, epochs); else continue;
        ld L = q.loss(params(fc, d, o)); R.eval(2);
        if (!(L <= prev * (1 + 64 * EPS<T>) + floor_)) { R.fail("convex:increase", cat("loss ", double(prev), " -> ", double(L), " in epoch ", e)); return; }
        ld rate = powl(1 - lr * std::max<ld>(q.lmin, 0), 2.0L * e) * (start - best), any = dist / (2 * lr * e);
        ld bound = std::min(rate, any) * (1 + 4 * e * 64 * EPS<T>) + best + floor_ * (1 + e * 0.1L);
        if (!(L <= bound)) { R.fail("convex:rate", cat("loss ", double(L), " after ", e, " epochs, guaranteed ", double(bound), ", started at ", double(start), ", least ", double(best))); return; }
        if (!(L >= best - floor_)) { R.fail("convex:below-least", cat("loss ", double(L), " least ", double(best))); return; }
        ld P = predictedLoss(m, x, Y); if (!(fabsl(P - L) <= floor_ + 1e-3L * L)) { R.fail("convex:prediction", cat("predictions have loss ", double(P), ", parameters ", double(L))); return; }
        prev = L; R.event("epochs");
    }
    R.event("convex"); if (realizable) R.event("realizable"); if (N <= d) R.event("underdetermined"); if (skewed) R.event("ill-conditioned"); R.event("loss-halved", prev - best < 0.5L * (start - best));
    R.sample("convex", cat(R.desc, ": ", double(start), " -> ", double(prev), ", least ", double(best))); R.nontrivial(R.desc);
}
template <class T> void fits(Rng& g) {
    int d = g.range(1, 4), o = g.range(1, 3), N = g.range(4 * (d + 1), 32), opt = g.range(0, 5); unsigned seed = unsigned(g.next()); bool split = g.chance(0.4), unbatched = split && g.chance(0.3);
    std::vector<T> X(N * d), Y(N * o); for (auto& x : X) x = T(std::max(-2.5, std::min(2.5, g.normal())));
    std::vector<double> W0((d + 1) * o); for (auto& x : W0) x = (g.chance(0.5) ? 1 : -1) * g.uni(0.5, 2);
    for (int r = 0; r < N; ++r) for (int c = 0; c < o; ++c) { double y = W0[d * o + c]; for (int i = 0; i < d; ++i) y += W0[i * o + c] * double(X[r * d + i]); Y[r * o + c] = T(y); }
    RandomEngine::setSeed(seed); SmartDNN<T> m; m.addLayer(FullyConnectedLayer<T>(d, o));
    static const char* names[] = {"sgd", "sgd-momentum", "sgd-nesterov", "rmsprop", "rmsprop-centered", "adam"}; double lr = g.uni(0.5, 1.5);
    if (opt <= 2) { SGDOptions<T> q; q.learningRate = T(lr * (opt ? 0.01 : 0.04)); q.momentum = T(opt ? 0.8 : 0); q.nesterov = opt == 2; m.compile(MSELoss<T>(), SGDOptimizer<T>(q)); }
    else if (opt <= 4) { RMSPropOptions<T> q; q.learningRate = T(lr * 0.01); q.centered = opt == 4; q.alpha = T(0.95); q.epsilon = T(1e-4); m.compile(MSELoss<T>(), RMSPropOptimizer<T>(q)); }
    else { AdamOptions<T> q; q.learningRate = T(lr * 0.02); m.compile(MSELoss<T>(), AdamOptimizer<T>(q)); }
    std::vector<Ten<T>> x, y; auto all = mk({N, d}, X);
    if (!split) { x.push_back(all); y.push_back(mk({N, o}, Y)); }
    else for (int r = 0; r < N; r += 4) { int n = std::min(4, N - r); for (int k = 0; k < (unbatched ? n : 1); ++k) { int b = r + (unbatched ? k : 0), e = unbatched ? b + 1 : r + n; Dims dx{e - b, d}, dy{e - b, o}; if (unbatched) { dx = {d}; dy = {o}; } x.push_back(mk(dx, std::vector<T>(X.begin() + b * d, X.begin() + e * d))); y.push_back(mk(dy, std::vector<T>(Y.begin() + b * o, Y.begin() + e * o))); } }
    R.desc = cat(names[opt], " ", tname<T>(), " ", N, "x", d, "->", o, " rate x", lr, " in ", x.size(), " steps an epoch, seed ", seed);
    ld start = predictedLoss(m, all, Y), now = start; if (!(start > 0.05L)) { R.event("started-near"); return; }
    int epochs = 0; while (epochs < 1500 && !(now < 0.02L * start)) { m.train(x, y, 50); epochs += 50; now = predictedLoss(m, all, Y); R.eval(); }
    R.event(cat("fits-", names[opt])); R.event("fit-epochs", epochs);
    if (!(now < 0.02L * start)) R.fail(cat("fits:", names[opt]), cat("loss ", double(start), " -> ", double(now), " in ", epochs, " epochs"));
    R.sample(names[opt], cat(R.desc, ": ", double(start), " -> ", double(now), " in ", epochs, " epochs")); R.nontrivial(R.desc);
}
int main(int argc, char** argv) { static NullBuf nb; std::cout.rdbuf(&nb); return mainLoop(argc, argv, [](Rng& g, u64) { bool f = g.chance(0.5); if (g.chance(0.7)) { if (f) convex<float>(g); else convex<double>(g); } else if (f) fits<float>(g); else fits<double>(g); }); }
