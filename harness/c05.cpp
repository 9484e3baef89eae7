// C05: matrix products
#include "common.hpp"
using namespace h;
template <class T> void run(Rng& g) {
    using AO = smart_dnn::AdvancedTensorOperations<T>;
    constexpr bool INT = std::is_integral<T>::value;
    int big = g.range(0, 29), huge = g.chance(0.03);
    auto dim = [&] { return big == 0 ? g.one({1, 2, 31, 33, 63, 64, 65, 100, 127, 129}) : big <= 2 ? g.one({1, 7, 8, 9, 15, 16, 17, 32}) : g.range(1, 7); };
    int ra = g.range(1, 5), rb = g.chance(0.5) ? ra : g.range(1, 5);
    if (g.chance(huge ? 0.7 : 0.25)) if (huge) { int q = g.range(0, 6); ra = "1232112"[q] - '0'; rb = "2123112"[q] - '0'; } else { int q = g.range(0, 4); ra = "12322"[q] - '0'; rb = "21233"[q] - '0'; }
    int m = dim(), k = dim(), n = dim();
    if (huge) { // one or two long sides
        big = 3; m = g.range(1, 5); k = g.range(1, 5); n = g.range(1, 5);
        int* s[3] = {&m, &k, &n}; int a = g.chance(0.3) ? 1 : g.range(0, 2);
        *s[a] = g.chance(0.3) ? g.range(1000, 20000) : int(bigSize(g, 5000)); if (g.chance(0.5)) *s[(a + 1) % 3] = std::min(int(bigSize(g, 1100)), 400000 / *s[a]);
        if (ra == 1 && rb == 1 && g.chance(0.7)) k = int(bigSize(g));
        R.event("beyond-200"); if (k > 1000) R.event("long-inner");
    }
    if (big == 0 && (ra > 3 || rb > 3)) { m = k = n = 9; }
    Dims bd; for (int i = 0; i < std::max(ra, rb) - 2; ++i) bd.push_back(huge ? (m * k * n < 8000 ? g.range(1, 6) : 1) : g.chance(0.002) ? g.range(30, 300) : g.range(1, big == 0 ? 2 : 4));
    Dims da, db;
    if (ra == 1) da = {k}; else { for (int i = 0; i < ra - 2; ++i) da.push_back(bd[i + std::max(ra, rb) - ra]); da.push_back(m); da.push_back(k); }
    if (rb == 1) db = {k}; else { for (int i = 0; i < rb - 2; ++i) db.push_back(bd[i + std::max(ra, rb) - rb]); db.push_back(k); db.push_back(n); }
    bool comb = (ra <= 2 && rb <= 2) || ra == rb || (ra == 3 && rb == 2) || (ra == 2 && rb == 3);
    bool inner = true, batchSame = true;
    int spoil = g.range(0, 9);
    if (spoil == 0) { // inner dimensions differ
        inner = false;
        int delta = g.one({1, 2, 3});
        if (rb == 1) db[0] += delta; else db[rb - 2] += delta;
        if (ra > 1 && rb > 1 && g.chance(0.4) && n != k && n > 0) { db[rb - 2] = n; db[rb - 1] = k; } // transposed operand
        if (ra > 1 && rb > 1 && db[rb - 2] == k) inner = true; 
    } else if (spoil == 1 && ra == rb && ra > 2) {
        int i = g.range(0, ra - 3); int old = db[i];
        db[i] = g.chance(0.4) ? 1 : g.range(1, 5);
        if (g.chance(0.5)) std::swap(da[i], db[i]);
        batchSame = da[i] == db[i]; (void)old;
    }
    std::vector<T> va, vb;
    Kind kind = INT ? INTS : randKind(g);
    if (prod(da) > 400000 || prod(db) > 400000) return;
    va = randVec<T>(g, prod(da), kind); vb = randVec<T>(g, prod(db), kind);
    Ten<T> a = mk<T>(da, va), b = mk<T>(db, vb);
    Snap<T> sa(a), sb(b);
    R.desc = cat("matmul ", tname<T>(), show(da), " x ", show(db));
    R.nontrivial(hashV(da, va, hashV(db, vb)));
    if (!comb) { R.event("unsupported-ranks"); mustThrow("matmul:ranks", R.desc, [&] { AO::matmul(a, b); }); sa.check("matmul:lhs"); sb.check("matmul:rhs"); return; }
    if (!inner) { R.event("inner-mismatch"); mustThrow("matmul:inner", R.desc, [&] { AO::matmul(a, b); }); sa.check("matmul:lhs"); sb.check("matmul:rhs"); return; }
    Dims ba(da.begin(), da.end() - std::min(ra, 2)), bb(db.begin(), db.end() - std::min(rb, 2)), br;
    if (!broadcast(ba, bb, br)) { R.event("batch-mismatch"); mustThrow("matmul:batch", R.desc, [&] { AO::matmul(a, b); }); return; }
    int M = ra == 1 ? 1 : da[ra - 2], K = da[ra - 1], N = rb == 1 ? 1 : db[rb - 1];
    Dims dr = br;
    if (ra > 1) dr.push_back(M);
    if (rb > 1) dr.push_back(N);
    if (dr.empty()) dr = {1};
    std::vector<ld> want, tol;
    Dims i(br.size(), 0);
    do {
        size_t oa = bindex(i, ba) * M * K, ob = bindex(i, bb) * K * N;
        for (int r = 0; r < M; ++r) for (int c = 0; c < N; ++c) {
            ld s = 0, q = 0;
            for (int p = 0; p < K; ++p) { ld x = ld(va[oa + r * K + p]) * ld(vb[ob + p * N + c]); s += x; q += fabsl(x); }
            want.push_back(s); tol.push_back(INT ? 0 : kind == INTS && K < 100000 ? 0.25L : (K + 4) * EPS<T> * q + TINY<T> * K);
        }
    } while (!br.empty() && next(i, br));
    if (!batchSame) { // broadcast or rejected
        R.event("batch-differs");
        Ten<T> r({1});
        if (!throws([&] { r = AO::matmul(a, b); })) same("matmul:batch-broadcast", r, dr, want, tol);
    } else {
        R.event(cat("ranks-", ra, "x", rb));
        if (std::max({M, K, N}) > 64) R.event("beyond-64");
        if (M != N && N != K) R.event("rectangular");
        same(cat("matmul-", ra, "x", rb), AO::matmul(a, b), dr, want, tol);
        R.sample(cat("ranks-", ra, "x", rb), cat(R.desc, " first element ", double(want[0])));
        if (da == db && M == K) { std::vector<ld> w, t; size_t bs = prod(ba); // aliased operands
            for (size_t q = 0; q < bs; ++q) for (int r = 0; r < M; ++r) for (int c = 0; c < M; ++c) { ld s = 0, z = 0; for (int p = 0; p < M; ++p) { ld x = ld(va[(q * M + r) * M + p]) * va[(q * M + p) * M + c]; s += x; z += fabsl(x); } w.push_back(s); t.push_back(INT ? 0 : (M + 4) * EPS<T> * z + TINY<T> * M); }
            if (ra > 1) { R.event("aliased"); same("matmul-aliased", AO::matmul(a, a), dr, w, t); } }
    }
    sa.check("matmul:lhs"); sb.check("matmul:rhs");
}
int main(int c, char** v) {
    return mainLoop(c, v, [](Rng& g, u64) { switch (g.range(0, 4)) { case 0: case 1: run<float>(g); break; case 2: case 3: run<double>(g); break; default: run<int>(g); } });
}
