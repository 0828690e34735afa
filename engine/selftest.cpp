// Differential self-test of the expression simplifier and the Z3 translation:
// random terms built through the simplifying constructors must evaluate, under
// random models, to what applying the same operations to concrete values gives;
// and Z3 must agree that the term equals that value.
#include "expr.h"
#include "solver.h"
#include <cstdio>
#include <cstdlib>
#include <random>

static u128 refBin(Kind k, u128 a, u128 b, unsigned w) {
    u128 M = maskW(w);
    auto sg = [&](u128 v) { return w >= 128 ? (i128)v : (i128)((v ^ ((u128)1 << (w - 1))) - ((u128)1 << (w - 1))); };
    switch (k) {
    case K_Add: return (a + b) & M; case K_Sub: return (a - b) & M; case K_Mul: return (a * b) & M;
    case K_UDiv: return b ? a / b : M; case K_URem: return b ? a % b : a;
    case K_SDiv: { i128 x = sg(a), y = sg(b); if (!y) return x < 0 ? 1 : M; return (u128)(x / y) & M; }
    case K_SRem: { i128 x = sg(a), y = sg(b); if (!y) return a; return (u128)(x % y) & M; }
    case K_And: return a & b; case K_Or: return a | b; case K_Xor: return a ^ b;
    case K_Shl: return b >= w ? 0 : (a << (unsigned)b) & M;
    case K_LShr: return b >= w ? 0 : a >> (unsigned)b;
    case K_AShr: return (u128)(sg(a) >> (unsigned)(b >= w ? w - 1 : b)) & M;
    case K_Eq: return a == b; case K_Ult: return a < b; case K_Ule: return a <= b;
    case K_Slt: return sg(a) < sg(b); case K_Sle: return sg(a) <= sg(b);
    default: abort();
    }
}

int selftest(u64 seed, int rounds) {
    std::mt19937_64 rng(seed);
    const int NM = 6;
    const unsigned widths[] = { 1, 3, 8, 16, 32, 64, 33 };
    long terms = 0, z3checks = 0;
    auto interesting = [&](unsigned w) -> u128 {
        switch (rng() % 7) {
        case 0: return 0; case 1: return 1; case 2: return maskW(w); case 3: return (u128)1 << (rng() % w);
        case 4: return rng() % 20 & maskW(w); case 5: return maskW(1 + rng() % w) & maskW(w); default: return rng() & maskW(w);
        }
    };
    for (int r = 0; r < rounds; r++) {
        std::vector<ModelP> ms;
        struct T { E e; u128 v[NM]; };
        std::vector<T> pool;
        std::vector<u128> vals[NM];
        for (int m = 0; m < NM; m++) vals[m].assign(g_vars.size(), 0);
        std::vector<u32> myvars;
        for (int i = 0; i < 4; i++) {
            unsigned w = widths[rng() % 7];
            T t; t.e = mkVar("s", w);
            myvars.push_back(t.e->aux);
            for (int m = 0; m < NM; m++) { t.v[m] = interesting(w); vals[m].push_back(t.v[m]); }
            pool.push_back(t);
        }
        for (int m = 0; m < NM; m++) ms.push_back(freshModel(vals[m]));
        for (int step = 0; step < 40; step++) {
            T t;
            const T& a = pool[rng() % pool.size()];
            unsigned w = a.e->w;
            // second operand of the same width
            auto same = [&]() -> T {
                if (rng() % 3 == 0) { T c; u128 v = interesting(w); c.e = mkConst(v, w); for (auto& x : c.v) x = v; return c; }
                std::vector<int> cand;
                for (size_t i = 0; i < pool.size(); i++) if (pool[i].e->w == w) cand.push_back(i);
                T b = pool[cand[rng() % cand.size()]];
                return b;
            };
            int op = rng() % 12;
            if (op < 5) {
                Kind k = (Kind)(K_Add + rng() % (K_Sle - K_Add + 1));
                if (k == K_Not) { t.e = mkNot(a.e); for (int m = 0; m < NM; m++) t.v[m] = ~a.v[m] & maskW(w); }
                else {
                    T b = same();
                    bool swap = rng() % 2;
                    const T &x = swap ? b : a, &y = swap ? a : b;
                    if (k >= K_UDiv && k <= K_SRem) { bool z = false; for (int m = 0; m < NM; m++) z |= !y.v[m]; if (z || w == 1) continue; }
                    if (k == K_SDiv || k == K_SRem) { bool z = false; for (int m = 0; m < NM; m++) z |= y.v[m] == maskW(w); if (z) continue; }
                    if ((k == K_Shl || k == K_LShr || k == K_AShr) && w == 1) continue;
                    t.e = mkBin(k, x.e, y.e);
                    for (int m = 0; m < NM; m++) t.v[m] = refBin(k, x.v[m], y.v[m], w);
                }
            } else if (op == 5) {
                unsigned nw = 1 + rng() % w, lo = rng() % (w - nw + 1);
                if (rng() % 2) { nw = std::min(w, 8u); lo = (rng() % (w / nw)) * nw; }
                t.e = mkExtract(a.e, lo, nw);
                for (int m = 0; m < NM; m++) t.v[m] = (a.v[m] >> lo) & maskW(nw);
            } else if (op == 6) {
                const T& b = pool[rng() % pool.size()];
                if (w + b.e->w > 64) continue;
                t.e = mkConcat(a.e, b.e);
                for (int m = 0; m < NM; m++) t.v[m] = (a.v[m] << b.e->w) | b.v[m];
            } else if (op == 7) {
                unsigned nw = w + rng() % (65 - w);
                if (rng() % 2) nw = w <= 8 ? 8 : w <= 32 ? 32 : 64;
                t.e = mkZExt(a.e, nw);
                for (int m = 0; m < NM; m++) t.v[m] = a.v[m];
            } else if (op == 8) {
                unsigned nw = rng() % 2 ? 64 : w + rng() % (65 - w);
                t.e = mkSExt(a.e, nw);
                for (int m = 0; m < NM; m++) t.v[m] = (a.v[m] >> (w - 1) & 1) ? (a.v[m] | (maskW(nw) & ~maskW(w))) : a.v[m];
            } else if (op == 9) {
                T b = same();
                std::vector<int> cand;
                for (size_t i = 0; i < pool.size(); i++) if (pool[i].e->w == 1) cand.push_back(i);
                if (cand.empty()) continue;
                const T& c = pool[cand[rng() % cand.size()]];
                t.e = mkIte(c.e, a.e, b.e);
                for (int m = 0; m < NM; m++) t.v[m] = c.v[m] ? a.v[m] : b.v[m];
            } else if (op == 10 && w <= 64 && w > 1) {
                // int -> double -> arithmetic -> int, when exact
                bool fits = true;
                for (int m = 0; m < NM; m++) fits &= a.v[m] < ((u64)1 << 50);
                if (!fits) continue;
                E d = mkIToF(false, a.e, 64);
                u64 div = 1ull << (rng() % 5), add = rng() % 7;
                E q = mkFBin(K_FDiv, d, mkIToF(false, mkConst(div, 64), 64));
                int mode = rng() % 3;
                E x = mkFBin(K_FAdd, q, mkIToF(false, mkConst(add, 64), 64));
                x = mkFRound(x, mode);
                t.e = mkFToI(false, x, 64);
                for (int m = 0; m < NM; m++) { u64 v = a.v[m]; t.v[m] = (mode == 1 ? (v + div - 1) / div : v / div) + add; }
            } else continue;
            terms++;
            if (t.e->w > 64) continue;
            for (int m = 0; m < NM; m++) {
                u128 got = evalExpr(t.e, *ms[m]);
                if (got != t.v[m]) { printf("SELFTEST MISMATCH seed=%llu round %d model %d: %s = %llu expected %llu\n", (unsigned long long)seed, r, m, exprStr(t.e, 6).c_str(), (unsigned long long)got, (unsigned long long)t.v[m]); return 1; }
                if ((u64)got < t.e->lo || (u64)got > t.e->hi) { printf("SELFTEST INTERVAL seed=%llu: %s = %llu not in [%llu,%llu]\n", (unsigned long long)seed, exprStr(t.e, 6).c_str(), (unsigned long long)got, (unsigned long long)t.e->lo, (unsigned long long)t.e->hi); return 1; }
                unsigned z = knownZeroLow(t.e);
                if (z && ((u64)got & mask64(std::min(z, 64u)))) { printf("SELFTEST KZL seed=%llu: %s = %llu kzl %u\n", (unsigned long long)seed, exprStr(t.e, 6).c_str(), (unsigned long long)got, z); return 1; }
            }
            if (rng() % 16 == 0 && !t.e->isConst()) {
                int m = rng() % NM;
                std::vector<E> cons;
                for (size_t i = 0; i < myvars.size(); i++) { E v = g_vars[myvars[i]].e; cons.push_back(mkBin(K_Eq, v, mkConst(vals[m][myvars[i]], v->w))); }
                E ne = mkNot(mkBin(K_Eq, t.e, mkConst(t.v[m], t.e->w)));
                z3checks++;
                ModelP out;
                Res rr = solve(cons, ne, ms[m], &out);
                if (rr != R_Unsat) { printf("SELFTEST Z3 seed=%llu res %d: %s expected %llu\n", (unsigned long long)seed, rr, exprStr(t.e, 6).c_str(), (unsigned long long)t.v[m]); return 1; }
            }
            pool.push_back(t);
        }
    }
    printf("selftest: %ld terms, %ld z3 checks ok\n", terms, z3checks);
    return 0;
}
