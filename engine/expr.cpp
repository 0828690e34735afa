#include "expr.h"
#include <cmath>
#include <cstring>
#include <deque>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>

std::vector<VarInfo> g_vars;

namespace {
struct Key {
    Kind k; uint16_t w; int aux; E a, b, c; u64 v, vh;
    bool operator==(const Key& o) const {
        return k == o.k && w == o.w && aux == o.aux && a == o.a && b == o.b && c == o.c && v == o.v && vh == o.vh;
    }
};
struct KeyHash {
    size_t operator()(const Key& x) const {
        u64 h = x.k * 0x9E3779B97F4A7C15ULL + x.w * 1315423911u + (u64)x.aux * 2654435761u;
        auto mix = [&](u64 y) { h ^= y + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; };
        mix((u64)x.a); mix((u64)x.b); mix((u64)x.c); mix(x.v); mix(x.vh);
        return h ^ (h >> 29);
    }
};
std::deque<Expr> arena;
std::unordered_map<Key, E, KeyHash> table;

struct VSHash { size_t operator()(const std::vector<u32>& v) const { u64 h = v.size(); for (u32 x : v) h = h * 1099511628211ULL + x + 1; return h; } };
std::unordered_map<std::vector<u32>, VarSet*, VSHash> vsets;
const VarSet* internVS(std::vector<u32> v) {
    auto it = vsets.find(v);
    if (it != vsets.end()) return it->second;
    auto* s = new VarSet{ v, (u32)vsets.size() };
    vsets.emplace(std::move(v), s);
    return s;
}
const VarSet* emptyVS() { static const VarSet* e = internVS({}); return e; }
struct PairHash { size_t operator()(const std::pair<u32,u32>& p) const { return ((u64)p.first << 32 | p.second) * 0x9E3779B97F4A7C15ULL >> 7; } };
std::unordered_map<std::pair<u32,u32>, const VarSet*, PairHash> unionCache;
const VarSet* unionVS(const VarSet* a, const VarSet* b) {
    if (a == b || b->ids.empty()) return a;
    if (a->ids.empty()) return b;
    auto key = std::make_pair(std::min(a->id, b->id), std::max(a->id, b->id));
    auto it = unionCache.find(key);
    if (it != unionCache.end()) return it->second;
    std::vector<u32> r;
    std::set_union(a->ids.begin(), a->ids.end(), b->ids.begin(), b->ids.end(), std::back_inserter(r));
    auto* s = internVS(std::move(r));
    unionCache[key] = s;
    return s;
}

void interval(Expr& x) {
    x.lo = 0; x.hi = mask64(x.w);
    if (x.w > 64) { x.hi = ~0ULL; return; }
    const u64 M = mask64(x.w);
    auto A = x.a, B = x.b;
    switch (x.k) {
    case K_Const: x.lo = x.hi = x.v; break;
    case K_Add: { u64 h; if (!__builtin_add_overflow(A->hi, B->hi, &h) && h <= M) { x.lo = A->lo + B->lo; x.hi = h; }
        else if (B->isConst() && (u128)A->lo + B->v > M && B->v <= M) { x.lo = (A->lo + B->v) & M; x.hi = (A->hi + B->v) & M; } break; }
    case K_Sub: if (A->lo >= B->hi) { x.lo = A->lo - B->hi; x.hi = A->hi - B->lo; } break;
    case K_Mul: { u64 h; if (!__builtin_mul_overflow(A->hi, B->hi, &h) && h <= M) { x.lo = A->lo * B->lo; x.hi = h; } break; }
    case K_UDiv: if (B->lo > 0) { x.lo = A->lo / B->hi; x.hi = A->hi / B->lo; } break;
    case K_URem: if (B->lo > 0) { x.hi = std::min(A->hi, B->hi - 1); if (A->hi < B->lo) { x.lo = A->lo; x.hi = A->hi; } } else x.hi = std::max(A->hi, B->hi); break;
    case K_And: x.hi = std::min(A->hi, B->hi); break;
    case K_Or: { x.lo = std::max(A->lo, B->lo); u64 m = A->hi | B->hi; m |= m >> 1; m |= m >> 2; m |= m >> 4; m |= m >> 8; m |= m >> 16; m |= m >> 32; x.hi = std::min(M, m); break; }
    case K_Xor: { u64 m = A->hi | B->hi; m |= m >> 1; m |= m >> 2; m |= m >> 4; m |= m >> 8; m |= m >> 16; m |= m >> 32; x.hi = std::min(M, m); break; }
    case K_Shl: if (B->isConst() && B->v < 64) { u128 h = (u128)A->hi << B->v; if (h <= M) { x.lo = A->lo << B->v; x.hi = (u64)h; } } break;
    case K_LShr: if (B->isConst()) { if (B->v < 64) { x.lo = A->lo >> B->v; x.hi = A->hi >> B->v; } else x.lo = x.hi = 0; } else x.hi = A->hi; break;
    case K_Ite: x.lo = std::min(B->lo, x.c->lo); x.hi = std::max(B->hi, x.c->hi); break;
    case K_ZExt: x.lo = A->lo; x.hi = A->hi; break;
    case K_SExt: if (A->w <= 64 && A->hi < (1ULL << (A->w - 1))) { x.lo = A->lo; x.hi = A->hi; } break;
    case K_Extract: if (A->w <= 64) { if (x.aux == 0 && A->hi <= M) { x.lo = A->lo; x.hi = A->hi; } else if (x.aux + x.w == A->w) { x.lo = A->lo >> x.aux; x.hi = A->hi >> x.aux; } } break;
    case K_Concat: if (B->w < 64) { x.lo = (A->lo << B->w) | B->lo; x.hi = (A->hi << B->w) | B->hi; } break;
    default: break;
    }
}

E node(Kind k, unsigned w, E a, E b, E c, int aux, u64 v = 0, u64 vh = 0) {
    Key key{ k, (uint16_t)w, aux, a, b, c, v, vh };
    auto it = table.find(key);
    if (it != table.end()) return it->second;
    arena.emplace_back();
    Expr& x = arena.back();
    x.k = k; x.w = w; x.aux = aux; x.a = a; x.b = b; x.c = c; x.v = v; x.vh = vh;
    x.id = arena.size(); x.evGen = 0; x.z3 = nullptr;
    x.uninit = (a && a->uninit) || (b && b->uninit) || (c && c->uninit);
    const VarSet* vs = emptyVS();
    if (a) vs = unionVS(vs, a->vars);
    if (b) vs = unionVS(vs, b->vars);
    if (c) vs = unionVS(vs, c->vars);
    x.vars = vs;
    interval(x);
    if (w <= 64 && x.lo == x.hi && k != K_Const && k != K_Var) {
        u64 cv = x.lo;
        arena.pop_back(); // before mkConst, which may append to the arena
        E r = mkConst(cv, w);
        table.emplace(key, r);
        return r;
    }
    table.emplace(key, &x);
    return &x;
}

i128 sx(u128 v, unsigned w) {
    if (w >= 128) return (i128)v;
    u128 m = (u128)1 << (w - 1);
    return (i128)((v ^ m) - m);
}
double bitsD(u64 v) { double d; memcpy(&d, &v, 8); return d; }
float bitsF(u32 v) { float d; memcpy(&d, &v, 4); return d; }
u64 dBits(double d) { u64 v; memcpy(&v, &d, 8); return v; }
u32 fBits(float d) { u32 v; memcpy(&v, &d, 4); return v; }

u128 foldBin(Kind k, u128 a, u128 b, unsigned w) {
    u128 M = maskW(w);
    switch (k) {
    case K_Add: return (a + b) & M;
    case K_Sub: return (a - b) & M;
    case K_Mul: return (a * b) & M;
    case K_UDiv: return b ? a / b : M;
    case K_URem: return b ? a % b : a;
    case K_SDiv: { i128 x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : M; if (y == -1) return (u128)(-x) & M; return (u128)(x / y) & M; }
    case K_SRem: { i128 x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & M; }
    case K_And: return a & b;
    case K_Or: return a | b;
    case K_Xor: return a ^ b;
    case K_Shl: return b >= w ? 0 : (a << (unsigned)b) & M;
    case K_LShr: return b >= w ? 0 : a >> (unsigned)b;
    case K_AShr: { i128 x = sx(a, w); return (u128)(x >> (unsigned)(b >= w ? w - 1 : b)) & M; }
    case K_Eq: return a == b;
    case K_Ult: return a < b;
    case K_Ule: return a <= b;
    case K_Slt: return sx(a, w) < sx(b, w);
    case K_Sle: return sx(a, w) <= sx(b, w);
    default: return 0;
    }
}
u128 foldF(Kind k, u128 a, u128 b, unsigned w) {
    if (w == 64) {
        double x = bitsD((u64)a), y = bitsD((u64)b);
        switch (k) {
        case K_FAdd: return dBits(x + y); case K_FSub: return dBits(x - y);
        case K_FMul: return dBits(x * y); case K_FDiv: return dBits(x / y);
        case K_FOeq: return x == y; case K_FOlt: return x < y; case K_FOle: return x <= y;
        case K_FUno: return std::isnan(x) || std::isnan(y);
        default: return 0;
        }
    }
    float x = bitsF((u32)a), y = bitsF((u32)b);
    switch (k) {
    case K_FAdd: return fBits(x + y); case K_FSub: return fBits(x - y);
    case K_FMul: return fBits(x * y); case K_FDiv: return fBits(x / y);
    case K_FOeq: return x == y; case K_FOlt: return x < y; case K_FOle: return x <= y;
    case K_FUno: return std::isnan(x) || std::isnan(y);
    default: return 0;
    }
}
u128 foldIToF(bool s, u128 a, unsigned w, unsigned fw) {
    if (fw == 64) return dBits(s ? (double)sx(a, w) : (double)a);
    return fBits(s ? (float)sx(a, w) : (float)a);
}
u128 foldFToI(bool s, u128 a, unsigned fw, unsigned iw) {
    double d = fw == 64 ? bitsD((u64)a) : (double)bitsF((u32)a);
    if (!(std::fabs(d) < 1.7e38)) return 0;
    if (s) return (u128)(i128)d & maskW(iw);
    return (d < 0 ? (u128)(i128)d : (u128)d) & maskW(iw);
}
u128 foldFToF(u128 a, unsigned fw, unsigned tw) {
    if (fw == tw) return a;
    if (fw == 32) return dBits((double)bitsF((u32)a));
    return fBits((float)bitsD((u64)a));
}
u128 foldRound(u128 a, unsigned w, int mode) {
    double d = w == 64 ? bitsD((u64)a) : bitsF((u32)a);
    double r = mode == 0 ? std::floor(d) : mode == 1 ? std::ceil(d) : mode == 2 ? std::trunc(d) : std::nearbyint(d);
    return w == 64 ? dBits(r) : fBits((float)r);
}
double foldDyad(u128 a, unsigned iw, int e) { return std::ldexp((double)sx(a, iw), e); }
} // namespace

E mkConst(u128 v, unsigned w) {
    v &= maskW(w);
    return node(K_Const, w, nullptr, nullptr, nullptr, 0, (u64)v, (u64)(v >> 64));
}
E mkVar(const std::string& name, unsigned w, bool uninit) {
    int idx = g_vars.size();
    E e = node(K_Var, w, nullptr, nullptr, nullptr, idx);
    Expr* x = const_cast<Expr*>(e);
    x->uninit = uninit;
    x->vars = internVS({ (u32)idx });
    g_vars.push_back({ name, (uint16_t)w, uninit, e });
    return e;
}

static bool isPow2(u64 v) { return v && !(v & (v - 1)); }
static unsigned lg2(u64 v) { return 63 - __builtin_clzll(v); }

unsigned knownZeroLow(E e) {
    switch (e->k) {
    case K_Const: return e->v ? __builtin_ctzll(e->v) : 64;
    case K_Mul: return std::min(64u, knownZeroLow(e->a) + knownZeroLow(e->b));
    case K_Shl: return e->b->isConst() ? std::min<u64>(64, knownZeroLow(e->a) + e->b->v) : knownZeroLow(e->a);
    case K_Add: case K_Sub: case K_Or: case K_Xor: return std::min(knownZeroLow(e->a), knownZeroLow(e->b));
    case K_And: return std::max(knownZeroLow(e->a), knownZeroLow(e->b));
    case K_Ite: return std::min(knownZeroLow(e->b), knownZeroLow(e->c));
    case K_ZExt: case K_SExt: { unsigned z = knownZeroLow(e->a); return z >= e->a->w ? 64 : z; }
    case K_Concat: { unsigned z = knownZeroLow(e->b); return z >= e->b->w ? std::min(64u, e->b->w + knownZeroLow(e->a)) : z; }
    case K_Extract: if (e->aux == 0) return knownZeroLow(e->a); return 0;
    default: return 0;
    }
}

void splitAdd(E e, E& base, u64& off) {
    off = 0; base = e;
    if (e->isConst()) { base = nullptr; off = e->v; return; }
    if (e->k == K_Add && e->b->isConst()) { base = e->a; off = e->b->v; }
}

E mkNot(E a) {
    if (a->isConst()) return mkConst(~a->cv(), a->w);
    if (a->k == K_Not) return a->a;
    if (a->w == 1) {
        if (a->k == K_Ult) return mkBin(K_Ule, a->b, a->a);
        if (a->k == K_Ule) return mkBin(K_Ult, a->b, a->a);
        if (a->k == K_Slt) return mkBin(K_Sle, a->b, a->a);
        if (a->k == K_Sle) return mkBin(K_Slt, a->b, a->a);
    }
    return node(K_Not, a->w, a, nullptr, nullptr, 0);
}

static bool commutative(Kind k) { return k == K_Add || k == K_Mul || k == K_And || k == K_Or || k == K_Xor || k == K_Eq; }

E mkBin(Kind k, E a, E b) {
    const unsigned w = a->w;
    bool cmp = k >= K_Eq && k <= K_Sle;
    if (a->isConst() && b->isConst()) return mkConst(foldBin(k, a->cv(), b->cv(), w), cmp ? 1 : w);
    if (commutative(k)) {
        if (a->isConst()) std::swap(a, b);
        else if (!b->isConst() && a->id > b->id) std::swap(a, b);
    }
    const bool bc = b->isConst() && w <= 64;
    const u64 bv = b->v;
    const u64 M = mask64(w);
    switch (k) {
    case K_Add:
        if (w == 1) return mkBin(K_Xor, a, b);
        if (bc) {
            if (bv == 0) return a;
            if (a->k == K_Add && a->b->isConst()) return mkBin(K_Add, a->a, mkConst(a->b->v + bv, w));
            if (a->k == K_Sub && a->a->isConst()) return mkBin(K_Sub, mkConst(a->a->v + bv, w), a->b);
            if (a->k == K_Ite && a->b->isConst() && a->c->isConst())
                return mkIte(a->a, mkConst(a->b->v + bv, w), mkConst(a->c->v + bv, w));
        } else if (b->isConst()) { // (wider than 64 bits)
            if (b->cv() == 0) return a;
            if (a->k == K_Add && a->b->isConst()) return mkBin(K_Add, a->a, mkConst(a->b->cv() + b->cv(), w));
        } else {
            if (a->k == K_Add && a->b->isConst()) return mkBin(K_Add, mkBin(K_Add, a->a, b), a->b);
            if (b->k == K_Add && b->b->isConst()) return mkBin(K_Add, mkBin(K_Add, a, b->a), b->b);
            if (a->k == K_Sub && a->b == b) return a->a;
            if (b->k == K_Sub && b->b == a) return b->a;
        }
        break;
    case K_Sub:
        if (w == 1) return mkBin(K_Xor, a, b);
        if (a == b) return mkConst(0, w);
        if (bc) return mkBin(K_Add, a, mkConst(0 - bv, w));
        if (b->k == K_Add && b->b->isConst()) return mkBin(K_Add, mkBin(K_Sub, a, b->a), mkConst(0 - b->b->cv(), w));
        if (a->k == K_Add) {
            if (a->b->isConst()) return mkBin(K_Add, mkBin(K_Sub, a->a, b), a->b);
            if (a->a == b) return a->b;
            if (a->b == b) return a->a;
        }
        if (b->k == K_Add) {
            if (b->a == a) return mkBin(K_Sub, mkConst(0, w), b->b);
            if (b->b == a) return mkBin(K_Sub, mkConst(0, w), b->a);
        }
        if (a->k == K_Add && b->k == K_Add) {
            if (a->a == b->a) return mkBin(K_Sub, a->b, b->b);
            if (a->b == b->b) return mkBin(K_Sub, a->a, b->a);
            if (a->a == b->b) return mkBin(K_Sub, a->b, b->a);
            if (a->b == b->a) return mkBin(K_Sub, a->a, b->b);
        }
        break;
    case K_Mul:
        if (w == 1) return mkBin(K_And, a, b);
        if (bc) {
            if (bv == 0) return b;
            if (bv == 1) return a;
            if (isPow2(bv)) return mkBin(K_Shl, a, mkConst(lg2(bv), w));
            if (a->k == K_Mul && a->b->isConst()) return mkBin(K_Mul, a->a, mkConst(a->b->v * bv, w));
            if (a->k == K_Ite && a->b->isConst() && a->c->isConst())
                return mkIte(a->a, mkConst(a->b->v * bv, w), mkConst(a->c->v * bv, w));
        }
        break;
    case K_UDiv:
        if (bc) {
            if (bv == 1) return a;
            if (isPow2(bv)) return mkBin(K_LShr, a, mkConst(lg2(bv), w));
            if (bv && a->k == K_UDiv && a->b->isConst()) { u64 p; if (!__builtin_mul_overflow(a->b->v, bv, &p) && p <= M) return mkBin(K_UDiv, a->a, mkConst(p, w)); else return mkConst(0, w); }
        }
        if (w <= 64) {
            if (a->hi < b->lo) return mkConst(0, w);
            if (a->k == K_Mul && a->b->isConst() && bc && bv && a->b->v % bv == 0) { u64 h; if (!__builtin_mul_overflow(a->a->hi, a->b->v, &h) && h <= M) return mkBin(K_Mul, a->a, mkConst(a->b->v / bv, w)); }
        }
        if (a->k == K_ZExt && w <= 64) {
            unsigned nw = a->a->w;
            if (b->k == K_ZExt && b->a->w <= nw) return mkZExt(mkBin(K_UDiv, a->a, mkZExt(b->a, nw)), w)/* x/0 differs, guarded by callers */;
            if (bc && bv && bv <= mask64(nw)) return mkZExt(mkBin(K_UDiv, a->a, mkConst(bv, nw)), w);
        }
        break;
    case K_URem:
        if (bc) {
            if (bv == 1) return mkConst(0, w);
            if (isPow2(bv)) return mkBin(K_And, a, mkConst(bv - 1, w));
        }
        if (w <= 64 && a->hi < b->lo) return a;
        if (a->k == K_ZExt && w <= 64) {
            unsigned nw = a->a->w;
            if (b->k == K_ZExt && b->a->w <= nw) return mkZExt(mkBin(K_URem, a->a, mkZExt(b->a, nw)), w);
            if (bc && bv && bv <= mask64(nw)) return mkZExt(mkBin(K_URem, a->a, mkConst(bv, nw)), w);
        }
        break;
    case K_SDiv: case K_SRem:
        if (w <= 64 && w > 1 && a->hi <= (M >> 1) && b->hi <= (M >> 1)) return mkBin(k == K_SDiv ? K_UDiv : K_URem, a, b);
        if (w > 2 && b->isConst()) { // by a power of two, without a divider
            u128 d = b->cv();
            unsigned n = 0;
            while (n + 2 < w && !(d >> n & 1)) n++;
            if (n && d == (u128)1 << n) {
                E bias = mkBin(K_LShr, mkBin(K_AShr, a, mkConst(w - 1, w)), mkConst(w - n, w));
                E q = mkBin(K_AShr, mkBin(K_Add, a, bias), mkConst(n, w));
                return k == K_SDiv ? q : mkBin(K_Sub, a, mkBin(K_Shl, q, mkConst(n, w)));
            }
        }
        break;
    case K_And:
        if (a == b) return a;
        if (bc) {
            if (bv == 0) return b;
            if (bv == M) return a;
            if (a->hi <= bv && isPow2(bv + 1)) return a;
            if (isPow2(bv + 1)) return mkZExt(mkExtract(a, 0, lg2(bv + 1)), w);
            if (a->k == K_And && a->b->isConst()) return mkBin(K_And, a->a, mkConst(a->b->v & bv, w));
            if (a->k == K_ZExt) return mkZExt(mkBin(K_And, a->a, mkConst(bv, a->a->w)), w);
            if (a->k == K_Concat && w <= 64) {
                unsigned bw = a->b->w;
                return mkConcat(mkBin(K_And, a->a, mkConst(bv >> bw, w - bw)), mkBin(K_And, a->b, mkConst(bv, bw)));
            }
        }
        if (w == 1) {
            if (a->k == K_Not && a->a == b) return mkFalse();
            if (b->k == K_Not && b->a == a) return mkFalse();
        }
        break;
    case K_Or:
        if (a == b) return a;
        if (bc) {
            if (bv == 0) return a;
            if (bv == M) return b;
        }
        if (w == 1) {
            if (a->k == K_Not && a->a == b) return mkTrue();
            if (b->k == K_Not && b->a == a) return mkTrue();
        } else if (w <= 64) {
            // disjoint halves -> concat
            auto tryCat = [&](E hi, E lo) -> E {
                unsigned z = knownZeroLow(hi);
                if (z > 0 && z < w && lo->hi <= mask64(z)) return mkConcat(mkExtract(hi, z, w - z), mkExtract(lo, 0, z));
                return nullptr;
            };
            if (E r = tryCat(a, b)) return r;
            if (E r = tryCat(b, a)) return r;
        }
        break;
    case K_Xor:
        if (a == b) return mkConst(0, w);
        if (bc) {
            if (bv == 0) return a;
            if (bv == M) return mkNot(a);
            if (a->k == K_Xor && a->b->isConst()) return mkBin(K_Xor, a->a, mkConst(a->b->v ^ bv, w));
        }
        break;
    case K_Shl:
        if (b->isConst()) {
            if (bv == 0) return a;
            if (bv >= w) return mkConst(0, w);
            return mkConcat(mkExtract(a, 0, w - bv), mkConst(0, bv));
        }
        break;
    case K_LShr:
        if (b->isConst()) {
            if (bv == 0) return a;
            if (bv >= w) return mkConst(0, w);
            return mkZExt(mkExtract(a, bv, w - bv), w);
        }
        break;
    case K_AShr:
        if (b->isConst()) {
            if (bv == 0) return a;
            u64 s = bv >= w ? w - 1 : bv;
            if (w <= 64 && a->hi <= (M >> 1)) return mkBin(K_LShr, a, mkConst(s, w));
            return mkSExt(mkExtract(a, s, w - s), w);
        }
        break;
    case K_Eq:
        if (a == b) return mkTrue();
        if (w <= 64 && (a->hi < b->lo || b->hi < a->lo)) return mkFalse();
        if (bc) {
            if (w == 1) return bv ? a : mkNot(a);
            if (a->k == K_ZExt) return mkBin(K_Eq, a->a, mkConst(bv, a->a->w));
            if (a->k == K_SExt) {
                u64 t = sext64(bv & mask64(a->a->w), a->a->w) & M;
                if (t != bv) return mkFalse();
                return mkBin(K_Eq, a->a, mkConst(bv, a->a->w));
            }
            if (a->k == K_Add && a->b->isConst()) return mkBin(K_Eq, a->a, mkConst(bv - a->b->v, w));
            if (a->k == K_Sub && a->a->isConst()) return mkBin(K_Eq, a->b, mkConst(a->a->v - bv, w));
            if (a->k == K_Sub && bv == 0) return mkBin(K_Eq, a->a, a->b);
            if (a->k == K_Not) return mkBin(K_Eq, a->a, mkConst(~bv, w));
            if (a->k == K_Xor && bv == 0) return mkBin(K_Eq, a->a, a->b);
            if (a->k == K_Xor && a->b->isConst()) return mkBin(K_Eq, a->a, mkConst(bv ^ a->b->v, w));
            if (a->k == K_Concat) {
                unsigned lw = a->b->w;
                return mkBin(K_And, mkBin(K_Eq, a->a, mkConst(bv >> lw, a->a->w)), mkBin(K_Eq, a->b, mkConst(bv, lw)));
            }
            if (a->k == K_Ite) {
                if (a->b->isConst() || a->c->isConst() || (a->b->k == K_Ite && a->b->b->isConst()) || (a->c->k == K_Ite && a->c->b->isConst())) {
                    E t = mkBin(K_Eq, a->b, b), f = mkBin(K_Eq, a->c, b);
                    if (t->isConst() || f->isConst()) return mkIte(a->a, t, f);
                }
            }
        } else {
            if (a->k == K_ZExt && b->k == K_ZExt) {
                unsigned nw = std::max(a->a->w, b->a->w);
                return mkBin(K_Eq, mkZExt(a->a, nw), mkZExt(b->a, nw));
            }
            if (a->k == K_SExt && b->k == K_SExt && a->a->w == b->a->w) return mkBin(K_Eq, a->a, b->a);
            if (a->k == K_Concat && b->k == K_Concat && a->b->w == b->b->w)
                return mkBin(K_And, mkBin(K_Eq, a->a, b->a), mkBin(K_Eq, a->b, b->b));
            if (a->k == K_Add && b->k == K_Add && a->b == b->b) return mkBin(K_Eq, a->a, b->a);
            if (a->k == K_Add && a->a == b) return mkBin(K_Eq, a->b, mkConst(0, w));
            if (b->k == K_Add && b->a == a) return mkBin(K_Eq, b->b, mkConst(0, w));
        }
        break;
    case K_Ult:
        if (a == b) return mkFalse();
        if (w <= 64) {
            if (a->hi < b->lo) return mkTrue();
            if (a->lo >= b->hi) return mkFalse();
            if (w == 1) return mkBin(K_And, mkNot(a), b);
            if (bc && bv == 1) return mkBin(K_Eq, a, mkConst(0, w));
            if (a->isConst() && a->v == 0) return mkNot(mkBin(K_Eq, b, a));
        }
        if (a->k == K_ZExt && b->k == K_ZExt) { unsigned nw = std::max(a->a->w, b->a->w); return mkBin(k, mkZExt(a->a, nw), mkZExt(b->a, nw)); }
        if (a->k == K_ZExt && bc) return mkBin(k, a->a, mkConst(bv, a->a->w)); // bv <= hi here by interval
        if (b->k == K_ZExt && a->isConst() && w <= 64) return mkBin(k, mkConst(a->v, b->a->w), b->a);
        break;
    case K_Ule:
        if (a == b) return mkTrue();
        if (w <= 64) {
            if (a->hi <= b->lo) return mkTrue();
            if (a->lo > b->hi) return mkFalse();
            if (w == 1) return mkBin(K_Or, mkNot(a), b);
            if (bc && bv == 0) return mkBin(K_Eq, a, b);
            if (a->isConst() && a->v == 1) return mkNot(mkBin(K_Eq, b, mkConst(0, w)));
        }
        if (a->k == K_ZExt && b->k == K_ZExt) { unsigned nw = std::max(a->a->w, b->a->w); return mkBin(k, mkZExt(a->a, nw), mkZExt(b->a, nw)); }
        if (a->k == K_ZExt && bc) return mkBin(k, a->a, mkConst(bv, a->a->w));
        if (b->k == K_ZExt && a->isConst() && w <= 64) return mkBin(k, mkConst(a->v, b->a->w), b->a);
        break;
    case K_Slt: case K_Sle:
        if (a == b) return k == K_Sle ? mkTrue() : mkFalse();
        if (w <= 64) {
            u64 H = M >> 1;
            if (a->hi <= H && b->hi <= H) return mkBin(k == K_Slt ? K_Ult : K_Ule, a, b);
            if (a->hi <= H && b->lo > H) return mkFalse();
            if (a->lo > H && b->hi <= H) return mkTrue();
            if (a->k == K_SExt && b->k == K_SExt) { unsigned nw = std::max(a->a->w, b->a->w); return mkBin(k, mkSExt(a->a, nw), mkSExt(b->a, nw)); }
        }
        break;
    default: break;
    }
    return node(k, cmp ? 1 : w, a, b, nullptr, 0);
}

E mkIte(E c, E t, E f) {
    if (c->isConst()) return c->v ? t : f;
    if (t == f) return t;
    if (c->k == K_Not) return mkIte(c->a, f, t);
    if (t->w == 1) {
        if (t->isConst()) return t->v ? mkBin(K_Or, c, f) : mkBin(K_And, mkNot(c), f);
        if (f->isConst()) return f->v ? mkBin(K_Or, mkNot(c), t) : mkBin(K_And, c, t);
    }
    if (t->k == K_Ite && t->a == c) return mkIte(c, t->b, f);
    if (f->k == K_Ite && f->a == c) return mkIte(c, t, f->c);
    return node(K_Ite, t->w, c, t, f, 0);
}

E mkExtract(E a, unsigned lo, unsigned w) {
    if (lo == 0 && w == a->w) return a;
    if (a->isConst()) return mkConst(a->cv() >> lo, w);
    switch (a->k) {
    case K_Extract: return mkExtract(a->a, lo + a->aux, w);
    case K_Concat: {
        unsigned lw = a->b->w;
        if (lo >= lw) return mkExtract(a->a, lo - lw, w);
        if (lo + w <= lw) return mkExtract(a->b, lo, w);
        return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo));
    }
    case K_ZExt: {
        unsigned iw = a->a->w;
        if (lo >= iw) return mkConst(0, w);
        if (lo + w <= iw) return mkExtract(a->a, lo, w);
        return mkZExt(mkExtract(a->a, lo, iw - lo), w);
    }
    case K_SExt: {
        unsigned iw = a->a->w;
        if (lo + w <= iw) return mkExtract(a->a, lo, w);
        if (lo == 0) return mkSExt(a->a, w);
        break;
    }
    case K_And: case K_Or: case K_Xor:
        if (a->b->isConst() || w == 1) return mkBin(a->k, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
        break;
    case K_Not: return mkNot(mkExtract(a->a, lo, w));
    case K_Add: case K_Sub: case K_Mul:
        if (lo == 0) return mkBin(a->k, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
        break;
    case K_Ite:
        if (a->b->isConst() || a->c->isConst() || a->b->k == K_Concat || a->b->k == K_ZExt || a->c->k == K_Concat || a->c->k == K_ZExt) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
        break;
    default: break;
    }
    if (a->w <= 64 && lo > 0 && (a->hi >> lo) == 0) return mkConst(0, w);
    return node(K_Extract, w, a, nullptr, nullptr, lo);
}

E mkConcat(E hi, E lo) {
    unsigned w = hi->w + lo->w;
    if (hi->isConst() && lo->isConst()) return mkConst((hi->cv() << lo->w) | lo->cv(), w);
    if (hi->isConst() && hi->cv() == 0) return mkZExt(lo, w);
    if (hi->k == K_Extract && lo->k == K_Extract && hi->a == lo->a && hi->aux == lo->aux + lo->w)
        return mkExtract(hi->a, lo->aux, w);
    if (lo->k == K_Concat && hi->k == K_Extract && lo->a->k == K_Extract && hi->a == lo->a->a && hi->aux == lo->a->aux + lo->a->w)
        return mkConcat(mkExtract(hi->a, lo->a->aux, hi->w + lo->a->w), lo->b);
    if (hi->k == K_ZExt && w <= 128) return mkZExt(mkConcat(hi->a, lo), w);
    // hi is a zero-extension split of same source: concat(extract(zext)) handled by extract
    if (hi->k == K_Ite && lo->k == K_Ite && hi->a == lo->a)
        return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
    return node(K_Concat, w, hi, lo, nullptr, 0);
}
E mkZExt(E a, unsigned w) {
    if (w == a->w) return a;
    if (a->isConst()) return mkConst(a->cv(), w);
    if (a->k == K_ZExt) return mkZExt(a->a, w);
    return node(K_ZExt, w, a, nullptr, nullptr, 0);
}
E mkSExt(E a, unsigned w) {
    if (w == a->w) return a;
    if (a->isConst()) return mkConst((u128)sx(a->cv(), a->w), w);
    if (a->k == K_SExt) return mkSExt(a->a, w);
    if (a->k == K_ZExt) return mkZExt(a->a, w);
    if (a->w <= 64 && a->w > 1 && a->hi <= (mask64(a->w) >> 1)) return mkZExt(a, w);
    return node(K_SExt, w, a, nullptr, nullptr, 0);
}

// ---------------------------------------------------------------- floats
static unsigned precBits(unsigned fw) { return fw == 64 ? 53 : 24; }
static bool dyadFits(E i, unsigned fw) {
    unsigned p = precBits(fw);
    if ((unsigned)i->w - 1 <= p) return true;
    if (i->w <= 64 && i->hi <= mask64(p)) return true;
    return false;
}
static E shrinkSigned(E i) { // drop redundant high bits
    if (i->k == K_ZExt && i->w > i->a->w + 1u) return mkZExt(i->a, i->a->w + 1);
    if (i->k == K_SExt) return i->a;
    if (i->w <= 64 && i->w > 1) {
        unsigned need = i->hi ? 64 - __builtin_clzll(i->hi) + 1 : 1;
        if (need < i->w && i->hi <= (mask64(i->w) >> 1)) return mkExtract(i, 0, std::max(1u, need));
    }
    return i;
}
static E mkDyad(E i, int exp, unsigned fw) {
    if (i->isConst()) {
        double d = foldDyad(i->cv(), i->w, exp);
        return fw == 64 ? mkConst(dBits(d), 64) : mkConst(fBits((float)d), 32);
    }
    return node(K_FDyad, fw, i, nullptr, nullptr, exp);
}
// returns signed integer expr or null
static E asDyad(E f, int& exp) {
    if (f->k == K_FDyad) { exp = f->aux; return f->a; }
    if (f->isConst()) {
        double d = f->w == 64 ? bitsD(f->v) : bitsF((u32)f->v);
        if (!std::isfinite(d)) return nullptr;
        if (d == 0) { exp = 0; return mkConst(0, 2); }
        int e; double m = std::frexp(d, &e); // d = m*2^e, .5<=|m|<1
        int64_t mi = (int64_t)std::ldexp(m, 53); exp = e - 53;
        while (!(mi & 1)) { mi >>= 1; exp++; }
        unsigned bits = 64 - __builtin_clzll((u64)std::llabs(mi));
        return mkConst((u128)(i128)mi, bits + 1);
    }
    return nullptr;
}
static bool alignDyads(E& x, int ex, E& y, int ey, int& e) {
    if (x->isConst() && !x->cv()) ex = ey; // (zero has every exponent)
    else if (y->isConst() && !y->cv()) ey = ex;
    e = std::min(ex, ey);
    unsigned sx_ = ex - e, sy = ey - e;
    if (sx_ > 40 || sy > 40) return false;
    unsigned w = std::max(x->w + sx_, y->w + sy) + 1;
    if (w > 100) return false;
    x = mkBin(K_Shl, mkSExt(x, w), mkConst(sx_, w));
    y = mkBin(K_Shl, mkSExt(y, w), mkConst(sy, w));
    return true;
}

E mkFBin(Kind k, E a, E b) {
    bool cmp = k >= K_FOeq && k <= K_FUno;
    if (a->isConst() && b->isConst()) return mkConst(foldF(k, a->cv(), b->cv(), a->w), cmp ? 1 : a->w);
    int ea, eb; E x = asDyad(a, ea), y = asDyad(b, eb);
    if (x && y) {
        if (cmp && k == K_FUno) return mkFalse();
        if (cmp || k == K_FAdd || k == K_FSub) {
            int e; E p = x, q = y;
            if (alignDyads(p, ea, q, eb, e)) {
                if (k == K_FOeq) return mkBin(K_Eq, p, q);
                if (k == K_FOlt) return mkBin(K_Slt, p, q);
                if (k == K_FOle) return mkBin(K_Sle, p, q);
                E r = shrinkSigned(mkBin(k == K_FAdd ? K_Add : K_Sub, p, q));
                if (dyadFits(r, a->w)) return mkDyad(r, e, a->w);
            }
        } else if (k == K_FMul) {
            unsigned w = x->w + y->w;
            if (w <= 100) {
                E r = shrinkSigned(mkBin(K_Mul, mkSExt(x, w), mkSExt(y, w)));
                if (dyadFits(r, a->w)) return mkDyad(r, ea + eb, a->w);
            }
        } else if (k == K_FDiv && b->isConst()) {
            // division by a power of two
            i128 m = sx(y->cv(), y->w);
            if (m == 1) return mkDyad(x, ea - eb, a->w);
        }
    }
    return node(k, cmp ? 1 : a->w, a, b, nullptr, 0);
}
E mkIToF(bool s, E a, unsigned fw) {
    if (a->isConst()) return mkConst(foldIToF(s, a->cv(), a->w, fw), fw);
    E i = s ? a : mkZExt(a, a->w + 1);
    i = shrinkSigned(i);
    if (dyadFits(i, fw)) return mkDyad(i, 0, fw);
    return node(s ? K_SIToF : K_UIToF, fw, a, nullptr, nullptr, 0);
}
E mkFToI(bool s, E f, unsigned iw) {
    if (f->isConst()) return mkConst(foldFToI(s, f->cv(), f->w, iw), iw);
    if (f->k == K_FDyad) {
        E i = f->a; int e = f->aux;
        if (e >= 0) {
            if (i->w + e <= 120) { unsigned w = std::max<unsigned>(i->w + e, iw); E r = mkSExt(i, w); if (e) r = mkBin(K_Shl, r, mkConst(e, w)); return mkExtract(r, 0, iw); }
        } else {
            // truncate toward zero: (i + (i<0 ? 2^n-1 : 0)) >> n
            unsigned n = -e;
            if (n >= i->w) {
                return mkConst(0, iw);
            }
            unsigned w = std::max<unsigned>(i->w + 1, iw);
            E x = mkSExt(i, i->w + 1u);
            E neg = mkBin(K_Slt, x, mkConst(0, x->w));
            E adj = mkBin(K_Add, x, mkIte(neg, mkConst(((u128)1 << n) - 1, x->w), mkConst(0, x->w)));
            E r = mkBin(K_AShr, adj, mkConst(n, x->w));
            return mkExtract(mkSExt(r, w), 0, iw);
        }
    }
    return node(s ? K_FToSI : K_FToUI, iw, f, nullptr, nullptr, 0);
}
E mkFToF(E f, unsigned fw) {
    if (f->w == fw) return f;
    if (f->isConst()) return mkConst(foldFToF(f->cv(), f->w, fw), fw);
    if (f->k == K_FDyad && dyadFits(f->a, fw)) return mkDyad(f->a, f->aux, fw);
    return node(K_FToF, fw, f, nullptr, nullptr, 0);
}
E mkFRound(E f, int mode) {
    if (f->isConst()) return mkConst(foldRound(f->cv(), f->w, mode), f->w);
    if (f->k == K_FDyad) {
        E i = f->a; int e = f->aux;
        if (e >= 0) return f;
        unsigned n = -e;
        E x = mkSExt(i, std::max<unsigned>(i->w, n + 1) + 1u);
        unsigned w = x->w;
        E add = nullptr;
        if (mode == 0) add = mkConst(0, w);
        else if (mode == 1) add = mkConst(((u128)1 << n) - 1, w);
        else if (mode == 2) add = mkIte(mkBin(K_Slt, x, mkConst(0, w)), mkConst(((u128)1 << n) - 1, w), mkConst(0, w));
        if (add) {
            E r = mkBin(K_AShr, mkBin(K_Add, x, add), mkConst(n, w));
            return mkDyad(shrinkSigned(r), 0, f->w);
        }
    }
    return node(K_FRound, f->w, f, nullptr, nullptr, mode);
}

// ---------------------------------------------------------------- evaluation
static u64 g_gen = 1;
u64 newGen() { return ++g_gen; }

u128 evalExpr(E e, const Model& m) {
    if (e->k == K_Const) return e->cv();
    if (e->evGen == m.gen) return e->ev;
    u128 r = 0;
    switch (e->k) {
    case K_Var: r = (size_t)e->aux < m.val.size() ? m.val[e->aux] & maskW(e->w) : 0; break;
    case K_Not: r = ~evalExpr(e->a, m) & maskW(e->w); break;
    case K_Ite: r = evalExpr(e->a, m) ? evalExpr(e->b, m) : evalExpr(e->c, m); break;
    case K_Concat: r = (evalExpr(e->a, m) << e->b->w) | evalExpr(e->b, m); break;
    case K_Extract: r = (evalExpr(e->a, m) >> e->aux) & maskW(e->w); break;
    case K_ZExt: r = evalExpr(e->a, m); break;
    case K_SExt: r = (u128)sx(evalExpr(e->a, m), e->a->w) & maskW(e->w); break;
    case K_FDyad: { double d = foldDyad(evalExpr(e->a, m), e->a->w, e->aux); r = e->w == 64 ? dBits(d) : fBits((float)d); break; }
    case K_FAdd: case K_FSub: case K_FMul: case K_FDiv: case K_FOeq: case K_FOlt: case K_FOle: case K_FUno:
        r = foldF(e->k, evalExpr(e->a, m), evalExpr(e->b, m), e->a->w); break;
    case K_UIToF: case K_SIToF: r = foldIToF(e->k == K_SIToF, evalExpr(e->a, m), e->a->w, e->w); break;
    case K_FToUI: case K_FToSI: r = foldFToI(e->k == K_FToSI, evalExpr(e->a, m), e->a->w, e->w); break;
    case K_FToF: r = foldFToF(evalExpr(e->a, m), e->a->w, e->w); break;
    case K_FRound: r = foldRound(evalExpr(e->a, m), e->w, e->aux); break;
    default: r = foldBin(e->k, evalExpr(e->a, m), evalExpr(e->b, m), e->a->w); break;
    }
    e->evGen = m.gen; e->ev = r;
    return r;
}

size_t exprCount() { return arena.size(); }

static const char* kn[] = { "const","var","+","-","*","/u","/s","%u","%s","&","|","^","~","<<",">>u",">>s","==","<u","<=u","<s","<=s","ite","concat","extract","zext","sext","dyad","f+","f-","f*","f/","f==","f<","f<=","funo","uitof","sitof","ftoui","ftosi","ftof","fround" };
std::string exprStr(E e, int depth) {
    if (!e) return "null";
    if (e->k == K_Const) return std::to_string(e->v) + (e->vh ? "+hi" : "");
    if (e->k == K_Var) return g_vars[e->aux].name;
    if (depth == 0) return "...";
    std::string s = std::string("(") + kn[e->k];
    if (e->k == K_Extract) s += "[" + std::to_string(e->aux) + "+" + std::to_string(e->w) + "]";
    if (e->k == K_FDyad) s += "^" + std::to_string(e->aux);
    for (E x : { e->a, e->b, e->c }) if (x) s += " " + exprStr(x, depth - 1);
    return s + ")";
}
