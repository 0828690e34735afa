// Hash-consed bit-vector expression DAG with simplification, evaluation under
// a model, and translation to Z3.  Width-1 expressions double as booleans.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef uint32_t u32;

enum Kind : uint8_t {
    K_Const, K_Var,
    K_Add, K_Sub, K_Mul, K_UDiv, K_SDiv, K_URem, K_SRem,
    K_And, K_Or, K_Xor, K_Not,
    K_Shl, K_LShr, K_AShr,
    K_Eq, K_Ult, K_Ule, K_Slt, K_Sle,
    K_Ite, K_Concat, K_Extract, K_ZExt, K_SExt,
    // floating point, on bit patterns of width 32/64
    K_FDyad,                                  // a * 2^aux, exact; a signed
    K_FAdd, K_FSub, K_FMul, K_FDiv,
    K_FOeq, K_FOlt, K_FOle, K_FUno,
    K_UIToF, K_SIToF, K_FToUI, K_FToSI, K_FToF,
    K_FRound,                                 // aux: 0 floor 1 ceil 2 trunc 3 even
};

struct VarSet { std::vector<u32> ids; u32 id; };

struct Expr {
    Kind k;
    bool uninit;      // depends on uninitialised memory
    uint16_t w;
    int aux;          // Extract: low bit; FDyad: exponent; Var: index
    u32 id;
    const Expr *a, *b, *c;
    u64 v, vh;        // constant value
    u64 lo, hi;       // unsigned interval (w <= 64)
    const VarSet* vars;
    mutable u64 evGen;
    mutable u128 ev;
    mutable void* z3;
    bool isConst() const { return k == K_Const; }
    u128 cv() const { return ((u128)vh << 64) | v; }
};
typedef const Expr* E;

struct VarInfo { std::string name; uint16_t w; bool uninit; E e; };
extern std::vector<VarInfo> g_vars;

struct Model { std::vector<u128> val; u64 gen; };

inline u128 maskW(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline u64 mask64(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
inline int64_t sext64(u64 v, unsigned w) {
    if (w >= 64) return (int64_t)v;
    u64 m = 1ULL << (w - 1);
    return (int64_t)(((v & mask64(w)) ^ m) - m);
}

E mkConst(u128 v, unsigned w);
E mkVar(const std::string& name, unsigned w, bool uninit = false);
E mkBin(Kind k, E a, E b);   // integer binary and comparison kinds
E mkNot(E a);
E mkIte(E c, E t, E f);
E mkExtract(E a, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
inline E mkTrue() { return mkConst(1, 1); }
inline E mkFalse() { return mkConst(0, 1); }
inline bool isTrue(E e) { return e->k == K_Const && e->v == 1; }
inline bool isFalse(E e) { return e->k == K_Const && e->v == 0; }
E mkFBin(Kind k, E a, E b);
E mkIToF(bool sgn, E a, unsigned fw);
E mkFToI(bool sgn, E a, unsigned iw);
E mkFToF(E a, unsigned fw);
E mkFRound(E a, int mode);
// unsigned multiple-of-2^n knowledge
unsigned knownZeroLow(E e);
// value = base + off decomposition (base may be null for constants)
void splitAdd(E e, E& base, u64& off);

u64 newGen();
u128 evalExpr(E e, const Model& m);
std::string exprStr(E e, int depth = 5);
size_t exprCount();
