#include "core.h"
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/Demangle/Demangle.h>
#include <cmath>

#define BI(name) static Act name(Engine& en, State& s, Inst& I, const Val* a, int n, Val* ret)

static double D(u64 v) { double d; memcpy(&d, &v, 8); return d; }
static u64 U(double d) { u64 v; memcpy(&v, &d, 8); return v; }

// ---------------------------------------------------------------- allocation
static Act doAlloc(Engine& en, State& s, const Val& sz, uint8_t kind, bool zero, Val* ret) {
    // more than any machine has: malloc answers null, new throws
    bool never = sz.e ? false : sz.c >= (1ULL << 48);
    if (sz.e && sz.e->hi >= (1ULL << 48)) never = en.concretize(s, VE(mkBin(K_Ule, mkConst(1ULL << 48, 64), sz.e)), 1);
    if (never && kind == 0) { ret[0] = VC(0); return A_Done; }
    if (never) {
        auto* mf = en.M->getFunction("vp_no_memory");
        if (!mf) { en.engineErrors.insert("no vp_no_memory in the model"); return A_End; }
        en.pushCall(s, en.getFunc(mf), nullptr, 0);
        return A_Jumped;
    }
    u64 n = en.concretize(s, sz, 64);
    if (n > (1ULL << 28)) { en.violation(s, "huge-allocation", "allocation of " + std::to_string(n) + " bytes"); return A_End; }
    u32 id = en.allocObj(s, n, O_Heap, !zero);
    Obj* o = s.as.getW(id);
    o->alloc = kind;
    o->env = s.th[s.cur].env > 0;
    auto& st = s.th[s.cur].stack;
    for (int i = (int)st.size() - 1; i >= 0 && o->site.size() < 10; i--) { auto& bb = st[i]->fn->bbs[st[i]->bb]; o->site.push_back(bb[st[i]->pc].src); }
    ret[0] = VC((u64)id << 32);
    return A_Done;
}
static Act doFree(Engine& en, State& s, const Val& p, uint8_t kind) {
    u64 ad = en.concretize(s, p, 64);
    if (!ad) return A_Done;
    Obj* o = s.as.get(ad >> 32);
    static const char* nm[] = { "free", "delete", "delete[]" };
    if (!o) { en.violation(s, "double-free", std::string(nm[kind]) + " of memory that is not allocated"); return A_End; }
    if ((u32)ad || o->kind != O_Heap) { en.violation(s, "bad-free", std::string(nm[kind]) + " of something that was not allocated on the heap"); return A_End; }
    if (o->alloc != kind) {
        static const char* an[] = { "malloc", "new", "new[]" };
        en.violation(s, "mismatched-free", std::string(nm[kind]) + " of memory allocated with " + an[o->alloc]);
        return A_End;
    }
    if (s.race) en.raceAccess(s, ad >> 32, 0, o->size, true, false);
    s.as.set(ad >> 32, nullptr);
    return A_Done;
}
BI(b_malloc) { return doAlloc(en, s, a[0], 0, false, ret); }
BI(b_calloc) {
    u64 x = en.concretize(s, a[0], 64), y = en.concretize(s, a[1], 64);
    return doAlloc(en, s, VC(x * y), 0, true, ret);
}
BI(b_realloc) {
    u64 p = en.concretize(s, a[0], 64), sz = en.concretize(s, a[1], 64);
    Act r = doAlloc(en, s, VC(sz), 0, false, ret);
    if (r != A_Done || !p) return r;
    Obj* o = s.as.get(p >> 32);
    if (!o) { en.violation(s, "use-after-free", "realloc of released memory"); return A_End; }
    u64 m = std::min(o->size, sz);
    if (!en.copyMem(s, ret[0].c, p, m)) return A_End;
    return doFree(en, s, VC(p), 0);
}
BI(b_new) { return doAlloc(en, s, a[0], 1, false, ret); }
BI(b_newarr) { return doAlloc(en, s, a[0], 2, false, ret); }
BI(b_free) { return doFree(en, s, a[0], 0); }
BI(b_delete) { return doFree(en, s, a[0], 1); }
BI(b_deletearr) { return doFree(en, s, a[0], 2); }
BI(b_aligned_alloc) { return doAlloc(en, s, a[1], 0, false, ret); }
BI(b_posix_memalign) {
    Val r[1];
    Act x = doAlloc(en, s, a[2], 0, false, r);
    if (x != A_Done) return x;
    if (!en.storeVal(s, a[0], r[0], 8, 64)) return A_End;
    ret[0] = VC(0);
    return A_Done;
}

// ---------------------------------------------------------------- memory blocks
BI(b_memcpy) {
    u64 len = en.concretize(s, a[2], 64);
    if (len == 0) { ret[0] = a[0]; return A_Done; }
    u64 d = en.concretize(s, a[0], 64), sr = en.concretize(s, a[1], 64);
    if (!en.copyMem(s, d, sr, len)) return A_End;
    ret[0] = VC(d);
    return A_Done;
}
BI(b_memset) {
    u64 len = en.concretize(s, a[2], 64);
    if (len == 0) { ret[0] = a[0]; return A_Done; }
    u64 d = en.concretize(s, a[0], 64);
    Val b = a[1];
    if (b.e) b = VE(mkExtract(b.e, 0, 8)); else b.c &= 255;
    if (!en.setMem(s, d, b, len)) return A_End;
    ret[0] = VC(d);
    return A_Done;
}
BI(b_memcmp) {
    u64 len = en.concretize(s, a[2], 64);
    if (len == 0) { ret[0] = VC(0); return A_Done; }
    u64 x = en.concretize(s, a[0], 64), y = en.concretize(s, a[1], 64);
    if (!en.checkRange(s, x, len, false, "memcmp") || !en.checkRange(s, y, len, false, "memcmp")) return A_End;
    if (s.race) { en.raceAccess(s, x >> 32, (u32)x, len, false, false); en.raceAccess(s, y >> 32, (u32)y, len, false, false); }
    E r = mkConst(0, 32);
    {
        Obj *o = s.as.get(x >> 32), *q = s.as.get(y >> 32);
        if (!o->sym && !o->uninit && !q->sym && !q->uninit) {
            int c = memcmp(o->data + (u32)x, q->data + (u32)y, len);
            ret[0] = VC((u64)(c < 0 ? -1 : c > 0) & 0xffffffffu);
            return A_Done;
        }
    }
    auto plain = [&](u64 p, u64 i) -> int { // value of a concrete byte, or -1
        Obj* o = s.as.get(p >> 32);
        u64 f = (u32)p + i;
        return (o->sym && o->sym->get(f)) || (o->uninit && o->uninit[f]) ? -1 : o->data[f];
    };
    for (u64 i = len; i-- > 0;) {
        int v = plain(x, i);
        if (v >= 0 && v == plain(y, i)) continue;
        Val p = en.readBytes(s, x >> 32, s.as.get(x >> 32), (u32)x + i, 1, 8);
        Val q = en.readBytes(s, y >> 32, s.as.get(y >> 32), (u32)y + i, 1, 8);
        E pe = toE(p, 8), qe = toE(q, 8);
        E df = mkBin(K_Sub, mkZExt(pe, 32), mkZExt(qe, 32));
        r = mkIte(mkBin(K_Eq, pe, qe), r, df);
    }
    ret[0] = VE(r);
    return A_Done;
}

// ---------------------------------------------------------------- integer intrinsics
static unsigned argW(Inst& I, int i) { return ((CallX*)I.x)->argW[i]; }
template<int OP> BI(b_ovf) {
    unsigned w = argW(I, 0);
    E x = toE(a[0], w), y = toE(a[1], w);
    // 0 uadd 1 usub 2 umul 3 sadd 4 ssub 5 smul
    unsigned W = OP == 2 || OP == 5 ? 2 * w : w + 1;
    if (W > 128) W = 128;
    E X = OP >= 3 ? mkSExt(x, W) : mkZExt(x, W), Y = OP >= 3 ? mkSExt(y, W) : mkZExt(y, W);
    Kind k = OP % 3 == 0 ? K_Add : OP % 3 == 1 ? K_Sub : K_Mul;
    E wide = mkBin(k, X, Y);
    E res = mkBin(k, x, y);
    E ov = mkNot(mkBin(K_Eq, wide, OP >= 3 ? mkSExt(res, W) : mkZExt(res, W)));
    if (OP == 0) ov = mkBin(K_Ult, res, x);
    if (OP == 1) ov = mkBin(K_Ult, x, y);
    ret[0] = VE(res);
    ret[1] = VE(ov);
    return A_Done;
}
template<int OP> BI(b_minmax) {
    unsigned w = argW(I, 0);
    E x = toE(a[0], w), y = toE(a[1], w);
    E lt = OP < 2 ? mkBin(K_Ult, x, y) : mkBin(K_Slt, x, y);
    ret[0] = VE(OP % 2 == 0 ? mkIte(lt, x, y) : mkIte(lt, y, x)); // even: min
    return A_Done;
}
BI(b_abs) {
    unsigned w = argW(I, 0);
    E x = toE(a[0], w);
    ret[0] = VE(mkIte(mkBin(K_Slt, x, mkConst(0, w)), mkBin(K_Sub, mkConst(0, w), x), x));
    return A_Done;
}
template<int OP> BI(b_sat) {
    unsigned w = argW(I, 0);
    E x = toE(a[0], w), y = toE(a[1], w);
    if (OP == 0) { E r = mkBin(K_Add, x, y); ret[0] = VE(mkIte(mkBin(K_Ult, r, x), mkConst(~(u128)0, w), r)); }
    else ret[0] = VE(mkIte(mkBin(K_Ult, x, y), mkConst(0, w), mkBin(K_Sub, x, y)));
    return A_Done;
}
template<int OP> BI(b_bits) { // 0 ctlz 1 cttz 2 ctpop 3 bswap
    unsigned w = argW(I, 0);
    E x = toE(a[0], w), r = nullptr;
    if (OP == 0) { r = mkConst(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(x, i, 1), mkConst(w - 1 - i, w), r); }
    else if (OP == 1) { r = mkConst(w, w); for (unsigned i = w; i-- > 0;) r = mkIte(mkExtract(x, i, 1), mkConst(i, w), r); }
    else if (OP == 2) { r = mkConst(0, w); for (unsigned i = 0; i < w; i++) r = mkBin(K_Add, r, mkZExt(mkExtract(x, i, 1), w)); }
    else { for (unsigned i = 0; i < w; i += 8) { E b = mkExtract(x, i, 8); r = r ? mkConcat(r, b) : b; } }
    ret[0] = VE(r);
    return A_Done;
}
template<int L> BI(b_fsh) {
    unsigned w = argW(I, 0);
    u64 k = en.concretize(s, a[2], w) % w;
    E x = toE(a[0], w), y = toE(a[1], w);
    if (k == 0) ret[0] = VE(L ? x : y);
    else if (L) ret[0] = VE(mkConcat(mkExtract(x, 0, w - k), mkExtract(y, w - k, k)));
    else ret[0] = VE(mkConcat(mkExtract(x, 0, k), mkExtract(y, k, w - k)));
    return A_Done;
}
BI(b_first) { ret[0] = a[0]; return A_Done; }
BI(b_nop) { return A_Done; }
BI(b_zero) { ret[0] = VC(0); return A_Done; }
BI(b_false) { ret[0] = VC(0); return A_Done; }
BI(b_objsize) { ret[0] = VC(~0ULL); return A_Done; }
// variable arguments (x86-64): all of them in the overflow area
BI(b_va_start) {
    auto& st = s.th[s.cur].stack;
    if (st.size() < 2) { en.engineErrors.insert("va_start without a caller"); return A_End; }
    Frame* c = st[st.size() - 2];
    auto* cx = (CallX*)c->fn->bbs[c->bb][c->pc].x;
    int fixed = st.back()->fn->nargs, na = cx->args.size();
    u64 sz = na > fixed ? 8 * (na - fixed) : 8;
    u32 id = en.allocObj(s, sz, O_Stack, true);
    en.topW(s)->allocas.push_back(id);
    for (int i = fixed; i < na; i++) {
        int op = cx->args[i];
        Val v = op >= 0 ? c->slots[op] : c->fn->consts[-op - 1];
        unsigned w = cx->argW[i];
        if (w > 64) { en.engineErrors.insert("a wide variable argument"); return A_End; }
        if (w < 64 && v.e) v = VE(mkZExt(v.e, 64));
        en.writeBytes(s, id, 8 * (i - fixed), v, 8, 64);
    }
    u64 ap = en.concretize(s, a[0], 64);
    if (!en.checkRange(s, ap, 24, true, "va_start")) return A_End;
    u32 o = ap >> 32, off = (u32)ap;
    en.writeBytes(s, o, off, VC(48), 4, 32);
    en.writeBytes(s, o, off + 4, VC(176), 4, 32);
    en.writeBytes(s, o, off + 8, VC((u64)id << 32), 8, 64);
    en.writeBytes(s, o, off + 16, VC(0), 8, 64);
    return A_Done;
}
BI(b_va_copy) {
    u64 d = en.concretize(s, a[0], 64), f = en.concretize(s, a[1], 64);
    if (!en.copyMem(s, d, f, 24)) return A_End;
    return A_Done;
}
BI(b_trap) { en.violation(s, "trap", "trap instruction"); return A_End; }
BI(b_typeid) { ret[0] = VC(en.typeId(a[0].c)); return A_Done; }
BI(b_assume) {
    if (a[0].e) { int d = en.decide(s, a[0].e); if (d <= 0) return A_End; }
    return A_Done;
}
template<int M> BI(b_fround) { unsigned w = argW(I, 0); ret[0] = VE(mkFRound(toE(a[0], w), M)); return A_Done; }
// to nearest, ties away from zero: trunc(|x| + pred(1/2)) with the sign of x
BI(b_froundaway) {
    unsigned w = argW(I, 0);
    E x = toE(a[0], w), sign = mkConst((u128)1 << (w - 1), w);
    E half = mkConst(w == 64 ? 0x3fdfffffffffffffull : 0x3effffff, w);
    E m = mkFRound(mkFBin(K_FAdd, mkBin(K_And, x, mkConst(mask64(w - 1), w)), half), 2);
    ret[0] = VE(mkBin(K_Or, m, mkBin(K_And, x, sign)));
    return A_Done;
}
BI(b_fpclass) {
    unsigned w = argW(I, 0);
    u64 v = en.concretize(s, a[0], w), k = en.concretize(s, a[1], 32);
    unsigned mb = w == 32 ? 23 : 52, eb = w == 32 ? 8 : 11;
    u64 mant = v & ((1ull << mb) - 1), ex = v >> mb & ((1ull << eb) - 1);
    bool neg = v >> (w - 1) & 1;
    int cls;
    if (ex == (1ull << eb) - 1) cls = mant ? (mant >> (mb - 1) ? 1 : 0) : neg ? 2 : 9;
    else if (ex == 0) cls = mant ? (neg ? 4 : 7) : neg ? 5 : 6;
    else cls = neg ? 3 : 8;
    ret[0] = VC(k >> cls & 1);
    return A_Done;
}
BI(b_fabs) {
    unsigned w = argW(I, 0);
    ret[0] = VE(mkBin(K_And, toE(a[0], w), mkConst(mask64(w - 1), w)));
    return A_Done;
}
static Act fconc(Engine& en, const char* nm) { en.engineErrors.insert(std::string("symbolic argument to ") + nm); return A_End; }
BI(b_fmuladd) {
    unsigned w = argW(I, 0);
    ret[0] = VE(mkFBin(K_FAdd, mkFBin(K_FMul, toE(a[0], w), toE(a[1], w)), toE(a[2], w)));
    return A_Done;
}
BI(b_pow) { if (a[0].e || a[1].e) return fconc(en, "pow"); ret[0] = VC(U(pow(D(a[0].c), D(a[1].c)))); return A_Done; }
BI(b_ldexp) { if (a[0].e || a[1].e) return fconc(en, "ldexp"); ret[0] = VC(U(ldexp(D(a[0].c), (int)a[1].c))); return A_Done; }
BI(b_log2) { if (a[0].e) return fconc(en, "log2"); ret[0] = VC(U(log2(D(a[0].c)))); return A_Done; }
BI(b_sqrt) { if (a[0].e) return fconc(en, "sqrt"); ret[0] = VC(U(sqrt(D(a[0].c)))); return A_Done; }
BI(b_strtod) { // concrete text only
    std::string t;
    u64 p = en.concretize(s, a[0], 64);
    if (!en.cstr(s, p, t)) { en.violation(s, "out-of-bounds", "strtod on an unterminated string"); return A_End; }
    char* e; double d = strtod(t.c_str(), &e);
    if (a[1].c && !en.storeVal(s, a[1], VC(p + (e - t.c_str())), 8, 64)) return A_End;
    ret[0] = VC(U(d));
    return A_Done;
}
// vp_fmt_double(buf, n, double): concrete "%.17g"-like formatting as ostream would do (precision 6)
BI(b_fmt_double) {
    if (a[2].e) return fconc(en, "double formatting");
    char b[64]; snprintf(b, sizeof b, "%g", D(a[2].c));
    u64 p = en.concretize(s, a[0], 64);
    for (size_t i = 0; i <= strlen(b); i++) if (!en.storeVal(s, VC(p + i), VC((uint8_t)b[i]), 1, 8)) return A_End;
    ret[0] = VC(strlen(b));
    return A_Done;
}

BI(b_tls) {
    auto* cb = llvm::cast<llvm::CallBase>(I.src);
    auto* g = llvm::dyn_cast<llvm::GlobalVariable>(cb->getArgOperand(0)->stripPointerCasts());
    if (!g) { ret[0] = a[0]; return A_Done; }
    auto& m = s.th[s.cur].tls;
    auto it = m.find(g);
    if (it != m.end()) { ret[0] = VC((u64)it->second << 32); return A_Done; }
    if (s.cur == 0) { m[g] = a[0].c >> 32; ret[0] = a[0]; return A_Done; }
    u32 id = s.nextObj++;
    Obj* o = new Obj(*en.globals->as.get(a[0].c >> 32));
    o->ref = 1;
    s.as.set(id, o);
    m[g] = id;
    ret[0] = VC((u64)id << 32);
    return A_Done;
}

// ---------------------------------------------------------------- exceptions
BI(b_unwind) { // vp_unwind(obj, tinfo): raise, noreturn
    u64 e = en.concretize(s, a[0], 64), ti = en.concretize(s, a[1], 64);
    if (!en.unwind(s, e, ti)) return A_End;
    return A_Jumped;
}
BI(b_terminate) { en.violation(s, "terminate", "std::terminate is called"); return A_End; }
BI(b_abort) { en.violation(s, "abort", "abort is called"); return A_End; }
BI(b_pure) { en.violation(s, "pure-virtual", "pure virtual function called"); return A_End; }
BI(b_exit) { en.violation(s, "exit", "exit is called"); return A_End; }

// ---------------------------------------------------------------- threads
static Act blockOn(Engine& en, State& s, TStat st, u64 addr) {
    s.th[s.cur].st = st;
    s.th[s.cur].waitAddr = addr;
    if (!en.reschedule(s)) return A_End;
    return A_Redo;
}
BI(b_mutex_lock) {
    u64 m = en.concretize(s, a[0], 64);
    if (!en.checkRange(s, m, 40, false, "mutex lock")) return A_End;
    if (!en.schedPoint(s)) return A_Redo;
    auto& mx = s.mtx[m];
    Obj* o = s.as.get(m >> 32);
    int kind = 0; memcpy(&kind, o->data + (u32)m + 16, 4);
    if (mx.owner == s.cur && kind == 1) { mx.count++; ret[0] = VC(0); return A_Done; }
    if (mx.owner == s.cur) { en.violation(s, "deadlock", "a thread locks a mutex it already holds"); return A_End; }
    if (mx.owner >= 0) return blockOn(en, s, T_Mutex, m);
    mx.owner = s.cur; mx.count = 1;
    if (s.race) en.vcJoin(s.th[s.cur].vc, mx.vc);
    ret[0] = VC(0);
    return A_Done;
}
BI(b_mutex_trylock) {
    u64 m = en.concretize(s, a[0], 64);
    if (!en.checkRange(s, m, 40, false, "mutex lock")) return A_End;
    if (!en.schedPoint(s)) return A_Redo;
    auto& mx = s.mtx[m];
    if (mx.owner >= 0) { ret[0] = VC(16); return A_Done; }
    mx.owner = s.cur; mx.count = 1;
    if (s.race) en.vcJoin(s.th[s.cur].vc, mx.vc);
    ret[0] = VC(0);
    return A_Done;
}
BI(b_mutex_unlock) {
    u64 m = en.concretize(s, a[0], 64);
    if (!en.checkRange(s, m, 40, false, "mutex unlock")) return A_End;
    auto& mx = s.mtx[m];
    if (mx.owner != s.cur) { en.violation(s, "mutex-misuse", "unlock of a mutex the thread does not hold"); return A_End; }
    if (--mx.count > 0) { ret[0] = VC(0); return A_Done; }
    mx.owner = -1;
    if (s.race) { mx.vc = s.th[s.cur].vc; en.vcInc(s, s.cur); }
    ret[0] = VC(0);
    return A_Done;
}
BI(b_mutex_destroy) {
    u64 m = en.concretize(s, a[0], 64);
    auto it = s.mtx.find(m);
    if (it != s.mtx.end()) {
        if (it->second.owner >= 0) { en.violation(s, "mutex-misuse", "destruction of a locked mutex"); return A_End; }
        s.mtx.erase(it);
    }
    ret[0] = VC(0);
    return A_Done;
}
static Act condWait(Engine& en, State& s, const Val* a, bool timed) {
    u64 c = en.concretize(s, a[0], 64), m = en.concretize(s, a[1], 64);
    if (!en.checkRange(s, c, 1, false, "condition wait")) return A_End;
    if (!en.schedPoint(s)) return A_Redo;
    auto& mx = s.mtx[m];
    if (mx.owner != s.cur) { en.violation(s, "mutex-misuse", "wait on a condition without holding the mutex"); return A_End; }
    mx.owner = -1;
    if (s.race) { mx.vc = s.th[s.cur].vc; en.vcInc(s, s.cur); }
    auto& t = s.th[s.cur];
    t.st = T_Cond; t.waitAddr = c; t.waitAddr2 = m; t.timed = timed; t.woken = false;
    if (!en.reschedule(s)) return A_End;
    return A_Redo;
}
BI(b_cond_wait) { return condWait(en, s, a, false); }
BI(b_cond_timedwait) { return condWait(en, s, a, true); }
static void wake(State& s, int i) { auto& t = s.th[i]; t.st = T_CondMutex; t.woken = true; }
BI(b_cond_notify_one) {
    u64 c = en.concretize(s, a[0], 64);
    if (!en.checkRange(s, c, 1, false, "condition notify")) return A_End;
    if (!en.schedPoint(s)) return A_Redo;
    std::vector<int> w;
    for (int i = 0; i < (int)s.th.size(); i++) if (s.th[i].st == T_Cond && s.th[i].waitAddr == c) w.push_back(i);
    if (w.empty()) return A_Done;
    int pick = w[0];
    if (s.explore && w.size() > 1) {
        // which waiter is woken is a symbolic choice; clones re-execute this call
        E v = pooledVar("sched", s.schedN++, 8, false);
        en.schedPoints++;
        std::vector<u128> mv = s.model->val;
        if (mv.size() < g_vars.size()) mv.resize(g_vars.size(), 0);
        if (en.haveSched) {
            size_t p = s.schedTrace.size();
            if (en.fixedSched.compare(0, p, s.schedTrace) == 0 && p < en.fixedSched.size() && en.fixedSched[p] == 'w') pick = atoi(en.fixedSched.c_str() + p + 1);
        } else {
            for (size_t k = w.size(); k-- > 1;) {
                State* nst = en.fork(s);
                wake(*nst, w[k]);
                nst->schedTrace += "w" + std::to_string(w[k]) + ",";
                mv[v->aux] = w[k];
                nst->model = freshModel(mv);
                nst->cons.push_back(mkBin(K_Eq, v, mkConst(w[k], 8)));
                // the clone has completed this call
                en.finishCall(*nst, I, ret);
                en.work.push_back(nst);
            }
        }
        mv[v->aux] = pick;
        s.model = freshModel(mv);
        s.cons.push_back(mkBin(K_Eq, v, mkConst(pick, 8)));
        s.schedTrace += "w" + std::to_string(pick) + ",";
    }
    wake(s, pick);
    ret[0] = VC(0);
    return A_Done;
}
BI(b_cond_notify_all) {
    u64 c = en.concretize(s, a[0], 64);
    if (!en.checkRange(s, c, 1, false, "condition notify")) return A_End;
    if (!en.schedPoint(s)) return A_Redo;
    for (int i = 0; i < (int)s.th.size(); i++) if (s.th[i].st == T_Cond && s.th[i].waitAddr == c) wake(s, i);
    ret[0] = VC(0);
    return A_Done;
}
BI(b_cond_destroy) {
    u64 c = en.concretize(s, a[0], 64);
    for (auto& t : s.th) if (t.st == T_Cond && t.waitAddr == c) { en.violation(s, "condition-misuse", "destruction of a condition variable with waiters"); return A_End; }
    ret[0] = VC(0);
    return A_Done;
}
BI(b_spawn) { // u64 vp_thread_spawn(fn, arg)
    u64 fn = en.concretize(s, a[0], 64), arg = en.concretize(s, a[1], 64);
    Func* F = en.funcByIdx.at((fn >> 32) - 0x01000000u);
    int id = s.th.size();
    if (id > 60) { en.violation(s, "threads", "more than 60 threads"); return A_End; }
    s.th.emplace_back();
    auto& t = s.th.back();
    if (s.race) { t.vc = s.th[s.cur].vc; t.vc.resize(std::max<size_t>(t.vc.size(), id + 1), 0); t.vc[id] = 1; en.vcInc(s, s.cur); }
    int cur = s.cur;
    s.cur = id;
    Val x[1] = { VC(arg) };
    en.pushCall(s, F, x, 1);
    s.cur = cur;
    ret[0] = VC(id);
    return A_Done;
}
BI(b_join) {
    u64 id = en.concretize(s, a[0], 64);
    if (id >= s.th.size() || s.th[id].joined) { en.violation(s, "thread-misuse", "join of an invalid thread"); return A_End; }
    if ((int)id == s.cur) { en.violation(s, "deadlock", "a thread joins itself"); return A_End; }
    if (s.th[id].st != T_Done) return blockOn(en, s, T_Join, id);
    s.th[id].joined = true;
    if (s.race) en.vcJoin(s.th[s.cur].vc, s.th[id].vc);
    return A_Done;
}
BI(b_detach) { u64 id = en.concretize(s, a[0], 64); if (id < s.th.size()) s.th[id].detached = true; return A_Done; }
BI(b_self) { ret[0] = VC(s.cur); return A_Done; }
BI(b_yield) {
    // let somebody else run
    if (s.th[s.cur].preSched) { ret[0] = VC(0); return A_Done; }
    auto r = en.runnable(s);
    s.th[s.cur].preSched = true;
    for (int t : r) if (t > s.cur) { if (s.explore) en.switchTo(s, t); else s.cur = t; return A_Redo; }
    if (r.size() && r[0] != s.cur) { if (s.explore) en.switchTo(s, r[0]); else s.cur = r[0]; return A_Redo; }
    ret[0] = VC(0);
    return A_Done;
}
BI(b_latch_wait) {
    u64 l = en.concretize(s, a[0], 64);
    if (!en.checkRange(s, l, 4, false, "latch wait")) return A_End;
    if (!en.schedPoint(s)) return A_Redo;
    Val v = en.readBytes(s, l >> 32, s.as.get(l >> 32), (u32)l, 4, 32);
    if (en.concretize(s, v, 32)) return blockOn(en, s, T_Latch, l);
    if (s.race) { en.raceAccess(s, l >> 32, (u32)l, 4, false, true); en.acquireVC(s, l); }
    return A_Done;
}
BI(b_latch_count_down) {
    u64 l = en.concretize(s, a[0], 64), k = en.concretize(s, a[1], 64);
    if (!en.checkRange(s, l, 4, true, "latch count_down")) return A_End;
    if (!en.schedPoint(s)) return A_Redo;
    Val v = en.readBytes(s, l >> 32, s.as.get(l >> 32), (u32)l, 4, 32);
    u64 c = en.concretize(s, v, 32);
    if (k > c) { en.violation(s, "latch-misuse", "latch counted down below zero"); return A_End; }
    if (s.race) { en.raceAccess(s, l >> 32, (u32)l, 4, true, true); en.releaseVC(s, l); }
    en.writeBytes(s, l >> 32, (u32)l, VC(c - k), 4, 32);
    return A_Done;
}
BI(b_latch_try) {
    u64 l = en.concretize(s, a[0], 64);
    if (!en.checkRange(s, l, 4, false, "latch try_wait")) return A_End;
    if (!en.schedPoint(s)) return A_Redo;
    Val v = en.readBytes(s, l >> 32, s.as.get(l >> 32), (u32)l, 4, 32);
    bool z = en.concretize(s, v, 32) == 0;
    if (z && s.race) { en.raceAccess(s, l >> 32, (u32)l, 4, false, true); en.acquireVC(s, l); }
    ret[0] = VC(z);
    return A_Done;
}
// vp_futex(address, operation, value, has a timeout): 0, or an error number negated
BI(b_futex) {
    u64 ad = en.concretize(s, a[0], 64);
    u64 op = en.concretize(s, a[1], 32) & 0x7f;
    if (op == 0 || op == 9) { // wait
        if (!en.schedPoint(s)) return A_Redo;
        auto& t = s.th[s.cur];
        if (t.woken) { t.woken = t.timed = false; ret[0] = VC(0); return A_Done; }
        if (t.timed) { t.timed = false; ret[0] = VC((u64)-110); return A_Done; } // ETIMEDOUT
        if (!en.checkRange(s, ad, 4, false, "futex wait")) return A_End;
        Val v = en.readBytes(s, ad >> 32, s.as.get(ad >> 32), (u32)ad, 4, 32);
        if (s.race) { en.raceAccess(s, ad >> 32, (u32)ad, 4, false, true); en.acquireVC(s, ad); }
        u64 exp = en.concretize(s, a[2], 32);
        if (en.concretize(s, v, 32) != exp) { ret[0] = VC((u64)-11); return A_Done; } // EAGAIN
        t.timed = en.concretize(s, a[3], 32) != 0;
        return blockOn(en, s, T_Futex, ad);
    }
    u64 cnt = en.concretize(s, a[2], 32);
    for (auto& t : s.th) if (cnt && t.st == T_Futex && t.waitAddr == ad && !t.woken) { t.woken = true; cnt--; }
    ret[0] = VC(0);
    return A_Done;
}
BI(b_guard_acquire) {
    u64 g = en.concretize(s, a[0], 64);
    Obj* o = en.access(s, g, 8, false, "guard");
    if (!o) return A_End;
    en.acquireVC(s, g);
    if (o->data[(u32)g]) { ret[0] = VC(0); return A_Done; }
    if (o->data[(u32)g + 1]) { en.engineErrors.insert("contended static initialisation"); return A_End; }
    s.as.getW(g >> 32)->data[(u32)g + 1] = 1;
    ret[0] = VC(1);
    return A_Done;
}
BI(b_guard_release) {
    u64 g = en.concretize(s, a[0], 64);
    Obj* o = s.as.getW(g >> 32);
    o->data[(u32)g] = 1; o->data[(u32)g + 1] = 0;
    en.releaseVC(s, g);
    return A_Done;
}
BI(b_guard_abort) { u64 g = en.concretize(s, a[0], 64); s.as.getW(g >> 32)->data[(u32)g + 1] = 0; return A_Done; }

// ---------------------------------------------------------------- harness API
BI(b_vp_sym) { // u64 vp_sym(const char* name, unsigned bits)
    std::string nm;
    en.cstr(s, a[0].c, nm);
    unsigned w = a[1].c;
    size_t k = s.ins.size();
    if (en.haveFixed) {
        u64 v = k < en.fixedIns.size() ? en.fixedIns[k] : 0;
        s.ins.push_back({ nm, w, nullptr, v & mask64(w) });
        ret[0] = VC(v & mask64(w));
        return A_Done;
    }
    // one variable per (position, name, width), shared between paths
    static std::map<std::tuple<size_t, std::string, unsigned>, E> vars;
    E& v = vars[{ k, nm, w }];
    if (!v) v = mkVar(nm + "#" + std::to_string(k), w);
    s.ins.push_back({ nm, w, v, 0 });
    ret[0] = VE(mkZExt(v, 64));
    return A_Done;
}
BI(b_vp_assume) {
    if (!a[0].e) { if (!a[0].c) return A_End; return A_Done; }
    unsigned w = argW(I, 0);
    E c = w == 1 ? a[0].e : mkNot(mkBin(K_Eq, a[0].e, mkConst(0, w)));
    if (c->isConst()) return c->v ? A_Done : A_End;
    ModelP m;
    Res r = solve(s.cons, c, s.model, &m);
    if (r == R_Unknown) { en.incompl("solver gave up on an assumption"); return A_End; }
    if (r == R_Unsat) return A_End;
    s.model = m;
    en.addCons(s, c);
    return A_Done;
}
BI(b_vp_assert) { // (bool cond, const char* msg)
    en.asserts++;
    std::string msg;
    en.cstr(s, a[1].c, msg);
    unsigned w = argW(I, 0);
    if (!a[0].e) {
        if (!a[0].c) { en.violation(s, "assertion", msg); return A_End; }
        return A_Done;
    }
    E c = w == 1 ? a[0].e : mkNot(mkBin(K_Eq, a[0].e, mkConst(0, w)));
    if (!c->isConst()) en.assertQ++;
    if (c->uninit && !c->isConst()) {
        ModelP m;
        if (solve(s.cons, mkNot(c), s.model, &m) == R_Sat) { en.violation(s, "uninitialised", "checked data depends on uninitialised memory: " + msg, m); return A_End; }
    }
    if (!en.checkCond(s, c, "assertion", msg)) return A_End;
    return A_Done;
}
BI(b_vp_concretize) { ret[0] = VC(en.concretize(s, a[0], 64)); return A_Done; }
BI(b_vp_observe) { ObsRec o; o.tag = a[0].c; o.e = a[1].e; o.c = a[1].c; s.obs.push_back(o); return A_Done; }
BI(b_vp_arg) { u64 i = a[0].c; ret[0] = VC(i < en.args.size() ? en.args[i] : 0); return A_Done; }
BI(b_vp_reach) { s.reached.insert(a[0].c); return A_Done; }
BI(b_vp_sched) { // (explore, preemptions, race)
    const bool on = !s.race && a[2].c;
    s.explore = a[0].c; s.preempt = a[1].c; s.race = a[2].c;
    if (on) { // whatever happened before is ordered with what comes
        std::vector<u32> all(s.th.size(), 0);
        for (auto& t : s.th) en.vcJoin(all, t.vc);
        for (int i = 0; i < (int)s.th.size(); i++) { s.th[i].vc = all; en.vcInc(s, i); }
    }
    return A_Done;
}
BI(b_vp_threads) { u64 k = 0; for (auto& t : s.th) if (t.st != T_Done) k++; ret[0] = VC(k); return A_Done; }
BI(b_vp_tid) { ret[0] = VC(s.cur); return A_Done; }
BI(b_vp_leak_mark) { s.leakMark = s.nextObj; return A_Done; }
BI(b_vp_leak_check) {
    for (u32 id = std::max(1u, s.leakMark); id < s.nextObj; id++) {
        Obj* o = s.as.get(id);
        if (o && o->kind == O_Heap && !o->env) {
            std::string at;
            for (auto* i : o->site) { Func* f = en.getFunc(const_cast<llvm::Function*>(i->getFunction())); if (f->isRepo) { at = en.locStr(i); break; } }
            if (at.empty() && !o->site.empty()) at = en.locStr(o->site.back());
            en.violation(s, "leak", std::to_string(o->size) + " bytes never released, allocated in " + at);
            return A_End;
        }
    }
    return A_Done;
}
BI(b_vp_heap_bytes) { u64 k = 0; for (u32 id = std::max(1u, s.leakMark); id < s.nextObj; id++) { Obj* o = s.as.get(id); if (o && o->kind == O_Heap && !o->env) k += o->size; } ret[0] = VC(k); return A_Done; }
BI(b_vp_heap_count) { u64 k = 0; for (u32 id = std::max(1u, s.leakMark); id < s.nextObj; id++) { Obj* o = s.as.get(id); if (o && o->kind == O_Heap && !o->env) k++; } ret[0] = VC(k); return A_Done; }
BI(b_env_enter) { s.th[s.cur].env++; return A_Done; }
BI(b_env_leave) { s.th[s.cur].env--; return A_Done; }
BI(b_vp_is_sym) { ret[0] = VC(a[0].e != nullptr); return A_Done; }
BI(b_vp_zero_if_native) { ret[0] = VC(1); return A_Done; }
BI(b_vp_print) { std::string t; en.cstr(s, a[0].c, t); if (getenv("VP_PRINT")) fprintf(stderr, "[print] %s %llu%s\n", t.c_str(), (unsigned long long)(a[1].e ? (u64)evalExpr(a[1].e, *s.model) : a[1].c), a[1].e ? " (sym)" : ""); return A_Done; }
BI(b_vp_print_s) { std::string t; u64 p = a[0].c; u64 len = a[1].c; for (u64 i = 0; i < len; i++) { Obj* o = s.as.get(p >> 32); u64 f = (u32)p + i; if (!o || f >= o->size) break; t += o->sym && o->sym->get(f) ? '?' : (char)o->data[f]; } if (getenv("VP_PRINT")) fprintf(stderr, "[print] %s\n", t.c_str()); return A_Done; }
BI(b_vp_fail) { std::string m; en.cstr(s, a[0].c, m); en.engineErrors.insert("model: " + m); return A_End; }
BI(b_vp_stop) { return A_End; }
BI(b_vp_valid) { // is [p, p+n) inside one live object?
    u64 p = en.concretize(s, a[0], 64), k = en.concretize(s, a[1], 64);
    Obj* o = s.as.get(p >> 32);
    ret[0] = VC(o && (u32)p <= o->size && k <= o->size - (u32)p);
    return A_Done;
}

void registerBuiltins(Engine& e) {
    auto& b = e.builtins;
    b["malloc"] = b_malloc; b["calloc"] = b_calloc; b["realloc"] = b_realloc; b["free"] = b_free;
    b["aligned_alloc"] = b_aligned_alloc; b["posix_memalign"] = b_posix_memalign;
    b["_Znwm"] = b_new; b["_Znam"] = b_newarr; b["_ZdlPv"] = b_delete; b["_ZdaPv"] = b_deletearr;
    b["_ZdlPvm"] = b_delete; b["_ZdaPvm"] = b_deletearr;
    b["_ZnwmSt11align_val_t"] = b_new; b["_ZnamSt11align_val_t"] = b_newarr; b["_ZnwmRKSt9nothrow_t"] = b_new; b["_ZnamRKSt9nothrow_t"] = b_newarr;
    b["_ZdlPvSt11align_val_t"] = b_delete; b["_ZdlPvmSt11align_val_t"] = b_delete; b["_ZdaPvSt11align_val_t"] = b_deletearr; b["_ZdaPvmSt11align_val_t"] = b_deletearr;
    b["_ZdlPvRKSt9nothrow_t"] = b_delete; b["_ZdaPvRKSt9nothrow_t"] = b_deletearr;
    b["llvm.memcpy"] = b_memcpy; b["llvm.memmove"] = b_memcpy; b["llvm.memcpy.inline"] = b_memcpy; b["memcpy"] = b_memcpy; b["memmove"] = b_memcpy;
    b["llvm.memset"] = b_memset; b["memset"] = b_memset;
    b["memcmp"] = b_memcmp; b["bcmp"] = b_memcmp;
    b["llvm.uadd.with.overflow"] = b_ovf<0>; b["llvm.usub.with.overflow"] = b_ovf<1>; b["llvm.umul.with.overflow"] = b_ovf<2>;
    b["llvm.sadd.with.overflow"] = b_ovf<3>; b["llvm.ssub.with.overflow"] = b_ovf<4>; b["llvm.smul.with.overflow"] = b_ovf<5>;
    b["llvm.umin"] = b_minmax<0>; b["llvm.umax"] = b_minmax<1>; b["llvm.smin"] = b_minmax<2>; b["llvm.smax"] = b_minmax<3>;
    b["llvm.abs"] = b_abs; b["llvm.uadd.sat"] = b_sat<0>; b["llvm.usub.sat"] = b_sat<1>;
    b["llvm.ctlz"] = b_bits<0>; b["llvm.cttz"] = b_bits<1>; b["llvm.ctpop"] = b_bits<2>; b["llvm.bswap"] = b_bits<3>;
    b["llvm.fshl"] = b_fsh<1>; b["llvm.fshr"] = b_fsh<0>;
    b["llvm.expect"] = b_first; b["llvm.expect.with.probability"] = b_first; b["llvm.launder.invariant.group"] = b_first; b["llvm.strip.invariant.group"] = b_first; b["llvm.ptr.annotation"] = b_first;
    for (auto* nm : { "llvm.lifetime.start", "llvm.lifetime.end", "llvm.invariant.start", "llvm.invariant.end", "llvm.stackrestore", "llvm.experimental.noalias.scope.decl", "llvm.donothing", "llvm.prefetch", "llvm.dbg.declare", "llvm.dbg.value", "llvm.dbg.label", "llvm.va_end", "llvm.sideeffect" }) b[nm] = b_nop;
    b["llvm.va_start"] = b_va_start; b["llvm.va_copy"] = b_va_copy;
    b["llvm.stacksave"] = b_zero; b["llvm.is.constant"] = b_false; b["llvm.objectsize"] = b_objsize;
    b["llvm.trap"] = b_trap; b["llvm.debugtrap"] = b_trap; b["llvm.ubsantrap"] = b_trap;
    b["llvm.eh.typeid.for"] = b_typeid; b["llvm.assume"] = b_assume; b["llvm.threadlocal.address"] = b_tls;
    for (auto* n : { "llvm.round", "round", "roundf" }) b[n] = b_froundaway;
    for (auto* n : { "rint", "rintf", "nearbyint", "nearbyintf" }) b[n] = b_fround<3>;
    b["floorf"] = b_fround<0>; b["ceilf"] = b_fround<1>; b["truncf"] = b_fround<2>; b["trunc"] = b_fround<2>;
    b["llvm.floor"] = b_fround<0>; b["floor"] = b_fround<0>; b["llvm.ceil"] = b_fround<1>; b["ceil"] = b_fround<1>; b["llvm.trunc"] = b_fround<2>; b["trunc"] = b_fround<2>; b["llvm.rint"] = b_fround<3>; b["llvm.nearbyint"] = b_fround<3>; b["llvm.roundeven"] = b_fround<3>;
    b["llvm.is.fpclass"] = b_fpclass; b["llvm.fabs"] = b_fabs; b["fabs"] = b_fabs; b["llvm.fmuladd"] = b_fmuladd; b["llvm.pow"] = b_pow; b["pow"] = b_pow; b["ldexp"] = b_ldexp; b["llvm.ldexp"] = b_ldexp; b["exp2"] = b_zero; b["log2"] = b_log2; b["llvm.log2"] = b_log2; b["sqrt"] = b_sqrt; b["llvm.sqrt"] = b_sqrt;
    b.erase("exp2");
    b["strtod"] = b_strtod; b["vp_fmt_double"] = b_fmt_double;
    b["vp_unwind"] = b_unwind; b["_ZSt9terminatev"] = b_terminate; b["abort"] = b_abort; b["__cxa_pure_virtual"] = b_pure; b["exit"] = b_exit; b["_exit"] = b_exit;
    b["__cxa_atexit"] = b_zero; b["__cxa_thread_atexit"] = b_zero; b["atexit"] = b_zero;
    b["__cxa_guard_acquire"] = b_guard_acquire; b["__cxa_guard_release"] = b_guard_release; b["__cxa_guard_abort"] = b_guard_abort;
    b["pthread_mutex_lock"] = b_mutex_lock; b["pthread_mutex_unlock"] = b_mutex_unlock; b["pthread_mutex_trylock"] = b_mutex_trylock; b["pthread_mutex_destroy"] = b_mutex_destroy; b["pthread_mutex_init"] = b_zero;
    b["vp_cond_wait"] = b_cond_wait; b["pthread_cond_wait"] = b_cond_wait; b["pthread_cond_timedwait"] = b_cond_timedwait; b["pthread_cond_clockwait"] = b_cond_timedwait;
    b["vp_cond_notify_one"] = b_cond_notify_one; b["pthread_cond_signal"] = b_cond_notify_one; b["vp_cond_notify_all"] = b_cond_notify_all; b["pthread_cond_broadcast"] = b_cond_notify_all; b["vp_cond_destroy"] = b_cond_destroy; b["pthread_cond_destroy"] = b_cond_destroy;
    b["vp_thread_spawn"] = b_spawn; b["vp_thread_join"] = b_join; b["vp_thread_detach"] = b_detach; b["pthread_self"] = b_self;
    b["sched_yield"] = b_yield; b["llvm.x86.sse2.pause"] = b_zero; b["pthread_mutex_timedlock"] = b_mutex_lock; b["pthread_mutex_clocklock"] = b_mutex_lock; b["nanosleep"] = b_yield; b["clock_nanosleep"] = b_yield; b["usleep"] = b_yield;
    b["_ZNKSt5latch4waitEv"] = b_latch_wait; b["_ZNSt5latch10count_downEl"] = b_latch_count_down; b["_ZNKSt5latch8try_waitEv"] = b_latch_try;
    b["vp_futex"] = b_futex;
    b["vp_sym"] = b_vp_sym; b["vp_assume"] = b_vp_assume; b["vp_assert_"] = b_vp_assert; b["vp_concretize"] = b_vp_concretize; b["vp_observe"] = b_vp_observe;
    b["vp_arg"] = b_vp_arg; b["vp_reach"] = b_vp_reach; b["vp_sched"] = b_vp_sched; b["vp_threads"] = b_vp_threads; b["vp_tid"] = b_vp_tid;
    b["vp_env_enter"] = b_env_enter; b["vp_env_leave"] = b_env_leave;
    b["vp_leak_mark"] = b_vp_leak_mark; b["vp_leak_check"] = b_vp_leak_check; b["vp_heap_count"] = b_vp_heap_count; b["vp_heap_bytes"] = b_vp_heap_bytes; b["vp_is_sym"] = b_vp_is_sym; b["vp_symbolic"] = b_vp_zero_if_native;
    b["vp_print"] = b_vp_print; b["vp_print_s"] = b_vp_print_s; b["vp_model_error"] = b_vp_fail; b["vp_stop"] = b_vp_stop; b["vp_valid"] = b_vp_valid;
}
