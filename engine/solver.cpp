#include "solver.h"
#include <z3.h>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <unordered_map>
#include <algorithm>

SolverStats g_sstats;
unsigned g_queryTimeoutMs = 120000;

namespace {
Z3_context ctx;
Z3_sort boolS, f32S, f64S;
Z3_tactic tac, tacFp;
Z3_ast rneA, rtzA;
bool inited = false;
bool z3err = false;

void onErr(Z3_context c, Z3_error_code e) {
    fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
    z3err = true;
}
Z3_ast keep(Z3_ast a) { Z3_inc_ref(ctx, a); return a; }
void init() {
    if (inited) return;
    inited = true;
    Z3_config cfg = Z3_mk_config();
    ctx = Z3_mk_context(cfg); // terms live as long as the process: they are cached anyway
    Z3_del_config(cfg);
    Z3_set_error_handler(ctx, onErr);
    boolS = Z3_mk_bool_sort(ctx); Z3_inc_ref(ctx, (Z3_ast)boolS);
    f32S = Z3_mk_fpa_sort_32(ctx); Z3_inc_ref(ctx, (Z3_ast)f32S);
    f64S = Z3_mk_fpa_sort_64(ctx); Z3_inc_ref(ctx, (Z3_ast)f64S);
    rneA = keep(Z3_mk_fpa_rne(ctx)); rtzA = keep(Z3_mk_fpa_rtz(ctx));
    auto T = [&](const char* n) { Z3_tactic t = Z3_mk_tactic(ctx, n); Z3_tactic_inc_ref(ctx, t); return t; };
    auto then = [&](Z3_tactic a, Z3_tactic b) { Z3_tactic t = Z3_tactic_and_then(ctx, a, b); Z3_tactic_inc_ref(ctx, t); return t; };
    Z3_tactic t = T("sat");
    t = then(T("bit-blast"), t);
    t = then(T("simplify"), t);
    t = then(T("elim-uncnstr"), t);
    t = then(T("solve-eqs"), t);
    t = then(T("propagate-values"), t);
    tac = then(T("simplify"), t);
    tacFp = T("qffpbv");
}

Z3_ast tr(E e);
Z3_ast bv(E e) { // as bit-vector, width-1 bools become bv1
    Z3_ast a = tr(e);
    if (e->w != 1) return a;
    Z3_sort s = Z3_mk_bv_sort(ctx, 1);
    return Z3_mk_ite(ctx, a, Z3_mk_unsigned_int64(ctx, 1, s), Z3_mk_unsigned_int64(ctx, 0, s));
}
Z3_ast fp(E e) { return Z3_mk_fpa_to_fp_bv(ctx, tr(e), e->w == 64 ? f64S : f32S); }
Z3_sort fs(unsigned w) { return w == 64 ? f64S : f32S; }

Z3_ast tr(E e) {
    if (e->z3) return (Z3_ast)e->z3;
    Z3_ast r = nullptr;
    unsigned w = e->w;
    auto B = [&](Z3_ast x) { // bv1 -> bool
        Z3_sort s = Z3_mk_bv_sort(ctx, 1);
        return Z3_mk_eq(ctx, x, Z3_mk_unsigned_int64(ctx, 1, s));
    };
    switch (e->k) {
    case K_Const:
        if (w == 1) r = e->v ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
        else if (w <= 64) r = Z3_mk_unsigned_int64(ctx, e->v, Z3_mk_bv_sort(ctx, w));
        else {
            Z3_ast h = keep(Z3_mk_unsigned_int64(ctx, e->vh, Z3_mk_bv_sort(ctx, w - 64)));
            Z3_ast l = keep(Z3_mk_unsigned_int64(ctx, e->v, Z3_mk_bv_sort(ctx, 64)));
            r = Z3_mk_concat(ctx, h, l);
        }
        break;
    case K_Var: {
        std::string n = "v" + std::to_string(e->aux);
        r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), w == 1 ? boolS : Z3_mk_bv_sort(ctx, w));
        break;
    }
    case K_Not: r = w == 1 ? Z3_mk_not(ctx, tr(e->a)) : Z3_mk_bvnot(ctx, tr(e->a)); break;
    case K_And: case K_Or: case K_Xor: {
        Z3_ast a = tr(e->a), b = tr(e->b);
        if (w == 1) {
            Z3_ast args[2] = { a, b };
            r = e->k == K_And ? Z3_mk_and(ctx, 2, args) : e->k == K_Or ? Z3_mk_or(ctx, 2, args) : Z3_mk_xor(ctx, a, b);
        } else
            r = e->k == K_And ? Z3_mk_bvand(ctx, a, b) : e->k == K_Or ? Z3_mk_bvor(ctx, a, b) : Z3_mk_bvxor(ctx, a, b);
        break;
    }
    case K_Ite: { Z3_ast c = tr(e->a), t = tr(e->b), f = tr(e->c); r = Z3_mk_ite(ctx, c, t, f); break; }
    case K_Concat: { Z3_ast a = keep(bv(e->a)), b = keep(bv(e->b)); r = Z3_mk_concat(ctx, a, b); break; }
    case K_Extract: {
        Z3_ast a = tr(e->a);
        r = Z3_mk_extract(ctx, e->aux + w - 1, e->aux, a);
        if (w == 1) { keep(r); r = B(r); }
        break;
    }
    case K_ZExt: { Z3_ast a = keep(bv(e->a)); r = Z3_mk_zero_ext(ctx, w - e->a->w, a); break; }
    case K_SExt: { Z3_ast a = keep(bv(e->a)); r = Z3_mk_sign_ext(ctx, w - e->a->w, a); break; }
    case K_Eq: {
        Z3_ast a = tr(e->a), b = tr(e->b);
        r = e->a->w == 1 ? Z3_mk_iff(ctx, a, b) : Z3_mk_eq(ctx, a, b);
        break;
    }
    case K_FDyad: {
        Z3_ast a = tr(e->a);
        Z3_ast f = keep(Z3_mk_fpa_to_fp_signed(ctx, rneA, a, fs(w)));
        Z3_ast sc = keep(Z3_mk_fpa_numeral_double(ctx, __builtin_ldexp(1.0, e->aux), fs(w)));
        f = keep(Z3_mk_fpa_mul(ctx, rneA, f, sc));
        r = Z3_mk_fpa_to_ieee_bv(ctx, f);
        break;
    }
    case K_FAdd: case K_FSub: case K_FMul: case K_FDiv: {
        Z3_ast a = keep(fp(e->a)), b = keep(fp(e->b)), x;
        x = e->k == K_FAdd ? Z3_mk_fpa_add(ctx, rneA, a, b) : e->k == K_FSub ? Z3_mk_fpa_sub(ctx, rneA, a, b) : e->k == K_FMul ? Z3_mk_fpa_mul(ctx, rneA, a, b) : Z3_mk_fpa_div(ctx, rneA, a, b);
        keep(x);
        r = Z3_mk_fpa_to_ieee_bv(ctx, x);
        break;
    }
    case K_FOeq: { Z3_ast a = keep(fp(e->a)), b = keep(fp(e->b)); r = Z3_mk_fpa_eq(ctx, a, b); break; }
    case K_FOlt: { Z3_ast a = keep(fp(e->a)), b = keep(fp(e->b)); r = Z3_mk_fpa_lt(ctx, a, b); break; }
    case K_FOle: { Z3_ast a = keep(fp(e->a)), b = keep(fp(e->b)); r = Z3_mk_fpa_leq(ctx, a, b); break; }
    case K_FUno: {
        Z3_ast a = keep(fp(e->a)), b = keep(fp(e->b));
        Z3_ast args[2] = { keep(Z3_mk_fpa_is_nan(ctx, a)), keep(Z3_mk_fpa_is_nan(ctx, b)) };
        r = Z3_mk_or(ctx, 2, args);
        break;
    }
    case K_UIToF: case K_SIToF: {
        Z3_ast a = keep(bv(e->a));
        Z3_ast f = keep(e->k == K_UIToF ? Z3_mk_fpa_to_fp_unsigned(ctx, rneA, a, fs(w)) : Z3_mk_fpa_to_fp_signed(ctx, rneA, a, fs(w)));
        r = Z3_mk_fpa_to_ieee_bv(ctx, f);
        break;
    }
    case K_FToUI: case K_FToSI: {
        Z3_ast a = keep(fp(e->a));
        r = e->k == K_FToUI ? Z3_mk_fpa_to_ubv(ctx, rtzA, a, w) : Z3_mk_fpa_to_sbv(ctx, rtzA, a, w);
        if (w == 1) { keep(r); r = B(r); }
        break;
    }
    case K_FToF: { Z3_ast a = keep(fp(e->a)); Z3_ast f = keep(Z3_mk_fpa_to_fp_float(ctx, rneA, a, fs(w))); r = Z3_mk_fpa_to_ieee_bv(ctx, f); break; }
    case K_FRound: {
        Z3_ast a = keep(fp(e->a));
        Z3_ast rm = keep(e->aux == 0 ? Z3_mk_fpa_rtn(ctx) : e->aux == 1 ? Z3_mk_fpa_rtp(ctx) : e->aux == 2 ? rtzA : rneA);
        Z3_ast f = keep(Z3_mk_fpa_round_to_integral(ctx, rm, a));
        r = Z3_mk_fpa_to_ieee_bv(ctx, f);
        break;
    }
    default: {
        Z3_ast a = keep(bv(e->a)), b = keep(bv(e->b));
        switch (e->k) {
        case K_Add: r = Z3_mk_bvadd(ctx, a, b); break;
        case K_Sub: r = Z3_mk_bvsub(ctx, a, b); break;
        case K_Mul: r = Z3_mk_bvmul(ctx, a, b); break;
        case K_UDiv: r = Z3_mk_bvudiv(ctx, a, b); break;
        case K_SDiv: r = Z3_mk_bvsdiv(ctx, a, b); break;
        case K_URem: r = Z3_mk_bvurem(ctx, a, b); break;
        case K_SRem: r = Z3_mk_bvsrem(ctx, a, b); break;
        case K_Shl: r = Z3_mk_bvshl(ctx, a, b); break;
        case K_LShr: r = Z3_mk_bvlshr(ctx, a, b); break;
        case K_AShr: r = Z3_mk_bvashr(ctx, a, b); break;
        case K_Ult: r = Z3_mk_bvult(ctx, a, b); break;
        case K_Ule: r = Z3_mk_bvule(ctx, a, b); break;
        case K_Slt: r = Z3_mk_bvslt(ctx, a, b); break;
        case K_Sle: r = Z3_mk_bvsle(ctx, a, b); break;
        default: fprintf(stderr, "tr: bad kind\n"); abort();
        }
        if (w == 1 && e->k < K_Ult) { keep(r); r = B(r); }
    }
    }
    keep(r);
    e->z3 = r;
    return r;
}

bool hasFp(E e, std::unordered_map<E, bool>& seen) {
    auto it = seen.find(e);
    if (it != seen.end()) return it->second;
    bool r = e->k >= K_FDyad;
    for (E x : { e->a, e->b, e->c }) if (!r && x) r = hasFp(x, seen);
    seen[e] = r;
    return r;
}

std::chrono::steady_clock::time_point g_deadline;
typedef std::vector<std::pair<u32, u128>> Assign;

// one call of Z3 on a conjunction
Res z3check(const std::vector<E>& cs, const std::vector<u32>& vars, unsigned ms, Assign& m) {
    std::unordered_map<E, bool> seen;
    bool isFp = false;
    for (E x : cs) if (hasFp(x, seen)) { isFp = true; break; }
    Z3_solver s = Z3_mk_solver_from_tactic(ctx, isFp ? tacFp : tac);
    Z3_solver_inc_ref(ctx, s);
    Z3_params p = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), ms);
    Z3_solver_set_params(ctx, s, p);
    z3err = false;
    for (E x : cs) Z3_solver_assert(ctx, s, tr(x));
    auto t0 = std::chrono::steady_clock::now();
    Z3_lbool r = Z3_solver_check(ctx, s);
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    g_sstats.z3calls++; g_sstats.z3time += dt; g_sstats.z3max = std::max(g_sstats.z3max, dt);
    if (getenv("VP_DUMPQ") && dt > atof(getenv("VP_SLOWQ") ? getenv("VP_SLOWQ") : "1")) { // (for looking at slow queries)
        Z3_solver d = Z3_mk_simple_solver(ctx);
        Z3_solver_inc_ref(ctx, d);
        for (E x : cs) Z3_solver_assert(ctx, d, tr(x));
        FILE* f = fopen(getenv("VP_DUMPQ"), "w");
        fprintf(f, "%s(check-sat)\n", Z3_solver_to_string(ctx, d));
        fclose(f);
        Z3_solver_dec_ref(ctx, d);
    }
    Res res = z3err ? R_Unknown : r == Z3_L_TRUE ? R_Sat : r == Z3_L_FALSE ? R_Unsat : R_Unknown;
    if (res == R_Sat) {
        Z3_model zm = Z3_solver_get_model(ctx, s);
        Z3_model_inc_ref(ctx, zm);
        for (u32 i : vars) {
            Z3_ast o = nullptr;
            Z3_ast a = tr(g_vars[i].e);
            u128 val = 0;
            if (Z3_model_eval(ctx, zm, a, true, &o)) {
                Z3_inc_ref(ctx, o);
                if (g_vars[i].w == 1) val = Z3_get_bool_value(ctx, o) == Z3_L_TRUE;
                else if (g_vars[i].w <= 64) { uint64_t u = 0; Z3_get_numeral_uint64(ctx, o, &u); val = u; }
                Z3_dec_ref(ctx, o);
            }
            m.push_back({ i, val });
        }
        Z3_model_dec_ref(ctx, zm);
    }
    Z3_params_dec_ref(ctx, p);
    Z3_solver_dec_ref(ctx, s);
    return res;
}

// rebuild with one variable fixed
E subst(E e, u32 var, u128 val, std::unordered_map<E, E>& memo) {
    if (e->isConst() || !std::binary_search(e->vars->ids.begin(), e->vars->ids.end(), var)) return e;
    if (e->k == K_Var) return mkConst(val, e->w);
    auto it = memo.find(e);
    if (it != memo.end()) return it->second;
    E a = e->a ? subst(e->a, var, val, memo) : nullptr;
    E b = e->b ? subst(e->b, var, val, memo) : nullptr;
    E c = e->c ? subst(e->c, var, val, memo) : nullptr;
    E r;
    switch (e->k) {
    case K_Not: r = mkNot(a); break;
    case K_Ite: r = mkIte(a, b, c); break;
    case K_Concat: r = mkConcat(a, b); break;
    case K_Extract: r = mkExtract(a, e->aux, e->w); break;
    case K_ZExt: r = mkZExt(a, e->w); break;
    case K_SExt: r = mkSExt(a, e->w); break;
    default:
        if (e->k >= K_FDyad) return nullptr; // floating point is not split
        if (!a || !b) return nullptr;
        if (e->k >= K_UDiv && e->k <= K_SRem && b->isConst() && b->cv() == 0) r = e->k == K_UDiv ? mkConst(maskW(e->w), e->w) : e->k == K_SDiv ? mkIte(mkBin(K_Slt, a, mkConst(0, e->w)), mkConst(1, e->w), mkConst(maskW(e->w), e->w)) : a;
        else r = mkBin(e->k, a, b);
    }
    memo[e] = r;
    return r;
}

// variables under multiplications and divisions of two unknowns, with how often they occur
void nonlinear(E e, std::unordered_map<E, bool>& seen, std::unordered_map<u32, int>& n) {
    if (e->isConst() || e->k == K_Var || seen.count(e)) return;
    seen[e] = true;
    if ((e->k == K_Mul || e->k == K_UDiv || e->k == K_URem || e->k == K_SDiv || e->k == K_SRem) && !e->b->isConst()) {
        for (u32 v : e->b->vars->ids) n[v] += e->k == K_Mul ? 2 : 4;
        if (e->k == K_Mul) for (u32 v : e->a->vars->ids) n[v] += 2;
    }
    for (E x : { e->a, e->b, e->c }) if (x) nonlinear(x, seen, n);
}

// Z3 first; if it gives up, split on the values of a narrow variable that makes the query nonlinear
Res decide(const std::vector<E>& cs, const std::vector<u32>& vars, unsigned ms, int depth, Assign& m) {
    auto now = std::chrono::steady_clock::now();
    if (now >= g_deadline) return R_Unknown;
    unsigned left = std::chrono::duration_cast<std::chrono::milliseconds>(g_deadline - now).count() + 1;
    Res r = z3check(cs, vars, std::min(ms, left), m);
    if (r != R_Unknown || depth >= 6) return r;
    m.clear();
    std::unordered_map<E, bool> seen;
    std::unordered_map<u32, int> cnt;
    for (E x : cs) nonlinear(x, seen, cnt);
    u32 best = ~0u; double bs = 0;
    for (auto& c : cnt) {
        unsigned w = g_vars[c.first].w;
        if (w > 8) continue;
        double sc = c.second / (double)w;
        if (sc > bs || (sc == bs && c.first < best)) { bs = sc; best = c.first; }
    }
    if (best == ~0u) return R_Unknown;
    g_sstats.splits++;
    for (u64 v = 0; v < (1ull << g_vars[best].w); v++) {
        std::unordered_map<E, E> memo;
        std::vector<E> sub;
        bool dead = false;
        for (E x : cs) {
            E y = subst(x, best, v, memo);
            if (!y) return R_Unknown;
            if (isFalse(y)) { dead = true; break; }
            if (!isTrue(y)) sub.push_back(y);
        }
        if (dead) continue;
        Assign am;
        Res q = decide(sub, vars, std::max(2000u, ms / 4), depth + 1, am);
        if (q == R_Sat) {
            for (auto& p : am) if (p.first != best) m.push_back(p);
            m.push_back({ best, v });
            return R_Sat;
        }
        if (q == R_Unknown) return R_Unknown;
    }
    return R_Unsat;
}

struct VHash { size_t operator()(const std::vector<u32>& v) const { u64 h = 7; for (u32 x : v) h = (h ^ x) * 0x100000001b3ULL + (h >> 31); return h; } };
struct CacheEnt { Res r; std::vector<std::pair<u32, u128>> m; };
std::unordered_map<std::vector<u32>, CacheEnt, VHash> cache;
std::deque<ModelP> recent;
} // namespace

ModelP freshModel(const std::vector<u128>& v) {
    auto m = std::make_shared<Model>();
    m->val = v;
    m->gen = newGen();
    return m;
}

Res solve(const std::vector<E>& cons, E cond, const ModelP& base, ModelP* out) {
    g_sstats.queries++;
    if (cond->isConst()) {
        if (cond->v) { if (out) *out = base; return R_Sat; }
        return R_Unsat;
    }
    // slice
    static std::vector<u32> mark;
    static u32 stamp = 0;
    if (mark.size() < g_vars.size() + 1) mark.resize(g_vars.size() * 2 + 16, 0);
    stamp++;
    std::vector<E> slice;
    std::vector<const Expr*> rest(cons.begin(), cons.end());
    for (u32 v : cond->vars->ids) mark[v] = stamp;
    bool ch = true;
    while (ch) {
        ch = false;
        size_t k = 0;
        for (size_t i = 0; i < rest.size(); i++) {
            bool hit = false;
            for (u32 v : rest[i]->vars->ids) if (mark[v] == stamp) { hit = true; break; }
            if (hit) { slice.push_back(rest[i]); for (u32 v : rest[i]->vars->ids) if (mark[v] != stamp) { mark[v] = stamp; ch = true; } }
            else rest[k++] = rest[i];
        }
        rest.resize(k);
    }
    slice.push_back(cond);
    auto combine = [&](const std::vector<std::pair<u32, u128>>& m) {
        std::vector<u128> v = base->val;
        if (v.size() < g_vars.size()) v.resize(g_vars.size(), 0);
        for (u32 i = 0; i < g_vars.size(); i++) if (mark[i] == stamp) v[i] = 0;
        for (auto& p : m) v[p.first] = p.second;
        return freshModel(v);
    };
    if (evalExpr(cond, *base)) { if (out) *out = base; g_sstats.modelHits++; return R_Sat; }
    for (auto& mp : recent) {
        bool ok = evalExpr(cond, *mp) != 0;
        for (size_t i = 0; ok && i + 1 < slice.size(); i++) ok = evalExpr(slice[i], *mp) != 0;
        if (ok) {
            g_sstats.modelHits++;
            if (out) {
                std::vector<std::pair<u32, u128>> m;
                for (u32 i = 0; i < mp->val.size() && i < g_vars.size(); i++) if (mark[i] == stamp) m.push_back({ i, mp->val[i] });
                *out = combine(m);
            }
            return R_Sat;
        }
    }
    std::vector<u32> key;
    for (E x : slice) key.push_back(x->id);
    std::sort(key.begin(), key.end());
    key.erase(std::unique(key.begin(), key.end()), key.end());
    auto it = cache.find(key);
    if (it != cache.end()) {
        g_sstats.cacheHits++;
        if (it->second.r == R_Sat && out) *out = combine(it->second.m);
        return it->second.r;
    }
    init();
    CacheEnt ce;
    {
        std::vector<u32> vs;
        for (u32 i = 0; i < g_vars.size(); i++) if (mark[i] == stamp) vs.push_back(i);
        auto t0 = std::chrono::steady_clock::now();
        g_deadline = t0 + std::chrono::milliseconds(g_queryTimeoutMs);
        ce.r = decide(slice, vs, std::min(g_queryTimeoutMs, 15000u), 0, ce.m);
        double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        if (getenv("VP_SLOWQ") && dt > atof(getenv("VP_SLOWQ")))
            fprintf(stderr, "slow query %.2fs res=%d slice=%zu cond=%s\n", dt, (int)ce.r, slice.size(), exprStr(cond, 6).c_str());
    }
    if (ce.r == R_Sat) {
        ModelP mm = combine(ce.m);
        bool ok = true;
        for (E x : slice) if (!evalExpr(x, *mm)) ok = false;
        if (!ok) {
            fprintf(stderr, "solver: model does not satisfy the query (encoding mismatch)\n");
            for (E x : slice) if (!evalExpr(x, *mm)) fprintf(stderr, "   %s\n", exprStr(x, 8).c_str());
            ce.r = R_Unknown;
        } else {
            g_sstats.sat++;
            recent.push_front(mm);
            if (recent.size() > 24) recent.pop_back();
            if (out) *out = mm;
        }
    }
    if (ce.r == R_Unsat) g_sstats.unsat++;
    if (ce.r == R_Unknown) g_sstats.unknown++;
    cache.emplace(std::move(key), ce);
    return ce.r;
}
