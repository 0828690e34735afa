#include "core.h"
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/Demangle/Demangle.h>
#include <chrono>
#include <algorithm>
#include <stdexcept>

double nowSec() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ================================================================ memory
Obj::Obj(const Obj& o) : size(o.size), kind(o.kind), alloc(o.alloc), ro(o.ro), env(o.env), site(o.site), name(o.name) {
    data = (uint8_t*)malloc(size ? size : 1);
    memcpy(data, o.data, size);
    if (o.sym) sym = new SymArr(*o.sym);
    if (o.uninit) { uninit = (uint8_t*)malloc(size ? size : 1); memcpy(uninit, o.uninit, size); }
    if (o.race) race = new std::vector<std::shared_ptr<RacePage>>(*o.race);
    if (o.reads) reads = new std::vector<std::vector<std::pair<u32,u32>>>(*o.reads);
}
void AddrSpace::drop(Leaf* l) { if (l && --l->ref == 0) { for (auto* o : l->p) drop(o); delete l; } }
void AddrSpace::drop(Mid* m) { if (m && --m->ref == 0) { for (auto* l : m->p) drop(l); delete m; } }
void AddrSpace::drop(Root* r) { if (--r->ref == 0) { for (auto* m : r->p) drop(m); delete r; } }
AddrSpace::Leaf* AddrSpace::leafW(u32 id) {
    if (id >> 24) throw std::runtime_error("object table exhausted");
    if (root->ref > 1) {
        auto* n = new Root; root->ref--;
        for (int i = 0; i < 256; i++) if ((n->p[i] = root->p[i])) n->p[i]->ref++;
        root = n;
    }
    Mid*& m = root->p[id >> 16];
    if (!m) m = new Mid;
    else if (m->ref > 1) {
        auto* n = new Mid; m->ref--;
        for (int i = 0; i < 256; i++) if ((n->p[i] = m->p[i])) n->p[i]->ref++;
        m = n;
    }
    Leaf*& l = m->p[(id >> 8) & 255];
    if (!l) l = new Leaf;
    else if (l->ref > 1) {
        auto* n = new Leaf; l->ref--;
        for (int i = 0; i < 256; i++) if ((n->p[i] = l->p[i])) n->p[i]->ref++;
        l = n;
    }
    return l;
}
Obj* AddrSpace::getW(u32 id) {
    Obj* o = get(id);
    if (!o) return nullptr;
    Leaf* l = leafW(id);
    Obj*& p = l->p[id & 255];
    if (p->ref > 1) { Obj* n = new Obj(*p); p->ref--; p = n; }
    return p;
}
void AddrSpace::set(u32 id, Obj* o) {
    Leaf* l = leafW(id);
    drop(l->p[id & 255]);
    l->p[id & 255] = o;
}

State::State(const State& o)
  : as(o.as), th(o.th), cur(o.cur), nextObj(o.nextObj), cons(o.cons), model(o.model), ins(o.ins), obs(o.obs),
    mtx(o.mtx), syncVC(o.syncVC), explore(o.explore), preempt(o.preempt), race(o.race), leakMark(o.leakMark),
    schedN(o.schedN), uninitN(o.uninitN), schedTrace(o.schedTrace), steps(o.steps), depth(o.depth), reached(o.reached) {
    for (auto& t : th) for (auto* f : t.stack) f->ref++;
}
State::~State() {
    for (auto& t : th) for (auto* f : t.stack) if (--f->ref == 0) delete f;
}

Frame* Engine::topW(State& s) {
    auto& st = s.th[s.cur].stack;
    Frame*& f = st.back();
    if (f->ref > 1) { auto* n = new Frame(*f); n->ref = 1; f->ref--; f = n; }
    return f;
}

State* Engine::fork(State& s) {
    State* n = new State(s);
    forks++;
    return n;
}

bool Engine::timeUp() { return nowSec() - t0 > maxTime; }
void Engine::incompl(const std::string& why) { incomplete++; incompleteWhy.insert(why); }

// ================================================================ reporting
std::string Engine::locStr(const llvm::Instruction* i) {
    if (!i) return "?";
    std::string s = getFunc(const_cast<llvm::Function*>(i->getFunction()))->demangled;
    if (s.size() > 160) s = s.substr(0, 157) + "...";
    if (auto& dl = i->getDebugLoc()) {
        auto* sc = llvm::dyn_cast<llvm::DIScope>(dl->getScope());
        s += " at " + (sc ? sc->getFilename().str() : std::string("?")) + ":" + std::to_string(dl.getLine());
    }
    return s;
}
std::vector<std::string> Engine::backtrace(State& s) {
    std::vector<std::string> r;
    auto& st = s.th[s.cur].stack;
    for (int i = (int)st.size() - 1; i >= 0 && r.size() < 40; i--) {
        Frame* f = st[i];
        auto& bb = f->fn->bbs[f->bb];
        r.push_back(locStr(bb[std::min<size_t>(f->pc, bb.size() - 1)].src));
    }
    return r;
}
std::string Engine::where(State& s) {
    auto& st = s.th[s.cur].stack;
    for (int i = (int)st.size() - 1; i >= 0; i--) {
        Frame* f = st[i];
        if (f->fn->isRepo) { auto& bb = f->fn->bbs[f->bb]; return locStr(bb[std::min<size_t>(f->pc, bb.size() - 1)].src); }
    }
    auto b = backtrace(s);
    return b.empty() ? "?" : b[0];
}
void Engine::violation(State& s, const std::string& kind, const std::string& msg, ModelP m) {
    if (!m) m = s.model;
    Violation v;
    v.kind = kind; v.msg = msg; v.where = where(s); v.trace = backtrace(s);
    for (auto& in : s.ins) { v.inputs.push_back({ in.name, in.e ? (u64)evalExpr(in.e, *m) : in.conc }); v.widths.push_back(in.w); }
    v.sched = s.schedTrace;
    for (auto& o : viols) if (o.kind == v.kind && o.msg == v.msg && o.where == v.where) return;
    viols.push_back(v);
}

// ================================================================ path conditions
bool Engine::addCons(State& s, E c) {
    if (c->isConst()) return c->v;
    if (c->k == K_And && c->w == 1) { addCons(s, c->a); addCons(s, c->b); return true; }
    s.cons.push_back(c);
    return true;
}

// decide a boolean; on a genuine fork the clone re-executes the current instruction with the other value
int Engine::decide(State& s, E c) {
    if (c->isConst()) return c->v;
    bool t = evalExpr(c, *s.model) != 0;
    E other = t ? mkNot(c) : c;
    E mine = t ? c : mkNot(c);
    for (size_t i = s.cons.size(); i-- > 0;) if (s.cons[i] == mine) return t;
    ModelP m;
    Res r = solve(s.cons, other, s.model, &m);
    if (r == R_Unknown) { incompl("solver gave up on a branch"); return -1; }
    if (r == R_Unsat) { return t; }
    if (c->uninit) { violation(s, "uninitialised", "a decision depends on uninitialised memory"); return -1; }
    State* n = fork(s);
    n->model = m;
    addCons(*n, other);
    n->depth++;
    work.push_back(n);
    addCons(s, t ? c : mkNot(c));
    s.depth++;
    return t;
}

u64 Engine::concretize(State& s, const Val& v, unsigned w) {
    if (!v.e) return v.c;
    u64 val = (u64)evalExpr(v.e, *s.model);
    E eq = mkBin(K_Eq, v.e, mkConst(val, w));
    if (eq->isConst()) return val;
    ModelP m;
    Res r = solve(s.cons, mkNot(eq), s.model, &m);
    if (r == R_Unknown) incompl("solver gave up on a concretisation");
    if (r == R_Sat) {
        State* n = fork(s);
        n->model = m;
        addCons(*n, mkNot(eq));
        n->depth++;
        work.push_back(n);
    }
    if (r != R_Unsat) { addCons(s, eq); s.depth++; }
    return val;
}

// ok must hold: report a violation if it can fail; continue on the passing side
bool Engine::checkCond(State& s, E ok, const std::string& kind, const std::string& msg) {
    if (ok->isConst()) {
        if (ok->v) return true;
        violation(s, kind, msg);
        return false;
    }
    ModelP m;
    Res r = solve(s.cons, mkNot(ok), s.model, &m);
    if (r == R_Unknown) { incompl("solver gave up on a check: " + kind); return false; }
    if (r == R_Sat) {
        violation(s, kind, msg, m);
        // go on where it holds, if anywhere
        ModelP m2;
        Res r2 = solve(s.cons, ok, s.model, &m2);
        if (r2 != R_Sat) return false;
        s.model = m2;
        addCons(s, ok);
    }
    return true;
}

// ================================================================ memory access
u32 Engine::allocObj(State& s, u64 size, ObjKind k, bool uninit) {
    u32 id = s.nextObj++;
    Obj* o = new Obj(size);
    o->kind = k;
    if (uninit && size) { o->uninit = (uint8_t*)malloc(size); memset(o->uninit, 1, size); }
    s.as.set(id, o);
    if (s.race) { /* allocation is not an access */ }
    return id;
}

bool Engine::checkRange(State& s, u64 addr, u64 n, bool write, const char* what) {
    memChecks++;
    u32 id = addr >> 32; u64 off = (u32)addr;
    Obj* o = s.as.get(id);
    char buf[300];
    if (!o) {
        if (id == 0) snprintf(buf, sizeof buf, "%s through a null pointer (address %llu)", what, (unsigned long long)addr);
        else if (id < s.nextObj) snprintf(buf, sizeof buf, "%s of %llu bytes in memory that was released (object %u)", what, (unsigned long long)n, id);
        else snprintf(buf, sizeof buf, "%s through a wild pointer", what);
        violation(s, id == 0 ? "null-dereference" : id < s.nextObj ? "use-after-free" : "wild-pointer", buf);
        return false;
    }
    if (off > o->size || n > o->size - off) {
        snprintf(buf, sizeof buf, "%s of %llu bytes at offset %llu of an object of %llu bytes%s%s", what, (unsigned long long)n, (unsigned long long)off, (unsigned long long)o->size, o->name ? " " : "", o->name ? o->name : "");
        violation(s, "out-of-bounds", buf);
        return false;
    }
    if (write && o->ro) { violation(s, "write-to-constant", "write to constant memory"); return false; }
    return true;
}
Obj* Engine::access(State& s, u64 addr, u64 n, bool write, const char* what) {
    if (!checkRange(s, addr, n, write, what)) return nullptr;
    return write ? s.as.getW(addr >> 32) : s.as.get(addr >> 32);
}

// variables are shared between paths: the k-th one of a kind on each path
E pooledVar(const char* kind, u32 k, unsigned w, bool uninit) {
    static std::map<std::string, std::vector<E>> pool;
    auto& p = pool[kind];
    while (p.size() <= k) p.push_back(mkVar(kind + std::to_string(p.size()), w, uninit));
    return p[k];
}
Val Engine::readBytes(State& s, u32 id, Obj* o, u64 off, unsigned n, unsigned w) {
    bool conc = n <= 8 && w <= 64;
    if (conc && o->sym) for (unsigned i = 0; i < n; i++) if (o->sym->get(off + i)) { conc = false; break; }
    bool un = false;
    if (o->uninit) for (unsigned i = 0; i < n; i++) if (o->uninit[off + i]) { un = true; break; }
    if (un) {
        o = s.as.getW(id);
        o->ensureSym();
        for (unsigned i = 0; i < n; i++) if (o->uninit[off + i]) {
            o->sym->set(off + i, pooledVar("uninit", s.uninitN++, 8, true));
            o->uninit[off + i] = 0;
        }
        conc = false;
    }
    if (conc) { u64 v = 0; memcpy(&v, o->data + off, n); return VC(v & mask64(w)); }
    E e = nullptr;
    for (unsigned i = 0; i < n; i++) {
        E b = o->sym ? o->sym->get(off + i) : nullptr;
        if (!b) b = mkConst(o->data[off + i], 8);
        e = e ? mkConcat(b, e) : b;
    }
    if (e->w > w) e = mkExtract(e, 0, w);
    return VE(e);
}
void Engine::writeBytes(State& s, u32 id, u64 off, const Val& v, unsigned n, unsigned w) {
    Obj* o = s.as.getW(id);
    if (!v.e) {
        u64 c = v.c;
        memcpy(o->data + off, &c, n <= 8 ? n : 8);
        if (n > 8) memset(o->data + off + 8, 0, n - 8);
        if (o->sym) o->sym->clear(off, n);
    } else {
        E e = v.e;
        if (e->w < n * 8) e = mkZExt(e, n * 8);
        o->ensureSym();
        for (unsigned i = 0; i < n; i++) {
            E b = mkExtract(e, i * 8, 8);
            if (b->isConst()) { o->data[off + i] = b->v; o->sym->set(off + i, nullptr); }
            else o->sym->set(off + i, b);
        }
    }
    if (o->uninit) memset(o->uninit + off, 0, n);
}

// Symbolic address: bring it down to one object and a set of candidate addresses.
// Returns false when the path ended.  May fork (clones re-execute the instruction).
bool Engine::resolveSym(State& s, E addr, unsigned n, bool write, std::vector<u64>& cands) {
    if (addr->uninit) { violation(s, "uninitialised", "an address depends on uninitialised memory"); return false; }
    u64 a0 = (u64)evalExpr(addr, *s.model);
    u32 id = a0 >> 32;
    E same = mkBin(K_Eq, mkExtract(addr, 32, 32), mkConst(id, 32));
    int d = decide(s, same);
    if (d <= 0) return false; // model satisfies same, so d is 1 or unknown
    Obj* o = s.as.get(id);
    if (!o) { checkRange(s, a0, n, write, write ? "write" : "read"); return false; }
    u64 base = (u64)id << 32;
    if (o->size < n) { checkRange(s, a0, n, write, write ? "write" : "read"); return false; }
    u64 last = base + o->size - n;
    memChecks++;
    if (!(addr->lo >= base && addr->hi <= last)) {
        E off = mkExtract(addr, 0, 32);
        E ok = mkBin(K_Ule, off, mkConst(o->size - n, 32));
        if (!checkCond(s, ok, "out-of-bounds", std::string(write ? "write" : "read") + " of " + std::to_string(n) + " bytes can leave an object of " + std::to_string(o->size) + " bytes" + (o->name ? std::string(" ") + o->name : ""))) return false;
    }
    u64 lo = std::max(addr->lo, base), hi = std::min(addr->hi, last);
    E bs; u64 cof; splitAdd(addr, bs, cof);
    unsigned z = bs ? std::min(knownZeroLow(bs), 12u) : 0;
    u64 stride = 1ULL << z, phase = cof & (stride - 1);
    u64 first = lo + ((phase - lo) & (stride - 1));
    if (hi >= first && (hi - first) / stride < 32) {
        for (u64 x = first; x <= hi; x += stride) cands.push_back(x);
        return true;
    }
    // enumerate feasible values
    E excl = mkTrue();
    ModelP m = s.model;
    u64 v = (u64)evalExpr(addr, *s.model);
    while (cands.size() < 48) {
        cands.push_back(v);
        excl = mkBin(K_And, excl, mkNot(mkBin(K_Eq, addr, mkConst(v, 64))));
        ModelP nm;
        Res r = solve(s.cons, excl, m, &nm);
        if (r == R_Unsat) { std::sort(cands.begin(), cands.end()); return true; }
        if (r == R_Unknown) { incompl("solver gave up on an address"); return false; }
        v = (u64)evalExpr(addr, *nm);
    }
    cands.clear();
    cands.push_back(concretize(s, VE(addr), 64));
    return true;
}

bool Engine::loadVal(State& s, const Val& addr, unsigned n, unsigned w, Val& out) {
    if (!addr.e) {
        u32 id = addr.c >> 32; u64 off = (u32)addr.c;
        Obj* o = s.as.get(id);
        if (!o || off > o->size || n > o->size - off) { checkRange(s, addr.c, n, false, "read"); return false; }
        memChecks++;
        if (s.race) raceAccess(s, id, off, n, false, false);
        out = readBytes(s, id, o, off, n, w);
        return true;
    }
    std::vector<u64> c;
    if (!resolveSym(s, addr.e, n, false, c)) return false;
    u32 id = c[0] >> 32;
    E r = nullptr;
    for (size_t i = 0; i < c.size(); i++) {
        if (s.race) raceAccess(s, id, (u32)c[i], n, false, false);
        E v = toE(readBytes(s, id, s.as.get(id), (u32)c[i], n, w), w);
        // (a candidate may only lie in the range of the address: one that is never read must not taint the value)
        if (v->uninit && c.size() > 1) {
            ModelP m;
            if (solve(s.cons, mkBin(K_Eq, addr.e, mkConst(c[i], 64)), s.model, &m) == R_Unsat) continue;
        }
        r = r ? mkIte(mkBin(K_Eq, addr.e, mkConst(c[i], 64)), v, r) : v;
    }
    if (!r) { incompl("no candidate for an address"); return false; }
    out = VE(r);
    return true;
}
bool Engine::storeVal(State& s, const Val& addr, const Val& v, unsigned n, unsigned w) {
    if (!addr.e) {
        if (!checkRange(s, addr.c, n, true, "write")) return false;
        if (s.race) raceAccess(s, addr.c >> 32, (u32)addr.c, n, true, false);
        writeBytes(s, addr.c >> 32, (u32)addr.c, v, n, w);
        return true;
    }
    std::vector<u64> c;
    if (!resolveSym(s, addr.e, n, true, c)) return false;
    u32 id = c[0] >> 32;
    if (s.as.get(id)->ro) { violation(s, "write-to-constant", "write to constant memory"); return false; }
    for (u64 a : c) {
        if (s.race) raceAccess(s, id, (u32)a, n, true, false);
        if (c.size() == 1) { writeBytes(s, id, (u32)a, v, n, w); break; }
        E old = toE(readBytes(s, id, s.as.get(id), (u32)a, n, w), w);
        writeBytes(s, id, (u32)a, VE(mkIte(mkBin(K_Eq, addr.e, mkConst(a, 64)), toE(v, w), old)), n, w);
    }
    return true;
}
bool Engine::copyMem(State& s, u64 d, u64 sr, u64 n) {
    if (n == 0) return true;
    if (!checkRange(s, sr, n, false, "read") || !checkRange(s, d, n, true, "write")) return false;
    if (s.race) { raceAccess(s, sr >> 32, (u32)sr, n, false, false); raceAccess(s, d >> 32, (u32)d, n, true, false); }
    Obj* o = s.as.getW(d >> 32);
    Obj* p = s.as.get(sr >> 32);
    u64 a = (u32)d, b = (u32)sr;
    memmove(o->data + a, p->data + b, n);
    bool ps = false;
    if (p->sym) ps = p->sym->next(b, b + n) < b + n;
    if (ps) { o->ensureSym(); o->sym->copy(a, p->sym, b, n); }
    else if (o->sym) o->sym->clear(a, n);
    if (p->uninit) { o->ensureUninit(); memmove(o->uninit + a, p->uninit + b, n); }
    else if (o->uninit) memset(o->uninit + a, 0, n);
    return true;
}
bool Engine::setMem(State& s, u64 d, const Val& b, u64 n) {
    if (n == 0) return true;
    if (!checkRange(s, d, n, true, "write")) return false;
    if (s.race) raceAccess(s, d >> 32, (u32)d, n, true, false);
    Obj* o = s.as.getW(d >> 32);
    u64 a = (u32)d;
    if (!b.e) { memset(o->data + a, (int)b.c, n); if (o->sym) o->sym->clear(a, n); }
    else { o->ensureSym(); for (u64 i = 0; i < n; i++) o->sym->set(a + i, b.e); }
    if (o->uninit) memset(o->uninit + a, 0, n);
    return true;
}
bool Engine::cstr(State& s, u64 addr, std::string& out) {
    out.clear();
    for (u64 i = 0; i < 100000; i++) {
        Obj* o = s.as.get((addr + i) >> 32);
        u64 off = (u32)(addr + i);
        if (!o || off >= o->size) return false;
        if (o->sym && o->sym->get(off)) out += '?';
        else { if (!o->data[off]) return true; out += (char)o->data[off]; }
    }
    return false;
}

// ================================================================ control
void Engine::jump(State& s, Frame* f, const Edge& e) {
    if (!e.copies.empty()) {
        Val tmp[64]; std::vector<Val> big; Val* t = tmp;
        if (e.copies.size() > 64) { big.resize(e.copies.size()); t = big.data(); }
        for (size_t i = 0; i < e.copies.size(); i++) { int o = e.copies[i].second; t[i] = o >= 0 ? f->slots[o] : f->fn->consts[-o - 1]; }
        for (size_t i = 0; i < e.copies.size(); i++) f->slots[e.copies[i].first] = t[i];
    }
    f->bb = e.bb;
    f->pc = 0;
}
void Engine::pushCall(State& s, Func* F, const Val* args, int n) {
    if (!F->lowered) lower(F);
    F->execs++;
    Frame* f = new Frame;
    f->fn = F;
    f->slots.assign(F->nslots, VC(0));
    for (int i = 0; i < n && i < F->nargs; i++) f->slots[i] = args[i];
    s.th[s.cur].stack.push_back(f);
}
void Engine::popFrame(State& s) {
    auto& st = s.th[s.cur].stack;
    Frame* f = st.back();
    for (u32 id : f->allocas) s.as.set(id, nullptr);
    st.pop_back();
    if (--f->ref == 0) delete f;
}
void Engine::finishCall(State& s, Inst& I, const Val* ret) {
    auto* cx = (CallX*)I.x;
    Frame* f = topW(s);
    for (size_t i = 0; i < cx->retW.size(); i++) f->slots[I.dst + i] = ret[i];
    if (cx->invoke) jump(s, f, cx->normal);
    else f->pc++;
    s.th[s.cur].preSched = false;
}
void Engine::doReturn(State& s, const Val* vals, int n) {
    Val tmp[16];
    for (int i = 0; i < n && i < 16; i++) tmp[i] = vals[i];
    popFrame(s);
    auto& st = s.th[s.cur].stack;
    if (st.empty()) return;
    Frame* f = topW(s);
    Inst& I = f->fn->bbs[f->bb][f->pc];
    finishCall(s, I, tmp);
}

int Engine::typeId(u64 ti) {
    if (ti == 0) return 1000000;
    auto it = typeIds.find(ti);
    if (it != typeIds.end()) return it->second;
    int k = typeIds.size() + 1;
    return typeIds[ti] = k;
}
bool Engine::typeMatch(State& s, u64 thrown, u64 handler) {
    if (handler == 0 || thrown == handler) return true;
    static u64 vsi = 0, vvmi = 0; static bool init = false;
    if (!init) {
        init = true;
        if (auto* g = M->getNamedGlobal("_ZTVN10__cxxabiv120__si_class_type_infoE")) vsi = globalAddr[g] + 16;
        if (auto* g = M->getNamedGlobal("_ZTVN10__cxxabiv121__vmi_class_type_infoE")) vvmi = globalAddr[g] + 16;
    }
    Obj* o = s.as.get(thrown >> 32);
    if (!o) return false;
    u64 off = (u32)thrown, vp, base;
    memcpy(&vp, o->data + off, 8);
    if (vp == vsi) { memcpy(&base, o->data + off + 16, 8); return typeMatch(s, base, handler); }
    if (vp == vvmi) {
        u32 cnt; memcpy(&cnt, o->data + off + 20, 4);
        for (u32 i = 0; i < cnt; i++) {
            memcpy(&base, o->data + off + 24 + i * 16, 8);
            int64_t fl; memcpy(&fl, o->data + off + 32 + i * 16, 8);
            if (typeMatch(s, base, handler)) { if (fl >> 8) engineErrors.insert("catch through a base at non-zero offset"); return true; }
        }
    }
    return false;
}
// unwinds the current thread, starting with the top frame's current instruction. false: path ended
bool Engine::unwind(State& s, u64 exc, u64 ti) {
    auto& st = s.th[s.cur].stack;
    // phase 1: is there a handler?
    bool found = false;
    for (int i = (int)st.size() - 1; i >= 0 && !found; i--) {
        Frame* f = st[i];
        Inst& I = f->fn->bbs[f->bb][f->pc];
        if (I.op != I_Call || !((CallX*)I.x)->invoke) continue;
        auto* lp = (LPadX*)f->fn->bbs[((CallX*)I.x)->unwindBB][0].x;
        for (auto& c : lp->clauses) if (!c.first && typeMatch(s, ti, c.second[0])) found = true;
        for (auto& c : lp->clauses) if (c.first) { bool in = false; for (u64 t : c.second) in |= typeMatch(s, ti, t); if (!in) found = true; }
    }
    if (!found) {
        std::string tn = "?";
        Obj* o = s.as.get(ti >> 32);
        if (o && o->name) tn = llvm::demangle(o->name);
        violation(s, "uncaught-exception", "uncaught exception (" + tn + ") reaches std::terminate");
        return false;
    }
    for (;;) {
        Frame* f = topW(s);
        Inst& I = f->fn->bbs[f->bb][f->pc];
        if (I.op == I_Call && ((CallX*)I.x)->invoke) {
            auto* cx = (CallX*)I.x;
            auto& LI = f->fn->bbs[cx->unwindBB][0];
            auto* lp = (LPadX*)LI.x;
            int sel = lp->cleanup ? 0 : -1;
            for (auto& c : lp->clauses) {
                if (!c.first) { if (typeMatch(s, ti, c.second[0])) { sel = typeId(c.second[0]); break; } }
                else { bool in = false; for (u64 t : c.second) in |= typeMatch(s, ti, t); if (!in) { sel = 2000000; break; } }
            }
            if (sel >= 0) {
                jump(s, f, f->fn->unwindEdges[{ f->bb, cx->unwindBB }]);
                f->slots[LI.dst] = VC(exc);
                f->slots[LI.dst + 1] = VC((u32)sel);
                f->pc = 1;
                s.th[s.cur].preSched = false;
                return true;
            }
        }
        popFrame(s);
        if (s.th[s.cur].stack.empty()) return false;
    }
}

// ================================================================ threads
void Engine::vcJoin(std::vector<u32>& a, const std::vector<u32>& b) {
    if (a.size() < b.size()) a.resize(b.size(), 0);
    for (size_t i = 0; i < b.size(); i++) a[i] = std::max(a[i], b[i]);
}
void Engine::vcInc(State& s, int t) {
    auto& v = s.th[t].vc;
    if ((int)v.size() <= t) v.resize(t + 1, 0);
    v[t]++;
}
void Engine::acquireVC(State& s, u64 addr) {
    if (!s.race) return;
    auto it = s.syncVC.find(addr);
    if (it != s.syncVC.end()) vcJoin(s.th[s.cur].vc, it->second);
}
void Engine::releaseVC(State& s, u64 addr) {
    if (!s.race) return;
    vcJoin(s.syncVC[addr], s.th[s.cur].vc);
    vcInc(s, s.cur);
}
void Engine::raceAccess(State& s, u32 id, u64 off, u64 n, bool write, bool atomic) {
    if (s.th[s.cur].env) return;
    if (s.th.size() < 2) return;
    Obj* o = s.as.get(id);
    if (!o || o->ro) return;
    int t = s.cur;
    auto& vc = s.th[t].vc;
    auto seen = [&](u32 tid, u32 clk) { return tid < vc.size() && vc[tid] >= clk; };
    u32 my = t < (int)vc.size() ? vc[t] : 0;
    if (atomic) t |= 0x4000;
    // cells [from, from + k) of page p, or the one cell of a page that is all the same
    auto span = [&](const RacePage* pg, u64 p, u64& from, u64& k) {
        const u64 base = p * RacePage::B, end = std::min<u64>(base + RacePage::B, o->size);
        from = std::max(base, off) - base;
        k = std::min(end, off + n) - base - from;
        if (pg && pg->c.size() > 1) return true;
        return from == 0 && k == end - base; // the whole page
    };
    if (!n || off + n > o->size) return;
    const u64 p0 = off / RacePage::B, p1 = (off + n - 1) / RacePage::B;
    // fast check whether anything changes
    bool need = !o->race;
    for (u64 p = p0; p <= p1 && !need; p++) {
        const RacePage* pg = (*o->race)[p].get();
        if (!pg) { need = true; break; }
        u64 from, k;
        span(pg, p, from, k);
        if (pg->c.size() == 1) from = 0, k = 1;
        for (u64 i = from; i < from + k && !need; i++) {
            const RaceCell& c = pg->c[i];
            if (write ? !(c.wclk == my && c.wtid == t) : !((c.rclk == my && c.rtid == t))) need = true;
        }
    }
    if (!need) return;
    o = s.as.getW(id);
    if (!o->race) o->race = new std::vector<std::shared_ptr<RacePage>>((o->size + RacePage::B - 1) / RacePage::B);
    for (u64 p = p0; p <= p1; p++) {
        auto& sp = (*o->race)[p];
        if (!sp) sp = std::make_shared<RacePage>();
        else if (sp.use_count() > 1) sp = std::make_shared<RacePage>(*sp);
        u64 from, k;
        const bool direct = span(sp.get(), p, from, k);
        if (sp->c.size() == 1) {
            if (direct) from = 0, k = 1;
            else {
                sp->c.resize(std::min<u64>(RacePage::B, o->size - p * RacePage::B), RaceCell(sp->c[0]));
                if (sp->c[0].many)
                    for (u64 i = 1; i < sp->c.size(); i++) { // each with a list of its own
                        o->reads->push_back(std::vector<std::pair<u32,u32>>((*o->reads)[sp->c[0].many - 1]));
                        sp->c[i].many = o->reads->size();
                    }
            }
        }
      for (u64 i = from; i < from + k; i++) {
        RaceCell& c = sp->c[i];
        auto conflict = [&](u32 tid, u32 clk, const char* what) {
            bool otherAtomic = tid & 0x4000; tid &= 0x3fff;
            if (!clk || tid == (u32)(t & 0x3fff) || seen(tid, clk)) return;
            if (atomic && otherAtomic) return;
            violation(s, "data-race", std::string(write ? "write" : "read") + " by thread " + std::to_string(t & 0x3fff) + " is not ordered with an earlier " + what + " by thread " + std::to_string(tid) + " of the same byte of an object of " + std::to_string(o->size) + " bytes" + (o->name ? std::string(" ") + o->name : ""));
        };
        conflict(c.wtid, c.wclk, "write");
        if (write) {
            if (c.many) { for (auto& p : (*o->reads)[c.many - 1]) conflict(p.first, p.second, "read"); }
            else conflict(c.rtid, c.rclk, "read");
            c.wtid = t; c.wclk = my; c.rclk = 0; c.rtid = 0; c.many = 0;
        } else {
            if (c.many) {
                auto& v = (*o->reads)[c.many - 1];
                bool f = false;
                for (auto& p : v) if (p.first == (u32)t) { p.second = my; f = true; }
                if (!f) v.push_back({ (u32)t, my });
            } else if (!c.rclk || (c.rtid & 0x3fff) == (t & 0x3fff) || seen(c.rtid & 0x3fff, c.rclk)) { c.rtid = t; c.rclk = my; }
            else {
                if (!o->reads) o->reads = new std::vector<std::vector<std::pair<u32,u32>>>;
                o->reads->push_back({ { c.rtid, c.rclk }, { (u32)t, my } });
                c.many = o->reads->size();
                c.rtid = t; c.rclk = my;
            }
        }
      }
    }
}
std::vector<int> Engine::runnable(State& s) {
    std::vector<int> r, timed;
    for (int i = 0; i < (int)s.th.size(); i++) {
        auto& t = s.th[i];
        bool ok = false;
        switch (t.st) {
        case T_Run: ok = !t.stack.empty(); break;
        case T_Mutex: { auto it = s.mtx.find(t.waitAddr); ok = it == s.mtx.end() || it->second.owner < 0; break; }
        case T_Cond: if (t.timed || s.explore > 1) timed.push_back(i); break;
        case T_CondMutex: { auto it = s.mtx.find(t.waitAddr2); ok = it == s.mtx.end() || it->second.owner < 0; break; }
        case T_Join: ok = s.th[t.waitAddr].st == T_Done; break;
        case T_Latch: { Obj* o = s.as.get(t.waitAddr >> 32); u64 v = 0; if (o) memcpy(&v, o->data + (u32)t.waitAddr, 4); ok = !o || v == 0; break; }
        case T_Futex: ok = t.woken; if (!ok && t.timed) timed.push_back(i); break;
        case T_Done: break;
        }
        if (ok) r.push_back(i);
    }
    // a time-out: when nothing else can happen, or (spending a preemption) at any time; spurious wake-ups: only the latter
    if (r.empty()) {
        for (int i : timed) if (s.th[i].timed) r.push_back(i);
        return r;
    }
    if (s.explore && s.preempt > 0) r.insert(r.end(), timed.begin(), timed.end());
    return r;
}
void Engine::switchTo(State& s, int t) {
    s.cur = t;
    s.schedTrace += std::to_string(t) + ",";
}
// choose among the candidates through a fresh symbolic variable: one successor per feasible value
static std::vector<State*> chooseSched(Engine& en, State& s, const std::vector<int>& opts) {
    std::vector<State*> out; // out[0] is s itself
    E v = pooledVar("sched", s.schedN++, 8, false);
    en.schedPoints++;
    for (size_t i = 1; i < opts.size(); i++) {
        State* n = en.fork(s);
        E c = mkBin(K_Eq, v, mkConst(opts[i], 8));
        std::vector<u128> mv = n->model->val;
        if (mv.size() < g_vars.size()) mv.resize(g_vars.size(), 0);
        mv[v->aux] = opts[i];
        n->model = freshModel(mv);
        n->cons.push_back(c);
        out.push_back(n);
    }
    std::vector<u128> mv = s.model->val;
    if (mv.size() < g_vars.size()) mv.resize(g_vars.size(), 0);
    mv[v->aux] = opts[0];
    s.model = freshModel(mv);
    s.cons.push_back(mkBin(K_Eq, v, mkConst(opts[0], 8)));
    out.insert(out.begin(), &s);
    return out;
}
static bool fixedChoice(Engine& en, State& s, const std::vector<int>& opts, int& pick) {
    if (!en.haveSched) return false;
    size_t p = s.schedTrace.size();
    if (p >= en.fixedSched.size() || en.fixedSched.compare(0, p, s.schedTrace) != 0) { pick = opts[0]; return true; }
    pick = atoi(en.fixedSched.c_str() + p);
    if (std::find(opts.begin(), opts.end(), pick) == opts.end()) pick = opts[0];
    return true;
}
// A scheduling point before a visible operation of the current thread.
bool Engine::schedPoint(State& s) {
    if (s.th[s.cur].env) return true;
    if (!s.explore || s.th[s.cur].preSched) return true;
    auto r = runnable(s);
    std::vector<int> opts{ s.cur };
    if (s.preempt > 0) for (int t : r) if (t != s.cur) opts.push_back(t);
    if (opts.size() == 1) { s.th[s.cur].preSched = true; return true; }
    int pick;
    s.th[s.cur].preSched = true;
    if (fixedChoice(*this, s, opts, pick)) {
        bool same = pick == s.cur;
        if (!same) s.preempt--;
        switchTo(s, pick);
        return same;
    }
    int self = s.cur;
    auto st = chooseSched(*this, s, opts);
    for (size_t i = opts.size(); i-- > 0;) {
        State* n = st[i];
        if (opts[i] != self) n->preempt--;
        switchTo(*n, opts[i]);
        if (n != &s) work.push_back(n);
    }
    return true; // s continues with the current thread
}
// The current thread cannot go on: pick another. false: path ended.
bool Engine::reschedule(State& s) {
    auto r = runnable(s);
    if (r.empty()) {
        if (s.th[0].st == T_Done) return false;
        std::string d = "no thread can run:";
        for (size_t i = 0; i < s.th.size(); i++) {
            static const char* nm[] = { "running", "waiting for a mutex", "waiting for a condition", "re-acquiring a mutex", "joining", "waiting for a futex", "waiting for a latch", "finished" };
            if (s.th[i].st != T_Done) {
                d += " thread " + std::to_string(i) + " " + nm[s.th[i].st] + ";";
            }
        }
        for (size_t i = 0; i < s.th.size(); i++) if (s.th[i].st != T_Done && !s.th[i].stack.empty()) { s.cur = i; break; }
        violation(s, "deadlock", d);
        return false;
    }
    if (!s.explore || r.size() == 1) {
        int pick = r[0];
        for (int t : r) if (t > s.cur) { pick = t; break; } // round robin
        if (s.explore) switchTo(s, pick); else s.cur = pick;
        return true;
    }
    int pick;
    if (fixedChoice(*this, s, r, pick)) { switchTo(s, pick); return true; }
    auto st = chooseSched(*this, s, r);
    for (size_t i = r.size(); i-- > 0;) if (r.size() > 1 && s.th[r[i]].st == T_Cond) st[i]->preempt--;
    for (size_t i = r.size(); i-- > 0;) { switchTo(*st[i], r[i]); if (st[i] != &s) work.push_back(st[i]); }
    return true;
}

// ================================================================ exec
static inline Val opv(Frame* f, int o) { return o >= 0 ? f->slots[o] : f->fn->consts[-o - 1]; }

static u64 foldC(Kind k, u64 a, u64 b, unsigned w) {
    u64 M = mask64(w);
    switch (k) {
    case K_Add: return (a + b) & M;
    case K_Sub: return (a - b) & M;
    case K_Mul: return (a * b) & M;
    case K_UDiv: return a / b;
    case K_URem: return a % b;
    case K_SDiv: { int64_t x = sext64(a, w), y = sext64(b, w); return y == -1 ? (0 - (u64)x) & M : (u64)(x / y) & M; }
    case K_SRem: { int64_t x = sext64(a, w), y = sext64(b, w); return y == -1 ? 0 : (u64)(x % y) & M; }
    case K_And: return a & b;
    case K_Or: return a | b;
    case K_Xor: return a ^ b;
    case K_Shl: return b >= w ? 0 : (a << b) & M;
    case K_LShr: return b >= w ? 0 : a >> b;
    case K_AShr: return (u64)(sext64(a, w) >> (b >= w ? w - 1 : b)) & M;
    default: return 0;
    }
}

E icmpE(unsigned p, E a, E b) {
    using P = llvm::CmpInst;
    switch (p) {
    case P::ICMP_EQ: return mkBin(K_Eq, a, b);
    case P::ICMP_NE: return mkNot(mkBin(K_Eq, a, b));
    case P::ICMP_UGT: return mkBin(K_Ult, b, a);
    case P::ICMP_UGE: return mkBin(K_Ule, b, a);
    case P::ICMP_ULT: return mkBin(K_Ult, a, b);
    case P::ICMP_ULE: return mkBin(K_Ule, a, b);
    case P::ICMP_SGT: return mkBin(K_Slt, b, a);
    case P::ICMP_SGE: return mkBin(K_Sle, b, a);
    case P::ICMP_SLT: return mkBin(K_Slt, a, b);
    default: return mkBin(K_Sle, a, b);
    }
}
static bool icmpC(unsigned p, u64 a, u64 b, unsigned w) {
    using P = llvm::CmpInst;
    int64_t x = sext64(a, w), y = sext64(b, w);
    switch (p) {
    case P::ICMP_EQ: return a == b;
    case P::ICMP_NE: return a != b;
    case P::ICMP_UGT: return a > b;
    case P::ICMP_UGE: return a >= b;
    case P::ICMP_ULT: return a < b;
    case P::ICMP_ULE: return a <= b;
    case P::ICMP_SGT: return x > y;
    case P::ICMP_SGE: return x >= y;
    case P::ICMP_SLT: return x < y;
    default: return x <= y;
    }
}
static E fcmpE(unsigned p, E a, E b) {
    using P = llvm::CmpInst;
    E uno = mkFBin(K_FUno, a, b);
    switch (p) {
    case P::FCMP_FALSE: return mkFalse();
    case P::FCMP_TRUE: return mkTrue();
    case P::FCMP_ORD: return mkNot(uno);
    case P::FCMP_UNO: return uno;
    case P::FCMP_OEQ: return mkFBin(K_FOeq, a, b);
    case P::FCMP_UNE: return mkNot(mkFBin(K_FOeq, a, b));
    case P::FCMP_UEQ: return mkBin(K_Or, uno, mkFBin(K_FOeq, a, b));
    case P::FCMP_ONE: return mkBin(K_And, mkNot(uno), mkNot(mkFBin(K_FOeq, a, b)));
    case P::FCMP_OLT: return mkFBin(K_FOlt, a, b);
    case P::FCMP_OLE: return mkFBin(K_FOle, a, b);
    case P::FCMP_OGT: return mkFBin(K_FOlt, b, a);
    case P::FCMP_OGE: return mkFBin(K_FOle, b, a);
    case P::FCMP_ULT: return mkBin(K_Or, uno, mkFBin(K_FOlt, a, b));
    case P::FCMP_ULE: return mkBin(K_Or, uno, mkFBin(K_FOle, a, b));
    case P::FCMP_UGT: return mkBin(K_Or, uno, mkFBin(K_FOlt, b, a));
    default: return mkBin(K_Or, uno, mkFBin(K_FOle, b, a));
    }
}

Act Engine::doCall(State& s, Inst& I) {
    auto* cx = (CallX*)I.x;
    Frame* f = s.th[s.cur].stack.back();
    Func* F = nullptr;
    if (cx->direct) {
        if (!cx->resolved) {
            cx->resolved = true;
            cx->fn = getFunc(cx->direct);
            if (!logReal && cx->fn->demangled.find("Logger::log<") != std::string::npos && cx->fn->demangled.find("Logger::log<") < 80) {
                if (auto* mf = M->getFunction("vp_model_log")) { cx->redirect = getFunc(mf); cx->redirArgs = 2; }
            }
        }
        F = cx->fn;
    } else {
        Val cv = opv(f, cx->calleeOp);
        u64 a = concretize(s, cv, 64);
        u32 id = a >> 32;
        if (id < 0x01000000u || id - 0x01000000u >= funcByIdx.size() || (u32)a) {
            violation(s, id == 0 ? "null-dereference" : "wild-pointer", "call through an invalid function pointer");
            return A_End;
        }
        F = funcByIdx[id - 0x01000000u];
    }
    Val args[64];
    int n = cx->args.size();
    if (n > 64) { engineErrors.insert("too many call arguments"); return A_End; }
    for (int i = 0; i < n; i++) args[i] = opv(f, cx->args[i]);
    if (cx->redirect) {
        F->execs++;
        pushCall(s, cx->redirect, args, cx->redirArgs);
        return A_Jumped;
    }
    if (F->bi) {
        Val ret[16];
        for (auto& r : ret) r = VC(0);
        F->execs++;
        Act a = F->bi(*this, s, I, args, n, ret);
        if (a == A_Done) { finishCall(s, I, ret); }
        return a;
    }
    if (F->f->isDeclaration()) {
        engineErrors.insert("unmodelled external function " + F->f->getName().str() + " called from " + where(s));
        return A_End;
    }
    if (s.th[s.cur].stack.size() > 400) { incompl("call depth over 400"); return A_End; }
    // byval copies belong to the callee's frame
    std::vector<u32> bv;
    for (int i = 0; i < n; i++) if (cx->byval[i]) {
        u64 src = concretize(s, args[i], 64);
        u32 id = allocObj(s, cx->byval[i], O_Stack, true);
        if (!copyMem(s, (u64)id << 32, src, cx->byval[i])) return A_End;
        args[i] = VC((u64)id << 32);
        bv.push_back(id);
    }
    pushCall(s, F, args, n);
    if (!bv.empty()) topW(s)->allocas = bv;
    return A_Jumped;
}

void Engine::endPath(State& s, bool completed) {
    if (completed) {
        paths++;
        maxDepthSeen = std::max(maxDepthSeen, s.depth);
        for (u64 r : s.reached) reachLabels.insert(r);
        bool take = samples.size() < 4 || (samples.size() < maxSamples && (paths & (paths - 1)) == 0);
        if (take) {
            Sample sm;
            {   // inputs the path does not constrain get arbitrary values
                std::set<u32> used;
                for (E c : s.cons) if (c->vars) used.insert(c->vars->ids.begin(), c->vars->ids.end());
                std::vector<u128> v = s.model->val;
                for (auto& in : s.ins) if (in.e && in.e->k == K_Var && !used.count(in.e->aux)) {
                    if (v.size() <= (size_t)in.e->aux) v.resize(in.e->aux + 1, 0);
                    sampleRng = sampleRng * 6364136223846793005ull + 1442695040888963407ull;
                    v[in.e->aux] = (sampleRng >> 16) & mask64(in.e->w);
                }
                s.model = freshModel(v);
            }
            for (auto& in : s.ins) { sm.ins.push_back({ in.name, in.e ? (u64)evalExpr(in.e, *s.model) : in.conc }); sm.widths.push_back(in.w); }
            for (auto& o : s.obs) sm.obs.push_back({ o.tag, o.e ? (u64)evalExpr(o.e, *s.model) : o.c });
            sm.sched = s.schedTrace;
            samples.push_back(sm);
        }
    }
}

void Engine::exec(State* sp) {
    State& s = *sp;
    for (;;) {
        auto& th = s.th[s.cur];
        if (th.st != T_Run) {
            // a thread picked by the scheduler whose wait can be satisfied: complete the wait
            switch (th.st) {
            case T_Mutex: case T_Latch: case T_Join: case T_Futex: th.st = T_Run; th.preSched = true; break; // instruction re-executes
            case T_Cond: // timed out
                th.st = T_CondMutex; th.waitAddr = 0; continue;
            case T_CondMutex: {
                auto& m = s.mtx[th.waitAddr2];
                if (m.owner >= 0) { if (!reschedule(s)) goto end; continue; }
                m.owner = s.cur;
                if (s.race) vcJoin(th.vc, m.vc);
                th.st = T_Run;
                // finish the wait call
                Frame* f = topW(s);
                Val r[1] = { VC(th.timed && !th.woken ? 110 : 0) };
                th.timed = false; th.woken = false;
                finishCall(s, f->fn->bbs[f->bb][f->pc], r);
                break;
            }
            default: goto end;
            }
        }
        if (th.stack.empty()) {
            if (s.cur == 0) { // main finished
                endPath(s, true);
                goto end2;
            }
            th.st = T_Done;
            if (s.race) vcInc(s, s.cur);
            if (!reschedule(s)) goto end;
            continue;
        }
        Frame* f = topW(s);
        auto* code = &f->fn->bbs[f->bb];
        bool live = true;
        int me = s.cur;
        while (live) {
            Inst& I = (*code)[f->pc];
            if ((++steps & 0xffff) == 0 && timeUp()) { incompl("time limit"); goto end; }
            if (profile && steps % 997 == 0) profHits[f->fn]++;
            if (++s.steps > pathSteps) { violation(s, "nontermination", "path exceeds " + std::to_string(pathSteps) + " steps"); goto end; }
            switch (I.op) {
            case I_Bin: {
                Val a = opv(f, I.a), b = opv(f, I.b);
                Kind k = (Kind)I.sub;
                if (!a.e && !b.e) {
                    if ((k == K_UDiv || k == K_URem || k == K_SDiv || k == K_SRem) && b.c == 0) { violation(s, "division-by-zero", "integer division by zero"); goto end; }
                    f->slots[I.dst] = VC(foldC(k, a.c, b.c, I.w));
                } else {
                    E x = toE(a, I.w), y = toE(b, I.w);
                    if (k == K_UDiv || k == K_URem || k == K_SDiv || k == K_SRem) {
                        E nz = mkNot(mkBin(K_Eq, y, mkConst(0, I.w)));
                        if (!checkCond(s, nz, "division-by-zero", "integer division by zero")) goto end;
                    } else if (k == K_Shl || k == K_LShr || k == K_AShr) {
                        if (!y->isConst()) {
                            E ok = mkBin(K_Ult, y, mkConst(I.w, I.w));
                            if (!checkCond(s, ok, "shift-out-of-range", "shift by at least the width")) goto end;
                        }
                    }
                    f->slots[I.dst] = VE(mkBin(k, x, y));
                }
                f->pc++;
                break;
            }
            case I_ICmp: {
                Val a = opv(f, I.a), b = opv(f, I.b);
                if (!a.e && !b.e) f->slots[I.dst] = VC(icmpC(I.sub, a.c, b.c, I.w));
                else f->slots[I.dst] = VE(icmpE(I.sub, toE(a, I.w), toE(b, I.w)));
                f->pc++;
                break;
            }
            case I_Load: {
                Val a = opv(f, I.a);
                if (I.sub && s.explore) {
                    if (!schedPoint(s)) { live = false; break; }
                    f = topW(s);
                }
                if (I.x) {
                    auto* mx = (MemX*)I.x;
                    u64 base = concretize(s, a, 64);
                    for (size_t k = 0; k < mx->leaves.size(); k++) {
                        Val v;
                        if (!loadVal(s, VC(base + mx->leaves[k].off), (mx->leaves[k].w + 7) / 8, mx->leaves[k].w, v)) goto end;
                        f->slots[I.dst + k] = v;
                    }
                } else {
                    Val v;
                    if (I.sub && s.race) {
                        u64 ad = concretize(s, a, 64);
                        if (!checkRange(s, ad, I.imm, false, "read")) goto end;
                        raceAccess(s, ad >> 32, (u32)ad, I.imm, false, true);
                        acquireVC(s, ad);
                        v = readBytes(s, ad >> 32, s.as.get(ad >> 32), (u32)ad, I.imm, I.w);
                    } else if (!loadVal(s, a, I.imm, I.w, v)) goto end;
                    f->slots[I.dst] = v;
                }
                if (I.sub) s.th[s.cur].preSched = false;
                f->pc++;
                break;
            }
            case I_Store: {
                Val a = opv(f, I.b);
                if (I.sub && s.explore) {
                    if (!schedPoint(s)) { live = false; break; }
                    f = topW(s);
                }
                if (I.x) {
                    auto* mx = (MemX*)I.x;
                    u64 base = concretize(s, a, 64);
                    for (size_t k = 0; k < mx->leaves.size(); k++)
                        if (!storeVal(s, VC(base + mx->leaves[k].off), opv(f, mx->ops[k]), (mx->leaves[k].w + 7) / 8, mx->leaves[k].w)) goto end;
                } else if (I.sub && s.race) {
                    u64 ad = concretize(s, a, 64);
                    if (!checkRange(s, ad, I.imm, true, "write")) goto end;
                    raceAccess(s, ad >> 32, (u32)ad, I.imm, true, true);
                    releaseVC(s, ad);
                    writeBytes(s, ad >> 32, (u32)ad, opv(f, I.a), I.imm, I.w);
                } else if (!storeVal(s, a, opv(f, I.a), I.imm, I.w)) goto end;
                if (I.sub) s.th[s.cur].preSched = false;
                f->pc++;
                break;
            }
            case I_Gep: {
                auto* gx = (GepX*)I.x;
                Val b = opv(f, I.a);
                bool sym = b.e != nullptr;
                for (auto& t : gx->terms) if (opv(f, t.first).e) sym = true;
                if (!sym) {
                    u64 r = b.c + gx->off;
                    for (size_t k = 0; k < gx->terms.size(); k++) r += (u64)sext64(opv(f, gx->terms[k].first).c, gx->widths[k]) * gx->terms[k].second;
                    f->slots[I.dst] = VC(r);
                } else {
                    E off = mkConst(gx->off, 64);
                    for (size_t k = 0; k < gx->terms.size(); k++) {
                        E x = mkSExt(toE(opv(f, gx->terms[k].first), gx->widths[k]), 64);
                        off = mkBin(K_Add, off, mkBin(K_Mul, x, mkConst(gx->terms[k].second, 64)));
                    }
                    f->slots[I.dst] = VE(mkBin(K_Add, off, toE(b, 64)));
                }
                f->pc++;
                break;
            }
            case I_Trunc: { Val a = opv(f, I.a); f->slots[I.dst] = a.e ? VE(mkExtract(a.e, 0, I.w)) : VC(a.c & mask64(I.w)); f->pc++; break; }
            case I_ZExt: { Val a = opv(f, I.a); f->slots[I.dst] = a.e ? VE(mkZExt(a.e, I.w)) : I.w > 64 ? VE(mkConst(a.c, I.w)) : a; f->pc++; break; }
            case I_SExt: { Val a = opv(f, I.a); f->slots[I.dst] = a.e || I.w > 64 ? VE(mkSExt(toE(a, I.w2), I.w)) : VC((u64)sext64(a.c, I.w2) & mask64(I.w)); f->pc++; break; }
            case I_Copy: f->slots[I.dst] = opv(f, I.a); f->pc++; break;
            case I_InsertVal: {
                auto* mx = (MemX*)I.x;
                for (size_t k = 0; k < mx->ops.size(); k++) f->slots[I.dst + k] = opv(f, mx->ops[k]);
                f->pc++;
                break;
            }
            case I_Select: {
                Val c = opv(f, I.a);
                if (c.e && c.e->uninit) { int d = decide(s, c.e); if (d < 0) goto end; c = VC(d); }
                if (I.x) {
                    auto* mx = (MemX*)I.x;
                    for (size_t k = 0; k < mx->leaves.size(); k++) {
                        Val x = opv(f, mx->ops[2 * k]), y = opv(f, mx->ops[2 * k + 1]);
                        unsigned w = mx->leaves[k].w;
                        f->slots[I.dst + k] = !c.e ? (c.c ? x : y) : VE(mkIte(c.e, toE(x, w), toE(y, w)));
                    }
                } else {
                    Val x = opv(f, I.b), y = opv(f, I.c);
                    f->slots[I.dst] = !c.e ? (c.c ? x : y) : VE(mkIte(c.e, toE(x, I.w), toE(y, I.w)));
                }
                f->pc++;
                break;
            }
            case I_Br: jump(s, f, ((BrX*)I.x)->t); code = &f->fn->bbs[f->bb]; break;
            case I_CondBr: {
                Val c = opv(f, I.a);
                int d = c.e ? decide(s, c.e) : (int)c.c;
                if (d < 0) goto end;
                auto* bx = (BrX*)I.x;
                f = topW(s);
                jump(s, f, d ? bx->t : bx->f);
                code = &f->fn->bbs[f->bb];
                break;
            }
            case I_Switch: {
                auto* sx = (SwitchX*)I.x;
                Val v = opv(f, I.a);
                int e = 0;
                if (!v.e) { for (auto& c : sx->cases) if (c.first == v.c) { e = c.second; break; } }
                else {
                    // group cases by target edge, decide one case at a time
                    for (auto& c : sx->cases) {
                        int d = decide(s, mkBin(K_Eq, v.e, mkConst(c.first, I.w)));
                        if (d < 0) goto end;
                        if (d) { e = c.second; break; }
                    }
                }
                f = topW(s);
                jump(s, f, sx->edges[e]);
                code = &f->fn->bbs[f->bb];
                break;
            }
            case I_Ret: {
                auto* mx = (MemX*)I.x;
                Val r[16];
                int n = mx->ops.size();
                for (int k = 0; k < n && k < 16; k++) r[k] = opv(f, mx->ops[k]);
                doReturn(s, r, n);
                live = false;
                break;
            }
            case I_Call: {
                Act a = doCall(s, I);
                if (a == A_End) goto end;
                if (a == A_Done && s.cur == me) { f = topW(s); code = &f->fn->bbs[f->bb]; break; }
                live = false;
                break;
            }
            case I_Alloca: {
                u64 n = concretize(s, opv(f, I.a), I.w2);
                f = topW(s);
                u32 id = allocObj(s, I.imm * n, O_Stack, true);
                f->allocas.push_back(id);
                f->slots[I.dst] = VC((u64)id << 32);
                f->pc++;
                break;
            }
            case I_FBin: {
                Val a = opv(f, I.a), b = opv(f, I.b);
                f->slots[I.dst] = VE(mkFBin((Kind)I.sub, toE(a, I.w), toE(b, I.w)));
                f->pc++;
                break;
            }
            case I_FNeg: {
                Val a = opv(f, I.a);
                f->slots[I.dst] = VE(mkFBin(K_FMul, toE(a, I.w), I.w == 64 ? mkConst(0xBFF0000000000000ULL, 64) : mkConst(0xBF800000u, 32)));
                f->pc++;
                break;
            }
            case I_FCmp: { Val a = opv(f, I.a), b = opv(f, I.b); f->slots[I.dst] = VE(fcmpE(I.sub, toE(a, I.w), toE(b, I.w))); f->pc++; break; }
            case I_FToI: f->slots[I.dst] = VE(mkFToI(I.sub, toE(opv(f, I.a), I.w2), I.w)); f->pc++; break;
            case I_IToF: f->slots[I.dst] = VE(mkIToF(I.sub, toE(opv(f, I.a), I.w2), I.w)); f->pc++; break;
            case I_FToF: f->slots[I.dst] = VE(mkFToF(toE(opv(f, I.a), I.w2), I.w)); f->pc++; break;
            case I_Fence: f->pc++; break;
            case I_CmpXchg: {
                if (!schedPoint(s)) { live = false; break; }
                f = topW(s);
                u64 ad = concretize(s, opv(f, I.a), 64);
                unsigned nb = I.w / 8;
                if (!checkRange(s, ad, nb, true, "write")) goto end;
                Val old = readBytes(s, ad >> 32, s.as.get(ad >> 32), (u32)ad, nb, I.w);
                Val cmp = opv(f, I.b);
                int eq = decide(s, mkBin(K_Eq, toE(old, I.w), toE(cmp, I.w)));
                if (eq < 0) goto end;
                f = topW(s);
                if (s.race) { raceAccess(s, ad >> 32, (u32)ad, nb, eq, true); acquireVC(s, ad); if (eq) releaseVC(s, ad); }
                if (eq) writeBytes(s, ad >> 32, (u32)ad, opv(f, I.c), nb, I.w);
                f->slots[I.dst] = old;
                f->slots[I.dst + 1] = VC(eq);
                s.th[s.cur].preSched = false;
                f->pc++;
                break;
            }
            case I_RMW: {
                if (!schedPoint(s)) { live = false; break; }
                f = topW(s);
                u64 ad = concretize(s, opv(f, I.a), 64);
                unsigned nb = (I.w + 7) / 8;
                if (!checkRange(s, ad, nb, true, "write")) goto end;
                if (s.race) { raceAccess(s, ad >> 32, (u32)ad, nb, true, true); acquireVC(s, ad); releaseVC(s, ad); }
                Val old = readBytes(s, ad >> 32, s.as.get(ad >> 32), (u32)ad, nb, I.w);
                E o = toE(old, I.w), v = toE(opv(f, I.b), I.w), r = nullptr;
                using R = llvm::AtomicRMWInst;
                switch (I.sub) {
                case R::Xchg: r = v; break;
                case R::Add: r = mkBin(K_Add, o, v); break;
                case R::Sub: r = mkBin(K_Sub, o, v); break;
                case R::And: r = mkBin(K_And, o, v); break;
                case R::Or: r = mkBin(K_Or, o, v); break;
                case R::Xor: r = mkBin(K_Xor, o, v); break;
                case R::Nand: r = mkNot(mkBin(K_And, o, v)); break;
                case R::Max: r = mkIte(mkBin(K_Slt, o, v), v, o); break;
                case R::Min: r = mkIte(mkBin(K_Slt, o, v), o, v); break;
                case R::UMax: r = mkIte(mkBin(K_Ult, o, v), v, o); break;
                case R::UMin: r = mkIte(mkBin(K_Ult, o, v), o, v); break;
                default: engineErrors.insert("atomicrmw kind"); goto end;
                }
                writeBytes(s, ad >> 32, (u32)ad, VE(r), nb, I.w);
                f->slots[I.dst] = old;
                s.th[s.cur].preSched = false;
                f->pc++;
                break;
            }
            case I_Resume: {
                u64 exc = concretize(s, opv(f, I.a), 64);
                // the exception's type is kept just before the thrown object
                Val ti;
                if (!loadVal(s, VC(exc - 32), 8, 64, ti)) goto end;
                popFrame(s);
                if (s.th[s.cur].stack.empty()) { violation(s, "uncaught-exception", "exception leaves a thread's entry function"); goto end; }
                if (!unwind(s, exc, ti.c)) goto end;
                live = false;
                break;
            }
            case I_Unreachable: violation(s, "unreachable", "control reaches an unreachable instruction"); goto end;
            case I_Unsupported: engineErrors.insert(std::string("unsupported instruction: ") + (const char*)I.x + " in " + locStr(I.src)); goto end;
            default: engineErrors.insert("bad opcode"); goto end;
            }
        }
    }
end:
    infeasible++;
end2:
    delete sp;
}

void Engine::explore() {
    t0 = nowSec();
    while (!work.empty()) {
        if (viols.size() >= maxViol) break;
        if (timeUp()) { incompl("time limit"); break; }
        if (paths >= maxPaths) { incompl("path limit"); break; }
        if (!engineErrors.empty()) break;
        State* s = work.back();
        work.pop_back();
        exec(s);
    }
    for (auto* s : work) delete s;
    work.clear();
}
