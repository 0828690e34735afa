#pragma once
#include "expr.h"
#include "solver.h"
#include <llvm/IR/Instructions.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/DataLayout.h>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

struct Val { u64 c; E e; };
inline Val VC(u64 c) { return { c, nullptr }; }
inline E toE(const Val& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
inline Val VE(E e) { if (e->isConst() && e->w <= 64) return { e->v, nullptr }; return { 0, e }; }

// ------------------------------------------------------------------ memory
enum ObjKind : uint8_t { O_Global, O_Stack, O_Heap };
struct RaceCell { u32 wclk; uint16_t wtid; uint16_t rtid; u32 rclk; u32 many; }; // many: index+1 into shared read list
struct RacePage { // the cells of B bytes; one cell while all of them are the same
    static constexpr u64 B = 4096;
    std::vector<RaceCell> c{ RaceCell{ 0, 0, 0, 0, 0 } };
};
// the symbolic bytes of an object, sparse
struct SymArr {
    enum { B = 1024 };
    u64 n; E** pg; u64 np; // page k: bytes k*B...; null: no symbolic byte in it
    explicit SymArr(u64 n) : n(n), np((n + B - 1) / B) { pg = (E**)calloc(np ? np : 1, sizeof(E*)); }
    SymArr(const SymArr& o) : n(o.n), np(o.np) {
        pg = (E**)calloc(np ? np : 1, sizeof(E*));
        for (u64 k = 0; k < np; k++) if (o.pg[k]) { pg[k] = (E*)malloc(bytes(k)); memcpy(pg[k], o.pg[k], bytes(k)); }
    }
    ~SymArr() { for (u64 k = 0; k < np; k++) free(pg[k]); free(pg); }
    u64 len(u64 k) const { return k + 1 < np ? (u64)B : n - k * B; }
    u64 bytes(u64 k) const { return len(k) * sizeof(E); }
    E get(u64 i) const { E* p = pg[i / B]; return p ? p[i % B] : nullptr; }
    void set(u64 i, E e) {
        E*& p = pg[i / B];
        if (!p) { if (!e) return; p = (E*)calloc(len(i / B), sizeof(E)); }
        p[i % B] = e;
    }
    void clear(u64 off, u64 k) {
        for (u64 i = off, e = off + k; i < e;) {
            u64 q = i / B, end = std::min(e, (q + 1) * B);
            if (pg[q]) {
                if (end - i == len(q)) { free(pg[q]); pg[q] = nullptr; }
                else memset(pg[q] + i % B, 0, (end - i) * sizeof(E));
            }
            i = end;
        }
    }
    u64 next(u64 i, u64 e) const { // first symbolic byte in [i, e), or e
        while (i < e) {
            E* p = pg[i / B];
            u64 end = std::min(e, (i / B + 1) * B);
            if (!p) { i = end; continue; }
            for (; i < end; i++) if (p[i % B]) return i;
        }
        return e;
    }
    void copy(u64 to, const SymArr* o, u64 from, u64 k) {
        if (np == 1 && o->np == 1 && pg[0] && o->pg[0]) { memmove(pg[0] + to, o->pg[0] + from, k * sizeof(E)); return; }
        std::vector<std::pair<u64, E>> v;
        for (u64 i = o->next(from, from + k); i < from + k; i = o->next(i + 1, from + k)) v.push_back({ i - from, o->get(i) });
        clear(to, k);
        for (auto& x : v) set(to + x.first, x.second);
    }
};
struct Obj {
    u32 ref = 1;
    u64 size = 0;
    ObjKind kind = O_Global;
    uint8_t alloc = 0;          // 0 malloc 1 new 2 new[]
    bool ro = false;
    bool env = false;           // belongs to the environment model: not the code's to release
    uint8_t* data = nullptr;
    SymArr* sym = nullptr;      // null: all bytes concrete
    uint8_t* uninit = nullptr;  // per byte flag
    std::vector<std::shared_ptr<RacePage>>* race = nullptr;
    std::vector<std::vector<std::pair<u32,u32>>>* reads = nullptr;
    std::vector<const llvm::Instruction*> site;
    const char* name = nullptr;
    explicit Obj(u64 n) : size(n) { data = (uint8_t*)calloc(1, n ? n : 1); }
    Obj(const Obj& o);
    ~Obj() { free(data); delete sym; free(uninit); delete race; delete reads; }
    void ensureSym() { if (!sym) sym = new SymArr(size); }
    void ensureUninit() { if (!uninit) uninit = (uint8_t*)calloc(size, 1); }
};

struct AddrSpace { // persistent 3-level radix tree, 256-ary
    struct Leaf { u32 ref = 1; Obj* p[256] = {}; };
    struct Mid { u32 ref = 1; Leaf* p[256] = {}; };
    struct Root { u32 ref = 1; Mid* p[256] = {}; };
    Root* root;
    AddrSpace() : root(new Root) {}
    AddrSpace(const AddrSpace& o) : root(o.root) { root->ref++; }
    AddrSpace& operator=(const AddrSpace&) = delete;
    ~AddrSpace() { drop(root); }
    Obj* get(u32 id) const {
        if (id >> 24) return nullptr;
        Mid* m = root->p[id >> 16]; if (!m) return nullptr;
        Leaf* l = m->p[(id >> 8) & 255]; if (!l) return nullptr;
        return l->p[id & 255];
    }
    Obj* getW(u32 id);
    void set(u32 id, Obj* o); // takes ownership; null erases
    Leaf* leafW(u32 id);
    static void drop(Root*); static void drop(Mid*); static void drop(Leaf*);
    static void drop(Obj* o) { if (o && --o->ref == 0) delete o; }
};

// ------------------------------------------------------------------ code
enum Opc : uint8_t {
    I_Ret, I_Br, I_CondBr, I_Switch, I_Unreachable, I_Resume, I_Call,
    I_Bin, I_ICmp, I_FBin, I_FCmp, I_FNeg, I_Alloca, I_Load, I_Store, I_Gep, I_Trunc, I_ZExt, I_SExt,
    I_Copy, I_FToI, I_IToF, I_FToF, I_Select, I_Freeze, I_CmpXchg, I_RMW, I_Fence, I_Unsupported, I_LandingPad, I_InsertVal,
};
struct Func;
struct Edge { int bb; std::vector<std::pair<int, int>> copies; }; // dst slot <- operand
struct Leaf { u32 off; uint16_t w; };
struct GepX { std::vector<std::pair<int, u64>> terms; std::vector<int> widths; u64 off; };
struct SwitchX { std::vector<std::pair<u64, int>> cases; std::vector<Edge> edges; }; // edges[0] default
struct BrX { Edge t, f; };
struct MemX { std::vector<Leaf> leaves; std::vector<int> ops; };
struct LPadX { bool cleanup; std::vector<std::pair<bool, std::vector<u64>>> clauses; }; // filter?, typeinfos
struct Engine;
struct State;
struct Inst;
enum Act { A_Done, A_Redo, A_End, A_Jumped };
typedef Act (*Builtin)(Engine&, State&, Inst&, const Val* args, int n, Val* ret);
struct CallX {
    llvm::Function* direct = nullptr;
    Func* fn = nullptr;
    Builtin bi = nullptr;
    bool resolved = false;
    int calleeOp = 0;
    std::vector<int> args;
    std::vector<u64> byval;
    std::vector<uint16_t> retW;
    std::vector<uint16_t> argW;
    bool invoke = false;
    Edge normal; int unwindBB = -1;
    Func* redirect = nullptr; int redirArgs = 0;
};
struct Inst {
    Opc op; uint8_t sub = 0; uint16_t w = 0; uint16_t w2 = 0;
    int dst = -1, a = 0, b = 0, c = 0;
    u64 imm = 0;
    void* x = nullptr;
    const llvm::Instruction* src = nullptr;
};
struct Func {
    llvm::Function* f = nullptr;
    bool lowered = false;
    u64 addr = 0;
    int nargs = 0;           // slots
    int nslots = 0;
    std::vector<Val> consts;
    std::vector<std::vector<Inst>> bbs;
    std::vector<Edge*> lpadEdge; // unused
    std::unordered_map<const llvm::BasicBlock*, int> bbIdx;
    std::map<std::pair<int,int>, Edge> unwindEdges;
    Builtin bi = nullptr;
    u64 execs = 0;
    bool isRepo = false;
    std::string demangled;
};

struct Frame {
    u32 ref = 1;
    Func* fn; int bb = 0, pc = 0;
    std::vector<Val> slots;
    std::vector<u32> allocas;
};
enum TStat : uint8_t { T_Run, T_Mutex, T_Cond, T_CondMutex, T_Join, T_Futex, T_Latch, T_Done };
struct Thread {
    std::vector<Frame*> stack;
    TStat st = T_Run;
    u64 waitAddr = 0, waitAddr2 = 0;
    bool preSched = false;
    bool woken = false;
    bool joined = false, detached = false;
    std::vector<u32> vc;
    std::map<const llvm::GlobalVariable*, u32> tls;
    bool timed = false;
    int env = 0;               // inside the environment model: no races, no scheduling
};
struct MutexSt { int owner = -1; int count = 0; std::vector<u32> vc; };

struct SymIn { std::string name; unsigned w; E e; u64 conc; };
struct ObsRec { u64 tag; E e; u64 c; };

struct State {
    AddrSpace as;
    std::vector<Thread> th;
    int cur = 0;
    u32 nextObj = 1;
    std::vector<E> cons;
    ModelP model;
    std::vector<SymIn> ins;
    std::vector<ObsRec> obs;
    std::map<u64, MutexSt> mtx;
    std::map<u64, std::vector<u32>> syncVC;
    int explore = 0;
    int preempt = 0;           // preemptions left
    bool race = false;
    u32 leakMark = 0;
    u32 schedN = 0, uninitN = 0;
    std::string schedTrace;
    u64 steps = 0;
    u64 depth = 0;
    std::set<u64> reached;
    State() {}
    State(const State& o);
    ~State();
};

E pooledVar(const char* kind, u32 k, unsigned w, bool uninit);
struct Violation {
    std::string kind, msg, where;
    std::vector<std::string> trace;
    std::vector<std::pair<std::string, u64>> inputs;
    std::vector<u32> widths;
    std::string sched;
};

struct Engine {
    std::unique_ptr<llvm::Module> M;
    const llvm::DataLayout* DL = nullptr;
    std::unordered_map<const llvm::Function*, Func*> funcs;
    std::vector<Func*> funcByIdx;
    std::unordered_map<const llvm::GlobalVariable*, u64> globalAddr;
    std::unordered_map<u64, int> typeIds;
    std::unordered_map<std::string, Builtin> builtins;
    std::vector<State*> work;
    State* globals = nullptr;

    // options
    u64 maxSteps = 400000000, maxPaths = 10000000;
    double maxTime = 1e9;
    u64 maxViol = 1;
    u64 pathSteps = 60000000;
    std::vector<u64> args;
    std::vector<u64> fixedIns; bool haveFixed = false;
    std::string fixedSched; bool haveSched = false;
    std::string repoPrefix = "/repo/";
    u64 sampleRng = 1;
    bool logReal = false;
    u64 sampleEvery = 0;
    bool profile = false; std::map<Func*, u64> profHits;
    u64 maxSamples = 12;

    // statistics
    u64 steps = 0, paths = 0, forks = 0, infeasible = 0, incomplete = 0, maxDepthSeen = 0, asserts = 0, assertQ = 0, schedPoints = 0, memChecks = 0;
    std::set<std::string> incompleteWhy;
    std::vector<Violation> viols;
    std::map<std::string, u64> reachCount;
    struct Sample { std::vector<std::pair<std::string, u64>> ins; std::vector<u32> widths; std::vector<std::pair<u64, u64>> obs; std::string sched; };
    std::vector<Sample> samples;
    std::string fatal;
    std::set<std::string> engineErrors;
    double t0 = 0;
    std::map<std::string,u64> symNames;
    std::unordered_set<u64> reachLabels;

    // setup
    void load(const std::string& file);
    void initGlobals();
    void initConst(Obj* o, u64 off, const llvm::Constant* c);
    u64 constAddr(const llvm::Constant* c, bool& ok);
    Val constVal(const llvm::Constant* c, unsigned w);
    Func* getFunc(llvm::Function* f);
    void lower(Func* f);
    void flatten(llvm::Type* t, u64 off, std::vector<Leaf>& out);
    unsigned scalarW(llvm::Type* t);
    // execution
    void runEntry(const std::string& name);
    void explore();
    void exec(State* s);
    bool timeUp();
    // helpers
    Frame* topW(State& s);
    State* fork(State& s);
    bool addCons(State& s, E c);                    // cond must be feasible
    int decide(State& s, E c);                      // 1/0: decided; forks otherwise; -1: unknown (path ends)
    u64 concretize(State& s, const Val& v, unsigned w); // forks (re-executing the instruction)
    void violation(State& s, const std::string& kind, const std::string& msg, ModelP m = nullptr);
    void endPath(State& s, bool completed);
    void incompl(const std::string& why);
    bool checkCond(State& s, E ok, const std::string& kind, const std::string& msg); // false => path must end
    u32 allocObj(State& s, u64 size, ObjKind k, bool uninit);
    bool loadVal(State& s, const Val& addr, unsigned nbytes, unsigned w, Val& out);
    bool storeVal(State& s, const Val& addr, const Val& v, unsigned nbytes, unsigned w);
    Obj* access(State& s, u64 addr, u64 n, bool write, const char* what);
    bool checkRange(State& s, u64 addr, u64 n, bool write, const char* what);
    Val readBytes(State& s, u32 id, Obj* o, u64 off, unsigned n, unsigned w);
    void writeBytes(State& s, u32 id, u64 off, const Val& v, unsigned n, unsigned w);
    bool resolveSym(State& s, E addr, unsigned n, bool write, std::vector<u64>& cands);
    bool copyMem(State& s, u64 d, u64 sr, u64 n);
    bool setMem(State& s, u64 d, const Val& b, u64 n);
    void doReturn(State& s, const Val* vals, int n);
    void pushCall(State& s, Func* f, const Val* args, int n);
    Act doCall(State& s, Inst& I);
    void jump(State& s, Frame* f, const Edge& e);
    void finishCall(State& s, Inst& I, const Val* ret);
    bool unwind(State& s, u64 exc, u64 tinfo);
    bool typeMatch(State& s, u64 thrown, u64 handler);
    int typeId(u64 ti);
    void popFrame(State& s);
    std::string where(State& s);
    std::vector<std::string> backtrace(State& s);
    std::string locStr(const llvm::Instruction* i);
    bool cstr(State& s, u64 addr, std::string& out);
    // threads
    bool schedPoint(State& s);                      // true: proceed, false: switched/ended
    bool reschedule(State& s);                      // current thread blocked/finished
    void switchTo(State& s, int t);
    std::vector<int> runnable(State& s);
    void vcJoin(std::vector<u32>& a, const std::vector<u32>& b);
    void vcInc(State& s, int t);
    void raceAccess(State& s, u32 id, u64 off, u64 n, bool write, bool atomic);
    void acquireVC(State& s, u64 addr);
    void releaseVC(State& s, u64 addr);
};
void registerBuiltins(Engine& e);
extern double nowSec();
