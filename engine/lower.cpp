#include "core.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <stdexcept>
using namespace llvm;

static LLVMContext& C() { static LLVMContext* c = new LLVMContext; return *c; }

void Engine::load(const std::string& file) {
    SMDiagnostic err;
    M = parseIRFile(file, err, C());
    if (!M) { err.print("symex", errs()); throw std::runtime_error("cannot load IR"); }
    DL = &M->getDataLayout();
}

unsigned Engine::scalarW(Type* t) {
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isPointerTy()) return 64;
    if (t->isFloatTy()) return 32;
    if (t->isDoubleTy()) return 64;
    if (t->isX86_FP80Ty()) return 80;
    return 0;
}
void Engine::flatten(Type* t, u64 off, std::vector<::Leaf>& out) {
    if (auto* st = dyn_cast<StructType>(t)) {
        auto* sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); i++) flatten(st->getElementType(i), off + sl->getElementOffset(i), out);
    } else if (auto* at = dyn_cast<ArrayType>(t)) {
        u64 es = DL->getTypeAllocSize(at->getElementType());
        for (u64 i = 0; i < at->getNumElements(); i++) flatten(at->getElementType(), off + i * es, out);
    } else if (auto* vt = dyn_cast<FixedVectorType>(t)) {
        u64 es = DL->getTypeStoreSize(vt->getElementType());
        for (u64 i = 0; i < vt->getNumElements(); i++) flatten(vt->getElementType(), off + i * es, out);
    } else if (t->isVoidTy()) {
    } else
        out.push_back({ (u32)off, (uint16_t)scalarW(t) });
}

Func* Engine::getFunc(Function* f) {
    auto it = funcs.find(f);
    if (it != funcs.end()) return it->second;
    Func* F = new Func;
    F->f = f;
    F->addr = (0x01000000ULL + funcByIdx.size()) << 32;
    funcByIdx.push_back(F);
    funcs[f] = F;
    F->demangled = demangle(f->getName().str());
    if (auto* sp = f->getSubprogram()) {
        std::string p = sp->getFilename().str();
        if (!p.empty() && p[0] != '/') p = sp->getDirectory().str() + "/" + p;
        F->isRepo = p.compare(0, repoPrefix.size(), repoPrefix) == 0;
    }
    std::string n = f->getName().str();
    if (f->isIntrinsic()) n = Intrinsic::getBaseName(f->getIntrinsicID()).str();
    auto b = builtins.find(n);
    if (b != builtins.end()) F->bi = b->second;
    return F;
}

u64 Engine::constAddr(const Constant* c, bool& ok) {
    ok = true;
    if (auto* f = dyn_cast<Function>(c)) return getFunc(const_cast<Function*>(f))->addr;
    if (auto* g = dyn_cast<GlobalVariable>(c)) {
        auto it = globalAddr.find(g);
        if (it != globalAddr.end()) return it->second;
        ok = false;
        return 0;
    }
    if (auto* a = dyn_cast<GlobalAlias>(c)) return constAddr(a->getAliasee(), ok);
    ok = false;
    return 0;
}

static int g_undefN = 0;
Val Engine::constVal(const Constant* c, unsigned w) {
    if (auto* ci = dyn_cast<ConstantInt>(c)) {
        const APInt& v = ci->getValue();
        if (v.getBitWidth() <= 64) return VC(v.getZExtValue());
        u128 x = (u128)v.getRawData()[0] | ((u128)(v.getNumWords() > 1 ? v.getRawData()[1] : 0) << 64);
        return { 0, mkConst(x, v.getBitWidth()) };
    }
    if (auto* cf = dyn_cast<ConstantFP>(c)) {
        APInt v = cf->getValueAPF().bitcastToAPInt();
        if (v.getBitWidth() <= 64) return VC(v.getZExtValue());
        u128 x = (u128)v.getRawData()[0] | ((u128)(v.getNumWords() > 1 ? v.getRawData()[1] : 0) << 64);
        return { 0, mkConst(x, v.getBitWidth()) };
    }
    if (isa<ConstantPointerNull>(c)) return VC(0);
    if (isa<UndefValue>(c)) return { 0, mkVar("undef" + std::to_string(g_undefN++), w, true) };
    if (isa<ConstantAggregateZero>(c)) { if (w <= 64) return VC(0); return { 0, mkConst(0, w) }; }
    bool ok;
    u64 a = constAddr(c, ok);
    if (ok) return VC(a);
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
            APInt off(64, 0);
            if (cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) {
                Val b = constVal(ce->getOperand(0), 64);
                return VC(b.c + off.getSExtValue());
            }
            break;
        }
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast:
            return VC(constVal(ce->getOperand(0), 64).c & mask64(w));
        case Instruction::Trunc: return VC(constVal(ce->getOperand(0), 64).c & mask64(w));
        case Instruction::Sub: return VC((constVal(ce->getOperand(0), w).c - constVal(ce->getOperand(1), w).c) & mask64(w));
        case Instruction::Add: return VC((constVal(ce->getOperand(0), w).c + constVal(ce->getOperand(1), w).c) & mask64(w));
        case Instruction::ICmp: {
            u64 x = constVal(ce->getOperand(0), 64).c, y = constVal(ce->getOperand(1), 64).c;
            return VC(ce->getPredicate() == CmpInst::ICMP_EQ ? x == y : x != y);
        }
        default: break;
        }
    }
    std::string s; raw_string_ostream os(s); c->print(os);
    throw std::runtime_error("constVal: " + s);
}

void Engine::initConst(Obj* o, u64 off, const Constant* c) {
    if (isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) return;
    if (isa<UndefValue>(c)) return; // padding etc: keep zero
    Type* t = c->getType();
    if (auto* cs = dyn_cast<ConstantStruct>(c)) {
        auto* sl = DL->getStructLayout(cs->getType());
        for (unsigned i = 0; i < cs->getNumOperands(); i++) initConst(o, off + sl->getElementOffset(i), cs->getOperand(i));
        return;
    }
    if (auto* ca = dyn_cast<ConstantArray>(c)) {
        u64 es = DL->getTypeAllocSize(cast<ArrayType>(t)->getElementType());
        for (unsigned i = 0; i < ca->getNumOperands(); i++) initConst(o, off + i * es, ca->getOperand(i));
        return;
    }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
        StringRef r = cd->getRawDataValues();
        memcpy(o->data + off, r.data(), r.size());
        return;
    }
    unsigned w = scalarW(t);
    Val v = constVal(c, w);
    if (v.e) { u128 x = v.e->cv(); memcpy(o->data + off, &x, (w + 7) / 8); }
    else memcpy(o->data + off, &v.c, (w + 7) / 8);
}

void Engine::initGlobals() {
    State* s = globals = new State;
    for (auto& g : M->globals()) {
        u64 sz = g.isDeclaration() ? std::max<u64>(256, g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()) : 0) : DL->getTypeAllocSize(g.getValueType());
        u32 id = s->nextObj++;
        Obj* o = new Obj(sz);
        o->kind = O_Global;
        o->ro = g.isConstant() && !g.isDeclaration();
        o->name = strdup(g.getName().str().c_str());
        s->as.set(id, o);
        globalAddr[&g] = (u64)id << 32;
    }
    for (auto& g : M->globals())
        if (g.hasInitializer()) initConst(s->as.getW(globalAddr[&g] >> 32), 0, g.getInitializer());
}

namespace {
struct Lower {
    Engine& E_;
    Func* F;
    std::unordered_map<const Value*, int> slot;
    std::unordered_map<const Value*, std::vector<int>> cidx;
    std::map<u64, int> cint;
    int ns = 0;
    int nslotsOf(Type* t) { std::vector<::Leaf> l; E_.flatten(t, 0, l); return l.size(); }
    int addConst(Val v) {
        if (!v.e) { auto it = cint.find(v.c); if (it != cint.end()) return it->second; }
        F->consts.push_back(v);
        int i = -(int)F->consts.size();
        if (!v.e) cint[v.c] = i;
        return i;
    }
    void constLeaves(const Constant* c, std::vector<int>& out) {
        Type* t = c->getType();
        if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
            u64 n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
            for (u64 i = 0; i < n; i++) constLeaves(c->getAggregateElement(i), out);
            return;
        }
        out.push_back(addConst(E_.constVal(c, E_.scalarW(t))));
    }
    int op(const Value* v, int k = 0) {
        auto it = slot.find(v);
        if (it != slot.end()) return it->second + k;
        if (auto* c = dyn_cast<Constant>(v)) {
            auto& e = cidx[v];
            if (e.empty()) constLeaves(c, e);
            return e.at(k);
        }
        if (isa<MetadataAsValue>(v)) return addConst(VC(0));
        throw std::runtime_error("operand without slot");
    }
    Edge edge(const BasicBlock* from, const BasicBlock* to) {
        Edge e;
        e.bb = F->bbIdx[to];
        for (auto& p : to->phis()) {
            const Value* in = p.getIncomingValueForBlock(from);
            int n = nslotsOf(p.getType());
            for (int k = 0; k < n; k++) { int so = op(in, k), d = slot[&p] + k; if (so != d) e.copies.push_back({ d, so }); }
        }
        return e;
    }
};
} // namespace

void Engine::lower(Func* F) {
    if (F->lowered) return;
    F->lowered = true;
    Function* f = F->f;
    Lower L{ *this, F };
    for (auto& a : f->args()) { L.slot[&a] = L.ns; L.ns += L.nslotsOf(a.getType()); }
    F->nargs = L.ns;
    int nb = 0;
    for (auto& bb : *f) {
        F->bbIdx[&bb] = nb++;
        for (auto& i : bb) if (!i.getType()->isVoidTy()) { L.slot[&i] = L.ns; L.ns += L.nslotsOf(i.getType()); }
    }
    F->bbs.resize(nb);
    for (auto& bb : *f) {
        auto& out = F->bbs[F->bbIdx[&bb]];
        for (auto& i : bb) {
            if (isa<PHINode>(i)) continue;
            if (isa<DbgInfoIntrinsic>(i)) continue;
            Inst I;
            I.src = &i;
            Type* t = i.getType();
            if (!t->isVoidTy()) { I.dst = L.slot[&i]; I.w = scalarW(t); }
            auto unsup = [&](const char* why) { I.op = I_Unsupported; I.x = (void*)why; };
            auto isVec = [&](Type* t) { return t->isVectorTy(); };
            bool vec = isVec(t);
            for (auto& o : i.operands()) if (isVec(o->getType())) vec = true;
            if (vec && !isa<CallBase>(i) && !isa<LoadInst>(i) && !isa<StoreInst>(i) && !isa<ReturnInst>(i)) {
                if (auto* ee = dyn_cast<ExtractElementInst>(&i); ee && isa<ConstantInt>(ee->getIndexOperand())) {
                    I.op = I_Copy; I.a = L.op(ee->getVectorOperand(), cast<ConstantInt>(ee->getIndexOperand())->getZExtValue());
                } else if (auto* ie = dyn_cast<InsertElementInst>(&i); ie && isa<ConstantInt>(ie->getOperand(2))) {
                    I.op = I_InsertVal;
                    auto* mx = new MemX;
                    u64 n = cast<FixedVectorType>(t)->getNumElements(), ix = cast<ConstantInt>(ie->getOperand(2))->getZExtValue();
                    for (u64 k = 0; k < n; k++) mx->ops.push_back(k == ix ? L.op(ie->getOperand(1)) : L.op(ie->getOperand(0), k));
                    I.x = mx;
                } else if (auto* sv = dyn_cast<ShuffleVectorInst>(&i)) {
                    I.op = I_InsertVal;
                    auto* mx = new MemX;
                    int n0 = cast<FixedVectorType>(sv->getOperand(0)->getType())->getNumElements();
                    for (int m : sv->getShuffleMask()) mx->ops.push_back(m < 0 ? L.op(sv->getOperand(0), 0) : m < n0 ? L.op(sv->getOperand(0), m) : L.op(sv->getOperand(1), m - n0));
                    I.x = mx;
                } else if (isa<BinaryOperator>(i) || isa<ICmpInst>(i) || isa<CastInst>(i)) {
                    unsup("vector arithmetic");
                } else
                    unsup("vector instruction");
                out.push_back(I);
                continue;
            }
            switch (i.getOpcode()) {
            case Instruction::Ret: {
                I.op = I_Ret;
                auto* mx = new MemX;
                if (auto* rv = cast<ReturnInst>(i).getReturnValue()) { int n = L.nslotsOf(rv->getType()); for (int k = 0; k < n; k++) mx->ops.push_back(L.op(rv, k)); }
                I.x = mx;
                break;
            }
            case Instruction::Br: {
                auto& b = cast<BranchInst>(i);
                auto* bx = new BrX;
                bx->t = L.edge(&bb, b.getSuccessor(0));
                if (b.isConditional()) { I.op = I_CondBr; I.a = L.op(b.getCondition()); bx->f = L.edge(&bb, b.getSuccessor(1)); }
                else I.op = I_Br;
                I.x = bx;
                break;
            }
            case Instruction::Switch: {
                auto& sw = cast<SwitchInst>(i);
                I.op = I_Switch; I.a = L.op(sw.getCondition()); I.w = sw.getCondition()->getType()->getIntegerBitWidth();
                auto* sx = new SwitchX;
                sx->edges.push_back(L.edge(&bb, sw.getDefaultDest()));
                for (auto& c : sw.cases()) { sx->cases.push_back({ c.getCaseValue()->getZExtValue(), (int)sx->edges.size() }); sx->edges.push_back(L.edge(&bb, c.getCaseSuccessor())); }
                I.x = sx;
                break;
            }
            case Instruction::Unreachable: I.op = I_Unreachable; break;
            case Instruction::Resume: I.op = I_Resume; I.a = L.op(i.getOperand(0), 0); break;
            case Instruction::Call: case Instruction::Invoke: {
                auto& cb = cast<CallBase>(i);
                I.op = I_Call;
                auto* cx = new CallX;
                std::vector<::Leaf> rl; flatten(t, 0, rl);
                for (auto& l : rl) cx->retW.push_back(l.w);
                const Value* cal = cb.getCalledOperand()->stripPointerCasts();
                if (auto* ga = dyn_cast<GlobalAlias>(cal)) cal = ga->getAliaseeObject();
                if (auto* cf = dyn_cast<Function>(cal)) cx->direct = const_cast<Function*>(cf);
                else if (cb.isInlineAsm()) { unsup("inline asm"); break; }
                else cx->calleeOp = L.op(cb.getCalledOperand());
                for (unsigned k = 0; k < cb.arg_size(); k++) {
                    std::vector<::Leaf> al;
                    flatten(cb.getArgOperand(k)->getType(), 0, al);
                    if (cb.getArgOperand(k)->getType()->isMetadataTy()) { cx->args.push_back(L.op(cb.getArgOperand(k))); cx->byval.push_back(0); cx->argW.push_back(64); continue; }
                    for (size_t q = 0; q < al.size(); q++) {
                        cx->args.push_back(L.op(cb.getArgOperand(k), q));
                        cx->argW.push_back(al[q].w);
                        cx->byval.push_back(cb.isByValArgument(k) ? (u64)DL->getTypeAllocSize(cb.getParamByValType(k)) : 0);
                    }
                }
                if (auto* iv = dyn_cast<InvokeInst>(&i)) {
                    cx->invoke = true;
                    cx->normal = L.edge(&bb, iv->getNormalDest());
                    cx->unwindBB = F->bbIdx[iv->getUnwindDest()];
                    F->unwindEdges[{ F->bbIdx[&bb], cx->unwindBB }] = L.edge(&bb, iv->getUnwindDest());
                }
                I.x = cx;
                break;
            }
            case Instruction::Add: I.op = I_Bin; I.sub = K_Add; goto bin;
            case Instruction::Sub: I.op = I_Bin; I.sub = K_Sub; goto bin;
            case Instruction::Mul: I.op = I_Bin; I.sub = K_Mul; goto bin;
            case Instruction::UDiv: I.op = I_Bin; I.sub = K_UDiv; goto bin;
            case Instruction::SDiv: I.op = I_Bin; I.sub = K_SDiv; goto bin;
            case Instruction::URem: I.op = I_Bin; I.sub = K_URem; goto bin;
            case Instruction::SRem: I.op = I_Bin; I.sub = K_SRem; goto bin;
            case Instruction::And: I.op = I_Bin; I.sub = K_And; goto bin;
            case Instruction::Or: I.op = I_Bin; I.sub = K_Or; goto bin;
            case Instruction::Xor: I.op = I_Bin; I.sub = K_Xor; goto bin;
            case Instruction::Shl: I.op = I_Bin; I.sub = K_Shl; goto bin;
            case Instruction::LShr: I.op = I_Bin; I.sub = K_LShr; goto bin;
            case Instruction::AShr: I.op = I_Bin; I.sub = K_AShr; goto bin;
            case Instruction::FAdd: I.op = I_FBin; I.sub = K_FAdd; goto bin;
            case Instruction::FSub: I.op = I_FBin; I.sub = K_FSub; goto bin;
            case Instruction::FMul: I.op = I_FBin; I.sub = K_FMul; goto bin;
            case Instruction::FDiv: I.op = I_FBin; I.sub = K_FDiv; goto bin;
            bin:
                I.a = L.op(i.getOperand(0)); I.b = L.op(i.getOperand(1));
                if (I.w == 80) unsup("x86_fp80");
                break;
            case Instruction::FNeg: I.op = I_FNeg; I.a = L.op(i.getOperand(0)); if (I.w == 80) unsup("x86_fp80"); break;
            case Instruction::ICmp: I.op = I_ICmp; I.sub = cast<ICmpInst>(i).getPredicate(); I.a = L.op(i.getOperand(0)); I.b = L.op(i.getOperand(1)); I.w = scalarW(i.getOperand(0)->getType()); break;
            case Instruction::FCmp: I.op = I_FCmp; I.sub = cast<FCmpInst>(i).getPredicate(); I.a = L.op(i.getOperand(0)); I.b = L.op(i.getOperand(1)); I.w = scalarW(i.getOperand(0)->getType()); if (I.w == 80) unsup("x86_fp80"); break;
            case Instruction::Alloca: {
                auto& al = cast<AllocaInst>(i);
                I.op = I_Alloca; I.imm = DL->getTypeAllocSize(al.getAllocatedType());
                I.a = L.op(al.getArraySize()); I.w2 = scalarW(al.getArraySize()->getType());
                break;
            }
            case Instruction::Load: {
                I.op = I_Load; I.a = L.op(i.getOperand(0));
                I.sub = cast<LoadInst>(i).isAtomic();
                I.imm = DL->getTypeStoreSize(t);
                if (!scalarW(t)) { auto* mx = new MemX; flatten(t, 0, mx->leaves); I.x = mx; }
                break;
            }
            case Instruction::Store: {
                auto* v = i.getOperand(0);
                I.op = I_Store; I.b = L.op(i.getOperand(1));
                I.sub = cast<StoreInst>(i).isAtomic();
                I.imm = DL->getTypeStoreSize(v->getType());
                I.w = scalarW(v->getType());
                if (!I.w) { auto* mx = new MemX; flatten(v->getType(), 0, mx->leaves); for (size_t k = 0; k < mx->leaves.size(); k++) mx->ops.push_back(L.op(v, k)); I.x = mx; }
                else I.a = L.op(v);
                break;
            }
            case Instruction::GetElementPtr: {
                auto& g = cast<GetElementPtrInst>(i);
                I.op = I_Gep; I.a = L.op(g.getPointerOperand());
                auto* gx = new GepX; gx->off = 0;
                for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
                    auto* idx = gi.getOperand();
                    if (auto* st = gi.getStructTypeOrNull()) { gx->off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); continue; }
                    u64 sc = DL->getTypeAllocSize(gi.getIndexedType());
                    if (auto* ci = dyn_cast<ConstantInt>(idx)) gx->off += ci->getSExtValue() * sc;
                    else { gx->terms.push_back({ L.op(idx), sc }); gx->widths.push_back(scalarW(idx->getType())); }
                }
                I.x = gx;
                break;
            }
            case Instruction::Trunc: I.op = I_Trunc; I.a = L.op(i.getOperand(0)); I.w2 = scalarW(i.getOperand(0)->getType()); break;
            case Instruction::ZExt: I.op = I_ZExt; I.a = L.op(i.getOperand(0)); I.w2 = scalarW(i.getOperand(0)->getType()); break;
            case Instruction::SExt: I.op = I_SExt; I.a = L.op(i.getOperand(0)); I.w2 = scalarW(i.getOperand(0)->getType()); break;
            case Instruction::PtrToInt: case Instruction::IntToPtr: {
                unsigned fw = scalarW(i.getOperand(0)->getType());
                I.a = L.op(i.getOperand(0)); I.w2 = fw;
                I.op = fw == I.w ? I_Copy : fw > I.w ? I_Trunc : I_ZExt;
                break;
            }
            case Instruction::BitCast: case Instruction::AddrSpaceCast: I.op = I_Copy; I.a = L.op(i.getOperand(0)); break;
            case Instruction::FPToUI: case Instruction::FPToSI: I.op = I_FToI; I.sub = i.getOpcode() == Instruction::FPToSI; I.a = L.op(i.getOperand(0)); I.w2 = scalarW(i.getOperand(0)->getType()); if (I.w2 == 80) unsup("x86_fp80"); break;
            case Instruction::UIToFP: case Instruction::SIToFP: I.op = I_IToF; I.sub = i.getOpcode() == Instruction::SIToFP; I.a = L.op(i.getOperand(0)); I.w2 = scalarW(i.getOperand(0)->getType()); if (I.w == 80) unsup("x86_fp80"); break;
            case Instruction::FPExt: case Instruction::FPTrunc: I.op = I_FToF; I.a = L.op(i.getOperand(0)); I.w2 = scalarW(i.getOperand(0)->getType()); if (I.w == 80 || I.w2 == 80) unsup("x86_fp80"); break;
            case Instruction::Select: {
                I.op = I_Select; I.a = L.op(i.getOperand(0)); I.b = L.op(i.getOperand(1)); I.c = L.op(i.getOperand(2));
                if (!I.w) { auto* mx = new MemX; flatten(t, 0, mx->leaves); for (size_t k = 0; k < mx->leaves.size(); k++) { mx->ops.push_back(L.op(i.getOperand(1), k)); mx->ops.push_back(L.op(i.getOperand(2), k)); } I.x = mx; }
                break;
            }
            case Instruction::Freeze: I.op = I_Copy; I.a = L.op(i.getOperand(0)); break;
            case Instruction::Fence: I.op = I_Fence; break;
            case Instruction::AtomicCmpXchg: I.op = I_CmpXchg; I.a = L.op(i.getOperand(0)); I.b = L.op(i.getOperand(1)); I.c = L.op(i.getOperand(2)); I.w = scalarW(i.getOperand(1)->getType()); break;
            case Instruction::AtomicRMW: I.op = I_RMW; I.sub = cast<AtomicRMWInst>(i).getOperation(); I.a = L.op(i.getOperand(0)); I.b = L.op(i.getOperand(1)); I.w = scalarW(i.getOperand(1)->getType()); break;
            case Instruction::LandingPad: {
                auto& lp = cast<LandingPadInst>(i);
                I.op = I_LandingPad;
                auto* lx = new LPadX;
                lx->cleanup = lp.isCleanup();
                for (unsigned k = 0; k < lp.getNumClauses(); k++) {
                    std::vector<u64> tis;
                    if (lp.isCatch(k)) tis.push_back(constVal(lp.getClause(k), 64).c);
                    else { auto* arr = lp.getClause(k); for (u64 q = 0; q < arr->getType()->getArrayNumElements(); q++) tis.push_back(constVal(arr->getAggregateElement(q), 64).c); }
                    lx->clauses.push_back({ lp.isFilter(k), tis });
                }
                I.x = lx;
                break;
            }
            case Instruction::ExtractValue: case Instruction::InsertValue: {
                // leaf index range of the indexed member
                Type* at = i.getOperand(0)->getType();
                ArrayRef<unsigned> idx = isa<ExtractValueInst>(i) ? cast<ExtractValueInst>(i).getIndices() : cast<InsertValueInst>(i).getIndices();
                int base = 0;
                for (unsigned ix : idx) {
                    for (unsigned k = 0; k < ix; k++) base += L.nslotsOf(at->isStructTy() ? at->getStructElementType(k) : at->getArrayElementType());
                    at = at->isStructTy() ? at->getStructElementType(ix) : at->getArrayElementType();
                }
                int n = L.nslotsOf(at);
                auto* mx = new MemX;
                if (isa<ExtractValueInst>(i)) {
                    for (int k = 0; k < n; k++) mx->ops.push_back(L.op(i.getOperand(0), base + k));
                } else {
                    int tot = L.nslotsOf(t);
                    for (int k = 0; k < tot; k++) mx->ops.push_back(k >= base && k < base + n ? L.op(i.getOperand(1), k - base) : L.op(i.getOperand(0), k));
                }
                I.op = I_InsertVal; I.x = mx;
                break;
            }
            default: unsup(i.getOpcodeName()); break;
            }
            out.push_back(I);
        }
    }
    F->nslots = L.ns;
}
