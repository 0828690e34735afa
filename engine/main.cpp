#include "core.h"
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/Transforms/IPO/Internalize.h>
#include <llvm/Support/raw_ostream.h>
#include <sys/resource.h>
#include <pthread.h>
#include <algorithm>
#include <sstream>
using namespace llvm;

int selftest(u64 seed, int rounds);
static Engine en;
static std::string irFile, entry, outFile;

static std::string jstr(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}

static void makeStart() {
    Module& M = *en.M;
    auto& C = M.getContext();
    auto* ft = FunctionType::get(Type::getVoidTy(C), false);
    auto* f = Function::Create(ft, GlobalValue::ExternalLinkage, "vp_start", &M);
    auto* bb = BasicBlock::Create(C, "e", f);
    IRBuilder<> B(bb);
    std::vector<std::pair<u64, Function*>> cs;
    if (auto* g = M.getNamedGlobal("llvm.global_ctors"); g && g->hasInitializer())
        if (auto* ca = dyn_cast<ConstantArray>(g->getInitializer()))
            for (auto& o : ca->operands()) {
                auto* st = cast<ConstantStruct>(o);
                if (auto* fn = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())) cs.push_back({ cast<ConstantInt>(st->getOperand(0))->getZExtValue(), fn });
            }
    std::stable_sort(cs.begin(), cs.end(), [](auto& a, auto& b) { return a.first < b.first; });
    for (auto& c : cs) B.CreateCall(c.second->getFunctionType(), c.second);
    auto* h = M.getFunction(entry);
    if (!h) { fprintf(stderr, "no function %s\n", entry.c_str()); exit(3); }
    B.CreateCall(h->getFunctionType(), h);
    B.CreateRetVoid();
}

// --prep IN OUT: drop what the harness cannot reach and inline the library code; the code under
// test (everything below the repository) keeps its functions.
static int prep(const std::string& in, const std::string& out) {
    en.load(in);
    registerBuiltins(en);
    Module& M = *en.M;
    auto keep = [&](const std::string& n) {
        return n.compare(0, 3, "vp_") == 0 || n.compare(0, 7, "harness") == 0 || n.compare(0, 5, "llvm.") == 0 || en.builtins.count(n) || n.compare(0, 4, "_ZTV") == 0 || n.compare(0, 4, "_ZTI") == 0;
    };
    for (auto& F : M) {
        if (F.isDeclaration()) continue;
        std::string n = F.getName().str();
        bool repo = false;
        if (auto* sp = F.getSubprogram()) {
            std::string p = sp->getFilename().str();
            if (!p.empty() && p[0] != '/') p = sp->getDirectory().str() + "/" + p;
            repo = p.compare(0, en.repoPrefix.size(), en.repoPrefix) == 0;
        }
        if (repo || keep(n)) {
            F.removeFnAttr(Attribute::AlwaysInline);
            F.addFnAttr(Attribute::NoInline);
        }
    }
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
    PassBuilder PB;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
    ModulePassManager MPM;
    MPM.addPass(InternalizePass([&](const GlobalValue& g) { return g.isDeclaration() || keep(g.getName().str()); }));
    MPM.addPass(GlobalDCEPass());
    ModulePassManager rest;
    if (auto e = PB.parsePassPipeline(rest, "function(sroa,early-cse,simplifycfg,instsimplify),cgscc(inline),function(sroa,early-cse,simplifycfg,instsimplify),globaldce")) {
        fprintf(stderr, "bad pipeline\n");
        return 3;
    }
    MPM.addPass(std::move(rest));
    MPM.run(M, MAM);
    std::error_code ec;
    raw_fd_ostream os(out, ec);
    if (ec) return 3;
    WriteBitcodeToFile(M, os);
    return 0;
}

static void* body(void*) {
    double tl0 = nowSec();
    en.load(irFile);
    for (auto& F : *en.M) if (F.isDeclaration() && !F.isIntrinsic()) { // system calls modelled by the environment
        std::string n = F.getName().str();
        Function* d = en.M->getFunction("vp_os_" + n);
        if (!d && n.size() > 2 && n.substr(n.size() - 2) == "64") d = en.M->getFunction("vp_os_" + n.substr(0, n.size() - 2));
        if (d && !d->isDeclaration()) F.replaceAllUsesWith(d);
    }
    makeStart();
    registerBuiltins(en);
    en.initGlobals();
    double tl = nowSec() - tl0;
    try {
        State* s = en.globals;
        en.globals = new State(*s);
        s->th.emplace_back();
        s->model = freshModel({});
        en.pushCall(*s, en.getFunc(en.M->getFunction("vp_start")), nullptr, 0);
        en.work.push_back(s);
        en.explore();
    } catch (std::exception& e) { en.engineErrors.insert(std::string("engine exception: ") + e.what()); }
    double te = nowSec() - en.t0;
    if (en.profile) {
        std::vector<std::pair<u64, Func*>> v;
        for (auto& p : en.profHits) v.push_back({ p.second, p.first });
        std::sort(v.rbegin(), v.rend());
        for (size_t i = 0; i < v.size() && i < 30; i++) fprintf(stderr, "%5.1f%% %s\n", 100.0 * v[i].first * 997 / en.steps, v[i].second->demangled.substr(0, 150).c_str());
    }
    std::ostringstream o;
    o << "{\n\"entry\":" << jstr(entry) << ",\n\"args\":[";
    for (size_t i = 0; i < en.args.size(); i++) o << (i ? "," : "") << en.args[i];
    o << "],\n\"paths\":" << en.paths << ",\"forks\":" << en.forks << ",\"ended_early\":" << en.infeasible << ",\"incomplete\":" << en.incomplete
      << ",\"steps\":" << en.steps << ",\"max_depth\":" << en.maxDepthSeen << ",\"asserts\":" << en.asserts << ",\"assert_queries\":" << en.assertQ
      << ",\"sched_points\":" << en.schedPoints << ",\"mem_checks\":" << en.memChecks << ",\"load_s\":" << tl << ",\"explore_s\":" << te << ",\n";
    auto& q = g_sstats;
    o << "\"solver\":{\"queries\":" << q.queries << ",\"z3_calls\":" << q.z3calls << ",\"sat\":" << q.sat << ",\"unsat\":" << q.unsat << ",\"unknown\":" << q.unknown
      << ",\"cache_hits\":" << q.cacheHits << ",\"model_hits\":" << q.modelHits << ",\"case_splits\":" << q.splits << ",\"time_s\":" << q.z3time << ",\"max_s\":" << q.z3max << "},\n";
    o << "\"exprs\":" << exprCount() << ",\"vars\":" << g_vars.size() << ",\n\"incomplete_why\":[";
    { bool f = true; for (auto& w : en.incompleteWhy) { o << (f ? "" : ",") << jstr(w); f = false; } }
    o << "],\n\"engine_errors\":[";
    { bool f = true; for (auto& w : en.engineErrors) { o << (f ? "" : ",") << jstr(w); f = false; } }
    o << "],\n\"reached\":[";
    { bool f = true; std::set<u64> r(en.reachLabels.begin(), en.reachLabels.end()); for (auto w : r) { o << (f ? "" : ",") << w; f = false; } }
    o << "],\n\"functions\":[";
    { bool f = true; std::map<std::string, u64> m; for (auto* F : en.funcByIdx) if (F->isRepo && F->execs) m[F->demangled.size() > 140 ? F->demangled.substr(0, 140) : F->demangled] += F->execs; for (auto& p : m) { o << (f ? "" : ",") << "\n[" << jstr(p.first) << "," << p.second << "]"; f = false; } }
    o << "],\n\"samples\":[";
    for (size_t i = 0; i < en.samples.size(); i++) {
        auto& s = en.samples[i];
        o << (i ? "," : "") << "\n{\"ins\":[";
        for (size_t k = 0; k < s.ins.size(); k++) o << (k ? "," : "") << "[" << jstr(s.ins[k].first) << "," << s.ins[k].second << "," << s.widths[k] << "]";
        o << "],\"obs\":[";
        for (size_t k = 0; k < s.obs.size(); k++) o << (k ? "," : "") << "[" << s.obs[k].first << "," << s.obs[k].second << "]";
        o << "],\"sched\":" << jstr(s.sched) << "}";
    }
    o << "],\n\"violations\":[";
    for (size_t i = 0; i < en.viols.size(); i++) {
        auto& v = en.viols[i];
        o << (i ? "," : "") << "\n{\"kind\":" << jstr(v.kind) << ",\"msg\":" << jstr(v.msg) << ",\"where\":" << jstr(v.where) << ",\"ins\":[";
        for (size_t k = 0; k < v.inputs.size(); k++) o << (k ? "," : "") << "[" << jstr(v.inputs[k].first) << "," << v.inputs[k].second << "," << v.widths[k] << "]";
        o << "],\"sched\":" << jstr(v.sched) << ",\"trace\":[";
        for (size_t k = 0; k < v.trace.size(); k++) o << (k ? "," : "") << jstr(v.trace[k]);
        o << "]}";
    }
    o << "]\n}\n";
    if (outFile.empty()) fputs(o.str().c_str(), stdout);
    else { FILE* f = fopen(outFile.c_str(), "w"); fputs(o.str().c_str(), f); fclose(f); }
    fflush(stdout);
    _exit(0);
}

int main(int argc, char** argv) {
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--selftest") { u64 sd = strtoull(next().c_str(), 0, 0); return selftest(sd, atoi(next().c_str())); }
        if (a == "--prep") { std::string x = next(); return prep(x, next()); }
        if (a == "--ir") irFile = next();
        else if (a == "--entry") entry = next();
        else if (a == "--out") outFile = next();
        else if (a == "--arg") en.args.push_back(strtoull(next().c_str(), 0, 0));
        else if (a == "--max-time") en.maxTime = atof(next().c_str());
        else if (a == "--max-paths") en.maxPaths = atoll(next().c_str());
        else if (a == "--max-viol") en.maxViol = atoi(next().c_str());
        else if (a == "--path-steps") en.pathSteps = atoll(next().c_str());
        else if (a == "--query-ms") g_queryTimeoutMs = atoi(next().c_str());
        else if (a == "--repo") en.repoPrefix = next();
        else if (a == "--seed") en.sampleRng = strtoull(next().c_str(), 0, 0) * 2 + 1;
        else if (a == "--profile") en.profile = true;
        else if (a == "--log-real") en.logReal = true;
        else if (a == "--max-samples") en.maxSamples = atoi(next().c_str());
        else if (a == "--inputs") { en.haveFixed = true; std::stringstream ss(next()); std::string t; while (std::getline(ss, t, ',')) if (!t.empty()) en.fixedIns.push_back(strtoull(t.c_str(), 0, 0)); }
        else if (a == "--sched") { en.haveSched = true; en.fixedSched = next(); }
        else { fprintf(stderr, "bad option %s\n", a.c_str()); return 3; }
    }
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 2ULL << 30);
    pthread_t t;
    if (pthread_create(&t, &at, body, nullptr)) { perror("pthread_create"); return 3; }
    pthread_join(t, nullptr);
    return 0;
}
