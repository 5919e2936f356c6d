// irx: mechanical extraction of verification input from the LLVM IR that clang generates
// for the real headers of /repo.
//
//   irx in.bc out.json [--noinline=REGEX]... [--root=NAME]...
//
// Steps (all recorded in DESIGN.md, section "What the extraction drops"):
//   1. blocks from which no `ret` is reachable (throw / assert / abort paths, EH cleanups) are
//      cut down to one marker call `vp.exit.<kind>`,
//   2. every other function body is inlined into the roots, except functions matching a
//      --noinline regex, recursive functions, and declarations,
//   3. sroa / early-cse / instcombine / simplifycfg / loop-simplify,
//   4. the resulting functions are printed as JSON.
#include "llvm/ADT/StringExtras.h"
#include "llvm/ADT/SCCIterator.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/IPO/GlobalDCE.h"
#include "llvm/Transforms/IPO/Internalize.h"
#include "llvm/Transforms/Utils/Local.h"
#include <map>
#include <regex>
#include <set>
using namespace llvm;

static std::vector<std::regex> NoInline;
static std::set<std::string> Roots;
static std::map<const Value*, std::string> Names;
static const DataLayout* DL;

static std::string nm(const Value* v) {
    auto it = Names.find(v);
    return it == Names.end() ? std::string("?") : it->second;
}

static json::Value tyJ(Type* t) {
    if (t->isIntegerTy()) return "i" + std::to_string(t->getIntegerBitWidth());
    if (t->isFloatTy()) return "f32";
    if (t->isDoubleTy()) return "f64";
    if (t->isHalfTy()) return "f16";
    if (t->isPointerTy()) return "ptr";
    if (t->isVoidTy()) return "void";
    if (auto* v = dyn_cast<FixedVectorType>(t))
        return json::Object{{"v", (int64_t)v->getNumElements()}, {"e", tyJ(v->getElementType())}};
    if (auto* s = dyn_cast<StructType>(t)) {
        json::Array a;
        json::Array o;
        if (s->isSized()) {
            auto* L = DL->getStructLayout(s);
            for (unsigned i = 0; i < s->getNumElements(); ++i) {
                a.push_back(tyJ(s->getElementType(i)));
                o.push_back((int64_t)L->getElementOffset(i).getFixedValue());
            }
        }
        return json::Object{{"s", std::move(a)}, {"o", std::move(o)}};
    }
    if (auto* s = dyn_cast<ArrayType>(t))
        return json::Object{
            {"a", (int64_t)s->getNumElements()},
            {"e", tyJ(s->getElementType())},
            {"es", (int64_t)DL->getTypeAllocSize(s->getElementType()).getFixedValue()}};
    std::string s;
    raw_string_ostream os(s);
    t->print(os);
    return "other:" + os.str();
}

static json::Value opJ(const Value* v);

static json::Value constJ(const Constant* c) {
    if (auto* i = dyn_cast<ConstantInt>(c)) {
        SmallString<40> s;
        i->getValue().toString(s, 10, false);
        return json::Object{{"k", "int"}, {"w", (int64_t)i->getBitWidth()}, {"v", std::string(s)}};
    }
    if (auto* f = dyn_cast<ConstantFP>(c)) {
        SmallString<40> s;
        auto bits = f->getValueAPF().bitcastToAPInt();
        bits.toString(s, 10, false);
        return json::Object{
            {"k", "fp"}, {"t", tyJ(c->getType())}, {"bits", std::string(s)}};
    }
    if (isa<ConstantPointerNull>(c)) return json::Object{{"k", "null"}};
    if (isa<UndefValue>(c)) return json::Object{{"k", "undef"}, {"t", tyJ(c->getType())}};
    if (auto* ga = dyn_cast<GlobalAlias>(c)) return constJ(ga->getAliasee());
    if (isa<GlobalValue>(c))
        return json::Object{{"k", "global"}, {"n", std::string(c->getName())}, {"off", 0}};
    if (isa<ConstantAggregateZero>(c)) return json::Object{{"k", "zero"}, {"t", tyJ(c->getType())}};
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        if (ce->getType()->isPointerTy()) {
            APInt off(64, 0);
            auto* base = ce->stripAndAccumulateConstantOffsets(*DL, off, true);
            if (isa<GlobalValue>(base))
                return json::Object{
                    {"k", "global"},
                    {"n", std::string(base->getName())},
                    {"off", (int64_t)off.getSExtValue()}};
        }
        return json::Object{{"k", "cexpr"}, {"t", tyJ(c->getType())}};
    }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
        json::Array a;
        for (unsigned i = 0; i < cd->getNumElements(); ++i)
            a.push_back(constJ(cd->getElementAsConstant(i)));
        return json::Object{{"k", "agg"}, {"t", tyJ(c->getType())}, {"e", std::move(a)}};
    }
    if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
        json::Array a;
        for (unsigned i = 0; i < ca->getNumOperands(); ++i)
            a.push_back(constJ(ca->getOperand(i)));
        return json::Object{{"k", "agg"}, {"t", tyJ(c->getType())}, {"e", std::move(a)}};
    }
    return json::Object{{"k", "unk"}, {"t", tyJ(c->getType())}};
}

static json::Value opJ(const Value* v) {
    if (auto* c = dyn_cast<Constant>(v)) return constJ(c);
    if (isa<MetadataAsValue>(v)) return json::Object{{"k", "meta"}};
    if (isa<InlineAsm>(v)) return json::Object{{"k", "asm"}};
    return json::Object{{"k", "ref"}, {"n", nm(v)}};
}

static json::Object gepJ(const GEPOperator* g) {
    json::Object o;
    APInt off(64, 0);
    MapVector<Value*, APInt> terms;
    bool ok = g->collectOffset(*DL, 64, terms, off);
    if (!ok) {
        o["op"] = "unsupported";
        return o;
    }
    o["base"] = opJ(g->getPointerOperand());
    o["const"] = (int64_t)off.getSExtValue();
    json::Array a;
    for (auto& [v, s] : terms)
        a.push_back(json::Object{
            {"v", opJ(v)}, {"w", (int64_t)v->getType()->getScalarSizeInBits()}, {"s", (int64_t)s.getSExtValue()}});
    o["terms"] = std::move(a);
    o["inbounds"] = g->isInBounds();
    return o;
}

static json::Value instJ(const Instruction& I) {
    json::Object o;
    o["r"] = nm(&I);
    o["op"] = I.getOpcodeName();
    o["t"] = tyJ(I.getType());
    if (auto& dl = I.getDebugLoc()) {
        std::string s;
        if (auto* sc = dyn_cast_or_null<DIScope>(dl.getScope()))
            s = sc->getFilename().str() + ":" + std::to_string(dl.getLine());
        o["loc"] = s;
    }
    json::Array ops;
    if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
        auto x = gepJ(cast<GEPOperator>(g));
        for (auto& kv : x) o[kv.first] = std::move(kv.second);
        return std::move(o);
    }
    if (auto* p = dyn_cast<PHINode>(&I)) {
        json::Array a;
        for (unsigned i = 0; i < p->getNumIncomingValues(); ++i)
            a.push_back(json::Array{opJ(p->getIncomingValue(i)), nm(p->getIncomingBlock(i))});
        o["in"] = std::move(a);
        return std::move(o);
    }
    if (auto* a = dyn_cast<AllocaInst>(&I)) {
        uint64_t sz = DL->getTypeAllocSize(a->getAllocatedType()).getFixedValue();
        o["size"] = (int64_t)sz;
        o["aty"] = tyJ(a->getAllocatedType());
        o["n"] = opJ(a->getArraySize());
        return std::move(o);
    }
    if (auto* cb = dyn_cast<CallBase>(&I)) {
        const Value* cv = cb->getCalledOperand()->stripPointerCasts();
        if (auto* f = dyn_cast<Function>(cv)) {
            o["callee"] = std::string(f->getName());
            o["dem"] = demangle(f->getName().str());
        } else
            o["callee_v"] = opJ(cv);
        for (auto& a : cb->args()) ops.push_back(opJ(a.get()));
        o["args"] = std::move(ops);
        json::Array ts;
        for (auto& a : cb->args()) ts.push_back(tyJ(a->getType()));
        o["ats"] = std::move(ts);
        json::Array br;
        for (unsigned i = 0; i < cb->arg_size(); ++i) br.push_back(cb->isByValArgument(i) || cb->paramHasAttr(i, Attribute::StructRet));
        if (auto* inv = dyn_cast<InvokeInst>(&I)) {
            o["normal"] = nm(inv->getNormalDest());
            o["unwind"] = nm(inv->getUnwindDest());
        }
        return std::move(o);
    }
    if (auto* b = dyn_cast<BranchInst>(&I)) {
        if (b->isConditional()) o["cond"] = opJ(b->getCondition());
        json::Array a;
        for (unsigned i = 0; i < b->getNumSuccessors(); ++i) a.push_back(nm(b->getSuccessor(i)));
        o["succ"] = std::move(a);
        return std::move(o);
    }
    if (auto* s = dyn_cast<SwitchInst>(&I)) {
        o["cond"] = opJ(s->getCondition());
        o["w"] = (int64_t)s->getCondition()->getType()->getIntegerBitWidth();
        o["default"] = nm(s->getDefaultDest());
        json::Array a;
        for (auto& c : s->cases())
            a.push_back(json::Array{opJ(c.getCaseValue()), nm(c.getCaseSuccessor())});
        o["cases"] = std::move(a);
        return std::move(o);
    }
    if (auto* c = dyn_cast<CmpInst>(&I)) o["pred"] = CmpInst::getPredicateName(c->getPredicate()).str();
    if (auto* b = dyn_cast<OverflowingBinaryOperator>(&I)) {
        o["nuw"] = b->hasNoUnsignedWrap();
        o["nsw"] = b->hasNoSignedWrap();
    }
    if (auto* e = dyn_cast<ExtractValueInst>(&I)) {
        json::Array a;
        for (auto i : e->indices()) a.push_back((int64_t)i);
        o["idx"] = std::move(a);
    }
    if (auto* e = dyn_cast<InsertValueInst>(&I)) {
        json::Array a;
        for (auto i : e->indices()) a.push_back((int64_t)i);
        o["idx"] = std::move(a);
    }
    if (auto* s = dyn_cast<ShuffleVectorInst>(&I)) {
        json::Array a;
        for (auto i : s->getShuffleMask()) a.push_back((int64_t)i);
        o["mask"] = std::move(a);
    }
    if (auto* a = dyn_cast<AtomicRMWInst>(&I)) o["aop"] = AtomicRMWInst::getOperationName(a->getOperation()).str();
    json::Array ots;
    for (auto& op : I.operands()) {
        ops.push_back(opJ(op.get()));
        ots.push_back(tyJ(op->getType()));
    }
    o["ops"] = std::move(ops);
    o["ots"] = std::move(ots);
    return std::move(o);
}

static bool starts(StringRef s, const char* p) { return s.starts_with(p); }

// Which kind of abnormal exit does this noreturn callee stand for?
static std::string noretKind(StringRef n) {
    if (n == "__cxa_throw" || n == "__cxa_rethrow" || starts(n, "_ZSt") || n.contains("__throw"))
        return n.contains("terminate") ? "abort" : "throw";
    if (n == "__assert_fail" || starts(n, "llvm.ubsantrap") || n == "llvm.trap" || n == "_ZSt21__glibcxx_assert_failPKciS0_S0_") return "assert";
    if (n == "abort" || n.contains("terminate") || n == "exit" || n == "_exit") return "abort";
    return "throw";
}

static std::map<Function*, std::string> NeverReturns;

// Cut blocks that cannot reach a return.  Returns true if F changed.
static bool cutFunction(Function& F, FunctionCallee (*mk)(Module&, const std::string&)) {
    if (F.isDeclaration()) return false;
    std::set<BasicBlock*> reach;
    std::vector<BasicBlock*> wl;
    auto endsInNever = [&](BasicBlock& B) -> bool {
        for (auto& I : B)
            if (auto* cb = dyn_cast<CallBase>(&I))
                if (auto* f = cb->getCalledFunction())
                    if (NeverReturns.count(f)) return true;
        return false;
    };
    for (auto& B : F)
        if (isa<ReturnInst>(B.getTerminator()) && !endsInNever(B)) {
            reach.insert(&B);
            wl.push_back(&B);
        }
    // Infinite loops (no exit) are also "cannot reach ret"; they do not occur in practice.
    while (!wl.empty()) {
        auto* b = wl.back();
        wl.pop_back();
        for (auto* p : predecessors(b)) {
            if (reach.count(p)) continue;
            if (endsInNever(*p)) {
                // an invoke of a never-returning function: only its unwind edge is live
                auto* inv = dyn_cast<InvokeInst>(p->getTerminator());
                if (!(inv && inv->getUnwindDest() == b)) continue;
            }
            reach.insert(p);
            wl.push_back(p);
        }
    }
    if (!reach.count(&F.getEntryBlock())) return false; // handled by NeverReturns
    // entry points of dead regions: dead block with live predecessor
    std::vector<BasicBlock*> entries;
    for (auto& B : F) {
        if (reach.count(&B)) continue;
        bool live = false;
        for (auto* p : predecessors(&B))
            if (reach.count(p)) live = true;
        if (live) entries.push_back(&B);
    }
    // also: `unreachable` blocks directly (e.g. switch default) have no call: kind "ub"
    auto kindOf = [&](BasicBlock* s) {
        std::set<BasicBlock*> seen;
        std::vector<BasicBlock*> st{s};
        bool thr = false, as = false, ab = false, res = false, any = false;
        while (!st.empty()) {
            auto* b = st.back();
            st.pop_back();
            if (!seen.insert(b).second) continue;
            for (auto& I : *b) {
                if (isa<ResumeInst>(&I)) res = true;
                if (auto* cb = dyn_cast<CallBase>(&I))
                    if (auto* f = cb->getCalledFunction()) {
                        any = true;
                        if (cb->doesNotReturn() || NeverReturns.count(f)) {
                            std::string k = NeverReturns.count(f) ? NeverReturns[f]
                                                                  : noretKind(f->getName());
                            if (k == "throw") thr = true;
                            if (k == "assert") as = true;
                            if (k == "abort") ab = true;
                        }
                    }
            }
            for (auto* n : successors(b)) {
                if (auto* inv = dyn_cast<InvokeInst>(b->getTerminator()))
                    if (n == inv->getUnwindDest()) continue;
                st.push_back(n);
            }
        }
        if (as) return "assert";
        if (thr) return "throw";
        if (res) return "unwind";
        if (ab) return "abort";
        (void)any;
        return "ub";
    };
    bool changed = false;
    std::map<BasicBlock*, std::string> kinds;
    for (auto* b : entries) kinds[b] = kindOf(b);
    for (auto* b : entries) {
        std::string k = kinds[b];
        if (k == "ub") {
            Instruction* f = b->getFirstNonPHI();
            if (isa<UnreachableInst>(f)) continue;
        }
        // invoke with unwind edge into a dead region: becomes a plain call
        if (b->isLandingPad()) {
            for (auto* p : SmallVector<BasicBlock*, 4>(predecessors(b))) removeUnwindEdge(p);
            changed = true;
            continue;
        }
        Instruction* f = &*b->getFirstInsertionPt();
        if (auto* ci = dyn_cast<CallInst>(f))
            if (auto* cf = ci->getCalledFunction())
                if (cf->getName().starts_with("vp.exit.")) continue;
        DebugLoc dl = f->getDebugLoc();
        for (auto& I : *b)
            if (I.getDebugLoc()) { dl = I.getDebugLoc(); break; }
        IRBuilder<> B(f);
        auto* c = B.CreateCall(mk(*F.getParent(), k));
        c->setDebugLoc(dl ? dl : DebugLoc());
        changeToUnreachable(f);
        changed = true;
    }
    removeUnreachableBlocks(F);
    return changed;
}

static FunctionCallee mkExit(Module& M, const std::string& k) {
    auto fc = M.getOrInsertFunction("vp.exit." + k, Type::getVoidTy(M.getContext()));
    if (auto* f = dyn_cast<Function>(fc.getCallee())) {
        f->addFnAttr(Attribute::NoReturn);
        f->addFnAttr(Attribute::NoMerge);
    }
    return fc;
}

int main(int argc, char** argv) {
    std::string in = argv[1], out = argv[2];
    std::string pipeline;
    bool dump = false;
    for (int i = 3; i < argc; ++i) {
        std::string a = argv[i];
        if (a.rfind("--noinline=", 0) == 0) NoInline.emplace_back(a.substr(11));
        else if (a.rfind("--root=", 0) == 0) Roots.insert(a.substr(7));
        else if (a.rfind("--pipeline=", 0) == 0) pipeline = a.substr(11);
        else if (a == "--dump") dump = true;
        else { errs() << "bad arg " << a << "\n"; return 2; }
    }
    LLVMContext Ctx;
    SMDiagnostic Err;
    auto M = parseIRFile(in, Err, Ctx);
    if (!M) { Err.print("irx", errs()); return 2; }
    DL = &M->getDataLayout();

    std::set<Function*> keep;
    for (auto& F : *M) {
        if (F.isDeclaration()) continue;
        F.removeFnAttr(Attribute::OptimizeNone);
        F.removeFnAttr(Attribute::NoInline);
        F.removeFnAttr(Attribute::AlwaysInline);
        std::string d = demangle(F.getName().str());
        bool root = Roots.count(F.getName().str()) || F.getName().starts_with("vp_");
        bool ni = root;
        for (auto& r : NoInline)
            if (std::regex_search(d, r) || std::regex_search(F.getName().str(), r)) ni = true;
        if (ni) { keep.insert(&F); F.addFnAttr(Attribute::NoInline); }
        if (!root) {
            if (F.hasAvailableExternallyLinkage() || true) {
                if (!F.isDeclaration()) { F.setComdat(nullptr); F.setLinkage(GlobalValue::InternalLinkage); F.setVisibility(GlobalValue::DefaultVisibility); }
            }
        }
    }
    // 0. functions that never return normally
    for (bool ch = true; ch;) {
        ch = false;
        for (auto& F : *M) {
            if (NeverReturns.count(&F)) continue;
            if (F.isDeclaration()) {
                if (F.doesNotReturn()) { NeverReturns[&F] = noretKind(F.getName()); ch = true; }
                continue;
            }
            // can entry reach a ret through blocks without never-returning calls?
            std::set<BasicBlock*> seen;
            std::vector<BasicBlock*> st{&F.getEntryBlock()};
            bool ret = false;
            std::string kind = "ub";
            while (!st.empty() && !ret) {
                auto* b = st.back();
                st.pop_back();
                if (!seen.insert(b).second) continue;
                bool never = false;
                for (auto& I : *b)
                    if (auto* cb = dyn_cast<CallBase>(&I))
                        if (auto* f = cb->getCalledFunction())
                            if (NeverReturns.count(f)) { never = true; if (kind != "assert") kind = NeverReturns[f]; }
                if (!never && isa<ReturnInst>(b->getTerminator())) { ret = true; break; }
                for (auto* s : successors(b)) {
                    if (never) {
                        auto* inv = dyn_cast<InvokeInst>(b->getTerminator());
                        if (!(inv && inv->getUnwindDest() == s)) continue;
                    }
                    st.push_back(s);
                }
            }
            if (!ret) { NeverReturns[&F] = kind; ch = true; }
        }
    }
    // 1. cut
    for (auto& F : *M) {
        if (F.isDeclaration()) continue;
        for (int it = 0; it < 6 && cutFunction(F, mkExit); ++it) {}
    }
    // Never-returning functions: calls to them are exits already (blocks were cut); drop bodies
    for (auto& F : *M)
        if (!F.isDeclaration() && NeverReturns.count(&F) && !keep.count(&F)) F.deleteBody();

    // 2. inline all
    {
        // recursive functions must stay
        CallGraph CG(*M);
        for (auto it = scc_begin(&CG); !it.isAtEnd(); ++it)
            if (it.hasCycle())
                for (auto* n : *it)
                    if (n->getFunction() && !n->getFunction()->isDeclaration()) {
                        keep.insert(n->getFunction());
                        n->getFunction()->addFnAttr(Attribute::NoInline);
                    }
    }
    for (auto& F : *M)
        if (!F.isDeclaration() && !keep.count(&F)) F.addFnAttr(Attribute::AlwaysInline);

    PassBuilder PB;
    LoopAnalysisManager LAM;
    FunctionAnalysisManager FAM;
    CGSCCAnalysisManager CGAM;
    ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM);
    PB.registerCGSCCAnalyses(CGAM);
    PB.registerFunctionAnalyses(FAM);
    PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    if (pipeline.empty())
        pipeline = "always-inline,globaldce,function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,"
                   "sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg,adce,"
                   "loop-simplify,instnamer),globaldce";
    if (auto e = PB.parsePassPipeline(MPM, pipeline)) {
        errs() << toString(std::move(e)) << "\n";
        return 2;
    }
    MPM.run(*M, MAM);
    // EH left-overs that appear only after inlining
    for (auto& F : *M) {
        if (F.isDeclaration()) continue;
        for (int it = 0; it < 6 && cutFunction(F, mkExit); ++it) {}
    }
    {
        ModulePassManager M2;
        cantFail(PB.parsePassPipeline(
            M2, "function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg,adce,loop-simplify,instnamer),globaldce"));
        MAM.clear();
        FAM.clear();
        LAM.clear();
        CGAM.clear();
        M2.run(*M, MAM);
    }
    if (dump) M->print(errs(), nullptr);

    json::Object fns, globals;
    for (auto& G : M->globals()) {
        json::Object g;
        g["const"] = G.isConstant();
        g["size"] = (int64_t)DL->getTypeAllocSize(G.getValueType()).getFixedValue();
        g["t"] = tyJ(G.getValueType());
        if (G.hasInitializer() && DL->getTypeAllocSize(G.getValueType()).getFixedValue() <= 65536)
            g["init"] = constJ(G.getInitializer());
        globals[G.getName().str()] = std::move(g);
    }
    for (auto& F : *M) {
        if (F.isDeclaration()) continue;
        Names.clear();
        int n = 0;
        std::vector<json::Value> blocks;
        json::Array params;
        int ai = 0;
        for (auto& A : F.args()) {
            Names[&A] = "%a" + std::to_string(ai++);
            params.push_back(json::Object{
                {"n", Names[&A]},
                {"t", tyJ(A.getType())},
                {"byval", A.hasByValAttr()},
                {"sret", A.hasStructRetAttr()}});
        }
        for (auto& B : F) {
            Names[&B] = "b" + std::to_string(n++);
            for (auto& I : B) Names[&I] = "%" + std::to_string(n++);
        }
        DominatorTree DT(F);
        LoopInfo LI(DT);
        json::Array jb;
        for (auto& B : F) {
            json::Object o;
            o["n"] = Names[&B];
            json::Array is;
            for (auto& I : B) {
                if (isa<DbgInfoIntrinsic>(&I)) continue;
                is.push_back(instJ(I));
            }
            o["i"] = std::move(is);
            jb.push_back(std::move(o));
        }
        json::Array loops;
        for (auto* L : LI.getLoopsInPreorder()) {
            json::Array bs;
            for (auto* b : L->blocks()) bs.push_back(Names[b]);
            json::Object o;
            o["header"] = Names[L->getHeader()];
            o["blocks"] = std::move(bs);
            o["depth"] = (int64_t)L->getLoopDepth();
            loops.push_back(std::move(o));
        }
        fns[F.getName().str()] = json::Object{
            {"params", std::move(params)},
            {"ret", tyJ(F.getReturnType())},
            {"dem", demangle(F.getName().str())},
            {"blocks", std::move(jb)},
            {"loops", std::move(loops)}};
    }
    std::error_code ec;
    raw_fd_ostream os(out, ec);
    os << json::Value(json::Object{{"functions", std::move(fns)}, {"globals", std::move(globals)}});
    return 0;
}
