// irdump: prints selected functions of an LLVM module as JSON, one function per line.
//   irdump in.ll [regex]      functions whose mangled name matches regex (default: all defined)
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/ADT/MapVector.h>
#include <map>
#include <regex>
using namespace llvm;
static const DataLayout* DL;
static std::map<const Value*, int> ids;
static std::string tystr(Type* t) { std::string s; raw_string_ostream o(s); t->print(o, false, true); return o.str(); }
static json::Value opnd(const Value* v);
static json::Value gepval(const GEPOperator* g) {
    unsigned bw = DL->getIndexTypeSizeInBits(g->getType());
    MapVector<Value*, APInt> vars; APInt c(bw, 0);
    json::Object o;
    if (g->getType()->isPointerTy() && g->collectOffset(*DL, bw, vars, c)) {
        json::Array a;
        for (auto& kv : vars) a.push_back(json::Array{opnd(kv.first), kv.second.getSExtValue()});
        o["op"] = "gep"; o["base"] = opnd(g->getPointerOperand()); o["off"] = c.getSExtValue(); o["vars"] = std::move(a);
        if (g->getNumIndices()) o["src"] = tystr(g->getSourceElementType());
    } else { o["op"] = "gep?"; }
    return o;
}
static json::Value opnd(const Value* v) {
    if (auto* ci = dyn_cast<ConstantInt>(v)) {
        SmallString<40> s; ci->getValue().toStringSigned(s);
        return json::Object{{"c", std::string(s.str())}, {"w", ci->getBitWidth()}};
    }
    if (auto* cf = dyn_cast<ConstantFP>(v)) {
        bool li; APFloat f = cf->getValueAPF();
        if (&f.getSemantics() == &APFloat::IEEEdouble() || &f.getSemantics() == &APFloat::IEEEsingle()) {
            double d = &f.getSemantics() == &APFloat::IEEEdouble() ? f.convertToDouble() : (double)f.convertToFloat();
            char b[64]; snprintf(b, sizeof b, "%a", d); return json::Object{{"f", std::string(b)}};
        }
        f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
        char b[64]; snprintf(b, sizeof b, "%a", f.convertToDouble());
        return json::Object{{"f", std::string(b)}, {"inexact", li}};
    }
    if (isa<ConstantPointerNull>(v)) return json::Object{{"null", 1}};
    if (isa<PoisonValue>(v) || isa<UndefValue>(v)) return json::Object{{"undef", 1}};
    if (auto* g = dyn_cast<GlobalValue>(v)) {
        json::Object o{{"g", g->getName().str()}};
        if (auto* gv = dyn_cast<GlobalVariable>(g)) { o["const"] = gv->isConstant(); o["tls"] = gv->isThreadLocal(); }
        return o;
    }
    if (isa<ConstantAggregateZero>(v)) return json::Object{{"zero", 1}, {"ty", tystr(v->getType())}};
    if (auto* ca = dyn_cast<ConstantDataSequential>(v)) {
        json::Array a; for (unsigned i = 0; i < ca->getNumElements(); ++i) a.push_back(opnd(ca->getElementAsConstant(i)));
        return json::Object{{"agg", std::move(a)}};
    }
    if (auto* ca = dyn_cast<ConstantAggregate>(v)) {
        json::Array a; for (auto& u : ca->operands()) a.push_back(opnd(u.get()));
        return json::Object{{"agg", std::move(a)}};
    }
    if (auto* ce = dyn_cast<ConstantExpr>(v)) {
        if (auto* g = dyn_cast<GEPOperator>(ce)) return json::Object{{"ce", gepval(g)}};
        json::Array a; for (auto& u : ce->operands()) a.push_back(opnd(u.get()));
        return json::Object{{"ce", json::Object{{"op", ce->getOpcodeName()}, {"ops", std::move(a)}}}};
    }
    auto it = ids.find(v);
    if (it != ids.end()) return json::Object{{"v", it->second}};
    if (isa<MetadataAsValue>(v)) return json::Object{{"md", 1}};
    if (isa<InlineAsm>(v)) return json::Object{{"asm", 1}};
    return json::Object{{"?", 1}};
}
int main(int argc, char** argv) {
    LLVMContext ctx; SMDiagnostic err;
    auto M = parseIRFile(argv[1], err, ctx);
    if (!M) { err.print(argv[0], errs()); return 2; }
    DL = &M->getDataLayout();
    std::regex re(argc > 2 ? argv[2] : ".*");
    for (auto& G : M->globals()) {
        if (!G.hasInitializer()) continue;
        if (!G.isConstant()) { json::Object go{{"global", G.getName().str()}, {"const", false}, {"tls", G.isThreadLocal()}, {"ty", tystr(G.getValueType())}, {"dem", demangle(G.getName().str())}};
            if (G.hasInitializer() && G.getInitializer()->isNullValue()) { go["size"] = (int64_t)DL->getTypeAllocSize(G.getValueType()); go["init"] = json::Object{{"zero", true}}; }
            outs() << json::Value(std::move(go)) << "\n"; continue; }
        if (DL->getTypeAllocSize(G.getValueType()) > 4096) continue;
        outs() << json::Value(json::Object{{"global", G.getName().str()}, {"const", true}, {"size", (int64_t)DL->getTypeAllocSize(G.getValueType())}, {"init", opnd(G.getInitializer())}, {"ty", tystr(G.getValueType())}, {"esz", G.getValueType()->isArrayTy() ? (int64_t)DL->getTypeAllocSize(G.getValueType()->getArrayElementType()) : 0}}) << "\n";
    }
    for (auto& F : *M) {
        if (F.isDeclaration()) continue;
        if (!std::regex_search(F.getName().str(), re)) continue;
        ids.clear(); int n = 0;
        json::Array params;
        for (auto& A : F.args()) {
            ids[&A] = n++;
            json::Object p{{"id", ids[&A]}, {"ty", tystr(A.getType())}};
            if (A.hasStructRetAttr()) p["sret"] = true;
            if (A.hasByValAttr()) p["byval"] = true;
            if (A.hasNoAliasAttr()) p["noalias"] = true;
            params.push_back(std::move(p));
        }
        std::map<const BasicBlock*, int> bid; int bn = 0;
        for (auto& B : F) { bid[&B] = bn++; for (auto& I : B) ids[&I] = n++; }
        json::Array blocks;
        for (auto& B : F) {
            json::Array ins;
            for (auto& I : B) {
                if (isa<DbgInfoIntrinsic>(I)) continue;
                if (auto* ii = dyn_cast<IntrinsicInst>(&I)) {
                    auto id = ii->getIntrinsicID();
                    if (((id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end) && !getenv("IRDUMP_LIFETIME")) || id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::assume) continue;
                }
                json::Object o{{"id", ids[&I]}, {"op", I.getOpcodeName()}, {"ty", tystr(I.getType())}};
                if (auto& dl = I.getDebugLoc()) {
                    auto* L = dl.get();
                    std::string f = L->getFilename().str();
                    auto p = f.rfind('/'); if (p != std::string::npos) f = f.substr(p + 1);
                    json::Array chain; chain.push_back(f + ":" + std::to_string(L->getLine()));
                    std::string fn; if (auto* sp = L->getScope()->getSubprogram()) fn = sp->getName().str();
                    for (auto* k = L->getInlinedAt(); k; k = k->getInlinedAt()) {
                        std::string g = k->getFilename().str(); auto q = g.rfind('/'); if (q != std::string::npos) g = g.substr(q + 1);
                        chain.push_back(g + ":" + std::to_string(k->getLine()));
                    }
                    o["loc"] = std::move(chain); o["fn"] = fn;
                }
                if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
                    auto gv = gepval(cast<GEPOperator>(g)); for (auto& kv : *gv.getAsObject()) if (kv.first != "op") o[kv.first] = kv.second; else o["op"] = kv.second;
                } else if (auto* a = dyn_cast<AllocaInst>(&I)) {
                    auto s = a->getAllocationSize(*DL); o["size"] = s ? (int64_t)s->getFixedValue() : -1; o["aty"] = tystr(a->getAllocatedType());
                } else if (auto* l = dyn_cast<LoadInst>(&I)) {
                    o["ptr"] = opnd(l->getPointerOperand()); o["size"] = (int64_t)DL->getTypeStoreSize(l->getType()).getFixedValue();
                    if (l->isAtomic()) o["atomic"] = (int)l->getOrdering(); if (l->isVolatile()) o["volatile"] = true;
                } else if (auto* s = dyn_cast<StoreInst>(&I)) {
                    o["ptr"] = opnd(s->getPointerOperand()); o["val"] = opnd(s->getValueOperand()); o["size"] = (int64_t)DL->getTypeStoreSize(s->getValueOperand()->getType()).getFixedValue();
                    o["vty"] = tystr(s->getValueOperand()->getType());
                    if (s->isAtomic()) o["atomic"] = (int)s->getOrdering(); if (s->isVolatile()) o["volatile"] = true;
                } else if (auto* c = dyn_cast<CmpInst>(&I)) {
                    o["pred"] = CmpInst::getPredicateName(c->getPredicate()).str(); o["ops"] = json::Array{opnd(c->getOperand(0)), opnd(c->getOperand(1))}; o["oty"] = tystr(c->getOperand(0)->getType());
                } else if (auto* p = dyn_cast<PHINode>(&I)) {
                    json::Array a; for (unsigned i = 0; i < p->getNumIncomingValues(); ++i) a.push_back(json::Array{opnd(p->getIncomingValue(i)), bid[p->getIncomingBlock(i)]});
                    o["in"] = std::move(a);
                } else if (auto* b = dyn_cast<BranchInst>(&I)) {
                    if (b->isConditional()) { o["cond"] = opnd(b->getCondition()); o["succ"] = json::Array{bid[b->getSuccessor(0)], bid[b->getSuccessor(1)]}; }
                    else o["succ"] = json::Array{bid[b->getSuccessor(0)]};
                } else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
                    o["cond"] = opnd(sw->getCondition()); json::Array cs;
                    for (auto& cse : sw->cases()) cs.push_back(json::Array{opnd(cse.getCaseValue()), bid[cse.getCaseSuccessor()]});
                    o["cases"] = std::move(cs); o["default"] = bid[sw->getDefaultDest()];
                } else if (auto* cb = dyn_cast<CallBase>(&I)) {
                    auto* f = cb->getCalledFunction();
                    if (f) { o["callee"] = f->getName().str(); o["dem"] = f->isIntrinsic() ? f->getName().str() : demangle(f->getName().str()); }
                    else o["fptr"] = opnd(cb->getCalledOperand());
                    json::Array a; json::Array bv;
                    for (unsigned i = 0; i < cb->arg_size(); ++i) { a.push_back(opnd(cb->getArgOperand(i))); if (cb->isByValArgument(i)) bv.push_back((int)i); }
                    o["args"] = std::move(a); if (!bv.empty()) o["byval"] = std::move(bv);
                    if (cb->doesNotThrow()) o["nounwind"] = true; if (cb->doesNotAccessMemory()) o["readnone"] = true; else if (cb->onlyReadsMemory()) o["readonly"] = true;
                    if (cb->doesNotReturn()) o["noreturn"] = true;
                    if (auto* iv = dyn_cast<InvokeInst>(&I)) { o["normal"] = bid[iv->getNormalDest()]; o["unwind"] = bid[iv->getUnwindDest()]; }
                } else if (auto* ev = dyn_cast<ExtractValueInst>(&I)) {
                    o["ops"] = json::Array{opnd(ev->getOperand(0))}; json::Array ix; for (auto i : ev->indices()) ix.push_back((int)i); o["idx"] = std::move(ix);
                } else if (auto* iv = dyn_cast<InsertValueInst>(&I)) {
                    o["ops"] = json::Array{opnd(iv->getOperand(0)), opnd(iv->getOperand(1))}; json::Array ix; for (auto i : iv->indices()) ix.push_back((int)i); o["idx"] = std::move(ix);
                } else {
                    json::Array a; for (auto& u : I.operands()) a.push_back(opnd(u.get())); o["ops"] = std::move(a);
                    if (I.getNumOperands()) o["oty"] = tystr(I.getOperand(0)->getType());
                    if (auto* rmw = dyn_cast<AtomicRMWInst>(&I)) o["rmw"] = AtomicRMWInst::getOperationName(rmw->getOperation()).str();
                    if (auto* lp = dyn_cast<LandingPadInst>(&I)) { o["cleanup"] = lp->isCleanup(); o["clauses"] = (int)lp->getNumClauses(); bool all = false; for (unsigned i = 0; i < lp->getNumClauses(); ++i) if (lp->isCatch(i) && isa<ConstantPointerNull>(lp->getClause(i))) all = true; o["catchall"] = all; }
                }
                ins.push_back(std::move(o));
            }
            blocks.push_back(std::move(ins));
        }
        outs() << json::Value(json::Object{{"name", F.getName().str()}, {"dem", demangle(F.getName().str())}, {"params", std::move(params)}, {"blocks", std::move(blocks)}}) << "\n";
    }
    return 0;
}
