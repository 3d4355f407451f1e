// irexport: dump an LLVM module as JSON for the Python abstract interpreter.
// usage: irexport in.bc out.json
#include "llvm/ADT/MapVector.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/GlobalVariable.h"
#include "llvm/IR/InstrTypes.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
using namespace llvm;
static const DataLayout* DL;
static json::OStream* J;

static void type(Type* T)
{
    json::OStream& j = *J;
    if (T->isIntegerTy()) j.value(("i" + Twine(T->getIntegerBitWidth())).str());
    else if (T->isPointerTy()) j.value("ptr");
    else if (T->isFloatTy()) j.value("float");
    else if (T->isDoubleTy()) j.value("double");
    else if (T->isVoidTy()) j.value("void");
    else if (auto* S = dyn_cast<StructType>(T)) {
        j.arrayBegin(); j.value("s");
        if (S->isOpaque()) { j.value(0); j.arrayBegin(); j.arrayEnd(); j.arrayEnd(); return; }
        const StructLayout* L = DL->getStructLayout(S);
        j.value((int64_t)L->getSizeInBytes());
        j.arrayBegin();
        for (unsigned i = 0; i < S->getNumElements(); ++i) {
            j.arrayBegin(); j.value((int64_t)L->getElementOffset(i)); type(S->getElementType(i)); j.arrayEnd();
        }
        j.arrayEnd(); j.arrayEnd();
    }
    else if (auto* A = dyn_cast<ArrayType>(T)) {
        j.arrayBegin(); j.value("a"); j.value((int64_t)A->getNumElements());
        j.value((int64_t)DL->getTypeAllocSize(A->getElementType())); type(A->getElementType()); j.arrayEnd();
    }
    else if (T->isX86_FP80Ty()) j.value("x86_fp80");
    else { std::string s; raw_string_ostream o(s); T->print(o); j.value("?" + o.str()); }
}
static int64_t tsize(Type* T) { return T->isSized() ? (int64_t)DL->getTypeAllocSize(T) : 0; }

static DenseMap<const Value*, int> ids;

static void cst(const Constant* C)
{
    json::OStream& j = *J;
    if (auto* I = dyn_cast<ConstantInt>(C)) {
        j.arrayBegin(); j.value("c"); j.value((int64_t)I->getBitWidth());
        if (I->getBitWidth() <= 64) j.value((uint64_t)I->getZExtValue());
        else { SmallString<40> s; I->getValue().toStringUnsigned(s); j.value(s.str()); }
        j.arrayEnd(); return;
    }
    if (isa<ConstantPointerNull>(C)) { j.arrayBegin(); j.value("n"); j.arrayEnd(); return; }
    if (isa<UndefValue>(C)) { j.arrayBegin(); j.value("u"); j.arrayEnd(); return; }
    if (auto* F = dyn_cast<ConstantFP>(C)) {
        SmallString<40> s; F->getValueAPF().toString(s);
        j.arrayBegin(); j.value("f"); j.value(s.str()); j.arrayEnd(); return;
    }
    if (auto* G = dyn_cast<GlobalValue>(C)) {
        if (auto* GA = dyn_cast<GlobalAlias>(G)) { cst(GA->getAliasee()); return; }
        j.arrayBegin(); j.value("g"); j.value(G->getName()); j.value(0); j.arrayEnd(); return;
    }
    if (isa<ConstantAggregateZero>(C)) { j.arrayBegin(); j.value("z"); type(C->getType()); j.value(tsize(C->getType())); j.arrayEnd(); return; }
    if (auto* D = dyn_cast<ConstantDataSequential>(C)) {
        j.arrayBegin(); j.value("A"); j.value((int64_t)DL->getTypeAllocSize(D->getElementType()));
        j.arrayBegin();
        for (unsigned i = 0; i < D->getNumElements(); ++i) cst(D->getElementAsConstant(i));
        j.arrayEnd(); j.arrayEnd(); return;
    }
    if (auto* A = dyn_cast<ConstantArray>(C)) {
        j.arrayBegin(); j.value("A"); j.value((int64_t)DL->getTypeAllocSize(A->getType()->getElementType()));
        j.arrayBegin();
        for (auto& o : A->operands()) cst(cast<Constant>(o));
        j.arrayEnd(); j.arrayEnd(); return;
    }
    if (auto* S = dyn_cast<ConstantStruct>(C)) {
        const StructLayout* L = DL->getStructLayout(S->getType());
        j.arrayBegin(); j.value("S"); j.arrayBegin();
        for (unsigned i = 0; i < S->getNumOperands(); ++i) {
            j.arrayBegin(); j.value((int64_t)L->getElementOffset(i)); cst(cast<Constant>(S->getOperand(i))); j.arrayEnd();
        }
        j.arrayEnd(); j.arrayEnd(); return;
    }
    if (auto* E = dyn_cast<ConstantExpr>(C)) {
        if (auto* GEP = dyn_cast<GEPOperator>(E)) {
            APInt off(64, 0);
            if (GEP->accumulateConstantOffset(*DL, off)) {
                if (auto* G = dyn_cast<GlobalValue>(GEP->getPointerOperand())) {
                    j.arrayBegin(); j.value("g"); j.value(G->getName()); j.value((int64_t)off.getSExtValue()); j.arrayEnd(); return;
                }
                if (isa<ConstantPointerNull>(GEP->getPointerOperand())) {
                    j.arrayBegin(); j.value("n"); j.value((int64_t)off.getSExtValue()); j.arrayEnd(); return;
                }
            }
        }
        if (E->isCast()) { cst(E->getOperand(0)); return; }
    }
    std::string s; raw_string_ostream o(s); C->print(o);
    j.arrayBegin(); j.value("?"); j.value(o.str()); j.arrayEnd();
}
static void val(const Value* V)
{
    json::OStream& j = *J;
    if (auto* C = dyn_cast<Constant>(V)) { cst(C); return; }
    if (auto it = ids.find(V); it != ids.end()) { j.arrayBegin(); j.value("r"); j.value(it->second); j.arrayEnd(); return; }
    j.arrayBegin(); j.value("m"); j.arrayEnd();  // metadata, label, asm
}

int main(int argc, char** argv)
{
    if (argc < 3) return 2;
    LLVMContext ctx; SMDiagnostic err;
    auto M = parseIRFile(argv[1], err, ctx);
    if (!M) { err.print("irexport", errs()); return 2; }
    DL = &M->getDataLayout();
    std::error_code ec; raw_fd_ostream out(argv[2], ec);
    json::OStream j(out); J = &j;
    j.objectBegin();
    j.attributeBegin("globals"); j.objectBegin();
    for (auto& G : M->globals()) {
        j.attributeBegin(G.getName()); j.objectBegin();
        j.attribute("const", G.isConstant());
        j.attribute("size", tsize(G.getValueType()));
        j.attribute("dem", demangle(G.getName().str()));
        j.attribute("internal", G.hasLocalLinkage());
        j.attribute("tls", G.isThreadLocal());
        j.attributeBegin("type"); type(G.getValueType()); j.attributeEnd();
        { std::string s; raw_string_ostream o(s); G.getValueType()->print(o, false, true); j.attribute("tyname", o.str()); }
        SmallVector<DIGlobalVariableExpression*, 1> gvs; G.getDebugInfo(gvs);
        if (!gvs.empty()) {
            auto* v = gvs[0]->getVariable();
            j.attribute("file", v->getFilename()); j.attribute("line", (int64_t)v->getLine());
        }
        if (G.hasInitializer()) { j.attributeBegin("init"); cst(G.getInitializer()); j.attributeEnd(); }
        j.objectEnd(); j.attributeEnd();
    }
    j.objectEnd(); j.attributeEnd();
    j.attributeBegin("functions"); j.objectBegin();
    for (auto& F : *M) {
        ids.clear(); int n = 0;
        j.attributeBegin(F.getName()); j.objectBegin();
        j.attribute("dem", demangle(F.getName().str()));
        {
            ItaniumPartialDemangler D;
            std::string nm = F.getName().str();
            if (!D.partialDemangle(nm.c_str()) && D.isFunction()) {
                auto put = [&](const char* k, char* p) { if (p) { j.attribute(k, StringRef(p)); std::free(p); } };
                put("base", D.getFunctionBaseName(nullptr, nullptr));
                put("ctx", D.getFunctionDeclContextName(nullptr, nullptr));
                put("prm", D.getFunctionParameters(nullptr, nullptr));
                j.attribute("cd", D.isCtorOrDtor());
            }
        }
        j.attribute("decl", F.isDeclaration());
        j.attribute("nounwind", F.doesNotThrow());
        j.attribute("noreturn", F.doesNotReturn());
        if (auto* SP = F.getSubprogram()) {
            j.attribute("file", SP->getFilename()); j.attribute("line", (int64_t)SP->getLine());
        }
        j.attributeBegin("ret"); type(F.getReturnType()); j.attributeEnd();
        j.attributeBegin("params"); j.arrayBegin();
        for (auto& A : F.args()) {
            ids[&A] = n++;
            j.objectBegin();
            j.attributeBegin("ty"); type(A.getType()); j.attributeEnd();
            j.attribute("name", A.getName());
            if (A.hasStructRetAttr()) j.attribute("sret", tsize(A.getParamStructRetType()));
            if (A.hasByValAttr()) j.attribute("byval", tsize(A.getParamByValType()));
            j.objectEnd();
        }
        j.arrayEnd(); j.attributeEnd();
        if (!F.isDeclaration()) {
            DenseMap<const BasicBlock*, int> bb; int b = 0;
            for (auto& B : F) { bb[&B] = b++; for (auto& I : B) ids[&I] = n++; }
            j.attribute("nregs", n);
            j.attributeBegin("blocks"); j.arrayBegin();
            for (auto& B : F) {
                j.arrayBegin();
                for (auto& I : B) {
                    if (I.isDebugOrPseudoInst()) continue;
                    j.objectBegin();
                    j.attribute("o", I.getOpcodeName());
                    j.attribute("i", ids[&I]);
                    j.attributeBegin("t"); type(I.getType()); j.attributeEnd();
                    if (auto& D = I.getDebugLoc()) {
                        j.attribute("l", (int64_t)D.getLine());
                        if (auto* sc = dyn_cast_or_null<DIScope>(D.getScope())) j.attribute("fl", sc->getFilename());
                    }
                    if (auto* O = dyn_cast<OverflowingBinaryOperator>(&I)) {
                        if (O->hasNoSignedWrap()) j.attribute("nsw", true);
                        if (O->hasNoUnsignedWrap()) j.attribute("nuw", true);
                    }
                    if (auto* A = dyn_cast<AllocaInst>(&I)) {
                        j.attribute("size", tsize(A->getAllocatedType()));
                        j.attribute("name", A->getName());
                        j.attributeBegin("aty"); type(A->getAllocatedType()); j.attributeEnd();
                    }
                    if (auto* C = dyn_cast<CmpInst>(&I)) j.attribute("p", CmpInst::getPredicateName(C->getPredicate()));
                    if (auto* L = dyn_cast<LoadInst>(&I)) { j.attribute("size", tsize(L->getType())); j.attribute("atomic", L->isAtomic()); }
                    if (auto* S = dyn_cast<StoreInst>(&I)) { j.attribute("size", tsize(S->getValueOperand()->getType()));
                        j.attributeBegin("vt"); type(S->getValueOperand()->getType()); j.attributeEnd(); }
                    if (isa<CastInst>(&I) || isa<CmpInst>(&I)) { j.attributeBegin("ft"); type(I.getOperand(0)->getType()); j.attributeEnd(); }
                    if (auto* X = dyn_cast<ExtractValueInst>(&I)) { j.attributeBegin("idx"); j.arrayBegin(); for (auto i : X->indices()) j.value((int64_t)i); j.arrayEnd(); j.attributeEnd(); }
                    if (auto* X = dyn_cast<InsertValueInst>(&I)) { j.attributeBegin("idx"); j.arrayBegin(); for (auto i : X->indices()) j.value((int64_t)i); j.arrayEnd(); j.attributeEnd(); }
                    if (auto* P = dyn_cast<PHINode>(&I)) {
                        j.attributeBegin("in"); j.arrayBegin();
                        for (unsigned k = 0; k < P->getNumIncomingValues(); ++k) {
                            j.arrayBegin(); j.value(bb[P->getIncomingBlock(k)]); val(P->getIncomingValue(k)); j.arrayEnd();
                        }
                        j.arrayEnd(); j.attributeEnd();
                    }
                    else if (auto* G = dyn_cast<GetElementPtrInst>(&I)) {
                        MapVector<Value*, APInt> var; APInt off(64, 0);
                        bool ok = cast<GEPOperator>(G)->collectOffset(*DL, 64, var, off);
                        j.attributeBegin("a"); j.arrayBegin(); val(G->getPointerOperand()); j.arrayEnd(); j.attributeEnd();
                        j.attribute("ok", ok);
                        j.attribute("off", (int64_t)off.getSExtValue());
                        j.attributeBegin("var"); j.arrayBegin();
                        for (auto& p : var) { j.arrayBegin(); val(p.first); j.value((int64_t)p.second.getSExtValue()); j.arrayEnd(); }
                        j.arrayEnd(); j.attributeEnd();
                    }
                    else if (auto* C = dyn_cast<CallBase>(&I)) {
                        j.attributeBegin("f"); val(C->getCalledOperand()); j.attributeEnd();
                        j.attributeBegin("a"); j.arrayBegin(); for (auto& a : C->args()) val(a.get()); j.arrayEnd(); j.attributeEnd();
                        j.attributeBegin("at"); j.arrayBegin(); for (auto& a : C->args()) type(a->getType()); j.arrayEnd(); j.attributeEnd();
                        j.attribute("nounwind", C->doesNotThrow());
                        for (unsigned k = 0; k < C->arg_size(); ++k) {
                            if (C->paramHasAttr(k, Attribute::StructRet)) j.attribute("sret", tsize(C->getParamStructRetType(k)));
                        }
                        if (auto* V = dyn_cast<InvokeInst>(C)) { j.attribute("n", bb[V->getNormalDest()]); j.attribute("u", bb[V->getUnwindDest()]); }
                    }
                    else if (auto* B = dyn_cast<BranchInst>(&I)) {
                        j.attributeBegin("a"); j.arrayBegin(); if (B->isConditional()) val(B->getCondition()); j.arrayEnd(); j.attributeEnd();
                        j.attributeBegin("d"); j.arrayBegin(); for (unsigned k = 0; k < B->getNumSuccessors(); ++k) j.value(bb[B->getSuccessor(k)]); j.arrayEnd(); j.attributeEnd();
                    }
                    else if (auto* S = dyn_cast<SwitchInst>(&I)) {
                        j.attributeBegin("a"); j.arrayBegin(); val(S->getCondition()); j.arrayEnd(); j.attributeEnd();
                        j.attribute("def", bb[S->getDefaultDest()]);
                        j.attributeBegin("cases"); j.arrayBegin();
                        for (auto& c : S->cases()) { j.arrayBegin(); j.value((uint64_t)c.getCaseValue()->getZExtValue()); j.value(bb[c.getCaseSuccessor()]); j.arrayEnd(); }
                        j.arrayEnd(); j.attributeEnd();
                    }
                    else if (auto* L = dyn_cast<LandingPadInst>(&I)) {
                        j.attribute("cleanup", L->isCleanup());
                        j.attributeBegin("clauses"); j.arrayBegin();
                        for (unsigned k = 0; k < L->getNumClauses(); ++k) { j.arrayBegin(); j.value(L->isCatch(k) ? "catch" : "filter"); val(L->getClause(k)); j.arrayEnd(); }
                        j.arrayEnd(); j.attributeEnd();
                    }
                    else {
                        j.attributeBegin("a"); j.arrayBegin(); for (auto& o : I.operands()) val(o.get()); j.arrayEnd(); j.attributeEnd();
                    }
                    j.objectEnd();
                }
                j.arrayEnd();
            }
            j.arrayEnd(); j.attributeEnd();
        }
        j.objectEnd(); j.attributeEnd();
    }
    j.objectEnd(); j.attributeEnd();
    j.objectEnd();
    return 0;
}
