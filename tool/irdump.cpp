// irdump: writes an LLVM module as JSON for the analyses in /verif/tool.
// It only translates (offsets of GEPs and struct layouts are resolved with the
// module's DataLayout); all reasoning is done by the Python side.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/ADT/SmallString.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include <map>
using namespace llvm;
static const DataLayout *DL;
static json::OStream *J;
static std::string tyName(Type *T) {
  std::string s; raw_string_ostream o(s);
  if (T->isStructTy() || T->isArrayTy()) {
    if (T->isStructTy()) {
      o << "{";
      auto *S = cast<StructType>(T);
      for (unsigned i = 0; i < S->getNumElements(); ++i) { if (i) o << ","; o << tyName(S->getElementType(i)); }
      o << "}";
    } else o << "[" << T->getArrayNumElements() << "x" << tyName(T->getArrayElementType()) << "]";
  } else T->print(o);
  return o.str();
}
static std::map<const Value *, int> ids;
static std::string fpStr(const APFloat &F) {
  // exact decimal-free rendering: hex bits with a type prefix
  SmallString<64> s; F.bitcastToAPInt().toString(s, 16, false);
  return std::string(s.str());
}
static void constant(const Constant *C);
static void operand(const Value *V) {
  if (auto *C = dyn_cast<Constant>(V)) { constant(C); return; }
  if (isa<MetadataAsValue>(V)) { J->arrayBegin(); J->value("md"); J->arrayEnd(); return; }
  if (isa<InlineAsm>(V)) { J->arrayBegin(); J->value("asm"); J->arrayEnd(); return; }
  auto it = ids.find(V);
  if (it == ids.end()) { J->arrayBegin(); J->value("unk"); J->arrayEnd(); return; }
  J->value(it->second);
}
static bool globalOff(const Constant *C, const GlobalValue *&G, int64_t &off) {
  if (auto *g = dyn_cast<GlobalValue>(C)) { G = g; off = 0; return true; }
  if (auto *e = dyn_cast<ConstantExpr>(C)) {
    if (auto *gep = dyn_cast<GEPOperator>(e)) {
      APInt o(64, 0);
      if (gep->accumulateConstantOffset(*DL, o)) {
        if (globalOff(cast<Constant>(gep->getPointerOperand()), G, off)) { off += o.getSExtValue(); return true; }
      }
    }
    if (e->isCast()) return globalOff(e->getOperand(0), G, off);
  }
  return false;
}
static void constant(const Constant *C) {
  const GlobalValue *G; int64_t off;
  if (auto *I = dyn_cast<ConstantInt>(C)) {
    J->arrayBegin(); J->value("c");
    if (I->getBitWidth() <= 64) J->value(I->getSExtValue()); else { SmallString<64> s; I->getValue().toStringSigned(s); J->value(s.str()); }
    J->value((int64_t)I->getBitWidth()); J->arrayEnd(); return;
  }
  if (auto *F = dyn_cast<ConstantFP>(C)) {
    J->arrayBegin(); J->value("f"); J->value(tyName(C->getType())); J->value(fpStr(F->getValueAPF())); J->arrayEnd(); return;
  }
  if (isa<ConstantPointerNull>(C)) { J->arrayBegin(); J->value("null"); J->arrayEnd(); return; }
  if (isa<UndefValue>(C)) { J->arrayBegin(); J->value("u"); J->value(tyName(C->getType())); J->arrayEnd(); return; }
  if (globalOff(C, G, off)) {
    if (auto *A = dyn_cast<GlobalAlias>(G)) { if (auto *O = A->getAliaseeObject()) G = O; }
    J->arrayBegin(); J->value("g"); J->value(G->getName()); J->value(off); J->arrayEnd(); return;
  }
  if (isa<ConstantAggregateZero>(C)) { J->arrayBegin(); J->value("z"); J->value(tyName(C->getType())); J->arrayEnd(); return; }
  if (isa<ConstantStruct>(C) || isa<ConstantArray>(C)) {
    J->arrayBegin(); J->value("agg");
    for (unsigned i = 0; i < C->getNumOperands(); ++i) constant(cast<Constant>(C->getOperand(i)));
    J->arrayEnd(); return;
  }
  J->arrayBegin(); J->value("ce"); { std::string s; raw_string_ostream o(s); C->print(o); J->value(o.str()); } J->arrayEnd();
}
// flatten an initialiser
static void flat(const Constant *C, uint64_t off) {
  Type *T = C->getType();
  if (isa<UndefValue>(C)) return;
  if (isa<ConstantAggregateZero>(C) ) {
    J->arrayBegin(); J->value(off); J->value("zero"); J->value((int64_t)DL->getTypeAllocSize(T).getFixedValue()); J->arrayEnd(); return;
  }
  if (auto *D = dyn_cast<ConstantDataSequential>(C)) {
    uint64_t es = DL->getTypeAllocSize(D->getElementType());
    for (unsigned i = 0; i < D->getNumElements(); ++i) flat(D->getElementAsConstant(i), off + i * es);
    return;
  }
  if (T->isStructTy()) {
    auto *L = DL->getStructLayout(cast<StructType>(T));
    for (unsigned i = 0; i < C->getNumOperands(); ++i) flat(cast<Constant>(C->getOperand(i)), off + L->getElementOffset(i));
    return;
  }
  if (T->isArrayTy()) {
    uint64_t es = DL->getTypeAllocSize(T->getArrayElementType());
    for (unsigned i = 0; i < C->getNumOperands(); ++i) flat(cast<Constant>(C->getOperand(i)), off + i * es);
    return;
  }
  J->arrayBegin(); J->value(off); J->value(tyName(T)); constant(C); J->arrayEnd();
}
static std::map<const DILocation *, int> locIds;
int main(int argc, char **argv) {
  LLVMContext Ctx; SMDiagnostic Err;
  auto M = parseIRFile(argv[1], Err, Ctx);
  if (!M) { Err.print("irdump", errs()); return 1; }
  DL = &M->getDataLayout();
  json::OStream JS(outs()); J = &JS;
  JS.objectBegin();
  JS.attributeBegin("globals"); JS.objectBegin();
  for (auto &G : M->globals()) {
    JS.attributeBegin(G.getName()); JS.objectBegin();
    JS.attribute("dem", demangle(G.getName().str()));
    JS.attribute("size", (int64_t)(G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()).getFixedValue() : 0));
    JS.attribute("const", G.isConstant());
    JS.attribute("tls", G.isThreadLocal());
    JS.attribute("decl", G.isDeclaration());
    JS.attribute("linkage", (int64_t)G.getLinkage());
    SmallVector<DIGlobalVariableExpression *, 2> gv; G.getDebugInfo(gv);
    if (!gv.empty()) { auto *v = gv[0]->getVariable(); JS.attribute("file", v->getFilename()); JS.attribute("dir", v->getDirectory()); JS.attribute("line", (int64_t)v->getLine()); JS.attribute("local", v->getScope() && isa<DILocalScope>(v->getScope())); bool cq = false; const DIType *T = v->getType(); for (int q = 0; q < 8 && T; ++q) { if (auto *dt = dyn_cast<DIDerivedType>(T)) { if (dt->getTag() == dwarf::DW_TAG_const_type) { cq = true; break; } if (dt->getTag() == dwarf::DW_TAG_typedef || dt->getTag() == dwarf::DW_TAG_volatile_type) { T = dt->getBaseType(); continue; } break; } if (auto *ct = dyn_cast<DICompositeType>(T)) { if (ct->getTag() == dwarf::DW_TAG_array_type) { T = ct->getBaseType(); continue; } break; } break; } JS.attribute("constq", cq); }
    if (G.hasInitializer()) { JS.attributeBegin("init"); JS.arrayBegin(); flat(G.getInitializer(), 0); JS.arrayEnd(); JS.attributeEnd(); }
    JS.objectEnd(); JS.attributeEnd();
  }
  JS.objectEnd(); JS.attributeEnd();
  std::map<std::string, int> fileIds; std::vector<std::string> files;
  auto fid = [&](const DIScope *S) { std::string f = S->getFilename().str(); if (!f.empty() && f[0] != '/') f = S->getDirectory().str() + "/" + f; auto it = fileIds.find(f); if (it != fileIds.end()) return it->second; int k = files.size(); fileIds[f] = k; files.push_back(f); return k; };
  JS.attributeBegin("functions"); JS.objectBegin();
  for (auto &F : *M) {
    if (F.isIntrinsic() && F.isDeclaration()) continue;
    JS.attributeBegin(F.getName()); JS.objectBegin();
    JS.attribute("dem", demangle(F.getName().str()));
    JS.attribute("decl", F.isDeclaration());
    JS.attribute("linkage", (int64_t)F.getLinkage());
    JS.attribute("nounwind", F.doesNotThrow());
    JS.attribute("noreturn", F.doesNotReturn());
    JS.attribute("va", F.isVarArg());
    JS.attribute("comdat", F.hasComdat());
    JS.attribute("ret", tyName(F.getReturnType()));
    if (auto *SP = F.getSubprogram()) { JS.attribute("file", (int64_t)fid(SP)); JS.attribute("line", (int64_t)SP->getLine()); JS.attribute("name", SP->getName()); JS.attribute("artificial", SP->isArtificial()); }
    ids.clear(); int k = 0;
    JS.attributeBegin("args"); JS.arrayBegin();
    for (auto &A : F.args()) {
      ids[&A] = k++;
      JS.arrayBegin(); JS.value(A.getName()); JS.value(tyName(A.getType()));
      JS.value(A.hasNoAliasAttr()); 
      int64_t bv = 0; if (A.hasByValAttr()) bv = DL->getTypeAllocSize(A.getParamByValType()).getFixedValue();
      JS.value(bv); JS.value(A.hasStructRetAttr());
      JS.arrayEnd();
    }
    JS.arrayEnd(); JS.attributeEnd();
    std::map<const BasicBlock *, int> bb; int nb = 0;
    for (auto &B : F) { bb[&B] = nb++; for (auto &I : B) ids[&I] = k++; }
    JS.attributeBegin("blocks"); JS.arrayBegin();
    for (auto &B : F) {
      JS.arrayBegin();
      for (auto &I : B) {
        if (auto *II = dyn_cast<IntrinsicInst>(&I)) {
          auto id = II->getIntrinsicID();
          if (isa<DbgInfoIntrinsic>(II) || id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::annotation) continue;
        }
        JS.arrayBegin();
        std::string op = I.getOpcodeName();
        JS.value(op); JS.value(ids[&I]); JS.value(tyName(I.getType()));
        if (auto &L = I.getDebugLoc()) { JS.arrayBegin(); JS.value((int64_t)L.getLine()); JS.value((int64_t)fid(cast<DIScope>(L->getScope()))); JS.arrayEnd(); } else JS.value(nullptr);
        switch (I.getOpcode()) {
        case Instruction::Alloca: { auto &A = cast<AllocaInst>(I); JS.value((int64_t)DL->getTypeAllocSize(A.getAllocatedType()).getFixedValue()); operand(A.getArraySize()); JS.value((int64_t)A.getAlign().value()); break; }
        case Instruction::Load: { auto &L = cast<LoadInst>(I); operand(L.getPointerOperand()); JS.value((int64_t)DL->getTypeStoreSize(I.getType()).getFixedValue()); JS.value((int64_t)L.getAlign().value()); break; }
        case Instruction::Store: { auto &S = cast<StoreInst>(I); operand(S.getValueOperand()); operand(S.getPointerOperand()); JS.value((int64_t)DL->getTypeStoreSize(S.getValueOperand()->getType()).getFixedValue()); JS.value(tyName(S.getValueOperand()->getType())); break; }
        case Instruction::GetElementPtr: {
          auto &G = cast<GetElementPtrInst>(I);
          MapVector<Value *, APInt> var; APInt c(64, 0);
          operand(G.getPointerOperand());
          if (G.collectOffset(*DL, 64, var, c)) {
            JS.value(c.getSExtValue());
            JS.arrayBegin();
            for (auto &p : var) { JS.arrayBegin(); operand(p.first); JS.value(p.second.getSExtValue()); JS.arrayEnd(); }
            JS.arrayEnd();
          } else { JS.value("bad"); }
          break; }
        case Instruction::PHI: { auto &P = cast<PHINode>(I); JS.arrayBegin(); for (unsigned i = 0; i < P.getNumIncomingValues(); ++i) { JS.arrayBegin(); JS.value(bb[P.getIncomingBlock(i)]); operand(P.getIncomingValue(i)); JS.arrayEnd(); } JS.arrayEnd(); break; }
        case Instruction::Br: { auto &Br = cast<BranchInst>(I); if (Br.isConditional()) { operand(Br.getCondition()); JS.value(bb[Br.getSuccessor(0)]); JS.value(bb[Br.getSuccessor(1)]); } else { JS.value(nullptr); JS.value(bb[Br.getSuccessor(0)]); } break; }
        case Instruction::Switch: { auto &S = cast<SwitchInst>(I); operand(S.getCondition()); JS.value(bb[S.getDefaultDest()]); JS.arrayBegin(); for (auto &c : S.cases()) { JS.arrayBegin(); JS.value(c.getCaseValue()->getSExtValue()); JS.value(bb[c.getCaseSuccessor()]); JS.arrayEnd(); } JS.arrayEnd(); break; }
        case Instruction::ICmp: case Instruction::FCmp: { auto &C = cast<CmpInst>(I); JS.value(CmpInst::getPredicateName(C.getPredicate())); operand(C.getOperand(0)); operand(C.getOperand(1)); JS.value(tyName(C.getOperand(0)->getType())); break; }
        case Instruction::Call: case Instruction::Invoke: {
          auto &C = cast<CallBase>(I);
          auto *cf = dyn_cast<Function>(C.getCalledOperand()->stripPointerCasts());
          if (cf) JS.value(cf->getName()); else operand(C.getCalledOperand());
          JS.arrayBegin();
          for (unsigned i = 0; i < C.arg_size(); ++i) operand(C.getArgOperand(i));
          JS.arrayEnd();
          if (auto *In = dyn_cast<InvokeInst>(&I)) { JS.value(bb[In->getNormalDest()]); JS.value(bb[In->getUnwindDest()]); } else { JS.value(nullptr); JS.value(nullptr); }
          JS.arrayBegin();
          for (unsigned i = 0; i < C.getNumOperandBundles(); ++i) { auto b = C.getOperandBundleAt(i); JS.arrayBegin(); JS.value(b.getTagName()); for (auto &u : b.Inputs) operand(u.get()); JS.arrayEnd(); }
          JS.arrayEnd();
          JS.arrayBegin(); // byval sizes
          for (unsigned i = 0; i < C.arg_size(); ++i) JS.value(C.isByValArgument(i) ? (int64_t)DL->getTypeAllocSize(C.getParamByValType(i)).getFixedValue() : (int64_t)0);
          JS.arrayEnd();
          break; }
        case Instruction::ExtractValue: { auto &E = cast<ExtractValueInst>(I); operand(E.getAggregateOperand()); JS.arrayBegin(); for (auto x : E.indices()) JS.value((int64_t)x); JS.arrayEnd(); break; }
        case Instruction::InsertValue: { auto &E = cast<InsertValueInst>(I); operand(E.getAggregateOperand()); operand(E.getInsertedValueOperand()); JS.arrayBegin(); for (auto x : E.indices()) JS.value((int64_t)x); JS.arrayEnd(); break; }
        case Instruction::LandingPad: { auto &L = cast<LandingPadInst>(I); JS.value(L.isCleanup()); JS.arrayBegin(); for (unsigned i = 0; i < L.getNumClauses(); ++i) constant(L.getClause(i)); JS.arrayEnd(); break; }
        case Instruction::AtomicRMW: { auto &A = cast<AtomicRMWInst>(I); JS.value(AtomicRMWInst::getOperationName(A.getOperation())); operand(A.getPointerOperand()); operand(A.getValOperand()); break; }
        default:
          JS.arrayBegin();
          for (auto &o : I.operands()) { if (isa<BasicBlock>(o.get())) JS.value(bb[cast<BasicBlock>(o.get())]); else operand(o.get()); }
          JS.arrayEnd();
          if (I.getNumOperands()) JS.value(tyName(I.getOperand(0)->getType()));
          break;
        }
        JS.arrayEnd();
      }
      JS.arrayEnd();
    }
    JS.arrayEnd(); JS.attributeEnd();
    JS.objectEnd(); JS.attributeEnd();
  }
  JS.objectEnd(); JS.attributeEnd();
  JS.attributeBegin("files"); JS.arrayBegin(); for (auto &f : files) JS.value(f); JS.arrayEnd(); JS.attributeEnd();
  // record layouts from debug info: name -> members
  JS.attributeBegin("records"); JS.objectBegin();
  std::map<std::string, const DICompositeType *> seen;
  {
    // walk all types reachable from subprograms
    std::vector<const Metadata *> st; std::map<const Metadata *, bool> vis;
    for (auto &F : *M) if (auto *S = F.getSubprogram()) st.push_back(S);
    while (!st.empty()) {
      auto *m = st.back(); st.pop_back(); if (!m || vis[m]) continue; vis[m] = true;
      if (auto *c = dyn_cast<DICompositeType>(m)) {
        if (!c->getIdentifier().empty() && (c->getTag() == dwarf::DW_TAG_class_type || c->getTag() == dwarf::DW_TAG_structure_type) && !c->isForwardDecl()) seen[c->getIdentifier().str()] = c;
      }
      if (auto *n = dyn_cast<MDNode>(m)) {
        if (auto *s = dyn_cast<DIScope>(m)) { if (isa<DIFile>(s) || isa<DICompileUnit>(s) || isa<DINamespace>(s)) continue; }
        for (auto &o : n->operands()) if (o) st.push_back(o.get());
      }
    }
  }
  for (auto &p : seen) {
    auto *c = p.second;
    std::string f = c->getFilename().str();
    JS.attributeBegin(demangle(p.first)); JS.objectBegin(); JS.attribute("name", c->getName()); JS.attribute("file", f); JS.attribute("size", (int64_t)c->getSizeInBits() / 8);
    JS.attributeBegin("members"); JS.arrayBegin();
    for (auto *e : c->getElements()) if (auto *d = dyn_cast<DIDerivedType>(e)) {
      if (d->isStaticMember()) continue;
      if (d->getTag() == dwarf::DW_TAG_member || d->getTag() == dwarf::DW_TAG_inheritance) {
        const DIType *bt = d->getBaseType(); std::string bn;
        while (bt && isa<DIDerivedType>(bt) && (bt->getTag() == dwarf::DW_TAG_typedef || bt->getTag() == dwarf::DW_TAG_const_type)) bt = cast<DIDerivedType>(bt)->getBaseType();
        if (bt) { if (auto *cc = dyn_cast<DICompositeType>(bt)) bn = cc->getIdentifier().empty() ? cc->getName().str() : demangle(cc->getIdentifier().str()); else bn = bt->getName().str(); if (isa<DIDerivedType>(bt) && bt->getTag() == dwarf::DW_TAG_pointer_type) bn = "*"; }
        JS.arrayBegin(); JS.value(d->getTag() == dwarf::DW_TAG_inheritance ? "" : d->getName()); JS.value((int64_t)d->getOffsetInBits() / 8); JS.value((int64_t)(bt ? bt->getSizeInBits() / 8 : 0)); JS.value(bn); JS.arrayEnd();
      }
    }
    JS.arrayEnd(); JS.attributeEnd();
    JS.objectEnd(); JS.attributeEnd();
  }
  JS.objectEnd(); JS.attributeEnd();
  JS.objectEnd();
  return 0;
}
