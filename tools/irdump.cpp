// Dumps an LLVM module (after mem2reg) as JSON for the Python analyses.
// Everything the analyses need is resolved here: byte offsets of GEPs, struct
// layouts from debug info, source lines, byval/sret attributes, flattened
// constant initialisers.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include <map>
#include <set>
using namespace llvm;
namespace J = llvm::json;

static const DataLayout *DL;
static std::map<const Value *, int> Ids;

static std::string tyKind(Type *T) {
  if (T->isPointerTy()) return "p";
  if (T->isIntegerTy()) return "i" + std::to_string(T->getIntegerBitWidth());
  if (T->isFloatTy()) return "f32";
  if (T->isDoubleTy()) return "f64";
  if (T->isX86_FP80Ty()) return "f80";
  if (T->isVoidTy()) return "void";
  if (T->isStructTy()) return "s";
  if (T->isArrayTy()) return "a";
  if (T->isVectorTy()) return "vec";
  return "?";
}
static J::Value val(const Value *V);

static J::Value constant(const Constant *C) {
  if (auto *CI = dyn_cast<ConstantInt>(C)) {
    unsigned bw = CI->getBitWidth();
    if (bw <= 64) return J::Array{"c", (int64_t)bw, CI->getSExtValue()};
    return J::Array{"u"};
  }
  if (isa<ConstantPointerNull>(C)) return J::Array{"n"};
  if (isa<UndefValue>(C)) return J::Array{"u"};
  if (auto *CF = dyn_cast<ConstantFP>(C)) {
    double d = CF->getValueAPF().convertToDouble();
    return J::Array{"f", d};
  }
  if (auto *GV = dyn_cast<GlobalValue>(C)) return J::Array{"g", GV->getName().str(), 0};
  if (auto *GEP = dyn_cast<GEPOperator>(C)) {
    APInt off(64, 0);
    if (GEP->accumulateConstantOffset(*DL, off)) {
      J::Value b = val(GEP->getPointerOperand());
      if (auto *arr = b.getAsArray())
        if ((*arr)[0].getAsString() && *(*arr)[0].getAsString() == "g")
          return J::Array{"g", (*arr)[1], *(*arr)[2].getAsInteger() + off.getSExtValue()};
    }
    return J::Array{"u"};
  }
  if (auto *CE = dyn_cast<ConstantExpr>(C)) {
    switch (CE->getOpcode()) {
    case Instruction::BitCast: case Instruction::AddrSpaceCast:
    case Instruction::PtrToInt: case Instruction::IntToPtr:
      return val(CE->getOperand(0));
    default: break;
    }
    return J::Array{"u"};
  }
  if (isa<ConstantAggregateZero>(C)) return J::Array{"z"};
  if (isa<ConstantAggregate>(C) || isa<ConstantDataSequential>(C)) {
    J::Array els;
    unsigned n = isa<ConstantDataSequential>(C) ? cast<ConstantDataSequential>(C)->getNumElements() : C->getNumOperands();
    for (unsigned i = 0; i < n; i++) els.push_back(constant(C->getAggregateElement(i)));
    return J::Array{"agg", std::move(els)};
  }
  return J::Array{"u"};
}
static J::Value val(const Value *V) {
  if (auto *C = dyn_cast<Constant>(V)) return constant(C);
  auto it = Ids.find(V);
  if (it != Ids.end()) return J::Array{"v", it->second};
  return J::Array{"u"};
}
static void flatten(const Constant *C, uint64_t off, J::Array &cells) {
  Type *T = C->getType();
  uint64_t sz = DL->getTypeStoreSize(T);
  if (auto *CDS = dyn_cast<ConstantDataSequential>(C)) {
    if (CDS->isString()) {
      std::string hex; static const char *H = "0123456789abcdef";
      for (unsigned char c : CDS->getAsString()) { hex += H[c >> 4]; hex += H[c & 15]; }
      cells.push_back(J::Array{(int64_t)off, (int64_t)sz, J::Array{"str", hex}});
      return;
    }
    uint64_t es = DL->getTypeAllocSize(CDS->getElementType());
    for (unsigned i = 0; i < CDS->getNumElements(); i++) flatten(CDS->getElementAsConstant(i), off + i * es, cells);
    return;
  }
  if (auto *CS = dyn_cast<ConstantStruct>(C)) {
    const StructLayout *SL = DL->getStructLayout(CS->getType());
    for (unsigned i = 0; i < CS->getNumOperands(); i++) flatten(CS->getOperand(i), off + SL->getElementOffset(i), cells);
    return;
  }
  if (auto *CA = dyn_cast<ConstantArray>(C)) {
    uint64_t es = DL->getTypeAllocSize(CA->getType()->getElementType());
    for (unsigned i = 0; i < CA->getNumOperands(); i++) flatten(CA->getOperand(i), off + i * es, cells);
    return;
  }
  if (isa<ConstantAggregateZero>(C) ) { cells.push_back(J::Array{(int64_t)off, (int64_t)DL->getTypeAllocSize(T), J::Array{"z"}}); return; }
  cells.push_back(J::Array{(int64_t)off, (int64_t)sz, constant(C)});
}
static J::Array loc(const Instruction &I) {
  const DebugLoc &D = I.getDebugLoc();
  if (!D) return J::Array{"", 0};
  // innermost scope's file
  return J::Array{cast<DIScope>(D.getScope())->getFilename().str(), (int64_t)D.getLine()};
}
static std::string diName(const DIType *T, std::string &kind, int depth = 0) {
  if (!T || depth > 12) { kind = "void"; return "void"; }
  if (auto *D = dyn_cast<DIDerivedType>(T)) {
    switch (D->getTag()) {
    case dwarf::DW_TAG_pointer_type: { std::string k; std::string s = diName(D->getBaseType(), k, depth + 1); kind = "ptr"; return s + "*"; }
    case dwarf::DW_TAG_typedef: {
      std::string k; std::string inner = diName(D->getBaseType(), k, depth + 1); kind = k;
      if (k == "struct" || k == "union" || k == "enum") { if (inner.empty()) return D->getName().str(); return inner; }
      if (k == "ptr") return inner;
      return D->getName().str(); }
    default: return diName(D->getBaseType(), kind, depth + 1);
    }
  }
  if (auto *C = dyn_cast<DICompositeType>(T)) {
    if (C->getTag() == dwarf::DW_TAG_array_type) { std::string k; std::string s = diName(C->getBaseType(), k, depth + 1); kind = "array"; return s + "[]"; }
    kind = C->getTag() == dwarf::DW_TAG_union_type ? "union" : C->getTag() == dwarf::DW_TAG_enumeration_type ? "enum" : "struct";
    return C->getName().str();
  }
  if (isa<DISubroutineType>(T)) { kind = "fn"; return "fn"; }
  kind = "basic"; return T->getName().str();
}
static J::Array members(const DICompositeType *C) {
  J::Array ms;
  for (auto *E : C->getElements()) {
    auto *M = dyn_cast<DIDerivedType>(E); if (!M) continue;
    std::string k; std::string n = diName(M->getBaseType(), k);
    J::Object o{{"name", M->getName().str()}, {"off", (int64_t)(M->getOffsetInBits() / 8)}, {"size", (int64_t)(M->getSizeInBits() / 8)}, {"type", n}, {"kind", k}};
    const DIType *B = M->getBaseType();
    while (auto *D = dyn_cast_or_null<DIDerivedType>(B)) { if (D->getTag() == dwarf::DW_TAG_pointer_type) break; B = D->getBaseType(); }
    if (auto *CC = dyn_cast_or_null<DICompositeType>(B)) if (CC->getTag() != dwarf::DW_TAG_array_type && CC->getTag() != dwarf::DW_TAG_enumeration_type && n.empty())
      o["members"] = members(CC);
    ms.push_back(std::move(o));
  }
  return ms;
}
int main(int argc, char **argv) {
  LLVMContext Ctx; SMDiagnostic Err;
  auto M = parseIRFile(argv[1], Err, Ctx);
  if (!M) { Err.print(argv[0], errs()); return 2; }
  DL = &M->getDataLayout();
  J::Object root; J::Object globals, funcs, structs, enums;
  for (auto &G : M->globals()) {
    J::Object o{{"const", G.isConstant()}, {"internal", G.hasLocalLinkage()}, {"decl", G.isDeclaration()}};
    if (G.getValueType()->isSized()) o["size"] = (int64_t)DL->getTypeAllocSize(G.getValueType());
    SmallVector<DIGlobalVariableExpression *, 1> dbg; G.getDebugInfo(dbg);
    if (!dbg.empty()) { auto *V = dbg[0]->getVariable(); o["name"] = V->getName().str(); o["file"] = V->getFilename().str(); o["line"] = (int64_t)V->getLine();
      std::string k; o["type"] = diName(V->getType(), k); o["kind"] = k; }
    if (G.hasInitializer()) { J::Array cells; flatten(G.getInitializer(), 0, cells); o["init"] = std::move(cells); }
    globals[G.getName()] = std::move(o);
  }
  DebugInfoFinder F; F.processModule(*M);
  auto putStruct = [&](StringRef name, const DICompositeType *C) {
    if (name.empty() || C->getElements().size() == 0) return;
    if (structs.find(name) != structs.end()) return;
    structs[name] = J::Object{{"size", (int64_t)(C->getSizeInBits() / 8)}, {"union", C->getTag() == dwarf::DW_TAG_union_type}, {"members", members(C)}};
  };
  auto putEnum = [&](const DICompositeType *C) {
    for (auto *E : C->getElements()) if (auto *En = dyn_cast<DIEnumerator>(E)) enums[En->getName()] = En->getValue().getSExtValue();
  };
  for (auto *T : F.types()) {
    if (auto *C = dyn_cast<DICompositeType>(T)) {
      if (C->getTag() == dwarf::DW_TAG_structure_type || C->getTag() == dwarf::DW_TAG_union_type) putStruct(C->getName(), C);
      if (C->getTag() == dwarf::DW_TAG_enumeration_type) putEnum(C);
    } else if (auto *D = dyn_cast<DIDerivedType>(T)) {
      if (D->getTag() == dwarf::DW_TAG_typedef)
        if (auto *C = dyn_cast_or_null<DICompositeType>(D->getBaseType()))
          if ((C->getTag() == dwarf::DW_TAG_structure_type || C->getTag() == dwarf::DW_TAG_union_type) && C->getName().empty()) putStruct(D->getName(), C);
    }
  }
  for (auto &Fn : *M) {
    if (Fn.isIntrinsic()) continue;
    J::Object fo{{"decl", Fn.isDeclaration()}, {"internal", Fn.hasLocalLinkage()}, {"vararg", Fn.isVarArg()}, {"ret", tyKind(Fn.getReturnType())}};
    if (auto *SP = Fn.getSubprogram()) { fo["file"] = SP->getFilename().str(); fo["line"] = (int64_t)SP->getLine(); fo["src"] = SP->getName().str();
      J::Array pts; if (auto *ST = SP->getType()) { for (auto *T : ST->getTypeArray()) { std::string k; pts.push_back(diName(T, k)); } } fo["ditypes"] = std::move(pts); }
    Ids.clear(); int n = 0;
    J::Array params;
    for (auto &A : Fn.args()) {
      Ids[&A] = n;
      J::Object p{{"id", n}, {"name", A.getName().str()}, {"ty", tyKind(A.getType())}};
      if (A.hasByValAttr()) p["byval"] = (int64_t)DL->getTypeAllocSize(A.getParamByValType());
      if (A.hasStructRetAttr()) p["sret"] = (int64_t)DL->getTypeAllocSize(A.getParamStructRetType());
      params.push_back(std::move(p)); n++;
    }
    fo["params"] = std::move(params);
    std::map<const BasicBlock *, int> bb; int bn = 0;
    for (auto &B : Fn) { bb[&B] = bn++; for (auto &I : B) Ids[&I] = n++; }
    J::Array blocks;
    std::map<const Value*, std::pair<std::string,std::string>> vnames;
    for (auto &B : Fn) for (auto &I : B) if (auto *D = dyn_cast<DbgVariableIntrinsic>(&I)) if (auto *V = D->getVariableLocationOp(0)) { std::string k; if (isa<Argument>(V) && !D->getVariable()->getArg()) continue; vnames.emplace(V, std::make_pair(D->getVariable()->getName().str(), diName(D->getVariable()->getType(), k))); }
    for (auto &B : Fn) {
      J::Array insts;
      for (auto &I : B) {
        if (isa<DbgInfoIntrinsic>(I)) continue;
        J::Object o{{"id", Ids[&I]}, {"loc", loc(I)}, {"ty", tyKind(I.getType())}};
        if (I.getType()->isSized() && !I.getType()->isVoidTy()) o["sz"] = (int64_t)DL->getTypeStoreSize(I.getType());
        { auto it = vnames.find(&I); if (it != vnames.end()) { o["var"] = it->second.first; o["vty"] = it->second.second; } }
        if (auto *A = dyn_cast<AllocaInst>(&I)) { o["op"] = "alloca"; auto s = A->getAllocationSize(*DL); o["size"] = s ? (int64_t)s->getFixedValue() : -1; if (!s) { o["n"] = val(A->getArraySize()); o["el"] = (int64_t)DL->getTypeAllocSize(A->getAllocatedType()); } }
        else if (auto *L = dyn_cast<LoadInst>(&I)) { o["op"] = "load"; o["p"] = val(L->getPointerOperand()); }
        else if (auto *S = dyn_cast<StoreInst>(&I)) { o["op"] = "store"; o["v"] = val(S->getValueOperand()); o["p"] = val(S->getPointerOperand()); o["ssz"] = (int64_t)DL->getTypeStoreSize(S->getValueOperand()->getType()); o["sty"] = tyKind(S->getValueOperand()->getType()); }
        else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
          o["op"] = "gep"; o["b"] = val(G->getPointerOperand());
          MapVector<Value *, APInt> vars; APInt off(64, 0);
          if (G->collectOffset(*DL, 64, vars, off)) { o["off"] = off.getSExtValue(); J::Array vs; for (auto &kv : vars) vs.push_back(J::Array{val(kv.first), kv.second.getSExtValue()}); o["vars"] = std::move(vs); }
          else o["bad"] = true;
        }
        else if (auto *C = dyn_cast<CallBase>(&I)) {
          o["op"] = "call";
          if (auto *Cf = C->getCalledFunction()) o["fn"] = Cf->getName().str(); else if (isa<InlineAsm>(C->getCalledOperand())) o["fn"] = "__asm__"; else o["fp"] = val(C->getCalledOperand());
          J::Array as; for (unsigned i = 0; i < C->arg_size(); i++) { Value *A = C->getArgOperand(i); J::Object a{{"v", val(A)}, {"ty", tyKind(A->getType())}};
            if (C->isByValArgument(i)) a["byval"] = (int64_t)DL->getTypeAllocSize(C->getParamByValType(i));
            if (C->paramHasAttr(i, Attribute::StructRet)) a["sret"] = (int64_t)DL->getTypeAllocSize(C->getParamStructRetType(i));
            as.push_back(std::move(a)); }
          o["args"] = std::move(as);
          o["nfix"] = (int64_t)C->getFunctionType()->getNumParams();
        }
        else if (auto *C = dyn_cast<ICmpInst>(&I)) { o["op"] = "icmp"; o["pred"] = C->getPredicateName(C->getPredicate()).str(); o["a"] = val(C->getOperand(0)); o["b"] = val(C->getOperand(1)); o["oty"] = tyKind(C->getOperand(0)->getType()); }
        else if (auto *C = dyn_cast<FCmpInst>(&I)) { o["op"] = "fcmp"; o["pred"] = C->getPredicateName(C->getPredicate()).str(); o["a"] = val(C->getOperand(0)); o["b"] = val(C->getOperand(1)); }
        else if (auto *P = dyn_cast<PHINode>(&I)) { o["op"] = "phi"; J::Array in; for (unsigned i = 0; i < P->getNumIncomingValues(); i++) in.push_back(J::Array{val(P->getIncomingValue(i)), bb[P->getIncomingBlock(i)]}); o["in"] = std::move(in); }
        else if (auto *Br = dyn_cast<BranchInst>(&I)) { o["op"] = "br"; if (Br->isConditional()) { o["c"] = val(Br->getCondition()); o["t"] = bb[Br->getSuccessor(0)]; o["f"] = bb[Br->getSuccessor(1)]; } else o["t"] = bb[Br->getSuccessor(0)]; }
        else if (auto *Sw = dyn_cast<SwitchInst>(&I)) { o["op"] = "switch"; o["c"] = val(Sw->getCondition()); o["d"] = bb[Sw->getDefaultDest()]; J::Array cs; for (auto &c : Sw->cases()) cs.push_back(J::Array{c.getCaseValue()->getSExtValue(), bb[c.getCaseSuccessor()]}); o["cases"] = std::move(cs); }
        else if (auto *R = dyn_cast<ReturnInst>(&I)) { o["op"] = "ret"; if (R->getReturnValue()) o["v"] = val(R->getReturnValue()); }
        else if (isa<UnreachableInst>(I)) o["op"] = "unreachable";
        else if (auto *S = dyn_cast<SelectInst>(&I)) { o["op"] = "select"; o["c"] = val(S->getCondition()); o["a"] = val(S->getTrueValue()); o["b"] = val(S->getFalseValue()); }
        else if (auto *B2 = dyn_cast<BinaryOperator>(&I)) { o["op"] = "bin"; o["bop"] = B2->getOpcodeName(); o["a"] = val(B2->getOperand(0)); o["b"] = val(B2->getOperand(1)); }
        else if (auto *Ca = dyn_cast<CastInst>(&I)) { o["op"] = "cast"; o["cop"] = Ca->getOpcodeName(); o["a"] = val(Ca->getOperand(0)); o["from"] = tyKind(Ca->getSrcTy()); }
        else if (auto *E = dyn_cast<ExtractValueInst>(&I)) {
          o["op"] = "extractvalue"; o["a"] = val(E->getAggregateOperand()); Type *T = E->getAggregateOperand()->getType(); uint64_t off = 0;
          for (unsigned ix : E->indices()) { if (auto *ST = dyn_cast<StructType>(T)) { off += DL->getStructLayout(ST)->getElementOffset(ix); T = ST->getElementType(ix); } else { T = T->getArrayElementType(); off += ix * DL->getTypeAllocSize(T); } }
          o["off"] = (int64_t)off; }
        else if (auto *E = dyn_cast<InsertValueInst>(&I)) {
          o["op"] = "insertvalue"; o["a"] = val(E->getAggregateOperand()); o["v"] = val(E->getInsertedValueOperand()); Type *T = E->getType(); uint64_t off = 0;
          for (unsigned ix : E->indices()) { if (auto *ST = dyn_cast<StructType>(T)) { off += DL->getStructLayout(ST)->getElementOffset(ix); T = ST->getElementType(ix); } else { T = T->getArrayElementType(); off += ix * DL->getTypeAllocSize(T); } }
          o["off"] = (int64_t)off; o["vsz"] = (int64_t)DL->getTypeStoreSize(E->getInsertedValueOperand()->getType()); }
        else if (I.getOpcode() == Instruction::Freeze) { o["op"] = "freeze"; o["a"] = val(I.getOperand(0)); }
        else if (I.getOpcode() == Instruction::FNeg) { o["op"] = "fneg"; o["a"] = val(I.getOperand(0)); }
        else { o["op"] = std::string("other:") + I.getOpcodeName(); J::Array os; for (auto &Op : I.operands()) os.push_back(val(Op)); o["ops"] = std::move(os); }
        insts.push_back(std::move(o));
      }
      blocks.push_back(std::move(insts));
    }
    fo["blocks"] = std::move(blocks);
    J::Object pn; for (auto &A : Fn.args()) { auto it = vnames.find(&A); if (it != vnames.end()) pn[std::to_string(Ids[&A])] = it->second.second; }
    fo["ptypes"] = std::move(pn);
    funcs[Fn.getName()] = std::move(fo);
  }
  root["globals"] = std::move(globals); root["functions"] = std::move(funcs); root["structs"] = std::move(structs); root["enums"] = std::move(enums);
  outs() << J::Value(std::move(root)) << "\n";
  return 0;
}
