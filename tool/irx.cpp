// irx: reads LLVM bitcode, normalises it (mem2reg/SROA/instsimplify, selective inlining)
// and exports the resolved program as JSON for the Python analyses.
//
//   irx IN.bc OUT.json [--keep FILE] [--into FUNC]...
//
// --keep FILE : names (one per line) of the functions that stay as calls.  With --into F every
//               call inside F (transitively) to a function that has a body in the module and is not
//               in FILE is inlined.  A helper somebody extracts is thereby seen through.
#include "llvm/ADT/SmallSet.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/InstSimplifyPass.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include "llvm/Transforms/Utils/Local.h"
#include <fstream>
#include <map>
#include <set>
using namespace llvm;

static std::string esc(StringRef s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    char b[8];
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32 || c >= 127) { snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}

struct Exporter {
  Module &M;
  const DataLayout &DL;
  raw_ostream &O;
  std::map<const Value *, int> ids;
  std::map<const BasicBlock *, int> bids;
  std::map<std::string, std::vector<std::string>> fields;   // struct name -> field names
  Exporter(Module &M, raw_ostream &O) : M(M), DL(M.getDataLayout()), O(O) {}

  std::string ty(Type *T) {
    if (T->isIntegerTy()) return "i" + std::to_string(T->getIntegerBitWidth());
    if (T->isPointerTy()) return "ptr";
    if (T->isVoidTy()) return "void";
    if (T->isDoubleTy()) return "double";
    if (T->isFloatTy()) return "float";
    if (auto *S = dyn_cast<StructType>(T)) {
      if (S->hasName()) { std::string n = S->getName().str(); return n; }
      return "struct.anon";
    }
    if (auto *A = dyn_cast<ArrayType>(T)) return "[" + std::to_string(A->getNumElements()) + " x " + ty(A->getElementType()) + "]";
    std::string s; raw_string_ostream os(s); T->print(os); return s;
  }

  void collectFields() {
    DebugInfoFinder F; F.processModule(M);
    for (auto *T : F.types()) {
      auto *C = dyn_cast<DICompositeType>(T);
      if (!C) continue;
      if (C->getTag() != dwarf::DW_TAG_structure_type && C->getTag() != dwarf::DW_TAG_union_type) continue;
      std::string n = (C->getTag() == dwarf::DW_TAG_structure_type ? "struct." : "union.") + C->getName().str();
      std::vector<std::string> fs;
      for (auto *E : C->getElements())
        if (auto *D = dyn_cast<DIDerivedType>(E)) fs.push_back(D->getName().str());
      if (!fs.empty() && !fields.count(n)) fields[n] = fs;
    }
  }

  bool strOf(const GlobalVariable *G, std::string &out) {
    if (!G->hasInitializer() || !G->isConstant()) return false;
    if (!G->getName().starts_with(".str") && !G->getName().starts_with("__")) return false;
    if (auto *C = dyn_cast<ConstantDataSequential>(G->getInitializer())) {
      if (C->isString()) { StringRef s = C->getAsString(); if (s.ends_with(StringRef("\0", 1))) s = s.drop_back(); out = s.str(); return true; }
    }
    if (isa<ConstantAggregateZero>(G->getInitializer())) { out = ""; return true; }
    return false;
  }

  // GEP path as JSON list: each element either ["f", struct, index, name] or ["x", value, elemType]
  template <class G> std::string gepPath(G *gep, bool skipFirst0 = true) {
    std::string s = "[";
    Type *T = gep->getSourceElementType();
    bool first = true, sep = false;
    for (auto it = gep->idx_begin(); it != gep->idx_end(); ++it) {
      Value *V = *it;
      if (first) {
        first = false;
        auto *CI = dyn_cast<ConstantInt>(V);
        if (!(CI && CI->isZero())) { s += "[\"x\"," + val(V) + "," + esc(ty(T)) + "," + std::to_string((long long)DL.getTypeAllocSize(T)) + "]"; sep = true; }
        continue;
      }
      if (sep) s += ","; sep = true;
      if (auto *S = dyn_cast<StructType>(T)) {
        unsigned i = cast<ConstantInt>(V)->getZExtValue();
        std::string n = ty(S), fn = std::to_string(i);
        auto fi = fields.find(n);
        if (fi == fields.end()) { auto p = n.rfind('.'); if (p != std::string::npos && p > 6) fi = fields.find(n.substr(0, p)); }
        if (fi != fields.end() && i < fi->second.size()) fn = fi->second[i];
        s += "[\"f\"," + esc(n) + "," + std::to_string(i) + "," + esc(fn) + "]";
        T = S->getElementType(i);
      } else {
        T = cast<ArrayType>(T)->getElementType();
        s += "[\"x\"," + val(V) + "," + esc(ty(T)) + "," + std::to_string((long long)DL.getTypeAllocSize(T)) + "]";
      }
    }
    return s + "]";
  }

  std::string val(const Value *V) {
    if (auto *C = dyn_cast<ConstantInt>(V)) {
      if (C->getBitWidth() > 64) return "[\"?\"]";
      return std::to_string((long long)(C->getBitWidth() == 1 ? (long long)C->getZExtValue() : C->getSExtValue()));
    }
    if (auto *C = dyn_cast<ConstantFP>(V)) {
      double d = C->getType()->isDoubleTy() ? C->getValueAPF().convertToDouble() : (double)C->getValueAPF().convertToFloat();
      char b[64]; snprintf(b, 64, "%.17g", d); return std::string("[\"d\",") + esc(b) + "]";
    }
    if (isa<ConstantPointerNull>(V)) return "[\"null\"]";
    if (isa<UndefValue>(V)) return "[\"undef\"]";
    if (auto *F = dyn_cast<Function>(V)) return "[\"fn\"," + esc(F->getName()) + "]";
    if (auto *G = dyn_cast<GlobalVariable>(V)) {
      std::string s; if (strOf(G, s)) return "[\"s\"," + esc(s) + "]";
      return "[\"g\"," + esc(G->getName()) + "]";
    }
    if (auto *A = dyn_cast<Argument>(V)) return "[\"a\"," + std::to_string(A->getArgNo()) + "]";
    if (auto *CE = dyn_cast<ConstantExpr>(V)) {
      if (auto *G = dyn_cast<GEPOperator>(CE)) return "[\"gep\"," + val(G->getPointerOperand()) + "," + gepPath(G) + "]";
      return "[\"ce\"," + esc(CE->getOpcodeName()) + "," + val(CE->getOperand(0)) + "]";
    }
    auto it = ids.find(V);
    if (it != ids.end()) return "[\"i\"," + std::to_string(it->second) + "]";
    if (auto *BB = dyn_cast<BasicBlock>(V)) return std::to_string(bids[BB]);
    return "[\"?\"]";
  }

  std::string init(Constant *C, int depth = 0) {
    if (isa<ConstantInt>(C) || isa<ConstantFP>(C) || isa<ConstantPointerNull>(C) || isa<GlobalVariable>(C) || isa<Function>(C) || isa<ConstantExpr>(C)) return val(C);
    if (isa<UndefValue>(C)) return "[\"undef\"]";
    if (isa<ConstantAggregateZero>(C)) return "[\"zero\"]";
    if (auto *S = dyn_cast<ConstantDataSequential>(C)) {
      if (S->isString()) { StringRef s = S->getAsString(); return "[\"s\"," + esc(s) + "]"; }
      std::string o = "[\"l\"";
      for (unsigned i = 0; i < S->getNumElements(); i++) o += "," + val(S->getElementAsConstant(i));
      return o + "]";
    }
    std::string o = "[\"l\"";
    for (unsigned i = 0; i < C->getNumOperands(); i++) o += "," + init(cast<Constant>(C->getOperand(i)), depth + 1);
    return o + "]";
  }

  std::string loc(const Instruction &I) {
    if (const DebugLoc &D = I.getDebugLoc()) {
      std::string f;
      if (auto *S = dyn_cast_or_null<DIScope>(D.getScope())) f = S->getFilename().str();
      // chain of inlined call sites: outermost line last
      std::string s = std::to_string(D.getLine());
      return s;
    }
    return "0";
  }
  std::string locFile(const Instruction &I) {
    if (const DebugLoc &D = I.getDebugLoc())
      if (auto *S = dyn_cast_or_null<DIScope>(D.getScope())) return S->getFilename().str();
    return "";
  }
  std::string inlineFn(const Instruction &I) {
    if (const DebugLoc &D = I.getDebugLoc())
      if (auto *L = D.get()) if (L->getInlinedAt()) if (auto *SP = L->getScope()->getSubprogram()) return SP->getName().str();
    return "";
  }

  void fn(Function &F) {
    ids.clear(); bids.clear();
    int n = 0, b = 0;
    for (auto &BB : F) { bids[&BB] = b++; for (auto &I : BB) ids[&I] = n++; }
    std::string file; unsigned line = 0;
    std::map<const Value *, std::string> names;
    if (auto *SP = F.getSubprogram()) { file = SP->getFilename().str(); line = SP->getLine(); }
    std::vector<std::string> pn(F.arg_size());
    for (auto &I : instructions(F)) {
      if (auto *D = dyn_cast<DbgDeclareInst>(&I)) { if (D->getAddress()) names[D->getAddress()] = D->getVariable()->getName().str(); }
      else if (auto *D = dyn_cast<DbgValueInst>(&I)) {
        if (D->getNumVariableLocationOps() == 1) if (auto *V = D->getVariableLocationOp(0)) {
          if (D->getExpression()->getNumElements() == 0 && !names.count(V)) names[V] = D->getVariable()->getName().str();
        }
      }
    }
    O << "{\"name\":" << esc(F.getName()) << ",\"internal\":" << (F.hasLocalLinkage() ? 1 : 0) << ",\"file\":" << esc(file) << ",\"line\":" << line
      << ",\"ret\":" << esc(ty(F.getReturnType())) << ",\"params\":[";
    for (auto &A : F.args()) { if (A.getArgNo()) O << ","; O << "[" << esc(ty(A.getType())) << "," << esc(names.count(&A) ? names[&A] : "") << "]"; }
    O << "],\"blocks\":[\n";
    bool fb = true;
    for (auto &BB : F) {
      if (!fb) O << ",\n"; fb = false;
      O << "[";
      bool fi = true;
      for (auto &I : BB) {
        if (isa<DbgInfoIntrinsic>(I)) continue;
        if (auto *II = dyn_cast<IntrinsicInst>(&I)) if (II->isLifetimeStartOrEnd()) continue;
        if (!fi) O << ","; fi = false;
        // [id, op, type, line, operands..., extra]
        O << "[" << ids[&I] << "," << esc(I.getOpcodeName()) << "," << esc(ty(I.getType())) << "," << loc(I) << ",";
        O << "[";
        if (auto *C = dyn_cast<CallBase>(&I)) {
          O << val(C->getCalledOperand());
          for (auto &A : C->args()) O << "," << val(A.get());
        } else if (auto *P = dyn_cast<PHINode>(&I)) {
          for (unsigned i = 0; i < P->getNumIncomingValues(); i++) { if (i) O << ","; O << "[" << val(P->getIncomingValue(i)) << "," << bids[P->getIncomingBlock(i)] << "]"; }
        } else if (auto *S = dyn_cast<SwitchInst>(&I)) {
          O << val(S->getCondition()) << "," << bids[S->getDefaultDest()];
          for (auto &c : S->cases()) O << ",[" << val(c.getCaseValue()) << "," << bids[c.getCaseSuccessor()] << "]";
        } else if (auto *B = dyn_cast<BranchInst>(&I)) {
          if (B->isConditional()) O << val(B->getCondition()) << "," << bids[B->getSuccessor(0)] << "," << bids[B->getSuccessor(1)];
          else O << bids[B->getSuccessor(0)];
        } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
          O << val(G->getPointerOperand()) << "," << gepPath(G);
        } else if (auto *C = dyn_cast<CmpInst>(&I)) {
          O << esc(CmpInst::getPredicateName(C->getPredicate())) << "," << val(C->getOperand(0)) << "," << val(C->getOperand(1));
        } else if (auto *A = dyn_cast<AllocaInst>(&I)) {
          O << esc(ty(A->getAllocatedType())) << "," << val(A->getArraySize()) << "," << (long long)DL.getTypeAllocSize(A->getAllocatedType());
        } else {
          for (unsigned i = 0; i < I.getNumOperands(); i++) { if (i) O << ","; O << val(I.getOperand(i)); }
        }
        O << "]";
        std::string x;
        auto nm = names.find(&I);
        if (nm != names.end()) x += ",\"n\":" + esc(nm->second);
        std::string f = locFile(I);
        if (f != file && f != "") x += ",\"f\":" + esc(f);
        std::string il = inlineFn(I);
        if (il != "") x += ",\"il\":" + esc(il);
        if (auto *CI = dyn_cast<CastInst>(&I)) x += ",\"st\":" + esc(ty(CI->getSrcTy()));
        if (auto *SI = dyn_cast<StoreInst>(&I)) x += ",\"vt\":" + esc(ty(SI->getValueOperand()->getType()));
        if (auto *CI = dyn_cast<CmpInst>(&I)) x += ",\"vt\":" + esc(ty(CI->getOperand(0)->getType()));
        if (auto *CB = dyn_cast<CallBase>(&I)) { x += ",\"at\":["; bool q = false; for (auto &A : CB->args()) { if (q) x += ","; q = true; x += esc(ty(A->getType())); } x += "]"; }
        if (auto *OB = dyn_cast<OverflowingBinaryOperator>(&I)) { if (OB->hasNoSignedWrap()) x += ",\"nsw\":1"; }
        if (!x.empty()) O << ",{" << x.substr(1) << "}";
        O << "]";
      }
      O << "]";
    }
    O << "]}";
  }

  void run() {
    collectFields();
    O << "{\"structs\":{";
    bool f = true;
    for (auto *S : M.getIdentifiedStructTypes()) {
      if (S->isOpaque()) continue;
      if (!f) O << ",\n"; f = false;
      std::string n = ty(S);
      auto *L = DL.getStructLayout(S);
      O << esc(n) << ":{\"size\":" << (long long)L->getSizeInBytes() << ",\"fields\":[";
      auto fi = fields.find(n);
      if (fi == fields.end()) { auto p = n.rfind('.'); if (p != std::string::npos && p > 6) fi = fields.find(n.substr(0, p)); }
      for (unsigned i = 0; i < S->getNumElements(); i++) {
        if (i) O << ",";
        std::string nm = fi != fields.end() && i < fi->second.size() ? fi->second[i] : std::to_string(i);
        O << "[" << esc(nm) << "," << esc(ty(S->getElementType(i))) << "," << (long long)L->getElementOffset(i) << "]";
      }
      O << "]}";
    }
    O << "},\n\"globals\":{";
    f = true;
    for (auto &G : M.globals()) {
      std::string s; if (strOf(&G, s)) continue;
      if (!f) O << ",\n"; f = false;
      SmallVector<DIGlobalVariableExpression *, 1> dgv; G.getDebugInfo(dgv);
      std::string file; unsigned line = 0;
      if (!dgv.empty()) { file = dgv[0]->getVariable()->getFilename().str(); line = dgv[0]->getVariable()->getLine(); }
      O << esc(G.getName()) << ":{\"type\":" << esc(ty(G.getValueType())) << ",\"size\":" << (long long)DL.getTypeAllocSize(G.getValueType())
        << ",\"decl\":" << (G.isDeclaration() ? 1 : 0) << ",\"const\":" << (G.isConstant() ? 1 : 0) << ",\"internal\":" << (G.hasLocalLinkage() ? 1 : 0)
        << ",\"file\":" << esc(file) << ",\"line\":" << line;
      if (G.hasInitializer()) O << ",\"init\":" << init(G.getInitializer());
      O << "}";
    }
    O << "},\n\"decls\":[";
    f = true;
    for (auto &F : M) if (F.isDeclaration() && !F.isIntrinsic()) { if (!f) O << ","; f = false; O << esc(F.getName()); }
    O << "],\n\"functions\":[";
    f = true;
    for (auto &F : M) if (!F.isDeclaration()) { if (!f) O << ",\n"; f = false; fn(F); }
    O << "]}\n";
  }
};

static void optimise(Function &F, FunctionAnalysisManager &FAM) {
  FunctionPassManager FPM;
  FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
  FPM.addPass(PromotePass());
  FPM.run(F, FAM);
}

int main(int argc, char **argv) {
  std::vector<std::string> ins, into; std::string out, keepf;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--keep") keepf = argv[++i];
    else if (a == "--into") into.push_back(argv[++i]);
    else if (a == "-o") out = argv[++i];
    else ins.push_back(a);
  }
  LLVMContext C; SMDiagnostic E;
  std::unique_ptr<Module> M;
  for (auto &p : ins) {
    auto m = parseIRFile(p, E, C);
    if (!m) { E.print("irx", errs()); return 2; }
    if (!M) M = std::move(m);
    else if (Linker::linkModules(*M, std::move(m))) { errs() << "irx: link failed " << p << "\n"; return 2; }
  }
  PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
  for (auto &F : *M) if (!F.isDeclaration()) { F.removeFnAttr(Attribute::OptimizeNone); F.removeFnAttr(Attribute::NoInline); }

  std::set<std::string> keep;
  if (!keepf.empty()) { std::ifstream k(keepf); std::string l; while (std::getline(k, l)) if (!l.empty()) keep.insert(l); }
  if (!into.empty()) {
    std::set<std::string> intoS(into.begin(), into.end());
    bool all = intoS.count("*");
    for (auto &F : *M) {
      if (F.isDeclaration()) continue;
      if (!all && !intoS.count(F.getName().str())) continue;
      for (int round = 0; round < 12; round++) {
        std::vector<CallBase *> cs;
        for (auto &I : instructions(F))
          if (auto *CB = dyn_cast<CallBase>(&I))
            if (auto *T = CB->getCalledFunction())
              if (!T->isDeclaration() && T != &F && !T->isVarArg() && !keep.count(T->getName().str())) cs.push_back(CB);
        if (cs.empty()) break;
        for (auto *CB : cs) { InlineFunctionInfo IFI; InlineFunction(*CB, IFI); }
      }
    }
    FAM.clear();
  }
  for (auto &F : *M) if (!F.isDeclaration()) optimise(F, FAM);
  std::error_code EC;
  raw_fd_ostream os(out, EC);
  if (EC) { errs() << EC.message() << "\n"; return 2; }
  Exporter(*M, os).run();
  return 0;
}
