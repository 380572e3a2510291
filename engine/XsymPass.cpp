// LLVM pass: rewrites every double-precision operation of a module into a call
// of the xsym runtime, so that doubles may carry symbolic terms.  Memory
// traffic (load/store/phi/select/memcpy) is left alone: a symbolic double is a
// NaN-boxed handle and travels through memory natively.
#include "llvm/IR/Function.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include <map>
#include <set>
#include <string>
using namespace llvm;

namespace {

// external functions replaced by symbolic models (same prototype)
static const char *renamed[] = {
  "exp","log","log10","sqrt","sin","cos","tan","asin","acos","atan","atan2","pow","fabs",
  "floor","ceil","fmod","sinh","cosh","tanh","expm1","log1p","fmax","fmin","sincos","round","cbrt",
  "cexp","csqrt","cpow","cabs","clog","__muldc3","__divdc3",
  "dgemm_","dgemv_","zgemm_","zgemv_",
  "dgetrf_","dgetrs_","dgetri_","zgetrf_","zgetrs_","zgetri_",
  "dgbtrf_","dgbtrs_","zgbtrf_","zgbtrs_","dgttrf_","dgttrs_","zgttrf_","zgttrs_",
  "dpotrf_","dpotrs_","dpotri_","dgesv_","dgtsv_","dgbsv_",
  "dgeev_","dsyev_","asymtx_","dasymtx_","pentdag_",
  "dgecon_","zgecon_","dpocon_","zpocon_","zpotrf_","zpotrs_","zpotri_", nullptr };

struct XsymPass : public PassInfoMixin<XsymPass> {
  PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
    LLVMContext &C = M.getContext();
    Type *D = Type::getDoubleTy(C);
    Type *I32 = Type::getInt32Ty(C), *I64 = Type::getInt64Ty(C);
    std::set<std::string> ren;
    for (int i = 0; renamed[i]; ++i) ren.insert(renamed[i]);
    auto bin = [&](const char *n){ return M.getOrInsertFunction(n, FunctionType::get(D,{D,D},false)); };
    auto un  = [&](const char *n){ return M.getOrInsertFunction(n, FunctionType::get(D,{D},false)); };
    // 1. rename external declarations
    for (Function &F : M) {
      if (!F.isDeclaration() || F.isIntrinsic()) continue;
      std::string n = F.getName().str();
      if (ren.count(n)) {
        std::string nn = "xs_" + n;
        if (Function *G = M.getFunction(nn)) { F.replaceAllUsesWith(G); }
        else F.setName(nn);
        // never let LLVM reason about it as a library function
        F.removeFnAttr(Attribute::Memory); F.removeFnAttr(Attribute::WillReturn);
        F.removeFnAttr(Attribute::Speculatable);
      }
    }
    unsigned bad = 0;
    for (Function &F : M) {
      if (F.isDeclaration()) continue;
      if (F.hasFnAttribute("xsym-native")) continue;
      SmallVector<Instruction*, 256> work; bool touched = false;
      for (Instruction &I : instructions(F)) work.push_back(&I);
      for (Instruction *I : work) {
        IRBuilder<> B(I);
        auto repl = [&](Value *v){ touched = true; I->replaceAllUsesWith(v); I->eraseFromParent(); };
        switch (I->getOpcode()) {
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul:
        case Instruction::FDiv: case Instruction::FRem: {
          if (!I->getType()->isDoubleTy()) { if (I->getType()->isVectorTy() || I->getType()->isX86_FP80Ty()) { errs()<<"xsym: unsupported FP type in "<<F.getName()<<": "<<*I<<"\n"; bad++; } break; }
          const char *n = I->getOpcode()==Instruction::FAdd?"xs_add":I->getOpcode()==Instruction::FSub?"xs_sub":
                          I->getOpcode()==Instruction::FMul?"xs_mul":I->getOpcode()==Instruction::FDiv?"xs_div":"xs_fmod";
          repl(B.CreateCall(bin(n), {I->getOperand(0), I->getOperand(1)}));
          break; }
        case Instruction::FNeg:
          if (I->getType()->isDoubleTy()) repl(B.CreateCall(un("xs_neg"), {I->getOperand(0)}));
          else if (I->getType()->isVectorTy()) { errs()<<"xsym: vector fneg\n"; bad++; }
          break;
        case Instruction::FCmp: {
          if (!I->getOperand(0)->getType()->isDoubleTy()) { if (I->getOperand(0)->getType()->isVectorTy()) {errs()<<"xsym: vector fcmp\n"; bad++;} break; }
          auto *FC = cast<FCmpInst>(I);
          auto f = M.getOrInsertFunction("xs_fcmp", FunctionType::get(I32,{I32,D,D},false));
          Value *r = B.CreateCall(f, {ConstantInt::get(I32, FC->getPredicate()), I->getOperand(0), I->getOperand(1)});
          repl(B.CreateICmpNE(r, ConstantInt::get(I32,0)));
          break; }
        case Instruction::FPToSI: case Instruction::FPToUI: {
          if (!I->getOperand(0)->getType()->isDoubleTy()) break;
          auto f = M.getOrInsertFunction("xs_toint", FunctionType::get(I64,{D},false));
          Value *r = B.CreateCall(f, {I->getOperand(0)});
          repl(B.CreateIntCast(r, I->getType(), true));
          break; }
        case Instruction::FPTrunc: {
          if (!I->getOperand(0)->getType()->isDoubleTy()) break;
          I->setOperand(0, B.CreateCall(un("xs_concretise"), {I->getOperand(0)}));
          break; }
        case Instruction::FPExt: break;
        case Instruction::Call: case Instruction::Invoke: {
          auto *CB = cast<CallBase>(I);
          Function *G = CB->getCalledFunction();
          if (!G) break;
          if (G->isIntrinsic()) {
            const char *n = nullptr; int ar = 1;
            switch (G->getIntrinsicID()) {
            case Intrinsic::fabs: n="xs_fabs"; break;
            case Intrinsic::sqrt: n="xs_sqrt"; break;
            case Intrinsic::exp: n="xs_exp"; break;
            case Intrinsic::log: n="xs_log"; break;
            case Intrinsic::sin: n="xs_sin"; break;
            case Intrinsic::cos: n="xs_cos"; break;
            case Intrinsic::floor: n="xs_floor"; break;
            case Intrinsic::ceil: n="xs_ceil"; break;
            case Intrinsic::pow: n="xs_pow"; ar=2; break;
            case Intrinsic::maxnum: n="xs_fmax"; ar=2; break;
            case Intrinsic::minnum: n="xs_fmin"; ar=2; break;
            case Intrinsic::copysign: n="xs_copysign"; ar=2; break;
            case Intrinsic::fmuladd: case Intrinsic::fma: {
              Value *m = B.CreateCall(bin("xs_mul"), {CB->getArgOperand(0), CB->getArgOperand(1)});
              repl(B.CreateCall(bin("xs_add"), {m, CB->getArgOperand(2)})); n=nullptr; ar=0; break; }
            case Intrinsic::is_fpclass: {
              CB->setArgOperand(0, B.CreateCall(un("xs_concretise"), {CB->getArgOperand(0)})); ar=0; break; }
            default: ar = 0; break;
            }
            if (ar==0) break;
            if (!I->getType()->isDoubleTy()) { if (I->getType()->isVectorTy()) {errs()<<"xsym: vector intrinsic\n"; bad++;} break; }
            if (ar==1) repl(B.CreateCall(un(n), {CB->getArgOperand(0)}));
            else repl(B.CreateCall(bin(n), {CB->getArgOperand(0), CB->getArgOperand(1)}));
            break;
          }
          break; }
        default: break;
        }
      }
      if (touched) {   // record that the function ran under the engine
        Instruction *ip = &*F.getEntryBlock().getFirstInsertionPt();
        Type *I8 = Type::getInt8Ty(C);
        auto *flag = new GlobalVariable(M, I8, false, GlobalValue::PrivateLinkage, ConstantInt::get(I8,0), "xs_hit");
        IRBuilder<> B(ip);
        while (isa<AllocaInst>(ip)) ip = ip->getNextNode();
        B.SetInsertPoint(ip);
        Value *c = B.CreateICmpEQ(B.CreateLoad(I8, flag), ConstantInt::get(I8,0));
        Instruction *th = SplitBlockAndInsertIfThen(c, ip, false);
        IRBuilder<> B2(th);
        auto f = M.getOrInsertFunction("xs_enter", FunctionType::get(Type::getVoidTy(C), {B2.getPtrTy(), B2.getPtrTy()}, false));
        B2.CreateCall(f, {B2.CreateGlobalStringPtr(F.getName()), flag});
      }
      // the function now contains no FP arithmetic; drop attributes that no longer hold
      F.removeFnAttr(Attribute::Memory);
      F.removeFnAttr(Attribute::WillReturn);
    }
    for (Function &F : M) {           // call-site attributes of renamed functions
      for (Instruction &I : instructions(F))
        if (auto *CB = dyn_cast<CallBase>(&I))
          if (Function *G = CB->getCalledFunction())
            if (G->getName().starts_with("xs_")) {
              CB->removeFnAttr(Attribute::Memory); CB->removeFnAttr(Attribute::WillReturn);
            }
    }
    if (bad) report_fatal_error("xsym: unsupported floating-point instructions");
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};
}

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "xsym", "0.1", [](PassBuilder &PB) {
    PB.registerPipelineParsingCallback([](StringRef N, ModulePassManager &MPM, ArrayRef<PassBuilder::PipelineElement>) {
      if (N == "xsym") { MPM.addPass(XsymPass()); return true; } return false; });
    // run at the very start of clang's own pipeline, before any optimisation
    PB.registerPipelineStartEPCallback([](ModulePassManager &MPM, OptimizationLevel) { MPM.addPass(XsymPass()); });
  }};
}
