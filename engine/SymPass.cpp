// SymPass: LLVM pass plugin (clang -fpass-plugin) that lifts every `double`
// operation of a translation unit into calls of the symbolic runtime
// (symrt.cpp).  It runs at the start of the optimisation pipeline, i.e. on the
// IR clang produced for the real sources of /repo, before any optimisation.
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
using namespace llvm;

#include "symops.h"

static const std::map<std::string, int> libm1 = {
    {"sqrt", SYM_SQRT}, {"fabs", SYM_FABS},   {"sin", SYM_SIN},     {"cos", SYM_COS},
    {"tan", SYM_TAN},   {"asin", SYM_ASIN},   {"acos", SYM_ACOS},   {"atan", SYM_ATAN},
    {"exp", SYM_EXP},   {"log", SYM_LOG},     {"log10", SYM_LOG10}, {"log2", SYM_LOG2},
    {"floor", SYM_FLOOR}, {"ceil", SYM_CEIL}, {"round", SYM_ROUND}, {"trunc", SYM_TRUNC},
    {"rint", SYM_RINT}, {"nearbyint", SYM_RINT}, {"cbrt", SYM_CBRT}, {"sinh", SYM_SINH},
    {"cosh", SYM_COSH}, {"tanh", SYM_TANH}, {"exp2", SYM_EXP2}, {"log1p", SYM_LOG1P}, {"expm1", SYM_EXPM1}};
static const std::map<std::string, int> libm2 = {
    {"atan2", SYM_ATAN2}, {"pow", SYM_POW},   {"hypot", SYM_HYPOT}, {"fmod", SYM_FMOD},
    {"fmin", SYM_FMIN},   {"fmax", SYM_FMAX}, {"copysign", SYM_COPYSIGN},
    {"fdim", SYM_FDIM}, {"remainder", SYM_REMAINDER}};

namespace {
struct SymPass : PassInfoMixin<SymPass> {
  static bool isD(Type *t) { return t->isDoubleTy(); }

  // Memory-access instrumentation for the race checks (modules that define
  // __sym_acc_enable): every plain load and store that may touch memory shared
  // between the element computations of a parallel region is reported.
  static void instrumentAccesses(Module &M) {
    LLVMContext &C = M.getContext();
    Type *V = Type::getVoidTy(C), *P = PointerType::getUnqual(C), *I64 = Type::getInt64Ty(C), *I32 = Type::getInt32Ty(C);
    const DataLayout &DL = M.getDataLayout();
    auto fAcc = M.getOrInsertFunction("__sym_acc", V, P, I64, I32);
    auto fAlloc = M.getOrInsertFunction("__sym_acc_alloc", V, P);
    auto fLock = M.getOrInsertFunction("__sym_acc_lock", V, P, I32);
    auto fGuard = M.getOrInsertFunction("__sym_acc_guard", V, I32);
    auto priv = [](Value *p) {
      Value *o = getUnderlyingObject(p, 0);
      if (isa<AllocaInst>(o)) return true;
      if (auto *G = dyn_cast<GlobalVariable>(o)) return G->isConstant() || G->isThreadLocal();
      if (auto *II = dyn_cast<IntrinsicInst>(o)) return II->getIntrinsicID() == Intrinsic::threadlocal_address;
      if (auto *CB = dyn_cast<CallBase>(o))
        if (auto *f = CB->getCalledFunction()) return f->getName().starts_with("_ZTW");
      return false;
    };
    std::vector<Instruction *> w;
    for (Function &F : M) {
      if (F.isDeclaration() || F.getName().starts_with("__sym_")) continue;
      StringRef n = F.getName();
      // reference counts: atomic as soon as a second thread exists
      if (n.contains("__atomic_add_single") || n.contains("__exchange_and_add_single") || n.contains("_Sp_counted_base")) continue;
      if (n.starts_with("_ZN5sched")) continue; // the stand-in of the thread pool itself
      for (Instruction &I : instructions(F)) w.push_back(&I);
    }
    for (Instruction *I : w) {
      IRBuilder<> B(I);
      auto after = [&]() {
        if (auto *inv = dyn_cast<InvokeInst>(I)) B.SetInsertPoint(&*inv->getNormalDest()->getFirstInsertionPt());
        else B.SetInsertPoint(I->getNextNode());
      };
      if (auto *L = dyn_cast<LoadInst>(I)) {
        if (L->isAtomic() || priv(L->getPointerOperand())) continue;
        B.CreateCall(fAcc, {L->getPointerOperand(), ConstantInt::get(I64, DL.getTypeStoreSize(L->getType())), ConstantInt::get(I32, 0)});
      } else if (auto *S = dyn_cast<StoreInst>(I)) {
        if (S->isAtomic() || priv(S->getPointerOperand())) continue;
        B.CreateCall(fAcc, {S->getPointerOperand(), ConstantInt::get(I64, DL.getTypeStoreSize(S->getValueOperand()->getType())), ConstantInt::get(I32, 1)});
      } else if (auto *MI = dyn_cast<MemIntrinsic>(I)) {
        Value *len = B.CreateZExtOrTrunc(MI->getLength(), I64);
        if (auto *MT = dyn_cast<MemTransferInst>(MI))
          if (!priv(MT->getRawSource())) B.CreateCall(fAcc, {MT->getRawSource(), len, ConstantInt::get(I32, 0)});
        if (!priv(MI->getRawDest())) B.CreateCall(fAcc, {MI->getRawDest(), len, ConstantInt::get(I32, 1)});
      } else if (auto *CB = dyn_cast<CallBase>(I)) {
        Function *f = CB->getCalledFunction();
        if (!f) continue;
        StringRef n = f->getName();
        if (n == "malloc" || n == "calloc" || n == "realloc" || n == "aligned_alloc") {
          after();
          B.CreateCall(fAlloc, {CB});
        } else if (n == "pthread_mutex_lock" || n == "pthread_mutex_unlock") {
          bool lock = n == "pthread_mutex_lock";
          if (lock) after();
          B.CreateCall(fLock, {CB->getArgOperand(0), ConstantInt::get(I32, lock)});
        } else if (n == "__cxa_guard_acquire") {
          after();
          B.CreateCall(fGuard, {CB});
        } else if (n == "__cxa_guard_release" || n == "__cxa_guard_abort") {
          B.CreateCall(fGuard, {ConstantInt::get(I32, -1)});
        }
      }
    }
  }

  PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
    LLVMContext &C = M.getContext();
    if (M.getNamedValue("__sym_acc_enable")) {
      instrumentAccesses(M);
      if (getenv("SYM_RACE_ONLY")) return PreservedAnalyses::none();
    }
    Type *D = Type::getDoubleTy(C);
    Type *I32 = Type::getInt32Ty(C), *I64 = Type::getInt64Ty(C);
    Type *I1 = Type::getInt1Ty(C);
    auto fBin = M.getOrInsertFunction("__sym_bin", D, I32, D, D);
    auto fF1 = M.getOrInsertFunction("__sym_fn1", D, I32, D);
    auto fF2 = M.getOrInsertFunction("__sym_fn2", D, I32, D, D);
    auto fCmp = M.getOrInsertFunction("__sym_fcmp", I32, I32, D, D);
    auto fToI = M.getOrInsertFunction("__sym_fptosi", I64, D);
    auto fToU = M.getOrInsertFunction("__sym_fptoui", I64, D);
    auto fConc = M.getOrInsertFunction("__sym_concrete", D, D, I32);
    auto fClass = M.getOrInsertFunction("__sym_fpclass", I32, D, I32);
    auto fSignBits = M.getOrInsertFunction("__sym_signbits", I64, D);
    auto fPowi = M.getOrInsertFunction("__sym_powi", D, D, I32);
    auto fFma = M.getOrInsertFunction("__sym_fma", D, D, D, D);

    // function coverage: the names of the library functions really executed
    auto fEnter = M.getOrInsertFunction("__sym_enter", Type::getVoidTy(C), PointerType::getUnqual(C), PointerType::getUnqual(C));
    std::vector<Instruction *> work;
    unsigned vec = 0;
    std::vector<Value *> fresh;
    for (Function &F : M) {
      if (F.isDeclaration()) continue;
      if (F.getName().starts_with("__sym_")) continue;
      if (F.getName().contains("3gbs")) {
        IRBuilder<> EB(&*F.getEntryBlock().getFirstNonPHIOrDbgOrAlloca());
        Type *I8 = Type::getInt8Ty(C);
        auto *flag = new GlobalVariable(M, I8, false, GlobalValue::InternalLinkage, ConstantInt::get(I8, 0), "__sym_fl");
        Value *nm = EB.CreateGlobalStringPtr(F.getName(), "__sym_nm");
        fresh.push_back(EB.CreateCall(fEnter, {nm, flag}));
      }
      for (Instruction &I : instructions(F)) {
        work.push_back(&I);
        if (auto *VT = dyn_cast<VectorType>(I.getType()))
          if (isD(VT->getElementType()) && (isa<BinaryOperator>(I))) vec++;
      }
    }
    if (vec) errs() << "SymPass: warning: " << vec << " vector double ops left uninstrumented\n";

    for (Instruction *I : work) {
      IRBuilder<> B(I);
      auto repl = [&](Value *V) {
        V->takeName(I);
        I->replaceAllUsesWith(V);
        I->eraseFromParent();
      };
      auto k = [&](int v) { return ConstantInt::get(I32, v); };
      if (auto *BO = dyn_cast<BinaryOperator>(I)) {
        if (!isD(BO->getType())) continue;
        int op;
        switch (BO->getOpcode()) {
        case Instruction::FAdd: op = SYM_ADD; break;
        case Instruction::FSub: op = SYM_SUB; break;
        case Instruction::FMul: op = SYM_MUL; break;
        case Instruction::FDiv: op = SYM_DIV; break;
        case Instruction::FRem: op = SYM_FMODOP; break;
        default: continue;
        }
        repl(B.CreateCall(fBin, {k(op), BO->getOperand(0), BO->getOperand(1)}));
      } else if (auto *UO = dyn_cast<UnaryOperator>(I)) {
        if (!isD(UO->getType()) || UO->getOpcode() != Instruction::FNeg) continue;
        repl(B.CreateCall(fF1, {k(SYM_NEG), UO->getOperand(0)}));
      } else if (auto *FC = dyn_cast<FCmpInst>(I)) {
        if (!isD(FC->getOperand(0)->getType())) continue;
        Value *r = B.CreateCall(fCmp, {k((int)FC->getPredicate()), FC->getOperand(0), FC->getOperand(1)});
        repl(B.CreateTrunc(r, I1));
      } else if (auto *CI = dyn_cast<CastInst>(I)) {
        if (!isD(CI->getSrcTy())) continue;
        switch (CI->getOpcode()) {
        case Instruction::FPToSI: {
          Value *r = B.CreateCall(fToI, {CI->getOperand(0)});
          repl(B.CreateSExtOrTrunc(r, CI->getDestTy()));
          break;
        }
        case Instruction::FPToUI: {
          Value *r = B.CreateCall(fToU, {CI->getOperand(0)});
          repl(B.CreateZExtOrTrunc(r, CI->getDestTy()));
          break;
        }
        case Instruction::FPTrunc:
        case Instruction::FPExt: {
          Value *r = B.CreateCall(fConc, {CI->getOperand(0), k(1)});
          CI->setOperand(0, r);
          break;
        }
        case Instruction::BitCast: {
          // signbit(x): bitcast + icmp slt 0  -> decide the sign
          bool sgn = CI->getDestTy()->isIntegerTy(64) && !CI->use_empty();
          for (User *U : CI->users()) {
            auto *IC = dyn_cast<ICmpInst>(U);
            if (!(IC && IC->getPredicate() == ICmpInst::ICMP_SLT && isa<ConstantInt>(IC->getOperand(1)) &&
                  cast<ConstantInt>(IC->getOperand(1))->isZero()))
              sgn = false;
          }
          if (sgn) {
            repl(B.CreateCall(fSignBits, {CI->getOperand(0)}));
          } else {
            Value *r = B.CreateCall(fConc, {CI->getOperand(0), k(1)});
            CI->setOperand(0, r);
          }
          break;
        }
        default: break;
        }
      } else if (auto *CB = dyn_cast<CallBase>(I)) {
        if (auto *II = dyn_cast<IntrinsicInst>(CB)) {
          int op1 = -1, op2 = -1;
          bool dbl = II->arg_size() > 0 && isD(II->getArgOperand(0)->getType());
          if (!dbl) continue;
          switch (II->getIntrinsicID()) {
          case Intrinsic::fabs: op1 = SYM_FABS; break;
          case Intrinsic::sqrt: op1 = SYM_SQRT; break;
          case Intrinsic::sin: op1 = SYM_SIN; break;
          case Intrinsic::cos: op1 = SYM_COS; break;
          case Intrinsic::exp: op1 = SYM_EXP; break;
          case Intrinsic::exp2: op1 = SYM_EXP2; break;
          case Intrinsic::log: op1 = SYM_LOG; break;
          case Intrinsic::log10: op1 = SYM_LOG10; break;
          case Intrinsic::log2: op1 = SYM_LOG2; break;
          case Intrinsic::floor: op1 = SYM_FLOOR; break;
          case Intrinsic::ceil: op1 = SYM_CEIL; break;
          case Intrinsic::round: op1 = SYM_ROUND; break;
          case Intrinsic::trunc: op1 = SYM_TRUNC; break;
          case Intrinsic::rint:
          case Intrinsic::nearbyint: op1 = SYM_RINT; break;
          case Intrinsic::minnum: op2 = SYM_FMIN; break;
          case Intrinsic::maxnum: op2 = SYM_FMAX; break;
          case Intrinsic::minimum: op2 = SYM_FMIN; break;
          case Intrinsic::maximum: op2 = SYM_FMAX; break;
          case Intrinsic::pow: op2 = SYM_POW; break;
          case Intrinsic::copysign: op2 = SYM_COPYSIGN; break;
          case Intrinsic::powi:
            repl(B.CreateCall(fPowi, {II->getArgOperand(0), B.CreateSExtOrTrunc(II->getArgOperand(1), I32)}));
            continue;
          case Intrinsic::fma:
          case Intrinsic::fmuladd:
            repl(B.CreateCall(fFma, {II->getArgOperand(0), II->getArgOperand(1), II->getArgOperand(2)}));
            continue;
          case Intrinsic::is_fpclass: {
            Value *r = B.CreateCall(fClass, {II->getArgOperand(0), II->getArgOperand(1)});
            repl(B.CreateTrunc(r, I1));
            continue;
          }
          default: continue;
          }
          if (op1 >= 0) repl(B.CreateCall(fF1, {k(op1), II->getArgOperand(0)}));
          else if (op2 >= 0) repl(B.CreateCall(fF2, {k(op2), II->getArgOperand(0), II->getArgOperand(1)}));
          continue;
        }
        Function *callee = CB->getCalledFunction();
        if (!callee) continue; // indirect: instrumented code or a callback
        // Eigen's triangular solve skips the update by a zero right-hand side entry; doing
        // the update gives the same values over the reals, so this is not a case split
        if (callee->getName().contains("not_equal_strict") && callee->arg_size() == 2 && I->getFunction()->getName().contains("triangular_solve_vector") && isa<CallInst>(CB)) {
          FunctionCallee ne = M.getOrInsertFunction("__sym_ne_strict", I32, B.getDoubleTy(), B.getDoubleTy());
          Value *r = B.CreateCall(ne, {B.CreateLoad(B.getDoubleTy(), CB->getArgOperand(0)), B.CreateLoad(B.getDoubleTy(), CB->getArgOperand(1))});
          repl(B.CreateTrunc(r, I1));
          continue;
        }
        if (!callee->isDeclaration()) continue;
        StringRef n = callee->getName();
        if (n.starts_with("__sym_")) continue;
        bool hasD = false;
        for (auto &A : CB->args()) hasD |= isD(A->getType());
        if (!hasD) continue;
        if (isD(CB->getType()) && CB->arg_size() == 1 && libm1.count(n.str()) && isa<CallInst>(CB)) {
          repl(B.CreateCall(fF1, {k(libm1.at(n.str())), CB->getArgOperand(0)}));
          continue;
        }
        if (isD(CB->getType()) && CB->arg_size() == 2 && libm2.count(n.str()) && isa<CallInst>(CB)) {
          repl(B.CreateCall(fF2, {k(libm2.at(n.str())), CB->getArgOperand(0), CB->getArgOperand(1)}));
          continue;
        }
        if (CB->arg_size() == 1 && isa<CallInst>(CB) && CB->getType()->isIntegerTy(64) && (n == "lround" || n == "llround" || n == "lrint" || n == "llrint")) {
          Value *r = B.CreateCall(fF1, {k(n.contains("round") ? SYM_ROUND : SYM_RINT), CB->getArgOperand(0)});
          repl(B.CreateCall(fToI, {r}));
          continue;
        }
        if ((n == "ldexp" || n == "scalbn") && CB->arg_size() == 2 && isa<CallInst>(CB)) { // x 2^n, the power of two is concrete
          Value *one = B.CreateCall(callee, {ConstantFP::get(B.getDoubleTy(), 1.0), CB->getArgOperand(1)});
          repl(B.CreateCall(fBin, {k(SYM_MUL), CB->getArgOperand(0), one}));
          continue;
        }
        // formatting / printing only: a representative value is good enough
        int mode = (n.contains("to_chars") || n.contains("printf") || n.contains("_M_insert") || n.contains("_ZNSolsE") ||
                    n.contains("to_string"))
                       ? 0
                       : 1;
        for (unsigned a = 0; a < CB->arg_size(); ++a)
          if (isD(CB->getArgOperand(a)->getType()))
            CB->setArgOperand(a, B.CreateCall(fConc, {CB->getArgOperand(a), k(mode)}));
      }
    }
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};
} // namespace

extern "C" LLVM_ATTRIBUTE_WEAK ::llvm::PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "SymPass", "1", [](PassBuilder &PB) {
            PB.registerPipelineStartEPCallback([](ModulePassManager &MPM, OptimizationLevel) { MPM.addPass(SymPass()); });
          }};
}
