// LLVM pass: replaces every double-precision operation of a module by a call into the symbolic
// runtime (symrt.cpp).  A symbolic double is a quiet NaN whose payload is a node number, so loads,
// stores, phis, selects, memcpy, containers, virtual calls and exceptions run natively and carry
// symbolic values unchanged; only arithmetic, comparisons, conversions and libm calls change.
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include <map>
#include <set>
#include <string>
using namespace llvm;

namespace {

struct SymPass : public PassInfoMixin<SymPass> {
  Module*  M = nullptr;
  Type*    DTy;
  Type*    I32;
  Type*    I64;
  unsigned fileTag = 0;

  FunctionCallee fn(StringRef name, Type* ret, ArrayRef<Type*> args)
  {
    return M->getOrInsertFunction(name, FunctionType::get(ret, args, false));
  }

  bool isD(Type* t) { return t->isDoubleTy(); }
  bool isVD(Type* t)
  {
    auto* v = dyn_cast<FixedVectorType>(t);
    return v && v->getElementType()->isDoubleTy();
  }

  // apply scalar builder per lane
  template <class F>
  Value* lanes(IRBuilder<>& B, ArrayRef<Value*> ops, Type* resTy, F f)
  {
    auto* vt = dyn_cast<FixedVectorType>(ops[0]->getType());
    if (!vt) return f(ops);
    Value* res = nullptr;
    for (unsigned i = 0; i < vt->getNumElements(); ++i) {
      SmallVector<Value*, 4> s;
      for (auto* o : ops) s.push_back(o->getType()->isVectorTy() ? B.CreateExtractElement(o, B.getInt32(i)) : o);
      Value* r = f(s);
      if (!res) res = PoisonValue::get(FixedVectorType::get(r->getType(), vt->getNumElements()));
      res = B.CreateInsertElement(res, r, B.getInt32(i));
    }
    return res;
  }

  static const std::set<std::string>& libm1()
  {
    static const std::set<std::string> s{"sqrt", "cbrt", "exp",  "log",   "sin",  "cos",  "tan",  "asin", "acos",
                                         "atan", "fabs", "exp2", "log10", "log2", "sinh", "cosh", "tanh", "erf",
                                         "erfc", "floor", "ceil", "trunc", "round", "rint", "nearbyint", "expm1", "log1p"};
    return s;
  }
  static const std::set<std::string>& libm2()
  {
    static const std::set<std::string> s{"pow", "atan2", "fmod", "fmin", "fmax", "hypot", "copysign", "remainder"};
    return s;
  }

  Value* call1(IRBuilder<>& B, const std::string& n, Value* a)
  {
    return B.CreateCall(fn("__se_" + n, DTy, {DTy}), {a});
  }
  Value* call2(IRBuilder<>& B, const std::string& n, Value* a, Value* b)
  {
    return B.CreateCall(fn("__se_" + n, DTy, {DTy, DTy}), {a, b});
  }

  PreservedAnalyses run(Module& Mod, ModuleAnalysisManager&)
  {
    M   = &Mod;
    auto& C = Mod.getContext();
    DTy = Type::getDoubleTy(C);
    I32 = Type::getInt32Ty(C);
    I64 = Type::getInt64Ty(C);
    for (auto& F : Mod) {
      if (F.isDeclaration() || F.getName().startswith("__se_")) continue;
      runOn(F);
    }
    return PreservedAnalyses::none();
  }

  void runOn(Function& F)
  {
    SmallVector<Instruction*, 64> work;
    for (auto& I : instructions(F)) work.push_back(&I);
    unsigned n = 0;
    for (auto* I : work) {
      IRBuilder<> B(I);
      Value*      R = nullptr;
      unsigned    op = I->getOpcode();
      Type*       T  = I->getType();
      if (auto* BO = dyn_cast<BinaryOperator>(I)) {
        if (!(isD(T) || isVD(T))) continue;
        const char* nm = op == Instruction::FAdd ? "fadd" :
                         op == Instruction::FSub ? "fsub" :
                         op == Instruction::FMul ? "fmul" :
                         op == Instruction::FDiv ? "fdiv" :
                         op == Instruction::FRem ? "fmod" :
                                                   nullptr;
        if (!nm) continue;
        R = lanes(B, {BO->getOperand(0), BO->getOperand(1)}, T,
                  [&](ArrayRef<Value*> o) { return call2(B, nm, o[0], o[1]); });
      } else if (auto* UO = dyn_cast<UnaryOperator>(I)) {
        if (op != Instruction::FNeg || !(isD(T) || isVD(T))) continue;
        R = lanes(B, {UO->getOperand(0)}, T, [&](ArrayRef<Value*> o) { return call1(B, "fneg", o[0]); });
      } else if (auto* FC = dyn_cast<FCmpInst>(I)) {
        Type* OT = FC->getOperand(0)->getType();
        if (!(isD(OT) || isVD(OT))) continue;
        R = lanes(B, {FC->getOperand(0), FC->getOperand(1)}, T, [&](ArrayRef<Value*> o) {
          Value* c = B.CreateCall(
              fn("__se_fcmp", I32, {I32, DTy, DTy}), {B.getInt32((unsigned)FC->getPredicate()), o[0], o[1]});
          return B.CreateTrunc(c, B.getInt1Ty());
        });
      } else if (auto* CI = dyn_cast<CastInst>(I)) {
        Type* ST = CI->getSrcTy();
        if ((op == Instruction::FPToSI || op == Instruction::FPToUI) && (isD(ST) || isVD(ST))) {
          R = lanes(B, {CI->getOperand(0)}, T, [&](ArrayRef<Value*> o) {
            Value* c = B.CreateCall(fn(op == Instruction::FPToSI ? "__se_fptosi" : "__se_fptoui", I64, {DTy}), {o[0]});
            return B.CreateTrunc(c, T->getScalarType());
          });
        } else if (op == Instruction::FPTrunc && isD(ST)) {
          Value* c = call1(B, "concretize", CI->getOperand(0));
          CI->setOperand(0, c);
          ++n;
          continue;
        } else if (op == Instruction::FPExt && isD(ST)) {
          Value* c = call1(B, "concretize", CI->getOperand(0));
          CI->setOperand(0, c);
          ++n;
          continue;
        } else
          continue;
      } else if (auto* CB = dyn_cast<CallBase>(I)) {
        Function* Callee = CB->getCalledFunction();
        if (!Callee) continue;
        if (auto* II = dyn_cast<IntrinsicInst>(I)) {
          auto id = II->getIntrinsicID();
          if (id == Intrinsic::is_fpclass && (isD(II->getArgOperand(0)->getType()))) {
            Value* c = B.CreateCall(fn("__se_is_fpclass", I32, {DTy, I32}), {II->getArgOperand(0), II->getArgOperand(1)});
            R        = B.CreateTrunc(c, B.getInt1Ty());
          } else {
            if (!(isD(T) || isVD(T))) continue;
            const char* n1 = nullptr;
            const char* n2 = nullptr;
            bool        f3 = false, pi = false;
            switch (id) {
              case Intrinsic::sqrt: n1 = "sqrt"; break;
              case Intrinsic::fabs: n1 = "fabs"; break;
              case Intrinsic::exp: n1 = "exp"; break;
              case Intrinsic::exp2: n1 = "exp2"; break;
              case Intrinsic::log: n1 = "log"; break;
              case Intrinsic::log10: n1 = "log10"; break;
              case Intrinsic::log2: n1 = "log2"; break;
              case Intrinsic::sin: n1 = "sin"; break;
              case Intrinsic::cos: n1 = "cos"; break;
              case Intrinsic::floor: n1 = "floor"; break;
              case Intrinsic::ceil: n1 = "ceil"; break;
              case Intrinsic::trunc: n1 = "trunc"; break;
              case Intrinsic::round: n1 = "round"; break;
              case Intrinsic::rint: n1 = "rint"; break;
              case Intrinsic::nearbyint: n1 = "nearbyint"; break;
              case Intrinsic::pow: n2 = "pow"; break;
              case Intrinsic::minnum: n2 = "fmin"; break;
              case Intrinsic::maxnum: n2 = "fmax"; break;
              case Intrinsic::copysign: n2 = "copysign"; break;
              case Intrinsic::powi: pi = true; break;
              case Intrinsic::fma:
              case Intrinsic::fmuladd: f3 = true; break;
              default: break;
            }
            if (n1)
              R = lanes(B, {II->getArgOperand(0)}, T, [&](ArrayRef<Value*> o) { return call1(B, n1, o[0]); });
            else if (n2)
              R = lanes(B, {II->getArgOperand(0), II->getArgOperand(1)}, T,
                        [&](ArrayRef<Value*> o) { return call2(B, n2, o[0], o[1]); });
            else if (f3)
              R = lanes(B, {II->getArgOperand(0), II->getArgOperand(1), II->getArgOperand(2)}, T,
                        [&](ArrayRef<Value*> o) { return call2(B, "fadd", call2(B, "fmul", o[0], o[1]), o[2]); });
            else if (pi)
              R = B.CreateCall(fn("__se_powi", DTy, {DTy, I32}), {II->getArgOperand(0), II->getArgOperand(1)});
            else {
              if (!(id == Intrinsic::vector_reduce_fadd || id == Intrinsic::vector_reduce_fmul)) continue;
              errs() << "sympass: unsupported intrinsic " << Callee->getName() << "\n";
              continue;
            }
          }
        } else {
          std::string nm = Callee->getName().str();
          if (!Callee->isDeclaration()) continue;
          if (libm1().count(nm) && isD(T) && CB->arg_size() == 1)
            R = call1(B, nm, CB->getArgOperand(0));
          else if (libm2().count(nm) && isD(T) && CB->arg_size() == 2)
            R = call2(B, nm, CB->getArgOperand(0), CB->getArgOperand(1));
          else
            continue;
        }
        if (R && isa<InvokeInst>(I)) {
          auto* IV = cast<InvokeInst>(I);
          I->replaceAllUsesWith(R);
          BranchInst::Create(IV->getNormalDest(), I);
          IV->getUnwindDest()->removePredecessor(IV->getParent());
          I->eraseFromParent();
          ++n;
          continue;
        }
      } else
        continue;
      if (!R) continue;
      I->replaceAllUsesWith(R);
      I->eraseFromParent();
      ++n;
    }
    if (n) {
      // coverage note: function entry marks it as encoded
      IRBuilder<> B(&*F.getEntryBlock().getFirstInsertionPt());
      auto*       g = B.CreateGlobalStringPtr(F.getName());
      // one flag per function so that the note costs a load
      auto* flag = new GlobalVariable(*M, Type::getInt8Ty(M->getContext()), false, GlobalValue::InternalLinkage,
                                      ConstantInt::get(Type::getInt8Ty(M->getContext()), 0), "__se_flag");
      B.CreateCall(fn("__se_enter", Type::getVoidTy(M->getContext()), {PointerType::getUnqual(M->getContext()), PointerType::getUnqual(M->getContext())}), {flag, g});
    }
  }
};

}  // namespace

extern "C" LLVM_ATTRIBUTE_WEAK ::llvm::PassPluginLibraryInfo
llvmGetPassPluginInfo()
{
  return {LLVM_PLUGIN_API_VERSION, "sympass", "1", [](PassBuilder& PB) {
            PB.registerOptimizerLastEPCallback(
                [](ModulePassManager& MPM, OptimizationLevel) { MPM.addPass(SymPass()); });
          }};
}
