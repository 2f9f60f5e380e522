// LLVM 18 pass plugin: rewrites every double-precision operation of a module into
// calls of the symbolic runtime (sr_*).  Runs at the start of the pipeline, before any
// optimisation, so that what is executed symbolically is what the front end emitted.
#include "llvm/IR/PassManager.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include <map>
#include <string>
using namespace llvm;
namespace {
static const std::map<std::string,std::string>& libmap(){
  static std::map<std::string,std::string> m;
  if(m.empty()){
    for(const char*f:{"sqrt","pow","exp","log","log10","log2","sin","cos","tan","asin","acos","atan","sinh","cosh","tanh","atan2",
      "hypot","ceil","floor","round","trunc","fmax","fmin","fabs","fmod","cabs","carg","ldexp","modf","frexp","sincos",
      "cexp","clog","cpow","csqrt","csin","ccos","ctan","casin","cacos","catan","csinh","ccosh","ctanh","__muldc3","__divdc3","rint","nearbyint","lround","llround","lrint","exp2","log1p","expm1","cbrt","asinh","acosh","atanh"})
      m[f]=std::string("sr_")+f;
  }
  return m;
}
struct SymPass : PassInfoMixin<SymPass>{
  PreservedAnalyses run(Module&M, ModuleAnalysisManager&){
    LLVMContext&C=M.getContext(); Type*D=Type::getDoubleTy(C); Type*I32=Type::getInt32Ty(C); Type*I64=Type::getInt64Ty(C); 
    auto fn=[&](const char*n,Type*r,std::vector<Type*> a){ return M.getOrInsertFunction(n,FunctionType::get(r,a,false)); };
    // libm calls (also covers references by call only)
    for(auto&kv:libmap()){
      Function*F=M.getFunction(kv.first);
      if(!F||!F->isDeclaration()) continue;
      FunctionCallee nf=M.getOrInsertFunction(kv.second,F->getFunctionType());
      if(auto*NF=dyn_cast<Function>(nf.getCallee())) { /* same ABI attrs on params */
        AttributeList al; 
        NF->setAttributes(AttributeList()); (void)al;
        NF->addFnAttr(Attribute::WillReturn); NF->removeFnAttr(Attribute::WillReturn);
        for(unsigned i=0;i<F->arg_size();i++) if(F->hasParamAttribute(i,Attribute::ByVal)) NF->addParamAttr(i,F->getParamAttribute(i,Attribute::ByVal));
      }
      F->replaceAllUsesWith(nf.getCallee());
    }
    for(Function&F:M){
      if(F.isDeclaration()) continue;
      if(F.getName().starts_with("sr_")) continue;
      std::vector<Instruction*> work;
      for(auto&B:F) for(auto&I:B) work.push_back(&I);
      for(Instruction*I:work){
        IRBuilder<> Bd(I);
        if(auto*BO=dyn_cast<BinaryOperator>(I)){
          if(!I->getType()->isDoubleTy()) continue;
          const char*n=nullptr;
          switch(BO->getOpcode()){case Instruction::FAdd:n="sr_fadd";break;case Instruction::FSub:n="sr_fsub";break;
            case Instruction::FMul:n="sr_fmul";break;case Instruction::FDiv:n="sr_fdiv";break;case Instruction::FRem:n="sr_fmod";break;default:;}
          if(!n) continue;
          auto*c=Bd.CreateCall(fn(n,D,{D,D}),{I->getOperand(0),I->getOperand(1)});
          I->replaceAllUsesWith(c); I->eraseFromParent();
        } else if(auto*U=dyn_cast<UnaryOperator>(I)){
          if(U->getOpcode()!=Instruction::FNeg||!I->getType()->isDoubleTy()) continue;
          auto*c=Bd.CreateCall(fn("sr_fneg",D,{D}),{I->getOperand(0)});
          I->replaceAllUsesWith(c); I->eraseFromParent();
        } else if(auto*FC=dyn_cast<FCmpInst>(I)){
          if(!FC->getOperand(0)->getType()->isDoubleTy()) continue;
          auto*c=Bd.CreateCall(fn("sr_fcmp",I32,{I32,D,D}),{ConstantInt::get(I32,FC->getPredicate()),FC->getOperand(0),FC->getOperand(1)});
          auto*t=Bd.CreateICmpNE(c,ConstantInt::get(I32,0));
          I->replaceAllUsesWith(t); I->eraseFromParent();
        } else if(isa<FPToSIInst>(I)||isa<FPToUIInst>(I)){
          if(!I->getOperand(0)->getType()->isDoubleTy()) continue;
          auto*c=Bd.CreateCall(fn(isa<FPToSIInst>(I)?"sr_fptosi":"sr_fptoui",I64,{D}),{I->getOperand(0)});
          Value*v=Bd.CreateIntCast(c,I->getType(),isa<FPToSIInst>(I));
          I->replaceAllUsesWith(v); I->eraseFromParent();
        } else if(isa<SIToFPInst>(I)||isa<UIToFPInst>(I)){
          if(!I->getType()->isDoubleTy()||!I->getOperand(0)->getType()->isIntegerTy()) continue;
          if(I->getOperand(0)->getType()->getIntegerBitWidth()<=53) continue;
          bool s=isa<SIToFPInst>(I);
          Value*v=Bd.CreateIntCast(I->getOperand(0),I64,s);
          auto*c=Bd.CreateCall(fn(s?"sr_sitofp":"sr_uitofp",D,{I64}),{v});
          I->replaceAllUsesWith(c); I->eraseFromParent();
        } else if(auto*II=dyn_cast<IntrinsicInst>(I)){
          const char*n=nullptr; int na=1;
          bool dbl=II->getType()->isDoubleTy();
          switch(II->getIntrinsicID()){
            case Intrinsic::fabs:n="sr_fabs";break; case Intrinsic::sqrt:n="sr_sqrt";break;
            case Intrinsic::floor:n="sr_floor";break; case Intrinsic::ceil:n="sr_ceil";break;
            case Intrinsic::round:n="sr_round";break; case Intrinsic::trunc:n="sr_trunc";break;
            case Intrinsic::rint:case Intrinsic::nearbyint:case Intrinsic::roundeven:n="sr_rint";break;
            case Intrinsic::exp:n="sr_exp";break; case Intrinsic::log:n="sr_log";break; case Intrinsic::log10:n="sr_log10";break;
            case Intrinsic::log2:n="sr_log2";break; case Intrinsic::exp2:n="sr_exp2";break;
            case Intrinsic::sin:n="sr_sin";break; case Intrinsic::cos:n="sr_cos";break;
            case Intrinsic::pow:n="sr_pow";na=2;break; case Intrinsic::maxnum:n="sr_fmax";na=2;break; case Intrinsic::minnum:n="sr_fmin";na=2;break;
            case Intrinsic::copysign:n="sr_copysign";na=2;break;
            case Intrinsic::fmuladd: case Intrinsic::fma:n="sr_fma";na=3;break;
            case Intrinsic::powi: if(dbl){ auto*c=Bd.CreateCall(fn("sr_powi",D,{D,I32}),{II->getOperand(0),Bd.CreateIntCast(II->getOperand(1),I32,true)}); I->replaceAllUsesWith(c); I->eraseFromParent(); } continue;
            case Intrinsic::is_fpclass: if(II->getOperand(0)->getType()->isDoubleTy()){ auto*c=Bd.CreateCall(fn("sr_isclass",I32,{D,I32}),{II->getOperand(0),II->getOperand(1)});
                Value*t=Bd.CreateICmpNE(c,ConstantInt::get(I32,0)); I->replaceAllUsesWith(t); I->eraseFromParent(); } continue;
            default:;
          }
          if(!n||!dbl) continue;
          std::vector<Type*> ts(na,D); std::vector<Value*> as; for(int k=0;k<na;k++) as.push_back(II->getOperand(k));
          auto*c=Bd.CreateCall(fn(n,D,ts),as);
          I->replaceAllUsesWith(c); I->eraseFromParent();
        }
      }
    }
    return PreservedAnalyses::none();
  }
  static bool isRequired(){return true;}
};
}
extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo(){
  return {LLVM_PLUGIN_API_VERSION,"SymPass","1",[](PassBuilder&PB){
    PB.registerPipelineStartEPCallback([](ModulePassManager&MPM,OptimizationLevel){MPM.addPass(SymPass());});
    PB.registerPipelineParsingCallback([](StringRef N,ModulePassManager&MPM,ArrayRef<PassBuilder::PipelineElement>){ if(N=="sympass"){MPM.addPass(SymPass());return true;} return false;});
  }};
}
