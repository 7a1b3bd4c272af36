// On-demand simplification: the front end's output is optimised function by
// function, and only for functions that are executed.
#include "llvm/Analysis/CGSCCPassManager.h"
#include "llvm/Analysis/LoopAnalysisManager.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "symx.h"

using namespace llvm;

namespace {
struct Lazy {
  LoopAnalysisManager LAM;
  FunctionAnalysisManager FAM;
  CGSCCAnalysisManager CGAM;
  ModuleAnalysisManager MAM;
  PassBuilder PB;
  FunctionPassManager FPM;
  std::unordered_map<Function*, int> state;  // 1 in progress, 2 done
  Lazy() {
    PB.registerModuleAnalyses(MAM);
    PB.registerCGSCCAnalyses(CGAM);
    PB.registerFunctionAnalyses(FAM);
    PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    FPM = PB.buildFunctionSimplificationPipeline(OptimizationLevel::O1, ThinOrFullLTOPhase::None);
  }
};
Lazy* lazy = nullptr;

bool inlinable(Function* f) {
  if (f->isDeclaration() || f->isVarArg() || f->hasFnAttribute(Attribute::NoInline) ||
      f->hasFnAttribute(Attribute::OptimizeNone))
    return false;
  if (f->getName().starts_with("symx_") || f->getName().starts_with("__cxa")) return false;
  return true;
}
size_t sizeOf(Function* f) {
  size_t n = 0;
  for (auto& b : *f)
    for (auto& i : b)
      if (!isa<DbgInfoIntrinsic>(i) && !i.isLifetimeStartOrEnd()) n++;
  return n;
}
}  // namespace

static void prepare(Function* F, int depth) {
  if (F->isDeclaration()) return;
  int& st = lazy->state[F];
  if (st) return;
  st = 1;
  // the pipeline is worth its cost only on unoptimised input
  lazy->FPM.run(*F, lazy->FAM);
  lazy->FAM.clear(*F, F->getName());
  bool changed = false;
  if (depth < 12) {
    std::vector<CallBase*> calls;
    for (auto& I : instructions(*F))
      if (auto* cb = dyn_cast<CallBase>(&I))
        if (auto* c = cb->getCalledFunction())
          if (c != F && !c->isIntrinsic() && inlinable(c)) calls.push_back(cb);
    size_t total = sizeOf(F);
    for (auto* cb : calls) {
      Function* c = cb->getCalledFunction();
      int cs = lazy->state[c];
      if (cs == 1) continue;
      if (!cs) {
        if (sizeOf(c) > 220) continue;
        prepare(c, depth + 1);
      }
      size_t n = sizeOf(c);
      bool always = c->hasFnAttribute(Attribute::AlwaysInline);
      if (!always && (n > 45 || total > 4000)) continue;
      InlineFunctionInfo ifi;
      if (InlineFunction(*cb, ifi).isSuccess()) {
        changed = true;
        total += n;
      }
    }
  }
  if (changed) {
    lazy->FPM.run(*F, lazy->FAM);
    lazy->FAM.clear(*F, F->getName());
  }
  lazy->state[F] = 2;
}

void simplifyFunction(Function* F) {
  if (!lazy) lazy = new Lazy;
  if (lazy->state[F] == 1) return;
  prepare(F, 0);
}
