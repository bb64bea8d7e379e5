// Instantiates the flow-function building blocks.
#include "phasar/DataFlow/IfdsIde/FlowFunctions.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h"

#include "phasar/PhasarLLVM/TaintConfig/TaintConfigUtilities.h"

#include "llvm/IR/InstrTypes.h"
#include "llvm/IR/Instructions.h"

using D = const llvm::Value *;
using C = std::set<D>;
using T = psr::FlowFunctionTemplates<D, C>;
using P = psr::FlowFunctionPtrType<D, C>;

struct Pred {
  bool operator()(D) const;
  bool operator()(D, D) const;
};
struct Post {
  void operator()(C &) const;
};
struct Lam {
  C operator()(D) const;
};
struct Mk {
  D operator()(D) const;
};

struct Acc : T {
  P uni(P A, P B) { return unionFlows<psr::FlowFunction<D, C>, psr::FlowFunction<D, C>>(A, B); }
};

void use(P);
void instantiate(D A, D B, C S, const llvm::CallBase *CB,
                 const llvm::Function *F, const llvm::Instruction *I,
                 const llvm::StoreInst *St) {
  use(T::identityFlow());
  use(T::lambdaFlow(Lam{}));
  use(T::generateFlow(A, B));
  use(T::generateFlowIf(A, Pred{}));
  use(T::generateManyFlows(S, A));
  use(T::generateManyFlows(std::vector<D>{A}, A));
  use(T::killManyFlows(std::vector<D>{A}));
  use(T::killFlow(A));
  use(T::killFlowIf(Pred{}));
  use(T::killManyFlows(S));
  use(T::killAllFlows());
  use(T::generateFlowAndKillAllOthers(A, B));
  use(T::generateManyFlowsAndKillAllOthers(S, A));
  use(T::transferFlow(A, B));
  use(Acc{}.uni(nullptr, nullptr));
  use(std::make_shared<psr::ZeroedFlowFunction<D, C>>(nullptr, A));
  use(psr::mapFactsAlongsideCallSite<D, C>(CB, Pred{}, true, Mk{}));
  use(psr::mapFactsToCallee<D, C>(CB, F, Pred{}, Mk{}, true, true));
  use(psr::mapFactsToCaller<D, C>(CB, I, Pred{}, Pred{}, Mk{}, true, true,
                                  Post{}));
  use(psr::strongUpdateStore<Pred, C>(St, Pred{}));
  use(psr::strongUpdateStore<C>(St));
}

void collect(C &S, const psr::LLVMTaintConfig &Cfg, const llvm::CallBase *CB,
             const llvm::Function *F, bool (*P)(D)) {
  psr::collectGeneratedFacts(S, Cfg, CB, F);
  psr::collectLeakedFacts(S, Cfg, CB, F, P);
  psr::collectLeakedFacts(S, Cfg, CB, F);
  psr::collectSanitizedFacts(S, Cfg, CB, F);
}
