// Instantiates the call graph container and its users.  Only parsed.
#include "phasar/ControlFlow/CallGraph.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedBackwardICFG.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedCallGraph.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedICFG.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instruction.h"
#include "llvm/ADT/StringRef.h"
namespace verif_inst {
using namespace psr;
using N = const llvm::Instruction *;
using F = const llvm::Function *;
void cg(CallGraphBuilder<N, F> &B, N I, F Fn, llvm::raw_ostream &OS,
        const CallGraphData &D, F (*GF)(llvm::StringRef), N (*GI)(size_t),
        size_t (*II)(N), std::string (*FI)(F), F (*P)(N)) {
  B.reserve(1);
  auto *FV = B.addFunctionVertex(Fn);
  auto *IV = B.addInstructionVertex(I);
  B.getInstVertexOrNull(I);
  B.addCallEdge(I, Fn);
  B.addCallEdge(I, IV, Fn);
  B.addCallEdge(I, Fn, FV);
  auto G = B.consumeCallGraph();
  (void)B.viewCallGraph();
  auto H = CallGraph<N, F>::deserialize(D, GF, GI);
  (void)G.getCalleesOfCallAt(I);
  (void)G.getCallersOf(Fn);
  (void)G.getAllVertexFunctions();
  (void)G.getAllVertexCallSites();
  (void)G.getNumVertexFunctions();
  (void)G.getNumVertexCallSites();
  (void)G.size();
  (void)G.empty();
  G.printAsJson(OS, FI, II);
  (void)G.getAsJson(FI, II);
  G.printAsDot(OS, FI, P, [](N X) { return llvm::StringRef(); });
}
} // namespace verif_inst
