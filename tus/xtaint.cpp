// Instantiates the edge functions of the extended taint analysis.
// Only parsed, never run.
#include "phasar/DataFlow/IfdsIde/EdgeFunction.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/AllSanitized.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/ComposeEdgeFunction.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/GenEdgeFunction.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/KillIfSanitizedEdgeFunction.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/TransferEdgeFunction.h"
namespace psr::XTaint {
template struct EdgeFunctionBase<KillIfSanitizedEdgeFunction>;
template struct EdgeFunctionBase<TransferEdgeFunction>;
EdgeFunction<EdgeDomain> all(const llvm::Instruction *I) {
  EdgeFunction<EdgeDomain> K = KillIfSanitizedEdgeFunction{{}, nullptr, I};
  EdgeFunction<EdgeDomain> T = TransferEdgeFunction{};
  EdgeFunction<EdgeDomain> S = AllSanitized{};
  return K.joinWith(T).composeWith(S);
}
} // namespace psr::XTaint
