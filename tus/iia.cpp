// Instantiates the instruction-interaction analysis.
// Only parsed, never run.
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedICFG.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEInstInteractionAnalysis.h"
#include "phasar/PhasarLLVM/Pointer/LLVMAliasInfo.h"
namespace psr {
template class IDEInstInteractionAnalysisT<std::string, false, false>;
template class IDEInstInteractionAnalysisT<std::string, true, true>;
} // namespace psr
