// Instantiates the typestate analysis over the shipped descriptions.
// Only parsed, never run.
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedICFG.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDETypeStateAnalysis.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/TypeStateDescriptions/CSTDFILEIOTypeStateDescription.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/TypeStateDescriptions/OpenSSLEVPKDFCTXDescription.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/TypeStateDescriptions/OpenSSLEVPKDFDescription.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/TypeStateDescriptions/OpenSSLSecureHeapDescription.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/TypeStateDescriptions/OpenSSLSecureMemoryDescription.h"
#include "phasar/PhasarLLVM/Pointer/LLVMAliasInfo.h"
namespace psr {
template class IDETypeStateAnalysis<CSTDFILEIOTypeStateDescription>;
template class IDETypeStateAnalysis<OpenSSLEVPKDFCTXDescription>;
template class IDETypeStateAnalysis<OpenSSLEVPKDFDescription>;
template class IDETypeStateAnalysis<OpenSSLSecureHeapDescription>;
template class IDETypeStateAnalysis<OpenSSLSecureMemoryDescription>;
} // namespace psr
