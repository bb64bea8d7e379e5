// Instances of the monotone framework solvers.
#include "phasar/DataFlow/Mono/Solver/InterMonoSolver.h"
#include "phasar/DataFlow/Mono/Solver/IntraMonoSolver.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedCFG.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedICFG.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/DataFlow/Mono/Problems/InterMonoSolverTest.h"
#include "phasar/PhasarLLVM/DataFlow/Mono/Problems/IntraMonoFullConstantPropagation.h"
#include "phasar/PhasarLLVM/DataFlow/Mono/Problems/IntraMonoSolverTest.h"

template class psr::IntraMonoSolver<
    psr::IntraMonoSolverTest::ProblemAnalysisDomain>;
template class psr::IntraMonoSolver<
    psr::IntraMonoFullConstantPropagation::ProblemAnalysisDomain>;
template class psr::InterMonoSolver<
    psr::InterMonoSolverTest::ProblemAnalysisDomain, 3>;
template class psr::CallStringCTX<const llvm::Instruction *, 3>;
