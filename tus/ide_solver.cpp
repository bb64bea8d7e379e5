// Instantiates the IDE/IFDS solver stack on the repository's own LLVM domains.
// Only parsed, never run.
#include "phasar/DataFlow/IfdsIde/Solver/IDESolver.h"
#include "phasar/DataFlow/IfdsIde/Solver/IFDSSolver.h"
#include "phasar/DataFlow/IfdsIde/Solver/PathAwareIDESolver.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedICFG.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMZeroValue.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.h"

namespace verif_inst {
using namespace psr;
template <typename S, typename P>
void driveIDE(P &Prob, const LLVMBasedICFG &ICF, llvm::raw_ostream &OS) {
  S Solver(Prob, &ICF);
  Solver.solve();
  auto R = Solver.getSolverResults();
  (void)R;
  Solver.dumpResults(OS);
  Solver.emitESGAsDot(OS);
  S Solver2(Prob, &ICF);
  auto R2 = std::move(Solver2).solve();
  S Solver3(Prob, &ICF);
  auto R3 = Solver3.solveWithTimeout(std::chrono::milliseconds(1), std::chrono::milliseconds(1));
  auto R4 = Solver3.solveWithAsyncCancellation(*(std::atomic_bool *)nullptr);
  auto R5 = Solver3.continueSolving();
  auto MS = std::chrono::milliseconds(1);
  auto Never = [] { return true; };
  auto Timed = [](std::chrono::steady_clock::time_point) { return true; };
  Solver3.solveUntil(Never, MS);
  Solver3.continueUntil(Never, MS);
  Solver3.continueUntil(Timed, MS);
  Solver3.continueWithTimeout(MS, MS);
  Solver3.continueWithAsyncCancellation(*(std::atomic_bool *)nullptr);
  std::move(Solver3).solveUntil(Never, MS);
  std::move(Solver3).continueUntil(Never, MS);
  std::move(Solver3).solveWithTimeout(MS, MS);
  std::move(Solver3).continueWithTimeout(MS, MS);
  std::move(Solver3).solveWithAsyncCancellation(*(std::atomic_bool *)nullptr);
  std::move(Solver3).continueWithAsyncCancellation(
      *(std::atomic_bool *)nullptr);
  std::move(Solver3).continueSolving();
  if (Solver3.initialize() && Solver3.nextN(5) && Solver3.next()) {
    Solver3.finalize();
    std::move(Solver3).finalize();
  }
}
void inst(IDELinearConstantAnalysis &L, IFDSTaintAnalysis &T,
          const LLVMBasedICFG &ICF, llvm::raw_ostream &OS) {
  driveIDE<IDESolver<IDELinearConstantAnalysisDomain>>(L, ICF, OS);
  driveIDE<PathAwareIDESolver<IDELinearConstantAnalysisDomain>>(L, ICF, OS);
  driveIDE<IFDSSolver<LLVMIFDSAnalysisDomainDefault>>(T, ICF, OS);
}
size_t useESG(const ExplodedSuperGraph<IDELinearConstantAnalysisDomain> &G,
              const llvm::Instruction *I, const llvm::Value *V) {
  auto N = G.getNodeOrNull(I, V);
  size_t X = N.id() + N.getNumNeighbors() + size_t(N.hasNeighbors()) + G.size();
  if (N && N.value() == V && N.source() == I && N.predecessor() == N) {
    for (auto NB : N.neighbors()) {
      X += NB.id();
    }
  }
  (void)G.fromNodeId(X);
  (void)G.getZeroValue();
  return X;
}
} // namespace verif_inst
