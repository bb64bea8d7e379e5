// Instantiates the result queries, initial seeds and default seeding.
// Only parsed, never run.
#include "phasar/DataFlow/IfdsIde/EntryPointUtils.h"
#include "phasar/DataFlow/IfdsIde/InitialSeeds.h"
#include "phasar/DataFlow/IfdsIde/Solver/IDESolver.h"
#include "phasar/DataFlow/IfdsIde/Solver/IFDSSolver.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedCFG.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedICFG.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/Utils/LLVMShorthands.h"
// after LLVMShorthands.h, which it uses without including it
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMSolverResults.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMZeroValue.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.h"

namespace verif_inst {
struct OpaqueLattice {
  int X = 0;
  bool operator==(const OpaqueLattice &O) const;
  bool operator!=(const OpaqueLattice &O) const;
};
} // namespace verif_inst
namespace psr {
template <> struct JoinLatticeTraits<verif_inst::OpaqueLattice> {
  static verif_inst::OpaqueLattice top();
  static verif_inst::OpaqueLattice bottom();
  static verif_inst::OpaqueLattice join(verif_inst::OpaqueLattice L,
                                        verif_inst::OpaqueLattice R);
};
} // namespace psr

namespace verif_inst {
using namespace psr;
using II = const llvm::Instruction *;
using VV = const llvm::Value *;
struct OwnLattice {
  int X = 0;
  friend bool operator==(OwnLattice A, OwnLattice B) { return A.X == B.X; }
  friend bool operator!=(OwnLattice A, OwnLattice B) { return A.X != B.X; }
};
template <typename R, typename L> void drive(R &Res, II I, VV V) {
  L A = Res.resultAt(I, V);
  auto B = Res.resultsAt(I, true);
  const auto &C = Res.resultsAt(I);
  auto D = Res.resultsAtInLLVMSSA(I, true, true);
  L E = Res.resultAtInLLVMSSA(I, V, true);
  auto F = Res.getAllResultEntries();
  (void)A, (void)B, (void)C, (void)D, (void)E, (void)F;
}
void results(SolverResults<II, VV, BinaryDomain> &SB,
             OwningSolverResults<II, VV, BinaryDomain> &OB,
             SolverResults<II, VV, OwnLattice> &SI,
             SolverResults<II, VV, OpaqueLattice> &SO,
             const LLVMBasedICFG &ICF, II I, VV V) {
  drive<SolverResults<II, VV, BinaryDomain>, BinaryDomain>(SB, I, V);
  drive<SolverResults<II, VV, OwnLattice>, OwnLattice>(SI, I, V);
  drive<SolverResults<II, VV, OpaqueLattice>, OpaqueLattice>(SO, I, V);
  auto F = SB.ifdsResultsAt(I);
  auto G = OB.get();
  SolverResults<II, VV, BinaryDomain> H = OB;
  SB.dumpResults(ICF, llvm::outs());
}
void solvers(IDESolver<IDELinearConstantAnalysisDomain> &S,
             IFDSSolver<LLVMIFDSAnalysisDomainDefault> &T,
             llvm::Instruction *I, VV V, llvm::raw_ostream &OS) {
  auto A = S.resultAt(I, V);
  auto B = S.resultsAt(I, true);
  auto C = S.resultAtInLLVMSSA(I, V);
  auto D = S.resultsAtInLLVMSSA(I, true);
  S.emitTextReport(OS);
  S.emitGraphicalReport(OS);
  S.dumpResults(OS);
  auto G = S.getSolverResults();
  auto H = S.consumeSolverResults();
  auto E = T.ifdsResultsAt(I);
  auto F = T.ifdsResultsAtInLLVMSSA(I);
}
void solve(IDELinearConstantAnalysis &L, IFDSTaintAnalysis &T,
           const LLVMBasedICFG &ICF) {
  auto A = solveIDEProblem(L, ICF);
  auto B = solveIFDSProblem(T, ICF);
}
void seeds(const std::map<II, std::set<VV>> &M,
           const std::map<II, std::map<VV, BinaryDomain>> &G, II I, VV V) {
  InitialSeeds<II, VV, BinaryDomain> A, B(M), C(G);
  A.addSeed(I, V);
  A.addSeed(I, V, BinaryDomain::BOTTOM);
  size_t N = A.countInitialSeeds() + A.countInitialSeeds(I) +
             size_t(A.containsInitialSeedsFor(I)) + size_t(A.empty());
  const auto &X = B.getSeeds();
  auto Y = std::move(C).getSeeds();
  A.dump();
  (void)N, (void)X;
}
struct Defaults : IDELinearConstantAnalysis {
  using IDELinearConstantAnalysis::IDELinearConstantAnalysis;
  auto defaults() { return createDefaultSeeds(); }
  auto zero(VV V) { return generateFromZero(V); }
};
auto defaults(Defaults &D, VV V) {
  D.initializeZeroValue(D.getZeroValue());
  (void)D.isZeroValue(V);
  D.zero(V);
  return D.defaults();
}
void starts(const std::vector<std::string> &EP, const LLVMProjectIRDB &DB,
            const LLVMBasedCFG &CFG, const LLVMBasedICFG &ICF,
            InitialSeeds<II, VV, BinaryDomain> &Seeds, VV Z) {
  addSeedsForStartingPoints(
      EP, static_cast<const ProjectIRDBBase<LLVMProjectIRDB> *>(&DB), CFG,
      Seeds, Z, BinaryDomain::BOTTOM);
  addSeedsForStartingPoints(EP, &ICF, Seeds, Z, BinaryDomain::BOTTOM);
}
} // namespace verif_inst
