// Instantiates the solver's tables and the container templates.  Only parsed.
#include "phasar/PhasarLLVM/Utils/LLVMShorthands.h"
#include "phasar/Utils/Printer.h"
#include "phasar/DataFlow/IfdsIde/EdgeFunctionUtils.h"
#include "phasar/DataFlow/IfdsIde/Solver/JumpFunctions.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.h"
#include "phasar/Utils/Table.h"
namespace verif_inst {
using namespace psr;
using JF = JumpFunctions<IDELinearConstantAnalysisDomain,
                         std::set<const llvm::Value *>>;
using D = IDELinearConstantAnalysisDomain;
void jf(JF &J, D::n_t N, D::d_t A, D::d_t B, EdgeFunction<D::l_t> E) {
  J.addFunction(A, N, B, E);
  J.reverseLookup(N, B);
  J.forwardLookup(A, N);
  J.lookupByTarget(N);
  J.removeFunction(A, N, B);
  J.foreachEdgeFunction([](const EdgeFunction<D::l_t> &) {});
  J.clear();
}
void tab(Table<int, long, unsigned> &T, const Table<int, long, unsigned> &C,
         llvm::raw_ostream &OS) {
  T.insert(1, 2, 3);
  T.clear();
  (void)C.empty();
  (void)C.size();
  (void)C.cellSet();
  (void)C.cellVec();
  C.foreachCell([](int, long, unsigned) {});
  T.foreachCell([](int, long, unsigned &) {});
  (void)C.contains(1, 2);
  (void)C.containsColumn(2);
  (void)C.containsRow(1);
  (void)T.get(1, 2);
  (void)C.get(1, 2);
  T.remove(1, 2);
  T.remove(1);
  (void)T.row(1);
  (void)C.row(1);
  (void)C.rowMap();
  (void)(T == C);
  OS << T;
}
} // namespace verif_inst
