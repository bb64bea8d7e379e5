// Instantiates equality, hash and order of the value types.  Only parsed.
#include "phasar/DataFlow/IfdsIde/DefaultEdgeFunctionSingletonCache.h"
#include "phasar/DataFlow/Mono/Contexts/CallStringCTX.h"
#include "phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h"
#include "phasar/Domain/LatticeDomain.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/AbstractMemoryLocation.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/EdgeDomain.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEInstInteractionAnalysis.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.h"
#include "phasar/PhasarLLVM/DataFlow/Mono/Problems/IntraMonoFullConstantPropagation.h"
#include "phasar/Utils/BitVectorSet.h"
#include "phasar/Utils/BoxedPointer.h"
#include "phasar/Utils/DOTGraph.h"
#include "phasar/Utils/Table.h"
namespace verif_inst {
using namespace psr;
void bvs(const BitVectorSet<int> &A, const BitVectorSet<int> &B) {
  (void)(A == B);
  (void)(A != B);
  (void)(A < B);
  (void)hash_value(A);
}
void lat(const LatticeDomain<int64_t> &A, const LatticeDomain<int64_t> &B) {
  (void)(A == B);
  (void)(A != B);
  (void)(A < B);
  (void)(A == int64_t(5));
  (void)(A == Top{});
  (void)(A == Bottom{});
}
struct Hv {
  int V;
};
bool operator==(Hv A, Hv B);
bool operator<(Hv A, Hv B);
llvm::hash_code hash_value(Hv A);
void lath(const LatticeDomain<Hv> &A, const LatticeDomain<Hv> &B) {
  (void)(A == B);
  (void)hash_value(A);
}
void cs(const CallStringCTX<const int *, 3> &A,
        const CallStringCTX<const int *, 3> &B) {
  (void)(A == B);
  (void)(A != B);
  (void)(A < B);
  (void)std::hash<CallStringCTX<const int *, 3>>{}(A);
}
void bp(BoxedPtr<int> A, BoxedPtr<int> B, BoxedConstPtr<int> C,
        BoxedConstPtr<int> D) {
  (void)(A == B);
  (void)(A != B);
  (void)(A < B);
  (void)(A > B);
  (void)(A <= B);
  (void)(A >= B);
  (void)hash_value(A);
  (void)(C == D);
  (void)(C != D);
  (void)(C < D);
  (void)(C > D);
  (void)(C <= D);
  (void)(C >= D);
  (void)hash_value(C);
  (void)std::hash<BoxedPtr<int>>{}(A);
  (void)std::hash<BoxedConstPtr<int>>{}(C);
  (void)llvm::DenseMapInfo<BoxedPtr<int>>::getHashValue(A);
  (void)llvm::DenseMapInfo<BoxedConstPtr<int>>::getHashValue(C);
  (void)llvm::DenseMapInfo<BoxedPtr<int>>::isEqual(A, B);
  (void)llvm::DenseMapInfo<BoxedConstPtr<int>>::isEqual(C, D);
  (void)llvm::DenseMapInfo<BoxedPtr<int>>::getEmptyKey();
  (void)llvm::DenseMapInfo<BoxedPtr<int>>::getTombstoneKey();
  (void)llvm::DenseMapInfo<BoxedConstPtr<int>>::getEmptyKey();
  (void)llvm::DenseMapInfo<BoxedConstPtr<int>>::getTombstoneKey();
}
void esg(ExplodedSuperGraph<IDELinearConstantAnalysisDomain>::NodeRef A,
         ExplodedSuperGraph<IDELinearConstantAnalysisDomain>::NodeRef B) {
  (void)(A == B);
  (void)(A != B);
  (void)hash_value(A);
}
void ef(const EdgeFunction<int64_t> &A, const EdgeFunction<int64_t> &B) {
  using I = llvm::DenseMapInfo<EdgeFunction<int64_t>>;
  (void)I::getHashValue(A);
  (void)I::isEqual(A, B);
  (void)I::getEmptyKey();
  (void)I::getTombstoneKey();
  (void)hash_value(A);
}
void aml(AbstractMemoryLocation A, AbstractMemoryLocation B) {
  using I = llvm::DenseMapInfo<AbstractMemoryLocation>;
  (void)I::getHashValue(A);
  (void)I::isEqual(A, B);
  (void)I::getEmptyKey();
  (void)I::getTombstoneKey();
  (void)(A == B);
  (void)(A < B);
  (void)std::hash<AbstractMemoryLocation>{}(A);
}
void ed(XTaint::EdgeDomain A, XTaint::EdgeDomain B) {
  (void)(A == B);
  (void)(A < B);
}
void ev(const glca::EdgeValue &A) { (void)std::hash<glca::EdgeValue>{}(A); }
void iia(const IDEIIAFlowFact &A, const IDEIIAFlowFact &B) {
  (void)(A == B);
  (void)(A != B);
  (void)(A < B);
  (void)std::hash<IDEIIAFlowFact>{}(A);
}
void fca(const IntraMonoFCAFact &A, const IntraMonoFCAFact &B) {
  (void)std::hash<IntraMonoFCAFact>{}(A);
}
void cell(const Table<int, long, unsigned>::Cell &A,
          const Table<int, long, unsigned>::Cell &B) {
  (void)(A == B);
  (void)(A < B);
}
void dot(const DOTNode &A, const DOTNode &B, const DOTEdge &C,
         const DOTEdge &D) {
  (void)(A == B);
  (void)(A < B);
  (void)(C < D);
}
} // namespace verif_inst
