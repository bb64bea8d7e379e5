// Instantiates the edge-function vocabulary over several lattices.
// Only parsed, never run.
#include "phasar/DataFlow/IfdsIde/DefaultEdgeFunctionSingletonCache.h"
#include "phasar/DataFlow/IfdsIde/EdgeFunction.h"
#include "phasar/DataFlow/IfdsIde/EdgeFunctionSingletonCache.h"
#include "phasar/DataFlow/IfdsIde/EdgeFunctionUtils.h"
#include "phasar/DataFlow/IfdsIde/EdgeFunctions.h"
#include "phasar/Domain/BinaryDomain.h"
#include "phasar/Domain/LatticeDomain.h"

#include <string>

namespace verif_inst {
using namespace psr;
struct Plain { // a value domain without lattice traits
  int V{};
  friend bool operator==(Plain L, Plain R) { return L.V == R.V; }
};
template <typename L>
void useLattice(EdgeFunction<L> A, EdgeFunction<L> B, const L &V,
                llvm::raw_ostream &OS) {
  EdgeFunction<L> I = EdgeIdentity<L>{};
  EdgeFunction<L> T = AllTop<L>{};
  EdgeFunction<L> Bo = AllBottom<L>{};
  auto C = A.composeWith(B);
  auto J = A.joinWith(B);
  (void)A.computeTarget(V);
  (void)A.isConstant();
  (void)A.depth();
  (void)(A == B);
  (void)(A != B);
  (void)(A < B);
  (void)hash_value(A);
  (void)defaultComposeOrNull(A, B);
  (void)defaultJoinOrNull(A, B);
  (void)llvm::isa<EdgeIdentity<L>>(A);
  (void)llvm::dyn_cast<EdgeIdentity<L>>(A);
  (void)llvm::cast<EdgeIdentity<L>>(A);

  EdgeFunction<L> A2 = A;
  EdgeFunction<L> A3 = std::move(A2);
  A2 = A3;
  A3 = std::move(A2);
  A3 = nullptr;
  (void)A.getOpaqueValue();
}
template <typename L>
void useConst(EdgeFunction<L> A, typename NonTopBotValue<L>::type V) {
  EdgeFunction<L> C = ConstantEdgeFunction<L>{V};
  using LCE = EdgeFunctionRef<ConstantEdgeFunction<L>>; LCE R = *(LCE *)nullptr;
  (void)defaultComposeOrNull(R, A);
  (void)defaultJoinOrNull<L>(R, A);
  (void)defaultJoinOrNull<L, 4>(A, A);
  EdgeFunction<L> J = JoinEdgeFunction<L, 4>::create(C, A);
  EdgeFunction<L> CC = C;
  (void)(CC == C);
  (void)C.template isa<ConstantEdgeFunction<L>>();
  llvm::DenseMap<EdgeFunction<L>, int> DM;
  DM[CC] = 1;
}
// composer with default composition
template <typename L> struct Comp : EdgeFunctionComposer<L> {
  static EdgeFunction<L> join(EdgeFunctionRef<Comp> This,
                              const EdgeFunction<L> &Other) {
    return AllBottom<L>{};
  }
};
void inst(llvm::raw_ostream &OS) {
  using LD = LatticeDomain<int64_t>;
  using LS = LatticeDomain<std::string>;
  useLattice<LD>({}, {}, {}, OS);
  useConst<LD>({}, {});
  useLattice<LS>({}, {}, {}, OS);
  useConst<LS>({}, {});
  useLattice<BinaryDomain>({}, {}, {}, OS);
  EdgeFunction<Plain> PI = EdgeIdentity<Plain>{};
  (void)defaultJoinOrNull(PI, PI);
  (void)defaultComposeOrNull(PI, PI);
  EdgeFunction<Plain> PB = AllBottom<Plain>{Plain{}};
  EdgeFunction<Plain> PT = AllTop<Plain>{Plain{}};
  (void)(PB == PT);
  EdgeFunction<LD> CP = Comp<LD>{{EdgeIdentity<LD>{}, EdgeIdentity<LD>{}}};
}
} // namespace verif_inst
namespace verif_inst {
template <typename L> void useDomain(const L &A, const L &B, const typename NonTopBotValue<L>::type &V) {
  (void)JoinLatticeTraits<L>::join(A, B);
  (void)(A == B);
  (void)(A != B);
  (void)(A < B);
  (void)(A == V);
  (void)(V == A);
  (void)(A == Bottom{});
  (void)(A == Top{});
  (void)(Bottom{} == A);
  (void)(Top{} == A);
  (void)A.getValueOrNull();
  L C = A;
  (void)C.getValueOrNull(); (void)C.assertGetValue(); (void)A.assertGetValue();
  if (C.isBottom() || C.isTop()) {
    (void)JoinLatticeTraits<L>::top();
    (void)JoinLatticeTraits<L>::bottom();
  }
}
void inst2(const LatticeDomain<int64_t> &A, const LatticeDomain<std::string> &B, BinaryDomain C) {
  useDomain(A, A, 1);
  useDomain(B, B, "");
  (void)JoinLatticeTraits<BinaryDomain>::join(C, C);
  (void)JoinLatticeTraits<BinaryDomain>::top();
  (void)JoinLatticeTraits<BinaryDomain>::bottom();
}
} // namespace verif_inst
