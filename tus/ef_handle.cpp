// Instantiates the type-erased edge-function handle with every kind of payload.
// Only parsed, never run.
#include "phasar/DataFlow/IfdsIde/DefaultEdgeFunctionSingletonCache.h"
#include "phasar/DataFlow/IfdsIde/EdgeFunction.h"
#include "phasar/DataFlow/IfdsIde/EdgeFunctionSingletonCache.h"
#include "phasar/DataFlow/IfdsIde/EdgeFunctionUtils.h"

#include <string>

namespace verif_inst {
using namespace psr;
#define EF_MEMBERS(T)                                                          \
  using l_t = int;                                                             \
  int computeTarget(int S) const { return S; }                                 \
  static EdgeFunction<int> compose(EdgeFunctionRef<T> This,                    \
                                   const EdgeFunction<int> &Second);           \
  static EdgeFunction<int> join(EdgeFunctionRef<T> This,                       \
                                const EdgeFunction<int> &Other);

struct Empty {
  EF_MEMBERS(Empty)
};
struct Small {
  int V{};
  EF_MEMBERS(Small)
  bool isConstant() const noexcept { return V; }
  size_t depth() const noexcept { return 2; }
  friend bool operator==(const Small &L, const Small &R) { return L.V == R.V; }
};
struct Big {
  std::string V;
  EF_MEMBERS(Big)
  bool isConstant() const noexcept;
  size_t depth() const noexcept;
  friend bool operator==(const Big &L, const Big &R);
  friend llvm::hash_code hash_value(const Big &);
  friend llvm::raw_ostream &operator<<(llvm::raw_ostream &OS, const Big &);
};
struct BigNoHash {
  std::string V;
  EF_MEMBERS(BigNoHash)
  friend bool operator==(const BigNoHash &L, const BigNoHash &R);
};
struct StdHash {
  std::string V;
  EF_MEMBERS(StdHash)
  friend bool operator==(const StdHash &L, const StdHash &R);
};
} // namespace verif_inst
namespace std {
template <> struct hash<verif_inst::StdHash> {
  size_t operator()(const verif_inst::StdHash &) const noexcept;
};
} // namespace std
namespace verif_inst {
template <typename T>
void use(EdgeFunction<int> A, T V, EdgeFunctionRef<T> R,
         EdgeFunctionSingletonCache<T> *C, llvm::raw_ostream &OS) {
  EdgeFunction<int> B = T(V);
  EdgeFunction<int> P(std::in_place_type<T>, V);
  EdgeFunction<int> D = R;
  EdgeFunction<int> E = CachedEdgeFunction<T>{V, C};
  EdgeFunction<int> G = C->createEdgeFunction(T(V));
  (void)(R == A);
  (void)(A == R);
  (void)(R != A);
  (void)(A != R);
  (void)A.template isa<T>();
  (void)A.template dyn_cast<T>();
  (void)A.template cast<T>();
  (void)A.template getCacheOrNull<T>();
  (void)llvm::isa<T>(A);
  (void)llvm::dyn_cast<T>(A);
  (void)llvm::cast<T>(A);
  (void)llvm::dyn_cast_or_null<T>(A);
  (void)llvm::cast_or_null<T>(A);
  (void)R.get();
  (void)*R;
  (void)R->computeTarget(1);
  (void)R.isCached();
  (void)R.getCacheOrNull();
}
void all(EdgeFunction<int> A, EdgeFunction<int> B, llvm::raw_ostream &OS,
         EdgeFunctionRef<Empty> R1, EdgeFunctionRef<Small> R2,
         EdgeFunctionRef<Big> R3, EdgeFunctionRef<BigNoHash> R4,
         EdgeFunctionRef<StdHash> R5, std::ostream &SOS) {
  use<Empty>(A, {}, R1, nullptr, OS);
  use<Small>(A, {}, R2, nullptr, OS);
  use<Big>(A, {}, R3, nullptr, OS);
  use<BigNoHash>(A, {}, R4, nullptr, OS);
  use<StdHash>(A, {}, R5, nullptr, OS);
  swap(A, B);
  A.swap(B);
  A = B;
  A = std::move(B);
  A = nullptr;
  (void)(A == B);
  (void)(A != B);
  (void)(A == nullptr);
  (void)(nullptr == A);
  (void)(A != nullptr);
  (void)(nullptr != A);
  (void)(A < B);
  (void)hash_value(A);
  (void)A.isRefCounted();
  (void)A.isCached();
  (void)A.getAllocationPolicy();
  (void)A.getOpaqueValue();
  (void)A.referenceEquals(B);
  (void)A.depth();
  (void)A.isConstant();
  (void)A.computeTarget(1);
  (void)A.composeWith(B);
  (void)A.joinWith(B);
  (void)A.getHashCode();
  (void)bool(A);
  (void)to_string(A);
  OS << A;
  SOS << A;
  llvm::DenseMap<EdgeFunction<int>, int> DM;
  DM[A] = 1;
}
} // namespace verif_inst
namespace psr {
template class DefaultEdgeFunctionSingletonCache<verif_inst::Big>;
}
