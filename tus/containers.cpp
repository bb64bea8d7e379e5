// Instantiates the library's own containers and graph utilities.
#include "phasar/Utils/AdjacencyList.h"
#include "phasar/Utils/BitVectorSet.h"
#include "phasar/Utils/DFAMinimizer.h"
#include "phasar/Utils/EquivalenceClassMap.h"
#include "phasar/Utils/IotaIterator.h"
#include "phasar/Utils/MaybeUniquePtr.h"
#include "phasar/Utils/RepeatIterator.h"
#include "phasar/Utils/StableVector.h"

#include "llvm/Support/raw_ostream.h"

struct Elem {
  int V;
  friend bool operator==(const Elem &, const Elem &);
  friend bool operator!=(const Elem &, const Elem &);
  friend bool operator<(const Elem &, const Elem &);
  friend llvm::raw_ostream &operator<<(llvm::raw_ostream &, const Elem &);
};
namespace std {
template <> struct hash<Elem> {
  size_t operator()(const Elem &) const noexcept;
};
} // namespace std

using BVS = psr::BitVectorSet<Elem>;
struct Val {
  int V;
  friend bool operator==(const Val &, const Val &);
};
using ECM = psr::EquivalenceClassMap<Elem, Val>;
template class psr::StableVector<Elem>;
using SV = psr::StableVector<Elem>;
template class psr::IotaIterator<unsigned>;
template class psr::RepeatIterator<Elem>;
using MUP = psr::MaybeUniquePtr<Elem>;
using G1 = psr::AdjacencyList<Elem>;
using G2 = psr::AdjacencyList<llvm::NoneType>;
template struct psr::GraphTraits<G1>;
template struct psr::GraphTraits<G2>;

void use(const void *);
void bvs(BVS &A, const BVS &B, const Elem &E, llvm::raw_ostream &OS) {
  BVS C(size_t(3));
  BVS L({E, E});
  BVS R(&E, &E);
  A = B.setUnion(B);
  A = B.setIntersect(B);
  A.setIntersectWith(B);
  A.setUnionWith(B);
  bool X = A.includes(B);
  A.insert(E);
  A.insert(B);
  A.insert(&E, &E);
  A.erase(E);
  A.erase(B);
  A.clear();
  A.reserve(2);
  X = A.empty() || A.find(E) || A.count(E) || A.size() || A == B || A != B ||
      A < B;
  use(&X);
  (void)hash_value(A);
  OS << A;
  auto It = A.begin();
  ++It;
  It++;
  It += 1;
  auto J = It + 1;
  X = It == J || It != A.end();
  use(&*It);
  auto K = B.begin();
  ++K;
  X = K != B.end();
}
void ecm(ECM &M, const ECM &C, const Elem &A, Elem B, const Val &V) {
  M.insert(A, V);
  M.insert(std::move(B), V);
  M.insert(std::pair<Elem, Val>{A, V});
  const std::pair<Elem, Val> P{A, V};
  M.insert(P);
  M.insert(&P, &P + 1);
  M.try_emplace(A, V);
  M.try_emplace(std::move(B), V);
  ECM N({P, P});
  ECM O(&P, &P + 1);
  ECM Q(3);
  size_t X = C.count(A) + C.size() + C.numEquivalenceClasses();
  use(&X);
  auto I = C.find(A);
  auto W = C.findValue(A);
  for (auto &Y : C)
    use(&Y);
  for (auto &Y : C.equivalenceClasses())
    use(&Y);
  M.clear();
}
void sv(SV &A, SV &B, const Elem &E) {
  A.emplace_back(E);
  A = std::move(B);
  swap(A, B);
  SV C(std::move(A));
  bool X = A == B || A != B;
  use(&X);
  for (auto &Y : A)
    use(&Y);
  SV::const_iterator I = A.begin();
  I = A.begin();
  I++;
  for (auto &Y : static_cast<const SV &>(A))
    use(&Y);
}
struct Base { virtual ~Base(); };
struct Derived : Base {};
void mup(MUP &A, MUP &B, Elem *E, std::unique_ptr<Elem> U,
         std::unique_ptr<Derived> D) {
  MUP C(E);
  MUP O(std::move(U));
  swap(A, B);
  A = std::move(B);
  A = std::move(U);
  psr::MaybeUniquePtr<Base> X(std::move(D));
  X = std::move(D);
  use(A.get());
  use(A.operator->());
  use(&*A);
  use(A.release());
  A.reset();
  A.reset(std::move(B));
  A.reset(std::move(U));
  bool Y = A.owns() || A == B || A != B || A == (const Elem *)E ||
           A != (const Elem *)E || (const Elem *)E == A ||
           (const Elem *)E != A || bool(A);
  use(&Y);
}
template <typename G, typename... T> void graph(G &A, const G &C, T &&...Tag) {
  using GT = psr::GraphTraits<G>;
  auto V = GT::addNode(A, std::forward<T>(Tag)...);
  GT::addRoot(A, V);
  GT::addEdge(A, V, V);
  GT::dedupOutEdges(A, V);
  GT::reserve(A, 2);
  for (auto X : GT::roots(C))
    for (auto E : GT::outEdges(C, X))
      V += GT::target(E) + GT::withEdgeTarget(E, X) + GT::outDegree(C, X);
  for (auto X : GT::vertices(C))
    use(&X);
  auto N = GT::node(C, V);
  use(&N);
  V += GT::size(C) + GT::roots_size(C);
  if (GT::pop(A, V))
    use(&A);
  auto Eq = psr::minimizeGraph(C);
  auto R = psr::createEquivalentGraphFrom(G(C), Eq);
  use(&R);
}
void graphs(G1 &A, const G1 &B, G2 &C, const G2 &D, Elem E) {
  graph(A, B, E);
  graph(C, D);
  use(&psr::GraphTraits<G1>::node(A, 0));
  auto R = psr::repeat(E, 2);
  use(&R);
  auto I = psr::iota(1u, 4u);
  use(&I);
}
