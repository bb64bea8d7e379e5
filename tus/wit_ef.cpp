// Type-level witnesses for the edge-function handle: small-object storage is
// used only for payloads that can be copied byte-wise into a pointer, and the
// handle itself cannot be copied without passing through the ref-count.
#include "phasar/DataFlow/IfdsIde/EdgeFunction.h"

#include <string>
namespace verif_inst {
struct Small { using l_t = int; int V; };
struct Two { void *A; void *B; };
struct Copies { Copies(const Copies &); int V; };
struct Destroys { ~Destroys(); int V; };
struct alignas(2 * alignof(void *)) Aligned {};
template <typename T>
inline constexpr bool Soo = psr::EdgeFunctionBase::IsSOOCandidate<T>;
static_assert(Soo<Small>, "small trivial payloads are stored in place");
static_assert(!Soo<Two>, "payloads larger than a pointer are not stored in place");
static_assert(!Soo<Copies>, "payloads with a copy constructor are not stored in place");
static_assert(!Soo<Destroys>, "payloads with a destructor are not stored in place");
static_assert(!Soo<Aligned>, "over-aligned payloads are not stored in place");
static_assert(!Soo<std::string>, "strings are not stored in place");
using EF = psr::EdgeFunction<int>;
static_assert(!std::is_trivially_copy_constructible_v<EF>, "copies are counted");
static_assert(!std::is_trivially_destructible_v<EF>, "destruction is counted");
static_assert(std::is_nothrow_move_constructible_v<EF>, "moves do not throw");
static_assert(std::is_nothrow_assignable_v<EF &, EF>, "assignments do not throw");
static_assert(!std::is_default_constructible_v<psr::EdgeFunctionRef<Small>>,
              "references are always managed by an edge function");
} // namespace verif_inst
