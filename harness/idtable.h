// clang, unlike g++, rejects asking whether a table can be made without an
// allocator.
#include <type_traits>
#include "engine/IdTable.h"
template <int C, class D, class A>
inline constexpr bool std::is_default_constructible_v<detail::IdTableTemplated<C, D, A>> = false;
template <int C, class D, class A>
struct std::__is_implicitly_default_constructible<detail::IdTableTemplated<C, D, A>> : std::false_type {};
