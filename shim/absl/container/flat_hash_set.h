#pragma once
#include "sx_hash.h"
namespace absl {
namespace container_internal {
struct sx_self {
  template <class P>
  const P& operator()(const P& p) const {
    return p;
  }
};
}  // namespace container_internal
template <class K, class H = container_internal::hash_default_hash<K>,
          class E = container_internal::hash_default_eq<K>, class A = std::allocator<K>>
class flat_hash_set : public container_internal::sx_table<K, container_internal::sx_self, E> {
  using B = container_internal::sx_table<K, container_internal::sx_self, E>;

 public:
  using key_type = K;
  using value_type = K;
  using allocator_type = A;
  using iterator = typename B::const_iterator;
  flat_hash_set() = default;
  explicit flat_hash_set(size_t) {}
  explicit flat_hash_set(const A&) {}
  flat_hash_set(std::initializer_list<K> l) { B::insert(l); }
  template <class It, class = typename std::iterator_traits<It>::iterator_category>
  flat_hash_set(It b, It e) {
    B::insert(b, e);
  }
  friend bool operator==(const flat_hash_set& a, const flat_hash_set& b) {
    if (a.size() != b.size()) return false;
    for (auto& x : a)
      if (!b.contains(x)) return false;
    return true;
  }
  friend bool operator!=(const flat_hash_set& a, const flat_hash_set& b) { return !(a == b); }
};
}  // namespace absl
