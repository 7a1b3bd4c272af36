#pragma once
#include "sx_hash.h"
namespace absl {
template <class K, class V, class H = container_internal::hash_default_hash<K>,
          class E = container_internal::hash_default_eq<K>,
          class A = std::allocator<std::pair<const K, V>>>
class flat_hash_map;
namespace container_internal {
struct sx_first {
  template <class P>
  const auto& operator()(const P& p) const {
    return p.first;
  }
};
}  // namespace container_internal
template <class K, class V, class H, class E, class A>
class flat_hash_map
    : public container_internal::sx_table<std::pair<const K, V>, container_internal::sx_first, E> {
  using B = container_internal::sx_table<std::pair<const K, V>, container_internal::sx_first, E>;

 public:
  using key_type = K;
  using mapped_type = V;
  using value_type = std::pair<const K, V>;
  using allocator_type = A;
  using hasher = H;
  using key_equal = E;
  using typename B::Node;
  flat_hash_map() = default;
  explicit flat_hash_map(size_t) {}
  explicit flat_hash_map(const A&) {}
  template <class X, class = std::enable_if_t<std::is_convertible_v<X, A> && !std::is_integral_v<X>>,
            class = void>
  explicit flat_hash_map(const X&) {}
  flat_hash_map(size_t, const H&, const E& = E(), const A& = A()) {}
  flat_hash_map(std::initializer_list<value_type> l) { this->insert(l); }
  template <class It, class = typename std::iterator_traits<It>::iterator_category>
  flat_hash_map(It b, It e) {
    this->insert(b, e);
  }
  template <class Q = K>
  V& operator[](const Q& k) {
    size_t i = this->indexOf(k);
    if (i != this->n_.size()) return this->n_[i]->v.second;
    return this->add(new Node(std::piecewise_construct, std::forward_as_tuple(k), std::tuple<>()))
        ->second;
  }
  V& operator[](K&& k) {
    size_t i = this->indexOf(k);
    if (i != this->n_.size()) return this->n_[i]->v.second;
    return this
        ->add(new Node(std::piecewise_construct, std::forward_as_tuple(std::move(k)), std::tuple<>()))
        ->second;
  }
  template <class Q>
  V& at(const Q& k) {
    size_t i = this->indexOf(k);
    if (i == this->n_.size()) throw std::out_of_range("flat_hash_map::at");
    return this->n_[i]->v.second;
  }
  template <class Q>
  const V& at(const Q& k) const {
    size_t i = this->indexOf(k);
    if (i == this->n_.size()) throw std::out_of_range("flat_hash_map::at");
    return this->n_[i]->v.second;
  }
  template <class Q, class... Ar>
  std::pair<typename B::iterator, bool> try_emplace(Q&& k, Ar&&... a) {
    size_t i = this->indexOf(k);
    if (i != this->n_.size()) return {typename B::iterator(this->n_.data() + i), false};
    return {this->add(new Node(std::piecewise_construct, std::forward_as_tuple(std::forward<Q>(k)),
                               std::forward_as_tuple(std::forward<Ar>(a)...))),
            true};
  }
  template <class Q, class W>
  std::pair<typename B::iterator, bool> insert_or_assign(Q&& k, W&& w) {
    size_t i = this->indexOf(k);
    if (i != this->n_.size()) {
      this->n_[i]->v.second = std::forward<W>(w);
      return {typename B::iterator(this->n_.data() + i), false};
    }
    return try_emplace(std::forward<Q>(k), std::forward<W>(w));
  }
  A get_allocator() const { return A(); }
  friend bool operator==(const flat_hash_map& a, const flat_hash_map& b) {
    if (a.size() != b.size()) return false;
    for (auto& x : a) {
      auto it = b.find(x.first);
      if (it == b.end() || !(it->second == x.second)) return false;
    }
    return true;
  }
  friend bool operator!=(const flat_hash_map& a, const flat_hash_map& b) { return !(a == b); }
};
}  // namespace absl
