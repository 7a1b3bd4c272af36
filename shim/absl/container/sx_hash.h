// Stand-in for the hash containers during symbolic execution: an association
// list with the same interface.  A hash table promises nothing about its
// iteration order, so the order is a parameter of the exploration: keys are
// appended (0), prepended (1) or put at a position chosen symbolically (2).
#pragma once
#include <cstddef>
#include <functional>
#include <initializer_list>
#include <memory>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>
#include <stdexcept>

extern "C" uint64_t symx_choice(const char* name, uint64_t n);
inline int sx_hash_policy = 0;

namespace absl {
namespace container_internal {
template <class K>
struct hash_default_hash {
  size_t operator()(const K&) const { return 0; }
};
template <class K>
struct hash_default_eq {
  template <class A, class B>
  bool operator()(const A& a, const B& b) const {
    return a == b;
  }
};

template <class T, class KeyOf, class Eq>
class sx_table {
 public:
  struct Node {
    T v;
    template <class... A>
    explicit Node(A&&... a) : v(std::forward<A>(a)...) {}
  };
  std::vector<Node*> n_;

  template <class Ref>
  struct iter {
    using iterator_category = std::forward_iterator_tag;
    using value_type = std::remove_cv_t<Ref>;
    using difference_type = std::ptrdiff_t;
    using pointer = Ref*;
    using reference = Ref&;
    Node* const* p = nullptr;
    iter() = default;
    explicit iter(Node* const* q) : p(q) {}
    template <class R2, class = std::enable_if_t<std::is_convertible_v<R2*, Ref*>>>
    iter(const iter<R2>& o) : p(o.p) {}
    Ref& operator*() const { return (*p)->v; }
    Ref* operator->() const { return &(*p)->v; }
    iter& operator++() {
      ++p;
      return *this;
    }
    iter operator++(int) {
      iter t = *this;
      ++p;
      return t;
    }
    template <class R2>
    bool operator==(const iter<R2>& o) const {
      return p == o.p;
    }
    template <class R2>
    bool operator!=(const iter<R2>& o) const {
      return p != o.p;
    }
  };
  using iterator = iter<T>;
  using const_iterator = iter<const T>;
  using value_type = T;
  using size_type = size_t;
  using difference_type = std::ptrdiff_t;
  using reference = T&;
  using const_reference = const T&;

  sx_table() = default;
  sx_table(const sx_table& o) {
    for (auto* x : o.n_) n_.push_back(new Node(x->v));
  }
  sx_table(sx_table&& o) noexcept : n_(std::move(o.n_)) { o.n_.clear(); }
  sx_table& operator=(const sx_table& o) {
    if (this != &o) {
      clear();
      for (auto* x : o.n_) n_.push_back(new Node(x->v));
    }
    return *this;
  }
  sx_table& operator=(sx_table&& o) noexcept {
    if (this != &o) {
      clear();
      n_ = std::move(o.n_);
      o.n_.clear();
    }
    return *this;
  }
  ~sx_table() { clear(); }

  iterator begin() { return iterator(n_.data()); }
  iterator end() { return iterator(n_.data() + n_.size()); }
  const_iterator begin() const { return const_iterator(n_.data()); }
  const_iterator end() const { return const_iterator(n_.data() + n_.size()); }
  const_iterator cbegin() const { return begin(); }
  const_iterator cend() const { return end(); }
  size_t size() const { return n_.size(); }
  bool empty() const { return n_.empty(); }
  size_t capacity() const { return n_.size() * 2 + 7; }
  float load_factor() const { return 0.5f; }
  void max_load_factor(float) {}
  void reserve(size_t) {}
  void rehash(size_t) {}
  void clear() {
    for (auto* x : n_) delete x;
    n_.clear();
  }
  void swap(sx_table& o) { n_.swap(o.n_); }

  template <class Q>
  size_t indexOf(const Q& k) const {
    Eq eq;
    for (size_t i = 0; i < n_.size(); i++)
      if (eq(KeyOf()(n_[i]->v), k)) return i;
    return n_.size();
  }
  template <class Q>
  iterator find(const Q& k) {
    return iterator(n_.data() + indexOf(k));
  }
  template <class Q>
  const_iterator find(const Q& k) const {
    return const_iterator(n_.data() + indexOf(k));
  }
  template <class Q>
  bool contains(const Q& k) const {
    return indexOf(k) != n_.size();
  }
  template <class Q>
  size_t count(const Q& k) const {
    return indexOf(k) != n_.size() ? 1 : 0;
  }
  iterator erase(const_iterator it) {
    size_t i = it.p - n_.data();
    delete n_[i];
    n_.erase(n_.begin() + i);
    return iterator(n_.data() + i);
  }
  iterator erase(iterator it) { return erase(const_iterator(it)); }
  template <class Q, class = std::enable_if_t<!std::is_convertible_v<Q, const_iterator>>>
  size_t erase(const Q& k) {
    size_t i = indexOf(k);
    if (i == n_.size()) return 0;
    delete n_[i];
    n_.erase(n_.begin() + i);
    return 1;
  }
  iterator add(Node* nd) {
    size_t at = n_.size();
    if (sx_hash_policy == 1) at = 0;
    else if (sx_hash_policy == 2) at = symx_choice("hashpos", n_.size() + 1);
    n_.insert(n_.begin() + at, nd);
    return iterator(n_.data() + at);
  }
  template <class... A>
  std::pair<iterator, bool> emplace(A&&... a) {
    Node* nd = new Node(std::forward<A>(a)...);
    size_t i = indexOf(KeyOf()(nd->v));
    if (i != n_.size()) {
      delete nd;
      return {iterator(n_.data() + i), false};
    }
    return {add(nd), true};
  }
  std::pair<iterator, bool> insert(const T& v) {
    size_t i = indexOf(KeyOf()(v));
    if (i != n_.size()) return {iterator(n_.data() + i), false};
    return {add(new Node(v)), true};
  }
  std::pair<iterator, bool> insert(T&& v) {
    size_t i = indexOf(KeyOf()(v));
    if (i != n_.size()) return {iterator(n_.data() + i), false};
    return {add(new Node(std::move(v))), true};
  }
  iterator insert(const_iterator, const T& v) { return insert(v).first; }
  iterator insert(const_iterator, T&& v) { return insert(std::move(v)).first; }
  template <class It, class = std::enable_if_t<!std::is_convertible_v<It, T>>>
  void insert(It b, It e) {
    for (; b != e; ++b) insert(T(*b));
  }
  void insert(std::initializer_list<T> l) {
    for (auto& x : l) insert(x);
  }
};
}  // namespace container_internal
}  // namespace absl
