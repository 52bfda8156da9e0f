// Stand-ins for Abseil's containers on the standard ones.  Iteration over the
// hashed containers is deterministic here, and the pointer stability of the
// stand-ins is stronger than that of the originals.
#pragma once
#include <functional>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include "absl/hash/hash.h"
namespace absl {
namespace container_internal {
template<typename T> using hash_default_hash = absl::Hash<T>;
template<typename T> using hash_default_eq = std::equal_to<T>;
}
namespace vf_c {
template<typename K> struct Eq {
  using is_transparent = void;
  template<typename A, typename B>
  bool operator()(A const& a, B const& b) const { return a == b; }
};
template<typename E, typename K>
using EqT = std::conditional_t<std::is_same_v<E, std::equal_to<K>>, Eq<K>, E>;
}
template<typename K, typename V, typename H = absl::Hash<K>, typename E = std::equal_to<K>,
         typename A = std::allocator<std::pair<const K, V>>>
class flat_hash_map : public std::unordered_map<K, V, H, vf_c::EqT<E, K>> {
  using Base = std::unordered_map<K, V, H, vf_c::EqT<E, K>>;
 public:
  using Base::Base;
};
template<typename K, typename H = absl::Hash<K>, typename E = std::equal_to<K>,
         typename A = std::allocator<K>>
class flat_hash_set : public std::unordered_set<K, H, vf_c::EqT<E, K>> {
  using Base = std::unordered_set<K, H, vf_c::EqT<E, K>>;
 public:
  using Base::Base;
};
template<typename K, typename V, typename H = absl::Hash<K>, typename E = std::equal_to<K>,
         typename A = std::allocator<std::pair<const K, V>>>
using node_hash_map = flat_hash_map<K, V, H, E, A>;
template<typename K, typename H = absl::Hash<K>, typename E = std::equal_to<K>,
         typename A = std::allocator<K>>
using node_hash_set = flat_hash_set<K, H, E, A>;
#ifdef VF_BTREE_INVALIDATION
// Like the B-trees, and unlike the standard containers, the insertions and removals invalidate all the iterators: it is
// an error to use them afterwards.
extern "C" [[noreturn]] void vf_check_failed(char const* what, char const* file, int line);
namespace vf_c {
template<typename It>
class Checked {
 public:
  using iterator_category = std::bidirectional_iterator_tag;
  using value_type = typename It::value_type;
  using difference_type = typename It::difference_type;
  using pointer = typename It::pointer;
  using reference = typename It::reference;
  Checked() = default;
  Checked(It it, int const* version) : it_(it), current_(version), version_(*version) {}
  template<typename Jt> requires std::is_convertible_v<Jt, It>
  Checked(Checked<Jt> const& other) : it_(other.it_), current_(other.current_), version_(other.version_) {}
  reference operator*() const { return *get(); }
  pointer operator->() const { return &*get(); }
  Checked& operator++() { get(); ++it_; return *this; }
  Checked& operator--() { get(); --it_; return *this; }
  Checked operator++(int) { auto r = *this; ++*this; return r; }
  Checked operator--(int) { auto r = *this; --*this; return r; }
  template<typename Jt> bool operator==(Checked<Jt> const& o) const { return get() == o.get(); }
  It const& get() const {
    if (version_ != *current_) vf_check_failed("iterator of a B-tree used after its invalidation", __FILE__, __LINE__);
    return it_;
  }
 private:
  template<typename> friend class Checked;
  It it_;
  int const* current_ = nullptr;
  int version_ = 0;
};
template<typename Base>
class BTree {
 public:
  using key_type = typename Base::key_type;
  using value_type = typename Base::value_type;
  using size_type = typename Base::size_type;
  using difference_type = typename Base::difference_type;
  using reference = value_type&;
  using const_reference = value_type const&;
  using iterator = Checked<typename Base::iterator>;
  using const_iterator = Checked<typename Base::const_iterator>;
  using reverse_iterator = std::reverse_iterator<iterator>;
  using const_reverse_iterator = std::reverse_iterator<const_iterator>;
  iterator begin() { return wrap(b_.begin()); }
  iterator end() { return wrap(b_.end()); }
  const_iterator begin() const { return wrap(b_.begin()); }
  const_iterator end() const { return wrap(b_.end()); }
  const_iterator cbegin() const { return begin(); }
  const_iterator cend() const { return end(); }
  reverse_iterator rbegin() { return reverse_iterator(end()); }
  reverse_iterator rend() { return reverse_iterator(begin()); }
  const_reverse_iterator rbegin() const { return crbegin(); }
  const_reverse_iterator rend() const { return crend(); }
  const_reverse_iterator crbegin() const { return const_reverse_iterator(end()); }
  const_reverse_iterator crend() const { return const_reverse_iterator(begin()); }
  bool empty() const { return b_.empty(); }
  size_type size() const { return b_.size(); }
  template<typename K> bool contains(K const& k) const { return b_.contains(k); }
  template<typename K> size_type count(K const& k) const { return b_.count(k); }
  template<typename K> iterator find(K const& k) { return wrap(b_.find(k)); }
  template<typename K> const_iterator find(K const& k) const { return wrap(b_.find(k)); }
  template<typename K> iterator lower_bound(K const& k) { return wrap(b_.lower_bound(k)); }
  template<typename K> const_iterator lower_bound(K const& k) const { return wrap(b_.lower_bound(k)); }
  template<typename K> iterator upper_bound(K const& k) { return wrap(b_.upper_bound(k)); }
  template<typename K> const_iterator upper_bound(K const& k) const { return wrap(b_.upper_bound(k)); }
  template<typename... A> auto emplace(A&&... a) { ++version_; return inserted(b_.emplace(std::forward<A>(a)...)); }
  template<typename... A> iterator emplace_hint(const_iterator hint, A&&... a) {
    auto const h = hint.get();
    ++version_;
    return wrap(b_.emplace_hint(h, std::forward<A>(a)...));
  }
  template<typename V> auto insert(V&& v) { ++version_; return inserted(b_.insert(std::forward<V>(v))); }
  template<typename K, typename V> auto insert_or_assign(K&& k, V&& v) { ++version_; return inserted(b_.insert_or_assign(std::forward<K>(k), std::forward<V>(v))); }
  template<typename K, typename... A> auto try_emplace(K&& k, A&&... a) { ++version_; return inserted(b_.try_emplace(std::forward<K>(k), std::forward<A>(a)...)); }
  template<typename K> decltype(auto) operator[](K&& k) { ++version_; return b_[std::forward<K>(k)]; }
  template<typename K> decltype(auto) at(K const& k) { return b_.at(k); }
  template<typename K> decltype(auto) at(K const& k) const { return b_.at(k); }
  size_type erase(key_type const& k) { ++version_; return b_.erase(k); }
  iterator erase(const_iterator it) { auto const i = it.get(); ++version_; return wrap(b_.erase(i)); }
  iterator erase(iterator it) requires(!std::is_same_v<iterator, const_iterator>) { return erase(const_iterator(it)); }
  iterator erase(const_iterator f, const_iterator l) { auto const i = f.get(), j = l.get(); ++version_; return wrap(b_.erase(i, j)); }
  void clear() { ++version_; b_.clear(); }
 private:
  template<typename It> Checked<It> wrap(It it) const { return {it, &version_}; }
  template<typename It> Checked<It> inserted(It it) { return wrap(it); }
  template<typename It> std::pair<Checked<It>, bool> inserted(std::pair<It, bool> const& p) { return {wrap(p.first), p.second}; }
  Base b_;
  int version_ = 0;
};
}
template<typename K, typename V, typename C = std::less<K>,
         typename A = std::allocator<std::pair<const K, V>>>
using btree_map = vf_c::BTree<std::map<K, V, C>>;
#else
template<typename K, typename V, typename C = std::less<K>,
         typename A = std::allocator<std::pair<const K, V>>>
using btree_map = std::map<K, V, C>;
#endif
template<typename K, typename C = std::less<K>, typename A = std::allocator<K>>
class btree_set : public std::set<K, C> {
  using Base = std::set<K, C>;
 public:
  using Base::Base;
  using iterator = typename Base::iterator;
  struct extract_and_get_next_return_type { typename Base::node_type node; iterator next; };
  extract_and_get_next_return_type extract_and_get_next(typename Base::const_iterator p) {
    auto next = std::next(p);
    return {this->extract(p), next};
  }
};
template<typename K, typename C = std::less<K>, typename A = std::allocator<K>>
#ifdef VF_BTREE_INVALIDATION
using btree_multiset = vf_c::BTree<std::multiset<K, C>>;
#else
using btree_multiset = std::multiset<K, C>;
#endif
template<typename K, typename V, typename C = std::less<K>,
         typename A = std::allocator<std::pair<const K, V>>>
using btree_multimap = std::multimap<K, V, C>;
template<typename T, std::size_t N, typename A = std::allocator<T>>
using InlinedVector = std::vector<T>;
constexpr std::size_t kFixedArrayUseDefault = static_cast<std::size_t>(-1);
// Elements default-initialised, like the original.
template<typename T, std::size_t N = kFixedArrayUseDefault, typename A = std::allocator<T>>
class FixedArray {
 public:
  using value_type = T; using iterator = T*; using const_iterator = T const*;
  using reference = T&; using const_reference = T const&;
  using size_type = std::size_t;
  explicit FixedArray(std::size_t n, A const& = A()) : n_(n), p_(n ? new T[n] : nullptr) {}
  FixedArray(std::size_t n, T const& v, A const& = A()) : FixedArray(n) {
    for (std::size_t i = 0; i < n_; ++i) p_[i] = v;
  }
  template<typename It> requires requires(It i) { *i; ++i; }
  FixedArray(It first, It last, A const& = A()) : FixedArray(std::distance(first, last)) {
    for (std::size_t i = 0; first != last; ++first) p_[i++] = *first;
  }
  FixedArray(std::initializer_list<T> l, A const& = A()) : FixedArray(l.begin(), l.end()) {}
  FixedArray(FixedArray const& o) : FixedArray(o.begin(), o.end()) {}
  FixedArray(FixedArray&& o) : FixedArray(o.n_) {
    for (std::size_t i = 0; i < n_; ++i) p_[i] = std::move(o.p_[i]);
  }
  FixedArray& operator=(FixedArray const&) = delete;
  ~FixedArray() { delete[] p_; }
  std::size_t size() const { return n_; }
  bool empty() const { return n_ == 0; }
  T* data() { return p_; } T const* data() const { return p_; }
  T& operator[](std::size_t i) { return p_[i]; }
  T const& operator[](std::size_t i) const { return p_[i]; }
  T& at(std::size_t i) { return p_[i]; }
  T const& at(std::size_t i) const { return p_[i]; }
  T& front() { return p_[0]; } T const& front() const { return p_[0]; }
  T& back() { return p_[n_ - 1]; } T const& back() const { return p_[n_ - 1]; }
  T* begin() { return p_; } T* end() { return p_ + n_; }
  T const* begin() const { return p_; } T const* end() const { return p_ + n_; }
  T const* cbegin() const { return p_; } T const* cend() const { return p_ + n_; }
  auto rbegin() { return std::reverse_iterator(end()); }
  auto rend() { return std::reverse_iterator(begin()); }
  void fill(T const& v) { for (auto& x : *this) x = v; }
  friend bool operator==(FixedArray const& a, FixedArray const& b) {
    if (a.n_ != b.n_) return false;
    for (std::size_t i = 0; i < a.n_; ++i) if (!(a.p_[i] == b.p_[i])) return false;
    return true;
  }
 private:
  std::size_t n_;
  T* p_;
};
}
