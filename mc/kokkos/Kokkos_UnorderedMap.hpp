#pragma once
#include "Kokkos_Core.hpp"
#include <functional>
namespace Kokkos {
template <typename K> struct pod_hash { std::uint32_t operator()(K const& k) const { return std::uint32_t(std::hash<K>()(k)); } };
template <typename K> struct pod_equal_to { bool operator()(K const& a, K const& b) const { return a == b; } };
// Slots without an entry keep the key that was there last, or a value-initialized one. Handles share their entries.
template <typename K, typename V, typename Dev = Device<Serial, HostSpace>, typename H = pod_hash<K>, typename E = pod_equal_to<K>> struct UnorderedMap {
  using size_type = std::uint32_t; using key_type = K; using value_type = V;
  static constexpr size_type invalid_index = ~size_type(0);
  struct Result { bool ok, old; size_type at; bool success() const { return ok; } bool existing() const { return old; } bool failed() const { return !ok && !old; } size_type index() const { return at; } };
  struct State { std::vector<K> keys; std::vector<V> values; std::vector<char> used, erased; size_type size = 0; bool failed = false, erasing = false; };
  UnorderedMap(size_type hint = 0, H h = H(), E e = E()) : s_(std::make_shared<State>()), hash_(h), eq_(e) {
    size_type n = hint ? ((size_type(7ull * hint / 6u) + 127u) / 128u) * 128u : 128u;
    s_->keys.resize(n); s_->values.resize(n); s_->used.resize(n); s_->erased.resize(n);
  }
  size_type size() const { return s_->size; }
  size_type capacity() const { return size_type(s_->keys.size()); }
  bool empty() const { return !size(); }
  bool failed_insert() const { return s_->failed; }
  void reset_failed_insert_flag() { s_->failed = false; }
  bool valid_at(size_type i) const { return i < capacity() && s_->used[i]; }
  bool exists(K const& k) const { return find(k) != invalid_index; }
  size_type find(K const& k) const { for (size_type c = capacity(), j = 0, i = c ? hash_(k) % c : 0; j < c; j++, i = (i + 1) % c) if (s_->used[i] && !s_->erased[i] && eq_(s_->keys[i], k)) return i; return invalid_index; }
  K key_at(size_type i) const { if (i >= capacity()) Kokkos::abort("UnorderedMap: index"); return s_->keys[i]; }
  V& value_at(size_type i) const { if (i >= capacity()) Kokkos::abort("UnorderedMap: index"); return s_->values[i]; }
  Result insert(K const& k, V const& v = V()) const {
    size_type i = find(k);
    if (i != invalid_index) return {false, true, i};
    for (size_type c = capacity(), j = 0, x = c ? hash_(k) % c : 0; j < c; j++, x = (x + 1) % c)
      if (!s_->used[x]) { s_->keys[x] = k; s_->values[x] = v; s_->used[x] = 1; s_->erased[x] = 0; s_->size++; return {true, false, x}; }
    s_->failed = true;
    return {false, false, invalid_index};
  }
  bool begin_erase() { return s_->erasing ? false : (s_->erasing = true); }
  bool erase(K const& k) const { if (!s_->erasing) return false; size_type i = find(k); if (i == invalid_index) return false; s_->erased[i] = 1; return true; }
  bool end_erase() {
    if (!s_->erasing) return false;
    s_->erasing = false;
    for (size_type i = 0; i < capacity(); i++) if (s_->erased[i]) { s_->erased[i] = 0; s_->used[i] = 0; s_->size--; }
    return true;
  }
  void clear() { if (!capacity()) return; for (size_type i = 0; i < capacity(); i++) { s_->used[i] = s_->erased[i] = 0; s_->keys[i] = K(); s_->values[i] = V(); } s_->size = 0; s_->failed = false; }
  bool rehash(size_type requested) {
    if (requested < size()) requested = size();
    UnorderedMap n(requested, hash_, eq_);
    for (size_type i = 0; i < capacity(); i++) if (s_->used[i]) n.insert(s_->keys[i], s_->values[i]);
    s_ = n.s_;
    return true;
  }
  bool is_allocated() const { return true; }
private:
  std::shared_ptr<State> s_; H hash_; E eq_;
};
}
