#pragma once
namespace Kokkos {
template <typename A, typename B> struct pair {
  using first_type = A; using second_type = B;
  A first; B second;
  pair() = default; pair(A const& a, B const& b) : first(a), second(b) {}
  friend bool operator==(pair const& x, pair const& y) { return x.first == y.first && x.second == y.second; }
};
template <typename A> struct pair<A, void> {
  using first_type = A; using second_type = void;
  A first;
  enum { second = 0 };
  pair() = default; pair(A const& a) : first(a) {} pair(A const& a, int) : first(a) {}
  friend bool operator==(pair const& x, pair const& y) { return x.first == y.first; }
};
}
