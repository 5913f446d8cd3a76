#pragma once
#include <cstddef>
#include <cstdlib>
namespace Kokkos {
template <typename T, std::size_t N> struct Array {
  T m_internal_implementation_private_member_data[N];
  static constexpr std::size_t size() { return N; }
  T& operator[](std::size_t i) { return m_internal_implementation_private_member_data[i]; }
  T const& operator[](std::size_t i) const { return m_internal_implementation_private_member_data[i]; }
  T* data() { return m_internal_implementation_private_member_data; }
  T const* data() const { return m_internal_implementation_private_member_data; }
};
template <typename T> struct Array<T, 0> {
  static constexpr std::size_t size() { return 0; }
  T& operator[](std::size_t) const { std::abort(); }
  T* data() { return nullptr; }
  T const* data() const { return nullptr; }
};
}
