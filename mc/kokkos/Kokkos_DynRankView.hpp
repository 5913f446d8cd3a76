#pragma once
#include "Kokkos_Core.hpp"
namespace Kokkos {
template <typename T, typename... P> struct DynRankView {
  using traits = Impl::Traits<T, P...>;
  using data_type = T; using value_type = T; using non_const_value_type = std::remove_const_t<T>;
  using array_layout = typename traits::array_layout; using memory_space = typename traits::memory_space; using size_type = std::size_t; using memory_traits = typename traits::memory_traits;
  using HostMirror = DynRankView<non_const_value_type, array_layout, Device<Serial, HostSpace>>;
  DynRankView() {}
  DynRankView(DynRankView const&) = default; DynRankView(DynRankView&&) = default; DynRankView& operator=(DynRankView const&) = default; DynRankView& operator=(DynRankView&&) = default;
  template <typename T2, typename... P2, std::enable_if_t<std::is_same<std::remove_const_t<T>, std::remove_const_t<T2>>::value && (std::is_const<T>::value || !std::is_const<T2>::value), int> = 0>
  DynRankView(DynRankView<T2, P2...> const& o) : core_(Impl::Access::core(o)) {}
  // the number of dimensions is the number of leading ones given
  DynRankView(Impl::Alloc const& a, array_layout const& l) {
    while (core_.rank < 8 && l.dimension[core_.rank] != KOKKOS_INVALID_INDEX) core_.rank++;
    if (core_.rank > 7) Kokkos::abort("DynRankView has at most 7 dimensions");
    core_.shape(l, a.pad); core_.allocate(a.label, !memory_space::host);
  }
  DynRankView(std::string const& label, array_layout const& l) : DynRankView(Impl::Alloc{label}, l) {}
  DynRankView(char const* label, array_layout const& l) : DynRankView(Impl::Alloc{label}, l) {}
  template <typename A, typename... N, std::enable_if_t<(std::is_integral<N>::value && ...) && (std::is_same<A, Impl::Alloc>::value || std::is_convertible<A const&, std::string>::value) && !std::is_same<array_layout, LayoutStride>::value, int> = 0> explicit DynRankView(A const& a, N... n) : DynRankView(alloc(a), array_layout(std::size_t(n)...)) {}
  array_layout layout() const { array_layout l; core_.get(l); return l; }
  unsigned rank() const { return unsigned(core_.rank); }
  template <typename I> std::size_t extent(I i) const { return core_.n[i]; }
  template <typename I> std::size_t stride(I i) const { return core_.s[i]; }
  std::size_t size() const { return core_.p || core_.rank ? core_.size() : 0; }
  std::size_t span() const { return core_.span(); }
  bool span_is_contiguous() const { return core_.span() == core_.size(); }
  value_type* data() const { return core_.p; }
  bool is_allocated() const { return core_.p != nullptr; }
  int use_count() const { return int(core_.block.use_count()); }
  std::string label() const { return core_.block ? core_.block->label : std::string(); }
  // indices beyond the rank have to be 0
  template <typename... I> value_type& operator()(I... i) const { if (!memory_space::host) Kokkos::abort("the host accesses data it cannot reach"); std::size_t x[sizeof...(I) + 8] = {std::size_t(i)...}; for (std::size_t k = core_.rank; k < sizeof...(I); k++) if (x[k]) Kokkos::abort("index out of bounds"); if (sizeof...(I) < core_.rank) Kokkos::abort("too few indices"); return *core_.at(x, core_.rank); }
private:
  friend struct Impl::Access; template <typename, typename...> friend struct DynRankView;
  static Impl::Alloc alloc(Impl::Alloc const& a) { return a; }
  static Impl::Alloc alloc(std::string const& a) { return Impl::Alloc{a}; }
  Impl::Core<T> core_;
};
template <typename A, typename... P, typename B, typename... Q> void deep_copy(DynRankView<A, P...> const& d, DynRankView<B, Q...> const& s) { Impl::copy(Impl::Access::core(d), Impl::Access::core(s)); }
template <typename E, typename A, typename... P, typename B, typename... Q> void deep_copy(E const&, DynRankView<A, P...> const& d, DynRankView<B, Q...> const& s) { deep_copy(d, s); }
template <typename T, typename... P> typename DynRankView<T, P...>::HostMirror create_mirror_view(DynRankView<T, P...> const& v) {
  using M = typename DynRankView<T, P...>::HostMirror;
  if constexpr (DynRankView<T, P...>::memory_space::host && !std::is_const<T>::value) return M(v); else return M(v.label(), v.layout());
}
template <typename T, typename... P> auto create_mirror_view(WithoutInitializing_t, DynRankView<T, P...> const& v) { return create_mirror_view(v); }
template <typename T, typename... P> auto create_mirror_view_and_copy(HostSpace, DynRankView<T, P...> const& v) { auto m = create_mirror_view(v); deep_copy(m, v); return m; }
}
