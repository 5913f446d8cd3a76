// A small stand-in for the parts of Kokkos (4.4) the library and its Kokkos tests use, on the host, for C18: Kokkos is
// not installed here. It follows the documented semantics: handles share their data, allocations are value-initialized,
// padded and strided layouts are not contiguous, host mirrors of host views are the views themselves. The space Far is
// not accessible to the host: its data are kept encoded, and only deep_copy reaches them. Every index is checked.
#pragma once
#include <array>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

#define KOKKOS_VERSION 40400
#define KOKKOS_VERSION_LESS(a, b, c) (KOKKOS_VERSION < (a) * 10000 + (b) * 100 + (c))
#define KOKKOS_INVALID_INDEX (~std::size_t(0))
#define KOKKOS_LAMBDA [=]
#define KOKKOS_FUNCTION
#define KOKKOS_INLINE_FUNCTION inline

namespace Kokkos {

[[noreturn]] inline void abort(char const* what) { std::fprintf(stderr, "Kokkos: %s\n", what); std::abort(); }
inline void initialize() {}
inline void initialize(int&, char**) {}
inline void finalize() {}
inline void fence() {}

enum : unsigned { Unmanaged = 1, RandomAccess = 2, Atomic = 4, Restrict = 8, Aligned = 16 };
template <unsigned T = 0> struct MemoryTraits { static constexpr bool is_unmanaged = T & Unmanaged, is_atomic = T & Atomic; };
using MemoryManaged = MemoryTraits<0>;
using MemoryUnmanaged = MemoryTraits<Unmanaged>;

struct Serial;
struct HostSpace { using execution_space = Serial; using memory_space = HostSpace; static constexpr bool host = true; };
struct Serial { using memory_space = HostSpace; using execution_space = Serial; void fence() const {} void fence(std::string const&) const {} };
struct FarExec;
struct Far { using execution_space = FarExec; using memory_space = Far; static constexpr bool host = false; };
struct FarExec { using memory_space = Far; using execution_space = FarExec; void fence() const {} };
using DefaultExecutionSpace = Serial;
using DefaultHostExecutionSpace = Serial;
template <typename E, typename M> struct Device { using execution_space = E; using memory_space = M; };

enum { ARRAY_LAYOUT_MAX_RANK = 8 };
struct LayoutLeft {
  std::size_t dimension[8];
  explicit LayoutLeft(std::size_t a = KOKKOS_INVALID_INDEX, std::size_t b = KOKKOS_INVALID_INDEX, std::size_t c = KOKKOS_INVALID_INDEX, std::size_t d = KOKKOS_INVALID_INDEX,
                      std::size_t e = KOKKOS_INVALID_INDEX, std::size_t f = KOKKOS_INVALID_INDEX, std::size_t g = KOKKOS_INVALID_INDEX, std::size_t h = KOKKOS_INVALID_INDEX) : dimension{a, b, c, d, e, f, g, h} {}
};
struct LayoutRight {
  std::size_t dimension[8];
  explicit LayoutRight(std::size_t a = KOKKOS_INVALID_INDEX, std::size_t b = KOKKOS_INVALID_INDEX, std::size_t c = KOKKOS_INVALID_INDEX, std::size_t d = KOKKOS_INVALID_INDEX,
                       std::size_t e = KOKKOS_INVALID_INDEX, std::size_t f = KOKKOS_INVALID_INDEX, std::size_t g = KOKKOS_INVALID_INDEX, std::size_t h = KOKKOS_INVALID_INDEX) : dimension{a, b, c, d, e, f, g, h} {}
};
struct LayoutStride {
  std::size_t dimension[8], stride[8];
  explicit LayoutStride(std::size_t a = KOKKOS_INVALID_INDEX, std::size_t sa = 0, std::size_t b = KOKKOS_INVALID_INDEX, std::size_t sb = 0, std::size_t c = KOKKOS_INVALID_INDEX, std::size_t sc = 0,
                        std::size_t d = KOKKOS_INVALID_INDEX, std::size_t sd = 0, std::size_t e = KOKKOS_INVALID_INDEX, std::size_t se = 0, std::size_t f = KOKKOS_INVALID_INDEX, std::size_t sf = 0,
                        std::size_t g = KOKKOS_INVALID_INDEX, std::size_t sg = 0, std::size_t h = KOKKOS_INVALID_INDEX, std::size_t sh = 0)
    : dimension{a, b, c, d, e, f, g, h}, stride{sa, sb, sc, sd, se, sf, sg, sh} {}
};

struct WithoutInitializing_t {}; struct AllowPadding_t {};
inline constexpr WithoutInitializing_t WithoutInitializing{};
inline constexpr AllowPadding_t AllowPadding{};
struct ALL_t {}; inline constexpr ALL_t ALL{};

namespace Impl {
struct Alloc { std::string label; bool pad = false; };
inline void set(Alloc& a, char const* s) { a.label = s; }
inline void set(Alloc& a, std::string const& s) { a.label = s; }
inline void set(Alloc&, WithoutInitializing_t) {}
inline void set(Alloc& a, AllowPadding_t) { a.pad = true; }
}
template <typename... A> Impl::Alloc view_alloc(A const&... a) { Impl::Alloc r; (Impl::set(r, a), ...); return r; }

namespace Impl {

// data type T***[2][3] -> value type, rank, static extents
template <typename T> struct Data { using value = T; using non_const = std::remove_const_t<T>; using constant = std::add_const_t<T>; static constexpr std::size_t rank = 0, dynamic = 0; static constexpr std::size_t extent(std::size_t) { return 1; } };
template <typename T> struct Data<T*> { using D = Data<T>; using value = typename D::value; using non_const = typename D::non_const*; using constant = typename D::constant*; static constexpr std::size_t rank = D::rank + 1, dynamic = D::dynamic + 1; static constexpr std::size_t extent(std::size_t i) { return i == 0 ? 0 : D::extent(i - 1); } };
// in T*[2][3] the pointer comes first, then 2, then 3: the outermost array bound is the first one
template <typename T, std::size_t N> struct Data<T[N]> {
  using D = Data<T>; using value = typename D::value; using non_const = typename D::non_const[N]; using constant = typename D::constant[N];
  static constexpr std::size_t rank = D::rank + 1, dynamic = D::dynamic;
  // dynamic dimensions of the element type come first
  static constexpr std::size_t extent(std::size_t i) { return i < D::dynamic ? 0 : i == D::dynamic ? N : D::extent(i - 1); }
};

template <typename T> struct IsLayout : std::false_type {};
template <> struct IsLayout<LayoutLeft> : std::true_type {};
template <> struct IsLayout<LayoutRight> : std::true_type {};
template <> struct IsLayout<LayoutStride> : std::true_type {};
template <typename T> struct IsTraits : std::false_type {};
template <unsigned U> struct IsTraits<MemoryTraits<U>> : std::true_type {};
template <template <typename> class P, typename Default, typename... A> struct Pick { using type = Default; };
template <template <typename> class P, typename Default, typename A, typename... R> struct Pick<P, Default, A, R...> { using type = typename std::conditional_t<P<A>::value, Pick<P, A>, Pick<P, Default, R...>>::type; };
template <typename T, typename = void> struct IsSpace : std::false_type {};
template <typename T> struct IsSpace<T, std::void_t<typename T::memory_space>> : std::true_type {};

template <typename D, typename... P> struct Traits {
  using data_type = D; using non_const_data_type = typename Data<D>::non_const; using const_data_type = typename Data<D>::constant;
  using value_type = typename Data<D>::value; using non_const_value_type = std::remove_const_t<value_type>; using const_value_type = std::add_const_t<value_type>;
  using array_layout = typename Pick<IsLayout, LayoutRight, P...>::type;
  using memory_traits = typename Pick<IsTraits, MemoryTraits<0>, P...>::type;
  using space = typename Pick<IsSpace, HostSpace, P...>::type;
  using memory_space = typename space::memory_space; using execution_space = typename memory_space::execution_space;
  using device_type = Device<execution_space, memory_space>;
  using size_type = std::size_t;
  static constexpr bool is_managed = !memory_traits::is_unmanaged, is_atomic = memory_traits::is_atomic;
  static constexpr std::size_t rank = Data<D>::rank, rank_dynamic = Data<D>::dynamic;
};

template <typename T> struct AtomicRef {
  T* p;
  operator const T() const { return *p; }
  T operator=(T const& v) const { *p = v; return v; }
};

// What an allocation holds. Data the host cannot reach are encoded.
template <typename T> struct Block {
  std::string label; T* data; std::size_t n; bool far;
  Block(std::string l, std::size_t n_, bool far_) : label(std::move(l)), data(static_cast<T*>(::operator new(n_ ? n_ * sizeof(T) : 1, std::align_val_t(alignof(T) < 64 ? 64 : alignof(T))))), n(n_), far(far_) {
    for (std::size_t i = 0; i < n; i++) new (data + i) T();
    if (far) flip(data, n);
  }
  Block(Block const&) = delete;
  ~Block() { if (!far) for (std::size_t i = n; i-- > 0;) data[i].~T(); ::operator delete(data, std::align_val_t(alignof(T) < 64 ? 64 : alignof(T))); }
  static void flip(T* p, std::size_t n) { auto c = reinterpret_cast<unsigned char*>(p); for (std::size_t i = 0; i < n * sizeof(T); i++) c[i] ^= 0xff; }
};

// Shape and data of a view of any kind: r dimensions, extents 1 after them.
template <typename T> struct Core {
  using V = std::remove_const_t<T>;
  std::shared_ptr<Block<V>> block; V* p = nullptr; std::size_t rank = 0, n[8], s[8];
  Core() { for (int i = 0; i < 8; i++) n[i] = 1, s[i] = 0; }
  template <typename U> Core(Core<U> const& o) : block(o.block), p(o.p), rank(o.rank) { for (int i = 0; i < 8; i++) n[i] = o.n[i], s[i] = o.s[i]; }
  std::size_t size() const { std::size_t k = 1; for (std::size_t i = 0; i < rank; i++) k *= n[i]; return k; }
  std::size_t span() const { std::size_t k = 0; if (!size()) return 0; for (std::size_t i = 0; i < rank; i++) k += (n[i] - 1) * s[i]; return k + 1; }
  void left(std::size_t pad) { std::size_t k = 1; for (std::size_t i = 0; i < rank; i++) { s[i] = k; k *= i == 0 ? n[i] + pad : n[i]; } }
  void right(std::size_t pad) { std::size_t k = 1; for (std::size_t i = rank; i-- > 0;) { s[i] = k; k *= i + 1 == rank && i ? n[i] + pad : n[i]; } }
  void shape(LayoutLeft const& l, bool pad) { for (std::size_t i = 0; i < rank; i++) n[i] = l.dimension[i]; left(pad && rank > 1 ? 1 : 0); }
  void shape(LayoutRight const& l, bool pad) { for (std::size_t i = 0; i < rank; i++) n[i] = l.dimension[i]; right(pad && rank > 1 ? 1 : 0); }
  void shape(LayoutStride const& l, bool) { for (std::size_t i = 0; i < rank; i++) n[i] = l.dimension[i], s[i] = l.stride[i]; }
  void allocate(std::string const& label, bool far) {
    for (std::size_t i = 0; i < rank; i++) if (n[i] == KOKKOS_INVALID_INDEX) Kokkos::abort("a view is constructed with too few extents");
    block = std::make_shared<Block<V>>(label, span(), far); p = block->data;
  }
  void get(LayoutLeft& l) const { l = LayoutLeft(); for (std::size_t i = 0; i < rank; i++) l.dimension[i] = n[i]; }
  void get(LayoutRight& l) const { l = LayoutRight(); for (std::size_t i = 0; i < rank; i++) l.dimension[i] = n[i]; }
  void get(LayoutStride& l) const { l = LayoutStride(); for (std::size_t i = 0; i < rank; i++) l.dimension[i] = n[i], l.stride[i] = s[i]; }
  V* at(std::size_t const* i, std::size_t k) const {
    if (k != rank) Kokkos::abort("wrong number of indices");
    V* q = p;
    for (std::size_t d = 0; d < k; d++) { if (i[d] >= n[d]) Kokkos::abort("index out of bounds"); q += i[d] * s[d]; }
    if (!p) Kokkos::abort("access to a view without data");
    return q;
  }
  template <typename F> void each(F f) const {     // every index tuple, last index fastest
    if (!size()) return;
    std::size_t i[8] = {};
    while (true) {
      f(i);
      std::size_t d = rank;
      for (; d > 0; d--) { if (++i[d - 1] < n[d - 1]) break; i[d - 1] = 0; }
      if (!d) break;
    }
  }
  bool far() const { return block && block->far; }
};
template <typename T, typename U> void copy(Core<T> const& d, Core<U> const& s) {
  using V = std::remove_const_t<T>;
  for (std::size_t i = 0; i < 8; i++) if (d.n[i] != s.n[i]) throw std::runtime_error("deep_copy: extents do not match");
  if (d.rank != s.rank) throw std::runtime_error("deep_copy: ranks do not match");
  if (d.p == s.p) return;
  d.each([&](std::size_t const* i) {
    V* to = d.at(i, d.rank); V* from = s.at(i, s.rank);
    if constexpr (std::is_trivially_copyable<V>::value) {
      V x; std::memcpy(static_cast<void*>(&x), static_cast<void const*>(from), sizeof x);
      if (s.far()) Block<V>::flip(&x, 1);
      if (d.far()) Block<V>::flip(&x, 1);
      std::memcpy(static_cast<void*>(to), static_cast<void const*>(&x), sizeof x);
    } else { if (s.far() || d.far()) Kokkos::abort("only trivial data in far memory"); *to = *from; }
  });
}
struct Access { template <typename V> static auto& core(V& v) { return v.core_; } };
} // namespace Impl

template <typename D, typename... P> struct View {
  using traits = Impl::Traits<D, P...>;
  using data_type = D; using value_type = typename traits::value_type; using non_const_value_type = typename traits::non_const_value_type;
  using array_layout = typename traits::array_layout; using memory_space = typename traits::memory_space; using execution_space = typename traits::execution_space; using device_type = typename traits::device_type;
  using memory_traits = typename traits::memory_traits; using size_type = std::size_t; using pointer_type = value_type*;
  using non_const_type = View<typename traits::non_const_data_type, P...>;
  using HostMirror = View<typename traits::non_const_data_type, array_layout, Device<Serial, HostSpace>>;
  static constexpr std::integral_constant<std::size_t, traits::rank> rank{};
  static constexpr std::integral_constant<std::size_t, traits::rank_dynamic> rank_dynamic{};

  View() { base(); for (std::size_t i = 0; i < traits::rank; i++) core_.n[i] = Impl::Data<D>::extent(i); strides(); }
  View(View const&) = default; View(View&&) = default; View& operator=(View const&) = default; View& operator=(View&&) = default;
  template <typename D2, typename... P2, std::enable_if_t<std::is_same<typename Impl::Data<D>::non_const, typename Impl::Data<D2>::non_const>::value && (std::is_const<value_type>::value || !std::is_const<typename View<D2, P2...>::value_type>::value) && (std::is_same<array_layout, typename View<D2, P2...>::array_layout>::value || std::is_same<array_layout, LayoutStride>::value), int> = 0>
  View(View<D2, P2...> const& o) : core_(Impl::Access::core(o)) { if (!std::is_same<memory_space, typename View<D2, P2...>::memory_space>::value) Kokkos::abort("assignment between spaces"); }
  template <typename L, std::enable_if_t<std::is_same<L, array_layout>::value, int> = 0> View(std::string const& label, L const& l) : View(Impl::Alloc{label}, l) {}
  template <typename L, std::enable_if_t<std::is_same<L, array_layout>::value, int> = 0> View(char const* label, L const& l) : View(Impl::Alloc{label}, l) {}
  View(Impl::Alloc const& a, array_layout const& l) {
    base(); core_.shape(l, a.pad); fix(); if (!std::is_same<array_layout, LayoutStride>::value) core_.shape(layout(), a.pad); core_.allocate(a.label, !memory_space::host);
  }
  template <typename... N, std::enable_if_t<(std::is_integral<N>::value && ...), int> = 0> View(Impl::Alloc const& a, N... n) { base(); sizes(n...); pad_ = a.pad; strides(); core_.allocate(a.label, !memory_space::host); }
  template <typename... N, std::enable_if_t<(std::is_integral<N>::value && ...), int> = 0> explicit View(std::string const& label, N... n) : View(Impl::Alloc{label}, n...) {}
  template <typename... N, std::enable_if_t<(std::is_integral<N>::value && ...), int> = 0> explicit View(char const* label, N... n) : View(Impl::Alloc{label}, n...) {}

  array_layout layout() const { array_layout l; core_.get(l); return l; }
  template <typename I> std::size_t extent(I i) const { return std::size_t(i) < 8 ? core_.n[i] : 1; }
  template <typename I> int extent_int(I i) const { return int(extent(i)); }
  template <typename I> std::size_t stride(I i) const { return core_.s[i]; }
  static constexpr std::size_t static_extent(unsigned i) { return Impl::Data<D>::extent(i); }
  std::size_t size() const { return core_.size(); }
  std::size_t span() const { return core_.span(); }
  bool span_is_contiguous() const { return core_.span() == core_.size(); }
  value_type* data() const { return core_.p; }
  bool is_allocated() const { return core_.p != nullptr; }
  int use_count() const { return int(core_.block.use_count()); }
  std::string label() const { return core_.block ? core_.block->label : std::string(); }
  template <typename... I> decltype(auto) operator()(I... i) const {
    if (!memory_space::host) Kokkos::abort("the host accesses data it cannot reach");
    std::size_t x[sizeof...(I) + 1] = {std::size_t(i)...};
    auto* q = core_.at(x, sizeof...(I));
    if constexpr (traits::is_atomic) return Impl::AtomicRef<non_const_value_type>{q}; else return static_cast<value_type&>(*q);
  }
  template <typename I> decltype(auto) operator[](I i) const { return operator()(i); }
private:
  friend struct Impl::Access; template <typename, typename...> friend struct View;
  void base() { core_.rank = traits::rank; }
  void fix() { for (std::size_t i = traits::rank_dynamic; i < traits::rank; i++) core_.n[i] = Impl::Data<D>::extent(i); }
  void strides() { if (std::is_same<array_layout, LayoutLeft>::value) core_.left(pad_ && traits::rank > 1); else core_.right(pad_ && traits::rank > 1); }
  template <typename... N> void sizes(N... n) {
    std::size_t x[sizeof...(N) + 1] = {std::size_t(n)...};
    if (sizeof...(N) != traits::rank_dynamic && sizeof...(N) != traits::rank) Kokkos::abort("wrong number of extents");
    for (std::size_t i = 0; i < sizeof...(N); i++) core_.n[i] = x[i];
    fix();
  }
  bool pad_ = false;
  Impl::Core<value_type> core_;
};

template <typename A, typename... P, typename B, typename... Q> void deep_copy(View<A, P...> const& d, View<B, Q...> const& s) { Impl::copy(Impl::Access::core(d), Impl::Access::core(s)); }
template <typename A, typename... P> void deep_copy(View<A, P...> const& d, typename View<A, P...>::value_type const& x) { auto& c = Impl::Access::core(d); c.each([&](std::size_t const* i) { *c.at(i, c.rank) = x; }); }
template <typename E, typename D, typename S, std::enable_if_t<!std::is_same<typename E::execution_space, void>::value, int> = 0> void deep_copy(E const&, D const& d, S const& s) { deep_copy(d, s); }

// A mirror of a view on the host is that view.
template <typename D, typename... P> typename View<D, P...>::HostMirror create_mirror_view(View<D, P...> const& v) {
  using M = typename View<D, P...>::HostMirror;
  if constexpr (View<D, P...>::memory_space::host && std::is_same<typename M::data_type, D>::value) return M(v);
  else return M(v.label(), v.layout());
}
template <typename D, typename... P> auto create_mirror_view(WithoutInitializing_t, View<D, P...> const& v) { return create_mirror_view(v); }
template <typename D, typename... P> auto create_mirror_view_and_copy(HostSpace, View<D, P...> const& v) { auto m = create_mirror_view(v); deep_copy(m, v); return m; }

// Any part of a view, as a strided view of the same rank.
template <typename D, typename... P, typename... R> auto subview(View<D, P...> const& v, R const&... r) {
  using T = typename View<D, P...>::value_type; constexpr std::size_t n = View<D, P...>::traits::rank;
  static_assert(sizeof...(R) == n, "one range per dimension");
  std::pair<std::size_t, std::size_t> q[] = {{std::size_t(r.first), std::size_t(r.second)}...};
  using S = std::conditional_t<n == 1, View<T*, LayoutStride>, std::conditional_t<n == 2, View<T**, LayoutStride>, View<T***, LayoutStride>>>;
  S s; auto& c = Impl::Access::core(s); auto& o = Impl::Access::core(v);
  c = o; c.rank = n;
  for (std::size_t i = 0; i < n; i++) { c.n[i] = q[i].second - q[i].first; c.p += q[i].first * c.s[i]; }
  return s;
}

template <typename F> void parallel_for(std::size_t n, F const& f) { for (std::size_t i = 0; i < n; i++) f(int(i)); }
template <typename F> void parallel_for(std::string const&, std::size_t n, F const& f) { parallel_for(n, f); }

} // namespace Kokkos
#include "Kokkos_Array.hpp"
#include "Kokkos_Complex.hpp"
#include "Kokkos_Pair.hpp"
