// C18: Kokkos views, maps and small values, on the stand-in of mc/kokkos.
#include "Kokkos_Core.hpp"
#include "Kokkos_DynRankView.hpp"
#include "Kokkos_DynamicView.hpp"
#include "Kokkos_UnorderedMap.hpp"
#include "api.h"
namespace K = Kokkos;
namespace kk {
using namespace uni;
using L = K::LayoutLeft; using R = K::LayoutRight; using S = K::LayoutStride;

inline std::string label(int i) { return i == 0 ? "" : i == 1 ? "view" : "a label that is too long for a small string"; }
// extents of a dynamic dimension: many for small ranks
inline std::size_t extent(std::size_t rank, std::size_t i) {
  return rank <= 2 ? std::size_t(mc::choose(THOROUGH ? 5 : 4)) : rank == 3 ? std::size_t(mc::choose(3)) : i < 2 ? std::size_t(mc::choose(3)) : i < 4 || THOROUGH ? std::size_t(mc::choose(2) + 1) : 1 + i % 2;
}
struct Shape { std::size_t n[8]; };
// A strided layout: dimensions in a chosen order from the fastest to the slowest, with gaps after some of them.
inline S strided(std::size_t rank, std::size_t const* n, int kind) {
  S l; std::size_t order[8]; for (std::size_t i = 0; i < rank; i++) order[i] = kind % 3 == 0 ? i : kind % 3 == 1 ? rank - 1 - i : (i + 1) % rank;
  std::size_t k = kind >= 6 ? 2 : 1;
  for (std::size_t j = 0; j < rank; j++) { std::size_t d = order[j]; l.dimension[d] = n[d]; l.stride[d] = k; k *= n[d] ? n[d] : 1; if (kind >= 3 && kind < 6 && j == 0) k++; }
  return l;
}
template <typename V> V allocate(std::string const& name, std::size_t rank, std::size_t const* n, int kind) {
  using A = typename V::array_layout;
  if constexpr (std::is_same<A, S>::value) return V(name, strided(rank, n, kind));
  else { A l; for (std::size_t i = 0; i < rank; i++) l.dimension[i] = n[i]; if (kind) return V(K::view_alloc(name, K::AllowPadding), l); return V(name, l); }
}
template <typename V> constexpr int kinds() { return std::is_same<typename V::array_layout, S>::value ? 9 : 2; }

// elements, whatever memory they are in; f(reference to a copy) may change them
template <typename V, typename F> void elements(V const& v, F f) {
  auto& c = K::Impl::Access::core(v); using T = std::remove_const_t<typename V::value_type>;
  c.each([&](std::size_t const* i) {
    if constexpr (V::memory_space::host) { f(*c.at(i, c.rank)); }
    else { T* p = c.at(i, c.rank); K::Impl::Block<T>::flip(p, 1); f(*p); K::Impl::Block<T>::flip(p, 1); }
  });
}
template <typename V> V filled(std::string const& name, std::size_t rank, std::size_t const* n, int kind, uint64_t seed) {
  V v = allocate<V>(name, rank, n, kind);
  uint64_t k = seed;
  elements(v, [&](auto& e) { e = uni::nth<std::decay_t<decltype(e)>>(k++); });
  return v;
}
template <typename V> void dump_view(Out& o, V const& v, std::size_t rank) {
  o += '<'; o += v.label(); o += '>'; num(o, 'r', rank);
  for (std::size_t i = 0; i < rank; i++) num(o, 'n', v.extent(i));
  if (std::is_same<typename V::array_layout, S>::value && v.size() && v.use_count()) for (std::size_t i = 0; i < rank; i++) num(o, 's', v.stride(i));
  using T = std::remove_const_t<typename V::value_type>;
  if (v.use_count()) elements(v, [&](auto& e) { uni::dump<T>(o, e); });
  else for (std::size_t i = 0; i < v.size(); i++) uni::dump<T>(o, T());      // never allocated: as good as initial values
}
template <typename V> std::string identity(V const& v) { Out o; num(o, 'p', uint64_t(reinterpret_cast<uintptr_t>(v.data()))); num(o, 'u', uint64_t(v.use_count())); num(o, 'c', v.span_is_contiguous()); return o; }
}
namespace uni {
template <typename D, typename... P> struct Ty<K::View<D, P...>> {
  using V = K::View<D, P...>; static constexpr std::size_t rank = V::traits::rank, dyn = V::traits::rank_dynamic;
  static void sizes(std::size_t* n, std::size_t (*f)(std::size_t, std::size_t)) { for (std::size_t i = 0; i < 8; i++) n[i] = i < dyn ? f(rank, i) : i < rank ? K::Impl::Data<D>::extent(i) : 1; }
  static V gen() {
    int how = mc::choose(rank <= 3 ? kk::kinds<V>() + 1 : rank == 4 ? 3 : 2);
    if (how == 0 && rank) return V();
    if (rank > 4) how *= 3;                        // plain or padded, one strided kind
    if (how >= kk::kinds<V>()) how = kk::kinds<V>() - 1;
    std::size_t n[8]; sizes(n, kk::extent);
    return kk::filled<V>(kk::label(rank <= 1 ? mc::choose(3) : int(n[0] % 3)), rank, n, how, 8 + (ctr() += 100));
  }
  static V nth(uint64_t i) {
    if (i % 4 == 2 && rank) return V();
    std::size_t n[8]; for (std::size_t d = 0; d < 8; d++) n[d] = d < dyn ? 1 + (i + d) % 2 : d < rank ? K::Impl::Data<D>::extent(d) : 1;
    return kk::filled<V>(kk::label(int(i % 3)), rank, n, int(i % kk::kinds<V>()), 6 + i * 7);
  }
  static void dump(Out& o, V const& v) { kk::dump_view(o, v, rank); }
};
template <typename T, typename... P> struct Ty<K::DynRankView<T, P...>> {
  using V = K::DynRankView<T, P...>;
  static V gen() {
    int r = mc::choose(9); if (r == 8) return V();
    std::size_t rank = std::size_t(r); int how = mc::choose(rank <= 3 ? kk::kinds<V>() : rank == 4 ? 3 : 2); if (rank > 4) how *= 3; if (how >= kk::kinds<V>()) how = kk::kinds<V>() - 1;
    std::size_t n[8]; for (std::size_t i = 0; i < 8; i++) n[i] = i < rank ? kk::extent(rank, i) : 1;
    return kk::filled<V>(kk::label(rank <= 1 ? mc::choose(3) : int(n[0] % 3)), rank, n, how, 8 + (ctr() += 100));
  }
  static V nth(uint64_t i) {
    if (i % 4 == 2) return V();
    std::size_t rank = i % 5, n[8]; for (std::size_t d = 0; d < 8; d++) n[d] = 1 + (i + d) % 2;
    return kk::filled<V>(kk::label(int(i % 3)), rank, n, int(i % kk::kinds<V>()), 6 + i * 7);
  }
  static void dump(Out& o, V const& v) { o += v.size() ? 'd' : 'e'; kk::dump_view(o, v, v.rank()); }
};
template <typename D, typename... P> struct Ty<K::Experimental::DynamicView<D, P...>> {
  using V = K::Experimental::DynamicView<D, P...>;
  static V make(int chunk, std::size_t n, std::size_t max, int lab, uint64_t seed) { V v(kk::label(lab), unsigned(chunk), unsigned(max)); v.resize_serial(n); for (std::size_t i = 0; i < n; i++) v(i) = uni::nth<typename V::value_type>(seed + i); return v; }
  static V gen() {
    int how = mc::choose(5); if (how == 0) return V();
    int chunk = how == 1 ? 1 : how == 2 ? 2 : how == 3 ? 3 : 16; std::size_t n = std::size_t(mc::choose(THOROUGH ? 40 : 20));
    V v = make(chunk, n, n + std::size_t(mc::choose(3)) * 9, int(n % 3), 8 + (ctr() += 100));
    switch (mc::choose(3)) { case 1: v.resize_serial(n / 2); break; case 2: v.resize_serial(0); break; }
    return v;
  }
  static V nth(uint64_t i) { return i % 4 == 2 ? V() : make(int(1 + i % 4), i % 7, 16, int(i % 3), i * 7); }
  static void dump(Out& o, V const& v) { o += '<'; o += v.label(); o += '>'; num(o, 'n', v.size()); num(o, 'k', v.chunk_size()); for (std::size_t i = 0; i < v.size(); i++) uni::dump<typename V::value_type>(o, v(i)); }
};
template <typename Key, typename V, typename... P> struct Ty<K::UnorderedMap<Key, V, P...>> {
  using M = K::UnorderedMap<Key, V, P...>;
  // a map after every sequence of insertions and erasures up to a length
  static M gen() {
    M m(std::uint32_t(mc::choose(3) * 100));
    int n = mc::choose(THOROUGH ? 5 : 4);
    static int const keys[] = {0, 1, 128, 3};
    for (int k = 0; k < n; k++) {
      int c = mc::choose(6);
      if (c < 4) m.insert(Key(keys[c]), uni::nth<V>(8 + ctr()++));
      else { m.begin_erase(); m.erase(Key(keys[(c - 4) * 2])); m.end_erase(); }
    }
    return m;
  }
  static M nth(uint64_t i) { M m(std::uint32_t(i % 3 * 50)); for (uint64_t k = 0; k < i % 5; k++) m.insert(Key((i + k) % 4), uni::nth<V>(i + 6 * k)); return m; }
  static void dump(Out& o, M const& m) { std::map<Key, std::string> s; num(o, 'n', m.size()); for (std::uint32_t i = 0; i < m.capacity(); i++) if (m.valid_at(i)) s[m.key_at(i)] = uni::dumped<V>(m.value_at(i)); for (auto& e : s) { uni::dump<Key>(o, e.first); o += e.second; } }
};
template <typename T> struct Ty<K::complex<T>> {
  static K::complex<T> gen() { T a = uni::gen<T>(), b = uni::gen<T>(); return {a, b}; }
  static K::complex<T> nth(uint64_t i) { return {uni::nth<T>(i), uni::nth<T>(i + 1)}; }
  static void dump(Out& o, K::complex<T> const& c) { uni::dump<T>(o, c.real()); uni::dump<T>(o, c.imag()); }
};
template <typename A, typename B> struct Ty<K::pair<A, B>> {
  using P = K::pair<A, B>;
  static P gen() { P p; p.first = uni::gen<A>(); p.second = uni::gen<B>(); return p; }
  static P nth(uint64_t i) { P p; p.first = uni::nth<A>(i); p.second = uni::nth<B>(i + 1); return p; }
  static void dump(Out& o, P const& p) { uni::dump<A>(o, p.first); uni::dump<B>(o, p.second); }
};
template <typename A> struct Ty<K::pair<A, void>> {
  using P = K::pair<A, void>;
  static P gen() { return P(uni::gen<A>()); }
  static P nth(uint64_t i) { return P(uni::nth<A>(i)); }
  static void dump(Out& o, P const& p) { uni::dump<A>(o, p.first); }
};
template <typename T, std::size_t N> struct Ty<K::Array<T, N>> {
  using A = K::Array<T, N>;
  static A gen() { A a; for (std::size_t i = 0; i < N; i++) a[i] = uni::gen<T>(); return a; }
  static A nth(uint64_t k) { A a; for (std::size_t i = 0; i < N; i++) a[i] = uni::nth<T>(k + i); return a; }
  static void dump(Out& o, A const& a) { for (std::size_t i = 0; i < N; i++) uni::dump<T>(o, a[i]); }
};
}
namespace kk {
// objects with views in them, written with the helpers for extents and contents
template <typename V> struct Parts {
  V v; int tail = 0;
  template <typename F> void fields(F f) { f(v); f(tail); }
  template <typename Z> void serialize(Z& s) { std::string l = v.label(); s | l; checkpoint::serializeExtentOnly(s, v, l); checkpoint::serializeContentsOnly(s, v); s | tail; }
};
struct Pt { int x = 0; std::string s; template <typename F> void fields(F f) { f(x); f(s); } template <typename Z> void serialize(Z& z) { z | x | s; } };
struct Many {
  K::View<int*> a; K::View<double**, L> b; K::DynRankView<int> c; K::UnorderedMap<int, int> m; K::complex<double> z; std::string end;
  template <typename F> void fields(F f) { f(a); f(b); f(c); f(m); f(z); f(end); }
  static Many make(uint64_t i) { Many o; o.fields([&](auto& x) { x = uni::nth<std::decay_t<decltype(x)>>(i++); }); return o; }
  template <typename Z> void serialize(Z& s) { s | a | b | c | m | z | end; }
};
struct Matrix {
  KokkosSparse::CrsMatrix<double> m;
  template <typename Z> void serialize(Z& s) { s | m; }
};
}
namespace uni {
template <> struct Ty<kk::Many> { static kk::Many gen() { return kk::Many::make(uint64_t(mc::choose(24))); } static kk::Many nth(uint64_t i) { return kk::Many::make(i); } static void dump(Out& o, kk::Many const& v) { const_cast<kk::Many&>(v).fields([&](auto& m) { uni::dump(o, m); }); } };
template <typename V> struct Ty<kk::Parts<V>> {
  static kk::Parts<V> gen() { kk::Parts<V> p; do p.v = uni::gen<V>(); while (0); p.tail = 7; if (!p.v.use_count()) p.v = uni::nth<V>(0); return p; }
  static kk::Parts<V> nth(uint64_t i) { kk::Parts<V> p; p.v = uni::nth<V>(i % 4 == 2 ? 3 : i); p.tail = int(i); return p; }
  static void dump(Out& o, kk::Parts<V> const& p) { uni::dump(o, p.v); uni::dump(o, p.tail); }
};
template <> struct Ty<kk::Matrix> {
  static kk::Matrix gen() { return nth(uint64_t(mc::choose(12))); }
  static kk::Matrix nth(uint64_t i) {
    K::StaticCrsGraph<int> g; g.entries = uni::nth<K::View<int*>>(i); g.row_map = uni::nth<K::View<std::size_t*>>(i / 2); g.row_block_offsets = uni::nth<K::View<std::size_t*>>(i / 3);
    kk::Matrix m; m.m = KokkosSparse::CrsMatrix<double>("m", int(i * 5 + 1), uni::nth<K::View<double*>>(i + 1), g); return m;
  }
  static void dump(Out& o, kk::Matrix const& m) { num(o, 'c', uint64_t(m.m.numCols())); uni::dump(o, m.m.graph.entries); uni::dump(o, m.m.graph.row_map); uni::dump(o, m.m.graph.row_block_offsets); uni::dump(o, m.m.values); }
};
}
namespace kk {
template <typename T, typename = void> struct Id { static std::string of(T const&) { return ""; } };
template <typename T> struct Id<T, std::void_t<decltype(std::declval<T const&>().span_is_contiguous()), decltype(std::declval<T const&>().use_count())>> { static std::string of(T const& v) { return identity(v); } };
template <typename T> std::unique_ptr<T> target4() { return std::unique_ptr<T>(new T(uni::nth<T>(4))); }
template <typename T> std::unique_ptr<T> target6() { return std::unique_ptr<T>(new T(uni::nth<T>(6))); }
template <typename T> void reg(char const* id) {
  mc::add({std::string("kokkos/") + id, [] {
    using namespace api;
    begin(); With w(2, 1);
    T v = gen<T>();
    std::string want = dumped(v), who = Id<T>::of(v);
    mc::state(want); mc::nontrivial();
    mc::note("value %s", show(want).c_str());
    std::string ref;
    auto unchanged = [&](char const* op) { same(v, want, op); MC_CHECK(Id<T>::of(v) == who, "%s changed the original", op); };
    for (int e = 0; e < ENCS; e++) {
      std::string s = encode(v, e);
      if (!e) ref = s;
      same_bytes(s, ref, enc_name(e));
      unchanged(enc_name(e));
    }
    size_t size = checkpoint::getSize(v);
    MC_CHECK(size == ref.size(), "getSize is %zu, %zu bytes were written", size, ref.size());
    unchanged("getSize");
    int64_t live = mc::Mem::live_blocks();
    auto released = [&](char const* what) { MC_CHECK(mc::Mem::live_blocks() == live, "%lld blocks are still there after %s", (long long)(mc::Mem::live_blocks() - live), what); };
    for (int d = 0; d < DECS; d++) {
      {
      auto o = decode<T>(ref, d);
      same(*o, want, dec_name(d));
      std::string again = encode(*o);
      if (d == 0) { auto o2 = decode<T>(again, D_MEM); same(*o2, want, "a decoded object, serialized and decoded again"); }
      }
      released(dec_name(d));
    }
    { auto o = decode<T>(ref, D_INPLACE, &target4<T>); same(*o, want, "in place over another value"); }
    { auto o = decode<T>(ref, D_INPLACE, &target6<T>); same(*o, want, "in place over an empty value"); }
    released("decoding in place");
    unchanged("decoding");
  }});
}
// the recursive traversal meets every element once, in index order
template <typename T, unsigned Rank> void traverse(char const* id) {
  mc::add({std::string("traverse/") + id, [] {
    begin(); T v = gen<T>();
    if (!v.use_count()) return;
    mc::nontrivial(); mc::transition();
    std::string got, want; size_t n = 0;
    elements(v, [&](auto& e) { uni::dump(want, e); });
    auto fn = [&](int& e) { n++; uni::dump(got, e); };
    checkpoint::TraverseRecursive<T, typename T::data_type, Rank, decltype(fn)&>::apply(v, fn);
    MC_CHECK(n == v.size(), "%zu elements visited of %zu", n, v.size());
    MC_CHECK(got == want, "elements visited in another order");
  }});
}
#define P(id, ...) reg<__VA_ARGS__>(#id);
static bool r = [] {
#if PART == 0
  P(v0, K::View<int>) P(v0_s, K::View<std::string>) P(v1, K::View<int*>) P(v1_d, K::View<double*, L>) P(v1_c, K::View<char*>) P(v1_s, K::View<std::string*>) P(v1_str, K::View<int*, S>) P(v1_3, K::View<int[3]>)
  P(v1_pt, K::View<Pt*>) P(v1_pts, K::View<Pt*, S>) P(v1_const, K::View<int const*>) P(v1_far, K::View<int*, K::Far>) P(v1_at, K::View<int*, K::MemoryTraits<K::Atomic>>) P(v0_far, K::View<double, K::Far>) P(v1_far_s, K::View<int*, S, K::Far>)
  P(v2, K::View<int**>) P(v2_l, K::View<double**, L>) P(v2_s, K::View<int**, S>) P(v2_n3, K::View<int*[3]>) P(v2_23, K::View<int[2][3], L>) P(v2_str, K::View<std::string**, L>) P(v2_const, K::View<double const**, L>) P(v2_far, K::View<int**, L, K::Far>) P(v2_far_s, K::View<int**, S, K::Far>) P(v2_at, K::View<int**, L, K::MemoryTraits<K::Atomic>>)
#elif PART == 1
  P(v3, K::View<int***>) P(v3_l, K::View<double***, L>) P(v3_s, K::View<int***, S>) P(v3_2, K::View<short**[2], L>) P(v3_23, K::View<int*[2][3]>) P(v3_far, K::View<int***, K::Far>) P(v3_pt, K::View<Pt***, L>) P(v3_far_s, K::View<int***, S, K::Far>)
  P(v4, K::View<int****>) P(v4_l, K::View<int****, L>) P(v4_s, K::View<int****, S>) P(v4_2, K::View<int***[2]>)
#elif PART == 2
  P(v5, K::View<int*****>) P(v5_l, K::View<int*****, L>) P(v5_s, K::View<int*****, S>) P(v6, K::View<int******>) P(v6_l, K::View<int****[2][3], L>) P(v6_s, K::View<int******, S>)
  P(v7, K::View<int*******>) P(v7_l, K::View<int*******, L>) P(v7_s, K::View<int*******, S>) P(v8, K::View<int********>) P(v8_l, K::View<int********, L>) P(v8_s, K::View<int********, S>)
#elif PART == 3
  P(dr, K::DynRankView<int>) P(dr_l, K::DynRankView<double, L>) P(dr_s, K::DynRankView<int, S>) P(dr_str, K::DynRankView<std::string>) P(dr_far, K::DynRankView<int, L, K::Far>)
  P(dy, K::Experimental::DynamicView<int*>) P(dy_s, K::Experimental::DynamicView<std::string*>) P(dy_d, K::Experimental::DynamicView<double*>)
#elif PART == 4
  P(um, K::UnorderedMap<int, int>) P(um_s, K::UnorderedMap<short, std::string>) P(um_v, K::UnorderedMap<unsigned, std::vector<int>>) P(um_pt, K::UnorderedMap<int, Pt>)
  P(cx, K::complex<double>) P(cx_f, K::complex<float>) P(pr, K::pair<int, std::string>) P(pr_v, K::pair<std::vector<int>, double>) P(pr_void, K::pair<std::string, void>) P(ar0, K::Array<int, 0>) P(ar1, K::Array<int, 1>) P(ar3, K::Array<std::string, 3>) P(ar_p, K::Array<K::pair<int, Pt>, 2>)
#else
  P(vv, K::View<K::View<int*>*>) P(vv3, K::View<K::View<double*>[3]>) P(v_cx, K::View<K::complex<double>**, S>) P(v_pr, K::View<K::pair<int, double>*>) P(vec_v, std::vector<K::View<int*>>) P(opt_v, std::optional<K::View<int**, L>>) P(map_v, std::map<int, K::View<double*>>) P(u_v, std::unique_ptr<K::View<int*>>)
  P(parts1, Parts<K::View<int*>>) P(parts2, Parts<K::View<double**, L>>) P(parts3, Parts<K::View<int***>>) P(parts4, Parts<K::View<int****, L>>) P(many, Many) P(matrix, Matrix)
  traverse<K::View<int*>, 1>("v1"); traverse<K::View<int**, L>, 2>("v2"); traverse<K::View<int***, S>, 3>("v3"); traverse<K::View<int****>, 4>("v4");
#endif
  return true;
}();
}
