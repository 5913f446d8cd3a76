// The universe of serializable types: for each type, how to enumerate its values (gen), a deterministic i-th value
// (nth), a canonical observation of a value (dump), the footprint the documented rules give (fp) and the memory
// regions that are its leaves (leaves). Nothing here calls the library except the serialize() bodies of user types.
#pragma once
#include <checkpoint/checkpoint.h>
#include "explore.h"

#include <array>
#include <chrono>
#include <cmath>
#include <deque>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <queue>
#include <set>
#include <stack>
#include <string>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>
#include <algorithm>

namespace uni {

struct Bounds { int len = 2, leaf = 2; };
inline Bounds& B() { static Bounds b; return b; }
// Values are made distinct by a counter, reset at the start of every execution.
inline uint64_t& ctr() { static uint64_t c = 0; return c; }
struct With {  // sets the bounds for a scope
  Bounds old; With(int len, int leaf) : old(B()) { B() = {len, leaf}; } ~With() { B() = old; }
};
inline void begin() { ctr() = 0; }

using Out = std::string;
inline void raw(Out& o, void const* p, size_t n) { o.append(static_cast<char const*>(p), n); }
inline void num(Out& o, char tag, uint64_t v) { o += tag; raw(o, &v, 8); }

struct Region { char const* p; size_t n; size_t elem = 0; };   // elem: size of one element, 0 for a single one
using Regions = std::vector<Region>;

template <typename T, typename = void> struct Ty;

template <typename T> T gen() { return Ty<T>::gen(); }
template <typename T> T nth(uint64_t i) { return Ty<T>::nth(i); }
template <typename T> void dump(Out& o, T const& v) { Ty<T>::dump(o, v); }
template <typename T> std::string dumped(T const& v) { Out o; Ty<T>::dump(o, v); return o; }
template <typename T> size_t fp(T const& v) { return Ty<T>::fp(v); }
template <typename T> void leaves(Regions& r, T const& v) { Ty<T>::leaves(r, v); }

inline uint64_t mix(uint64_t i) { i += 0x9e3779b97f4a7c15ull; i = (i ^ (i >> 30)) * 0xbf58476d1ce4e5b9ull; i = (i ^ (i >> 27)) * 0x94d049bb133111ebull; return i ^ (i >> 31); }
// One of the `leaf` smallest-numbered values of a type with special values, made distinct when leaf == 1.
inline uint64_t leaf_index() { return B().leaf <= 1 ? 8 + ctr()++ : uint64_t(mc::choose(B().leaf)); }

// ---- scalars -------------------------------------------------------------------------------------------------
template <typename T> struct Ty<T, std::enable_if_t<std::is_integral<T>::value>> {
  static T nth(uint64_t i) {
    if (std::is_same<T, bool>::value) return T((i & 1) == 0);
    switch (i) {
      case 0: return T(-1);
      case 1: return T(0);
      case 2: return std::numeric_limits<T>::min();
      case 3: return std::numeric_limits<T>::max();
      case 4: return T(0x80);
      case 5: return T('\n');
      default: return T(mix(i));
    }
  }
  static T gen() { return nth(leaf_index()); }
  static void dump(Out& o, T const& v) {
    // a bool is observed through its representation too: only 0 and 1 are valid
    raw(o, &v, sizeof v);
  }
  static size_t fp(T const&) { return sizeof(T); }
  static void leaves(Regions& r, T const& v) { r.push_back({reinterpret_cast<char const*>(&v), sizeof v}); }
};
template <typename T> struct Ty<T, std::enable_if_t<std::is_floating_point<T>::value>> {
  static constexpr size_t bytes = std::is_same<T, long double>::value ? 10 : sizeof(T);
  static T nth(uint64_t i) {
    switch (i) {
      case 0: return std::copysign(std::numeric_limits<T>::quiet_NaN(), T(-1));
      case 1: return T(-0.0);
      case 2: return std::numeric_limits<T>::denorm_min();
      case 3: return -std::numeric_limits<T>::infinity();
      case 4: return std::numeric_limits<T>::max();
      default: return T(int64_t(mix(i)) / 3) / T(7);
    }
  }
  static T gen() { return nth(leaf_index()); }
  static void dump(Out& o, T const& v) { raw(o, &v, bytes); }
  static size_t fp(T const&) { return sizeof(T); }
  static void leaves(Regions& r, T const& v) { r.push_back({reinterpret_cast<char const*>(&v), sizeof v}); }
};
template <typename T> struct Ty<T, std::enable_if_t<std::is_enum<T>::value>> {
  using U = std::underlying_type_t<T>;
  static T nth(uint64_t i) { return static_cast<T>(uni::nth<U>(i)); }
  static T gen() { return nth(leaf_index()); }
  static void dump(Out& o, T const& v) { raw(o, &v, sizeof v); }
  static size_t fp(T const&) { return sizeof(T); }
  static void leaves(Regions&, T const&) {}     // serialized through a temporary
};
template <typename R, typename P> struct Ty<std::chrono::duration<R, P>> {
  using T = std::chrono::duration<R, P>;
  static T nth(uint64_t i) { return T(uni::nth<R>(i)); }
  static T gen() { return T(uni::gen<R>()); }
  static void dump(Out& o, T const& v) { uni::dump<R>(o, v.count()); }
  static size_t fp(T const&) { return sizeof(R); }
  static void leaves(Regions&, T const&) {}     // serialized through a temporary
};

// ---- sequences -----------------------------------------------------------------------------------------------
template <> struct Ty<std::string> {
  using T = std::string;
  static T sized(size_t n, uint64_t salt = 0) {
    T s; s.reserve(n);
    for (size_t i = 0; i < n; i++) s.push_back(char(mix((i >> 3) + salt * 77) >> ((i & 7) * 8)));
    return s;
  }
  static T nth(uint64_t i) {
    switch (i) {
      case 0: return T("\0a\n\0", 4);
      case 1: return T();
      case 2: return T(15, 's');
      case 3: return T(16, 'h');
      default: return sized(1 + i * 7 % 41, i);
    }
  }
  static T gen() { return nth(leaf_index()); }
  static void dump(Out& o, T const& v) { num(o, 's', v.size()); raw(o, v.data(), v.size()); if (v.data()[v.size()] != 0) o += "UNTERMINATED"; }
  static size_t fp(T const& v) { return sizeof v + v.capacity(); }
  static void leaves(Regions& r, T const& v) { if (!v.empty()) r.push_back({v.data(), v.size(), 1}); }
};
template <typename C, typename E> struct SeqTy {   // push_back-able
  static C sized(size_t n, uint64_t salt = 0) {
    C c;
    for (size_t i = 0; i < n; i++) c.push_back(uni::nth<E>(8 + i + salt * 1000003));
    return c;
  }
  static C nth(uint64_t i) { C c; for (uint64_t k = 0; k < i % 3; k++) c.push_back(uni::nth<E>(i * 3 + k)); return c; }
  static C gen() {
    C c; int n = mc::choose(B().len + 1);
    for (int i = 0; i < n; i++) c.push_back(uni::gen<E>());
    return c;
  }
  static void dump(Out& o, C const& v) { num(o, 'q', v.size()); for (auto&& e : v) uni::dump<E>(o, e); }
  static size_t fp(C const& v) { size_t s = sizeof v; for (auto&& e : v) s += uni::fp<E>(e); return s; }
  static void leaves(Regions& r, C const& v) { for (auto& e : v) uni::leaves<E>(r, e); }
};
template <typename E, typename A> struct Ty<std::vector<E, A>> : SeqTy<std::vector<E, A>, E> {
  using C = std::vector<E, A>;
  static C gen() {
    // spare capacity is part of the value: none, or one more than the size
    C c; int n = mc::choose(B().len + 1);
    if (B().leaf > 1 && mc::flip()) c.reserve(size_t(n) + 1);
    for (int i = 0; i < n; i++) c.push_back(uni::gen<E>());
    return c;
  }
  static size_t fp(C const& v) {
    size_t s = sizeof v; for (auto&& e : v) s += uni::fp<E>(e);
    return s + sizeof(E) * (v.capacity() - v.size());
  }
};
template <typename A> struct Ty<std::vector<bool, A>> {
  using C = std::vector<bool, A>;
  static C sized(size_t n, uint64_t salt = 0) { C c; for (size_t i = 0; i < n; i++) c.push_back((mix(i / 64 + salt * 77) >> (i % 64)) & 1); return c; }
  static C nth(uint64_t i) { return sized(i % 3, i); }
  static C gen() { int n = mc::choose(B().len + 1); C c; for (int i = 0; i < n; i++) c.push_back(uni::gen<bool>()); return c; }
  static void dump(Out& o, C const& v) { num(o, 'q', v.size()); for (bool b : v) o += b ? '1' : '0'; }
  static size_t fp(C const& v) { return sizeof v; }
  static void leaves(Regions&, C const&) {}     // serialized through temporaries
};
template <typename E> struct Ty<std::list<E>> : SeqTy<std::list<E>, E> {};
template <typename E> struct Ty<std::deque<E>> : SeqTy<std::deque<E>, E> {};
template <typename E, size_t N> struct Ty<std::array<E, N>> {
  using C = std::array<E, N>;
  template <typename F, size_t... I> static C make(F f, std::index_sequence<I...>) { return C{{f(I)...}}; }
  static C make0(std::true_type, uint64_t) { return C{}; }
  static C nth(uint64_t i) {
    if constexpr (N == 0) { (void)i; return C{}; }
    else return make([i](size_t k) { return uni::nth<E>(i * N + k); }, std::make_index_sequence<N>());
  }
  static C gen() {
    if constexpr (N == 0) return C{};
    else return make([](size_t) { return uni::gen<E>(); }, std::make_index_sequence<N>());
  }
  static void dump(Out& o, C const& v) { o += 'a'; for (auto& e : v) uni::dump<E>(o, e); }
  static size_t fp(C const& v) { size_t s = 0; for (auto& e : v) s += uni::fp<E>(e); return s; }
  static void leaves(Regions& r, C const& v) { for (auto& e : v) uni::leaves<E>(r, e); }
};
template <typename E> struct Ty<std::queue<E>> {
  using C = std::queue<E>;
  static C sized(size_t n, uint64_t salt = 0) { C c; for (size_t i = 0; i < n; i++) c.push(uni::nth<E>(8 + i + salt * 1000003)); return c; }
  static C nth(uint64_t i) { return sized(i % 3, i); }
  static C gen() { C c; int n = mc::choose(B().len + 1); for (int i = 0; i < n; i++) c.push(uni::gen<E>()); return c; }
  static void dump(Out& o, C const& v) { num(o, 'q', v.size()); C c(v); while (!c.empty()) { uni::dump<E>(o, c.front()); c.pop(); } }
  static size_t fp(C const& v) { return sizeof v + v.size() * sizeof(E); }
  static void leaves(Regions&, C const&) {}     // serialized from a copy
};

// ---- associative ---------------------------------------------------------------------------------------------
template <typename C> struct SetTy {
  using E = typename C::value_type;
  static C sized(size_t n, uint64_t salt = 0) { C c; for (size_t i = 0; i < n; i++) c.insert(uni::nth<E>(8 + i + salt * 1000003)); return c; }
  static C nth(uint64_t i) { return sized(i % 3, i); }
  static C gen() { C c; int n = mc::choose(B().len + 1); for (int i = 0; i < n; i++) c.insert(uni::gen<E>()); return c; }
  static size_t fp(C const& v) { size_t s = sizeof v; for (auto& e : v) s += uni::fp<E>(e); return s; }
  static void leaves(Regions& r, C const& v) { for (auto& e : v) uni::leaves<E>(r, e); }
};
template <typename C> struct MapTy {
  using K = typename C::key_type;
  using M = typename C::mapped_type;
  static C sized(size_t n, uint64_t salt = 0) { C c; for (size_t i = 0; i < n; i++) c.emplace(uni::nth<K>(8 + i + salt * 1000003), uni::nth<M>(i + salt + 5)); return c; }
  static C nth(uint64_t i) { return sized(i % 3, i); }
  static C gen() { C c; int n = mc::choose(B().len + 1); for (int i = 0; i < n; i++) { auto k = uni::gen<K>(); c.emplace(std::move(k), uni::gen<M>()); } return c; }
  static size_t fp(C const& v) { size_t s = sizeof v; for (auto& e : v) s += sizeof e + uni::fp<K>(e.first) + uni::fp<M>(e.second); return s; }
  static void leaves(Regions& r, C const& v) { for (auto& e : v) { uni::leaves<K>(r, e.first); uni::leaves<M>(r, e.second); } }
};
template <typename C> struct Ordered : C {};
template <typename C> void dump_set(Out& o, C const& v, bool sort) {
  num(o, 'S', v.size());
  std::vector<std::string> d; size_t n = 0;
  for (auto& e : v) { Out t; uni::dump<typename C::value_type>(t, e); d.push_back(std::move(t)); n++; }
  if (n != v.size()) o += "SIZE!";
  if (sort) std::sort(d.begin(), d.end());
  for (auto& s : d) o += s;
  for (auto& e : v) if (v.find(e) == v.end()) o += "UNFINDABLE";
}
template <typename C> void dump_map(Out& o, C const& v, bool sort) {
  num(o, 'M', v.size());
  std::vector<std::string> d; size_t n = 0;
  for (auto& e : v) { Out t; uni::dump<typename C::key_type>(t, e.first); uni::dump<typename C::mapped_type>(t, e.second); d.push_back(std::move(t)); n++; }
  if (n != v.size()) o += "SIZE!";
  if (sort) std::sort(d.begin(), d.end());
  for (auto& s : d) o += s;
  for (auto& e : v) if (v.find(e.first) == v.end()) o += "UNFINDABLE";
}
template <typename E, typename P> struct Ty<std::set<E, P>> : SetTy<std::set<E, P>> { static void dump(Out& o, std::set<E, P> const& v) { dump_set(o, v, false); } };
template <typename E, typename P> struct Ty<std::multiset<E, P>> : SetTy<std::multiset<E, P>> { static void dump(Out& o, std::multiset<E, P> const& v) { dump_set(o, v, false); } };
template <typename E, typename H, typename Q> struct Ty<std::unordered_set<E, H, Q>> : SetTy<std::unordered_set<E, H, Q>> { static void dump(Out& o, std::unordered_set<E, H, Q> const& v) { dump_set(o, v, true); } };
template <typename E, typename H, typename Q> struct Ty<std::unordered_multiset<E, H, Q>> : SetTy<std::unordered_multiset<E, H, Q>> { static void dump(Out& o, std::unordered_multiset<E, H, Q> const& v) { dump_set(o, v, true); } };
template <typename K, typename M, typename P> struct Ty<std::map<K, M, P>> : MapTy<std::map<K, M, P>> { static void dump(Out& o, std::map<K, M, P> const& v) { dump_map(o, v, false); } };
template <typename K, typename M, typename P> struct Ty<std::multimap<K, M, P>> : MapTy<std::multimap<K, M, P>> { static void dump(Out& o, std::multimap<K, M, P> const& v) { dump_map(o, v, false); } };
template <typename K, typename M, typename H, typename Q> struct Ty<std::unordered_map<K, M, H, Q>> : MapTy<std::unordered_map<K, M, H, Q>> { static void dump(Out& o, std::unordered_map<K, M, H, Q> const& v) { dump_map(o, v, true); } };
template <typename K, typename M, typename H, typename Q> struct Ty<std::unordered_multimap<K, M, H, Q>> : MapTy<std::unordered_multimap<K, M, H, Q>> { static void dump(Out& o, std::unordered_multimap<K, M, H, Q> const& v) { dump_map(o, v, true); } };

// ---- wrappers ------------------------------------------------------------------------------------------------
template <typename A, typename D> struct Ty<std::pair<A, D>> {
  using T = std::pair<A, D>; using CA = std::remove_const_t<A>;
  static T nth(uint64_t i) { return T(uni::nth<CA>(i), uni::nth<D>(i + 1)); }
  static T gen() { auto a = uni::gen<CA>(); auto d = uni::gen<D>(); return T(std::move(a), std::move(d)); }
  static void dump(Out& o, T const& v) { o += 'p'; uni::dump<CA>(o, v.first); uni::dump<D>(o, v.second); }
  static size_t fp(T const& v) { return sizeof v + uni::fp<CA>(v.first) + uni::fp<D>(v.second); }
  static void leaves(Regions& r, T const& v) { uni::leaves<CA>(r, v.first); uni::leaves<D>(r, v.second); }
};
template <typename... A> struct Ty<std::tuple<A...>> {
  using T = std::tuple<A...>;
  static T nth(uint64_t i) { return T{uni::nth<A>(i++)...}; }
  static T gen() { return T{uni::gen<A>()...}; }
  template <size_t... I> static void d(Out& o, T const& v, std::index_sequence<I...>) { (uni::dump<A>(o, std::get<I>(v)), ...); }
  static void dump(Out& o, T const& v) { o += 't'; d(o, v, std::index_sequence_for<A...>()); }
  static size_t fp(T const& v) { return std::apply([](auto const&... e) { return (size_t(0) + ... + uni::fp(e)); }, v); }
  static void leaves(Regions& r, T const& v) { std::apply([&](auto const&... e) { (uni::leaves(r, e), ...); }, v); }
};
template <typename E> struct Ty<std::optional<E>> {
  using T = std::optional<E>;
  static T nth(uint64_t i) { return i % 3 == 1 ? T() : T(uni::nth<E>(i)); }
  static T gen() { return mc::flip() ? T(uni::gen<E>()) : T(); }
  static void dump(Out& o, T const& v) { o += v ? 'O' : 'o'; if (v) uni::dump<E>(o, *v); }
  static size_t fp(T const& v) { return sizeof v + (v ? sizeof(*v) : 0); }
  static void leaves(Regions& r, T const& v) { if (v) uni::leaves<E>(r, *v); }
};
template <typename... A> struct Ty<std::variant<A...>> {
  using T = std::variant<A...>;
  template <size_t I = 0> static T make(size_t k, bool g, uint64_t i) {
    if constexpr (I + 1 < sizeof...(A)) { if (k != I) return make<I + 1>(k, g, i); }
    using E = std::variant_alternative_t<I, T>;
    (void)k;
    return T(std::in_place_index<I>, g ? uni::gen<E>() : uni::nth<E>(i));
  }
  static T nth(uint64_t i) { return make(i % sizeof...(A), false, i); }
  static T gen() { return make(size_t(mc::choose(int(sizeof...(A)))), true, 0); }
  static void dump(Out& o, T const& v) { num(o, 'v', v.index()); std::visit([&](auto const& e) { uni::dump(o, e); }, v); }
  static constexpr bool bytes = (checkpoint::SerializableTraits<A>::is_bytecopyable && ...);
  static size_t fp(T const& v) { return bytes ? sizeof v : 8 + std::visit([](auto const& e) { return uni::fp(e); }, v); }
  static void leaves(Regions& r, T const& v) {
    if (bytes) r.push_back({reinterpret_cast<char const*>(&v), sizeof v});
    else std::visit([&](auto const& e) { uni::leaves(r, e); }, v);
  }
};
template <typename E, typename D> struct Ty<std::unique_ptr<E, D>> {
  using T = std::unique_ptr<E, D>;
  static T nth(uint64_t i) { return i % 4 == 1 ? T() : T(new E(uni::nth<E>(i))); }
  static T gen() { if (!mc::flip()) return T(); return T(new E(uni::gen<E>())); }
  static void dump(Out& o, T const& v) { o += v ? 'U' : 'u'; if (v) uni::dump<E>(o, *v); }
  static size_t fp(T const& v) { return sizeof v + (v ? uni::fp<E>(*v) : 0); }
  static void leaves(Regions& r, T const& v) { if (v) uni::leaves<E>(r, *v); }
};

// ---- user types ----------------------------------------------------------------------------------------------
// A user type lists its members: fields(f) calls f on each. Members are set one by one after uni_blank().
template <typename T> T uni_blank_default() { return T{}; }
template <typename T, typename = void> struct Blank { static T make() { return T{}; } };
template <typename T> struct Blank<T, std::void_t<decltype(T::uni_blank())>> { static T make() { return T::uni_blank(); } };
struct NoOp { template <typename M> void operator()(M&) const {} };
template <typename T> struct Ty<T, std::void_t<decltype(std::declval<T&>().fields(NoOp{}))>> {
  static T nth(uint64_t i) { T t = Blank<T>::make(); t.fields([&](auto& m) { m = uni::nth<std::decay_t<decltype(m)>>(i++); }); return t; }
  static T gen() { T t = Blank<T>::make(); t.fields([&](auto& m) { m = uni::gen<std::decay_t<decltype(m)>>(); }); return t; }
  static void dump(Out& o, T const& v) { o += '{'; const_cast<T&>(v).fields([&](auto& m) { uni::dump(o, m); }); o += '}'; }
  static size_t fp(T const& v) {
    if (checkpoint::SerializableTraits<T>::is_bytecopyable) return sizeof v;
    size_t s = 0; const_cast<T&>(v).fields([&](auto& m) { s += uni::fp(m); }); return s;
  }
  static void leaves(Regions& r, T const& v) {
    if (checkpoint::SerializableTraits<T>::is_bytecopyable) { r.push_back({reinterpret_cast<char const*>(&v), sizeof v}); return; }
    const_cast<T&>(v).fields([&](auto& m) { uni::leaves(r, m); });
  }
};

enum class E8 : uint8_t { a, b = 255 };
enum E32 { e32_a, e32_b = -5, e32_c = 0x7ffffff0 };
enum class E64 : int64_t { a, b = -1 };
enum class EB : bool { no, yes };

struct BytesIntrusive {                 // byte-copyable by trait in the class
  using isByteCopyable = std::true_type;
  int32_t a; uint8_t b; uint8_t pad[3]; int64_t c;
  template <typename F> void fields(F f) { f(a); f(b); f(c); }
};
struct BytesBase : checkpoint::SerdesByteCopy {   // byte-copyable by base class
  double a = 0; double b = 0;
  template <typename F> void fields(F f) { f(a); f(b); }
};
struct BytesExternal {                  // byte-copyable by specialisation
  uint16_t a; uint16_t b;
  template <typename F> void fields(F f) { f(a); f(b); }
};
struct Intrusive {
  int a = 0; std::string b; double c = 0;
  template <typename F> void fields(F f) { f(a); f(b); f(c); }
  template <typename S> void serialize(S& s) { s | a | b; s | c; }
  bool operator<(Intrusive const& o) const { return std::tie(a, b, c) < std::tie(o.a, o.b, o.c); }
};
struct NonIntrusive {
  uint8_t a = 0; std::vector<int> b; E8 e = E8::a;
  template <typename F> void fields(F f) { f(a); f(b); f(e); }
};
template <typename S> void serialize(S& s, NonIntrusive& n) { s | n.e; s | n.a; s | n.b; }
struct Tagged {                         // no default constructor
  int a; std::string b; int unserialized;
  explicit Tagged(int x) : a(x), unserialized(1) {}
  explicit Tagged(checkpoint::SERIALIZE_CONSTRUCT_TAG) : a(-77), unserialized(1) {}
  static Tagged uni_blank() { return Tagged(0); }
  template <typename F> void fields(F f) { f(a); f(b); f(unserialized); }
  template <typename S> void serialize(S& s) { s | a; s | b; s | unserialized; }
};
struct Recon {                          // member reconstruct
  int a; std::string b;
  explicit Recon(int x) : a(x) {}
  static Recon& reconstruct(void* buf) { return *new (buf) Recon(-78); }
  static Recon uni_blank() { return Recon(0); }
  template <typename F> void fields(F f) { f(a); f(b); }
  template <typename S> void serialize(S& s) { s | b; s | a; }
};
struct FreeRecon {                      // free reconstruct found by ADL
  int a; std::vector<std::string> b;
  explicit FreeRecon(int x) : a(x) {}
  static FreeRecon uni_blank() { return FreeRecon(0); }
  template <typename F> void fields(F f) { f(a); f(b); }
  template <typename S> void serialize(S& s) { s | a | b; }
};
inline void reconstruct(FreeRecon*& p, void* buf) { p = new (buf) FreeRecon(-79); }
struct MoveOnly {                       // tagged, move-only
  int a; std::unique_ptr<std::string> b;
  explicit MoveOnly(int x) : a(x) {}
  explicit MoveOnly(checkpoint::SERIALIZE_CONSTRUCT_TAG) : a(-80) {}
  MoveOnly(MoveOnly&&) = default; MoveOnly& operator=(MoveOnly&&) = default;
  MoveOnly(MoveOnly const&) = delete; MoveOnly& operator=(MoveOnly const&) = delete;
  static MoveOnly uni_blank() { return MoveOnly(0); }
  template <typename F> void fields(F f) { f(a); f(b); }
  template <typename S> void serialize(S& s) { s | a; s | b; }
};
struct BaseA { int x = 0; std::string y; template <typename S> void serialize(S& s) { s | x | y; } };
struct Inherit : BaseA {                // calls its base's serialize
  std::vector<char> z;
  template <typename F> void fields(F f) { f(x); f(y); f(z); }
  template <typename S> void serialize(S& s) { BaseA::serialize(s); s | z; }
};
struct Tree {                           // recursive through unique_ptr
  int v = 0; std::unique_ptr<Tree> l, r;
  template <typename S> void serialize(S& s) { s | v; s | l; s | r; }
};
template <> struct Ty<Tree> {
  static Tree nth(uint64_t i) { Tree t; t.v = uni::nth<int>(i); if (i & 1) t.l.reset(new Tree(nth(i / 4))); if (i & 2) t.r.reset(new Tree(nth(i / 4))); return t; }
  static Tree gen_d(int d) {
    Tree t; t.v = uni::nth<int>(8 + ctr()++);
    if (d > 0 && mc::flip()) t.l.reset(new Tree(gen_d(d - 1)));
    if (d > 0 && mc::flip()) t.r.reset(new Tree(gen_d(d - 1)));
    return t;
  }
  static Tree gen() { return gen_d(B().len); }
  static void dump(Out& o, Tree const& t) { o += '('; uni::dump(o, t.v); if (t.l) dump(o, *t.l); else o += '-'; if (t.r) dump(o, *t.r); else o += '-'; o += ')'; }
  static size_t fp(Tree const& t) { return 4 + 2 * sizeof(void*) + (t.l ? fp(*t.l) : 0) + (t.r ? fp(*t.r) : 0); }
  static void leaves(Regions& r, Tree const& t) { uni::leaves(r, t.v); if (t.l) leaves(r, *t.l); if (t.r) leaves(r, *t.r); }
};
struct Rose {                           // recursive through vector
  short v = 0; std::vector<Rose> kids;
  template <typename S> void serialize(S& s) { s | kids; s | v; }
};
template <> struct Ty<Rose> {
  static Rose nth(uint64_t i) { Rose t; t.v = short(i); for (uint64_t k = 0; k < i % 3; k++) t.kids.push_back(nth(i / 3)); return t; }
  static Rose gen_d(int d) { Rose t; t.v = short(8 + ctr()++); int n = d > 0 ? mc::choose(3) : 0; for (int i = 0; i < n; i++) t.kids.push_back(gen_d(d - 1)); return t; }
  static Rose gen() { return gen_d(B().len); }
  static void dump(Out& o, Rose const& t) { o += '['; uni::dump(o, t.v); for (auto& k : t.kids) dump(o, k); o += ']'; }
  static size_t fp(Rose const& t) { size_t s = 2 + sizeof t.kids + sizeof(Rose) * (t.kids.capacity() - t.kids.size()); for (auto& k : t.kids) s += fp(k); return s; }
  static void leaves(Regions& r, Rose const& t) { for (auto& k : t.kids) leaves(r, k); uni::leaves(r, t.v); }
};
struct RawArray {                       // owns a plain array, serialized with serializeArray
  uint32_t n = 0; std::unique_ptr<int64_t[]> p; int arr[3] = {0, 0, 0};
  template <typename S> void serialize(S& s) {
    s | n;
    if (s.isUnpacking()) p = n ? std::make_unique<int64_t[]>(n) : nullptr;
    checkpoint::dispatch::serializeArray(s, p.get(), n);
    checkpoint::dispatch::serializeArray(s, &arr[0], 3);
  }
};
template <> struct Ty<RawArray> {
  static RawArray sized(size_t n, uint64_t salt = 0) { RawArray a; a.n = uint32_t(n); if (n) a.p = std::make_unique<int64_t[]>(n); for (size_t i = 0; i < n; i++) a.p[i] = int64_t(mix(i + salt)); for (int i = 0; i < 3; i++) a.arr[i] = int(mix(n + i)); return a; }
  static RawArray nth(uint64_t i) { return sized(i % 4, i); }
  static RawArray gen() { return sized(size_t(mc::choose(B().len + 1)), ctr()++); }
  static void dump(Out& o, RawArray const& a) { num(o, 'R', a.n); for (uint32_t i = 0; i < a.n; i++) uni::dump(o, a.p[i]); for (int x : a.arr) uni::dump(o, x); }
  static size_t fp(RawArray const& a) { return 4 + 8 * size_t(a.n) + 12; }
  static void leaves(Regions& r, RawArray const& a) { uni::leaves(r, a.n); if (a.n) r.push_back({reinterpret_cast<char const*>(a.p.get()), 8 * size_t(a.n), 8}); r.push_back({reinterpret_cast<char const*>(a.arr), 12, 4}); }
};
struct Empty { template <typename S> void serialize(S&) {} template <typename F> void fields(F) {} };
template <typename T> struct Tmpl {     // class template with conditional content
  bool has = false; T t{};
  template <typename F> void fields(F f) { f(has); if (has) f(t); }
  template <typename S> void serialize(S& s) { s | has; if (has) s | t; else if (s.isUnpacking()) t = T{}; }
};
struct alignas(32) Over { double d[4] = {0, 0, 0, 0}; std::string s;   // over-aligned
  template <typename F> void fields(F f) { f(d[0]); f(d[3]); f(s); }
  template <typename S> void serialize(S& z) { z | d[0]; z | d[3]; z | s; } };
struct Split {                          // serializeParent / serializeThis style
  int a = 0, b = 0, c = 0;
  template <typename F> void fields(F f) { f(a); f(b); f(c); }
  template <typename S> void serialize(S& s) { s | a; }
  template <typename S> void serializeParent(S& s) { s | b; }
  template <typename S> void serializeThis(S& s) { s | c; }
};
struct Big { char c[5000]; using isByteCopyable = std::true_type; };
template <> struct Ty<Big> {
  static Big nth(uint64_t i) { Big b; for (size_t k = 0; k < sizeof b.c; k++) b.c[k] = char(mix(i * 5000 + k)); return b; }
  static Big gen() { return nth(leaf_index()); }
  static void dump(Out& o, Big const& b) { raw(o, &b, sizeof b); }
  static size_t fp(Big const& b) { return sizeof b; }
  static void leaves(Regions& r, Big const& b) { r.push_back({b.c, sizeof b.c}); }
};
// A class that keeps a member pointer into itself and rebuilds it when unpacking.
struct SelfRef {
  std::vector<int> v; int* first = nullptr;
  SelfRef() = default;
  SelfRef(SelfRef const& o) : v(o.v), first(v.empty() ? nullptr : v.data()) {}
  SelfRef& operator=(SelfRef const& o) { v = o.v; first = v.empty() ? nullptr : v.data(); return *this; }
  template <typename S> void serialize(S& s) { s | v; if (s.isUnpacking()) first = v.empty() ? nullptr : v.data(); }
};
template <> struct Ty<SelfRef> {
  static SelfRef nth(uint64_t i) { SelfRef t; t.v = uni::nth<std::vector<int>>(i); t.first = t.v.empty() ? nullptr : t.v.data(); return t; }
  static SelfRef gen() { SelfRef t; t.v = uni::gen<std::vector<int>>(); t.first = t.v.empty() ? nullptr : t.v.data(); return t; }
  static void dump(Out& o, SelfRef const& t) { uni::dump(o, t.v); o += (t.first == (t.v.empty() ? nullptr : t.v.data())) ? '=' : '!'; }
  static size_t fp(SelfRef const& t) { return uni::fp(t.v); }
  static void leaves(Regions& r, SelfRef const& t) { uni::leaves(r, t.v); }
};

struct OddFirst { bool operator()(int a, int b) const { return std::make_pair(!(a & 1), a) < std::make_pair(!(b & 1), b); } };
struct SameHash { size_t operator()(int) const { return 42; } };
struct LenHash { size_t operator()(std::string const& s) const { return s.size(); } };
struct FirstEq { bool operator()(std::string const& a, std::string const& b) const { return a == b; } };
template <typename T> struct NullOk { void operator()(T* p) const { delete p; } };
template <typename T> struct CountingAlloc {
  using value_type = T;
  CountingAlloc() = default; template <typename U> CountingAlloc(CountingAlloc<U> const&) {}
  T* allocate(size_t n) { return std::allocator<T>().allocate(n); }
  void deallocate(T* p, size_t n) { std::allocator<T>().deallocate(p, n); }
  bool operator==(CountingAlloc const&) const { return true; }
  bool operator!=(CountingAlloc const&) const { return false; }
};

} // namespace uni

namespace checkpoint {
template <> struct ByteCopyNonIntrusive<uni::BytesExternal> { using isByteCopyable = std::true_type; };
}
