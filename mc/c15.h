// C15: a user's traverser and dispatcher see every leaf and every part exactly once, at its true address, in one order.
#include "api.h"
#include <typeinfo>
namespace check {
using namespace api;
using Mode = checkpoint::eSerializationMode;

struct Elem { char const* p; size_t n; };
struct Visit { void const* p; std::type_info const* t; };
struct Log {
  std::vector<Elem> elems;      // one entry per element given to the traverser
  std::vector<Visit> visits;    // one entry per object given to the dispatcher
  std::string bytes, in; size_t pos = 0; bool over = false;
  Mode mode = Mode::None;
  void give(void* p, size_t size, size_t num) {
    for (size_t i = 0; i < num; i++) elems.push_back({static_cast<char*>(p) + i * size, size});
    size_t n = size * num;
    if (!n) return;
    if (mode == Mode::Packing) bytes.append(static_cast<char*>(p), n);
    if (mode == Mode::Unpacking) {
      if (n > in.size() - pos) { over = true; throw std::runtime_error("asked for more bytes than were packed"); }
      memcpy(p, in.data() + pos, n); pos += n;
    }
  }
};
template <template <typename, typename> class Disp> struct Rec : checkpoint::BaseSerializer {
  template <typename S, typename T> using DispatcherType = Disp<S, T>;
  Log* log;
  Rec(Log& l, Mode m) : BaseSerializer(m), log(&l) { l.mode = m; }
  void contiguousBytes(void* p, size_t size, size_t num) { log->give(p, size, num); }
};
template <template <typename, typename> class Disp> struct Typed : checkpoint::BaseSerializer {
  template <typename S, typename T> using DispatcherType = Disp<S, T>;
  Log* log;
  Typed(Log& l, Mode m) : BaseSerializer(m), log(&l) { l.mode = m; }
  void contiguousBytes(void*, size_t, size_t) { mc::fail_later("contiguousBytes called on a traverser that has its own contiguousTyped"); }
  template <typename S, typename T> void contiguousTyped(S& s, T* p, size_t num) {
    if (static_cast<void*>(&s) != static_cast<void*>(this)) mc::fail_later("contiguousTyped was given another traverser");
    log->give(p, sizeof(T), num);
  }
};
template <typename S, typename T> using Basic = checkpoint::dispatch::BasicDispatcher<S, T>;
template <typename S, typename T> struct Counting {
  static void serializeIntrusive(S& s, T& t) { s.log->visits.push_back({&t, &typeid(T)}); t.serialize(s); }
  static void serializeNonIntrusive(S& s, T& t) { s.log->visits.push_back({&t, &typeid(T)}); serialize(s, t); }
};
template <typename S, typename T> struct NoVectors : Counting<S, T> {};      // takes vectors over: their content is not traversed
template <typename S, typename E, typename A> struct NoVectors<S, std::vector<E, A>> {
  static void serializeNonIntrusive(S& s, std::vector<E, A>& t) { s.log->visits.push_back({&t, &typeid(t)}); }
};

// The parts of a value that a dispatcher must be given: every object that is not copied as bytes.
struct Part { void const* p; std::type_info const* t; bool inside_vector; };
struct Parts { std::vector<Part> all; Regions in_vectors; int depth = 0; };
template <typename T> void parts(Parts& o, T const& v);
template <typename T> struct Sub { static void go(Parts& o, T const& v) { if constexpr (std::is_class<T>::value) user(o, v, 0); }
  template <typename U> static auto user(Parts& o, U const& v, int) -> decltype(const_cast<U&>(v).fields(NoOp{})) {
    const_cast<U&>(v).fields([&](auto& m) { parts(o, m); }); }
  template <typename U> static void user(Parts&, U const&, long) {} };
template <typename C> struct SubEach { static void go(Parts& o, C const& v) { for (auto& e : v) parts(o, e); } };
template <typename E, typename A> struct Sub<std::vector<E, A>> : SubEach<std::vector<E, A>> {};
template <typename A> struct Sub<std::vector<bool, A>> { static void go(Parts&, std::vector<bool, A> const&) {} };
template <typename E> struct Sub<std::list<E>> : SubEach<std::list<E>> {};
template <typename E> struct Sub<std::deque<E>> : SubEach<std::deque<E>> {};
template <typename E, size_t N> struct Sub<std::array<E, N>> : SubEach<std::array<E, N>> {};
template <typename E, typename P> struct Sub<std::set<E, P>> : SubEach<std::set<E, P>> {};
template <typename E, typename P> struct Sub<std::multiset<E, P>> : SubEach<std::multiset<E, P>> {};
template <typename E, typename H, typename Q> struct Sub<std::unordered_set<E, H, Q>> : SubEach<std::unordered_set<E, H, Q>> {};
template <typename E, typename H, typename Q> struct Sub<std::unordered_multiset<E, H, Q>> : SubEach<std::unordered_multiset<E, H, Q>> {};
template <typename K, typename M, typename P> struct Sub<std::map<K, M, P>> : SubEach<std::map<K, M, P>> {};
template <typename K, typename M, typename P> struct Sub<std::multimap<K, M, P>> : SubEach<std::multimap<K, M, P>> {};
template <typename K, typename M, typename H, typename Q> struct Sub<std::unordered_map<K, M, H, Q>> : SubEach<std::unordered_map<K, M, H, Q>> {};
template <typename K, typename M, typename H, typename Q> struct Sub<std::unordered_multimap<K, M, H, Q>> : SubEach<std::unordered_multimap<K, M, H, Q>> {};
template <typename E, typename D> struct Sub<std::unique_ptr<E, D>> { static void go(Parts& o, std::unique_ptr<E, D> const& v) { if (v) parts(o, *v); } };
template <typename E> struct Sub<std::optional<E>> { static void go(Parts& o, std::optional<E> const& v) { if (v) parts(o, *v); } };
template <typename A, typename D> struct Sub<std::pair<A, D>> { static void go(Parts& o, std::pair<A, D> const& v) { parts(o, v.first); parts(o, v.second); } };
template <typename... A> struct Sub<std::tuple<A...>> { static void go(Parts& o, std::tuple<A...> const& v) { std::apply([&](auto const&... e) { (parts(o, e), ...); }, v); } };
template <typename... A> struct Sub<std::variant<A...>> { static void go(Parts& o, std::variant<A...> const& v) { std::visit([&](auto const& e) { parts(o, e); }, v); } };
template <> struct Sub<Tree> { static void go(Parts& o, Tree const& t) { parts(o, t.l); parts(o, t.r); } };
template <> struct Sub<Rose> { static void go(Parts& o, Rose const& t) { parts(o, t.kids); } };
template <> struct Sub<SelfRef> { static void go(Parts& o, SelfRef const& t) { parts(o, t.v); } };
template <> struct Sub<Over> { static void go(Parts& o, Over const& t) { parts(o, t.s); } };
template <typename T> struct IsVec : std::false_type {};
template <typename E, typename A> struct IsVec<std::vector<E, A>> : std::true_type {};
template <typename T> struct IsChrono : std::false_type {};
template <typename R, typename P> struct IsChrono<std::chrono::duration<R, P>> : std::true_type {};
template <typename T> void parts(Parts& o, T const& v) {
  if constexpr (std::is_class<T>::value) if (!checkpoint::SerializableTraits<T>::is_bytecopyable) {
    o.all.push_back({&v, &typeid(T), o.depth > 0});
    if (IsVec<T>::value) { if (!o.depth) leaves(o.in_vectors, v); o.depth++; }
    Sub<T>::go(o, v);
    if (IsVec<T>::value) o.depth--;
  }
}

using Want = std::vector<Elem>;      // sorted by address
inline Want expand(Regions const& r) {
  Want w;
  for (auto& x : r) { size_t e = x.elem ? x.elem : x.n; for (size_t i = 0; e && i + e <= x.n; i += e) w.push_back({x.p + i, e}); }
  std::sort(w.begin(), w.end(), [](Elem a, Elem b) { return a.p < b.p; });
  return w;
}
inline void each_once(Log const& l, Want const& w, char const* what) {
  std::vector<uint8_t> seen(w.size());
  for (auto& e : l.elems) {
    auto it = std::lower_bound(w.begin(), w.end(), e.p, [](Elem a, char const* p) { return a.p < p; });
    size_t i = size_t(it - w.begin());
    if (it != w.end() && it->p == e.p) {
      MC_CHECK(it->n == e.n, "%s: a leaf of %zu bytes was given as an element of %zu bytes", what, it->n, e.n);
      MC_CHECK(!seen[i]++, "%s: a leaf was given twice", what);
    } else {
      bool hit = (it != w.end() && e.p + e.n > it->p) || (it != w.begin() && it[-1].p + it[-1].n > e.p);
      MC_CHECK(!hit, "%s: an element of %zu bytes overlaps a leaf without being it", what, e.n);
    }
  }
  for (size_t i = 0; i < w.size(); i++) MC_CHECK(seen[i], "%s: a leaf of %zu bytes in the object's memory was not given (leaf %zu of %zu by address)", what, w[i].n, i, w.size());
}
inline void none_of(Log const& l, Regions const& r, char const* what) {
  for (auto& e : l.elems) for (auto& x : r) MC_CHECK(e.p + e.n <= x.p || x.p + x.n <= e.p, "%s: content of an object the dispatcher took over was given", what);
}
inline void same_order(std::vector<Elem> const& a, std::vector<Elem> const& b, bool addresses, char const* what) {
  MC_CHECK(a.size() == b.size(), "%s: %zu elements against %zu", what, a.size(), b.size());
  for (size_t i = 0; i < a.size(); i++) {
    MC_CHECK(a[i].n == b[i].n, "%s: element %zu has %zu bytes against %zu", what, i, a[i].n, b[i].n);
    if (addresses) MC_CHECK(a[i].p == b[i].p, "%s: element %zu is another object", what, i);
  }
}
// the elements that are leaves in the object's memory, in the order they were given
inline std::vector<Elem> only(std::vector<Elem> const& v, Want const& w) {
  std::vector<Elem> o;
  for (auto& e : v) { auto it = std::lower_bound(w.begin(), w.end(), e.p, [](Elem a, char const* p) { return a.p < p; }); if (it != w.end() && it->p == e.p) o.push_back(e); }
  return o;
}
inline void visited(Log const& l, Parts const& p, bool vectors_taken, char const* what) {
  std::vector<std::pair<void const*, std::type_info const*>> v;
  for (auto& x : l.visits) v.push_back({x.p, x.t});
  for (auto& x : p.all) {
    long n = 0;
    for (auto& y : v) n += y.first == x.p && *y.second == *x.t;
    if (vectors_taken && x.inside_vector) MC_CHECK(n == 0, "%s: the dispatcher was given an object inside a vector it took over", what);
    else MC_CHECK(n == 1, "%s: the dispatcher was given an object of type %s %ld times", what, x.t->name(), n);
  }
}

#ifdef SERIALIZATION_ERROR_CHECKING
constexpr bool ec = true;
#else
constexpr bool ec = false;
#endif
using checkpoint::dispatch::Traverse;
// the elements of a nested traversal: without the framing that a top-level one adds
inline std::vector<Elem> inner(std::vector<Elem> v) { if (ec) return v; MC_CHECK(v.size() >= 2, "framing is missing"); return std::vector<Elem>(v.begin() + 1, v.end() - 1); }

template <typename T, template <template <typename, typename> class> class R> void with_traverser(T& v, std::string const& d, std::string const& bytes, Want const& w, Parts const& ps, char const* kind) {
  auto msg = [&](char const* s) { static std::string m; m = std::string(kind) + ": " + s; return m.c_str(); };
  Log size, pack, none, unpack;
  Traverse::with<T, R<Basic>>(v, size, Mode::Sizing);
  same(v, d, msg("the object after a sizing traversal"));
  Traverse::with<T, R<Basic>>(v, pack, Mode::Packing);
  same(v, d, msg("the object after a packing traversal"));
  Traverse::with<T, R<Basic>>(v, none, Mode::None);
  same(v, d, msg("the object after a neutral traversal"));
  mc::transition(3);
  each_once(size, w, msg("sizing")); each_once(pack, w, msg("packing")); each_once(none, w, msg("neutral"));
  same_bytes(pack.bytes, bytes, msg("bytes given to a packing traverser against the serialized bytes"));
  same_order(pack.elems, size.elems, false, msg("packing against sizing"));
  same_order(only(pack.elems, w), only(size.elems, w), true, msg("packing against sizing"));
  same_order(only(pack.elems, w), only(none.elems, w), true, msg("packing against neutral"));
  if (!ec) same_order(inner(pack.elems), none.elems, false, msg("packing against neutral"));
  // unpacking takes the same elements in the same order, into a new object and in place
  for (int in_place = 0; in_place < 2; in_place++) {
    Log u; u.in = bytes;
    auto t = in_place ? target5<T>() : checkpoint::dispatch::Standard::allocateAndConstruct<T>();
    Traverse::with<T, R<Basic>>(*t, u, Mode::Unpacking);
    mc::transition();
    MC_CHECK(u.pos == bytes.size(), "%s: unpacking took %zu of %zu bytes", kind, u.pos, bytes.size());
    same_order(u.elems, pack.elems, false, msg("unpacking against packing"));
    same(*t, d, msg("the object after an unpacking traversal"));
  }
  // the other ways to apply a traverser
  Log a, b;
  R<Basic> ra(a, Mode::Packing), rb(b, Mode::Packing);
  MC_CHECK(&Traverse::with(v, ra) == &ra, "%s: with() returned another traverser", kind);
  MC_CHECK(&(rb | v) == &rb, "%s: operator| returned another traverser", kind);
  mc::transition(2);
  same_order(a.elems, inner(pack.elems), false, msg("an existing traverser against a new one"));
  same_order(only(a.elems, w), only(pack.elems, w), true, msg("an existing traverser against a new one"));
  same_order(only(b.elems, w), only(a.elems, w), true, msg("operator| against with()"));
  same_bytes(a.bytes, ec ? bytes : bytes.substr(4, bytes.size() - 12), msg("bytes of a nested traversal"));
  same_bytes(b.bytes, a.bytes, msg("bytes given through operator|"));
  // a user's dispatcher is given every object once, and what it does not change stays as it is
  for (Mode m : {Mode::None, Mode::Sizing, Mode::Packing}) {
    Log c, s;
    Traverse::with<T, R<Counting>>(v, c, m);
    mc::transition();
    each_once(c, w, msg("with a counting dispatcher"));
    visited(c, ps, false, msg("a counting dispatcher"));
    if (m == Mode::Packing) same_bytes(c.bytes, bytes, msg("bytes packed with a counting dispatcher"));
    Traverse::with<T, R<NoVectors>>(v, s, m);
    mc::transition();
    visited(s, ps, true, msg("a dispatcher that takes vectors over"));
    none_of(s, ps.in_vectors, msg("a dispatcher that takes vectors over"));
    Regions rest; leaves(rest, v);
    rest.erase(std::remove_if(rest.begin(), rest.end(), [&](Region const& x) {
      for (auto& y : ps.in_vectors) if (x.p >= y.p && x.p < y.p + y.n) return true; return false; }), rest.end());
    each_once(s, expand(rest), msg("outside the vectors a dispatcher took over"));
    same(v, d, msg("the object after a traversal with a dispatcher"));
  }
}
template <typename T> void traverse(T& v) {
  std::string d = dumped(v), bytes = encode_mem(v);
  mc::state(d);
  mc::note("value %s", show(d).c_str());
  Caps c0; caps(c0, v);
  Regions r; leaves(r, v);
  Want w = expand(r);
  Parts ps; parts(ps, v);
  mc::extra("leaves", w.size()); mc::extra("parts", ps.all.size());
  if (!w.empty() || !ps.all.empty()) mc::nontrivial();
  with_traverser<T, Rec>(v, d, bytes, w, ps, "bytes");
  with_traverser<T, Typed>(v, d, bytes, w, ps, "typed");
  Caps c1; caps(c1, v);
  MC_CHECK(c0 == c1, "traversing changed a capacity");
}
// an array: every element once, in the order of the array
template <typename T> void array() {
  T a[3] = {nth<T>(5), nth<T>(0), nth<T>(7)};
  std::string d; for (auto& e : a) dump(d, e);
  Regions r; for (auto& e : a) leaves(r, e);
  Want w = expand(r);
  std::vector<Elem> each; std::string bytes;
  for (auto& e : a) { Log l; Rec<Basic> t(l, Mode::Packing); Traverse::with(e, t); each.insert(each.end(), l.elems.begin(), l.elems.end()); bytes += l.bytes; }
  for (int how = 0; how < 2; how++) {
    Log l; Rec<Counting> t(l, Mode::Packing);
    if (how) checkpoint::dispatch::serializeArray(t, &a[0], 3); else Traverse::with(a[0], t, 3);
    mc::transition();
    each_once(l, w, "array");
    same_order(only(l.elems, w), only(each, w), true, "an array against its elements");
    if (!ec) { same_order(l.elems, each, false, "an array against its elements"); same_bytes(l.bytes, bytes, "bytes of an array"); }
    Parts ps; for (auto& e : a) parts(ps, e);
    visited(l, ps, false, "array");
    std::string d2; for (auto& e : a) dump(d2, e);
    same_dump(d2, d, "the array after a traversal");
    Log u; u.in = l.bytes; Rec<Basic> ru(u, Mode::Unpacking);
    T b[3] = {nth<T>(1), nth<T>(2), nth<T>(3)};
    checkpoint::dispatch::serializeArray(ru, &b[0], 3);
    std::string d3; for (auto& e : b) dump(d3, e);
    same_dump(d3, d, "the array after an unpacking traversal");
    MC_CHECK(u.pos == u.in.size(), "unpacking an array took %zu of %zu bytes", u.pos, u.in.size());
  }
  mc::nontrivial();
}
template <typename T> struct Register {
  static void run(std::string id, Bounds b, Bounds) {
    mc::add({"value/" + id, [b] { begin(); With w(tier(b).len, tier(b).leaf); T v = gen<T>(); traverse(v); }});
    mc::add({"array/" + id, [] { begin(); array<T>(); }});
    if constexpr (HasSized<T>::value) mc::add({"size/" + id, [] {
      begin(); size_t n = choose_size<T>(9, mc::thorough() ? 10 : 7);
      T v = Ty<T>::sized(n, 3); traverse(v);
    }});
  }
};
} // namespace check
