// C12: which strategy creates an object, on what memory, and how often it is serialized: every combination of offered
// strategies x copying x position. Compiled per tagged/reconstruct combination (-DTAGGED, -DRECON).
#define GROUP 99
#include "api.h"
using namespace api;
namespace rec {
inline std::string g_used;                                  // strategies used since the last reset
inline uint64_t g_served = 0;
template <int A> struct alignas(A) Body {
  char origin; int id = -1, served = 0; char room[40];
  explicit Body(char o, int i = -1) : origin(o), id(i) { at(); memset(room, 'r', sizeof room); if (o != 'u') g_used += o; }
  Body() : Body('d') {}
  Body(Body const& o) : origin(o.origin), id(o.id), served(o.served) { at(); memcpy(room, o.room, sizeof room); }
  Body& operator=(Body const& o) { origin = o.origin; id = o.id; served = o.served; return *this; }
  void at() const { if (reinterpret_cast<uintptr_t>(this) % A) mc::fail_later("an object of alignment %d was created at %p", A, static_cast<void const*>(this)); }
};
template <int C> struct Copying {};
template <> struct Copying<1> { Copying() = default; Copying(Copying const&) = delete; Copying(Copying&&) = default; Copying& operator=(Copying&&) = default; };
template <> struct Copying<2> { Copying() = default; Copying(Copying const&) = delete; Copying& operator=(Copying const&) = delete; };
template <int D> struct Defaulting { explicit Defaulting(int) {} };
template <> struct Defaulting<1> { Defaulting() = default; explicit Defaulting(int) {} };
using Tag = checkpoint::SERIALIZE_CONSTRUCT_TAG;
enum { COPYABLE, MOVABLE, FIXED };
template <int T, int R, int D, int C> struct E : Defaulting<D>, Copying<C> {
  static constexpr int A = (T + R + D + C) % 2 ? 64 : 8;
  static constexpr char want = T ? 't' : R == 1 ? 'm' : R == 2 ? 'f' : R == 3 ? 's' : 'd';
  Body<A> b;
  E() = default;
  explicit E(int id) : Defaulting<D>(0), b('u', id) {}
  E(char o, int) : Defaulting<D>(0), b(o) {}
  template <typename X, std::enable_if_t<T && std::is_same<std::decay_t<X>, Tag>::value, int> = 0> explicit E(X) : Defaulting<D>(0), b('t') {}
  template <int Q = R, std::enable_if_t<Q == 1, int> = 0> static E& reconstruct(void* m) { return *new (m) E('m', 0); }
  template <typename S> void serialize(S& s) { s | b.id; if (s.isUnpacking()) { b.served++; g_served++; } }
  bool operator<(E const& o) const { return b.id < o.b.id; }
  bool operator==(E const& o) const { return b.id == o.b.id; }
};
template <int T, int D, int C> void reconstruct(E<T, 2, D, C>*& p, void* m) { p = new (m) E<T, 2, D, C>('f', 0); }

// ---- polymorphic classes ---------------------------------------------------------------------------------------------
struct P : checkpoint::SerializableBase<P> { int base = 3; virtual ~P() = default; virtual char origin() const = 0; virtual int id() const = 0; virtual int served() const = 0; virtual char wanted() const = 0;
  template <typename S> void serialize(S& s) { s | base; } };
template <int T, int R, int D> struct VE : checkpoint::SerializableDerived<VE<T, R, D>, P>, Defaulting<D> {
  using Up = checkpoint::SerializableDerived<VE<T, R, D>, P>;
  static constexpr int A = (T + R + D) % 2 ? 64 : 8;
  Body<A> b;
  VE() = default;
  explicit VE(int id) : Defaulting<D>(0), b('u', id) { this->base = 100 + id; }
  VE(char o, int) : Defaulting<D>(0), b(o) {}
  template <typename X, std::enable_if_t<T && std::is_same<std::decay_t<X>, Tag>::value, int> = 0> explicit VE(X) : Defaulting<D>(0), b('t') {}
  template <int Q = R, std::enable_if_t<Q == 1, int> = 0> static VE& reconstruct(void* m) { return *new (m) VE('m', 0); }
  template <typename S> void serialize(S& s) { s | b.id; if (s.isUnpacking()) { b.served++; g_served++; } }
  char origin() const override { return b.origin; } int id() const override { return b.id; } int served() const override { return b.served; }
  char wanted() const override { return E<T, R, D, 0>::want; }
};
template <int T, int D> void reconstruct(VE<T, 2, D>*& p, void* m) { p = new (m) VE<T, 2, D>('f', 0); }
// A derived class of a class with its own reconstruct: that one makes the wrong class, so it is not a strategy here.
template <int T, int R> struct VC : checkpoint::SerializableDerived<VC<T, R>, VE<T, R, 1>> {
  Body<16> own; VC() = default; explicit VC(int id) : own('u', id) { this->b.origin = 'u'; this->base = 100 + id; }
  template <typename S> void serialize(S& s) { s | own.id; if (s.isUnpacking()) own.served++; }
  char origin() const override { return own.origin; } int id() const override { return own.id; } int served() const override { return own.served; }
  char wanted() const override { return 'd'; }
};
// The macros.
struct Q { int base = 3; virtual ~Q() = default; virtual char origin() const { return '?'; } virtual int id() const { return -1; } virtual int served() const { return -1; } virtual char wanted() const { return '?'; }
  explicit Q(int) {} Q() = delete; checkpoint_virtual_serialize_root() template <typename S> void serialize(S& s) { s | base; } };
template <int T, int R, int D> struct VM : Q {
  checkpoint_virtual_serialize_derived_from(Q)
  static constexpr int A = (T + R + D) % 2 ? 64 : 8;
  Body<A> b;
  template <int X = D, std::enable_if_t<X == 1, int> = 0> VM() : Q(1), b('d') {}
  explicit VM(int id) : Q(1), b('u', id) { base = 100 + id; }
  VM(char o, int) : Q(1), b(o) {}
  template <typename X, std::enable_if_t<T && std::is_same<std::decay_t<X>, Tag>::value, int> = 0> explicit VM(X) : Q(1), b('t') {}
  template <int X = R, std::enable_if_t<X == 1, int> = 0> static VM& reconstruct(void* m) { return *new (m) VM('m', 0); }
  template <typename S> void serialize(S& s) { s | b.id; if (s.isUnpacking()) { b.served++; g_served++; } }
  char origin() const override { return b.origin; } int id() const override { return b.id; } int served() const override { return b.served; }
  char wanted() const override { return E<T, R, D, 0>::want; }
};
template <int T, int D> void reconstruct(VM<T, 2, D>*& p, void* m) { p = new (m) VM<T, 2, D>('f', 0); }
template <typename X> struct Raw {                    // the documented way to own a raw pointer
  X* p = nullptr; int z = 5;
  Raw() = default; Raw(Raw const&) = delete; ~Raw() { delete p; }
  template <typename S> void serialize(S& s) { checkpoint::reconstructPointedToObjectIfNeeded(s, p); s | *p; s | z; }
};
}
namespace checkpoint {
template <int T, int D, int C> struct CheckpointReconstructor<rec::E<T, 3, D, C>> { static void reconstruct(rec::E<T, 3, D, C>*& p, void* m) { p = new (m) rec::E<T, 3, D, C>('s', 0); } };
template <int T, int D> struct CheckpointReconstructor<rec::VE<T, 3, D>> { static void reconstruct(rec::VE<T, 3, D>*& p, void* m) { p = new (m) rec::VE<T, 3, D>('s', 0); } };
template <int T, int D> struct CheckpointReconstructor<rec::VM<T, 3, D>> { static void reconstruct(rec::VM<T, 3, D>*& p, void* m) { p = new (m) rec::VM<T, 3, D>('s', 0); } };
}
template <int T, int R, int D, int C> struct std::hash<rec::E<T, R, D, C>> { size_t operator()(rec::E<T, R, D, C> const& e) const { return size_t(e.b.id) % 3; } };
namespace {
using namespace rec;
// ---- values: how to build them and how to find the objects in them ------------------------------------------------------
int g_id = 0;
size_t g_found = 0;
std::string g_ids;
template <typename T> struct Val;
template <typename T> void look(T const& t) { Val<T>::look(t); }
void found(int id, char origin, char want, int served, bool decoded) {
  g_found++; g_ids += std::to_string(id) + ",";
  if (!decoded) return;
  MC_CHECK(origin == want, "object %d was created with strategy '%c' instead of '%c'", id, origin, want);
  MC_CHECK(served == 1, "serialize was applied %d times to object %d", served, id);
}
bool g_decoded = false;
template <> struct Val<int> { static int make(int) { return g_id++; } static void look(int v) { g_ids += "i" + std::to_string(v); } };
template <> struct Val<std::string> { static std::string make(int) { return "s" + std::to_string(g_id++); } static void look(std::string const& s) { g_ids += s; } };
template <int T, int R, int D, int C> struct Val<E<T, R, D, C>> { using X = E<T, R, D, C>;
  static X make(int) { return X(g_id++); }
  static void look(X const& x) { found(x.b.id, x.b.origin, X::want, x.b.served, g_decoded); } };
template <typename X> struct Seq { static X make(int n) { X c; for (int i = 0; i < n; i++) c.push_back(Val<typename X::value_type>::make(n)); return c; } static void look(X const& c) { g_ids += "["; for (auto& e : c) ::look(e); g_ids += "]"; } };
template <typename X> struct Val<std::vector<X>> : Seq<std::vector<X>> {};
template <typename X> struct Val<std::list<X>> : Seq<std::list<X>> {};
template <typename X> struct Val<std::deque<X>> : Seq<std::deque<X>> {};
template <typename X> struct Expose : std::queue<X> { std::deque<X> const& in() const { return this->c; } };
template <typename X> struct Val<std::queue<X>> { static std::queue<X> make(int n) { std::queue<X> q; for (int i = 0; i < n; i++) q.push(Val<X>::make(n)); return q; } static void look(std::queue<X> const& q) { Val<std::deque<X>>::look(static_cast<Expose<X> const&>(q).in()); } };
template <typename X, typename K> struct Assoc { static X make(int n) { X c; for (int i = 0; i < n; i++) c.emplace(Val<K>::make(n)); return c; } static void look(X const& c) { std::map<std::string, int> s; g_ids += "{"; for (auto& e : c) { std::string keep = std::move(g_ids); g_ids.clear(); ::look(e); s[g_ids]++; g_ids = keep; } for (auto& e : s) g_ids += e.first + "x" + std::to_string(e.second) + " "; g_ids += "}"; } };
template <typename X> struct Val<std::set<X>> : Assoc<std::set<X>, X> {};
template <typename X> struct Val<std::multiset<X>> : Assoc<std::multiset<X>, X> {};
template <typename X> struct Val<std::unordered_set<X>> : Assoc<std::unordered_set<X>, X> {};
template <typename K, typename X> struct Val<std::map<K, X>> : Assoc<std::map<K, X>, std::pair<K, X>> {};
template <typename K, typename X> struct Val<std::multimap<K, X>> : Assoc<std::multimap<K, X>, std::pair<K, X>> {};
template <typename K, typename X> struct Val<std::unordered_map<K, X>> : Assoc<std::unordered_map<K, X>, std::pair<K, X>> {};
template <typename K, typename X> struct Val<std::unordered_multimap<K, X>> : Assoc<std::unordered_multimap<K, X>, std::pair<K, X>> {};
template <typename A, typename B> struct Val<std::pair<A, B>> { using X = std::pair<std::remove_const_t<A>, B>; static X make(int n) { return X(Val<std::remove_const_t<A>>::make(n), Val<B>::make(n)); } static void look(std::pair<A, B> const& p) { ::look<std::remove_const_t<A>>(p.first); ::look(p.second); } };
template <typename... A> struct Val<std::tuple<A...>> { static std::tuple<A...> make(int n) { return std::tuple<A...>(Val<A>::make(n)...); } static void look(std::tuple<A...> const& t) { std::apply([](auto const&... a) { (::look(a), ...); }, t); } };
template <typename A> struct Val<std::optional<A>> { static std::optional<A> make(int n) { std::optional<A> o; if (n) o.emplace(Val<A>::make(n)); return o; } static void look(std::optional<A> const& o) { g_ids += o ? "+" : "-"; if (o) ::look(*o); } };
template <typename A> struct Val<std::unique_ptr<A>> { static std::unique_ptr<A> make(int n) { return n ? std::unique_ptr<A>(new A(Val<A>::make(n))) : nullptr; } static void look(std::unique_ptr<A> const& o) { g_ids += o ? "+" : "-"; if (o) ::look(*o); } };
template <typename A, typename B> struct Val<std::variant<A, B>> { using V = std::variant<A, B>;
  static V make(int n) { if (n % 2) return V(std::in_place_index<0>, Val<A>::make(n)); return V(std::in_place_index<1>, Val<B>::make(n)); }
  static void look(V const& v) { g_ids += "v" + std::to_string(v.index()); if (v.index() == 0) ::look(std::get<0>(v)); else ::look(std::get<1>(v)); } };
template <typename B> std::string cls(B const& p) { return typeid(p).name(); }
template <typename A> struct PVal { static void look(A const& p) { g_ids += cls(p) + std::to_string(p.base); found(p.id(), p.origin(), p.wanted(), p.served(), g_decoded); } };

template <int T, int R, int D> struct Val<VE<T, R, D>> : PVal<VE<T, R, D>> {};
template <int T, int R> struct Val<VC<T, R>> : PVal<VC<T, R>> {};
template <int T, int R, int D> struct Val<VM<T, R, D>> : PVal<VM<T, R, D>> {};
template <> struct Val<P> : PVal<P> {};
template <> struct Val<Q> : PVal<Q> {};
template <typename X> struct Val<Raw<X>> { static void look(Raw<X> const& r) { ::look(*r.p); g_ids += std::to_string(r.z); } };
void used_only(char want) { for (char c : g_used) MC_CHECK(c == want, "strategy '%c' was used where '%c' comes first (used: %s)", c, want, g_used.c_str()); }
// want: the only strategy that may be used while decoding; 0: others may be used for objects that do not stay.
template <typename T> void check(T& t, char want, bool all) {
  g_found = 0; g_ids.clear(); g_decoded = false; look(t);
  size_t n = g_found; std::string ids = g_ids;
  mc::note("%s", ids.c_str()); mc::state(ids + want); mc::nontrivial();
  std::string bytes = encode_mem(t);
  Block b(bytes);
  auto see = [&](T const& r, char const* what) {
    mc::transition();
    std::string used = g_used;
    if (want) used_only(want);
    MC_CHECK(g_served == n, "%s: serialize was applied %llu times to %zu objects", what, (unsigned long long)g_served, n);
    g_found = 0; g_ids.clear(); g_decoded = true; look(r); g_decoded = false;
    MC_CHECK(g_ids == ids, "%s: decoded %s instead of %s", what, g_ids.c_str(), ids.c_str());
  };
  auto start = [&] { g_used.clear(); g_served = 0; };
  start(); { auto r = checkpoint::deserialize<T>(b.p); see(*r, "memory"); }
  start(); { Obj<T> o; void* m = nullptr; if (posix_memalign(&m, alignof(T) < 8 ? 8 : alignof(T), sizeof(T)) != 0) abort(); memset(m, 0xb5, sizeof(T)); o.buf = static_cast<char*>(m); o.p = checkpoint::deserialize<T>(b.p, o.buf);
    MC_CHECK(static_cast<void*>(o.p) == m, "the object is not in the caller's memory"); see(*o, "object buffer"); }
  if (all) {
    start(); { auto r = checkpoint::deserialize<T>(checkpoint::SerializedReturnType(new Info(bytes))); see(*r, "returned info"); }
  }
}
template <typename T> void check_transports(T& t, char want) {
  std::string bytes = encode_mem(t);
  g_ids.clear(); g_decoded = false; look(t); std::string ids = g_ids;
  auto see = [&](T const& r) { mc::transition(); if (want) used_only(want); g_ids.clear(); g_decoded = true; look(r); g_decoded = false; MC_CHECK(g_ids == ids, "decoded %s instead of %s", g_ids.c_str(), ids.c_str()); };
  g_used.clear(); spit(path("p"), bytes); { auto r = checkpoint::deserializeFromFile<T>(path("p")); see(*r); }
  g_used.clear(); { std::istringstream i(bytes); std::istream& is = i; auto r = checkpoint::deserializeFromStream<T>(is); see(*r); }
}
template <typename T> void at(std::string const& name, char want, int kinds) {
  mc::add({name, [=] { g_id = 1; T t = Val<T>::make(mc::choose(kinds)); check(t, want, false); }});
}
template <int T, int R, int D, int C> void add_types() {
  if constexpr (T || R || D) {
    using X = E<T, R, D, C>;
    std::string n = "t" + std::to_string(T) + "r" + std::to_string(R) + "d" + std::to_string(D) + "c" + std::to_string(C) + "/";
    constexpr char w = X::want;
    constexpr bool nested = THOROUGH || (C == COPYABLE && (T + R < 2 || D == 0));   // what the quick check compiles
    mc::add({n + "object", [=] { X x(mc::choose(2)); check(x, w, true); check_transports(x, w); }});
    mc::add({n + "unique_ptr", [=] { int k = mc::choose(2); std::unique_ptr<X> p(k ? new X(k) : nullptr); check(p, w, true); check_transports(p, w); }});
    mc::add({n + "tuple", [=] { using U = std::tuple<int, X, std::string>; U t(1, mc::choose(2), "x"); check(t, w, true); }});
    mc::add({n + "pair", [=] { using U = std::pair<X, X>; U t(mc::choose(2), 7); check(t, w, true); }});
    mc::add({n + "tuple of pair", [=] { using U = std::tuple<std::pair<int, X>>; std::unique_ptr<U> t; if constexpr (C != FIXED) t.reset(new U(std::pair<int, X>(1, mc::choose(2)))); if (t) check(*t, w, true); }});
    if constexpr (C != FIXED) {
      at<std::vector<X>>(n + "vector", w, 5); at<std::list<X>>(n + "list", w, 4); at<std::deque<X>>(n + "deque", w, 4);
      if constexpr (C == COPYABLE) at<std::queue<X>>(n + "queue", w, 4);
      at<std::map<int, X>>(n + "map", w, 3); at<std::unordered_map<int, X>>(n + "unordered_map", w, 3); 
      at<std::optional<X>>(n + "optional", w, 2); at<std::variant<int, X>>(n + "variant", w, 2);
      if constexpr (nested) at<std::vector<std::optional<X>>>(n + "vector of optional", w, 3);
      if constexpr (nested) { at<std::tuple<std::vector<X>, X>>(n + "tuple of vector", w, 3); at<std::unique_ptr<std::vector<X>>>(n + "unique_ptr of vector", w, 3); }
      at<std::optional<std::pair<X, int>>>(n + "optional of pair", w, 2);
      if constexpr (D == 1) at<std::variant<X, int>>(n + "variant first", 0, 2);
      // set elements and map keys are moved out of a temporary or copied into the container
      at<std::set<X>>(n + "set", w, 3); at<std::unordered_set<X>>(n + "unordered_set", w, 3);
      at<std::vector<std::unique_ptr<X>>>(n + "vector of unique_ptr", w, 3);
      if constexpr (C == COPYABLE && nested) {
        at<std::map<X, X>>(n + "map of both", w, 3); at<std::multimap<X, int>>(n + "multimap", w, 3); at<std::multiset<X>>(n + "multiset", w, 3); at<std::unordered_multimap<X, int>>(n + "unordered_multimap", w, 3);
        at<std::vector<std::pair<X, X>>>(n + "vector of pair", w, 3); at<std::list<std::tuple<X, int>>>(n + "list of tuple", w, 3); at<std::vector<std::vector<X>>>(n + "vector of vector", w, 3);
        at<std::map<int, std::vector<X>>>(n + "map of vector", w, 3); at<std::variant<int, std::vector<X>>>(n + "variant of vector", w, 4); at<std::deque<std::map<int, X>>>(n + "deque of map", w, 3);
      }
    }
  }
}
template <typename B, typename X> void add_virtual(std::string const& n, char w) {
  mc::add({n + "/base pointer", [=] { std::unique_ptr<B> p(mc::flip() ? new X(5) : nullptr); check(p, w, true); check_transports(p, w); }});
  mc::add({n + "/own pointer", [=] { std::unique_ptr<X> p(new X(5)); check(p, w, true); check_transports(p, w); }});
  mc::add({n + "/vector of pointers", [=] { std::vector<std::unique_ptr<B>> v; int k = mc::choose(4); for (int i = 0; i < k; i++) v.emplace_back(new X(i)); check(v, w, false); }});
  mc::add({n + "/map of pointers", [=] { std::map<int, std::unique_ptr<B>> v; int k = mc::choose(3); for (int i = 0; i < k; i++) v.emplace(i, new X(i)); check(v, w, false); }});
  mc::add({n + "/raw pointer", [=] { Raw<B> r; r.p = new X(4); r.z = 6; check(r, w, true); }});
  mc::add({n + "/object", [=] { X x(4); check(x, w, true); check_transports(x, w); }});
}
int all = [] {
  add_types<TAGGED, RECON, 0, 0>(); add_types<TAGGED, RECON, 0, 1>(); add_types<TAGGED, RECON, 0, 2>();
  add_types<TAGGED, RECON, 1, 0>(); add_types<TAGGED, RECON, 1, 1>(); add_types<TAGGED, RECON, 1, 2>();
  std::string n = "virtual/t" + std::to_string(TAGGED) + "r" + std::to_string(RECON);
  if constexpr (TAGGED || RECON) { using X = VE<TAGGED, RECON, 0>; add_virtual<P, X>(n + "d0", E<TAGGED, RECON, 0, 0>::want); using Y = VM<TAGGED, RECON, 0>; add_virtual<Q, Y>(n + "d0 macros", E<TAGGED, RECON, 0, 0>::want); }
  { using X = VE<TAGGED, RECON, 1>; add_virtual<P, X>(n + "d1", E<TAGGED, RECON, 1, 0>::want); using Y = VM<TAGGED, RECON, 1>; add_virtual<Q, Y>(n + "d1 macros", E<TAGGED, RECON, 1, 0>::want); }
  if constexpr (RECON == 1) { using X = VC<TAGGED, RECON>; add_virtual<P, X>(n + " derived", 'd'); }
  return 0;
}();
}
