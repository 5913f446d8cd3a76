// C14, types that only the footprint supports (shared and raw pointers, std::function, threads, atomics, stacks and
// priority queues, classes without serialize), alone and inside every holder, two holders deep.
#include "api.h"
#include <atomic>
#include <functional>
#include <stack>
#include <thread>
namespace {
using std::string;

// Owns what raw pointers of one execution point to.
struct Arena { std::vector<std::function<void()>> kill; ~Arena() { for (size_t i = kill.size(); i--;) kill[i](); } template <typename T> T* make() { T* p = new T(); kill.push_back([p] { delete p; }); return p; } };
Arena* arena;

// The first part of anything takes every value, the next ones only two or one of them (each was a first part elsewhere).
int reduced;
struct Less { Less(bool on = true) : on_(on) { reduced += on_; } ~Less() { reduced -= on_; } int on_; };
int pick(int n) { return reduced == 0 ? mc::choose(n) : reduced == 1 ? mc::choose(2) * (n - 1) : n - 1; }

// fill: chooses a value of a default-constructed object; rule: what the counting rules give; look: its observable value
template <typename T, typename = void> struct X;
template <typename T> void fill(T& v) { X<std::remove_const_t<T>>::fill(const_cast<std::remove_const_t<T>&>(v)); }
template <typename T> size_t rule(T const& v) { return X<T>::rule(v); }
template <typename T> void look(string& o, T const& v) { X<T>::look(o, v); }
inline void num(string& o, uint64_t v) { o += std::to_string(v) + ' '; }

template <typename T> struct X<T, std::enable_if_t<std::is_arithmetic<T>::value>> {
  static void fill(T& v) { v = T(pick(2) * 77 + 1); }
  static size_t rule(T const&) { return sizeof(T); }
  static void look(string& o, T const& v) { num(o, uint64_t(v)); }
};
template <> struct X<string> {
  static void fill(string& s) { switch (pick(4)) { case 0: break; case 1: s = "abc"; break; case 2: s.assign(40, 'x'); break; case 3: s.reserve(100); s = "q"; break; } }
  static size_t rule(string const& s) { return sizeof s + s.capacity(); }
  static void look(string& o, string const& s) { num(o, s.capacity()); o += s; }
};
// no serialize function at all: only its own size counts, whatever it owns
struct Opaque { std::vector<int> v; int* p = nullptr; char c = 0; };
template <> struct X<Opaque> {
  static void fill(Opaque& o) { if ((pick(2) == 1)) o.v.assign(10, 4); }
  static size_t rule(Opaque const& o) { return sizeof o; }
  static void look(string& s, Opaque const& o) { num(s, o.v.size()); }
};
template <> struct X<void*> {
  static void fill(void*& p) { p = (pick(2) == 1) ? arena->make<int>() : nullptr; }
  static size_t rule(void* const& p) { return sizeof p; }
  static void look(string& o, void* const& p) { num(o, uintptr_t(p)); }
};
template <> struct X<FILE*> {
  static void fill(FILE*& p) { p = (pick(2) == 1) ? stderr : nullptr; }
  static size_t rule(FILE* const& p) { return sizeof p; }
  static void look(string& o, FILE* const& p) { num(o, uintptr_t(p)); }
};
template <typename T> struct X<T*, std::enable_if_t<!std::is_void<T>::value && !std::is_same<T, FILE>::value>> {
  static void fill(T*& p) { p = nullptr; if ((pick(2) == 1)) { auto q = arena->make<std::remove_const_t<T>>(); ::fill(*q); p = q; } }
  static size_t rule(T* const& p) { return sizeof p + (p ? ::rule(*const_cast<std::remove_const_t<T>*>(p)) : 0); }
  static void look(string& o, T* const& p) { num(o, uintptr_t(p)); if (p) ::look(o, *const_cast<std::remove_const_t<T>*>(p)); }
};
template <typename T> struct X<std::shared_ptr<T>> {
  static void fill(std::shared_ptr<T>& p) { static std::shared_ptr<T>* kept; int k = pick(3); if (!k) return; auto q = std::make_shared<std::remove_const_t<T>>(); ::fill(*q); p = q; if (k == 2) { kept = new std::shared_ptr<T>(p); auto old = kept; arena->kill.push_back([old] { delete old; }); } }
  static size_t rule(std::shared_ptr<T> const& p) { return sizeof p + (p ? ::rule(const_cast<std::remove_const_t<T> const&>(*p)) : 0); }
  static void look(string& o, std::shared_ptr<T> const& p) { num(o, uintptr_t(p.get())); num(o, p.use_count()); if (p) ::look(o, const_cast<std::remove_const_t<T> const&>(*p)); }
};
template <typename T, typename D> struct X<std::unique_ptr<T, D>> {
  static void fill(std::unique_ptr<T, D>& p) { if ((pick(2) == 1)) { p.reset(new T()); ::fill(*p); } }
  static size_t rule(std::unique_ptr<T, D> const& p) { return sizeof p + (p ? ::rule(*p) : 0); }
  static void look(string& o, std::unique_ptr<T, D> const& p) { num(o, uintptr_t(p.get())); if (p) ::look(o, *p); }
};
template <typename R, typename... A> struct X<std::function<R(A...)>> {
  static void fill(std::function<R(A...)>& f) { int k = pick(3); if (k == 1) f = [](A...) { return R(); }; if (k == 2) { std::vector<int> big(50); f = [big](A...) { return R(big.size()); }; } }
  static size_t rule(std::function<R(A...)> const& f) { return sizeof f; }
  static void look(string& o, std::function<R(A...)> const& f) { num(o, f ? 1 : 0); }
};
template <> struct X<std::thread> {
  static void fill(std::thread&) {}
  static size_t rule(std::thread const& t) { return sizeof t; }
  static void look(string& o, std::thread const& t) { num(o, t.joinable()); }
};
template <typename T> struct X<std::atomic<T>> {
  static void fill(std::atomic<T>& a) { a.store(T(pick(2))); }
  static size_t rule(std::atomic<T> const& a) { return sizeof a; }
  static void look(string& o, std::atomic<T> const& a) { num(o, uint64_t(a.load())); }
};
template <typename Q> struct QueueX {
  using E = typename Q::value_type;
  static void fill(Q& q) { static int const c[] = {0, 1, 3, 100}; for (int n = c[pick(4)]; n--;) { E e{}; q.push(e); } }
  static size_t rule(Q const& q) { return sizeof q + sizeof(E) * q.size(); }
  static void look(string& o, Q const& q) { num(o, q.size()); }
};
template <typename T> struct X<std::queue<T>> : QueueX<std::queue<T>> {};
template <typename T> struct X<std::stack<T>> : QueueX<std::stack<T>> {};
template <typename T> struct X<std::priority_queue<T>> : QueueX<std::priority_queue<T>> {};

// user classes
struct Added { double d = 1; size_t n = 0; template <typename S> void serialize(S& s) { s | d; s.addBytes(n); if (s.isFootprinting()) s.addBytes(5); } };
template <> struct X<Added> {
  static void fill(Added& a) { static size_t const c[] = {0, 1, size_t(1) << 33}; a.n = c[pick(3)]; }
  static size_t rule(Added const& a) { return sizeof a.d + a.n + 5; }
  static void look(string& o, Added const& a) { num(o, a.n); }
};
struct Root { checkpoint_virtual_serialize_root()
  int a = 0; virtual ~Root() = default; template <typename S> void serialize(S& s) { s | a; } };
struct Mid : Root { checkpoint_virtual_serialize_derived_from(Root)
  Mid() = default; explicit Mid(checkpoint::SERIALIZE_CONSTRUCT_TAG) {}
  std::shared_ptr<string> sp; template <typename S, typename = std::enable_if_t<checkpoint::is_footprinter_v<S>>> void serialize(S& s) { s | sp; } };
struct Leaf : Mid { checkpoint_virtual_serialize_derived_from(Mid)
  Leaf() = default; explicit Leaf(checkpoint::SERIALIZE_CONSTRUCT_TAG) {}
  int* raw = nullptr; std::function<int(int)> f; template <typename S, typename = std::enable_if_t<checkpoint::is_footprinter_v<S>>> void serialize(S& s) { s | raw; s | f; s.addBytes(3); } };
size_t poly_rule(Root const& r) {
  size_t n = sizeof r.a;
  if (auto m = dynamic_cast<Mid const*>(&r)) n += rule(m->sp);
  if (auto l = dynamic_cast<Leaf const*>(&r)) n += rule(l->raw) + sizeof l->f + 3;
  return n;
}
Root* poly() {
  int k = pick(3);
  if (k == 0) return new Root();
  if (k == 1) { auto m = new Mid(); fill(m->sp); return m; }
  auto l = new Leaf(); fill(l->sp); fill(l->raw); return l;
}
struct PolyLook { static void look(string& o, Root const& r) { o += typeid(r).name(); if (auto m = dynamic_cast<Mid const*>(&r)) ::look(o, m->sp); if (auto l = dynamic_cast<Leaf const*>(&r)) ::look(o, l->raw); } };
template <> struct X<std::unique_ptr<Root>> {
  static void fill(std::unique_ptr<Root>& p) { if ((pick(2) == 1)) p.reset(poly()); }
  static size_t rule(std::unique_ptr<Root> const& p) { return sizeof p + (p ? poly_rule(*p) : 0); }
  static void look(string& o, std::unique_ptr<Root> const& p) { num(o, uintptr_t(p.get())); if (p) PolyLook::look(o, *p); }
};
template <> struct X<std::shared_ptr<Root>> {
  static void fill(std::shared_ptr<Root>& p) { if ((pick(2) == 1)) p.reset(poly()); }
  static size_t rule(std::shared_ptr<Root> const& p) { return sizeof p + (p ? poly_rule(*p) : 0); }
  static void look(string& o, std::shared_ptr<Root> const& p) { num(o, uintptr_t(p.get())); if (p) PolyLook::look(o, *p); }
};
template <> struct X<Root*> {
  static void fill(Root*& p) { p = nullptr; if ((pick(2) == 1)) { p = poly(); auto q = p; arena->kill.push_back([q] { delete q; }); } }
  static size_t rule(Root* const& p) { return sizeof p + (p ? poly_rule(*p) : 0); }
  static void look(string& o, Root* const& p) { num(o, uintptr_t(p)); if (p) PolyLook::look(o, *p); }
};

// holders
template <typename T> struct X<std::vector<T>> {
  using V = std::vector<T>;
  static void fill(V& v) {
    int n = pick(3);
    if constexpr (std::is_move_constructible<T>::value) { if ((pick(2) == 1)) v.reserve(size_t(n) + 3); for (int i = 0; i < n; i++) { Less l(i > 0); v.emplace_back(); ::fill(v.back()); } }
    else { V w(static_cast<size_t>(n)); v.swap(w); for (auto& e : v) { Less l(&e != &v[0]); ::fill(e); } }
  }
  static size_t rule(V const& v) { size_t s = sizeof v + sizeof(T) * (v.capacity() - v.size()); for (auto& e : v) s += ::rule(e); return s; }
  static void look(string& o, V const& v) { num(o, v.capacity()); num(o, uintptr_t(v.data())); for (auto& e : v) ::look(o, e); }
};
template <typename L> struct ListX {
  static void fill(L& v) { int n = pick(3); for (int i = 0; i < n; i++) { Less l(i > 0); v.emplace_back(); ::fill(v.back()); } }
  static size_t rule(L const& v) { size_t s = sizeof v; for (auto& e : v) s += ::rule(e); return s; }
  static void look(string& o, L const& v) { num(o, v.size()); for (auto& e : v) ::look(o, e); }
};
template <typename T> struct X<std::list<T>> : ListX<std::list<T>> {};
template <typename T> struct X<std::deque<T>> : ListX<std::deque<T>> {};
template <typename M> struct MapX {
  static void fill(M& m) { int n = pick(3); for (int i = 0; i < n; i++) { Less l(i > 0); ::fill(m[i]); } }
  static size_t rule(M const& m) { size_t s = sizeof m; for (auto& e : m) s += sizeof e + sizeof e.first + ::rule(e.second); return s; }
  static void look(string& o, M const& m) { num(o, m.size()); for (auto& e : m) { num(o, uint64_t(e.first)); ::look(o, e.second); } }
};
template <typename T> struct X<std::map<int, T>> : MapX<std::map<int, T>> {};
template <typename T> struct X<std::unordered_map<int, T>> : MapX<std::unordered_map<int, T>> {};
template <typename T> struct X<std::optional<T>> {
  static void fill(std::optional<T>& v) { if ((pick(2) == 1)) { v.emplace(); ::fill(*v); } }
  static size_t rule(std::optional<T> const& v) { return sizeof v + (v ? sizeof(T) : 0); }
  static void look(string& o, std::optional<T> const& v) { num(o, bool(v)); if (v) ::look(o, *v); }
};
template <typename A, typename B> struct X<std::pair<A, B>> {
  static void fill(std::pair<A, B>& v) { ::fill(v.second); Less l; ::fill(v.first); }
  static size_t rule(std::pair<A, B> const& v) { return sizeof v + ::rule(v.first) + ::rule(v.second); }
  static void look(string& o, std::pair<A, B> const& v) { ::look(o, v.first); ::look(o, v.second); }
};
template <typename... A> struct X<std::tuple<A...>> {
  static void fill(std::tuple<A...>& v) { std::apply([](auto&... e) { (::fill(e), ...); }, v); }
  static size_t rule(std::tuple<A...> const& v) { return std::apply([](auto const&... e) { return (size_t(0) + ... + ::rule(e)); }, v); }
  static void look(string& o, std::tuple<A...> const& v) { std::apply([&](auto const&... e) { (::look(o, e), ...); }, v); }
};
template <typename T, size_t N> struct X<std::array<T, N>> {
  static void fill(std::array<T, N>& v) { for (auto& e : v) { Less l(&e != &v[0]); ::fill(e); } }
  static size_t rule(std::array<T, N> const& v) { size_t s = 0; for (auto& e : v) s += ::rule(e); return s; }
  static void look(string& o, std::array<T, N> const& v) { for (auto& e : v) ::look(o, e); }
};
template <typename T> struct Member { T a{}; char c = 0; T b{}; template <typename S> void serialize(S& s) { s | a; s | c | b; } };
template <typename T> struct X<Member<T>> {
  static void fill(Member<T>& v) { ::fill(v.a); Less l; ::fill(v.b); }
  static size_t rule(Member<T> const& v) { return ::rule(v.a) + 1 + ::rule(v.b); }
  static void look(string& o, Member<T> const& v) { ::look(o, v.a); ::look(o, v.b); }
};
template <typename T> struct Plain { T a[2]{}; template <typename S> void serialize(S& s) { checkpoint::dispatch::serializeArray(s, a, 2); } };
template <typename T> struct X<Plain<T>> {
  static void fill(Plain<T>& v) { ::fill(v.a[0]); Less l; ::fill(v.a[1]); }
  static size_t rule(Plain<T> const& v) { return ::rule(v.a[0]) + ::rule(v.a[1]); }
  static void look(string& o, Plain<T> const& v) { ::look(o, v.a[0]); ::look(o, v.a[1]); }
};

template <typename T> void check() {
  Arena a; arena = &a; reduced = 0;
  T v{}; fill(v);
  string before; look(before, v);
  size_t sum = rule(v), want = std::max(sum, sizeof(T));
  mc::state(std::to_string(want)); mc::nontrivial();
  for (size_t off : {size_t(0), size_t(1), size_t(1) << 40}) {
    size_t got = off ? checkpoint::getMemoryFootprint(v, off) : checkpoint::getMemoryFootprint(v);
    mc::transition();
    MC_CHECK(got == off + want, "footprint with offset %zu is %zu, the rules give %zu", off, got, off + want);
  }
  string after; look(after, v);
  MC_CHECK(before == after, "footprinting changed the object");
}
template <typename T> void add(string const& name) { mc::add({"extra/" + name, [] { check<T>(); }}); }

template <typename A, bool Movable = std::is_move_constructible<A>::value> struct Around {
  static void all(string const& n, bool deep) {
    add<A>(n);
    add<std::vector<A>>("vector-" + n); add<std::list<A>>("list-" + n); add<std::deque<A>>("deque-" + n);
    add<std::map<int, A>>("map-" + n); add<std::unordered_map<int, A>>("umap-" + n);
    if constexpr (Movable && !std::is_same<A, std::thread>::value) add<std::optional<A>>("optional-" + n);
    add<std::unique_ptr<A>>("unique-" + n); add<std::shared_ptr<A>>("shared-" + n); add<A*>("raw-" + n);
    add<std::pair<int, A>>("pair-" + n); add<std::tuple<A, char>>("tuple-" + n); add<std::array<A, 2>>("array-" + n);
    add<Member<A>>("member-" + n); add<Plain<A>>("plain-" + n);
    (void)deep;
  }
};
// two holders deep
template <typename A> struct Around2 {
  template <template <typename> class H> static void one(string const& h, string const& n) {
    add<std::vector<H<A>>>("vector-" + h + n); add<std::map<int, H<A>>>("map-" + h + n); add<std::optional<H<A>>>("optional-" + h + n);
    add<std::shared_ptr<H<A>>>("shared-" + h + n); add<H<A>*>("raw-" + h + n); add<Member<H<A>>>("member-" + h + n);
  }
  template <typename T> using Vec = std::vector<T>;
  template <typename T> using Map = std::map<int, T>;
  template <typename T> using Opt = std::optional<T>;
  template <typename T> using Sh = std::shared_ptr<T>;
  template <typename T> using Raw = T*;
  template <typename T> using Mem = Member<T>;
  static void all(string const& n) { one<Vec>("vector-", n); one<Map>("map-", n); one<Opt>("optional-", n); one<Sh>("shared-", n); one<Raw>("raw-", n); one<Mem>("member-", n); }
};
#define ATOM(name, ...) static bool MC_CAT(reg_, __COUNTER__) = (Around<__VA_ARGS__>::all(name, false), true)
#define ATOM2(name, ...) static bool MC_CAT(reg_, __COUNTER__) = (Around<__VA_ARGS__>::all(name, false), Around2<__VA_ARGS__>::all(name), true)
#if PART == 0
ATOM2("int", int);
ATOM2("string", string);
ATOM2("opaque", Opaque);
#elif PART == 1
ATOM2("void", void*);
ATOM2("file", FILE*);
ATOM2("func", std::function<int(int)>);
#elif PART == 2
ATOM("thread", std::thread);
ATOM("queue", std::queue<string>);
ATOM("stack", std::stack<int>);
ATOM("prio", std::priority_queue<double>);
ATOM2("added", Added);
#elif PART == 3
ATOM2("upoly", std::unique_ptr<Root>);
ATOM2("spoly", std::shared_ptr<Root>);
ATOM2("rpoly", Root*);
#elif PART == 4
ATOM("atomic", std::atomic<int>);
ATOM("atomic_bool", std::atomic<bool>);
static bool x1 = (add<std::shared_ptr<string const>>("shared-const"), true);
static bool x2 = (add<string const*>("raw-const"), true);
#endif
} // namespace
