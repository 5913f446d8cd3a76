// C13's probe types: objects that check their own lifetimes and can fail at every construction and serialize call, in
// every position the library creates objects in.
#define GROUP 99
#include "c13.h"
using namespace uni;
namespace probe {
// addresses of the living probes (own storage, so that it is not part of the accounting)
struct Live {
  void const* p[4096]; int n = 0;
  void add(void const* q) { for (int i = 0; i < n; i++) if (p[i] == q) { mc::fail_later("an object was constructed over a living one"); return; } if (n < 4096) p[n++] = q; objects() = n; }
  void drop(void const* q) { for (int i = n; i-- > 0;) if (p[i] == q) { p[i] = p[--n]; objects() = n; return; } mc::fail_later("an object was destroyed that is not alive"); }
  void check(void const* q) { for (int i = n; i-- > 0;) if (p[i] == q) return; mc::fail_later("an object was used that is not alive"); }
};
inline Live& live() { static Live l; return l; }
// One resource-owning part. Every construction can fail before it takes effect.
struct Part {
  std::unique_ptr<int> own;
  Part() { step(CREATE); own.reset(new int(7)); live().add(this); }
  Part(Part const& o) { live().check(&o); step(CREATE); own.reset(new int(o.own ? *o.own : 0)); live().add(this); }
  Part(Part&& o) { live().check(&o); step(CREATE); own = std::move(o.own); live().add(this); }
  Part& operator=(Part const& o) { live().check(this); live().check(&o); step(CREATE); own.reset(new int(o.own ? *o.own : 0)); return *this; }
  Part& operator=(Part&& o) { live().check(this); live().check(&o); step(CREATE); own = std::move(o.own); return *this; }
  ~Part() { live().drop(this); }
};
template <typename S> void serve(S& s, Part& p) { live().check(&p); (void)s; step(SERVE); }
using Tag = checkpoint::SERIALIZE_CONSTRUCT_TAG;
// How: 0 default constructor, 1 tagged, 2 member reconstruct, 3 free reconstruct, 4 specialised reconstruct
template <int How, bool Copy> struct X {
  Part p; int a = 0; std::string b;
  template <int H = How, std::enable_if_t<H == 0, int> = 0> X() {}
  explicit X(int v) : a(v) {}
  template <typename Y, std::enable_if_t<How == 1 && std::is_same<std::decay_t<Y>, Tag>::value, int> = 0> explicit X(Y) {}
  X(X const&) = default; X(X&&) = default; X& operator=(X const&) = default; X& operator=(X&&) = default;
  template <int H = How, std::enable_if_t<H == 2, int> = 0> static X& reconstruct(void* m) { return *new (m) X(-3); }
  static X uni_blank() { return X(0); }
  template <typename F> void fields(F f) { f(a); f(b); }
  template <typename S> void serialize(S& s) { serve(s, p); s | a; s | b; serve(s, p); }
  bool operator<(X const& o) const { return a < o.a; }
  bool operator==(X const& o) const { return a == o.a; }
};
template <int How> struct X<How, false> {
  Part p; int a = 0; std::string b;
  template <int H = How, std::enable_if_t<H == 0, int> = 0> X() {}
  explicit X(int v) : a(v) {}
  template <typename Y, std::enable_if_t<How == 1 && std::is_same<std::decay_t<Y>, Tag>::value, int> = 0> explicit X(Y) {}
  X(X const&) = delete; X(X&&) = default; X& operator=(X&&) = default;
  template <int H = How, std::enable_if_t<H == 2, int> = 0> static X& reconstruct(void* m) { return *new (m) X(-3); }
  static X uni_blank() { return X(0); }
  template <typename F> void fields(F f) { f(a); f(b); }
  template <typename S> void serialize(S& s) { serve(s, p); s | a; s | b; serve(s, p); }
  bool operator<(X const& o) const { return a < o.a; }
  bool operator==(X const& o) const { return a == o.a; }
};
template <bool C> void reconstruct(X<3, C>*& t, void* m) { t = new (m) X<3, C>(-4); }
using D = X<0, true>; using T = X<1, true>; using R = X<2, true>; using F = X<3, true>; using S = X<4, true>;
using MD = X<0, false>; using MT = X<1, false>; using MR = X<2, false>; using MS = X<4, false>;
struct Outer {                          // objects within objects, at every depth
  Part p; D d; std::vector<T> v; std::unique_ptr<R> u; std::map<int, F> m;
  Outer() = default; Outer(Outer&&) = default; Outer& operator=(Outer&&) = default;
  template <typename G> void fields(G g) { g(d); g(v); g(u); g(m); }
  template <typename Z> void serialize(Z& s) { serve(s, p); s | d | v | u | m; serve(s, p); }
};
struct SplitX {
  Part p; D d; T t{1}; std::string z;
  template <typename G> void fields(G g) { g(d); g(t); g(z); }
  template <typename Z> void serialize(Z& s) { serve(s, p); s | d; }
  template <typename Z> void serializeParent(Z& s) { serve(s, p); s | t; }
  template <typename Z> void serializeThis(Z& s) { serve(s, p); s | z; }
};
// polymorphic
struct Base : checkpoint::SerializableBase<Base> {
  Part p; int a = 1; std::unique_ptr<Base> next;
  virtual ~Base() = default; virtual int kind() const { return 0; } virtual void more(Out&) const {}
  template <typename Z> void serialize(Z& s) { serve(s, p); s | a | next; }
};
struct D1 : checkpoint::SerializableDerived<D1, Base> {
  Part q; std::string b; D1() = default; explicit D1(Tag) {}
  int kind() const override { return 1; } void more(Out& o) const override { uni::dump(o, b); }
  template <typename Z> void serialize(Z& s) { serve(s, q); s | b; }
};
struct D2 : checkpoint::SerializableDerived<D2, D1> {
  Part r; std::vector<D> v; std::unique_ptr<Base> other; int shadow = 0;
  D2() = default; D2(int) {} static D2& reconstruct(void* m) { return *new (m) D2(3); }
  int kind() const override { return 2; } void more(Out& o) const override { D1::more(o); uni::dump(o, v); o += other ? 'o' : '-'; if (other) other->more(o); }
  template <typename Z> void serialize(Z& s) { serve(s, r); s | v | other; }
};
template <typename B> std::unique_ptr<B> poly(uint64_t i, int depth = 2) {
  std::unique_ptr<B> b;
  switch (i % 4) { case 3: return b; case 0: b.reset(new D2()); break; case 1: b.reset(new D1()); break; default: b.reset(new Base()); }
  b->a = int(i); if (auto* d = dynamic_cast<D1*>(b.get())) d->b = uni::nth<std::string>(i);
  if (auto* d = dynamic_cast<D2*>(b.get())) { d->v = uni::nth<std::vector<D>>(i); if (depth) d->other = poly<B>(i + 1, depth - 1); }
  if (depth) b->next = poly<B>(i + 2, depth - 1);
  return b;
}
struct RawOwner {                       // the documented way of owning a raw pointer
  Part p; Base* ptr = nullptr;
  RawOwner() = default; RawOwner(RawOwner&& o) : ptr(o.ptr) { o.ptr = nullptr; } RawOwner& operator=(RawOwner&& o) { std::swap(ptr, o.ptr); return *this; } ~RawOwner() { delete ptr; }
  template <typename Z> void serialize(Z& s) {
    serve(s, p);
    bool null = ptr == nullptr; s | null;
    if (null) { if (s.isUnpacking()) { delete ptr; ptr = nullptr; } return; }
    checkpoint::reconstructPointedToObjectIfNeeded(s, ptr); s | *ptr;
  }
};
}
namespace checkpoint {
template <bool C> struct CheckpointReconstructor<probe::X<4, C>> { static void reconstruct(probe::X<4, C>*& t, void* m) { t = new (m) probe::X<4, C>(-5); } };
}
template <int H, bool C> struct std::hash<probe::X<H, C>> { size_t operator()(probe::X<H, C> const& x) const { return size_t(x.a) % 3; } };
namespace uni {
using UP = std::unique_ptr<probe::Base>;
inline void dump_poly(Out& o, probe::Base const* b) { if (!b) { o += '0'; return; } o += char('A' + b->kind()); num(o, 'a', uint64_t(b->a)); b->more(o); dump_poly(o, b->next.get()); }
// in place, the dynamic types along the way have to agree: they do because targets are null or of the same value
template <> struct Ty<UP> { static UP nth(uint64_t i) { return i == 0 ? probe::poly<probe::Base>(0) : i == 2 ? UP() : probe::poly<probe::Base>(0, int(i % 3)); } static void dump(Out& o, UP const& p) { dump_poly(o, p.get()); } static UP gen() { return nth(0); } };
template <> struct Ty<probe::RawOwner> { static probe::RawOwner nth(uint64_t i) { probe::RawOwner r; r.ptr = uni::nth<UP>(i).release(); return r; } static void dump(Out& o, probe::RawOwner const& p) { dump_poly(o, p.ptr); } };
}
using namespace probe;
#define P(id, ...) static bool MC_CAT(reg_, id) = (check::Register<__VA_ARGS__>::run(#id, Bounds{2, 1}, Bounds{2, 1}, true), true);
#if PART == 0
P(d, D) P(t, T) P(r, R) P(f, F) P(s, S) P(md, MD) P(mt, MT)
P(u_d, std::unique_ptr<D>) P(u_t, std::unique_ptr<T>) P(u_r, std::unique_ptr<R>) P(u_s, std::unique_ptr<MS>)
P(v_d, std::vector<D>) P(v_t, std::vector<T>) P(v_r, std::vector<R>) P(v_md, std::vector<MD>) P(v_mt, std::vector<MT>) P(v_mr, std::vector<MR>)
#elif PART == 1
P(l_d, std::list<D>) P(l_f, std::list<F>) P(l_mt, std::list<MT>) P(dq_s, std::deque<S>) P(dq_md, std::deque<MD>) P(q_t, std::queue<T>) P(q_d, std::queue<D>)
P(m_t, std::map<int, T>) P(m_md, std::map<int, MD>) P(mm_tr, std::multimap<T, R>) P(se_d, std::set<D>) P(se_t, std::set<T>) P(mse_r, std::multiset<R>) 
#elif PART == 2
P(um_mt, std::unordered_map<int, MT>) P(us_d, std::unordered_set<D>) P(umm_s, std::unordered_multimap<int, S>) P(o_d, std::optional<D>) P(o_t, std::optional<T>) P(o_mr, std::optional<MR>)
P(va_d, std::variant<int, D>) P(va_t, std::variant<D, T, std::string>) P(va_mt, std::variant<std::string, MT>) P(va_v, std::variant<int, std::vector<T>>)
#elif PART == 3
P(tu, std::tuple<T, D, R>) P(tu_u, std::tuple<std::unique_ptr<D>, MT, std::string>) P(pr, std::pair<T, MD>) P(pr_t, std::pair<D, std::tuple<T, T>>) P(ar, std::array<D, 2>) P(ar_v, std::array<std::vector<T>, 2>)
P(v_pr, std::vector<std::pair<T, D>>) P(v_tu, std::vector<std::tuple<D, T>>) P(l_v, std::list<std::vector<R>>) P(v_o, std::vector<std::optional<T>>) P(v_u, std::vector<std::unique_ptr<T>>)
P(m_v, std::map<int, std::vector<T>>) P(v_v, std::vector<std::vector<D>>) P(o_tu, std::optional<std::tuple<T, std::unique_ptr<D>>>)
#else
P(outer, Outer) P(v_outer, std::vector<Outer>) P(u_outer, std::unique_ptr<Outer>) P(split, SplitX) P(v_split, std::vector<SplitX>)
P(poly, UP) P(v_poly, std::vector<UP>) P(raw, RawOwner) P(l_poly, std::list<UP>) P(m_poly, std::map<int, UP>)
#endif
