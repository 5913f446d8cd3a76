// Wide shapes: a variant of many alternatives, a large tuple, deep chains. CHECK: 1 round trip, 4 in place over another value.
#define GROUP 99
#include "api.h"
template <int I> struct WA { int v = 0; template <typename S> void serialize(S& s) { s | v; if (I % 2) { int more = v * 3 + I; s | more; if (s.isUnpacking()) v = more == v * 3 + I ? v : -1; } } };   // a short name: the library's types repeat it 260 times
namespace {
using std::string;
constexpr int ALTS = 260;
template <typename T> string encode(T& v) { auto s = checkpoint::serialize(v); return string(s->getBuffer(), s->getSize()); }
template <typename> struct Make;
template <int... I> struct Make<std::integer_sequence<int, I...>> {
  using V = std::variant<WA<I>...>;
  static void set(V& v, int k, int x) { using F = void (*)(V&, int); static F const f[] = {[](V& w, int y) { w.template emplace<size_t(I)>().v = y; }...}; f[k](v, x); }
  static int get(V const& v) { using F = int (*)(V const&); static F const f[] = {[](V const& w) { return std::get<size_t(I)>(w).v; }...}; return f[v.index()](v); }
};
using Wide = Make<std::make_integer_sequence<int, ALTS>>;
using V = Wide::V;
void check(V const& v, int k, int x, char const* what) { MC_CHECK(int(v.index()) == k, "%s: alternative %d became %d", what, k, int(v.index())); MC_CHECK(Wide::get(v) == x, "%s: alternative %d holds %d instead of %d", what, k, Wide::get(v), x); }
#if CHECK == 1
MC_SCENARIO("wide/variant", [] {
  int k = mc::choose(ALTS), x = 1000 + k;
  V v; Wide::set(v, k, x);
  string bytes = encode(v);
  mc::nontrivial(); mc::state("alternative" + std::to_string(k)); mc::transition(3);
  { auto r = checkpoint::deserialize<V>(&bytes[0]); check(*r, k, x, "memory"); }
});
#endif
#if CHECK == 4
// every ordered pair of alternatives
MC_SCENARIO("wide/variant", [] {
  int k = mc::choose(ALTS), x = 1000 + k;
  V v; Wide::set(v, k, x);
  string bytes = encode(v);
  mc::nontrivial(); mc::state("to" + std::to_string(k));
  for (int j = 0; j < ALTS; j++) { V t; Wide::set(t, j, 7); checkpoint::deserializeInPlace<V>(&bytes[0], &t); check(t, k, x, "in place"); }
  mc::transition(ALTS); mc::executions(ALTS - 1);
});
#endif
#if CHECK == 1
template <typename> struct Tup;
template <size_t... I> struct Tup<std::index_sequence<I...>> {
  using T = std::tuple<std::conditional_t<I % 3 == 0, string, std::conditional_t<I % 3 == 1, int, std::vector<char>>>...>;
  template <typename X> static void put(X& x, size_t i) { if constexpr (std::is_same<X, int>::value) x = int(i * 7 + 1); else x = X(i + 1, char('a' + i % 26)); }
  static void fill(T& t) { (put(std::get<I>(t), I), ...); }
};
MC_SCENARIO("wide/tuple", [] {
  using W = Tup<std::make_index_sequence<70>>;
  W::T t; W::fill(t);
  string bytes = encode(t);
  auto r = checkpoint::deserialize<W::T>(&bytes[0]);
  mc::nontrivial(); mc::transition(2); mc::state("tuple");
  MC_CHECK(*r == t, "a tuple of 70 members differs");
});
struct Chain { int v = 0; std::unique_ptr<Chain> next; template <typename S> void serialize(S& s) { s | v; s | next; } };
MC_SCENARIO("wide/chain", [] {
  int n = 1 + mc::choose(400);
  std::unique_ptr<Chain> c; for (int i = n; i > 0; i--) { auto p = std::make_unique<Chain>(); p->v = i; p->next = std::move(c); c = std::move(p); }
  string bytes = encode(c);
  auto r = checkpoint::deserialize<std::unique_ptr<Chain>>(&bytes[0]);
  mc::nontrivial(); mc::transition(2); mc::state("chain" + std::to_string(n));
  int i = 0; for (Chain* p = r->get(); p; p = p->next.get()) MC_CHECK(p->v == ++i, "link %d of %d holds %d", i, n, p->v);
  MC_CHECK(i == n, "a chain of %d came back with %d links", n, i);
});
template <int N> struct Nest { using T = std::vector<typename Nest<N - 1>::T>; static T make(int k) { T t; for (int i = 0; i < (N % 4 == 0 ? 2 : 1); i++) t.push_back(Nest<N - 1>::make(k + i)); return t; } };
template <> struct Nest<0> { using T = int; static T make(int k) { return k; } };
MC_SCENARIO("wide/nest", [] {
  using N = Nest<20>; int k = mc::choose(8);
  auto t = N::make(k);
  string bytes = encode(t);
  auto r = checkpoint::deserialize<N::T>(&bytes[0]);
  mc::nontrivial(); mc::transition(2); mc::state("nest" + std::to_string(k));
  MC_CHECK(*r == t, "vectors nested 20 deep differ");
});
#endif
} // namespace
