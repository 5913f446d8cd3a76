// C03, from inside: every part of an object, whenever its serialize is called while the object is sized, packed or
// measured, looks at the whole object, or stops the operation with an exception there: either way nothing has changed.
#define GROUP 99
#include "c03.h"
using namespace uni;
namespace watch {
struct Stop {};
inline std::function<void()>& hook() { static std::function<void()> h; return h; }
inline void call() { if (hook()) hook()(); }
using Tag = checkpoint::SERIALIZE_CONSTRUCT_TAG;
#define WATCH_BODY \
  int a = 0; std::string b; \
  template <typename F> void fields(F f) { f(a); f(b); } \
  template <typename S> void serialize(S& s) { call(); s | a; call(); s | b; call(); }
#define WATCH_CMP(W) bool operator<(W const& o) const { return a < o.a; } bool operator==(W const& o) const { return a == o.a; }
struct W { WATCH_BODY WATCH_CMP(W) };
struct M { M() = default; M(M&&) = default; M& operator=(M&&) = default; WATCH_BODY WATCH_CMP(M) };      // cannot be copied
struct T { explicit T(int) {} explicit T(Tag) {} static T uni_blank() { return T(0); } WATCH_BODY WATCH_CMP(T) };  // no default constructor
struct Split {
  W x; std::vector<W> v; std::string z;
  template <typename G> void fields(G g) { g(x); g(v); g(z); }
  template <typename S> void serialize(S& s) { call(); s | x; }
  template <typename S> void serializeParent(S& s) { call(); s | v; }
  template <typename S> void serializeThis(S& s) { call(); s | z; }
};
struct Free { int a = 0; W w; template <typename G> void fields(G g) { g(a); g(w); } };
template <typename S> void serialize(S& s, Free& f) { call(); s | f.a; call(); s | f.w; call(); }
struct Base { W w; int k = 0; template <typename S> void serialize(S& s) { call(); s | w | k; } };
struct Derived : Base { std::optional<W> o; W last; template <typename G> void fields(G g) { g(w); g(k); g(o); g(last); } template <typename S> void serialize(S& s) { Base::serialize(s); call(); s | o | last; } };
struct Outer {
  W d; std::vector<T> v; std::unique_ptr<W> u; std::map<int, M> m; std::optional<std::variant<int, W>> o; std::pair<int, std::list<W>> p; W last;
  template <typename G> void fields(G g) { g(d); g(v); g(u); g(m); g(o); g(p); g(last); }
  template <typename S> void serialize(S& s) { call(); s | d | v | u | m; call(); s | o | p | last; call(); }
};
enum Op { SIZE, FOOT, MEM, USER, FILE_, STREAM, OPS };
inline char const* op_name(int o) { static char const* n[] = {"getSize", "getMemoryFootprint", "serializing to memory", "serializing to a user buffer", "serializing to a file", "serializing to a stream"}; return n[o]; }
template <typename V> std::string act(V& v, int op) {
  if (op == SIZE) return std::to_string(checkpoint::getSize(v));
  if (op == FOOT) return std::to_string(checkpoint::getMemoryFootprint(v));
  return api::encode(v, op - MEM);
}
template <typename V> void reg(char const* id) {
  mc::add({std::string("inside/") + id, [] {
    hook() = nullptr;
    begin(); With with(2, 1);
    V v = gen<V>();
    int op = mc::choose(OPS);
    std::string before = check::full(v);
    mc::state(dumped(v));
    mc::note("value %s, %s", api::show(dumped(v)).c_str(), op_name(op));
    int calls = 0;
    std::string bad;
    hook() = [&] { calls++; if (bad.empty() && check::full(v) != before) bad = "call " + std::to_string(calls); };
    std::string ref = act(v, op);
    hook() = nullptr;
    MC_CHECK(bad.empty(), "%s: the object was changed at %s of a part's serialize", op_name(op), bad.c_str());
    MC_CHECK(check::full(v) == before, "%s changed the object", op_name(op));
    if (!calls) return;
    mc::nontrivial();
    mc::transition(uint64_t(calls));
    for (int stop = 1; stop <= calls; stop++) {
      int n = 0; bool thrown = false;
      hook() = [&] { if (++n == stop) throw Stop(); };
      try { act(v, op); } catch (Stop const&) { thrown = true; }
      hook() = nullptr;
      mc::transition();
      MC_CHECK(thrown, "%s: an exception at call %d of a part's serialize did not arrive", op_name(op), stop);
      MC_CHECK(check::full(v) == before, "%s, stopped by an exception at call %d of %d of a part's serialize, changed the object", op_name(op), stop, calls);
    }
    std::string again = act(v, op);
    MC_CHECK(again == ref, "%s gives another result after it was stopped by exceptions", op_name(op));
  }});
}
}
template <> struct std::hash<watch::W> { size_t operator()(watch::W const& x) const { return size_t(x.a) % 3; } };
namespace {
using namespace watch;
#define P(id, ...) reg<__VA_ARGS__>(#id);
bool r = [] {
#if PART == 0
  P(w, W) P(m, M) P(t, T) P(split, watch::Split) P(free, watch::Free) P(derived, watch::Derived) P(outer, watch::Outer)
  P(o_w, std::optional<W>) P(o_m, std::optional<M>) P(o_t, std::optional<T>) P(o_v, std::optional<std::vector<W>>) P(o_u, std::optional<std::unique_ptr<W>>)
  P(u_w, std::unique_ptr<W>) P(u_m, std::unique_ptr<M>) P(u_o, std::unique_ptr<std::optional<W>>) P(u_v, std::unique_ptr<std::vector<W>>)
  P(va_w, std::variant<int, W>) P(va_m, std::variant<M, std::string, W>) P(va_v, std::variant<int, std::vector<T>>)
#elif PART == 1
  P(v_w, std::vector<W>) P(v_m, std::vector<M>) P(v_t, std::vector<T>) P(v_v, std::vector<std::vector<W>>) P(v_o, std::vector<std::optional<W>>) P(v_u, std::vector<std::unique_ptr<W>>) P(v_pr, std::vector<std::pair<W, M>>) P(v_split, std::vector<watch::Split>)
  P(l_w, std::list<W>) P(l_m, std::list<M>) P(dq_w, std::deque<W>) P(dq_m, std::deque<M>) P(q_w, std::queue<W>) P(q_t, std::queue<T>)
  P(pr, std::pair<W, M>) P(tu, std::tuple<W, M, T>) P(tu_u, std::tuple<std::unique_ptr<W>, M, std::string>) P(ar, std::array<W, 2>) P(ar_v, std::array<std::vector<W>, 2>)
#else
  P(mp_w, std::map<int, W>) P(mp_m, std::map<int, M>) P(mp_k, std::map<W, std::string>) P(mm, std::multimap<T, W>) P(se, std::set<W>) P(se_m, std::set<M>) P(mse, std::multiset<W>)
  P(um, std::unordered_map<int, W>) P(um_m, std::unordered_map<int, M>) P(umm, std::unordered_multimap<int, M>) P(us, std::unordered_set<W>) P(mp_v, std::map<int, std::vector<W>>)
#endif
  return true;
}();
}
