// C11: graphs of virtually serializable objects. Compiled several times, with different orders of definition and
// first use (-DORDER=n).
#define GROUP 99
#include "api.h"
#include <fstream>
using namespace api;
#define MC_STR2(x) #x
#define MC_STR(x) MC_STR2(x)
namespace {
std::vector<std::string> g_trace;      // what each level's serialize was applied to, in order
void log_level(char const* level, int id) { g_trace.push_back(std::string(level) + "#" + std::to_string(id)); }

// ---- hierarchy V: small, used by value ---------------------------------------------------------------------------
struct V : checkpoint::SerializableBase<V> {
  int id = 0; V() = default; V(V const&) = default; V& operator=(V const&) = default; virtual ~V() = default;
  template <typename S> void serialize(S& s) { s | id; log_level("V", id); }
};
#if ORDER == 1
void early_v() { V v; std::ostringstream o; std::ostream& os = o; checkpoint::serializeToStream(v, os); }
#endif
struct V1 : checkpoint::SerializableDerived<V1, V> {
  std::string s = "v"; V1() = default;
  template <typename S> void serialize(S& z) { z | s; log_level("V1", id); }
};
// ---- hierarchy M: macros, abstract root without a default constructor ----------------------------------------------
struct N;
struct Items;
struct M {
  int id = 0;
  explicit M(int i) : id(i) {}
  explicit M(checkpoint::SERIALIZE_CONSTRUCT_TAG) {}
  virtual ~M() = default;
  virtual char const* cls() const = 0;
  virtual void dump(std::string& o) const { o += std::to_string(id); }
  virtual void expect(std::vector<std::string>& e) const { e.push_back("M#" + std::to_string(id)); }
  checkpoint_virtual_serialize_root()
  template <typename S> void serialize(S& s) { s | id; log_level("M", id); }
};
#if ORDER == 2
void early_m() { std::unique_ptr<M> m; auto s = checkpoint::serialize(m); auto r = checkpoint::deserialize<std::unique_ptr<M>>(s->getBuffer()); (void)checkpoint::getMemoryFootprint(m); }
#endif
struct M1 : M {
  double d = 0; std::vector<int> v;
  explicit M1(int i) : M(i), d(i / 2.0), v(size_t(i % 3), i) {}
  explicit M1(checkpoint::SERIALIZE_CONSTRUCT_TAG t) : M(t) {}
  checkpoint_virtual_serialize_derived_from(M)
  char const* cls() const override { return "M1"; }
  void dump(std::string& o) const override { M::dump(o); o += "," + std::to_string(d) + "," + std::to_string(v.size()); for (int x : v) o += "." + std::to_string(x); }
  void expect(std::vector<std::string>& e) const override { M::expect(e); e.push_back("M1#" + std::to_string(id)); }
  template <typename S> void serialize(S& s) { s | d | v; log_level("M1", id); }
};
struct M3 : M {
  std::string t;
  explicit M3(int i) : M(i), t("m3-" + std::to_string(i)) {}
  static M3& reconstruct(void* b) { return *new (b) M3(-3); }
  checkpoint_virtual_serialize_derived_from(M)
  char const* cls() const override { return "M3"; }
  void dump(std::string& o) const override { M::dump(o); o += t; }
  void expect(std::vector<std::string>& e) const override { M::expect(e); e.push_back("M3#" + std::to_string(id)); }
  template <typename S> void serialize(S& s) { s | t; log_level("M3", id); }
};
struct M2 : M1 {
  std::unique_ptr<M> next;
  explicit M2(int i) : M1(i) { if (i % 2) next.reset(new M3(i + 1000)); }
  explicit M2(checkpoint::SERIALIZE_CONSTRUCT_TAG t) : M1(t) {}
  checkpoint_virtual_serialize_derived_from(M1)
  char const* cls() const override { return "M2"; }
  void dump(std::string& o) const override { M1::dump(o); o += "("; if (next) { o += next->cls(); next->dump(o); } o += ")"; }
  void expect(std::vector<std::string>& e) const override { M1::expect(e); if (next) next->expect(e); e.push_back("M2#" + std::to_string(id)); }
  template <typename S> void serialize(S& s) { s | next; log_level("M2", id); }
};
struct Wrap { int a = 3; std::unique_ptr<M> m; char z = 'z'; template <typename S> void serialize(S& s) { s | a | m | z; } };

// ---- hierarchy N: CRTP, whose levels carry lists of items ------------------------------------------------------------
enum ItemKind { I_INT, I_STR, I_NODE, I_MACRO, I_VALUE, I_VALUES, I_ARRAY, I_WRAP, I_MAP, I_MID, I_RAW, I_TUPLE, I_NULL, I_KINDS };
struct N1;
struct Item {
  int kind = 0, x = 0; std::string str; std::unique_ptr<N> n; std::unique_ptr<M> m; V1 v; std::vector<V1> vs; std::array<V, 2> va; Wrap w;
  std::map<int, std::unique_ptr<N>> mp; std::unique_ptr<N1> mid; N* raw = nullptr; std::tuple<int, std::unique_ptr<N>, char> tp;
  Item(); Item(Item&&); Item& operator=(Item&&); ~Item();
  template <typename S> void serialize(S& s);
};
struct N : checkpoint::SerializableBase<N> {
  int id = 0; std::vector<Item> items;
  N() = default; N(N&&) = default; N& operator=(N&&) = default; explicit N(checkpoint::SERIALIZE_CONSTRUCT_TAG) {}
  virtual ~N() = default;
  virtual std::vector<std::vector<Item>*> levels() { return {&items}; }
  virtual std::vector<char const*> names() { return {"N"}; }
  template <typename S> void serialize(S& s) { s | id; s | items; log_level("N", id); }
};
#if ORDER == 3
void early_n() { std::unique_ptr<N> n(new N()); checkpoint::serializeToFile(n, path("x")); auto r = checkpoint::deserializeFromFile<std::unique_ptr<N>>(path("x")); }
#endif
struct Pad { long pad[3] = {7, 8, 9}; virtual ~Pad() = default; };
#if ORDER != 4
struct N3 : checkpoint::SerializableDerived<N3, N> {      // no default constructor
  std::vector<Item> own; int value;
  explicit N3(int v) : value(v) {}
  explicit N3(checkpoint::SERIALIZE_CONSTRUCT_TAG t) : checkpoint::SerializableDerived<N3, N>(t), value(0) {}
  N3(N3&&) = default;
  std::vector<std::vector<Item>*> levels() override { return {&items, &own}; }
  std::vector<char const*> names() override { return {"N", "N3"}; }
  template <typename S> void serialize(S& s) { s | own | value; log_level("N3", id); }
};
#endif
struct N1 : checkpoint::SerializableDerived<N1, N> {
  std::vector<Item> own;
  N1() = default; N1(N1&&) = default; N1& operator=(N1&&) = default; explicit N1(checkpoint::SERIALIZE_CONSTRUCT_TAG) {}
  std::vector<std::vector<Item>*> levels() override { return {&items, &own}; }
  std::vector<char const*> names() override { return {"N", "N1"}; }
  template <typename S> void serialize(S& s) { s | own; log_level("N1", id); }
};
#if ORDER == 5
void early_n1() { std::unique_ptr<N1> n(new N1()); (void)checkpoint::getMemoryFootprint(n); std::ostringstream o; std::ostream& os = o; checkpoint::serializeToStream(n, os); std::unique_ptr<N> m(new N1()); checkpoint::serializeToFile(m, path("x")); }
#endif
struct N2 : checkpoint::SerializableDerived<N2, N1> {
  std::vector<Item> mine;
  N2() = default; N2(N2&&) = default; N2& operator=(N2&&) = default;
  std::vector<std::vector<Item>*> levels() override { return {&items, &own, &mine}; }
  std::vector<char const*> names() override { return {"N", "N1", "N2"}; }
  template <typename S> void serialize(S& s) { s | mine; log_level("N2", id); }
};
struct N4 : Pad, checkpoint::SerializableDerived<N4, N2> {
  std::vector<Item> last;
  std::vector<std::vector<Item>*> levels() override { return {&items, &own, &mine, &last}; }
  std::vector<char const*> names() override { return {"N", "N1", "N2", "N4"}; }
  template <typename S> void serialize(S& s) { s | last; log_level("N4", id); }
};
#if ORDER == 4
struct N3 : checkpoint::SerializableDerived<N3, N> {
  std::vector<Item> own; int value;
  explicit N3(int v) : value(v) {}
  explicit N3(checkpoint::SERIALIZE_CONSTRUCT_TAG t) : checkpoint::SerializableDerived<N3, N>(t), value(0) {}
  N3(N3&&) = default;
  std::vector<std::vector<Item>*> levels() override { return {&items, &own}; }
  std::vector<char const*> names() override { return {"N", "N3"}; }
  template <typename S> void serialize(S& s) { s | own | value; log_level("N3", id); }
};
#endif
Item::Item() = default;
Item::Item(Item&& o) : kind(o.kind), x(o.x), str(std::move(o.str)), n(std::move(o.n)), m(std::move(o.m)), v(o.v), vs(o.vs), va(o.va), w(std::move(o.w)), mp(std::move(o.mp)), mid(std::move(o.mid)), raw(o.raw), tp(std::move(o.tp)) { o.raw = nullptr; }
Item& Item::operator=(Item&& o) { this->~Item(); return *new (this) Item(std::move(o)); }
Item::~Item() { delete raw; }
template <typename S> void Item::serialize(S& s) {
  s | kind;
  switch (kind) {
    case I_INT: s | x; break; case I_STR: s | str; break; case I_NODE: s | n; break; case I_MACRO: s | m; break; case I_VALUE: s | v; break;
    case I_VALUES: s | vs; break; case I_ARRAY: s | va; break; case I_WRAP: s | w; break; case I_MAP: s | mp; break; case I_MID: s | mid; break;
    case I_RAW: checkpoint::reconstructPointedToObjectIfNeeded(s, raw); s | *raw; break;
    case I_TUPLE: s | tp; break; default: s | n;
  }
}

// ---- reference: what an object is, and which levels are to be visited ------------------------------------------------
void dump(std::string& o, N* n);
void dump(std::string& o, M* m) { if (!m) { o += "null"; return; } o += m->cls(); m->dump(o); }
void dump(std::string& o, V const& v) { o += std::to_string(v.id); }
void dump(std::string& o, Item& i) {
  o += "[" + std::to_string(i.kind) + ":";
  switch (i.kind) {
    case I_INT: o += std::to_string(i.x); break; case I_STR: o += i.str; break; case I_NODE: case I_NULL: dump(o, i.n.get()); break; case I_MACRO: dump(o, i.m.get()); break;
    case I_VALUE: dump(o, i.v); o += i.v.s; break; case I_VALUES: for (auto& v : i.vs) { dump(o, v); o += v.s + ";"; } break; case I_ARRAY: for (auto& v : i.va) { dump(o, v); o += ";"; } break;
    case I_WRAP: o += std::to_string(i.w.a) + i.w.z; dump(o, i.w.m.get()); break; case I_MAP: for (auto& e : i.mp) { o += std::to_string(e.first) + "="; dump(o, e.second.get()); } break;
    case I_MID: dump(o, i.mid.get()); break; case I_RAW: dump(o, i.raw); break; default: o += std::to_string(std::get<0>(i.tp)) + std::get<2>(i.tp); dump(o, std::get<1>(i.tp).get());
  }
  o += "]";
}
void dump(std::string& o, N* n) {
  if (!n) { o += "null"; return; }
  o += std::string(typeid(*n).name()) + std::to_string(n->id) + "{";
  if (auto* p = dynamic_cast<N3*>(n)) o += "v" + std::to_string(p->value);
  if (auto* p = dynamic_cast<N4*>(n)) o += p->pad[0] == 7 && p->pad[2] == 9 ? "" : "(pad)";
  for (auto* l : n->levels()) { o += "<"; for (auto& i : *l) dump(o, i); o += ">"; }
  o += "}";
}
using Ex = std::vector<std::string>;
void expect(Ex& e, N* n);
void expect(Ex& e, V const& v, bool d) { e.push_back("V#" + std::to_string(v.id)); if (d) e.push_back("V1#" + std::to_string(v.id)); }
void expect(Ex& e, Item& i) {
  switch (i.kind) {
    case I_INT: case I_STR: break; case I_NODE: case I_NULL: expect(e, i.n.get()); break; case I_MACRO: if (i.m) i.m->expect(e); break;
    case I_VALUE: expect(e, i.v, true); break; case I_VALUES: for (auto& v : i.vs) expect(e, v, true); break; case I_ARRAY: for (auto& v : i.va) expect(e, v, false); break;
    case I_WRAP: if (i.w.m) i.w.m->expect(e); break; case I_MAP: for (auto& x : i.mp) expect(e, x.second.get()); break;
    case I_MID: expect(e, i.mid.get()); break; case I_RAW: expect(e, i.raw); break; default: expect(e, std::get<1>(i.tp).get());
  }
}
void expect(Ex& e, N* n) {
  if (!n) return;
  auto names = n->names(); auto levels = n->levels();
  for (size_t l = 0; l < levels.size(); l++) { for (auto& i : *levels[l]) expect(e, i); e.push_back(std::string(names[l]) + "#" + std::to_string(n->id)); }
}

// ---- generation ---------------------------------------------------------------------------------------------------------
int g_next = 1;
constexpr int CLASSES = 5, MACROS = 3;
std::unique_ptr<N> node(int cls) {
  std::unique_ptr<N> n;
  switch (cls) { case 0: n.reset(new N()); break; case 1: n.reset(new N1()); break; case 2: n.reset(new N2()); break; case 3: n.reset(new N3(g_next * 3)); break; default: n.reset(new N4()); }
  n->id = g_next++;
  return n;
}
std::unique_ptr<M> macro(int cls) { int i = g_next++; return std::unique_ptr<M>(cls == 0 ? static_cast<M*>(new M1(i)) : cls == 1 ? static_cast<M*>(new M2(i)) : new M3(i)); }
V1 value() { V1 v; v.id = g_next++; v.s = std::string(size_t(v.id % 20), 's'); return v; }
// `c` selects the class of what the item holds; deeper: that object holds one more item.
Item item(int kind, int c, int deeper = -1) {
  Item i; i.kind = kind;
  auto nd = [&](int cls) { auto n = node(cls); if (deeper >= 0) { auto ls = n->levels(); ls[size_t(deeper) % ls.size()]->push_back(item((deeper * 5 + 2) % I_KINDS, deeper % CLASSES)); } return n; };
  switch (kind) {
    case I_INT: i.x = g_next++; break; case I_STR: i.str = "str" + std::to_string(g_next++); break; case I_NODE: i.n = nd(c); break; case I_MACRO: i.m = macro(c % MACROS); break;
    case I_VALUE: i.v = value(); break; case I_VALUES: for (int k = 0; k < c; k++) i.vs.push_back(value()); break; case I_ARRAY: for (auto& v : i.va) v.id = g_next++; break;
    case I_WRAP: i.w.a = g_next++; if (c) i.w.m = macro(c % MACROS); break; case I_MAP: for (int k = 0; k < 2; k++) i.mp[k * 7 + c] = nd((c + k) % CLASSES); break;
    case I_MID: { auto n = nd(c == 0 ? 1 : c == 3 ? 2 : c); i.mid.reset(dynamic_cast<N1*>(n.release())); break; }
    case I_RAW: i.raw = nd(c).release(); break; case I_TUPLE: std::get<0>(i.tp) = g_next++; std::get<1>(i.tp) = nd(c); std::get<2>(i.tp) = 't'; break; default: break;
  }
  return i;
}
template <typename T> std::unique_ptr<T> nothing() { return std::make_unique<T>(); }
bool g_any_order = false, g_footprint = true;
void check_trace(Ex const& want, int times, char const* what) {
  Ex full; for (int i = 0; i < times; i++) full.insert(full.end(), want.begin(), want.end());
  Ex got = g_trace;
  if (g_any_order) {        // the order among different objects is not specified (members of a tuple)
    auto by_id = [](std::string const& a, std::string const& b) { return a.substr(a.find('#')) < b.substr(b.find('#')); };
    std::stable_sort(got.begin(), got.end(), by_id); std::stable_sort(full.begin(), full.end(), by_id);
  }
  if (got != full) {
    std::string g, w; for (auto& x : g_trace) g += x + " "; for (auto& x : full) w += x + " ";
    mc::fail("%s: levels were visited as [%s] instead of [%s]", what, g.c_str(), w.c_str());
  }
  g_trace.clear();
}
// Streams of every standard class, and of a class of the user's, instead of the general ones.
struct UserStream : std::stringstream { int more = 0; };
template <typename T, typename D> void standard_streams(T& t, std::string const& bytes, Ex const& ex, D dumper, std::string const& want) {
  static char const* names[] = {"ofstream", "fstream", "ostringstream", "stringstream", "iostream", "user-defined stream"};
  for (int k = 0; k < 6; k++) {
    std::string got, out = path("cls");
    g_trace.clear();
    auto put = [&](auto& o) { checkpoint::serializeToStream(t, o); };
    switch (k) {
      case 0: { std::ofstream o(out, std::ios::binary); put(o); } got = slurp(out); break;
      case 1: { std::fstream o(out, std::ios::binary | std::ios::out | std::ios::trunc); put(o); } got = slurp(out); break;
      case 2: { std::ostringstream o; put(o); got = o.str(); break; }
      case 3: { std::stringstream o; put(o); got = o.str(); break; }
      case 4: { std::stringbuf b; std::iostream o(&b); put(o); got = b.str(); break; }
      case 5: { UserStream o; put(o); got = o.str(); break; }
    }
    mc::transition();
    check_trace(ex, 2, names[k]); same_bytes(got, bytes, names[k]);
  }
  static char const* readers[] = {"ifstream", "fstream", "istringstream", "stringstream", "iostream", "user-defined stream"};
  for (int k = 0; k < 6; k++) for (bool place : {false, true}) {
    std::string in = path("cls"); spit(in, bytes);
    std::unique_ptr<T> r = nothing<T>();
    g_trace.clear();
    auto get = [&](auto& i) { if (place) checkpoint::deserializeInPlaceFromStream<T>(i, r.get()); else r = checkpoint::deserializeFromStream<T>(i); };
    switch (k) {
      case 0: { std::ifstream i(in, std::ios::binary); get(i); break; }
      case 1: { std::fstream i(in, std::ios::binary | std::ios::in); get(i); break; }
      case 2: { std::istringstream i(bytes); get(i); break; }
      case 3: { std::stringstream i(bytes); get(i); break; }
      case 4: { std::stringbuf b(bytes); std::iostream i(&b); get(i); break; }
      case 5: { UserStream i; i.str(bytes); get(i); break; }
    }
    mc::transition();
    check_trace(ex, 1, readers[k]);
    std::string got; dumper(got, *r); same_dump(got, want, readers[k]);
  }
}
// Everything about one object graph held by a T.
template <typename T, typename D, typename X> void all(T& t, D dumper, X expecter, bool every) {
  std::string want; dumper(want, t);
  Ex ex; expecter(ex, t);
  mc::note("%s", show(want, 200).c_str()); mc::state(want); mc::nontrivial();
  g_trace.clear();
  size_t n = checkpoint::getSize(t); check_trace(ex, 1, "sizing");
  (void)checkpoint::getMemoryFootprint(t);
  if (g_footprint) check_trace(ex, 1, "footprint");
  g_trace.clear();
  std::string bytes = encode_mem(t); check_trace(ex, 2, "serializing to memory");
  MC_CHECK(bytes.size() == n, "sizes differ");
  auto one = [&](int d) {
    g_trace.clear();
    auto r = decode<T>(bytes, d, &nothing<T>);
    check_trace(ex, 1, dec_name(d));
    std::string got; dumper(got, *r);
    same_dump(got, want, dec_name(d));
    auto again = encode_mem(*r); same_bytes(again, bytes, "serialized again");
    g_trace.clear();
    // once more over the same objects
    Block b(bytes); checkpoint::deserializeInPlace<T>(b.p, &*r);
    check_trace(ex, 1, "in place over the same dynamic types");
    got.clear(); dumper(got, *r); same_dump(got, want, "in place over the same dynamic types");
  };
  if (every) {
    for (int e = 1; e < ENCS; e++) { auto b = encode(t, e); check_trace(ex, 2, enc_name(e)); same_bytes(b, bytes, enc_name(e)); }
    for (int d = 0; d < DECS; d++) one(d);
    standard_streams(t, bytes, ex, dumper, want);
  } else { one(D_MEM); one(D_STREAM); }
  std::string after; dumper(after, t);
  same_dump(after, want, "the original");
}
struct Ptr { std::unique_ptr<N> p; };
std::string const PRE = "order" MC_STR(ORDER) "/";
void object(int cls, int kind, bool two) {
  g_next = 1;
  std::unique_ptr<N> p = node(cls);
  auto ls = p->levels();
  int at = mc::choose(int(ls.size()));
  ls[size_t(at)]->push_back(item(kind, mc::choose(CLASSES), mc::choose(mc::thorough() ? 9 : 4) - 1));
  if (two) { int at2 = mc::choose(int(ls.size())), k2 = mc::choose(I_KINDS); ls[size_t(at2)]->push_back(item(k2, (at2 + k2) % CLASSES)); ls[size_t(at)]->push_back(item(I_INT, 0)); }
  all(p, [](std::string& o, std::unique_ptr<N>& q) { dump(o, q.get()); }, [](Ex& e, std::unique_ptr<N>& q) { expect(e, q.get()); }, !two && ORDER == 0);
}
int r1 = [] {
  for (int cls = 0; cls < CLASSES; cls++) for (int kind = 0; kind < I_KINDS; kind++) {
    mc::add({PRE + "object/" + std::to_string(cls) + "/" + std::to_string(kind), [=] { object(cls, kind, false); }});
    mc::Scenario s; s.name = PRE + "items/" + std::to_string(cls) + "/" + std::to_string(kind); s.body = [=] { object(cls, kind, true); };
    s.thorough_only = ORDER != 0; mc::add(s);
  }
  return 0;
}();

// ---- positions ------------------------------------------------------------------------------------------------------------
template <typename T> T filled(int c) { T t; t.id = g_next++; auto ls = t.levels(); for (auto* l : ls) l->push_back(item((c * 3 + int(l - ls[0])) % 2 ? I_STR : I_INT, 0)); ls.back()->push_back(item(c % I_KINDS, c % CLASSES)); return t; }
template <typename C> void dump_seq(std::string& o, C& c) { for (auto& e : c) { dump(o, &e); o += ";"; } }
template <typename C> void expect_seq(Ex& e, C& c) { for (auto& x : c) expect(e, &x); }
template <typename C> void dump_ptrs(std::string& o, C& c) { for (auto& e : c) { dump(o, &*e); o += ";"; } }
template <typename C> void expect_ptrs(Ex& e, C& c) { for (auto& x : c) expect(e, &*x); }
struct Shared {      // the documented way to serialize a shared_ptr
  std::shared_ptr<N> a; int after = 4;
  template <typename S> void serialize(S& s) {
    N* raw = a.get();
    checkpoint::reconstructPointedToObjectIfNeeded(s, raw);
    if (s.isUnpacking() && raw != a.get()) a = std::shared_ptr<N>(raw);
    s | *a; s | after;
  }
};
template <typename T> void by_value() {
  g_next = 1;
  int kind = mc::choose(I_KINDS), shape = mc::choose(6);
  switch (shape) {
    case 0: { T t = filled<T>(kind); all(t, [](std::string& o, T& x) { dump(o, &x); }, [](Ex& e, T& x) { expect(e, &x); }, true); break; }
    case 1: { std::vector<T> v; int n = mc::choose(4); for (int i = 0; i < n; i++) v.push_back(filled<T>(kind + i)); all(v, dump_seq<std::vector<T>>, expect_seq<std::vector<T>>, true); break; }
    case 2: { std::list<T> v; for (int i = 0; i < 3; i++) v.push_back(filled<T>(kind + i)); all(v, dump_seq<std::list<T>>, expect_seq<std::list<T>>, true); break; }
    case 3: { std::array<T, 3> v; for (int i = 0; i < 3; i++) v[size_t(i)] = filled<T>(kind + i); using A = std::array<T, 3>; all(v, dump_seq<A>, expect_seq<A>, true); break; }
    case 4: { using A = std::pair<T, std::deque<T>>; A v; v.first = filled<T>(kind); v.second.push_back(filled<T>(kind + 1)); v.second.push_back(filled<T>(kind + 2));
              all(v, [](std::string& o, A& a) { dump(o, &a.first); dump_seq(o, a.second); }, [](Ex& e, A& a) { expect(e, &a.first); expect_seq(e, a.second); }, true); break; }
    default: { using A = std::map<int, T>; A v; for (int i = 0; i < 3; i++) v.emplace(i * 2, filled<T>(kind + i));
              all(v, [](std::string& o, A& a) { for (auto& x : a) { o += std::to_string(x.first); dump(o, &x.second); } }, [](Ex& e, A& a) { for (auto& x : a) expect(e, &x.second); }, true); }
  }
}
#if ORDER == 0
mc::Registrar v1("values/N", [] { by_value<N>(); }), v2("values/N1", [] { by_value<N1>(); }), v3("values/N2", [] { by_value<N2>(); });
template <typename T> void holder(T& t, bool ptrs = true) { (void)ptrs; all(t, dump_ptrs<T>, expect_ptrs<T>, true); }
mc::Registrar p1("positions", [] {
  g_next = 1;
  int a = mc::choose(CLASSES), b = mc::choose(CLASSES), k = mc::choose(I_KINDS), shape = mc::choose(9);
  g_any_order = shape == 8; g_footprint = shape != 5;       // an optional's content is not followed
  struct Off { ~Off() { g_any_order = false; g_footprint = true; } } off;
  auto mk = [&](int c) { auto n = node(c); n->levels().back()->push_back(item(k, b)); return n; };
  switch (shape) {
    case 0: { std::vector<std::unique_ptr<N>> v; v.push_back(mk(a)); v.push_back(mk(b)); v.push_back(mk(a)); holder(v); break; }
    case 1: { std::list<std::unique_ptr<N>> v; v.push_back(mk(a)); v.push_back(mk(b)); holder(v); break; }
    case 2: { std::deque<std::unique_ptr<N>> v; v.push_back(mk(a)); v.push_back(mk(b)); holder(v); break; }
    case 3: { std::array<std::unique_ptr<N>, 2> v; v[0] = mk(a); v[1] = mk(b); holder(v); break; }
    case 4: { using A = std::unordered_map<int, std::unique_ptr<N>>; A v; v[1] = mk(a);
              all(v, [](std::string& o, A& m) { for (auto& x : m) dump(o, x.second.get()); }, [](Ex& e, A& m) { for (auto& x : m) expect(e, x.second.get()); }, true); break; }
    case 5: { using A = std::optional<std::unique_ptr<N>>; A v; v.emplace(mk(a)); all(v, [](std::string& o, A& m) { o += m ? "1" : "0"; if (m) dump(o, m->get()); }, [](Ex& e, A& m) { if (m) expect(e, m->get()); }, true); break; }
    case 6: { using A = std::variant<int, std::unique_ptr<N>, std::unique_ptr<M>>; A v; if (b % 2) v = mk(a); else v = macro(a % MACROS);
              all(v, [](std::string& o, A& m) { if (m.index() == 1) dump(o, std::get<1>(m).get()); else if (m.index() == 2) dump(o, std::get<2>(m).get()); },
                  [](Ex& e, A& m) { if (m.index() == 1) expect(e, std::get<1>(m).get()); else if (m.index() == 2) std::get<2>(m)->expect(e); }, true); break; }
    case 7: { Shared v; v.a = mk(a); all(v, [](std::string& o, Shared& m) { dump(o, m.a.get()); o += std::to_string(m.after); }, [](Ex& e, Shared& m) { expect(e, m.a.get()); }, false); break; }
    default: { using A = std::tuple<std::unique_ptr<M>, std::unique_ptr<N>, std::unique_ptr<M>>; A v(macro(a % MACROS), mk(b), macro(k % MACROS));
              all(v, [](std::string& o, A& m) { dump(o, std::get<0>(m).get()); dump(o, std::get<1>(m).get()); dump(o, std::get<2>(m).get()); },
                  [](Ex& e, A& m) { std::get<0>(m)->expect(e); expect(e, std::get<1>(m).get()); std::get<2>(m)->expect(e); }, true); }
  }
});
// In place over an object of the derived type through a reference to its base, and over other contents.
mc::Registrar p2("in place through the base", [] {
  g_next = 1;
  int cls = mc::choose(CLASSES), kind = mc::choose(I_KINDS), old = mc::choose(2);
  auto p = node(cls); p->levels().back()->push_back(item(kind, kind % CLASSES));
  auto q = node(cls); if (old) q->levels()[0]->push_back(item(kind, kind % CLASSES));
  std::string want, got; dump(want, p.get());
  Ex ex; expect(ex, p.get());
  mc::note("%s", show(want).c_str()); mc::nontrivial(); mc::state(want + std::to_string(old));
  std::string bytes = encode_mem<N>(*p);
  g_trace.clear();
  Block b(bytes); checkpoint::deserializeInPlace<N>(b.p, q.get());
  check_trace(ex, 1, "in place through the base");
  mc::transition();
  dump(got, q.get()); same_dump(got, want, "in place through the base");
});
#endif
}
