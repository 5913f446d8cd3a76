// C15 for polymorphic objects: traversers of the user, instantiated for the classes as the documentation asks, are
// given every level of every object once, from the root of the hierarchy down, wherever in the graph it is.
// -DORDER=n varies the order in which the traversers are instantiated.
#include "c15.h"
using namespace check;
namespace {
struct PA : checkpoint::SerializableBase<PA> { int a = 1; virtual ~PA() = default; template <typename S> void serialize(S& s) { s | a; } };
struct PB : checkpoint::SerializableDerived<PB, PA> { std::string s; template <typename S> void serialize(S& t) { t | s; } };
struct PC : checkpoint::SerializableDerived<PC, PB> { std::unique_ptr<PA> child; PB val; short c = 3; template <typename S> void serialize(S& s) { s | child | val | c; } };
struct PE : PA { checkpoint_virtual_serialize_derived_from(PA)
  PE() = default; explicit PE(checkpoint::SERIALIZE_CONSTRUCT_TAG) {}
  std::vector<std::unique_ptr<PA>> kids; PB two[2]; template <typename S> void serialize(S& s) { s | kids; checkpoint::dispatch::serializeArray(s, two, 2); } };
// a second root, virtual functions in another order, second base first in memory
struct Other { double pad = 2; virtual ~Other() = default; };
struct PF : Other, PA { checkpoint_virtual_serialize_derived_from(PA)
  PF() = default; explicit PF(checkpoint::SERIALIZE_CONSTRUCT_TAG) {}
  long f = 5; template <typename S> void serialize(S& s) { s | f; } };

std::unique_ptr<PA> make(int depth, int salt) {
  int k = mc::choose(depth > 0 ? 6 : 4);
  if (k == 0) return nullptr;
  if (k == 1) { auto p = std::make_unique<PA>(); p->a = 100 + salt; return p; }
  if (k == 2) { auto p = std::make_unique<PB>(); p->a = 200 + salt; p->s = std::string(size_t(salt % 3) * 9, char('a' + salt % 26)); return p; }
  if (k == 3) { auto p = std::make_unique<PF>(); p->a = 250 + salt; p->f = 7 * salt; return p; }
  if (k == 4) { auto p = std::make_unique<PC>(); p->a = 300 + salt; p->s = "mid"; p->c = short(salt); p->val.a = 9 + salt; p->val.s = "in"; p->child = make(depth - 1, salt * 2 + 1); return p; }
  auto p = std::make_unique<PE>(); p->a = 400 + salt; p->two[1].s = "second"; p->two[0].a = salt;
  int n = mc::choose(3);
  for (int i = 0; i < n; i++) p->kids.push_back(i ? std::unique_ptr<PA>(i % 2 ? static_cast<PA*>(new PB) : new PA) : make(depth - 1, salt * 2 + i));
  return p;
}
void dump_obj(Out& o, PA const& v) {
  o += typeid(v).name(); num(o, 'a', uint64_t(v.a));
  if (auto b = dynamic_cast<PB const*>(&v)) { num(o, 'b', b->s.size()); o += b->s; }
  if (auto f = dynamic_cast<PF const*>(&v)) num(o, 'f', uint64_t(f->f));
  if (auto c = dynamic_cast<PC const*>(&v)) { num(o, 'c', uint64_t(c->c)); dump_obj(o, c->val); if (c->child) dump_obj(o, *c->child); else o += '0'; }
  if (auto e = dynamic_cast<PE const*>(&v)) { num(o, 'k', e->kids.size()); for (auto& k : e->kids) { if (k) dump_obj(o, *k); else o += '0'; } dump_obj(o, e->two[0]); dump_obj(o, e->two[1]); }
}
template <typename T> void leaf(Regions& r, T const& v) { r.push_back({reinterpret_cast<char const*>(&v), sizeof v}); }
void leaves_obj(Regions& r, PA const& v) {
  leaf(r, v.a);
  if (auto b = dynamic_cast<PB const*>(&v)) leaves(r, b->s);
  if (auto f = dynamic_cast<PF const*>(&v)) leaf(r, f->f);
  if (auto c = dynamic_cast<PC const*>(&v)) { leaf(r, c->c); leaves_obj(r, c->val); if (c->child) leaves_obj(r, *c->child); }
  if (auto e = dynamic_cast<PE const*>(&v)) { for (auto& k : e->kids) if (k) leaves_obj(r, *k); leaves_obj(r, e->two[0]); leaves_obj(r, e->two[1]); }
}
}
namespace uni {
template <> struct Ty<std::unique_ptr<PA>> {
  using P = std::unique_ptr<PA>;
  static P nth(uint64_t i) { if (i % 5 == 0) return nullptr; if (i % 3 == 1) { auto b = std::make_unique<PB>(); b->s = "nth"; return b; } auto a = std::make_unique<PA>(); a->a = int(i); return a; }
  static P gen() { return make(mc::thorough() ? 4 : 3, 1); }
  static void dump(Out& o, P const& v) { if (v) dump_obj(o, *v); else o += '0'; }
  static void leaves(Regions& r, P const& v) { if (v) leaves_obj(r, *v); }
};
}
namespace check {
template <typename T> void level(Parts& o, T const& v) { o.all.push_back({&v, &typeid(T), o.depth > 0}); }
inline void levels(Parts& o, PA const& v) {
  level(o, v);
  if (auto b = dynamic_cast<PB const*>(&v)) { level(o, *b); parts(o, b->s); }
  if (auto f = dynamic_cast<PF const*>(&v)) level(o, *f);
  if (auto c = dynamic_cast<PC const*>(&v)) { level(o, *c); parts(o, c->child); levels(o, c->val); }
  if (auto e = dynamic_cast<PE const*>(&v)) { level(o, *e); parts(o, e->kids); levels(o, e->two[0]); levels(o, e->two[1]); }
}
template <> struct Sub<std::unique_ptr<PA>> { static void go(Parts& o, std::unique_ptr<PA> const& v) { if (v) levels(o, *v); } };
}
// an object decoded in place must be of the same class: start from empty pointers
namespace api { template <> std::unique_ptr<std::vector<std::unique_ptr<PA>>> target5() { auto v = std::make_unique<std::vector<std::unique_ptr<PA>>>(); v->resize(2); return v; } }
namespace {
template <typename... R> void instantiate() {
#if ORDER == 0
  checkpoint::instantiateObjSerializer<PA, R...>(); checkpoint::instantiateObjSerializer<PB, R...>(); checkpoint::instantiateObjSerializer<PC, R...>(); checkpoint::instantiateObjSerializer<PE, R...>(); checkpoint::instantiateObjSerializer<PF, R...>();
#else
  (checkpoint::instantiateObjSerializer<PF, R>(), ...); (checkpoint::instantiateObjSerializer<PE, R>(), ...); (checkpoint::instantiateObjSerializer<PC, R>(), ...); (checkpoint::instantiateObjSerializer<PB, R>(), ...); (checkpoint::instantiateObjSerializer<PA, R>(), ...);
#endif
}
void ready() {
#if ORDER == 0
  instantiate<Rec<Basic>, Rec<Counting>, Rec<NoVectors>, Typed<Basic>, Typed<Counting>, Typed<NoVectors>>();
#else
  static bool once = (instantiate<Typed<NoVectors>>(), instantiate<Rec<Counting>, Rec<Basic>>(), instantiate<Typed<Counting>, Rec<NoVectors>, Typed<Basic>>(), true); (void)once;
#endif
}
// order of the levels: the root first, each level's content before the next level
void in_order(PA const& v, Log const& l) {
  std::vector<std::type_info const*> got, want{&typeid(PA)};
  if (dynamic_cast<PB const*>(&v)) want.push_back(&typeid(PB));
  if (dynamic_cast<PC const*>(&v)) want.push_back(&typeid(PC));
  if (dynamic_cast<PE const*>(&v)) want.push_back(&typeid(PE));
  if (dynamic_cast<PF const*>(&v)) want.push_back(&typeid(PF));
  void const* at[] = {&v, dynamic_cast<PB const*>(&v), dynamic_cast<PC const*>(&v), dynamic_cast<PE const*>(&v), dynamic_cast<PF const*>(&v)};
  std::type_info const* ty[] = {&typeid(PA), &typeid(PB), &typeid(PC), &typeid(PE), &typeid(PF)};
  for (auto& x : l.visits) for (int i = 0; i < 5; i++) if (at[i] && x.p == at[i] && *x.t == *ty[i]) got.push_back(x.t);
  MC_CHECK(got.size() == want.size(), "%zu levels visited instead of %zu", got.size(), want.size());
  for (size_t i = 0; i < got.size(); i++) MC_CHECK(*got[i] == *want[i], "level %zu is %s instead of %s", i, got[i]->name(), want[i]->name());
}
std::string const PRE = "poly" + std::to_string(ORDER) + "/";
mc::Registrar r1{PRE + "pointer", [] { begin(); ready(); auto v = uni::gen<std::unique_ptr<PA>>(); traverse(v); }};
mc::Registrar r2{PRE + "vector", [] {
  begin(); ready(); std::vector<std::unique_ptr<PA>> v; int n = mc::choose(3); for (int i = 0; i < n; i++) v.push_back(make(i ? 0 : 1, i + 3)); traverse(v); }};
template <typename T> void reference(PA& v) {
  std::string d; dump_obj(d, v);
  Regions r; leaves_obj(r, v); Want w = expand(r);
  Parts ps; levels(ps, v);
  T& t = dynamic_cast<T&>(v);
  for (Mode m : {Mode::Sizing, Mode::Packing, Mode::None}) {
    Log l, c; Traverse::with<T, Rec<Basic>>(t, l, m); Traverse::with<T, Typed<Counting>>(t, c, m); mc::transition(2);
    each_once(l, w, "reference"); each_once(c, w, "reference, counting"); visited(c, ps, false, "reference"); in_order(v, c);
    same_order(c.elems, l.elems, false, "reference, counting dispatcher");
    if (m == Mode::Packing) same_bytes(l.bytes, encode_mem(t), "reference: bytes packed");
  }
  std::string e; dump_obj(e, v); same_dump(e, d, "the object after a traversal");
}
mc::Registrar r3{PRE + "reference", [] {
  begin(); ready(); auto v = make(mc::thorough() ? 4 : 3, 2); if (!v) return;
  mc::nontrivial(); std::string d; dump_obj(d, *v); mc::state(d); mc::note("object %s", show(d).c_str());
  reference<PA>(*v);
  if (dynamic_cast<PB*>(v.get())) reference<PB>(*v);
  if (dynamic_cast<PC*>(v.get())) reference<PC>(*v);
  if (dynamic_cast<PE*>(v.get())) reference<PE>(*v);
  if (dynamic_cast<PF*>(v.get())) reference<PF>(*v);
}};
} // namespace
