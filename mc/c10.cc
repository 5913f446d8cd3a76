// C10: serializers whose phases disagree. A class interprets a plan of steps; the plans for sizing, packing and
// unpacking are enumerated, with one deviation between two of them at every position and depth.
#define GROUP 99
#include "api.h"
using namespace api;
namespace {
enum Kind { CHAR, INT, DOUBLE, STRING, VINT, ARR3, RAW, UPTR, FLOAT, VSHORT, LINT, MAPII, PAIR, ENUM, OPT, USER, DUR, RAW5, VBOOL, SETI, KINDS, NEST = 100 };
char const* kind_name(int k) {
  static char const* n[] = {"char", "int", "double", "string", "vector<int>", "array<int,3>", "array of 3 ints", "unique_ptr<int>", "float", "vector<short>", "list<int>", "map<int,int>", "pair<int,char>", "enum", "optional<int>", "user class", "duration", "array of 5 ints", "vector<bool>", "set<int>"};
  return k == NEST ? "nested" : n[k];
}
using Plan = std::vector<int>;
struct Plans { Plan level[2]; };
Plans g_plan[3];                  // sizing, packing, unpacking
Plans g_base;                     // what an object without the deviation does
int g_dev_id = 0;                 // the object that deviates
template <typename S> int phase(S& s) { return s.isSizing() ? 0 : s.isPacking() ? 1 : 2; }
struct Part {
  char c = 'x'; int i = 4; double d = 0.5; std::string s = "abc"; std::vector<int> vi{1, 2}; std::array<int, 3> a{{7, 8, 9}}; int raw[5] = {1, 2, 3, 4, 5};
  std::unique_ptr<int> u{new int(5)}; float f = 1; std::vector<short> vs{1, 2, 3, 4}; std::list<int> l{1, 2}; std::map<int, int> m{{1, 2}}; std::pair<int, char> p{1, 'q'};
  E32 e = e32_b; std::optional<int> o{3}; Intrusive in; std::chrono::duration<int> du{9}; std::vector<bool> vb{true, false}; std::set<int> st{4, 5};
  template <typename S> void step(S& z, int k) {
    switch (k) {
      case CHAR: z | c; break; case INT: z | i; break; case DOUBLE: z | d; break; case STRING: z | s; break; case VINT: z | vi; break;
      case ARR3: z | a; break; case RAW: checkpoint::dispatch::serializeArray(z, &raw[0], 3); break; case UPTR: z | u; break; case FLOAT: z | f; break;
      case VSHORT: z | vs; break; case LINT: z | l; break; case MAPII: z | m; break; case PAIR: z | p; break; case ENUM: z | e; break; case OPT: z | o; break;
      case USER: z | in; break; case DUR: z | du; break; case RAW5: checkpoint::dispatch::serializeArray(z, &raw[0], 5); break; case VBOOL: z | vb; break; case SETI: z | st; break;
      default: break;
    }
  }
};
struct Sub {
  Part part; int id = 0;
  template <typename S> void serialize(S& s) { auto& p = id == g_dev_id ? g_plan[phase(s)] : g_base; for (int k : p.level[1]) part.step(s, k); }
};
struct Prog {
  Part part; Sub sub; int id = 0;
  Prog() = default; explicit Prog(int i) : id(i) { sub.id = i; }
  template <typename S> void serialize(S& s) {
    auto& p = id == g_dev_id ? g_plan[phase(s)] : g_base;
    for (int k : p.level[0]) { if (k == NEST) s | sub; else part.step(s, k); }
  }
};
struct Holder { int x = 1; Prog p; std::string y = "tail"; template <typename S> void serialize(S& s) { s | x | p | y; } };
struct Deep { Holder h; std::vector<std::unique_ptr<Prog>> v; template <typename S> void serialize(S& s) { s | h | v; } };
struct NI { Prog p; char c = 1; };
template <typename S> void serialize(S& s, NI& n) { s | n.p; s | n.c; }
struct PolyBase : checkpoint::SerializableBase<PolyBase> { int b = 1; PolyBase() = default; explicit PolyBase(checkpoint::SERIALIZE_CONSTRUCT_TAG) {} virtual ~PolyBase() = default; template <typename S> void serialize(S& s) { s | b; } };
struct PolyProg : checkpoint::SerializableDerived<PolyProg, PolyBase> { Prog p; PolyProg() = default; explicit PolyProg(checkpoint::SERIALIZE_CONSTRUCT_TAG) {} template <typename S> void serialize(S& s) { s | p; } };

// ---- packing against sizing -----------------------------------------------------------------------------------
template <typename F> bool throws(F f, char const* what) {
  try { f(); return false; }
  catch (std::runtime_error& e) { MC_CHECK(*e.what() != 0, "%s: exception without a message", what); return true; }
  catch (mc::Violation&) { throw; }
  catch (std::exception& e) { mc::fail("%s: %s (%s) is not a runtime_error", what, typeid(e).name(), e.what()); }
}
template <typename T> void pack_check(T& v, std::string const& plan) {
  Plans sized = g_plan[0], packed = g_plan[1];
  auto size_of = [&](Plans const& p) { g_plan[0] = p; size_t n = checkpoint::getSize(v); g_plan[0] = sized; return n; };
  size_t A = size_of(sized), B = size_of(packed);
  g_plan[0] = sized; g_plan[1] = packed;
  mc::note("%s: sized %zu, packed %zu", plan.c_str(), A, B);
  mc::state(plan);
  if (A != B) mc::nontrivial();
  auto verdict = [&](bool t, char const* how) {
    mc::transition();
    if (A != B) MC_CHECK(t, "%s: %s sized %zu bytes and packed %zu, not reported", how, plan.c_str(), A, B);
    else MC_CHECK(!t, "%s: %s sizes and packs %zu bytes, but was accused", how, plan.c_str(), A);
  };
  verdict(throws([&] { auto s = checkpoint::serialize(v); }, "memory"), "memory");
  {
    constexpr size_t G = 256;
    Block b(A + 2 * G); memset(b.p, 0x77, b.n);
    verdict(throws([&] { auto s = checkpoint::serialize(v, [&](size_t n) { MC_CHECK(n == A, "asked for %zu bytes instead of %zu", n, A); return b.p + G; }); }, "user buffer"), "user buffer");
    for (size_t i = 0; i < b.n; i++) if (i < G || i >= G + A) MC_CHECK(b.p[i] == 0x77, "user buffer: %s wrote outside the buffer (at %zd of %zu)", plan.c_str(), ssize_t(i) - ssize_t(G), A);
    Block c(A);      // exact: the sanitizer guards it
    verdict(throws([&] { auto s = checkpoint::serialize(v, [&](size_t) { return c.p; }); }, "exact user buffer"), "exact user buffer");
  }
  verdict(throws([&] { checkpoint::serializeToFile(v, path()); }, "file"), "file");
  verdict(throws([&] { std::ostringstream o; std::ostream& os = o; checkpoint::serializeToStream(v, os); }, "stream"), "stream");
  // the same object, now symmetric, is accepted and restored
  g_plan[1] = sized; g_plan[2] = sized;
  std::string bytes = encode_mem(v);
  MC_CHECK(bytes.size() == A, "symmetric: %zu bytes instead of %zu", bytes.size(), A);
}
Plan insert(Plan p, size_t at, int k) { p.insert(p.begin() + long(at), k); return p; }
std::string text(Plan const& p) { std::string s; for (int k : p) s += (s.empty() ? "" : ",") + std::string(kind_name(k)); return "[" + s + "]"; }
// Chooses a base plan and a deviation of it.
void choose_plans(int first, int alphabet, bool into_unpack) {
  Plans base;
  int len = mc::thorough() ? 3 : 2;
  base.level[0].push_back(first == alphabet ? int(NEST) : first);
  for (int i = 1; i < len; i++) { int k = mc::choose(into_unpack ? 3 : 4); base.level[0].push_back(k == 3 ? int(NEST) : (first + 1 + k * 3) % KINDS); }
  bool nest = std::find(base.level[0].begin(), base.level[0].end(), int(NEST)) != base.level[0].end();
  if (nest) { base.level[1] = {INT, STRING}; }
  int lv = nest ? mc::choose(2) : 0;
  Plans dev = base;
  Plan& p = dev.level[lv];
  switch (mc::choose(4)) {
    case 0: { size_t at = size_t(mc::choose(int(p.size()))); p.erase(p.begin() + long(at)); break; }
    case 1: { size_t at = size_t(mc::choose(int(p.size()) + 1)); p = insert(p, at, mc::choose(KINDS)); break; }
    case 2: { size_t at = size_t(mc::choose(int(p.size()))); p[at] = mc::choose(KINDS); break; }
    default: { size_t at = size_t(mc::choose(int(p.size()))); std::swap(p[at], p[p.size() - 1 - at]); }
  }
  g_base = base;
  g_plan[0] = g_plan[1] = g_plan[2] = base;
  g_plan[into_unpack ? 2 : 1] = dev;
}
std::string describe(int which) { return text(g_plan[0].level[0]) + text(g_plan[0].level[1]) + " against " + text(g_plan[which].level[0]) + text(g_plan[which].level[1]); }
template <typename T, typename F> void pack_scenario(char const* name, int objects, F make) {
  for (int first = 0; first <= 8; first++)
    mc::add({std::string("pack/") + name + "/" + std::to_string(first), [=] {
      choose_plans(first, 8, false);
      g_dev_id = objects > 1 ? mc::choose(objects) : 0;
      T v = make();
      pack_check(v, std::string(name) + " " + describe(1));
    }});
}
Prog prog() { return Prog(0); }
int r1 = (pack_scenario<Prog>("top", 1, prog),
  pack_scenario<std::vector<Prog>>("vector", 2, [] { std::vector<Prog> v; v.emplace_back(0); v.emplace_back(1); return v; }),
  pack_scenario<std::list<Prog>>("list", 2, [] { std::list<Prog> v; v.emplace_back(0); v.emplace_back(1); return v; }),
  pack_scenario<std::map<int, Prog>>("map", 2, [] { std::map<int, Prog> m; m.emplace(3, 0); m.emplace(4, 1); return m; }),
  pack_scenario<std::unique_ptr<Prog>>("unique_ptr", 1, [] { return std::make_unique<Prog>(0); }),
  pack_scenario<Holder>("member", 1, [] { return Holder(); }),
  pack_scenario<NI>("nonintrusive", 1, [] { return NI(); }),
  pack_scenario<std::tuple<int, Prog, char>>("tuple", 1, [] { return std::tuple<int, Prog, char>(1, Prog(0), 'c'); }),
  pack_scenario<Deep>("deep", 3, [] { Deep d; d.v.push_back(std::make_unique<Prog>(1)); d.v.push_back(nullptr); d.v.push_back(std::make_unique<Prog>(2)); return d; }),
  pack_scenario<std::unique_ptr<PolyBase>>("polymorphic", 1, [] { return std::unique_ptr<PolyBase>(new PolyProg()); }), 0);

// A deviation of every number of raw bytes, more and fewer, at the end, the start, and so many that a page is passed.
struct Bytes {
  std::vector<char> blob; int where = 0; long delta = 0;
  template <typename S> void serialize(S& s) {
    int x = 5;
    if (where == 1) s | x;
    size_t n = size_t(long(blob.size()) + (s.isPacking() ? delta : 0));
    std::vector<char> tmp(blob.size() + 9000, 'b');
    checkpoint::dispatch::serializeArray(s, tmp.data(), n);
    if (where == 2) s | x;
  }
};
mc::Registrar raw{"bytes", [] {
  static constexpr long deltas[] = {-64, -9, -8, -7, -2, -1, 0, 1, 2, 7, 8, 9, 12, 16, 17, 64, 4096, 8192};
  Bytes b; b.blob.resize(size_t(64 + mc::choose(3) * 2000)); b.where = mc::choose(3); b.delta = deltas[mc::choose(18)];
  std::string plan = "raw bytes " + std::to_string(b.blob.size()) + " delta " + std::to_string(b.delta) + " where " + std::to_string(b.where);
  mc::note("%s", plan.c_str()); mc::state(plan);
  if (b.delta) mc::nontrivial();
  size_t A = checkpoint::getSize(b);
  auto verdict = [&](bool t, char const* how) { mc::transition(); MC_CHECK(t == (b.delta != 0), "%s: %s: %s", how, plan.c_str(), t ? "accused" : "not reported"); };
  verdict(throws([&] { auto s = checkpoint::serialize(b); }, "memory"), "memory");
  { Block c(A); verdict(throws([&] { auto s = checkpoint::serialize(b, [&](size_t) { return c.p; }); }, "user buffer"), "user buffer"); }
  verdict(throws([&] { checkpoint::serializeToFile(b, path()); }, "file"), "file");
  verdict(throws([&] { std::ostringstream o; std::ostream& os = o; checkpoint::serializeToStream(b, os); }, "stream"), "stream");
}};

// ---- unpacking against packing (error checking compiled in) ------------------------------------------------------
#if defined(SERIALIZATION_ERROR_CHECKING)
template <typename T, typename F> void unpack_scenario(char const* name, F make) {
  for (int first = 0; first < KINDS; first++)
    mc::add({std::string("unpack/") + name + "/" + std::to_string(first), [=] {
      choose_plans(first, KINDS, true);
      g_dev_id = 0;
      T v = make();
      std::string bytes = encode_mem(v), d = describe(2);
      bool differs = g_plan[2].level[0] != g_plan[1].level[0] || g_plan[2].level[1] != g_plan[1].level[1];
      // arrays of length 3 and 5 differ; the same step swapped with itself does not
      mc::note("%s %s", name, d.c_str()); mc::state(std::string(name) + d);
      if (differs) mc::nontrivial();
      auto verdict = [&](bool t, char const* how) {
        mc::transition();
        if (differs) MC_CHECK(t, "%s: %s packed and unpacked differently: %s, not reported", how, name, d.c_str());
        else MC_CHECK(!t, "%s: %s: %s accused", how, name, d.c_str());
      };
      // A memory decoder does not know how long its buffer is: an unpacking phase that asks for more gets what follows.
      std::string more = bytes + std::string(256, '\x11');
      verdict(throws([&] { Block b(more); auto r = checkpoint::deserialize<T>(b.p); }, "memory"), "memory");
      verdict(throws([&] { Block b(more); T t = make(); checkpoint::deserializeInPlace<T>(b.p, &t); }, "memory in place"), "memory in place");
      verdict(throws([&] { std::istringstream i(bytes); std::istream& is = i; auto r = checkpoint::deserializeFromStream<T>(is); }, "stream"), "stream");
      verdict(throws([&] { spit(path(), bytes); auto r = checkpoint::deserializeFromFile<T>(path()); }, "file"), "file");
    }});
}
int r2 = (unpack_scenario<Prog>("top", prog), unpack_scenario<Holder>("member", [] { return Holder(); }),
  unpack_scenario<std::vector<Prog>>("vector", [] { std::vector<Prog> v; v.emplace_back(0); return v; }),
  unpack_scenario<std::unique_ptr<Prog>>("unique_ptr", [] { return std::make_unique<Prog>(0); }),
  unpack_scenario<std::unique_ptr<PolyBase>>("polymorphic", [] { return std::unique_ptr<PolyBase>(new PolyProg()); }), 0);
#endif
}
