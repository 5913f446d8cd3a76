// C17: what an operation gives depends on its arguments alone, not on what the process did before, on what lies in
// fresh memory, or on whether it runs inside another object's serialize.
// Every outcome is compared with the same operation's outcome in a process that did nothing else before.
#include "ops.h"
#include <signal.h>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/wait.h>
#ifndef PART
#define PART 0
#endif

// ---- forked processes that report to this one -----------------------------------------------------------------
namespace hist {
struct Shm { bool done; uint32_t len; char out[1 << 20]; };
inline Shm* shm() { static Shm* s = static_cast<Shm*>(mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0)); return s; }
// Runs f in a process forked from this one, which never uses the library itself.
template <typename F> std::string in_process(F const& f) {
  Shm* s = shm(); s->done = false; s->len = 0;
  pid_t p = fork();
  if (p < 0) mc::fail("INTERNAL fork: %s", strerror(errno));
  if (p == 0) {
    alarm(60);
    std::string r;
    try { r = f(); } catch (mc::Violation& v) { r = "violation: " + v.msg; } catch (std::exception& e) { r = std::string("uncaught ") + e.what(); }
    if (r.size() > sizeof s->out) _exit(3);
    memcpy(s->out, r.data(), r.size()); s->len = uint32_t(r.size()); s->done = true; _exit(0);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  mc::executions(1);
  if (!s->done) return WIFSIGNALED(st) ? "crash: signal " + std::to_string(WTERMSIG(st)) : "the process ended with status " + std::to_string(WEXITSTATUS(st));
  return std::string(s->out, s->len);
}
struct Op { std::string type, name; int kind, slot; std::function<void()> prepare; std::function<std::string()> run; bool nests = false; std::string base; bool known = false; };
inline std::vector<Op>& alphabet() { static std::vector<Op> v; return v; }
inline std::string const& alone(Op& o) {
  if (!o.known) {
    o.prepare();
    o.base = in_process(o.run); o.known = true;
    if (o.base.compare(0, 6, "crash:") == 0 || o.base.compare(0, 9, "uncaught ") == 0 || o.base.compare(0, 11, "the process") == 0) mc::fail("%s alone: %s", o.name.c_str(), o.base.substr(0, 300).c_str());
    std::string again = in_process(o.run);
    if (again != o.base) mc::fail("%s alone gives two different outcomes", o.name.c_str());
    mc::state(o.base);
  }
  return o.base;
}
inline std::string shorten(std::string const& s, size_t from = 0) { std::string o; for (unsigned char c : s.substr(from, 160)) { char b[5]; if (c >= 32 && c < 127) o += char(c); else { snprintf(b, sizeof b, "\\%02x", c); o += b; } } return o; }
inline std::string differ(std::string const& got, std::string const& want) {
  size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
  size_t f = i > 20 ? i - 20 : 0;
  return "at byte " + std::to_string(i) + " of the outcome: " + shorten(got, f) + " instead of " + shorten(want, f);
}
// Runs the operations of a history one after the other in one process; "" or what went wrong.
inline std::string history(std::vector<Op*> const& ops) {
  for (auto o : ops) alone(*o);
  std::string r = in_process([&] { for (size_t i = 0; i < ops.size(); i++) { std::string g = ops[i]->run(); if (g != ops[i]->base) return "operation " + std::to_string(i + 1) + ", " + ops[i]->name + ", gave another outcome than alone " + differ(g, ops[i]->base); } return std::string(); });
  if (r.empty()) return r;
  std::string h; for (auto o : ops) h += (h.empty() ? "" : "; ") + o->name;
  return "after the history [" + h + "]: " + r;
}
// ---- nesting: operations that run inside serialize
inline std::function<std::string()>*& inner() { static std::function<std::string()>* f = nullptr; return f; }
inline std::vector<std::string>& inner_log() { static std::vector<std::string> v; return v; }
inline int& depth() { static int d = 0; return d; }
inline void hook() { if (auto f = inner()) { inner() = nullptr; depth()++; inner_log().push_back((*f)()); depth()--; inner() = f; } }
} // namespace hist

#ifdef SERIALIZATION_ERROR_CHECKING
#define EVERY_PAIR false
#else
#define EVERY_PAIR true
#endif
namespace {
using hist::Op;
struct Outer { int a = 0; string s; int b = 0;
  template <typename S> void serialize(S& z) { z | a; hist::hook(); z | s; hist::hook(); z | b; } };
struct OuterBase : checkpoint::SerializableBase<OuterBase> { int a = 0; template <typename S> void serialize(S& z) { hist::hook(); z | a; hist::hook(); } };
struct OuterDerived : checkpoint::SerializableDerived<OuterDerived, OuterBase> { string n; template <typename S> void serialize(S& z) { hist::hook(); z | n; hist::hook(); } };
struct OuterRecon { int a = 0; string s; OuterRecon() = delete; explicit OuterRecon(int x) : a(x) {} static OuterRecon& reconstruct(void* p) { return *new (p) OuterRecon(0); }
  template <typename S> void serialize(S& z) { hist::hook(); z | a; z | s; hist::hook(); } };
template <> struct Val<Outer> { static Outer make(uint64_t i) { Outer o; o.a = int(mix(i)); o.s = uni::nth<string>(i + 3); o.b = int(i); return o; } static void obs(Out& o, Outer const& v) { uni::dump(o, v.a); uni::dump(o, v.s); uni::dump(o, v.b); } };
template <> struct Val<OuterRecon> { static OuterRecon make(uint64_t i) { OuterRecon o(int(mix(i))); o.s = uni::nth<string>(i + 5); return o; } static void obs(Out& o, OuterRecon const& v) { uni::dump(o, v.a); uni::dump(o, v.s); } };
template <> struct Val<std::vector<OuterRecon>> { using T = std::vector<OuterRecon>; static T make(uint64_t i) { T v; for (uint64_t k = 0; k < i % 4 + 1; k++) v.push_back(Val<OuterRecon>::make(i + k)); return v; } static void obs(Out& o, T const& v) { for (auto& e : v) Val<OuterRecon>::obs(o, e); } };
template <typename C> struct Seq { static C make(uint64_t i) { C v; for (uint64_t k = 0; k < i % 4 + 1; k++) v.insert(v.end(), Val<Outer>::make(i + k)); return v; } static void obs(Out& o, C const& v) { num(o, 'n', uint64_t(v.size())); for (auto& e : v) Val<Outer>::obs(o, e); } };
template <> struct Val<std::vector<Outer>> : Seq<std::vector<Outer>> {};
template <> struct Val<std::list<Outer>> : Seq<std::list<Outer>> {};
template <> struct Val<std::deque<Outer>> : Seq<std::deque<Outer>> {};
template <> struct Val<std::queue<Outer>> { using T = std::queue<Outer>; static T make(uint64_t i) { T v; for (uint64_t k = 0; k < i % 4 + 2; k++) v.push(Val<Outer>::make(i + k)); return v; } static void obs(Out& o, T v) { for (; !v.empty(); v.pop()) Val<Outer>::obs(o, v.front()); } };
template <> struct Val<std::optional<Outer>> { using T = std::optional<Outer>; static T make(uint64_t i) { return Val<Outer>::make(i); } static void obs(Out& o, T const& v) { Val<Outer>::obs(o, *v); } };
template <> struct Val<std::unique_ptr<Outer>> { using T = std::unique_ptr<Outer>; static T make(uint64_t i) { return std::make_unique<Outer>(Val<Outer>::make(i)); } static void obs(Out& o, T const& v) { Val<Outer>::obs(o, *v); } };
template <> struct Val<std::array<Outer, 2>> { using T = std::array<Outer, 2>; static T make(uint64_t i) { return T{Val<Outer>::make(i), Val<Outer>::make(i + 1)}; } static void obs(Out& o, T const& v) { for (auto& e : v) Val<Outer>::obs(o, e); } };
template <> struct Val<std::tuple<Outer, int, Outer>> { using T = std::tuple<Outer, int, Outer>; static T make(uint64_t i) { return T(Val<Outer>::make(i), int(i), Val<Outer>::make(i + 1)); } static void obs(Out& o, T const& v) { Val<Outer>::obs(o, std::get<0>(v)); uni::dump(o, std::get<1>(v)); Val<Outer>::obs(o, std::get<2>(v)); } };
template <> struct Val<std::unordered_map<int, Outer>> { using T = std::unordered_map<int, Outer>; static T make(uint64_t i) { T v; v[int(i)] = Val<Outer>::make(i); return v; } static void obs(Out& o, T const& v) { for (auto& e : v) { uni::dump(o, e.first); Val<Outer>::obs(o, e.second); } } };
template <> struct Val<std::map<int, Outer>> { using T = std::map<int, Outer>; static T make(uint64_t i) { T v; for (uint64_t k = 0; k < i % 4 + 1; k++) v[int(k * 3)] = Val<Outer>::make(i + k); return v; } static void obs(Out& o, T const& v) { for (auto& e : v) { uni::dump(o, e.first); Val<Outer>::obs(o, e.second); } } };
template <> struct Val<std::variant<int, Outer>> { using T = std::variant<int, Outer>; static T make(uint64_t i) { return Val<Outer>::make(i); } static void obs(Out& o, T const& v) { Val<Outer>::obs(o, std::get<1>(v)); } };
template <> struct Val<std::unique_ptr<OuterBase>> { using T = std::unique_ptr<OuterBase>;
  static T make(uint64_t i) { if (i % 2) { auto p = std::make_unique<OuterDerived>(); p->a = int(i); p->n = uni::nth<string>(i + 4); return p; } auto p = std::make_unique<OuterBase>(); p->a = int(i); return p; }
  static void obs(Out& o, T const& v) { uni::dump(o, v->a); if (auto d = dynamic_cast<OuterDerived const*>(v.get())) uni::dump(o, d->n); } };

enum Kind { SIZE, FOOT, MEM, USER, OSTREAM, OFILE, DECODE, INPLACE, ISTREAM, IFILE, CUT, WRONG, BADSIZE, KINDS };
char const* kind_name[] = {"size", "footprint", "memory", "user", "stream", "file", "decode", "inplace", "fromstream", "fromfile", "cut", "wrongtype", "badsize"};
struct Other { uint64_t x[8] = {0}; template <typename S> void serialize(S& s) { for (auto& e : x) s | e; } };

template <typename T> struct Ops {
  static uint64_t val(int slot) { return uint64_t(6 + 3 * slot); }
  static string const& bytes(int slot) {
    static std::map<int, string> cache;
    auto it = cache.find(slot);
    if (it == cache.end()) it = cache.emplace(slot, hist::in_process([slot] { T v = Val<T>::make(val(slot)); auto s = checkpoint::serialize(v); return string(s->getBuffer(), s->getSize()); })).first;
    return it->second;
  }
  static string run(int k, int slot, string const& in) {
    Out o;
    auto f = file(hist::depth());   // operations inside others use files of their own
    auto body = [&] {
      switch (k) {
        case SIZE: { T v = Val<T>::make(val(slot)); num(o, 'z', checkpoint::getSize(v)); break; }
        case FOOT: { T v = Val<T>::make(val(slot)); num(o, 'f', checkpoint::getMemoryFootprint(v)); break; }
        case MEM: { T v = Val<T>::make(val(slot)); auto s = checkpoint::serialize(v); o += string(s->getBuffer(), s->getSize()); o += text(v); break; }
        case USER: { T v = Val<T>::make(val(slot)); std::vector<char> b; checkpoint::serialize(v, [&](size_t n) { b.resize(n); return b.data(); }); o += string(b.data(), b.size()); break; }
        case OSTREAM: { T v = Val<T>::make(val(slot)); std::ostringstream os; std::ostream& out = os; checkpoint::serializeToStream(v, out); o += os.str(); break; }
        case OFILE: { T v = Val<T>::make(val(slot)); checkpoint::serializeToFile(v, f); o += api::slurp(f); break; }
        case DECODE: { auto p = checkpoint::deserialize<T>(const_cast<char*>(in.data())); o += text(*p); break; }
        case INPLACE: { T t = Val<T>::make(val(slot) + 6); checkpoint::deserializeInPlace<T>(const_cast<char*>(in.data()), &t); o += text(t); break; }
        case ISTREAM: { std::istringstream is(in); std::istream& s = is; auto p = checkpoint::deserializeFromStream<T>(s); o += text(*p); num(o, 'p', uint64_t(is.tellg())); break; }
        case IFILE: { api::spit(f, in); T t = Val<T>::make(val(slot) + 6); checkpoint::deserializeInPlaceFromFile<T>(f, &t); o += text(t); break; }
        case CUT: { std::istringstream is(in.substr(0, in.size() - 3)); std::istream& s = is; auto p = checkpoint::deserializeFromStream<T>(s); o += "no error"; break; }
        case WRONG: { std::vector<char> b(in.begin(), in.end()); b.resize(b.size() + 4 * sizeof(Other)); auto p = checkpoint::deserialize<Other>(b.data()); o += "no error"; break; }
        case BADSIZE: { string b = in; b[b.size() - 8] = char(b[b.size() - 8] ^ 0x10); auto p = checkpoint::deserialize<T>(&b[0]); o += "no error"; break; }
      }
    };
    try { body(); } catch (std::runtime_error const& e) { o += string("E:") + e.what(); }
    return o;
  }
};
// Histories. Every sequence below is run in a process of its own; each operation in it must give what it gives alone.
inline void all_after(std::vector<Op*> const& pre, std::vector<Op*> const& last) {
  std::vector<Op*> h = pre; h.push_back(nullptr);
  for (auto o : last) { h.back() = o; string e = hist::history(h); MC_CHECK(e.empty(), "%s", e.c_str()); mc::transition(h.size()); mc::nontrivial(); }
}
template <typename P> std::vector<Op*> pick(P p) { std::vector<Op*> v; for (auto& o : hist::alphabet()) if (p(o)) v.push_back(&o); return v; }
inline bool few(Op const& o) { return o.kind == FOOT || o.kind == MEM || o.kind == OFILE || o.kind == INPLACE || o.kind == ISTREAM || o.kind == CUT || o.kind == WRONG; }

// Operations on fresh memory that holds other bytes, and on a stack that does.
__attribute__((noinline)) inline void dirty_stack(int fill) { char volatile* p = static_cast<char volatile*>(__builtin_alloca(200000)); for (int i = 0; i < 200000; i++) p[i] = char(fill); }
inline string residue(Op& o) {
  hist::alone(o);
  for (int heap : {0x00, 0x5a, 0xa5, 0xff}) for (int stack : {0x00, 0x5a, 0xff}) {
    string got = hist::in_process([&] { mallopt(M_PERTURB, heap ^ 0xff); dirty_stack(stack); return o.run(); });
    mc::transition();
    if (got != o.base) return o.name + " with fresh memory full of " + std::to_string(heap) + " and stack of " + std::to_string(stack) + " gives another outcome " + hist::differ(got, o.base);
  }
  return "";
}
// Inside serialize.
inline string nested(Op& outer, Op& in, Op* deep) {
  hist::alone(outer); hist::alone(in); if (deep) hist::alone(*deep);
  std::function<string()> level2 = deep ? deep->run : nullptr;
  std::function<string()> level1 = [&] { if (deep) hist::inner() = &level2; string r = in.run(); hist::inner() = nullptr; return r; };
  uint64_t hooks = 0;
  string e = hist::in_process([&]() -> string {
    hist::inner() = &level1;
    string got = outer.run();
    hist::inner() = nullptr;
    if (got != outer.base) return outer.name + " with " + in.name + " inside gives another outcome " + hist::differ(got, outer.base);
    for (auto& r : hist::inner_log()) {
      bool is1 = r == in.base, is2 = deep && r == deep->base;
      if (!is1 && !is2) return in.name + (deep ? " or " + deep->name : string()) + " inside " + outer.name + " gives another outcome than alone " + hist::differ(r, in.base);
    }
    return string(hist::inner_log().empty() ? "" : "+");
  });
  (void)hooks;
  mc::transition();
  if (e == "+") { mc::extra("operations_run_inside_serialize", 1); return ""; }
  return e;
}

template <typename T> bool alpha(string type, bool nests = false) {
  for (int k = 0; k < KINDS; k++) for (int slot = 0; slot < 2; slot++) {
    Op o; o.type = type; o.name = type + "." + kind_name[k] + char('0' + slot); o.kind = k; o.slot = slot; o.nests = nests;
    o.prepare = [slot] { Ops<T>::bytes(slot); };
    o.run = [k, slot] { return Ops<T>::run(k, slot, k >= DECODE ? Ops<T>::bytes(slot) : string()); };
    size_t i = hist::alphabet().size();
    hist::alphabet().push_back(o);
    string n = o.name;
    auto self = [i] { return &hist::alphabet()[i]; };
    mc::add({"pairs/" + n, [self] { auto a = self(); all_after({a}, pick([a](Op& x) { return mc::thorough() || x.type == a->type || (few(x) && (mc::thorough() || x.slot)) || (EVERY_PAIR && !a->nests && !x.nests); })); }});
    mc::add({"triples/" + n, [self] { auto a = self(); for (auto b : pick([a](Op& x) { return x.type == a->type && (mc::thorough() || x.slot != a->slot || x.kind == a->kind); })) all_after({a, b}, pick([a](Op& x) { return x.type == a->type; })); }});
    mc::add({"mixed/" + n, [self] { auto a = self(); for (auto b : pick([a](Op& x) { return few(x) && x.type != a->type; })) all_after({a, b}, pick([a](Op& x) { return x.type == a->type && few(x); })); }, true});
    mc::add({"residue/" + n, [self] { string e = residue(*self()); MC_CHECK(e.empty(), "%s", e.c_str()); mc::nontrivial(); }});
    if (nests) {
      mc::add({"nested/" + n, [self] { auto a = self(); for (auto b : pick([a](Op& x) { return mc::thorough() || x.type == a->type || (x.slot && few(x)); })) { string e = nested(*a, *b, nullptr); MC_CHECK(e.empty(), "%s", e.c_str()); mc::nontrivial(); } }});
      if (mc::thorough() || (slot == 0 && few(o))) mc::add({"nested2/" + n, [self] { auto a = self();
        for (auto b : pick([a](Op& x) { return x.nests && (mc::thorough() ? few(x) : x.slot && (x.type == a->type ? few(x) : x.kind == MEM || x.kind == INPLACE)); })) for (auto c : pick([a](Op& x) { return x.slot && (mc::thorough() ? few(x) : x.kind == (x.nests ? MEM : INPLACE)); })) { string e = nested(*a, *b, c); MC_CHECK(e.empty(), "%s", e.c_str()); mc::nontrivial(); } }});
    }
  }
  return true;
}
#define TYPE(id, ...) static bool MC_CAT(reg_, id) = alpha<__VA_ARGS__>(#id);
#define OUTER(id, ...) static bool MC_CAT(reg_, id) = alpha<__VA_ARGS__>(#id, true);
#if PART == 0
TYPE(str, string) TYPE(v_str, std::vector<string>) TYPE(v_bool, std::vector<bool>) TYPE(v_enum, std::vector<E32>) TYPE(a_str, std::array<string, 2>)
#elif PART == 1
TYPE(d_int, std::deque<int>) TYPE(m_int_str, std::map<int, string>) TYPE(ums, std::unordered_multiset<int>) TYPE(q_str, std::queue<string>)
#elif PART == 2
TYPE(o_str, std::optional<string>) TYPE(var, std::variant<int, string, std::vector<int>>) TYPE(t_3, std::tuple<int, string, std::vector<short>>) TYPE(u_str, std::unique_ptr<string>) TYPE(tree, Tree)
#elif PART == 3
TYPE(l_recon, std::list<Recon>) TYPE(v_tagged, std::vector<Tagged>) TYPE(raw_array, RawArray) TYPE(thrower, Thrower)
#elif PART == 4
TYPE(u_animal, std::unique_ptr<Animal>) TYPE(v_animal, std::vector<std::unique_ptr<Animal>>) TYPE(puppy, Puppy) TYPE(u_shape, std::unique_ptr<Shape>)
#elif PART == 5
OUTER(outer, Outer) OUTER(m_outer, std::map<int, Outer>) OUTER(var_outer, std::variant<int, Outer>)
#elif PART == 6
OUTER(v_recon, std::vector<OuterRecon>) OUTER(u_outer, std::unique_ptr<OuterBase>) OUTER(q_outer, std::queue<Outer>)
#elif PART == 7
OUTER(v_outer, std::vector<Outer>) OUTER(l_outer, std::list<Outer>) OUTER(d_outer, std::deque<Outer>)
#elif PART == 8
OUTER(o_outer, std::optional<Outer>) OUTER(p_outer, std::unique_ptr<Outer>) OUTER(a_outer, std::array<Outer, 2>)
#elif PART == 9
OUTER(t_outer, std::tuple<Outer, int, Outer>) OUTER(um_outer, std::unordered_map<int, Outer>)
#endif
} // namespace
