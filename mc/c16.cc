// C16: threads that work on distinct objects, or decode one shared buffer, get what they would get alone.
// Every scenario is a set of operations run by controlled threads; all schedules within the preemption bound.
#include "ops.h"
#include "ctlsched.h"
#ifndef PART
#define PART 0
#endif
namespace {
using sched::Body;

enum Kind { OBSERVE, DECODE, STREAM, TOFILE, FAIL, KINDS };
char const* kind_name[] = {"observe", "decode", "stream", "file", "fail"};

// Each thread's value: of the same type and shape class, but another one.
template <typename T> struct Ops {
  static uint64_t val(int slot) { return uint64_t(6 + 3 * slot); }
  static string bytes(int slot) {
    static std::map<int, string> cache;
    auto it = cache.find(slot);
    if (it == cache.end()) it = cache.emplace(slot, sched::in_process([slot] { T v = Val<T>::make(val(slot)); auto s = checkpoint::serialize(v); return string(s->getBuffer(), s->getSize()); })).first;
    return it->second;
  }
  static string observe(int slot) {
    T v = Val<T>::make(val(slot)); Out o;
    guarded(o, [&] { num(o, 'z', checkpoint::getSize(v)); });
    guarded(o, [&] { num(o, 'f', checkpoint::getMemoryFootprint(v)); });
    guarded(o, [&] { auto s = checkpoint::serialize(v); o += string(s->getBuffer(), s->getSize()); });
    guarded(o, [&] { std::vector<char> b; checkpoint::serialize(v, [&](size_t n) { b.resize(n); return b.data(); }); o += string(b.data(), b.size()); });
    o += text(v);
    return o;
  }
  static string decode(int slot, string const& in) {    // slot: whose bytes these are
    Out o;
    guarded(o, [&] { auto p = checkpoint::deserialize<T>(const_cast<char*>(in.data())); o += text(*p); });
    guarded(o, [&] { T t = Val<T>::make(val(slot) + 6); checkpoint::deserializeInPlace<T>(const_cast<char*>(in.data()), &t); o += text(t); });
    return o;
  }
  static string stream(int slot) {
    T v = Val<T>::make(val(slot)); Out o;
    std::ostringstream os; std::ostream& out = os;
    guarded(o, [&] { checkpoint::serializeToStream(v, out); });
    o += os.str();
    std::istringstream is(os.str()); std::istream& in = is;
    guarded(o, [&] { auto p = checkpoint::deserializeFromStream<T>(in); o += text(*p); });
    return o;
  }
  static string to_file(int slot) {
    T v = Val<T>::make(val(slot)); Out o;
    guarded(o, [&] { checkpoint::serializeToFile(v, file(slot)); });
    o += api::slurp(file(slot));
    guarded(o, [&] { auto p = checkpoint::deserializeFromFile<T>(file(slot)); o += text(*p); });
    guarded(o, [&] { T t = Val<T>::make(val(slot) + 6); checkpoint::deserializeInPlaceFromFile<T>(file(slot), &t); o += text(t); });
    return o;
  }
  struct Other { uint64_t x[8] = {0}; template <typename S> void serialize(S& s) { for (auto& e : x) s | e; } };
  static string failing(int slot, string const& in) {
    Out o;
    std::vector<char> padded(in.begin(), in.end()); padded.resize(in.size() + sizeof(Other) + 64 * 16);
    guarded(o, [&] { auto p = checkpoint::deserialize<Other>(padded.data()); o += "no error"; });
    guarded(o, [&] { std::istringstream is(in.substr(0, in.size() - 3)); std::istream& s = is; auto p = checkpoint::deserializeFromStream<T>(s); o += "no error"; });
    guarded(o, [&] { Uneven u; u.a = slot; auto s = checkpoint::serialize(u); o += "no error"; });
    guarded(o, [&] { auto p = checkpoint::deserializeFromFile<T>(file(slot) + "missing"); o += "no error"; });
    return o;
  }
  static Body body(int k, int slot) {
    switch (k) {
      case OBSERVE: return [slot] { return observe(slot); };
      case DECODE: { string b = bytes(slot); return [slot, b] { return decode(slot, b); }; }
      case STREAM: return [slot] { return stream(slot); };
      case TOFILE: return [slot] { return to_file(slot); };
      default: { string b = bytes(slot); return [slot, b] { return failing(slot, b); }; }
    }
  }
};
inline void outcome(sched::Stats const& s) {
  mc::extra("schedules", s.schedules); mc::extra("scheduling_points", s.points); mc::extra("shared_granules", s.shared); mc::extra("context_switches", s.switches); mc::extra("memory_accesses", s.accesses);
  static char const* done[] = {"complete_with_0_preemptions", "complete_with_1_preemption", "complete_with_2_preemptions", "complete_with_3_preemptions"}; mc::extra(done[std::min(s.bound, 3)], s.capped ? 0 : 1);
  if (s.capped) mc::extra("capped_at_schedules", 1);
  mc::note("%llu schedules, %llu shared granules, bound %d", (unsigned long long)s.schedules, (unsigned long long)s.shared, s.bound);
}
// The outcome of each body alone, in a process of its own.
inline void together(std::vector<Body> const& b, int bound, bool sys = false) {
  std::vector<string> want;
  for (auto& x : b) { want.push_back(sched::alone(x)); MC_CHECK(sched::alone(x) == want.back(), "an operation alone gives two different outcomes"); mc::state(want.back()); }
  mc::nontrivial();
  outcome(sched::explore(b, want, mc::thorough() ? bound + 1 : bound, sys, mc::thorough() ? 40000 : 1500));
}
using Make = Body (*)(int, int);
struct Entry { string name; Make make; };
inline std::vector<Entry>& entries() { static std::vector<Entry> v; return v; }

template <typename T> bool add(string name) {
  entries().push_back({name, &Ops<T>::body});
  for (int a = 0; a < KINDS; a++) for (int b = a; b < KINDS; b++)
    mc::add({"same/" + name + "/" + kind_name[a] + "+" + kind_name[b], [a, b] { together({Ops<T>::body(a, 0), Ops<T>::body(b, 1)}, 2, a == TOFILE && b == TOFILE); }});
  // one immutable buffer decoded by several threads
  mc::add({"shared/" + name, [] { string* buf = new string(Ops<T>::bytes(0)); auto d = [buf](int slot) { return Body([buf, slot] { (void)slot; return Ops<T>::decode(0, *buf); }); }; together({d(0), d(1)}, 2); delete buf; }});
  mc::add({"three/" + name, [] { together({Ops<T>::body(OBSERVE, 0), Ops<T>::body(DECODE, 1), Ops<T>::body(STREAM, 2)}, 1); }});
  return true;
}
#define TYPE(id, ...) static bool MC_CAT(reg_, id) = add<__VA_ARGS__>(#id);
#if PART == 0
TYPE(int_t, int) TYPE(str, string) TYPE(e32, E32) TYPE(dsec, std::chrono::duration<double>) TYPE(v_int, std::vector<int>) TYPE(v_bool, std::vector<bool>) TYPE(v_str, std::vector<string>) TYPE(v_enum, std::vector<E32>)
#elif PART == 1
TYPE(l_str, std::list<string>) TYPE(d_int, std::deque<int>) TYPE(a_str, std::array<string, 2>) TYPE(q_str, std::queue<string>) TYPE(m_int_str, std::map<int, string>) TYPE(s_user, std::set<Intrusive>)
#elif PART == 2
TYPE(um, std::unordered_map<int, string>) TYPE(ums, std::unordered_multiset<int>) TYPE(o_str, std::optional<string>) TYPE(var, std::variant<int, string, std::vector<int>>) TYPE(t_3, std::tuple<int, string, std::vector<short>>) TYPE(p_is, std::pair<int, string>)
#elif PART == 3
TYPE(u_str, std::unique_ptr<string>) TYPE(tree, Tree) TYPE(l_recon, std::list<Recon>) TYPE(v_tagged, std::vector<Tagged>) TYPE(move_only, MoveOnly) TYPE(raw_array, RawArray) TYPE(nonin, NonIntrusive)
#elif PART == 4
TYPE(u_animal, std::unique_ptr<Animal>) TYPE(v_animal, std::vector<std::unique_ptr<Animal>>) TYPE(puppy, Puppy) TYPE(u_shape, std::unique_ptr<Shape>) TYPE(thrower, Thrower)
MC_SCENARIO("footprint/plain", [] {
  auto f = [](int slot) { return Body([slot] { Plain p; std::vector<Plain> v(size_t(slot) + 2); return std::to_string(checkpoint::getMemoryFootprint(p)) + " " + std::to_string(checkpoint::getMemoryFootprint(v)); }); };
  together({f(0), f(1)}, 2); });
MC_SCENARIO("footprint/shared_ptr", [] {
  auto f = [](int slot) { return Body([slot] { auto p = std::make_shared<string>(size_t(slot) + 30, 'x'); auto q = std::make_shared<std::shared_ptr<string>>(p); return std::to_string(checkpoint::getMemoryFootprint(q)); }); };
  together({f(0), f(1)}, 2); });
#elif PART == 5
// different types against each other
template <typename A, typename D> static void cross(string n, string m) {
  for (int a = 0; a < KINDS; a++) for (int b = 0; b < KINDS; b++)
    mc::add({"cross/" + n + "." + kind_name[a] + "+" + m + "." + kind_name[b], [a, b] { together({Ops<A>::body(a, 0), Ops<D>::body(b, 1)}, 2); }});
}
template <typename A, typename... R> static void crosses(std::vector<string> names, size_t i = 0) {
  if constexpr (sizeof...(R) > 0) {
    size_t j = i + 1;
    (cross<A, R>(names[i], names[j++]), ...);
    crosses<R...>(names, i + 1);
  }
}
static bool reg = (crosses<std::vector<string>, std::map<int, string>, std::unique_ptr<Animal>, std::unique_ptr<Shape>, std::variant<int, string, std::vector<int>>, std::list<Recon>, std::queue<string>>({"v_str", "map", "animal", "shape", "variant", "recon", "queue"}), true);
#endif
} // namespace
