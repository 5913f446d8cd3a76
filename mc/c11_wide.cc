// C11: hundreds of classes derived from one (-DBLOCK=n): each object comes back as its own class, whatever its number.
#define GROUP 99
#include "c11_wide.h"
#include <utility>
using namespace api;
constexpr int PER = THOROUGH ? 70 : 17;
// even ones hold an int, odd ones a string
template <int I> struct Wide : checkpoint::SerializableDerived<Wide<I>, WideBase> {
  std::conditional_t<I % 2, std::string, int> v{};
  int cls() const override { return I; }
  std::string see() const override { if constexpr (I % 2) return v; else return std::to_string(v); }
  void set(int x) override { if constexpr (I % 2) v = std::to_string(x) + "s"; else v = x; }
  template <typename S> void serialize(S& s) { s | v; wide_calls() += std::to_string(I) + ' '; }
};
namespace {
template <size_t... I> int put(std::index_sequence<I...>) { (wide_all().push_back({BLOCK * PER + int(I), [] { return static_cast<WideBase*>(new Wide<BLOCK * PER + int(I)>()); }}), ...); return 0; }
int reg = put(std::make_index_sequence<PER>());
#if BLOCK == 0
using P = std::unique_ptr<WideBase>;
void check(std::vector<P>& v, std::vector<P> const& got, char const* what) {
  MC_CHECK(got.size() == v.size(), "%s: %zu objects instead of %zu", what, got.size(), v.size());
  for (size_t i = 0; i < v.size(); i++) {
    MC_CHECK(got[i] && typeid(*got[i]) == typeid(*v[i]), "%s: an object of class %d came back as class %d", what, v[i]->cls(), got[i] ? got[i]->cls() : -1);
    MC_CHECK(got[i]->id == v[i]->id && got[i]->see() == v[i]->see(), "%s: an object of class %d has another content", what, v[i]->cls());
  }
}
// one class with every other one
mc::Registrar pairs{"classes/pairs", [] {
  auto& e = wide_all(); int n = int(e.size()), a = mc::choose(n);
  mc::note("class %d with each of %d", e[size_t(a)].cls, n); mc::state(uint64_t(a)); mc::nontrivial();
  for (int b = 0; b < n; b++) {
    std::vector<P> v; v.emplace_back(e[size_t(a)].make()); v.emplace_back(e[size_t(b)].make());
    v[0]->id = a; v[1]->id = b + 7; v[0]->set(a * 3 + 1); v[1]->set(b * 5 + 2);
    auto s = checkpoint::serialize(v);
    auto r = checkpoint::deserialize<std::vector<P>>(s->getBuffer());
    mc::transition(2);
    check(v, *r, "memory");
  }
}};
// every class through every decoder, and the levels it visits
mc::Registrar singles{"classes/transports", [] {
  auto& e = wide_all(); int n = int(e.size()), a = mc::choose(n);
  std::vector<P> v; v.emplace_back(e[size_t(a)].make()); v[0]->id = a; v[0]->set(a + 1000);
  mc::nontrivial(); mc::state(v[0]->see());
  wide_calls().clear(); std::string bytes = encode_mem(v), one = std::to_string(v[0]->cls()) + ' ';
  MC_CHECK(wide_calls() == one + one, "sizing and packing visited %s instead of twice %s", wide_calls().c_str(), one.c_str());
  for (int d = 0; d < DECS; d++) {
    wide_calls().clear();
    auto r = decode<std::vector<P>>(bytes, d, +[] { return std::make_unique<std::vector<P>>(); });
    MC_CHECK(wide_calls() == one, "%s visited %s instead of %s", dec_name(d), wide_calls().c_str(), one.c_str());
    check(v, *r, dec_name(d));
  }
  checkpoint::getMemoryFootprint(v);
}};
#endif
} // namespace
