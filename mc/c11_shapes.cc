// C11: a wide hierarchy, deep ones, and many hierarchies side by side.
#define GROUP 99
#include "api.h"
using namespace api;
namespace {
std::string g_calls;
struct WB : checkpoint::SerializableBase<WB> { int id = 0; virtual ~WB() = default; virtual int cls() const { return -1; } virtual int extra() const { return 0; } virtual void set(int) {} template <typename S> void serialize(S& s) { s | id; g_calls += "B"; } };
template <int I> struct W : checkpoint::SerializableDerived<W<I>, WB> { int v = 0; int cls() const override { return I; } int extra() const override { return v; } void set(int x) override { v = x; } template <typename S> void serialize(S& s) { s | v; g_calls += "d"; } };
template <int I> struct Make { static WB* at(int i) { return i == I ? static_cast<WB*>(new W<I>()) : Make<I - 1>::at(i); } };
template <> struct Make<-1> { static WB* at(int) { return new WB(); } };
constexpr int WIDE = 24;
// chains: CRTP and macros
template <int I> struct C : checkpoint::SerializableDerived<C<I>, C<I - 1>> { int v = 0; void set(int x) override { C<I - 1>::set(x); v = x + I; } void get(std::string& o) const override { C<I - 1>::get(o); o += "," + std::to_string(v); } int cls() const override { return I; } template <typename S> void serialize(S& s) { s | v; g_calls += char('a' + I); } };
template <> struct C<0> : checkpoint::SerializableBase<C<0>> { std::string v; virtual ~C() = default; virtual void set(int x) { v = std::to_string(x); } virtual void get(std::string& o) const { o += v; } virtual int cls() const { return 0; } template <typename S> void serialize(S& s) { s | v; g_calls += 'a'; } };
template <int I> struct D : D<I - 1> { std::vector<int> v; checkpoint_virtual_serialize_derived_from(D<I - 1>) void set(int x) override { D<I - 1>::set(x); v.assign(size_t(I % 3), x); } void get(std::string& o) const override { D<I - 1>::get(o); for (int x : v) o += "," + std::to_string(x); o += ";"; } int cls() const override { return I; } template <typename S> void serialize(S& s) { s | v; g_calls += char('a' + I); } };
template <> struct D<0> { std::string v; checkpoint_virtual_serialize_root() virtual ~D() = default; virtual void set(int x) { v = std::to_string(x); } virtual void get(std::string& o) const { o += v; } virtual int cls() const { return 0; } template <typename S> void serialize(S& s) { s | v; g_calls += 'a'; } };
constexpr int DEEP = 7;
template <template <int> class H, int I> struct At { static H<0>* at(int i) { return i == I ? static_cast<H<0>*>(new H<I>()) : At<H, I - 1>::at(i); } };
template <template <int> class H> struct At<H, 0> { static H<0>* at(int) { return new H<0>(); } };
template <typename B, typename G> void round(std::vector<std::unique_ptr<B>>& v, G get, std::string const& calls) {
  std::string want; for (auto& p : v) { want += std::to_string(p->cls()) + "="; get(want, *p); want += "|"; }
  mc::note("%s", show(want).c_str()); mc::state(want); mc::nontrivial();
  using T = std::vector<std::unique_ptr<B>>;
  g_calls.clear(); std::string bytes = encode_mem(v);
  MC_CHECK(g_calls == calls + calls, "levels visited %s instead of twice %s", g_calls.c_str(), calls.c_str());
  for (int d = 0; d < DECS; d++) {
    g_calls.clear();
    auto r = decode<T>(bytes, d, +[] { return std::make_unique<T>(); });
    MC_CHECK(g_calls == calls, "%s: levels visited %s instead of %s", dec_name(d), g_calls.c_str(), calls.c_str());
    std::string got; for (auto& p : *r) { got += std::to_string(p->cls()) + "="; get(got, *p); got += "|"; }
    same_dump(got, want, dec_name(d));
  }
}
#if SHAPE == 0
mc::Registrar r1{"wide", [] {
  std::vector<std::unique_ptr<WB>> v;
  int a = mc::choose(WIDE + 1) - 1, b = mc::choose(WIDE + 1) - 1;
  v.emplace_back(Make<WIDE - 1>::at(a)); v.emplace_back(Make<WIDE - 1>::at(b));
  v[0]->id = 5; v[1]->id = 6; v[0]->set(55); v[1]->set(66);
  round(v, [](std::string& o, WB& w) { o += std::to_string(w.id) + "/" + std::to_string(w.extra()); }, std::string(a < 0 ? "B" : "Bd") + (b < 0 ? "B" : "Bd"));
}};
#else
template <template <int> class H> void deep() {
  int a = mc::choose(DEEP + 1), b = mc::choose(DEEP + 1);
  std::vector<std::unique_ptr<H<0>>> v; v.emplace_back(At<H, DEEP>::at(a)); v.emplace_back(At<H, DEEP>::at(b)); v[0]->set(7); v[1]->set(8);
  std::string calls; for (int i = 0; i <= a; i++) calls += char('a' + i);
  for (int i = 0; i <= b; i++) calls += char('a' + i);
  round(v, [](std::string& o, H<0>& w) { w.get(o); }, calls);
}
#if SHAPE == 1
mc::Registrar r2{"deep/crtp", deep<C>};
#else
mc::Registrar r3{"deep/macros", deep<D>};
#endif
#endif
}
