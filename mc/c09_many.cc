// C09: hundreds of types with the same layout all have their own identity; framing bytes are all checked.
#define GROUP 99
#include "c09_ids.h"
#include <utility>
using namespace check;
namespace {
mc::Registrar many{"many-types", [] {
  auto& e = many_all();
  int const COUNT = int(e.size());
  int i = mc::choose(COUNT);
  std::string b = e[size_t(i)].make();
  mc::state(b); mc::nontrivial(); mc::note("type %d of %d", i, COUNT);
  MC_CHECK(e[size_t(i)].read(b) == 0, "type %d does not accept its own bytes", i);
  for (int j = 0; j < COUNT; j++) {
    if (j == i) continue;
    mc::transition();
    int r = e[size_t(j)].read(b);
    MC_CHECK(r != 0, "type %d is accepted as type %d", i, j);
    MC_CHECK(r == 1, "type %d decoded as type %d: outcome %d", i, j, r);
  }
}};

// Framing: the bytes that are the same for two values that differ in every byte of their content.
struct In { int32_t a = 0; int64_t b = 0; template <typename F> void fields(F f) { f(a); f(b); } template <typename S> void serialize(S& s) { s | a | b; } };
struct Mid { In x, y; char c = 0; template <typename F> void fields(F f) { x.fields(f); y.fields(f); f(c); } template <typename S> void serialize(S& s) { s | x | c | y; } };
template <typename T> void set_all(T& v, unsigned char byte) { v.fields([&](auto& m) { memset(&m, byte, sizeof m); }); }
void set_all(int32_t& v, unsigned char b) { memset(&v, b, sizeof v); }
void set_all(double& v, unsigned char b) { memset(&v, b, sizeof v); }
template <typename A, typename D> void set_all(std::pair<A, D>& v, unsigned char b) { set_all(v.first, b); set_all(v.second, b); }
template <typename E, size_t N> void set_all(std::array<E, N>& v, unsigned char b) { for (auto& e : v) set_all(e, b); }
template <typename... A> void set_all(std::tuple<A...>& v, unsigned char b) { std::apply([&](auto&... e) { (set_all(e, b), ...); }, v); }
template <typename T> void framing(char const* name) {
  mc::add({std::string("framing/") + name, [] {
    T v{}, w{};
    set_all(v, 0x11); set_all(w, 0xee);
    std::string a = encode_mem(v), b = encode_mem(w);
    MC_CHECK(a.size() == b.size(), "sizes differ");
    std::vector<size_t> frame;
    for (size_t i = 0; i < a.size(); i++) if (a[i] == b[i]) frame.push_back(i);
    MC_CHECK(frame.size() >= 12, "no framing");
    size_t at = frame[size_t(mc::choose(int(frame.size())))];
    mc::note("all 255 changes of byte %zu of %zu", at, a.size());
    mc::nontrivial(); mc::state(uint64_t(at));
    for (int x = 1; x < 256; x++) {
      std::string c = a; c[at] = char(c[at] ^ x);
      for (int d : {D_MEM, D_INPLACE, D_STREAM, D_OBJBUF}) {
        mc::transition();
        try { auto r = decode<T>(c, d, +[] { return std::unique_ptr<T>(new T{}); }); }
        catch (std::runtime_error&) { continue; }
        mc::fail("byte %zu of %zu (framing) changed from %02x to %02x: accepted by %s", at, a.size(), (unsigned char)a[at], (unsigned char)c[at], dec_name(d));
      }
    }
  }});
}
int reg = (framing<int32_t>("int"), framing<double>("double"), framing<In>("struct"), framing<Mid>("nested"), framing<std::pair<int32_t, In>>("pair"),
           framing<std::tuple<In, int32_t, Mid>>("tuple"), framing<std::array<In, 2>>("array"), framing<std::array<int32_t, 4>>("array-int"), 0);
// the first four and last eight bytes frame any object, whatever is inside
template <typename T> void outer(char const* name) {
  mc::add({std::string("outer/") + name, [] {
    begin();
    T v = nth<T>(uint64_t(2 + mc::choose(2)));
    std::string a = encode_mem(v);
    int k = mc::choose(12); size_t at = k < 4 ? size_t(k) : a.size() - 12 + size_t(k);
    mc::note("all 255 changes of byte %zu of %zu", at, a.size()); mc::nontrivial(); mc::state(uint64_t(at));
    for (int x = 1; x < 256; x++) {
      std::string c = a; c[at] = char(c[at] ^ x);
      for (int d : {D_MEM, D_INPLACE, D_STREAM}) {
        mc::transition();
        try { auto r = decode<T>(c, d); } catch (std::runtime_error&) { continue; }
        mc::fail("byte %zu of %zu (framing) changed from %02x to %02x: accepted by %s", at, a.size(), (unsigned char)a[at], (unsigned char)c[at], dec_name(d));
      }
    }
  }});
}
int reg2 = (outer<std::string>("string"), outer<std::vector<std::string>>("vector"), outer<std::map<int, std::string>>("map"), outer<std::unique_ptr<std::string>>("unique_ptr"),
            outer<std::variant<int, std::string>>("variant"), outer<Intrusive>("user"), outer<Tree>("tree"), 0);

// Polymorphic content is framed like anything else.
struct PA : checkpoint::SerializableBase<PA> { int a = 1; PA() = default; explicit PA(checkpoint::SERIALIZE_CONSTRUCT_TAG) {} virtual ~PA() = default; template <typename S> void serialize(S& s) { s | a; } };
struct PA1 : checkpoint::SerializableDerived<PA1, PA> { int b = 2; PA1() = default; explicit PA1(checkpoint::SERIALIZE_CONSTRUCT_TAG) {} template <typename S> void serialize(S& s) { s | b; } };
struct PB : checkpoint::SerializableBase<PB> { int a = 1; PB() = default; explicit PB(checkpoint::SERIALIZE_CONSTRUCT_TAG) {} virtual ~PB() = default; template <typename S> void serialize(S& s) { s | a; } };
struct PB1 : checkpoint::SerializableDerived<PB1, PB> { int b = 2; PB1() = default; explicit PB1(checkpoint::SERIALIZE_CONSTRUCT_TAG) {} template <typename S> void serialize(S& s) { s | b; } };
template <typename B, typename D> std::unique_ptr<B> mk(uint64_t i) { return i == 1 ? std::unique_ptr<B>() : i % 2 ? std::unique_ptr<B>(new B) : std::unique_ptr<B>(new D); }
template <typename B, typename D> struct PTy {
  static std::unique_ptr<B> nth(uint64_t i) { return mk<B, D>(i); }
  static void dump(Out& o, std::unique_ptr<B> const& v) { if (!v) { o += '0'; return; } num(o, 'P', uint64_t(v->a)); if (auto d = dynamic_cast<D const*>(v.get())) num(o, 'D', uint64_t(d->b)); }
};
}
namespace uni {
template <> struct Ty<std::unique_ptr<PA>> : PTy<PA, PA1> {};
template <> struct Ty<std::unique_ptr<PB>> : PTy<PB, PB1> {};
}
namespace {
int reg3 = (Register<std::unique_ptr<PA>>::run("poly_a", {}, {}), Register<std::unique_ptr<PB>>::run("poly_b", {}, {}),
            Register<std::vector<std::unique_ptr<PA>>>::run("v_poly_a", {}, {}), Register<std::vector<std::unique_ptr<PB>>>::run("v_poly_b", {}, {}), 0);
}
