// C14: the footprint is the one the counting rules give, whatever the offset, and computing it changes nothing.
#include "api.h"
namespace check {
using namespace api;
template <typename T> void footprint(T& v) {
  std::string want = dumped(v); Caps c0; caps(c0, v);
  mc::state(want + std::to_string(fp(v)));
  mc::note("value %s", show(want).c_str());
  size_t rule = std::max(fp(v), sizeof(T));
  for (size_t off : {size_t(0), size_t(1), size_t(12345), size_t(1) << 40}) {
    size_t got = off ? checkpoint::getMemoryFootprint(v, off) : checkpoint::getMemoryFootprint(v);
    mc::transition();
    MC_CHECK(got == off + rule, "footprint with offset %zu is %zu, the rules give %zu", off, got, off + rule);
  }
  same(v, want, "the object after footprinting");
  Caps c1; caps(c1, v);
  MC_CHECK(c0 == c1, "footprinting changed a capacity");
}
template <typename T> struct Register {
  static void run(std::string id, Bounds b, Bounds) {
    mc::add({"value/" + id, [b] { begin(); With w(tier(b).len, tier(b).leaf); T v = gen<T>(); mc::nontrivial(); footprint(v); }});
    if constexpr (HasSized<T>::value) mc::add({"size/" + id, [] {
      begin(); size_t n = choose_size<T>(30, mc::thorough() ? 99 : 13);
      T v = Ty<T>::sized(n, 3); mc::nontrivial(); footprint(v);
      // the footprint of the decoded twin follows the same rules
      auto r = decode_mem<T>(encode_mem(v), D_MEM); footprint(*r);
    }});
  }
};
} // namespace check
