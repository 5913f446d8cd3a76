// C01: memory round trip. Every value within the bounds, every alignment of the input buffer, a ladder of sizes.
#include "api.h"
namespace check {
using namespace api;
template <typename T> void roundtrip(T& v, bool all_alignments) {
  std::string want = dumped(v);
  mc::state(want);
  mc::note("value %s", show(want).c_str());
  Caps c0; caps(c0, v);
  auto info = checkpoint::serialize(v);
  mc::transition();
  std::string bytes(info->getBuffer(), info->getSize());
  auto verify = [&](T& got, char const* what) {
    same(got, want, what);
    Caps c; caps(c, got);
    MC_CHECK(c.size() == c0.size(), "%s: %zu vectors instead of %zu", what, c.size(), c0.size());
    for (size_t i = 0; i < c.size(); i++) MC_CHECK(c[i] >= c0[i], "%s: vector %zu has capacity %zu, the original had %zu", what, i, c[i], c0[i]);
  };
  { auto r = checkpoint::deserialize<T>(info->getBuffer()); verify(*r, "memory"); }
  { auto r = checkpoint::deserialize<T>(std::move(info)); verify(*r, "returned info"); }
  for (int d : {D_OBJBUF, D_INPLACE}) { auto r = decode_mem<T>(bytes, d); verify(*r, dec_name(d)); }
  for (size_t off = 1; off < (all_alignments ? 16 : 2); off++) {
    // packed into and unpacked from a buffer at this alignment
    std::unique_ptr<Block> b;
    auto s = checkpoint::serialize(v, [&](size_t n) { b.reset(new Block(n, off)); memset(b->p, 0x3c, n); return b->p; });
    auto r = checkpoint::deserialize<T>(b->p);
    mc::transition(2);
    verify(*r, "unaligned buffer");
  }
  same(v, want, "the original after serializing");
}
template <typename T> struct Register {
  static void run(std::string id, Bounds b, Bounds) {
    mc::add({"value/" + id, [b] {
      begin(); With w(tier(b).len, tier(b).leaf);
      T v = gen<T>();
      mc::nontrivial();
      roundtrip(v, mc::current_execution() % 16 == 0);
    }});
    if constexpr (HasSized<T>::value) {
      mc::add({"size/" + id, [] {
        // 0..64, then around every power of two
        begin();
        size_t n = choose_size<T>(64);
        T v = Ty<T>::sized(n, 3);
        mc::nontrivial();
        roundtrip(v, false);
      }});
    }
    if constexpr (std::is_arithmetic<T>::value || std::is_enum<T>::value) {
      mc::add({"pattern/" + id, [] {
        // every value of 8- and 16-bit types; for wider ones every single-bit and all-but-one-bit pattern, per byte values
        begin();
        constexpr size_t N = std::is_same<T, long double>::value ? 10 : sizeof(T);
        T v{}; unsigned char raw[sizeof(T)] = {};
        if (std::is_same<T, bool>::value || std::is_same<T, EB>::value) raw[0] = (unsigned char)mc::choose(2);
        else if (N == 1) raw[0] = (unsigned char)mc::choose(256);
        else if (N == 2) { int hi = mc::choose(256); raw[0] = (unsigned char)mc::choose(256); raw[1] = (unsigned char)hi; }
        else {
          int kind = mc::choose(3), pos = mc::choose(int(N));
          if (kind < 2) { int bit = mc::choose(8); for (size_t i = 0; i < N; i++) raw[i] = kind ? 0xff : 0; raw[pos] ^= (unsigned char)(1 << bit); }
          else { unsigned x = unsigned(mc::choose(256)); for (size_t i = 0; i < N; i++) raw[i] = (unsigned char)(x * (i + 1) + pos); }
        }
        memcpy(&v, raw, N);
        mc::nontrivial();
        auto s = checkpoint::serialize(v);
        auto r = checkpoint::deserialize<T>(s->getBuffer());
        mc::transition(2);
        std::string want(reinterpret_cast<char*>(raw), N);
        mc::state(want);
        MC_CHECK(memcmp(r.get(), raw, N) == 0, "pattern %s restored as %s", show(want).c_str(), show(std::string(reinterpret_cast<char*>(r.get()), N)).c_str());
      }});
    }
  }
};
} // namespace check
