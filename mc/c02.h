// C02: the four sizes are one number, and only those bytes are touched.
#include "api.h"
namespace check {
using namespace api;
struct CountingStream {   // the smallest stream the interface asks for
  std::string data; size_t writes = 0;
  void write(char const* p, std::streamsize n) { data.append(p, size_t(n)); writes++; }
  std::streamsize tellp() { return std::streamsize(data.size()); }
};
template <typename T> void sizes(T& v) {
  std::string want = dumped(v);
  mc::state(want);
  mc::note("value %s", show(want).c_str());
  size_t const n = checkpoint::getSize(v);
  // library-allocated, no callback and null-returning callback
  auto a = checkpoint::serialize(v);
  MC_CHECK(a->getSize() == n, "getSize() is %zu but SerializedInfo says %zu", n, a->getSize());
  std::string ref(a->getBuffer(), n);
  size_t calls = 0, asked = 0;
  auto c = checkpoint::serialize(v, [&](size_t k) -> char* { calls++; asked = k; return nullptr; });
  MC_CHECK(calls == 1, "the buffer callback was called %zu times", calls);
  MC_CHECK(asked == n, "the buffer callback was asked for %zu bytes, getSize() is %zu", asked, n);
  MC_CHECK(c->getSize() == n, "null callback: SerializedInfo says %zu, getSize() is %zu", c->getSize(), n);
  MC_CHECK(c->getBuffer() != nullptr, "null callback: no buffer");
  same_bytes(std::string(c->getBuffer(), n), ref, "null callback");
  mc::transition(3);
  // a user's buffer, longer than needed, with guard bytes, at several offsets and with two different fillings
  for (size_t off : {size_t(0), size_t(1), size_t(7)}) {
    std::string got[2];
    for (int fill = 0; fill < 2; fill++) {
      constexpr size_t G = 64;
      Block b(n + 2 * G, off);
      memset(b.p, fill ? 0xff : 0x00, b.n);
      calls = 0;
      char* mine = b.p + G;
      auto u = checkpoint::serialize(v, [&](size_t k) { calls++; asked = k; return mine; });
      mc::transition();
      MC_CHECK(calls == 1, "user buffer: the callback was called %zu times", calls);
      MC_CHECK(asked == n, "user buffer: asked for %zu bytes, getSize() is %zu", asked, n);
      MC_CHECK(u->getBuffer() == mine, "user buffer: getBuffer() is not the pointer the callback returned");
      MC_CHECK(u->getSize() == n, "user buffer: size %zu, expected %zu", u->getSize(), n);
      u.reset();
      for (size_t i = 0; i < b.n; i++)
        if (i < G || i >= G + n) MC_CHECK((unsigned char)b.p[i] == (fill ? 0xff : 0), "user buffer: byte %zd outside the buffer was written", ssize_t(i) - ssize_t(G));
      got[fill] = std::string(mine, n);
    }
    same_bytes(got[0], ref, "user buffer (zero filled)");
    same_bytes(got[1], ref, "user buffer (filled with ones)");
  }
  // an exact heap block: writes and reads beyond it stop the process (sanitizer)
  {
    Block b(n);
    { auto u = checkpoint::serialize(v, [&](size_t) { return b.p; }); }
    for (int d : {D_MEM, D_OBJBUF, D_INPLACE}) { auto r = decode<T>(b.str(), d); same(*r, want, dec_name(d)); }
  }
  // file and streams
  checkpoint::serializeToFile(v, path());
  struct stat st; MC_CHECK(stat(path().c_str(), &st) == 0, "file missing");
  MC_CHECK(size_t(st.st_size) == n, "the file has %zu bytes, getSize() is %zu", size_t(st.st_size), n);
  std::ostringstream os; std::ostream& o = os; checkpoint::serializeToStream(v, o);
  MC_CHECK(os.str().size() == n, "the stream received %zu bytes, getSize() is %zu", os.str().size(), n);
  mc::transition(2);
  // decoding from a stream consumes exactly n bytes
  { std::istringstream in(os.str() + "TAIL"); std::istream& i = in; auto r = checkpoint::deserializeFromStream<T>(i); MC_CHECK(size_t(in.tellg()) == n, "decoding consumed %zd bytes of %zu", ssize_t(in.tellg()), n); mc::transition(); }
  MC_CHECK(checkpoint::getSize(v) == n, "getSize() changed");
}
template <typename T> struct Register {
  static void run(std::string id, Bounds b, Bounds) {
    mc::add({"value/" + id, [b] { begin(); With w(tier(b).len, tier(b).leaf); T v = gen<T>(); mc::nontrivial(); sizes(v); }});
    if constexpr (HasSized<T>::value) mc::add({"size/" + id, [] {
      begin(); size_t n = choose_size<T>(9, mc::thorough() ? 99 : 12);
      T v = Ty<T>::sized(n, 3); mc::nontrivial(); sizes(v);
    }});
  }
};
} // namespace check
