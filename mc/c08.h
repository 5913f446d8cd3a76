// C08: every proper prefix of every serialized value is rejected with a runtime_error, by every file and stream decoder.
#include "api.h"
namespace check {
using namespace api;
template <typename T> bool rejects(std::function<void()> f, char const* what, size_t k, size_t n) {
  try { f(); }
  catch (std::runtime_error& e) { return true; }
  catch (mc::Violation&) { throw; }
  catch (std::exception& e) { mc::fail("%s: a prefix of %zu of %zu bytes ended with %s (%s), not a runtime_error", what, k, n, typeid(e).name(), e.what()); }
  mc::fail("%s: a prefix of %zu of %zu bytes was accepted", what, k, n);
}
template <typename T> struct Register {
  static void prefix(std::string const& bytes, std::string const& want, size_t k, int d, uint64_t target) {
    std::string cut = bytes.substr(0, k);
    mc::transition();
    switch (d) {
      case 0: rejects<T>([&] { spit(path(), cut); auto r = checkpoint::deserializeFromFile<T>(path()); }, "file", k, bytes.size()); break;
      case 1: rejects<T>([&] { std::istringstream i(cut); std::istream& is = i; auto r = checkpoint::deserializeFromStream<T>(is); }, "stream", k, bytes.size()); break;
      case 2: case 3: {
        T t = nth<T>(target);
        if (d == 2) { spit(path(), cut); rejects<T>([&] { checkpoint::deserializeInPlaceFromFile<T>(path(), &t); }, "file in place", k, bytes.size()); }
        else rejects<T>([&] { std::istringstream i(cut); std::istream& is = i; checkpoint::deserializeInPlaceFromStream<T>(is, &t); }, "stream in place", k, bytes.size());
        if (k % 2) {   // otherwise it is just destroyed
          Block b(bytes);
          checkpoint::deserializeInPlace<T>(b.p, &t);
          same(t, want, "target of a failed in-place decode, decoded again");
        }
        break;
      }
      case 4: {   // a truncated object after a complete one in the same stream
        std::istringstream i(bytes + cut); std::istream& is = i;
        auto r = checkpoint::deserializeFromStream<T>(is); same(*r, want, "complete object before a truncated one");
        rejects<T>([&] { auto q = checkpoint::deserializeFromStream<T>(is); }, "stream, second object", k, bytes.size());
        break;
      }
      case 5: {   // a file stream
        spit(path(), cut); std::ifstream i(path(), std::ios::binary);
        rejects<T>([&] { auto q = checkpoint::deserializeFromStream<T>(i); }, "file stream", k, bytes.size());
        break;
      }
      default: {  // a stream that throws by itself
        std::istringstream i(cut); i.exceptions(std::ios::failbit | std::ios::badbit | std::ios::eofbit); std::istream& is = i;
        rejects<T>([&] { auto q = checkpoint::deserializeFromStream<T>(is); }, "throwing stream", k, bytes.size());
      }
    }
  }
  static void run(std::string id, Bounds b, Bounds pb) {
    mc::add({"prefix/" + id, [pb] {
      begin(); With w(tier(pb).len, tier(pb).leaf);
      T v = gen<T>();
      std::string bytes = encode(v), want = dumped(v);
      size_t n = bytes.size();
      mc::state(want);
      if (want != dumped(nth<T>(5))) mc::nontrivial();
      mc::note("all %zu prefixes of %s", n, show(want).c_str());
      size_t step = n > 2000 ? n / 500 : 1;
      for (int d = 0; d < 7; d++)
        for (size_t k = 0; k < n; k += (k > 40 && k + 40 + step < n) ? step : 1) prefix(bytes, want, k, d, 5);
      for (int d = 0; d < DECS; d++) { auto r = decode<T>(bytes, d); same(*r, want, "complete input after truncated ones"); }
    }});
    if constexpr (HasSized<T>::value) mc::add({"long/" + id, [] {
      // values longer than a page: prefixes around page boundaries and every 97th byte
      begin();
      size_t count = 2;
      std::string bytes, want;
      while (bytes.size() < 8300 && count < (size_log<T>() < 9 ? 90 : 6000)) { count += count / 3 + 1; T v = Ty<T>::sized(count, 9); want = dumped(v); bytes = encode(v); }
      mc::state(want); mc::nontrivial();
      int d = mc::choose(4);
      for (size_t k = 0; k < bytes.size();) {
        prefix(bytes, want, k, d, 4);
        size_t page = k % 4096;
        k += page >= 4094 || page < 2 ? 1 : std::min<size_t>(mc::thorough() ? 97 : 611, 4094 - page);
      }
    }});
    (void)b;
  }
};
} // namespace check
