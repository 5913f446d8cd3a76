// C09: decoding as another type always throws a runtime_error and leaves an in-place target alone, for every ordered
// pair of types of the universe and every transport.
#include "api.h"
namespace check {
using namespace api;
struct Reader {
  std::string id;
  std::function<std::string(uint64_t)> make;
  // decodes through decoder d; for in-place decoders, `state` receives the target's observation before and after
  std::function<void(std::string const&, int d, std::string* before, std::string* after)> read;
};
inline std::vector<Reader>& readers() { static std::vector<Reader> t; return t; }
inline std::vector<Reader const*> const& sorted() {
  static std::vector<Reader const*> v;
  if (v.empty()) { for (auto& r : readers()) v.push_back(&r); std::sort(v.begin(), v.end(), [](Reader const* a, Reader const* b) { return a->id < b->id; }); }
  return v;
}
template <typename T> void read_as(std::string const& bytes, int d, std::string* before, std::string* after) {
  std::istringstream i(bytes); std::istream& is = i;
  if (d == D_FILE || d == D_FILE_INPLACE) spit(path("dec"), bytes);
  Block b(bytes);
  switch (d) {
    case D_MEM: checkpoint::deserialize<T>(b.p); return;
    case D_INFO: checkpoint::deserialize<T>(checkpoint::SerializedReturnType(new Info(bytes))); return;
    case D_OBJBUF: { Obj<T> o; void* m = nullptr; if (posix_memalign(&m, alignof(T) < 8 ? 8 : alignof(T), sizeof(T)) != 0) abort(); o.buf = static_cast<char*>(m); o.p = checkpoint::deserialize<T>(b.p, o.buf); return; }
    case D_FILE: checkpoint::deserializeFromFile<T>(path("dec")); return;
    case D_STREAM: checkpoint::deserializeFromStream<T>(is); return;
    default: break;
  }
  T t = nth<T>(5);
  *before = dumped(t);
  try {
    if (d == D_INPLACE) checkpoint::deserializeInPlace<T>(b.p, &t);
    else if (d == D_FILE_INPLACE) checkpoint::deserializeInPlaceFromFile<T>(path("dec"), &t);
    else checkpoint::deserializeInPlaceFromStream<T>(is, &t);
  } catch (...) { *after = dumped(t); throw; }
  *after = dumped(t);
}
inline void expect_mismatch(Reader const& w, Reader const& r, std::string const& bytes, int d) {
  std::string before, after;
  mc::transition();
  try { r.read(bytes, d, &before, &after); }
  catch (std::runtime_error& e) {
    MC_CHECK(*e.what() != 0, "%s written, decoded as %s (%s): the exception has no message", w.id.c_str(), r.id.c_str(), dec_name(d));
    MC_CHECK(before == after, "%s written, decoded as %s (%s): the target was changed", w.id.c_str(), r.id.c_str(), dec_name(d));
    return;
  }
  catch (mc::Violation&) { throw; }
  catch (std::exception& e) { mc::fail("%s written, decoded as %s (%s): %s (%s) is not a runtime_error", w.id.c_str(), r.id.c_str(), dec_name(d), typeid(e).name(), e.what()); }
  mc::fail("%s written, decoded as %s (%s): accepted", w.id.c_str(), r.id.c_str(), dec_name(d));
}
template <typename T> struct Register {
  static void run(std::string id, Bounds, Bounds) {
    readers().push_back({id, [](uint64_t i) { T v = nth<T>(i); return encode_mem(v); }, &read_as<T>});
    mc::add({"pair/" + id, [id] {
      begin();
      auto& all = sorted();
      Reader const* w = nullptr; for (auto r : all) if (r->id == id) w = r;
      Reader const* r = all[size_t(mc::choose(int(all.size())))];
      std::string bytes = w->make(uint64_t(2));
      mc::note("%s as %s", w->id.c_str(), r->id.c_str());
      mc::state(w->id + ">" + r->id);
      if (r == w) { bytes = w->make(5); std::string a, b; for (int d = 0; d < DECS; d++) { r->read(bytes, d, &a, &b); mc::transition(); } return; }
      mc::nontrivial();
      for (int d = 0; d < DECS; d++) expect_mismatch(*w, *r, bytes, d);
      // an empty or default content must be told apart as well
      bytes = w->make(1);
      expect_mismatch(*w, *r, bytes, D_MEM);
      expect_mismatch(*w, *r, bytes, D_INPLACE);
    }});
  }
};
} // namespace check
