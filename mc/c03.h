// C03: serializing observes, decoding leaves its input alone and yields independent objects.
#include "api.h"
namespace check {
using namespace api;
inline void disjoint(Regions const& a, Regions const& b, char const* what) {
  for (auto& x : a) for (auto& y : b)
    MC_CHECK(!(x.p < y.p + y.n && y.p < x.p + x.n), "%s share memory", what);
}
template <typename T> std::string full(T const& v) {      // value, capacities, and where the parts are
  std::string s = dumped(v); Caps c; caps(c, v);
  for (size_t k : c) num(s, 'c', k);
  num(s, 'f', fp(v));
  Regions r; leaves(r, v);
  for (auto& x : r) num(s, '@', uint64_t(reinterpret_cast<uintptr_t>(x.p)));
  return s;
}
template <typename T> struct Register {
  static void run(std::string id, Bounds b, Bounds) {
    mc::add({"value/" + id, [b] {
      begin(); With w(tier(b).len, tier(b).leaf);
      T v = gen<T>();
      mc::nontrivial();
      std::string want = dumped(v), before = full(v);
      mc::state(want);
      mc::note("value %s", show(want).c_str());
      std::string ref;
      auto unchanged = [&](char const* op) {
        std::string now = full(v);
        if (now != before) { same(v, want, op); mc::fail("%s changed the object's capacity or moved its content", op); }
      };
      checkpoint::getSize(v); unchanged("getSize");
      checkpoint::getMemoryFootprint(v); unchanged("getMemoryFootprint");
      mc::transition(2);
      for (int round = 0; round < 2; round++)
        for (int e = 0; e < ENCS; e++) {
          std::string s = encode(v, e);
          unchanged(enc_name(e));
          if (ref.empty()) ref = s;
          same_bytes(s, ref, enc_name(e));
        }
      // one buffer, decoded repeatedly
      std::unique_ptr<Block> buf(new Block(ref));
      Regions in{{buf->p, buf->n}}, rv; leaves(rv, v);
      std::vector<std::unique_ptr<T>> copies;
      for (int k = 0; k < 3; k++) {
        copies.push_back(checkpoint::deserialize<T>(buf->p));
        same_bytes(buf->str(), ref, "the input buffer after decoding");
      }
      { std::unique_ptr<T> t(new T(nth<T>(5))); checkpoint::deserializeInPlace<T>(buf->p, t.get()); same_bytes(buf->str(), ref, "the input buffer after decoding in place"); copies.push_back(std::move(t)); }
      { std::unique_ptr<T> t(new T(nth<T>(4))); checkpoint::deserializeInPlace<T>(buf->p, t.get()); checkpoint::deserializeInPlace<T>(buf->p, t.get()); same_bytes(buf->str(), ref, "the input buffer after decoding in place twice"); copies.push_back(std::move(t)); }
      mc::transition(6);
      for (size_t i = 0; i < copies.size(); i++) {
        Regions ri; leaves(ri, *copies[i]);
        disjoint(ri, in, "the decoded object and the buffer");
        disjoint(ri, rv, "the decoded object and the original");
        for (size_t j = 0; j < i; j++) { Regions rj; leaves(rj, *copies[j]); disjoint(ri, rj, "two decoded objects"); }
      }
      // the buffer, then the copies, go away one by one: the others keep their value
      memset(buf->p, 0xee, buf->n);
      buf.reset();
      for (auto& c : copies) same(*c, want, "decoded object after the buffer is gone");
      while (!copies.empty()) {
        copies.erase(copies.begin());
        for (auto& c : copies) same(*c, want, "decoded object after another copy is destroyed");
      }
      unchanged("decoding");
    }});
  }
};
} // namespace check
