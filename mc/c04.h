// C04: in-place decoding replaces whatever the target held. Every ordered pair of values within the bounds, every
// sequence of buffers, every transport.
#include "api.h"
namespace check {
using namespace api;
template <typename T> struct Register {
  static void run(std::string id, Bounds b, Bounds pb) {
    mc::add({"pair/" + id, [pb] {
      begin(); With w(tier(pb).len, tier(pb).leaf);
      int64_t live0 = mc::Mem::live_blocks();
      {
        T v = gen<T>();
        std::string want = dumped(v), bytes = encode(v), had;
        std::unique_ptr<T> t(new T(gen<T>()));
        had = dumped(*t);
        mc::state(had + "->" + want);
        mc::note("target %s <- %s", show(had).c_str(), show(want).c_str());
        if (had != want) mc::nontrivial();
        std::string tb = encode(*t);
        Block blk(bytes);
        checkpoint::deserializeInPlace<T>(blk.p, t.get());
        mc::transition();
        same(*t, want, "memory in place");
        checkpoint::deserializeInPlace<T>(blk.p, t.get());
        same(*t, want, "memory in place, again");
        // the same for the other transports, into twins of the target
        auto twin = [&] { Block x(tb); return checkpoint::deserialize<T>(x.p); };
        { auto o = twin(); spit(path(), bytes); checkpoint::deserializeInPlaceFromFile<T>(path(), o.get()); same(*o, want, "file in place"); }
        { auto o = twin(); std::istringstream i(bytes); std::istream& is = i; checkpoint::deserializeInPlaceFromStream<T>(is, o.get()); same(*o, want, "stream in place"); }
        mc::transition(2);
      }
      MC_CHECK(mc::Mem::live_blocks() == live0, "%lld blocks of the previous contents were not released", (long long)(mc::Mem::live_blocks() - live0));
    }});
    mc::add({"seq/" + id, [b] {
      // one target, every sequence of buffers and transports
      begin();
      int const values = 4, depth = mc::thorough() ? 5 : 3;
      int64_t live0 = mc::Mem::live_blocks();
      {
        std::string bytes[values], want[values];
        for (int i = 0; i < values; i++) { T v = nth<T>(uint64_t(i)); want[i] = dumped(v); bytes[i] = encode(v); }
        T t = nth<T>(uint64_t(mc::choose(values)));
        std::string hist;
        for (int k = 0; k < depth; k++) {
          int i = mc::choose(values);
          int how = k + 1 == depth ? mc::choose(3) : (i + k) % 3;
          if (how == 0) { Block blk(bytes[i]); checkpoint::deserializeInPlace<T>(blk.p, &t); }
          else if (how == 1) { spit(path(), bytes[i]); checkpoint::deserializeInPlaceFromFile<T>(path(), &t); }
          else { std::istringstream in(bytes[i]); std::istream& is = in; checkpoint::deserializeInPlaceFromStream<T>(is, &t); }
          mc::transition();
          mc::note("in place %d by %d", i, how);
          same(t, want[i], "after a sequence of in-place decodes");
          mc::state(hist + want[i]);
          hist += want[i];
        }
        mc::nontrivial();
        // serializing the overwritten target agrees with the value it now holds
        auto r = decode<T>(encode(t), D_MEM);
        same(*r, dumped(t), "round trip of the overwritten target");
      }
      MC_CHECK(mc::Mem::live_blocks() == live0, "%lld blocks leaked", (long long)(mc::Mem::live_blocks() - live0));
    }});
    (void)b;
  }
};
} // namespace check
