// C13: every object the library makes and every block it takes is destroyed and released exactly once, whatever fails.
// For every value and operation the k-th allocation (and, for the probe types of c13.cc, the k-th construction and the
// k-th serialize call) fails, for every k; every truncated and every mismatched input is decoded. Afterwards no block,
// object or descriptor of the library's is left, the caller's buffers are intact and the operation works.
#pragma once
#include "api.h"
#include <streambuf>
namespace probe {
// What the probe objects report and which of their steps is to fail.
enum Kind { ALLOC, CREATE, SERVE };
struct Injected { int k; };
inline uint64_t& count(int kind) { static uint64_t c[3]; return c[kind]; }
inline uint64_t& at(int kind) { static uint64_t c[3]; return c[kind]; }
inline bool& fired() { static bool f = false; return f; }
inline void step(int kind) { ++count(kind); if (at(kind) && --at(kind) == 0) { fired() = true; throw Injected{int(count(kind))}; } }
inline int64_t& objects() { static int64_t n = 0; return n; }   // probe objects alive
}
namespace check {
using namespace api;
enum Op { SIZE, FOOT, PACK, PACK_USER, PACK_FILE, PACK_STREAM, DECODE };
constexpr int OPS = DECODE + DECS;
inline std::string op_name(int o) { static char const* n[] = {"getSize", "getMemoryFootprint", "serialize", "serialize to user buffer", "serializeToFile", "serializeToStream"}; return o < DECODE ? n[o] : std::string("decode: ") + dec_name(o - DECODE); }
struct OutBuf : std::streambuf { explicit OutBuf(Block& b) { setp(b.p, b.p + b.n); } size_t size() const { return size_t(pptr() - pbase()); } };
struct InBuf : std::streambuf { explicit InBuf(Block& b, size_t n) { setg(b.p, b.p, b.p + n); } };
template <typename T, typename = void> struct HasProbe : std::false_type {};

template <typename T> struct Run {
  T& v; std::string const& bytes; std::string const& want; uint64_t before;   // before: which value in-place targets hold
  // Runs one operation; `arm` is called right before and `disarm` right after the library's code.
  template <typename A, typename D> void operator()(int op, size_t len, A arm, D disarm) {
    Block in(bytes), out(bytes.size());
    std::string file = path();
    struct Guard { D& d; ~Guard() { d(); } };
    mc::transition();
    auto act = [&](auto f) { arm(); Guard g{disarm}; f(); };
    switch (op) {
      case SIZE: { size_t n = 0; act([&] { n = checkpoint::getSize(v); }); MC_CHECK(n == bytes.size(), "getSize is %zu", n); break; }
      case FOOT: act([&] { checkpoint::getMemoryFootprint(v); }); break;
      case PACK: { checkpoint::SerializedReturnType r; act([&] { r = checkpoint::serialize(v); }); same_bytes(std::string(r->getBuffer(), r->getSize()), bytes, "serialize"); break; }
      case PACK_USER: {
        checkpoint::BufferCallbackType fn = [&](size_t n) { return n == out.n ? out.p : nullptr; };
        checkpoint::SerializedReturnType r; act([&] { r = checkpoint::serialize(v, fn); }); r.reset(); same_bytes(out.str(), bytes, "user buffer"); break;
      }
      case PACK_FILE: act([&] { checkpoint::serializeToFile(v, file); }); same_bytes(slurp(file), bytes, "file"); break;
      case PACK_STREAM: { OutBuf ob(out); std::ostream o(&ob); act([&] { checkpoint::serializeToStream(v, o); }); MC_CHECK(ob.size() == bytes.size(), "stream got %zu bytes", ob.size()); same_bytes(out.str(), bytes, "stream"); break; }
      default: {
        int d = op - DECODE; Obj<T> o;
        size_t n = std::min(len, bytes.size());
        if (d == D_FILE || d == D_FILE_INPLACE) spit(file, bytes.substr(0, n));
        InBuf ib(in, n); std::istream is(&ib);
        bool inplace = d == D_INPLACE || d == D_FILE_INPLACE || d == D_STREAM_INPLACE;
        if (inplace) { o.p = new T(nth<T>(before)); }
        if (d == D_OBJBUF) { void* m = nullptr; if (posix_memalign(&m, alignof(T) < 8 ? 8 : alignof(T), sizeof(T)) != 0) abort(); memset(m, 0xa7, sizeof(T)); o.buf = static_cast<char*>(m); }
        checkpoint::SerializedReturnType info; if (d == D_INFO) info.reset(new Info(bytes));
        auto go = [&](auto a, auto di) {
          struct G2 { decltype(di)& d; ~G2() { d(); } };
          a(); G2 g{di};
          switch (d) {
            case D_MEM: o.p = checkpoint::deserialize<T>(in.p).release(); break;
            case D_INFO: o.p = checkpoint::deserialize<T>(std::move(info)).release(); break;
            case D_OBJBUF: o.p = checkpoint::deserialize<T>(in.p, o.buf); break;
            case D_INPLACE: checkpoint::deserializeInPlace<T>(in.p, o.p); break;
            case D_FILE: o.p = checkpoint::deserializeFromFile<T>(file).release(); break;
            case D_FILE_INPLACE: checkpoint::deserializeInPlaceFromFile<T>(file, o.p); break;
            case D_STREAM: o.p = checkpoint::deserializeFromStream<T>(is).release(); break;
            default: checkpoint::deserializeInPlaceFromStream<T>(is, o.p); break;
          }
        };
        try { go(arm, disarm); }
        catch (...) {
          // the caller's object can still be used, and its memory is still the caller's
          if (inplace) { checkpoint::deserializeInPlace<T>(in.p, o.p); same(*o, want, "decoding into the same object after a failure"); }
          if (d == D_OBJBUF) { memset(o.buf, 0x3c, sizeof(T)); o.p = checkpoint::deserialize<T>(in.p, o.buf); same(*o, want, "decoding into the same memory after a failure"); }
          throw;
        }
        same(*o, want, dec_name(d));
        same_bytes(in.str(), bytes, "the input buffer");
      }
    }
  }
};
// Descriptors open on files of the scratch directory (the sanitizer's thread opens others now and then).
inline int open_files() {
  int n = 0; std::string dir = mc::scratch() + "/";
  for (int f = 3; f < 40; f++) {
    if (fcntl(f, F_GETFD) < 0) continue;
    char link[32], to[512]; snprintf(link, sizeof link, "/proc/self/fd/%d", f);
    ssize_t k = readlink(link, to, sizeof to);
    if (k > ssize_t(dir.size()) && dir.compare(0, dir.size(), to, dir.size()) == 0) n++;
  }
  return n;
}

template <typename T> struct Register {
  static void run(std::string id, Bounds b, Bounds pb, bool probes = false) {
    (void)b; (void)pb;
    int const values = probes ? (mc::thorough() ? 5 : 3) : 3;
    mc::add({"fault/" + id, [probes, values] {
      begin();
      With w(2, 1);
      int op = mc::choose(OPS), kind = probes ? mc::choose(3) : int(probe::ALLOC), pick = mc::choose(mc::thorough() ? values + 2 : values);
      static uint64_t const which[] = {0, 2, 5, 3, 9, 1, 4};
      int64_t objects0 = probe::objects();
      {
        T v = nth<T>(which[pick]);
        std::string want = dumped(v), bytes = encode_mem(v);
        Run<T> r{v, bytes, want, which[(pick + 1) % values]};
        uint64_t n = 0, a0 = 0;
        auto reset = [&] { probe::fired() = false; for (int i = 0; i < 3; i++) probe::count(i) = probe::at(i) = 0; };
        reset();
        uint64_t m = 0;
        r(op, bytes.size(), [&] { reset(); a0 = mc::Mem::allocs(); }, [&] { n = kind == probe::ALLOC ? mc::Mem::allocs() - a0 : probe::count(kind); });
        m = n;
        int k = m ? 1 + mc::choose(int(m)) : 0;
        mc::note("%s of %s, %s %d fails", op_name(op).c_str(), show(want).c_str(), kind == probe::ALLOC ? "allocation" : kind == probe::CREATE ? "construction" : "serialize call", k);
        if (k) mc::nontrivial();
        int64_t objects1 = probe::objects(), live1 = mc::Mem::live_blocks(); int fd1 = open_files();
        bool threw = false; std::string odd;
        auto arm = [&] { reset(); if (kind == probe::ALLOC) mc::Mem::fail_at(uint64_t(k)); else probe::at(kind) = uint64_t(k); };
        bool fired = false;
        auto disarm = [&] { fired = kind == probe::ALLOC ? mc::Mem::fired() : probe::fired(); mc::Mem::fail_at(0); reset(); };
        try { r(op, bytes.size(), arm, disarm); }
        catch (probe::Injected const&) { threw = true; if (kind == probe::ALLOC) odd = "the injected exception"; }
        catch (std::bad_alloc const&) { threw = true; if (kind != probe::ALLOC) odd = "bad_alloc"; }
        catch (std::exception const& e) { threw = true; odd = e.what(); }
        MC_CHECK(!threw || fired, "%s threw although nothing failed: %s", op_name(op).c_str(), odd.c_str());
        MC_CHECK(odd.empty(), "%s failed with: %s", op_name(op).c_str(), odd.c_str());
        odd = std::string();
        MC_CHECK(mc::Mem::live_blocks() == live1, "%lld blocks were not released after a failing %s", (long long)(mc::Mem::live_blocks() - live1), op_name(op).c_str());
        MC_CHECK(probe::objects() == objects1, "%lld objects were not destroyed after a failing %s", (long long)(probe::objects() - objects1), op_name(op).c_str());
        MC_CHECK(open_files() == fd1, "a descriptor is left open after a failing %s", op_name(op).c_str());
        same(v, want, "the original after a failure");
        r(op, bytes.size(), reset, [] {});
        MC_CHECK(mc::Mem::live_blocks() == live1, "%lld blocks were not released after a successful %s", (long long)(mc::Mem::live_blocks() - live1), op_name(op).c_str());
        mc::state(op_name(op) + want + std::to_string(k) + "/" + std::to_string(kind));
      }
      MC_CHECK(probe::objects() == objects0, "%lld objects were not destroyed", (long long)(probe::objects() - objects0));
    }});
    mc::add({"cut/" + id, [values] {
      begin();
      With w(2, 1);
      static uint64_t const which[] = {0, 2, 5, 3, 9};
      int pick = mc::choose(values), d = mc::choose(4);
      static int const decs[] = {D_FILE, D_FILE_INPLACE, D_STREAM, D_STREAM_INPLACE};
      T v = nth<T>(which[pick]);
      std::string want = dumped(v), bytes = encode_mem(v);
      Run<T> r{v, bytes, want, which[(pick + 1) % values]};
      mc::note("%s of %s cut everywhere", dec_name(decs[d]), show(want).c_str());
      mc::state(want + dec_name(decs[d]));
      r(DECODE + decs[d], bytes.size(), [] {}, [] {});
      int64_t objects1 = probe::objects(), live1 = mc::Mem::live_blocks(); int fd1 = open_files();
      for (size_t n = 0; n < bytes.size(); n++) {
        bool threw = false;
        try { r(DECODE + decs[d], n, [] {}, [] {}); } catch (std::runtime_error const&) { threw = true; }
        MC_CHECK(threw, "%zu of %zu bytes were accepted", n, bytes.size());
        MC_CHECK(mc::Mem::live_blocks() == live1, "%lld blocks were not released after %zu of %zu bytes", (long long)(mc::Mem::live_blocks() - live1), n, bytes.size());
        MC_CHECK(probe::objects() == objects1, "%lld objects were not destroyed after %zu of %zu bytes", (long long)(probe::objects() - objects1), n, bytes.size());
        mc::nontrivial();
      }
      MC_CHECK(open_files() == fd1, "a descriptor is left open");
    }});
    mc::add({"mismatch/" + id, [] {
      begin();
      struct Alien { std::array<long, 64> a{}; void serialize(checkpoint::Sizer& s) { s | a; } void serialize(checkpoint::PackerBuffer<checkpoint::buffer::ManagedBuffer>& s) { s | a; } void serialize(checkpoint::PackerBuffer<checkpoint::buffer::UserBuffer>& s) { s | a; } };
      Alien a; std::string bytes = encode_mem(a);
      int d = mc::choose(DECS);
      mc::state(std::to_string(d)); mc::nontrivial();
      auto attempt = [&] { try { decode<T>(bytes, d); } catch (std::runtime_error const&) { return true; } return false; };
      attempt();
      int64_t objects1 = probe::objects(), live1 = mc::Mem::live_blocks(); int fd1 = open_files();
      MC_CHECK(attempt(), "data of another type was accepted through %s", dec_name(d));
      MC_CHECK(mc::Mem::live_blocks() == live1 && probe::objects() == objects1 && open_files() == fd1, "%s of another type's data left %lld blocks and %lld objects", dec_name(d), (long long)(mc::Mem::live_blocks() - live1), (long long)(probe::objects() - objects1));
    }});
  }
};
} // namespace check
