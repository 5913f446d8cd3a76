// C05: every transport carries the same bytes, every decoder reads every encoder's bytes, several objects share a
// stream, a file is replaced entirely, and another run of the program reads and writes the same bytes.
#include "api.h"
#include <sys/wait.h>
namespace check {
using namespace api;
// ---- type-erased operations for the cross-process scenario -----------------------------------------------------
struct Ops { std::string id; bool exact;   // exact: no padding bytes, whose content is unspecified
  std::function<std::string(uint64_t)> make; std::function<std::string(std::string const&)> read; };
inline std::vector<Ops>& table() { static std::vector<Ops> t; return t; }
template <typename T> constexpr bool padded = std::is_same<T, long double>::value || std::is_same<T, std::variant<int, double, bool>>::value;

// A stream that is not a std stream: write/tellp, read/tellg and a state, all the interface asks for.
struct MiniOut { std::string d; MiniOut& write(char const* p, std::streamsize n) { d.append(p, size_t(n)); return *this; } std::streamsize tellp() { return std::streamsize(d.size()); } };
struct MiniIn {
  std::string d; size_t at = 0; bool ok = true;
  MiniIn& read(char* p, std::streamsize n) { if (at + size_t(n) > d.size()) { ok = false; at = d.size(); } else { memcpy(p, d.data() + at, size_t(n)); at += size_t(n); } return *this; }
  std::streamsize tellg() { return std::streamsize(at); }
  bool operator!() const { return !ok; }
  explicit operator bool() const { return ok; }
};

// Standard streams whose class replaces the functions: what arrives in the stream is what its own write was given.
inline std::string masked(std::string s) { for (char& c : s) c = char(c ^ 0x5a); return s; }
struct MaskOut : std::ostringstream { MaskOut& write(char const* p, std::streamsize n) { std::ostringstream::write(masked(std::string(p, size_t(n))).data(), n); return *this; } };
struct MaskIn : std::istringstream { using std::istringstream::istringstream; MaskIn& read(char* p, std::streamsize n) { std::istringstream::read(p, n); memcpy(p, masked(std::string(p, size_t(n))).data(), size_t(n)); return *this; } };
template <typename T> constexpr bool with_masks = std::is_same<T, int>::value || std::is_same<T, std::string>::value || std::is_same<T, std::vector<std::string>>::value || std::is_same<T, std::map<int, std::string>>::value || std::is_same<T, std::tuple<int, std::string, std::vector<short>>>::value;

template <typename T> struct Register {
  static void run(std::string id, Bounds b, Bounds) {
    table().push_back({id, !padded<T>, [](uint64_t i) { T v = nth<T>(i); return encode(v); }, [](std::string const& s) { auto r = decode<T>(s, D_MEM); return dumped(*r); }});
    mc::add({"cross/" + id, [b] {
      begin(); With w(tier(b).len, tier(b).leaf);
      T v = gen<T>();
      mc::nontrivial();
      std::string want = dumped(v), ref = encode(v, E_MEM);
      mc::state(want); mc::note("value %s", show(want).c_str());
      for (int e = 1; e < ENCS; e++) same_bytes(encode(v, e), ref, enc_name(e));
      // the bytes are the same, so decoding each encoder's output is decoding `ref`
      for (int d = 0; d < DECS; d++) { auto r = decode<T>(ref, d); same(*r, want, dec_name(d)); }
      // real file streams, a stream class that is not from the standard library
      { std::ofstream o(path("s"), std::ios::binary | std::ios::trunc); checkpoint::serializeToStream(v, o); }
      same_bytes(slurp(path("s")), ref, "file stream");
      { auto r = checkpoint::deserializeFromFile<T>(path("s")); same(*r, want, "file written through a stream"); }
      checkpoint::serializeToFile(v, path("g"));
      { std::ifstream i(path("g"), std::ios::binary); auto r = checkpoint::deserializeFromStream<T>(i); same(*r, want, "file read through a stream"); }
      mc::transition(4);
    }});
    mc::add({"mini/" + id, [] {
      begin();
      T v = nth<T>(uint64_t(mc::choose(4)));
      mc::nontrivial();
      std::string want = dumped(v), ref = encode(v, E_MEM);
      mc::state(want);
      MiniOut o; checkpoint::serializeToStream(v, o); same_bytes(o.d, ref, "user-defined stream");
      MiniIn i{ref}; auto r = checkpoint::deserializeFromStream<T>(i); same(*r, want, "user-defined stream");
      MiniIn j{ref}; std::unique_ptr<T> t(new T(nth<T>(5))); checkpoint::deserializeInPlaceFromStream<T>(j, t.get()); same(*t, want, "user-defined stream in place");
      mc::transition(3);
      if constexpr (with_masks<T>) {
        MaskOut mo; checkpoint::serializeToStream(v, mo); same_bytes(masked(mo.str()), ref, "stream class with its own write");
        { MaskIn mi(masked(ref)); auto q = checkpoint::deserializeFromStream<T>(mi); same(*q, want, "stream class with its own read"); }
        { MaskIn mi(masked(ref)); std::unique_ptr<T> q(new T(nth<T>(5))); checkpoint::deserializeInPlaceFromStream<T>(mi, q.get()); same(*q, want, "stream class with its own read, in place"); }
        mc::transition(3);
      }
    }});
    mc::add({"stream/" + id, [] {
      // sequences of objects of this type and others in one stream, from any start position, written and read interleaved
      begin();
      int const depth = mc::thorough() ? 4 : 3;
      std::stringstream s; std::ostream& o = s; std::istream& in = s;
      int lead = mc::choose(2) * 3;
      s << std::string(size_t(lead), '#');
      size_t pos = size_t(lead);
      std::vector<std::pair<int, uint64_t>> seq; std::vector<size_t> ends; std::string hist;
      for (int k = 0; k < depth; k++) {
        int which = mc::choose(4); uint64_t i = uint64_t(k * 5 + which);
        seq.push_back({which, i});
        if (which < 2) { T v = nth<T>(i); pos += checkpoint::getSize(v); checkpoint::serializeToStream(v, o); }
        else if (which == 2) { auto v = nth<std::string>(i); pos += checkpoint::getSize(v); checkpoint::serializeToStream(v, o); }
        else { auto v = nth<double>(i); pos += checkpoint::getSize(v); checkpoint::serializeToStream(v, o); }
        mc::transition();
        MC_CHECK(size_t(s.tellp()) == pos, "after object %d the stream is at %zd, expected %zu", k, ssize_t(s.tellp()), pos);
        ends.push_back(pos); hist += char('0' + which);
      }
      s.seekg(lead);
      for (int k = 0; k < depth; k++) {
        auto which = seq[k].first; auto i = seq[k].second;
        if (which == 0) { auto r = checkpoint::deserializeFromStream<T>(in); same(*r, dumped(nth<T>(i)), "object from a shared stream"); }
        else if (which == 1) { std::unique_ptr<T> t(new T(nth<T>(5))); checkpoint::deserializeInPlaceFromStream<T>(in, t.get()); same(*t, dumped(nth<T>(i)), "object in place from a shared stream"); }
        else if (which == 2) { auto r = checkpoint::deserializeFromStream<std::string>(in); same(*r, dumped(nth<std::string>(i)), "string from a shared stream"); }
        else { auto r = checkpoint::deserializeFromStream<double>(in); same(*r, dumped(nth<double>(i)), "double from a shared stream"); }
        mc::transition();
        MC_CHECK(size_t(s.tellg()) == ends[size_t(k)], "reading object %d left the stream at %zd, expected %zu", k, ssize_t(s.tellg()), ends[size_t(k)]);
      }
      mc::state(hist); mc::note("sequence %s", hist.c_str()); mc::nontrivial();
    }});
    mc::add({"replace/" + id, [] {
      // previous content: none, empty, shorter, equal, longer by one, by a page, by much; then replaced again
      begin();
      T v = nth<T>(uint64_t(mc::choose(3)));
      std::string ref = encode(v, E_MEM), want = dumped(v);
      static constexpr long deltas[] = {-1000000, -1, 0, 1, 4096, 100000};
      unlink(path().c_str());
      int n = mc::choose(3);
      std::string hist;
      for (int k = 0; k < n; k++) {
        int c = mc::choose(6); long size = std::max(0l, long(ref.size()) + deltas[c]);
        spit(path(), std::string(size_t(size), 'Z'));
        if (mc::flip()) chmod(path().c_str(), 0400);
        hist += char('0' + c);
        checkpoint::serializeToFile(v, path());
        mc::transition();
        same_bytes(slurp(path()), ref, "file over previous content");
        chmod(path().c_str(), 0644);
      }
      checkpoint::serializeToFile(v, path());
      same_bytes(slurp(path()), ref, "file over a previous save");
      auto r = checkpoint::deserializeFromFile<T>(path());
      same(*r, want, "file over previous content");
      mc::transition(2); mc::state(hist + want); mc::nontrivial();
    }});
  }
};
} // namespace check
