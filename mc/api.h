// The library's operations on each transport, as the checks use them.
#pragma once
#include "types.h"
#include <fstream>
#include <sstream>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

namespace api {
using namespace uni;   // NOLINT

// An exact-size heap block with the bytes at a chosen offset from an aligned address (guarded by the sanitizer).
struct Block {
  char* base; char* p; size_t n;
  explicit Block(size_t n_, size_t off = 0) : base(static_cast<char*>(malloc(n_ + off ? n_ + off : 1))), p(base + off), n(n_) {}
  Block(std::string const& s, size_t off = 0) : Block(s.size(), off) { memcpy(p, s.data(), n); }
  Block(Block const&) = delete;
  ~Block() { free(base); }
  std::string str() const { return std::string(p, n); }
};

inline std::string path(char const* name = "f") { return mc::scratch() + "/" + name; }
inline std::string slurp(std::string const& f) {
  std::string s; int fd = open(f.c_str(), O_RDONLY);
  if (fd < 0) return "<missing file>";
  char b[65536]; ssize_t n;
  while ((n = read(fd, b, sizeof b)) > 0) s.append(b, size_t(n));
  close(fd);
  return s;
}
inline void spit(std::string const& f, std::string const& s) {
  int fd = open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  size_t done = 0;
  while (done < s.size()) { ssize_t n = write(fd, s.data() + done, s.size() - done); if (n <= 0) abort(); done += size_t(n); }
  close(fd);
}

enum Enc { E_MEM, E_USER, E_FILE, E_STREAM, ENCS };
enum Dec { D_MEM, D_INFO, D_OBJBUF, D_INPLACE, D_FILE, D_FILE_INPLACE, D_STREAM, D_STREAM_INPLACE, DECS };
inline char const* enc_name(int e) { static char const* n[] = {"memory", "user buffer", "file", "stream"}; return n[e]; }
inline char const* dec_name(int d) { static char const* n[] = {"memory", "returned info", "object buffer", "memory in place", "file", "file in place", "stream", "stream in place"}; return n[d]; }

template <typename T> std::string encode_mem(T& v, bool user = false) {
  mc::transition();
  if (!user) { auto s = checkpoint::serialize(v); return std::string(s->getBuffer(), s->getSize()); }
  std::unique_ptr<Block> b;
  auto s = checkpoint::serialize(v, [&](size_t n) { b.reset(new Block(n)); memset(b->p, 0x5c, n); return b->p; });
  return b->str();
}
template <typename T> std::string encode(T& v, int e = E_MEM) {
  if (e == E_MEM || e == E_USER) return encode_mem(v, e == E_USER);
  mc::transition();
  if (e == E_FILE) { checkpoint::serializeToFile(v, path("enc")); return slurp(path("enc")); }
  std::ostringstream o; std::ostream& os = o; checkpoint::serializeToStream(v, os); return o.str();
}

// A std::unique_ptr whose object may live in a caller's buffer.
template <typename T> struct Obj {
  T* p = nullptr; char* buf = nullptr;
  Obj() = default;
  explicit Obj(std::unique_ptr<T> u) : p(u.release()) {}
  Obj(Obj&& o) : p(o.p), buf(o.buf) { o.p = nullptr; o.buf = nullptr; }
  Obj& operator=(Obj&& o) { std::swap(p, o.p); std::swap(buf, o.buf); return *this; }
  ~Obj() { if (buf) { if (p) p->~T(); free(buf); } else delete p; }
  T& operator*() { return *p; }
};

struct Info : checkpoint::SerializedInfo {
  Block b; explicit Info(std::string const& s) : b(s) {}
  size_t getSize() const override { return b.n; }
  char* getBuffer() const override { return b.p; }
};
template <typename T> std::unique_ptr<T> target5() { return std::unique_ptr<T>(new T(nth<T>(5))); }
template <typename T> Obj<T> decode_mem(std::string const& bytes, int d, std::unique_ptr<T> (*target)() = &target5<T>) {
  mc::transition();
  Block b(bytes);
  switch (d) {
    case D_MEM: return Obj<T>(checkpoint::deserialize<T>(b.p));
    case D_INFO: return Obj<T>(checkpoint::deserialize<T>(checkpoint::SerializedReturnType(new Info(bytes))));
    case D_OBJBUF: {
      Obj<T> o; void* m = nullptr;
      if (posix_memalign(&m, alignof(T) < sizeof(void*) ? sizeof(void*) : alignof(T), sizeof(T)) != 0) abort();
      memset(m, 0xa7, sizeof(T));
      o.buf = static_cast<char*>(m);
      o.p = checkpoint::deserialize<T>(b.p, o.buf);
      MC_CHECK(static_cast<void*>(o.p) == m, "object buffer: the object is not in the caller's buffer");
      return o;
    }
    default: { auto t = target(); checkpoint::deserializeInPlace<T>(b.p, t.get()); return Obj<T>(std::move(t)); }
  }
}
// Decodes the bytes through one of the decoders; `target` makes what in-place decoders start from.
template <typename T> Obj<T> decode(std::string const& bytes, int d, std::unique_ptr<T> (*target)() = &target5<T>) {
  if (d <= D_INPLACE) return decode_mem<T>(bytes, d, target);
  mc::transition();
  if (d == D_FILE || d == D_FILE_INPLACE) {
    spit(path("dec"), bytes);
    if (d == D_FILE) return Obj<T>(checkpoint::deserializeFromFile<T>(path("dec")));
    auto t = target(); checkpoint::deserializeInPlaceFromFile<T>(path("dec"), t.get()); return Obj<T>(std::move(t));
  }
  std::istringstream i(bytes); std::istream& is = i;
  if (d == D_STREAM) return Obj<T>(checkpoint::deserializeFromStream<T>(is));
  auto t = target(); checkpoint::deserializeInPlaceFromStream<T>(is, t.get()); return Obj<T>(std::move(t));
}

inline std::string show(std::string const& d, size_t max = 120) {
  std::string o;
  for (unsigned char c : d.substr(0, max)) { char b[5]; if (c >= 33 && c < 127 && c != '"') o += char(c); else { snprintf(b, sizeof b, "\\%02x", c); o += b; } }
  return o + (d.size() > max ? "..." : "");
}
inline size_t first_diff(std::string const& a, std::string const& b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++; return i; }
inline void same_dump(std::string const& d, std::string const& want, char const* what) {
  if (d != want) {
    size_t i = first_diff(d, want), s = i > 20 ? i - 20 : 0;
    mc::fail("%s: decoded value differs from the original at byte %zu of its observation: want ..%s got ..%s", what, i,
             show(want.substr(s), 60).c_str(), show(d.substr(s), 60).c_str());
  }
}
template <typename T> void same(T const& got, std::string const& want, char const* what) { same_dump(dumped(got), want, what); }
inline void same_bytes(std::string const& got, std::string const& want, char const* what) {
  if (got != want) {
    size_t i = first_diff(got, want);
    mc::fail("%s: bytes differ at %zu (sizes %zu and %zu): want %s got %s", what, i, want.size(), got.size(), show(want.substr(i), 30).c_str(), show(got.substr(i), 30).c_str());
  }
}

// Vector capacities, for "keeps at least the capacity".
using Caps = std::vector<size_t>;
template <typename T> struct HasCaps : std::false_type {};
template <typename T> void caps(Caps&, T const&) {}
template <typename E, typename A> void caps(Caps& c, std::vector<E, A> const& v);
template <typename E> void caps(Caps& c, std::list<E> const& v);
template <typename E> void caps(Caps& c, std::deque<E> const& v);
template <typename E, size_t N> void caps(Caps& c, std::array<E, N> const& v);
template <typename E, typename D> void caps(Caps& c, std::unique_ptr<E, D> const& v);
template <typename A, typename D> void caps(Caps& c, std::pair<A, D> const& v);
template <typename... A> void caps(Caps& c, std::tuple<A...> const& v);
template <typename E> void caps(Caps& c, std::optional<E> const& v);
template <typename K, typename M, typename P> void caps(Caps& c, std::map<K, M, P> const& v);
template <typename E, typename A> void caps(Caps& c, std::vector<E, A> const& v) { c.push_back(v.capacity()); if constexpr (!std::is_same<E, bool>::value) for (auto const& e : v) caps(c, e); }
template <typename E> void caps(Caps& c, std::list<E> const& v) { for (auto const& e : v) caps(c, e); }
template <typename E> void caps(Caps& c, std::deque<E> const& v) { for (auto const& e : v) caps(c, e); }
template <typename E, size_t N> void caps(Caps& c, std::array<E, N> const& v) { for (auto const& e : v) caps(c, e); }
template <typename E, typename D> void caps(Caps& c, std::unique_ptr<E, D> const& v) { if (v) caps(c, *v); }
template <typename A, typename D> void caps(Caps& c, std::pair<A, D> const& v) { caps(c, v.first); caps(c, v.second); }
template <typename... A> void caps(Caps& c, std::tuple<A...> const& v) { std::apply([&](auto const&... e) { (caps(c, e), ...); }, v); }
template <typename E> void caps(Caps& c, std::optional<E> const& v) { if (v) caps(c, *v); }
template <typename K, typename M, typename P> void caps(Caps& c, std::map<K, M, P> const& v) { for (auto const& e : v) caps(c, e.second); }

// Bounds grow in the thorough tier.
inline Bounds tier(Bounds b) { if (mc::thorough()) { b.len += 1; b.leaf += b.leaf > 1 ? 1 : 0; } return b; }

template <typename T, typename = void> struct HasSized : std::false_type {};
template <typename T> struct HasSized<T, std::void_t<decltype(Ty<T>::sized(size_t(1)))>> : std::true_type {};

// Sizes worth trying: up to 2^k elements (fewer when elements are big or all hash alike; nested ones mostly in the thorough tier).
template <typename T> struct Cheap : std::bool_constant<std::is_arithmetic<T>::value || std::is_same<T, std::string>::value> {};
template <typename A, typename D> struct Cheap<std::pair<A, D>> : std::bool_constant<Cheap<std::remove_const_t<A>>::value && Cheap<D>::value> {};
template <typename T, typename = void> struct ElemOf { using type = int; };
template <typename T> struct ElemOf<T, std::void_t<typename T::value_type>> { using type = typename T::value_type; };
template <typename T> struct SizeLogMax { static constexpr int value = 17; };
template <> struct SizeLogMax<std::vector<Big>> { static constexpr int value = 8; };
template <typename E, typename Q> struct SizeLogMax<std::unordered_set<E, SameHash, Q>> { static constexpr int value = 8; };
template <typename E, typename Q> struct SizeLogMax<std::unordered_multiset<E, LenHash, Q>> { static constexpr int value = 8; };
template <typename K, typename M, typename Q> struct SizeLogMax<std::unordered_map<K, M, LenHash, Q>> { static constexpr int value = 8; };
template <typename K, typename M, typename Q> struct SizeLogMax<std::unordered_multimap<K, M, SameHash, Q>> { static constexpr int value = 8; };
template <typename T> int size_log() {
  int m = SizeLogMax<T>::value;
  return mc::thorough() ? m : std::min(m, Cheap<typename ElemOf<T>::type>::value ? 16 : 10);
}
// 0..base, then 2^k-1, 2^k, 2^k+1 for k up to the limit (quick: k = 7, 8, 10, 12, 16 and the limit itself).
template <typename T> size_t choose_size(int base, int limit = 99) {
  int lo = 1; while ((1 << lo) <= base) lo++;
  int hi = std::max(lo, std::min(limit, size_log<T>())), ks[32], m = 0;
  for (int k = lo; k <= hi; k++) if (mc::thorough() || k == 7 || k == 8 || k == 10 || k == 12 || k == 16 || k == hi) ks[m++] = k;
  int c = mc::choose(base + 1 + m * 3) - (base + 1);
  size_t n = c < 0 ? size_t(c + base + 1) : (size_t(1) << ks[c / 3]) + size_t(c % 3) - 1;
  mc::note("%zu elements", n);
  return n;
}

} // namespace api
