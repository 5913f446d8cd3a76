// Values of two and four gigabytes: counts and byte sizes that do not fit 32 bits, signed or unsigned. The source is
// untouched (zero) memory except for marks at the interesting positions, so only what the library writes costs memory.
// CHECK selects the property: 1 round trip, 2 sizes and bounds, 5 transports, 14 footprint.
#include "api.h"
#include <sys/mman.h>
namespace {
using std::string;
using uni::mix;
constexpr size_t K = size_t(1) << 31, G4 = size_t(1) << 32;

// Memory straight from the kernel, not initialised by the containers.
template <typename T> struct Lazy {
  using value_type = T;
  Lazy() = default;
  template <typename U> Lazy(Lazy<U> const&) {}
  T* allocate(size_t n) { void* p = mmap(nullptr, n * sizeof(T) + 1, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) throw std::bad_alloc(); return static_cast<T*>(p); }
  void deallocate(T* p, size_t n) { munmap(p, n * sizeof(T) + 1); }
  template <typename U> void construct(U*) {}
  template <typename U, typename... A> void construct(U* p, A&&... a) { ::new (p) U(std::forward<A>(a)...); }
  bool operator==(Lazy const&) const { return true; }
  bool operator!=(Lazy const&) const { return false; }
};
template <typename T> using Vec = std::vector<T, Lazy<T>>;
struct Pod { using isByteCopyable = std::true_type; char x[24]; };
struct Pair { Vec<char> a; int m = 0; Vec<char> b; template <typename S> void serialize(S& s) { s | a; s | m; s | b; } };

inline std::vector<size_t> marks(size_t bytes) { std::vector<size_t> v; for (size_t c : {size_t(0), K, G4, bytes}) for (size_t d = 0; d < 20; d++) { size_t at = c + d - 10; if (at < bytes) v.push_back(at); } return v; }
inline unsigned char mark(size_t at) { return static_cast<unsigned char>(1 + mix(at) % 250); }
inline void paint(void* p, size_t n) { for (size_t at : marks(n)) static_cast<unsigned char*>(p)[at] = mark(at); }
// "" or what is wrong with n bytes that should be painted
inline string painted(void const* v, size_t n) {
  auto p = static_cast<unsigned char const*>(v);
  auto m = marks(n);
  for (size_t at : m) if (p[at] != mark(at)) return "byte " + std::to_string(at) + " of " + std::to_string(n);
  static std::vector<unsigned char> zero(1 << 20);
  std::sort(m.begin(), m.end()); m.push_back(n);
  size_t from = 0;
  for (size_t at : m) { for (size_t i = from; i < at; i += zero.size()) if (memcmp(p + i, zero.data(), std::min(zero.size(), at - i))) return "a byte in " + std::to_string(i) + ".." + std::to_string(at) + " of " + std::to_string(n); from = at + 1; }
  return "";
}
// A buffer that ends at an inaccessible page and whose memory is given back at the end.
struct Guarded {
  char* base; size_t len; char* p; size_t n;
  explicit Guarded(size_t n_) : len((n_ + 4095) / 4096 * 4096 + 8192), n(n_) {
    base = static_cast<char*>(mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (base == MAP_FAILED) { perror("mmap"); abort(); }
    mprotect(base, 4096, PROT_NONE); mprotect(base + len - 4096, 4096, PROT_NONE);
    p = base + len - 4096 - n;
  }
  ~Guarded() { munmap(base, len); }
};
inline size_t framing() { static size_t f = [] { Vec<char> v; return checkpoint::getSize(v); }(); return f; }   // of an empty vector
template <typename T> Vec<T> source(size_t n) { Vec<T> v(n); paint(v.data(), n * sizeof(T)); return v; }

struct Size { size_t bytes; char const* what; };
#if CHECK == 2
template <typename T> void sizes() {
  static size_t const c[] = {K / sizeof(T) - 1, K / sizeof(T), K / sizeof(T) + 1, G4 / sizeof(T) - 1, G4 / sizeof(T), G4 / sizeof(T) + 1, K - 1, K, K + 1, G4 - 1, G4, G4 + 1};
  size_t n = c[mc::choose(12)];
  Vec<T> v(n);
  size_t f; { Vec<T> e; f = checkpoint::getSize(e); }
  size_t got = checkpoint::getSize(v);
  mc::transition(); mc::nontrivial(); mc::state("s" + std::to_string(n * sizeof(T)));
  MC_CHECK(got == f + n * sizeof(T), "getSize of a vector of %zu elements of %zu bytes is %zu, expected %zu", n, sizeof(T), got, f + n * sizeof(T));
}
MC_SCENARIO("big/size/char", [] { sizes<char>(); });
MC_SCENARIO("big/size/double", [] { sizes<double>(); });
MC_SCENARIO("big/size/pod", [] { sizes<Pod>(); });
#endif
#if CHECK == 14
template <typename T> void footprints() {
  static size_t const c[] = {K / sizeof(T) - 1, K / sizeof(T), K / sizeof(T) + 1, G4 / sizeof(T) - 1, G4 / sizeof(T), G4 / sizeof(T) + 1, K - 1, K, K + 1, G4 - 1, G4, G4 + 1};
  size_t n = c[mc::choose(12)]; bool spare = mc::flip(); size_t off = mc::flip() ? G4 + 7 : 0;
  Vec<T> v; if (spare) { v.reserve(n); v.resize(3); } else v.resize(n);
  size_t got = checkpoint::getMemoryFootprint(v, off), want = off + sizeof v + v.capacity() * sizeof(T);
  mc::transition(); mc::nontrivial(); mc::state("f" + std::to_string(want));
  MC_CHECK(got == want, "footprint of a vector of %zu elements of %zu bytes, capacity %zu, is %zu, expected %zu", v.size(), sizeof(T), v.capacity(), got, want);
}
MC_SCENARIO("big/footprint/char", [] { footprints<char>(); });
MC_SCENARIO("big/footprint/double", [] { footprints<double>(); });
MC_SCENARIO("big/footprint/pod", [] { footprints<Pod>(); });
MC_SCENARIO("big/footprint/sum", [] { Pair p; p.a.resize(K + 3); p.b.resize(K - 1); p.b.reserve(K + 9); size_t got = checkpoint::getMemoryFootprint(p), want = 2 * sizeof(Vec<char>) + sizeof(int) + p.a.capacity() + p.b.capacity(); mc::transition(); mc::nontrivial(); mc::state("sum"); MC_CHECK(got == want, "footprint of two vectors of 2 GB is %zu, expected %zu", got, want); });
#endif
#if CHECK == 1 || CHECK == 2
template <typename T> void round(size_t n) {
  size_t want, f; { Vec<T> e; f = checkpoint::getSize(e); } want = f + n * sizeof(T);
  std::unique_ptr<Guarded> g; int calls = 0;
  {
    Vec<T> v = source<T>(n);
    auto r = checkpoint::serialize(v, [&](size_t k) { calls++; g.reset(new Guarded(k)); return g->p; });
    MC_CHECK(calls == 1 && g->n == want && r->getSize() == want && r->getBuffer() == g->p, "a vector of %zu elements of %zu bytes: asked for %zu bytes, reported %zu, expected %zu", n, sizeof(T), g->n, r->getSize(), want);
    string e = painted(v.data(), n * sizeof(T)); MC_CHECK(e.empty(), "the source changed at %s", e.c_str());
  }
  mc::transition();
#if CHECK == 1
  { auto p = checkpoint::deserialize<Vec<T>>(g->p);
    MC_CHECK(p->size() == n, "restored %zu elements of %zu", p->size(), n);
    string e = painted(p->data(), n * sizeof(T)); MC_CHECK(e.empty(), "the restored elements differ at %s", e.c_str()); }
  mc::transition();
#endif
  mc::nontrivial(); mc::state("r" + std::to_string(want));
}
// One scenario, so that one value at a time is in memory.
MC_SCENARIO("big/values", [] {
  switch (mc::choose(mc::thorough() ? 7 : 3)) {
    case 0: round<char>(G4 + 9); break;
    case 1: round<double>(G4 / 8 + 3); break;
    case 2: { Pair p; p.a.resize(K + 3); p.b.resize(K + 5); p.m = 77; paint(p.a.data(), p.a.size()); paint(p.b.data(), p.b.size());
      std::unique_ptr<Guarded> g;
      auto r = checkpoint::serialize(p, [&](size_t k) { g.reset(new Guarded(k)); return g->p; });
      p = Pair();
      size_t want = K * 2 + 8 + 4 + (framing() > 60 ? 0 : 0);
      MC_CHECK(g->n >= want && g->n < want + 400 && r->getSize() == g->n, "two vectors of 2 GB: %zu bytes", g->n);
#if CHECK == 1
      auto q = checkpoint::deserialize<Pair>(g->p);
      MC_CHECK(q->a.size() == K + 3 && q->m == 77 && q->b.size() == K + 5, "two vectors of 2 GB came back with %zu and %zu elements", q->a.size(), q->b.size());
      string e = painted(q->a.data(), q->a.size()) + painted(q->b.data(), q->b.size()); MC_CHECK(e.empty(), "two vectors of 2 GB differ at %s", e.c_str());
#endif
      mc::transition(2); mc::nontrivial(); mc::state("pair"); break; }
    case 3: round<char>(G4 - 1); break;
    case 4: round<char>(K + 1); break;
    case 5: round<Pod>(G4 / 24 + 1); break;
    case 6: round<char>(2 * G4 + 1); break;
  }
});
#if CHECK == 1
MC_SCENARIO("big/string", [] {
  size_t n = G4 + 9; string got;
  std::unique_ptr<Guarded> g;
  { string s; s.resize(n); paint(&s[0], n); checkpoint::serialize(s, [&](size_t k) { g.reset(new Guarded(k)); return g->p; }); }
  auto p = checkpoint::deserialize<string>(g->p);
  MC_CHECK(p->size() == n, "restored %zu characters of %zu", p->size(), n);
  string e = painted(p->data(), n); MC_CHECK(e.empty(), "the restored string differs at %s", e.c_str());
  mc::transition(2); mc::nontrivial(); mc::state("string");
}, true);
#endif
#endif
#if CHECK == 5
// Streams that keep nothing: what is written is compared on the fly with what should be, what is read is made up.
struct Expect : std::streambuf {
  string head; size_t n; size_t at = 0; size_t bad = size_t(-1); std::vector<size_t> m; string tail;
  Expect(string h, size_t n_, string t) : head(h), n(n_), m(marks(n_)), tail(t) { std::sort(m.begin(), m.end()); }
  size_t total() const { return head.size() + n + tail.size(); }
  char byte(size_t i) { if (i < head.size()) return head[i]; i -= head.size(); if (i >= n) return tail[i - n]; return std::binary_search(m.begin(), m.end(), i) ? char(mark(i)) : 0; }
  std::streamsize xsputn(char const* s, std::streamsize k) override {
    static std::vector<char> zero(1 << 16);
    for (std::streamsize i = 0; i < k;) {
      std::streamsize c = std::min<std::streamsize>(k - i, 65536);
      bool quiet = at >= head.size() && at - head.size() + size_t(c) < n;
      if (quiet) { auto lo = std::lower_bound(m.begin(), m.end(), at - head.size()); quiet = lo == m.end() || *lo >= at - head.size() + size_t(c); }
      if (quiet) { if (memcmp(s + i, zero.data(), size_t(c)) && bad > at) bad = at; }
      else for (std::streamsize j = 0; j < c; j++) if ((at + size_t(j) >= total() || s[i + j] != byte(at + size_t(j))) && bad > at) bad = at + size_t(j);
      at += size_t(c); i += c;
    }
    return k;
  }
  int overflow(int c) override { char ch = char(c); xsputn(&ch, 1); return c; }
  std::streamsize xsgetn(char* s, std::streamsize k) override {
    std::streamsize c = std::min<std::streamsize>(k, std::streamsize(total() - at));
    memset(s, 0, size_t(c));
    for (size_t i = at; i < std::min(at + size_t(c), head.size()); i++) s[i - at] = byte(i);
    for (size_t x : m) if (head.size() + x >= at && head.size() + x < at + size_t(c)) s[head.size() + x - at] = char(mark(x));
    for (size_t i = std::max(at, head.size() + n); i < at + size_t(c); i++) s[i - at] = byte(i);
    at += size_t(c); return c;
  }
  int underflow() override { return EOF; }
  int uflow() override { if (at >= total()) return EOF; char c; xsgetn(&c, 1); return static_cast<unsigned char>(c); }
};
template <typename T> void streams(size_t n) {
  // the bytes around the elements: those of memory serialization, which the other part of this check compares for small values
  string head, tail; size_t bytes = n * sizeof(T);
  { Vec<T> e(1); std::vector<char> b; checkpoint::serialize(e, [&](size_t k) { b.resize(k); return b.data(); });
    std::unique_ptr<Guarded> g; Vec<T> v = source<T>(n); checkpoint::serialize(v, [&](size_t k) { g.reset(new Guarded(k)); return g->p; });
    size_t at = 0; char const* first = nullptr;
    // where the elements start: after everything that the one-element value has besides its element and the trailing record
    for (at = 0; at + bytes <= g->n; at++) if (static_cast<unsigned char>(g->p[at]) == mark(0) && static_cast<unsigned char>(g->p[at + 1]) == mark(1) && static_cast<unsigned char>(g->p[at + 2]) == mark(2) && static_cast<unsigned char>(g->p[at + 3]) == mark(3) && static_cast<unsigned char>(g->p[at + 4]) == mark(4)) { first = g->p + at; break; }
    MC_CHECK(first, "the elements are not in the buffer");
    head.assign(g->p, at); tail.assign(first + bytes, g->n - at - bytes);
    string e2 = painted(first, bytes); MC_CHECK(e2.empty(), "the elements in the buffer differ at %s", e2.c_str()); }
  { Vec<T> v = source<T>(n); Expect x(head, bytes, tail); std::ostream os(&x); std::ostream& o = os; checkpoint::serializeToStream(v, o);
    MC_CHECK(x.at == x.total() && x.bad == size_t(-1), "%zu bytes went to the stream, expected %zu; first difference from memory at %zu", x.at, x.total(), x.bad); }
  { Expect x(head, bytes, tail); std::istream is(&x); std::istream& i = is; auto p = checkpoint::deserializeFromStream<Vec<T>>(i);
    MC_CHECK(p->size() == n && x.at == x.total(), "%zu elements of %zu read from a stream, %zu bytes of %zu", p->size(), n, x.at, x.total());
    string e = painted(p->data(), bytes); MC_CHECK(e.empty(), "what was read from a stream differs at %s", e.c_str()); }
  mc::transition(3); mc::nontrivial(); mc::state("t" + std::to_string(bytes));
}
MC_SCENARIO("big/streams", [] {
  switch (mc::choose(mc::thorough() ? 4 : 2)) { case 0: streams<char>(G4 + 9); break; case 1: streams<double>(G4 / 8 + 3); break; case 2: streams<char>(K + 1); break; case 3: streams<Pod>(G4 / 24 + 1); break; }
});
#endif
} // namespace
