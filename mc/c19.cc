// C19: the way a type declares to be serialized is the way it is serialized, wherever its objects are and in every phase.
// A family of types, one for every combination of byte-copy declaration (DECL, per compilation) and serialize functions,
// in every place; every call of a serialize function is recorded with the phase the serializer reports.
#define GROUP 99
#include "api.h"
using std::string;
namespace decl {
enum Style { NONE, IN, FREE, SPLIT, IN_NOFOOT, FREE_NOFOOT, LIBRARY, MACRO };
enum Part { WHOLE, PARENT, THIS, BASE, DERIVED };
struct Call {
  int part, id, mode;
  bool operator==(Call const& o) const { return part == o.part && id == o.id && mode == o.mode; }
};
inline std::vector<Call>& calls() { static std::vector<Call> c; return c; }
inline string& wrong() { static string s; return s; }
inline char const* part_name(int p) { static char const* n[] = {"serialize", "serializeParent", "serializeThis", "Base::serialize", "Derived::serialize"}; return n[p]; }
inline string text(std::vector<Call> const& v) { string s; for (auto& c : v) s += string(s.empty() ? "" : ", ") + part_name(c.part) + " of " + std::to_string(c.id) + " mode " + std::to_string(c.mode); return "[" + s + "]"; }

template <typename S> void called(S& s, int part, int id) {
  using Mode = checkpoint::eSerializationMode;
  auto m = s.getMode();
  bool is[4] = {s.isUnpacking(), s.isPacking(), s.isSizing(), s.isFootprinting()};
  Mode of[4] = {Mode::Unpacking, Mode::Packing, Mode::Sizing, Mode::Footprinting};
  int n = 0; for (int i = 0; i < 4; i++) { n += is[i]; if (is[i] != (m == of[i])) wrong() = "the serializer's mode is " + std::to_string(int(m)) + " but its predicates say otherwise"; }
  if (n > 1 || (n == 0 && m != Mode::None)) wrong() = "the serializer reports " + std::to_string(n) + " phases, mode " + std::to_string(int(m));
  if (checkpoint::is_footprinter_v<S> != (m == Mode::Footprinting)) wrong() = "the serializer's type and its mode disagree about footprinting";
  if (s.isVirtualDisabled()) wrong() = "virtual serialization is disabled inside a serialize function";
  calls().push_back({part, id, int(m)});
}

template <int BYTES> struct Declares {};
template <> struct Declares<1> { using isByteCopyable = std::true_type; };
template <> struct Declares<2> { using isByteCopyable = std::false_type; };
template <> struct Declares<3> : checkpoint::SerdesByteCopy {};
template <> struct Declares<5> { struct isByteCopyable : std::true_type {}; };
template <> struct Declares<7> { static constexpr bool isByteCopyable = true; };       // a member, not a type: declares nothing
template <> struct Declares<8> { using isByteCopyable = int; };                        // a type without a meaning
inline constexpr bool as_bytes(int b) { return b == 1 || b == 3 || b == 4 || b == 5; }

// What every type holds: an identity and something that makes padding.
template <int BYTES> struct Data : Declares<BYTES> {
  int id = 0; char y = 0;
  Data() = default;
  explicit Data(int i) : id(i), y(char('a' + i % 26)) {}
  bool operator<(Data const& o) const { return id < o.id; }
  bool same(Data const& o) const { return id == o.id && y == o.y; }
  template <typename S> void io(S& s, int part) {
    bool in = s.isUnpacking();
    if (!in) called(s, part, id);
    s | id;
    if (in) called(s, part, id);
    if (part == WHOLE) s | y;
  }
};
template <int BYTES, int STYLE> struct K : Data<BYTES> { using Data<BYTES>::Data; };
template <int BYTES> struct K<BYTES, IN> : Data<BYTES> { using Data<BYTES>::Data; template <typename S> void serialize(S& s) { this->io(s, WHOLE); } };
template <int BYTES> struct K<BYTES, SPLIT> : Data<BYTES> {
  using Data<BYTES>::Data;
  template <typename S> void serialize(S& s) { this->io(s, WHOLE); }
  template <typename S> void serializeParent(S& s) { this->io(s, PARENT); }
  template <typename S> void serializeThis(S& s) { this->io(s, THIS); }
};
template <int BYTES> struct K<BYTES, IN_NOFOOT> : Data<BYTES> { using Data<BYTES>::Data; template <typename S, typename = std::enable_if_t<not checkpoint::is_footprinter_v<S>>> void serialize(S& s) { this->io(s, WHOLE); } };
template <typename S, int BYTES> void serialize(S& s, K<BYTES, FREE>& k) { k.io(s, WHOLE); }
template <typename S, int BYTES, typename = std::enable_if_t<not checkpoint::is_footprinter_v<S>>> void serialize(S& s, K<BYTES, FREE_NOFOOT>& k) { k.io(s, WHOLE); }

// Classes that are serialized virtually.
struct PB : checkpoint::SerializableBase<PB> {
  int id = 0; char y = 0;
  PB() = default; explicit PB(int i) : id(i), y(char('a' + i % 26)) {}
  virtual ~PB() = default;
  bool same(PB const& o) const { return id == o.id && y == o.y; }
  template <typename S> void serialize(S& s) { bool in = s.isUnpacking(); if (!in) called(s, BASE, id); s | id; if (in) called(s, BASE, id); }
};
struct PD : checkpoint::SerializableDerived<PD, PB> {
  PD() = default; explicit PD(int i) { id = i; y = char('a' + i % 26); }
  template <typename S> void serialize(S& s) { called(s, DERIVED, id); s | y; }
};
// Classes whose shape could tempt to treat them specially: nothing inside, a virtual function, a large alignment, not
// assignable without more, final.
template <int STYLE> struct Unit { static constexpr int id = 100; Unit() = default; explicit Unit(int) {} bool operator<(Unit const&) const { return false; } bool same(Unit const&) const { return true; } template <typename S> void io(S& s, int part) { called(s, part, id); char c = 'u'; s | c; } };
template <int STYLE> struct Virt { int id = 0; char y = 0; Virt() = default; explicit Virt(int i) : id(i), y(char('a' + i % 26)) {} virtual ~Virt() = default; bool same(Virt const& o) const { return id == o.id && y == o.y; } template <typename S> void io(S& s, int part) { bool in = s.isUnpacking(); if (!in) called(s, part, id); s | id; if (in) called(s, part, id); s | y; } };
template <int STYLE> struct alignas(64) Aligned { int id = 0; char y = 0; Aligned() = default; explicit Aligned(int i) : id(i), y(char('a' + i % 26)) {} bool same(Aligned const& o) const { return id == o.id && y == o.y; } template <typename S> void io(S& s, int part) { bool in = s.isUnpacking(); if (!in) called(s, part, id); s | id; if (in) called(s, part, id); s | y; } };
template <int STYLE> struct Heavy { int id = 0; char y = 0; string more = "more"; Heavy() = default; explicit Heavy(int i) : id(i), y(char('a' + i % 26)) {} bool same(Heavy const& o) const { return id == o.id && y == o.y && more == o.more; } template <typename S> void io(S& s, int part) { bool in = s.isUnpacking(); if (!in) called(s, part, id); s | id; if (in) called(s, part, id); s | y; } };
#define BOTH_STYLES(T, F) struct T##In F : T<IN> { using T<IN>::T; template <typename S> void serialize(S& s) { this->io(s, WHOLE); } }; struct T##Free F : T<FREE> { using T<FREE>::T; }; template <typename S> void serialize(S& s, T##Free& t) { t.io(s, WHOLE); }
BOTH_STYLES(Unit, ) BOTH_STYLES(Virt, ) BOTH_STYLES(Aligned, ) BOTH_STYLES(Heavy, final)
// Every underlying type of an enumeration, and the library's own ways for user types.
struct MacroBytes { int id = 0; char y = 0; MacroBytes() = default; explicit MacroBytes(int i) : id(i), y(char('a' + i % 26)) {} bool same(MacroBytes const& o) const { return id == o.id && y == o.y; } };
template <typename U> struct EnumOf { enum class E : U {}; };
} // namespace decl
CHECKPOINT_BYTES(decl::MacroBytes)
namespace checkpoint {
template <int STYLE> struct ByteCopyNonIntrusive<decl::K<4, STYLE>> { using isByteCopyable = std::true_type; };
template <int STYLE> struct ByteCopyNonIntrusive<decl::K<6, STYLE>> { using isByteCopyable = std::false_type; };
template <typename S, int BYTES> void serialize(S& s, decl::K<BYTES, decl::LIBRARY>& k) { k.io(s, decl::WHOLE); }
}
namespace decl {
template <typename T> T make(int i) { if constexpr (std::is_enum_v<T>) return static_cast<T>(i); else return T(i); }
template <typename T> bool same(T const& a, T const& b) { if constexpr (std::is_class_v<T>) return a.same(b); else return a == b; }

// Files and streams are used in some places only, in the quick tier, because of the time to compile.
template <template <typename> class P> constexpr bool everything = THOROUGH;

// The order of a tuple's members is the library's choice.
template <template <typename> class P> constexpr bool anyorder = false;

// A footprint counts the content of an optional by its size.
template <template <typename> class P> constexpr bool followed = true;

// ---- places ------------------------------------------------------------------------------------------------------
template <typename T> struct Top { static constexpr char const* name = "top"; static constexpr int max = 1, min = 1; using C = T; static void fill(C& c, int) { c = make<T>(100); } template <typename F> static void each(C& c, F f) { f(c); } };
template <typename T> struct Member { T a{}; char gap = 1; T b{}; template <typename S> void serialize(S& s) { s | a; s | gap; s | b; } };
template <typename T> struct InMember { static constexpr char const* name = "member"; static constexpr int max = 2, min = 2; using C = Member<T>; static void fill(C& c, int) { c.a = make<T>(100); c.b = make<T>(101); } template <typename F> static void each(C& c, F f) { f(c.a); f(c.b); } };
template <typename T> struct Arr { T p[5]; int n = 0; Arr() { if constexpr (!std::is_class_v<T>) for (auto& x : p) x = T(); } template <typename S> void serialize(S& s) { s | n; checkpoint::dispatch::serializeArray(s, p, checkpoint::SerialSizeType(n)); } };
template <typename T> struct InArray { static constexpr char const* name = "array"; static constexpr int max = 5, min = 0; using C = Arr<T>; static void fill(C& c, int n) { c.n = n; for (int i = 0; i < n; i++) c.p[i] = make<T>(100 + i); } template <typename F> static void each(C& c, F f) { for (int i = 0; i < c.n; i++) f(c.p[i]); } };
#define SEQUENCE(Name, text, Type) \
  template <typename T> struct Name { static constexpr char const* name = text; static constexpr int max = 4, min = 0; using C = Type; static void fill(C& c, int n) { for (int i = 0; i < n; i++) c.push_back(make<T>(100 + i)); } template <typename F> static void each(C& c, F f) { for (auto& x : c) f(x); } };
SEQUENCE(InVector, "vector", std::vector<T>) SEQUENCE(InList, "list", std::list<T>) SEQUENCE(InDeque, "deque", std::deque<T>)
template <typename T> struct InStdArray { static constexpr char const* name = "std::array"; static constexpr int max = 3, min = 3; using C = std::array<T, 3>; static void fill(C& c, int) { for (int i = 0; i < 3; i++) c[i] = make<T>(100 + i); } template <typename F> static void each(C& c, F f) { for (auto& x : c) f(x); } };
template <typename T> struct InMap { static constexpr char const* name = "map"; static constexpr int max = 3, min = 0; using C = std::map<int, T>; static void fill(C& c, int n) { for (int i = 0; i < n; i++) c.emplace(i, make<T>(100 + i)); } template <typename F> static void each(C& c, F f) { for (auto& x : c) f(x.second); } };
template <typename T> struct InKey { static constexpr char const* name = "map key"; static constexpr int max = 3, min = 0; using C = std::map<T, int>; static void fill(C& c, int n) { for (int i = 0; i < n; i++) c.emplace(make<T>(100 + i), i); } template <typename F> static void each(C& c, F f) { for (auto& x : c) f(x.first); } };
template <typename T> struct InHash { static constexpr char const* name = "unordered_map"; static constexpr int max = 1, min = 0; using C = std::unordered_map<int, T>; static void fill(C& c, int n) { for (int i = 0; i < n; i++) c.emplace(i, make<T>(100 + i)); } template <typename F> static void each(C& c, F f) { for (auto& x : c) f(x.second); } };
template <typename T> struct InOptional { static constexpr char const* name = "optional"; static constexpr int max = 1, min = 0; using C = std::optional<T>; static void fill(C& c, int n) { if (n) c = make<T>(100); } template <typename F> static void each(C& c, F f) { if (c) f(*c); } };
template <typename T> struct InPointer { static constexpr char const* name = "unique_ptr"; static constexpr int max = 1, min = 0; using C = std::unique_ptr<T>; static void fill(C& c, int n) { if (n) c = std::make_unique<T>(make<T>(100)); } template <typename F> static void each(C& c, F f) { if (c) f(*c); } };
template <typename T> struct InTuple { static constexpr char const* name = "tuple"; static constexpr int max = 2, min = 2; using C = std::tuple<T, char, T>; static void fill(C& c, int) { std::get<0>(c) = make<T>(100); std::get<2>(c) = make<T>(101); } template <typename F> static void each(C& c, F f) { f(std::get<0>(c)); f(std::get<2>(c)); } };
template <typename T> struct InVariant { static constexpr char const* name = "variant"; static constexpr int max = 1, min = 0; using C = std::variant<string, T>; static void fill(C& c, int n) { if (n) c.template emplace<1>(make<T>(100)); else c = string("s"); } template <typename F> static void each(C& c, F f) { if (c.index() == 1) f(std::get<1>(c)); } };
template <typename T> struct Sub : T { int more = 0; template <typename S> void serialize(S& s) { s | static_cast<T&>(*this); s | more; } };
template <typename T> struct Nested { static constexpr char const* name = "vector<map<optional>>"; static constexpr int max = 3, min = 0; using C = std::vector<std::map<int, std::optional<T>>>;
  static void fill(C& c, int n) { c.resize(2); for (int i = 0; i < n; i++) c[i % 2].emplace(i, make<T>(100 + i)); c[1].emplace(9, std::nullopt); } template <typename F> static void each(C& c, F f) { for (auto& m : c) for (auto& x : m) if (x.second) f(*x.second); } };

template <> constexpr bool everything<Top> = true; template <> constexpr bool everything<InArray> = true; template <> constexpr bool everything<InMap> = true; template <> constexpr bool everything<Nested> = true;

template <> constexpr bool followed<InOptional> = false; template <> constexpr bool followed<Nested> = false;

template <> constexpr bool anyorder<InTuple> = true;

// ---- what must happen --------------------------------------------------------------------------------------------
struct Want { bool bytes; size_t unit; std::vector<int> parts; bool foot; };
template <typename T> struct Expect;
template <int B, int S> struct Expect<K<B, S>> {
  static Want want() {
    if (as_bytes(B)) return {true, sizeof(K<B, S>), {}, false};
    if (S == SPLIT) return {false, 5 + 4 + 4, {WHOLE, PARENT, THIS}, true};
    return {false, 5, {WHOLE}, S != IN_NOFOOT && S != FREE_NOFOOT};
  }
};
template <> struct Expect<MacroBytes> { static Want want() { return {true, sizeof(MacroBytes), {}, false}; } };
struct Trav : checkpoint::BaseSerializer {
  Trav() : BaseSerializer(checkpoint::eSerializationMode::None) {}
  size_t bytes = 0; int leaves = 0;
  void contiguousBytes(void*, checkpoint::SerialSizeType size, checkpoint::SerialSizeType n) { bytes += size * n; leaves++; }
};
enum Op { SIZE, FOOT, SERIALIZE, DECODE, IN_PLACE, TRAVERSE, FEW, TO_FILE = FEW, TO_STREAM, FROM_FILE, FILE_IN_PLACE, FROM_STREAM, STREAM_IN_PLACE, OPS };
inline char const* op_name(int o) { static char const* n[] = {"getSize", "getMemoryFootprint", "serialize", "deserialize", "deserializeInPlace", "traversal", "serializeToFile", "serializeToStream", "deserializeFromFile", "deserializeInPlaceFromFile", "deserializeFromStream", "deserializeInPlaceFromStream"}; return n[o]; }

template <template <typename> class P, typename T, typename R> void run(Want w) {
  using Place = P<T>; using C = typename Place::C; using Mode = checkpoint::eSerializationMode;
  int n = Place::min + mc::choose(Place::max - Place::min + 1), op = mc::choose(everything<P> ? OPS : FEW);
  mc::note("%d objects, %s", n, op_name(op));
  C c{}; Place::fill(c, n);
  std::vector<int> ids; Place::each(c, [&](auto& x) { if constexpr (std::is_class_v<T>) ids.push_back(x.id); else ids.push_back(int(x)); });
  typename P<R>::C ref{}; P<R>::fill(ref, n);
  auto expect = [&](std::vector<Mode> modes) { std::vector<Call> v; for (Mode m : modes) if (m != Mode::Footprinting || (w.foot && followed<P>)) for (int id : ids) for (int p : w.parts) v.push_back({p, id, int(m)}); return v; };
  string file = mc::scratch() + "/c19";
  auto s = [&] { return checkpoint::serialize(c); };
  string bytes; { auto r = s(); bytes.assign(r->getBuffer(), r->getSize()); }
  if constexpr (everything<P>) if (op == FROM_FILE || op == FILE_IN_PLACE) checkpoint::serializeToFile(c, file);
  std::stringstream st; if (op == FROM_STREAM || op == STREAM_IN_PLACE) st.write(bytes.data(), std::streamsize(bytes.size()));
  C target{}; std::unique_ptr<C> got; std::vector<Mode> modes;
  calls().clear(); wrong().clear();
  size_t num = 0;
  std::ostringstream os;
  switch (op) {
    case SIZE: num = checkpoint::getSize(c); modes = {Mode::Sizing}; break;
    case FOOT: num = checkpoint::getMemoryFootprint(c); modes = {Mode::Footprinting}; break;
    case SERIALIZE: s(); modes = {Mode::Sizing, Mode::Packing}; break;
    case TO_FILE: if constexpr (everything<P>) checkpoint::serializeToFile(c, file); modes = {Mode::Sizing, Mode::Packing}; break;
    case TO_STREAM: if constexpr (everything<P>) checkpoint::serializeToStream(c, static_cast<std::ostream&>(os)); modes = {Mode::Packing}; break;
    case DECODE: got = checkpoint::deserialize<C>(&bytes[0]); modes = {Mode::Unpacking}; break;
    case IN_PLACE: checkpoint::deserializeInPlace<C>(&bytes[0], &target); modes = {Mode::Unpacking}; break;
    case FROM_FILE: if constexpr (everything<P>) got = checkpoint::deserializeFromFile<C>(file); modes = {Mode::Unpacking}; break;
    case FILE_IN_PLACE: if constexpr (everything<P>) checkpoint::deserializeInPlaceFromFile<C>(file, &target); modes = {Mode::Unpacking}; break;
    case FROM_STREAM: if constexpr (everything<P>) got = checkpoint::deserializeFromStream<C>(static_cast<std::istream&>(st)); modes = {Mode::Unpacking}; break;
    case STREAM_IN_PLACE: if constexpr (everything<P>) checkpoint::deserializeInPlaceFromStream<C>(static_cast<std::istream&>(st), &target); modes = {Mode::Unpacking}; break;
    case TRAVERSE: { if (!w.unit) return; Trav t; checkpoint::dispatch::Traverse::with(c, t); modes = {Mode::None}; break; }
  }
  if (anyorder<P> && calls() != expect(modes)) std::reverse(ids.begin(), ids.end());
  auto saw = calls(), want = expect(modes);
  if (op == TO_STREAM && saw != want) want = expect({Mode::Sizing, Mode::Packing});   // it may size first
  mc::transition(); mc::nontrivial();
  mc::state(text(saw) + std::to_string(op) + std::to_string(n));
  MC_CHECK(wrong().empty(), "%s: %s", op_name(op), wrong().c_str());
  MC_CHECK(saw == want, "%s called %s instead of %s", op_name(op), text(saw).c_str(), text(want).c_str());
  if (op == SIZE && w.unit) {
    size_t base = checkpoint::getSize(ref), expected = base - ids.size() + ids.size() * w.unit;
    MC_CHECK(num == expected, "%zu objects are stored in %zu bytes, expected %zu", ids.size(), num, expected);
  }
  if (got || op == IN_PLACE || op == FILE_IN_PLACE || op == STREAM_IN_PLACE) {
    C& r = got ? *got : target;
    std::vector<T const*> a, b; Place::each(c, [&](auto& x) { a.push_back(&x); }); Place::each(r, [&](auto& x) { b.push_back(&x); });
    MC_CHECK(a.size() == b.size(), "%zu objects instead of %zu", b.size(), a.size());
    for (size_t i = 0; i < a.size(); i++) MC_CHECK(same(*a[i], *b[i]), "object %zu differs after %s", i, op_name(op));
  }
}
template <template <typename> class P, typename T, typename R> void reg(string const& id, Want w) { mc::add({id + "/" + P<T>::name, [w] { run<P, T, R>(w); }}); }
template <typename T, typename R = char> void everywhere(string const& id, Want w) {
  reg<Top, T, R>(id, w); reg<InMember, T, R>(id, w); reg<InArray, T, R>(id, w); reg<InVector, T, R>(id, w); reg<InList, T, R>(id, w); reg<InDeque, T, R>(id, w); reg<InStdArray, T, R>(id, w);
  reg<InMap, T, R>(id, w); reg<InHash, T, R>(id, w); reg<InOptional, T, R>(id, w); reg<InPointer, T, R>(id, w); reg<InTuple, T, R>(id, w); reg<InVariant, T, R>(id, w); reg<Nested, T, R>(id, w);
}
template <int B, int S> void family() {
  using T = K<B, S>;
  static char const* style[] = {"none", "in", "free", "split", "in_nofoot", "free_nofoot", "library"};
  string id = "bytes" + std::to_string(B) + "_" + style[S];
  everywhere<T>(id, Expect<T>::want());
  reg<InKey, T, char>(id, Expect<T>::want());
  mc::add({id + "/traits", [] {
    using Tr = checkpoint::SerializableTraits<T>;
    mc::transition(); mc::nontrivial(); mc::state("traits");
    MC_CHECK(Tr::is_bytecopyable == as_bytes(B), "is_bytecopyable is %d", int(Tr::is_bytecopyable));
    MC_CHECK(Tr::is_serializable == (S != NONE), "is_serializable is %d", int(Tr::is_serializable));
    MC_CHECK(Tr::is_traversable == (S != NONE || as_bytes(B)), "is_traversable is %d", int(Tr::is_traversable));
    MC_CHECK(Tr::is_constructible, "is_constructible is false");
  }});
}
// ---- what the traits say about every way to be made and every way to be serialized ------------------------------
#if DECL == 9
enum Made { BY_DEFAULT, BY_INT_ONLY, BY_TAG, BY_MEMBER, BY_FREE, BY_SPECIALIZED, PRIVATE_DEFAULT, DELETED_DEFAULT, MEMBER_RETURNS_NOTHING, BY_DEFAULT_ARGUMENT, TAG_PRIVATE, ABSTRACT, MADES };
template <int M> struct Ctor { Ctor() = default; };
template <> struct Ctor<BY_INT_ONLY> { explicit Ctor(int) {} };
template <> struct Ctor<BY_TAG> { explicit Ctor(checkpoint::SERIALIZE_CONSTRUCT_TAG) {} };
template <> struct Ctor<BY_FREE> { explicit Ctor(int) {} };
template <> struct Ctor<BY_SPECIALIZED> { explicit Ctor(int) {} };
template <> struct Ctor<PRIVATE_DEFAULT> { explicit Ctor(int) {} private: Ctor() = default; };
template <> struct Ctor<DELETED_DEFAULT> { Ctor() = delete; };
template <> struct Ctor<BY_DEFAULT_ARGUMENT> { explicit Ctor(int = 3) {} };
template <> struct Ctor<TAG_PRIVATE> { explicit Ctor(int) {} private: explicit Ctor(checkpoint::SERIALIZE_CONSTRUCT_TAG) {} };
template <> struct Ctor<BY_MEMBER> { explicit Ctor(int) {} };
template <> struct Ctor<MEMBER_RETURNS_NOTHING> { explicit Ctor(int) {} };
template <> struct Ctor<ABSTRACT> { virtual void f() = 0; virtual ~Ctor() = default; };
enum Ser { S_NONE, S_IN, S_FREE, S_CONST, S_PRIVATE, S_NOT_TEMPLATE, S_BASE, S_NAMED, SERS };
template <int S> struct Serializes {};
template <> struct Serializes<S_IN> { template <typename Z> void serialize(Z&) {} };
template <> struct Serializes<S_CONST> { template <typename Z> void serialize(Z&) const {} };
template <> struct Serializes<S_PRIVATE> { private: template <typename Z> void serialize(Z&) {} };
template <> struct Serializes<S_NOT_TEMPLATE> { void serialize(int&) {} };
template <> struct Serializes<S_BASE> { void serialize(checkpoint::BaseSerializer&) {} };
template <> struct Serializes<S_NAMED> { int serialize = 0; };
template <int M, int S> struct Made_ : Ctor<M>, Serializes<S> { using Ctor<M>::Ctor; };
template <int S> struct Made_<BY_MEMBER, S> : Ctor<BY_MEMBER>, Serializes<S> { using Ctor<BY_MEMBER>::Ctor; static Made_& reconstruct(void* p) { return *::new (p) Made_(1); } };
template <int S> struct Made_<MEMBER_RETURNS_NOTHING, S> : Ctor<MEMBER_RETURNS_NOTHING>, Serializes<S> { using Ctor<MEMBER_RETURNS_NOTHING>::Ctor; static void reconstruct(void*) {} };
template <typename Z, int M> void serialize(Z&, Made_<M, S_FREE>&) {}
template <int S> void reconstruct(Made_<BY_FREE, S>*& o, void* p) { o = ::new (p) Made_<BY_FREE, S>(1); }
} // namespace decl
namespace checkpoint { template <int S> struct CheckpointReconstructor<decl::Made_<decl::BY_SPECIALIZED, S>> { static void reconstruct(decl::Made_<decl::BY_SPECIALIZED, S>*& o, void* p) { o = ::new (p) decl::Made_<decl::BY_SPECIALIZED, S>(1); } }; }
namespace decl {
template <int M, int S> void trait(int m, int s) {
  if (m != M || s != S) return;
  using Tr = checkpoint::SerializableTraits<Made_<M, S>>;
  bool made = M == BY_DEFAULT || M == BY_TAG || M == BY_MEMBER || M == BY_FREE || M == BY_SPECIALIZED || M == BY_DEFAULT_ARGUMENT;
  bool serial = S == S_IN || S == S_FREE || S == S_CONST || S == S_BASE;
  MC_CHECK(Tr::is_serializable == (made && serial), "is_serializable is %d", int(Tr::is_serializable));
  MC_CHECK(Tr::is_traversable == serial, "is_traversable is %d", int(Tr::is_traversable));
  MC_CHECK(!Tr::is_bytecopyable, "is_bytecopyable is true");
}
template <int M, int... S> void traits_of(int m, int s, std::integer_sequence<int, S...>) { (trait<M, S>(m, s), ...); }
template <int... M> void traits(int m, int s, std::integer_sequence<int, M...>) { (traits_of<M>(m, s, std::make_integer_sequence<int, SERS>()), ...); }
MC_SCENARIO("traits", [] { int m = mc::choose(MADES), s = mc::choose(SERS); mc::note("made %d, serialized %d", m, s); mc::transition(); mc::nontrivial(); mc::state("t" + std::to_string(m * 100 + s)); traits(m, s, std::make_integer_sequence<int, MADES>()); });
#endif
namespace { struct Start {
  Start() {
#if DECL < 9
    if constexpr (as_bytes(DECL)) family<DECL, NONE>();
    family<DECL, IN>(); family<DECL, FREE>(); family<DECL, SPLIT>(); family<DECL, IN_NOFOOT>(); family<DECL, FREE_NOFOOT>();
    if constexpr (!as_bytes(DECL)) family<DECL, LIBRARY>();
#elif DECL == 9
    everywhere<MacroBytes>("macro", Expect<MacroBytes>::want());
    Want e{true, 1, {}, false};
#define ENUM(U) { e.unit = sizeof(U); everywhere<EnumOf<U>::E>("enum_" #U, e); reg<InKey, EnumOf<U>::E, char>("enum_" #U, e); }
    ENUM(signed char) ENUM(unsigned char) ENUM(char) ENUM(short) ENUM(unsigned short) ENUM(int) ENUM(unsigned) ENUM(long) ENUM(unsigned long) ENUM(long long)
    Want u{false, 1, {WHOLE}, true}, v{false, 5, {WHOLE}, true};
    everywhere<UnitIn>("unit_in", u); everywhere<UnitFree>("unit_free", u); everywhere<VirtIn>("virt_in", v); everywhere<VirtFree>("virt_free", v);
#elif DECL == 10
    Want v{false, 5, {WHOLE}, true};
    everywhere<AlignedIn>("aligned_in", v); everywhere<AlignedFree>("aligned_free", v); everywhere<HeavyIn>("heavy_in", v); everywhere<HeavyFree>("heavy_free", v);
    Want p{false, 0, {BASE, DERIVED}, true};
    // the most derived class is known: members of a class, arrays and containers of it
    reg<InArray, PD, PB>("virtual", p); reg<InVector, PD, PB>("virtual", p); reg<InMember, PD, PB>("virtual", p); reg<InStdArray, PD, PB>("virtual", p); reg<InList, PD, PB>("virtual", p); reg<InTuple, PD, PB>("virtual", p); reg<InMap, PD, PB>("virtual", p); reg<InOptional, PD, PB>("virtual", p);
#endif
  }
} start; }
} // namespace decl
