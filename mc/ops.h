// Types and small helpers shared by the checks on interference: between threads (C16) and across histories (C17).
#pragma once
#include "api.h"
namespace {
using namespace uni;   // NOLINT
using std::string;

// ---- hierarchies and types that only these checks have ------------------------------------------------------------
struct Animal : checkpoint::SerializableBase<Animal> { int legs = 0; virtual int kind() const { return 0; } template <typename S> void serialize(S& s) { s | legs; } };
struct Dog : checkpoint::SerializableDerived<Dog, Animal> { string name; int kind() const override { return 1; } template <typename S> void serialize(S& s) { s | name; } };
struct Puppy : checkpoint::SerializableDerived<Puppy, Dog> { std::vector<int> toys; int kind() const override { return 2; } template <typename S> void serialize(S& s) { s | toys; } };
struct Shape { int area = 0; Shape() = default; virtual ~Shape() = default; virtual int kind() const { return 0; } checkpoint_virtual_serialize_root() template <typename S> void serialize(S& s) { s | area; } };
struct Square : Shape { double side = 0; int kind() const override { return 1; } checkpoint_virtual_serialize_derived_from(Shape) template <typename S> void serialize(S& s) { s | side; } };
struct Plain { int a = 0; char b = 0; };   // cannot be serialized: footprint only
struct Thrower { int a = 0; int b = 0; template <typename S> void serialize(S& s) { s | a; if (s.isUnpacking() && a == 13) throw std::runtime_error("unlucky"); s | b; } };
struct Uneven { int a = 0; template <typename S> void serialize(S& s) { s | a; if (s.isPacking()) s | a; } };

template <typename T> struct Val { static T make(uint64_t i) { return uni::nth<T>(i); } static void obs(Out& o, T const& v) { uni::dump(o, v); } };
inline void fill(Animal& a, uint64_t i) { a.legs = int(mix(i)); }
inline std::unique_ptr<Animal> animal(uint64_t i) {
  if (i % 3 == 0) { auto p = std::make_unique<Puppy>(); p->legs = int(mix(i)); p->name = uni::nth<string>(i + 4); p->toys = {int(i), int(i * 3)}; return p; }
  if (i % 3 == 1) { auto p = std::make_unique<Dog>(); p->legs = int(mix(i)); p->name = uni::nth<string>(i + 4); return p; }
  auto p = std::make_unique<Animal>(); p->legs = int(mix(i)); return p;
}
inline void obs(Out& o, Animal const& a) {
  num(o, 'K', uint64_t(a.kind())); uni::dump(o, a.legs);
  if (auto d = dynamic_cast<Dog const*>(&a)) uni::dump(o, d->name);
  if (auto p = dynamic_cast<Puppy const*>(&a)) uni::dump(o, p->toys);
}
template <> struct Val<std::unique_ptr<Animal>> { using T = std::unique_ptr<Animal>; static T make(uint64_t i) { return animal(i); } static void obs(Out& o, T const& v) { if (v) ::obs(o, *v); } };
template <> struct Val<std::vector<std::unique_ptr<Animal>>> { using T = std::vector<std::unique_ptr<Animal>>;
  static T make(uint64_t i) { T v; for (int k = 0; k < 3; k++) v.push_back(animal(i + uint64_t(k))); return v; } static void obs(Out& o, T const& v) { for (auto& e : v) if (e) ::obs(o, *e); } };
template <> struct Val<Puppy> { using T = Puppy; static T make(uint64_t i) { T t; t.legs = int(i); t.name = uni::nth<string>(i + 4); t.toys = {1, int(i)}; return t; } static void obs(Out& o, T const& v) { ::obs(o, v); } };
template <> struct Val<std::unique_ptr<Shape>> { using T = std::unique_ptr<Shape>;
  static T make(uint64_t i) { if (i % 2) { auto p = std::make_unique<Square>(); p->area = int(i); p->side = double(i) / 7; return p; } auto p = std::make_unique<Shape>(); p->area = int(i * 5); return p; }
  static void obs(Out& o, T const& v) { if (!v) return; num(o, 'k', uint64_t(v->kind())); uni::dump(o, v->area); if (auto q = dynamic_cast<Square const*>(v.get())) uni::dump(o, q->side); } };
template <> struct Val<Thrower> { static Thrower make(uint64_t i) { Thrower t; t.a = i % 2 ? 13 : int(i); t.b = int(i); return t; } static void obs(Out& o, Thrower const& v) { uni::dump(o, v.a); uni::dump(o, v.b); } };

template <typename T> string text(T const& v) { Out o; Val<T>::obs(o, v); return o; }

// What an operation reports: everything it got, or the exception. Exceptions are compared by their text.
template <typename F> void guarded(Out& o, F f) { try { f(); } catch (std::runtime_error const& e) { o += string("E:") + e.what(); } }

// A small stream of bytes in a type of our own, so that file names and buffers of the threads never meet.
inline string file(int slot) { return mc::scratch() + "/t" + char('0' + slot); }

} // namespace
