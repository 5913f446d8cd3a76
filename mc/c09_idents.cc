// C09: the identity records of thousands of types that differ in nothing but their name are all different. A packing
// traverser of the user keeps whatever is written around the value itself.
#include "explore.h"
#include <checkpoint/checkpoint.h>
#include <map>
#include <utility>
namespace {
constexpr int PER = THOROUGH ? 1250 : 280;
struct Catch : checkpoint::BaseSerializer {
  static void const* value; static std::string frame;
  Catch() : checkpoint::BaseSerializer(checkpoint::eSerializationMode::Packing) {}
  void contiguousBytes(void* p, checkpoint::SerialSizeType size, checkpoint::SerialSizeType n) { if (p != value) frame.append(static_cast<char const*>(p), size * n); }
};
void const* Catch::value; std::string Catch::frame;
} // namespace
struct Ident { std::string (*of)(); };
inline std::vector<Ident>& idents() { static std::vector<Ident> v; return v; }
namespace {
template <int N> struct Same { using isByteCopyable = std::true_type; int x = 7; };
template <int N> std::string of() {
  Same<N> v; Catch::value = &v; Catch::frame.clear();
  checkpoint::dispatch::Traverse::with<Same<N>, Catch>(v);
  return Catch::frame;
}
template <size_t... I> int put(std::index_sequence<I...>) { (idents().push_back(Ident{&of<BLOCK * PER + int(I)>}), ...); return 0; }
int reg = put(std::make_index_sequence<PER>());
#if BLOCK == 0
mc::Registrar all{"identities", [] {
  int pass = mc::choose(2);                  // asked again, a type has the same identity
  std::map<std::string, int> seen; static std::vector<std::string> first;
  auto& e = idents();
  mc::nontrivial();
  if (pass == 0) first.clear();
  for (size_t i = 0; i < e.size(); i++) {
    size_t k = pass ? e.size() - 1 - i : i;
    std::string s = e[k].of();
    mc::transition(); mc::state(s);
    MC_CHECK(s.size() >= 4, "type %zu of %zu has no identity record", k, e.size());
    auto r = seen.emplace(s, int(k));
    MC_CHECK(r.second, "types %d and %zu of %zu have the same identity", r.first->second, k, e.size());
    if (pass == 0) first.push_back(s); else if (first.size() == e.size()) MC_CHECK(first[k] == s, "type %zu has another identity the second time", k);
  }
  mc::extra("types_with_distinct_identity", e.size() * uint64_t(pass == 0));
}};
#endif
} // namespace
