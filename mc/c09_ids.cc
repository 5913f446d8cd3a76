// One block of same-layout types (-DBLOCK=n).
#define GROUP 99
#include "c09_ids.h"
#include <utility>
namespace {
template <int N> struct Id { using isByteCopyable = std::true_type; int x = 7; };
template <int N> std::string make() { Id<N> v; auto s = checkpoint::serialize(v); return std::string(s->getBuffer(), s->getSize()); }
template <int N> int read(std::string const& b) {
  Id<N> t;
  try { checkpoint::deserializeInPlace<Id<N>>(const_cast<char*>(b.data()), &t); return 0; }
  catch (std::runtime_error&) { return t.x == 7 ? 1 : 2; } catch (...) { return 3; }
}
template <size_t... I> int put(std::index_sequence<I...>) { (many_all().push_back(Entry{&make<BLOCK * 100 + int(I)>, &read<BLOCK * 100 + int(I)>}), ...); return 0; }
int reg = put(std::make_index_sequence<48>());
}
