// Values saved to and restored from files, type-erased (C06, C07).
#pragma once
#ifndef GROUP
#define GROUP 99
#endif
#include "api.h"
#include "sys.h"
namespace files {
using namespace api;
struct Val {
  std::string id, bytes, want;                              // serialized bytes and observation
  std::function<void(std::string const&)> save;             // serializeToFile
  std::function<std::string(std::string const&)> load;      // deserializeFromFile, observed
  std::function<std::string(std::string const&)> load_into; // deserializeInPlaceFromFile over another value, observed
};
template <typename T> Val val(std::string id, std::function<T()> make, std::function<T()> other) {
  Val v; v.id = id;
  { T t = make(); v.want = dumped(t); v.bytes = encode_mem(t); }
  v.save = [make](std::string const& p) { T t = make(); checkpoint::serializeToFile(t, p); };
  v.load = [](std::string const& p) { auto t = checkpoint::deserializeFromFile<T>(p); return dumped(*t); };
  v.load_into = [other](std::string const& p) { T t = other(); checkpoint::deserializeInPlaceFromFile<T>(p, &t); return dumped(t); };
  return v;
}
inline Val blob(size_t total) {       // a vector<char> whose file has the given length
  using V = std::vector<char>;
  auto mk = [](size_t n) { V v(n); for (size_t i = 0; i < n; i++) v[i] = char('A' + (i * 7 + i / 4096) % 57); return v; };
  V v1 = mk(1); size_t over = encode_mem(v1).size() - 1;
  MC_CHECK(total >= over, "INTERNAL blob");
  return val<V>("bytes" + std::to_string(total), [=] { return mk(total - over); }, [=] { return mk(3); });
}
struct Node { int x = 0; std::unique_ptr<Node> next; std::string s; template <typename S> void serialize(S& z) { z | x | next | s; } };
inline void dump(std::string& o, Node const& n) { o += std::to_string(n.x) + n.s + "("; if (n.next) dump(o, *n.next); o += ")"; }
inline std::string node_dump(Node const& n) { std::string o; dump(o, n); return o; }
inline Val nodes(int n) {
  auto mk = [n](int k) { Node r; Node* p = &r; for (int i = 0; i < n + k; i++) { p->x = i; p->s = std::string(size_t(i), 'n'); p->next = std::make_unique<Node>(); p = p->next.get(); } return r; };
  Val v; v.id = "nodes"; Node r = mk(0); v.want = node_dump(r); v.bytes = encode_mem(r);
  v.save = [=](std::string const& p) { Node t = mk(0); checkpoint::serializeToFile(t, p); };
  v.load = [](std::string const& p) { return node_dump(*checkpoint::deserializeFromFile<Node>(p)); };
  v.load_into = [=](std::string const& p) { Node t = mk(2); checkpoint::deserializeInPlaceFromFile<Node>(p, &t); return node_dump(t); };
  return v;
}
inline std::vector<Val> const& vals() {
  static auto* v = new std::vector<Val>{
    val<int>("int", [] { return 77; }, [] { return -1; }),
    val<std::string>("string", [] { return std::string("a longer string than the small buffer holds"); }, [] { return std::string("x"); }),
    val<std::map<std::string, std::vector<int>>>("map", [] { return std::map<std::string, std::vector<int>>{{"a", {1, 2}}, {"bb", {}}}; }, [] { return std::map<std::string, std::vector<int>>{{"z", {9}}}; }),
    nodes(3), blob(4096), blob(4097), blob(12345), blob(25000)};
  return *v;
}
inline void plain_save(Val const& v, std::string const& p, char const* what) {
  v.save(p);
  same_bytes(slurp(p), v.bytes, what);
}
inline void plain_load(Val const& v, std::string const& p, char const* what) { same_dump(v.load(p), v.want, what); same_dump(v.load_into(p), v.want, what); }
}
