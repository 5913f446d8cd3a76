// C07: histories of saves and restores on a modelled disk, with a crash at every system call.
#include "files.h"
using namespace files;
namespace {
std::map<std::string, Val const*>* g_safe;      // path -> what a completed save left there
std::vector<std::pair<std::string, std::string>>* g_lost;   // (path, image) that is not the saved bytes, and when
std::string g_when;
uint64_t g_points = 0;
void crash_point() {
  g_points++;
  for (auto& s : *g_safe) for (auto& im : sys::images(s.first)) {
    mc::extra("crash_images", 1);
    mc::state(s.first + im.substr(0, 64) + std::to_string(mc::hash(im)));
    if (im == "+" + s.second->bytes) continue;
    if (g_lost->size() < 20) { g_lost->emplace_back(s.first, im); g_when = sys::log(); }
  }
}
// What an image that is not byte for byte the saved one decodes to.
void check_lost(std::string const& op) {
  for (auto& l : *g_lost) {
    Val const& v = *(*g_safe)[l.first];
    char const* name = strrchr(l.first.c_str(), '/') + 1;
    MC_CHECK(l.second != "-", "%s: after a crash at [%s] the saved file %s is gone", op.c_str(), g_when.c_str(), name);
    std::string img = path("image");
    spit(img, l.second.substr(1));
    std::string got;
    try { got = v.load(img); } catch (std::exception& e) { got = std::string("exception: ") + e.what(); }
    MC_CHECK(got == v.want, "%s: after a crash at [%s] the saved file %s (%s) no longer holds the object: %zu of %zu bytes, decodes to %s", op.c_str(), g_when.c_str(), name, v.id.c_str(),
             l.second.size() - 1, v.bytes.size(), show(got, 60).c_str());
    MC_CHECK(l.second.size() - 1 == v.bytes.size(), "%s: after a crash the saved file %s has %zu bytes instead of %zu", op.c_str(), name, l.second.size() - 1, v.bytes.size());
  }
}
struct Thrower { int a = 1; bool live = false; template <typename S> void serialize(S& s) { s | a; if (live && s.isPacking()) throw std::logic_error("user"); s | a; } };
std::vector<Val> const& sizes() {
  static auto* v = new std::vector<Val>{blob(4096), blob(4097), blob(40), blob(8192), nodes(3), blob(12287), blob(4095), blob(8193), blob(12300), blob(20000)};
  return *v;
}
void history(int first, int depth, int values) {
  std::map<std::string, Val const*> safe; std::vector<std::pair<std::string, std::string>> lost;
  g_safe = &safe; g_lost = &lost; g_points = 0; g_when.clear();
  sys::disk_reset();
  static char const* names[] = {"a", "b", "c"};
  for (auto* n : names) unlink(path(n).c_str());
  sys::boundary = crash_point;
  struct Off { ~Off() { sys::disarm(); sys::boundary = nullptr; sys::release(); } } off;
  for (int step = 0; step < depth; step++) {
    int paths = std::min(step + 1, 2);
    std::vector<std::string> loadable; for (auto& s : safe) loadable.push_back(s.first);
    int saves = paths * values, loads = int(loadable.size()) * 2;
    int c = step == 0 ? first : mc::choose(saves + loads + 2);
    std::string op;
    if (c < saves) {
      std::string p = path(names[c / values]); Val const& v = sizes()[size_t(c % values)];
      op = "save " + v.id + " to " + names[c / values];
      safe.erase(p);
      { sys::Window w; v.save(p); }
      safe[p] = &v;
      { sys::Window w; crash_point(); }
      same_bytes(slurp(p), v.bytes, op.c_str());
    } else if (c < saves + loads) {
      std::string p = loadable[size_t(c - saves) / 2]; Val const& v = *safe[p];
      op = std::string((c - saves) % 2 ? "load in place " : "load ") + (strrchr(p.c_str(), '/') + 1);
      std::string got; { sys::Window w; got = (c - saves) % 2 ? v.load_into(p) : v.load(p); crash_point(); }
      same_dump(got, v.want, op.c_str());
    } else {                                           // a save or restore that fails, elsewhere
      op = c == saves + loads ? "failing save to c" : "failing load of c";
      if (c == saves + loads) { Thrower t; t.live = true; sys::Window w; try { checkpoint::serializeToFile(t, path("c")); mc::fail("INTERNAL did not throw"); } catch (std::logic_error&) {} crash_point(); }
      else { sys::Window w; try { checkpoint::deserializeFromFile<int>(path("none")); mc::fail("a missing file was restored"); } catch (std::runtime_error&) {} crash_point(); }
    }
    mc::note("%s: %s", op.c_str(), sys::log().c_str());
    mc::transition(uint64_t(sys::calls()));
    sys::disarm();
    { auto b = std::move(sys::boundary); sys::boundary = nullptr; check_lost(op); sys::boundary = crash_point; }
    lost.clear();
  }
  mc::extra("crash_points", g_points);
  mc::nontrivial();
  // at the end everything that was saved is still there
  for (auto& s : safe) { same_bytes(slurp(s.first), s.second->bytes, "at the end"); plain_load(*s.second, s.first, "at the end"); }
}
int r1 = [] {
  for (int f = 0; f < 7; f++) {
    mc::Scenario s; s.name = "history/" + std::to_string(f); s.thorough_only = f == 6;
    s.body = [f] { history(f, mc::thorough() ? 5 : 4, mc::thorough() ? 5 : 4); };
    mc::add(s);
  }
  return 0;
}();
// Every size around page boundaries, over nothing, a shorter and a longer file.
mc::Registrar r2{"sizes", [] {
  std::map<std::string, Val const*> safe; std::vector<std::pair<std::string, std::string>> lost;
  g_safe = &safe; g_lost = &lost;
  sys::disk_reset();
  std::string p = path("a");
  unlink(p.c_str());
  int page = mc::choose(mc::thorough() ? 8 : 4), d = mc::choose(8), before = mc::choose(4);
  long n = page * 4096 + d - 4;
  if (n < 40) n = 40 + d;
  if (before == 1) spit(p, "old"); else if (before == 2) spit(p, std::string(size_t(n), 'o')); else if (before == 3) spit(p, std::string(size_t(n) + 6000, 'o'));
  Val v = blob(size_t(n));
  mc::note("%ld bytes over kind %d", n, before); mc::nontrivial();
  { sys::Window w; v.save(p); }
  MC_CHECK(sys::open_fds() == 0 && sys::open_maps() == 0, "left open");
  safe[p] = &v; g_when = sys::log();
  { sys::Window w; crash_point(); }
  mc::transition(uint64_t(sys::calls()) + 1);
  check_lost("save of " + std::to_string(n) + " bytes");
  auto im = sys::images(p);
  MC_CHECK(im.size() == 1, "%zu contents are possible after a crash", im.size());
  plain_load(v, p, "after the save");
}};
// A crash in the middle of a save leaves whatever it leaves; the next run saves over it.
mc::Registrar r3{"resume", [] {
  Val const& v = sizes()[size_t(mc::choose(mc::thorough() ? 10 : 5))];
  Val const& old = sizes()[size_t(mc::choose(mc::thorough() ? 5 : 3))];
  bool over = mc::flip();
  std::string p = path("a"), q = path("b");
  unlink(p.c_str()); unlink(q.c_str());
  sys::disk_reset();
  if (over) spit(p, old.bytes);
  std::vector<std::string> torn;
  sys::boundary = [&] { for (auto& im : sys::images(p)) if (std::find(torn.begin(), torn.end(), im) == torn.end() && torn.size() < 40) torn.push_back(im); };
  { sys::Window w; v.save(p); }
  sys::boundary = nullptr;
  mc::nontrivial(); mc::note("%zu torn contents", torn.size());
  for (auto& t : torn) {
    unlink(q.c_str());
    if (t != "-") spit(q, t.substr(1));
    sys::disk_reset();
    { sys::Window w; v.save(q); }
    mc::transition(uint64_t(sys::calls()));
    mc::state(t);
    auto im = sys::images(q);
    MC_CHECK(im.size() == 1 && im[0] == "+" + v.bytes, "saved over what a crash left (%zu bytes): not durable", t.size() - 1);
    plain_load(v, q, "saved over what a crash left");
  }
}};
}
