// Another run of the same program, whatever it did before, writes the same bytes and reads ours.
#define GROUP 99
#include "c05.h"
#include <algorithm>
using namespace check;
namespace {
std::vector<Ops> sorted() { auto t = table(); std::sort(t.begin(), t.end(), [](Ops const& a, Ops const& b) { return a.id < b.id; }); return t; }
void put(std::string& o, std::string const& s) { uint64_t n = s.size(); o.append(reinterpret_cast<char*>(&n), 8); o += s; }
std::string get(std::string const& o, size_t& at) { uint64_t n; memcpy(&n, o.data() + at, 8); at += 8; auto s = o.substr(at, n); at += n; return s; }
constexpr int VALUES = 3;
// What a run does before: nothing, all types in order, reversed, starting in the middle, failing operations.
void history(int h, std::vector<Ops> const& t) {
  size_t n = t.size();
  auto act = [&](size_t i) { t[i].read(t[i].make(7)); };
  if (h == 1) for (size_t i = 0; i < n; i++) act(i);
  if (h == 2) for (size_t i = n; i-- > 0;) act(i);
  if (h == 3) for (size_t i = 0; i < n; i++) act((i * 37 + n / 2) % n);
  if (h == 4) for (size_t i = 0; i < n; i++) { try { t[i].read(t[(i + 1) % n].make(1)); } catch (std::exception&) {} }
}
void emit(int h, std::string const& file, std::vector<Ops> const& t, bool reverse) {
  history(h, t);
  std::vector<std::string> r(t.size() * VALUES);
  for (size_t k = 0; k < t.size(); k++) { size_t i = reverse ? t.size() - 1 - k : k; for (int j = 0; j < VALUES; j++) r[i * VALUES + size_t(j)] = t[i].make(uint64_t(j)); }
  std::string o; for (auto& s : r) put(o, s);
  api::spit(file, o);
}
// Reads the other run's bytes, writes what it observed.
void absorb(int h, std::string const& in, std::string const& file, std::vector<Ops> const& t) {
  history(h, t);
  std::string b = api::slurp(in), o; size_t at = 0;
  for (auto& x : t) for (int j = 0; j < VALUES; j++) {
    std::string r;
    try { r = x.read(get(b, at)); } catch (std::exception& e) { r = std::string("exception ") + e.what(); }
    put(o, r);
  }
  api::spit(file, o);
}
int child(std::vector<std::string> args) {
  pid_t p = fork();
  if (p == 0) {
    std::vector<char*> a; static char self[] = "/proc/self/exe"; a.push_back(self);
    for (auto& s : args) a.push_back(&s[0]);
    a.push_back(nullptr);
    execv("/proc/self/exe", a.data());
    _exit(126);
  }
  int st = 0; waitpid(p, &st, 0);
  return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
}
mc::Registrar reg{"xprocess", [] {
  auto t = sorted();
  int mine = mc::choose(5), theirs = mc::choose(5), dir = mc::choose(2);
  std::string A = api::path("a"), B = api::path("b");
  mc::nontrivial();
  mc::note("history %d, other run's history %d, %s", mine, theirs, dir ? "we read" : "they read");
  mc::state(uint64_t(mine * 100 + theirs * 10 + dir));
  char const* hist[] = {"0", "1", "2", "3", "4"};
  // our own observations
  std::string ours; 
  emit(mine, A, t, false);
  std::vector<std::string> bytes; { auto s = api::slurp(A); size_t at = 0; while (at < s.size()) bytes.push_back(get(s, at)); }
  std::vector<std::string> vals; for (size_t i = 0; i < t.size(); i++) for (int j = 0; j < VALUES; j++) vals.push_back(t[i].read(bytes[i * VALUES + size_t(j)]));
  mc::transition(vals.size());
  if (dir) {
    int rc = child({"--xemit", hist[theirs], B});
    MC_CHECK(rc == 0, "the other run ended with status %d", rc);
    auto s = api::slurp(B); size_t at = 0;
    for (size_t i = 0; i < t.size(); i++) for (int j = 0; j < VALUES; j++) {
      auto b = get(s, at);
      if (t[i].exact) api::same_bytes(b, bytes[i * VALUES + size_t(j)], ("another run's bytes of " + t[i].id).c_str());
      mc::transition();
    }
  } else {
    int rc = child({"--xabsorb", hist[theirs], A, B});
    MC_CHECK(rc == 0, "the other run ended with status %d", rc);
    auto s = api::slurp(B); size_t at = 0;
    for (size_t i = 0; i < t.size(); i++) for (int j = 0; j < VALUES; j++) {
      auto d = get(s, at);
      MC_CHECK(d == vals[i * VALUES + size_t(j)], "another run decoded our %s as %s instead of %s", t[i].id.c_str(), api::show(d).c_str(), api::show(vals[i * VALUES + size_t(j)]).c_str());
      mc::transition();
    }
  }
}};
}
int mc_pre_main(int argc, char** argv) {
  if (argc > 3 && !strcmp(argv[1], "--xemit")) { emit(atoi(argv[2]), argv[3], sorted(), true); return 0; }
  if (argc > 4 && !strcmp(argv[1], "--xabsorb")) { absorb(atoi(argv[2]), argv[3], argv[4], sorted()); return 0; }
  return -1;
}
