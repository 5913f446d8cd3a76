// C06: every system call of saving and restoring fails, in every way, alone and with others.
#include "files.h"
#include <csignal>
#include <filesystem>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/un.h>
using namespace files;
namespace {
std::vector<int> all_errnos() { std::vector<int> e; for (int i = 1; i <= 133; i++) if (i != 41 && i != 58) e.push_back(i); return e; }
std::vector<int> some_errnos() { return {EIO, ENOSPC, EINTR, EINVAL, EOPNOTSUPP}; }
struct Outcome { bool threw = false, runtime = false; std::string what, got; };
template <typename F> Outcome attempt(sys::Faults f, F op) {
  Outcome o;
  sys::Window w(std::move(f));
  try { o.got = op(); }
  catch (std::runtime_error& e) { o.threw = o.runtime = true; o.what = e.what(); }
  catch (mc::Violation&) { throw; }
  catch (std::exception& e) { o.threw = true; o.what = std::string(typeid(e).name()) + ": " + e.what(); }
  return o;
}
void no_leaks() {
  int fds = sys::open_fds(), maps = sys::open_maps();
  std::string l = sys::log();
  sys::release();
  MC_CHECK(fds == 0, "%d descriptor(s) left open after: %s", fds, l.c_str());
  MC_CHECK(maps == 0, "%d mapping(s) left behind after: %s", maps, l.c_str());
}
void still_works(Val const& v, std::string const& p) {
  plain_save(v, p, "later save on the same path"); plain_load(v, p, "later restore on the same path");
  std::string q = path("other");
  unlink(q.c_str());
  plain_save(v, q, "later save on another path"); plain_load(v, q, "later restore on another path");
}
enum Op { SAVE, SAVE_OVER_LONGER, SAVE_OVER_SHORTER, LOAD, LOAD_INTO, SAVE_LOAD, OPS };
char const* op_name(int o) { static char const* n[] = {"save", "save-over-longer", "save-over-shorter", "load", "load-into", "save-load"}; return n[o]; }
bool saves(int o) { return o != LOAD && o != LOAD_INTO; }
void one(int op, Val const& v, int budget, std::vector<int> errnos) {
  std::string p = path("f");
  unlink(p.c_str());
  if (op == SAVE_OVER_LONGER) spit(p, std::string(v.bytes.size() + 9000, 'o'));
  if (op == SAVE_OVER_SHORTER) spit(p, std::string(3, 'o'));
  if (!saves(op)) spit(p, v.bytes);
  sys::disk_reset();
  auto o = attempt(sys::Faults{budget, std::move(errnos)}, [&]() -> std::string {
    if (op == LOAD) return v.load(p);
    if (op == LOAD_INTO) return v.load_into(p);
    v.save(p);
    return op == SAVE_LOAD ? v.load(p) : v.want;
  });
  mc::transition(uint64_t(sys::calls()));
  mc::note("%s: %s%s", sys::log().c_str(), o.threw ? "threw " : "completed", o.what.c_str());
  mc::state(sys::log() + (o.threw ? "!" : "."));
  if (sys::injected()) mc::nontrivial();
  MC_CHECK(sys::calls() >= 1, "INTERNAL: the operation was not observed");
  if (o.threw) {
    MC_CHECK(sys::injected() > 0, "nothing failed but it threw: %s", o.what.c_str());
    MC_CHECK(o.runtime, "after [%s] it threw something else than runtime_error: %s", sys::log().c_str(), o.what.c_str());
    MC_CHECK(!o.what.empty(), "exception without a message after [%s]", sys::log().c_str());
  } else {
    std::string l = sys::log();
    MC_CHECK(o.got == v.want, "after [%s] it returned as if it had succeeded, with a wrong object", l.c_str());
    if (saves(op)) {
      MC_CHECK(slurp(p) == v.bytes, "after [%s] it returned as if it had succeeded, but the file is wrong (%zu bytes instead of %zu)", l.c_str(), slurp(p).size(), v.bytes.size());
      for (auto& im : sys::images(p)) MC_CHECK(im == "+" + v.bytes, "after [%s] it returned as if it had succeeded, but the file is not on stable storage", l.c_str());
    }
  }
  if (!saves(op)) MC_CHECK(slurp(p) == v.bytes, "restoring changed the file, after [%s]", sys::log().c_str());
  no_leaks();
  still_works(v, p);
}
int r1 = [] {
  for (size_t t = 0; t < 8; t++) for (int op = 0; op < OPS; op++) {
    static char const* ids[] = {"int", "string", "map", "nodes", "bytes4096", "bytes4097", "bytes12345", "bytes25000"};
    mc::add({std::string("single/") + op_name(op) + "/" + ids[t], [=] { one(op, vals()[t], 1, all_errnos()); }});
    mc::Scenario d; d.name = std::string("double/") + op_name(op) + "/" + ids[t]; d.body = [=] { one(op, vals()[t], 2, some_errnos()); };
    d.thorough_only = t != 1 && t != 5; mc::add(d);
    mc::Scenario m; m.name = std::string("triple/") + op_name(op) + "/" + ids[t]; m.body = [=] { one(op, vals()[t], 3, some_errnos()); };
    m.thorough_only = true; if (t == 1 || t == 5) mc::add(m);
  }
  return 0;
}();

// ---- operations that fail for another reason, while calls fail as well --------------------------------------------
struct UserError : std::logic_error { using std::logic_error::logic_error; };
int g_throw_phase = -1, g_throw_step = -1;      // 0 sizing, 1 packing, 2 unpacking
struct Thrower {
  int a = 1, b = 2; std::string c = "three"; int extra = 0;
  template <typename S> void serialize(S& s) {
    int phase = s.isSizing() ? 0 : s.isPacking() ? 1 : 2;
    auto at = [&](int step) { if (g_throw_phase == phase && g_throw_step == step) throw UserError("user"); };
    at(0); s | a; at(1); s | b; at(2); s | c; at(3);
    if (extra > 0 && s.isPacking()) s | extra;
    if (extra < 0 && s.isSizing()) s | extra;
  }
};
mc::Registrar r2{"failing", [] {
  std::string p = path("f");
  unlink(p.c_str());
  Thrower t; g_throw_phase = -1;
  std::string good = encode_mem(t);
  sys::disk_reset();
  int kind = mc::choose(7);
  bool own = true;
  std::function<void()> op;
  if (kind <= 2) {
    g_throw_step = mc::choose(4);
    int phase = kind;
    if (kind == 2) spit(p, good);
    op = [&, phase] { g_throw_phase = phase; if (phase == 2) { if (mc::flip()) checkpoint::deserializeFromFile<Thrower>(p); else { Thrower u; checkpoint::deserializeInPlaceFromFile<Thrower>(p, &u); } } else checkpoint::serializeToFile(t, p); };
  } else if (kind == 3) { t.extra = mc::flip() ? 1 : -1; own = false; op = [&] { checkpoint::serializeToFile(t, p); }; }
  else if (kind == 4) { size_t k = size_t(mc::choose(int(good.size()))); spit(p, good.substr(0, k)); own = false; op = [&] { checkpoint::deserializeFromFile<Thrower>(p); }; }
  else if (kind == 5) { spit(p, good); own = false; op = [&] { checkpoint::deserializeFromFile<std::string>(p); }; }
  else { spit(p, good); own = false; op = [&] { std::string s; checkpoint::deserializeInPlaceFromFile<std::string>(p, &s); }; }
  bool user = false, rt = false; std::string what;
  {
    sys::Window w(sys::Faults{mc::thorough() ? 2 : 1, some_errnos()});
    try { op(); } catch (UserError&) { user = true; } catch (std::runtime_error& e) { rt = true; what = e.what(); }
  }
  g_throw_phase = -1;
  mc::transition(uint64_t(sys::calls())); mc::nontrivial();
  mc::note("kind %d: %s: %s", kind, sys::log().c_str(), user ? "user's exception" : what.c_str());
  mc::state(std::to_string(kind) + sys::log());
  MC_CHECK(user || rt, "kind %d after [%s]: nothing was thrown", kind, sys::log().c_str());
  if (!sys::injected()) MC_CHECK(own ? user : rt, "kind %d after [%s]: got %s", kind, sys::log().c_str(), user ? "the user's exception" : what.c_str());
  no_leaks();
  still_works(vals()[0], p);
}};

// ---- hostile surroundings, no injection --------------------------------------------------------------------------
mc::Registrar r3{"surroundings", [] {
  static char const* kinds[] = {"missing", "directory", "missing directory", "below a file", "empty path", "symlink loop", "dangling symlink", "too long", "full device",
                                "null device", "socket", "no descriptors", "no space for file", "empty file", "embedded nul", "descriptor 0", "descriptors 0-2", "symlink", "hard link", "read-only file", "trailing slash"};
  int k = mc::choose(21), op = mc::choose(3);
  Val const& v = vals()[size_t(mc::choose(2)) * 6];
  std::string d = path("d"), p;
  std::filesystem::remove_all(d);
  mkdir(d.c_str(), 0700);
  int expect = -1;     // 1 must work, 0 must throw, -1 either, but consistently
  struct rlimit old; struct sigaction oldsa; int saved[3] = {-1, -1, -1};
  auto file = [&](char const* n) { p = d + "/" + n; if (op != 0) spit(p, v.bytes); };
  switch (k) {
    case 0: p = d + "/none"; expect = op == 0; break;
    case 1: p = d; expect = 0; break;
    case 2: p = d + "/none/f"; expect = 0; break;
    case 3: spit(d + "/x", "x"); p = d + "/x/f"; expect = 0; break;
    case 4: p = ""; expect = 0; break;
    case 5: if (symlink((d + "/l2").c_str(), (d + "/l1").c_str()) || symlink((d + "/l1").c_str(), (d + "/l2").c_str())) mc::fail("INTERNAL"); p = d + "/l1"; expect = 0; break;
    case 6: if (symlink((d + "/t").c_str(), (d + "/l").c_str())) mc::fail("INTERNAL"); p = d + "/l"; expect = op == 0; break;
    case 7: p = d + "/" + std::string(5000, 'q'); expect = 0; break;
    case 8: p = "/dev/full"; expect = 0; break;
    case 9: p = "/dev/null"; expect = 0; break;
    case 10: {
      if (d.size() > 90) return;
      int s = socket(AF_UNIX, SOCK_STREAM, 0); struct sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX; snprintf(a.sun_path, sizeof a.sun_path, "%s/s", d.c_str());
      if (s < 0 || bind(s, reinterpret_cast<struct sockaddr*>(&a), sizeof a) != 0) { if (s >= 0) close(s); return; }
      close(s); p = d + "/s"; expect = 0; break;
    }
    case 11: file("f"); getrlimit(RLIMIT_NOFILE, &old); { struct rlimit l = old; l.rlim_cur = 3; setrlimit(RLIMIT_NOFILE, &l); } expect = -1; break;
    case 12: file("f"); getrlimit(RLIMIT_FSIZE, &old); { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = SIG_IGN; sigaction(SIGXFSZ, &sa, &oldsa); struct rlimit l = old; l.rlim_cur = 4; setrlimit(RLIMIT_FSIZE, &l); } expect = op != 0; break;
    case 13: p = d + "/e"; spit(p, ""); expect = op == 0; break;
    case 14: p = d + "/n" + std::string(1, '\0') + "x"; if (op != 0) spit(d + "/n", v.bytes); break;
    case 15: file("f"); saved[0] = dup(0); close(0); expect = 1; break;
    case 16: file("f"); for (int i = 0; i < 3; i++) { saved[i] = dup(i); } for (int i = 0; i < 3; i++) close(i); expect = 1; break;
    case 17: spit(d + "/t", op ? v.bytes : "old content that is longer than what is written, or not, as it happens"); if (symlink((d + "/t").c_str(), (d + "/l").c_str())) mc::fail("INTERNAL"); p = d + "/l"; expect = 1; break;
    case 18: spit(d + "/t", op ? v.bytes : "old"); if (link((d + "/t").c_str(), (d + "/l").c_str())) mc::fail("INTERNAL"); p = d + "/l"; expect = 1; break;
    case 19: file("f"); if (op == 0) spit(p, "x"); chmod(p.c_str(), 0400); expect = op ? 1 : -1; break;
    default: file("f"); p += "/"; expect = 0; break;
  }
  mc::note("%s: %s", op == 0 ? "save" : op == 1 ? "load" : "load in place", kinds[k]);
  mc::state(uint64_t(k * 3 + op)); mc::nontrivial();
  sys::disk_reset();
  auto o = attempt({}, [&]() -> std::string { if (op == 0) { v.save(p); return v.want; } return op == 1 ? v.load(p) : v.load_into(p); });
  if (k == 11) setrlimit(RLIMIT_NOFILE, &old);
  if (k == 12) { setrlimit(RLIMIT_FSIZE, &old); sigaction(SIGXFSZ, &oldsa, nullptr); }
  for (int i = 0; i < 3; i++) if (saved[i] >= 0) { dup2(saved[i], i); close(saved[i]); }
  mc::transition(uint64_t(sys::calls()));
  if (o.threw) MC_CHECK(o.runtime, "%s: threw something else than runtime_error: %s", kinds[k], o.what.c_str());
  if (expect >= 0) MC_CHECK(o.threw == !expect, "%s: %s (%s)", kinds[k], o.threw ? "threw" : "did not throw", o.what.c_str());
  if (!o.threw) { MC_CHECK(o.got == v.want, "%s: wrong object", kinds[k]); if (op == 0 && k != 14) same_bytes(slurp(p), v.bytes, kinds[k]); }
  if (op == 1 && o.threw && expect < 0 && k == 11) MC_CHECK(o.threw, "no descriptors");
  no_leaks();
  still_works(vals()[0], path("f"));
  std::filesystem::remove_all(d);
}};
}
