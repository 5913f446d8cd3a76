// See ctlsched.h. This file is compiled without instrumentation.
#include "ctlsched.h"
#include "explore.h"
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <map>
#include <unordered_map>
#include <dlfcn.h>
#include <fcntl.h>
#include <locale.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t); }

namespace {
constexpr int MAXT = 4;
constexpr size_t ARENA = size_t(1) << 30, STACK = 4 << 20, TABLE = 1 << 17, MAXSEG = 1 << 15, MAXPOINTS = 1 << 16, OUT = 1 << 18;

struct Entry { uint64_t g; uint32_t seg; uint8_t r, w, ar, aw; uintptr_t pc; };   // byte masks of a granule in one segment
struct VC { uint32_t c[MAXT]; };
enum State : int { READY, BLOCKED, DONE };
struct Thread {
  sem_t sem; pthread_t tid; State state = READY;
  char *stack = nullptr, *arena = nullptr, *top = nullptr;
  Entry* list = nullptr; uint32_t* table = nullptr; uint32_t entries = 0;   // what it accessed, and an index of that (0: free)
  char* maps = nullptr;
  VC* vc = nullptr; uint32_t seg = 0;        // vc[s]: what this thread knew in its segment s
  std::string* out = nullptr; sched::Body const* body = nullptr;
  void const* waits = nullptr;
  uint64_t last_point = 0; int spins = 0;
};
struct Shm {
  uint32_t n_prefix, n_points; uint8_t prefix[MAXPOINTS]; sched::Point points[MAXPOINTS];
  uint32_t n_conf; uint64_t conf[1 << 14];
  char race[1024], error[1024]; uint64_t accesses, switches;
  uint32_t len[MAXT]; char out[MAXT][OUT];
  bool done;
};
thread_local int me = -1;
Thread T[MAXT]; int nthreads = 0, cur = -1, preemptions = 0, max_preemptions = 0; bool sys_points = false;
uint64_t n_access = 0, n_switch = 0;
sem_t finished;
Shm* shm = nullptr;
char* arenas = nullptr;                      // reserved before the first fork, so that addresses repeat
char* stacks = nullptr;
uint64_t shared_set[1 << 16]; uint32_t shared_n = 0;
struct SyncObj { VC vc; int owner = -1; int count = 0; int readers = 0; };
std::map<void const*, SyncObj>* syncs = nullptr;

[[noreturn]] void die(char const* fmt, ...) {
  va_list ap; va_start(ap, fmt); vsnprintf(shm->error, sizeof shm->error, fmt, ap); va_end(ap);
  shm->done = true; _exit(0);
}
uint64_t hashg(uint64_t g) { g *= 0x9e3779b97f4a7c15ull; return g ^ (g >> 29); }
bool is_shared(uint64_t g) {
  if (!shared_n) return false;
  for (uint64_t h = hashg(g);; h++) { uint64_t v = shared_set[h & 0xffff]; if (!v) return false; if (v == g) return true; }
}
void add_shared(uint64_t g) {
  for (uint64_t h = hashg(g);; h++) { uint64_t& v = shared_set[h & 0xffff]; if (v == g) return; if (!v) { v = g; shared_n++; return; } }
}

// ---- scheduling ------------------------------------------------------------------------------------------------
int decide(int const* opt, int n) {
  if (n == 1) return opt[0];
  uint32_t i = shm->n_points;
  if (i >= MAXPOINTS) die("INTERNAL too many scheduling points");
  int c = i < shm->n_prefix ? shm->prefix[i] : 0;
  if (c >= n) die("INTERNAL divergence: choice %d of %d at scheduling point %u", c, n, i);
  shm->points[i] = {uint8_t(n), uint8_t(c)}; shm->n_points = i + 1;
  return opt[c];
}
int options(int* opt) {
  int n = 0;
  if (me >= 0 && T[me].state == READY) opt[n++] = me;
  for (int t = 0; t < nthreads; t++) if (t != me && T[t].state == READY) opt[n++] = t;
  return n;
}
void hand_over(int t) {
  int self = me;
  if (t == self) return;
  n_switch++; cur = t;
  int e = errno;
  sem_post(&T[t].sem);
  if (T[self].state != DONE) while (sem_wait(&T[self].sem) != 0) {}
  errno = e;
}
void point(uint64_t g) {
  Thread& t = T[me];
  int opt[MAXT], n = options(opt);
  if (n <= 1) return;
  if (t.last_point == g) { if (++t.spins > 400) { t.spins = 0; hand_over(opt[1 + n_switch % (n - 1)]); return; } }   // a spinning thread lets the others go on
  else { t.last_point = g; t.spins = 0; }
  if (preemptions >= max_preemptions) return;
  int c = decide(opt, n);
  if (c != me) { preemptions++; T[c].spins = 0; hand_over(c); }
}
void block(void const* on) {
  T[me].state = BLOCKED; T[me].waits = on;
  int opt[MAXT], n = options(opt);
  if (n == 0) die("deadlock: every thread waits");
  hand_over(decide(opt, n));
}
void wake(void const* on) { for (int t = 0; t < nthreads; t++) if (T[t].state == BLOCKED && T[t].waits == on) T[t].state = READY; }

// ---- what threads did ------------------------------------------------------------------------------------------
void new_segment() {
  Thread& t = T[me];
  if (t.seg + 1 >= MAXSEG) die("INTERNAL too many synchronisations");
  t.vc[t.seg + 1] = t.vc[t.seg]; t.seg++; t.vc[t.seg].c[me] = t.seg;
}
SyncObj& sync(void const* p) { int m = me; me = -1; SyncObj& s = (*syncs)[p]; me = m; return s; }
void acquire(SyncObj& s) { new_segment(); for (int i = 0; i < nthreads; i++) if (i != me) T[me].vc[T[me].seg].c[i] = std::max(T[me].vc[T[me].seg].c[i], s.vc.c[i]); }
void release(SyncObj& s) { for (int i = 0; i < nthreads; i++) s.vc.c[i] = std::max(s.vc.c[i], T[me].vc[T[me].seg].c[i]); new_segment(); }

enum Kind { READ, WRITE, AREAD, AWRITE };
void record(uint64_t g, uint8_t mask, Kind k, uintptr_t pc) {
  Thread& t = T[me];
  for (uint64_t h = hashg(g ^ (uint64_t(t.seg) << 45));; h++) {
    uint32_t& at = t.table[h & (TABLE - 1)];
    if (at && (t.list[at].g != g || t.list[at].seg != t.seg)) continue;
    if (!at) {
      if (++t.entries > TABLE * 3 / 4) die("INTERNAL access table is full");
      at = t.entries; t.list[at].g = g; t.list[at].seg = t.seg; t.list[at].pc = pc;
    }
    Entry& e = t.list[at];
    if (k == WRITE && !e.w) e.pc = pc;
    (k == READ ? e.r : k == WRITE ? e.w : k == AREAD ? e.ar : e.aw) |= mask;
    return;
  }
}
bool own(char const* p) {
  Thread& t = T[me];
  return p >= t.stack && p < t.stack + STACK;
}
void access(void const* v, size_t n, Kind k, void* pc) {
  if (me < 0 || n == 0) return;
  char const* p = static_cast<char const*>(v);
  if (own(p)) return;
  n_access++;
  uint64_t a = reinterpret_cast<uint64_t>(p), b = a + n;
  for (uint64_t g = a >> 3; g <= (b - 1) >> 3; g++) if (is_shared(g)) { point(g); break; }
  for (uint64_t g = a >> 3; g <= (b - 1) >> 3; g++) {
    unsigned lo = g == a >> 3 ? unsigned(a & 7) : 0, hi = g == (b - 1) >> 3 ? unsigned((b - 1) & 7) : 7;
    record(g, uint8_t((0xff << lo) & (0xff >> (7 - hi))), k, reinterpret_cast<uintptr_t>(pc));
  }
}
// A call that concerns files or the process: one shared object, of which every call is a read and a write.
void syscall_point(void* pc) {
  if (me < 0 || !sys_points) return;
  uint64_t g = 2;
  point(g);
  record(g, 1, AWRITE, reinterpret_cast<uintptr_t>(pc));
}

void analyse() {
  struct Ref { int t; Entry* e; };
  std::unordered_map<uint64_t, std::vector<Ref>> by;
  for (int t = 0; t < nthreads; t++) for (uint32_t i = 1; i <= T[t].entries; i++) by[T[t].list[i].g].push_back({t, &T[t].list[i]});
  std::vector<uint64_t> conf;
  for (auto& x : by) {
    auto& v = x.second; bool c = false;
    for (size_t i = 0; i < v.size(); i++) for (size_t j = i + 1; j < v.size(); j++) {
      if (v[i].t == v[j].t) continue;
      Entry &a = *v[i].e, &b = *v[j].e;
      uint8_t aw = a.w | a.aw, bw = b.w | b.aw, at = a.r | a.ar | aw, bt = b.r | b.ar | bw;
      if (!((aw & bt) | (bw & at))) continue;
      c = true;
      if (!(((a.w & bt) | (b.w & at) | (a.aw & (b.r | b.w)) | (b.aw & (a.r | a.w))))) continue;
      bool ab = T[v[j].t].vc[b.seg].c[v[i].t] >= a.seg;
      bool ba = T[v[i].t].vc[a.seg].c[v[j].t] >= b.seg;
      // a segment is known to another thread only after it was released: segments start at 1, 0 is "nothing known"
      if (!ab && !ba && !shm->race[0])
        snprintf(shm->race, sizeof shm->race, "%s at 0x%zx and %s at 0x%zx", a.w ? "write" : "read", size_t(a.pc), b.w ? "write" : "read", size_t(b.pc));
    }
    if (c) conf.push_back(x.first);
  }
  std::sort(conf.begin(), conf.end());
  for (uint64_t g : conf) if (shm->n_conf < (1 << 14)) shm->conf[shm->n_conf++] = g;
}

void* thread_main(void* arg) {
  int t = int(reinterpret_cast<intptr_t>(arg));
  while (sem_wait(&T[t].sem) != 0) {}
  me = t;
  std::string r;
  try { r = (*T[t].body)(); }
  catch (mc::Violation& v) { r = "violation: " + v.msg; }
  catch (std::exception& e) { r = std::string("uncaught ") + e.what(); }
  size_t n = std::min(r.size(), OUT);
  shm->len[t] = uint32_t(n);
  for (size_t i = 0; i < n; i++) shm->out[t][i] = r[i];
  T[t].state = DONE;
  int opt[MAXT], k = 0;
  bool all = true;
  for (int i = 0; i < nthreads; i++) { if (T[i].state == READY) opt[k++] = i; all = all && T[i].state == DONE; }
  if (all) { me = -1; sem_post(&finished); return nullptr; }
  if (k == 0) die("deadlock: a thread ended while every other one waits");
  int c = decide(opt, k);
  me = -1;
  n_switch++; cur = c; sem_post(&T[c].sem);
  return nullptr;
}

void child(std::vector<sched::Body> const& bodies, int bound, bool syscalls) {
  alarm(30);
  syncs = new std::map<void const*, SyncObj>;
  nthreads = int(bodies.size()); max_preemptions = bound; sys_points = syscalls;
  sem_init(&finished, 0, 0);
  for (int t = 0; t < nthreads; t++) {
    Thread& x = T[t];
    sem_init(&x.sem, 0, 0);
    x.stack = stacks + size_t(t) * STACK; x.arena = x.top = arenas + size_t(t) * ARENA;
    x.maps = reinterpret_cast<char*>(uintptr_t(0x200000000000) + (uintptr_t(t) << 40));
    x.list = static_cast<Entry*>(mmap(nullptr, TABLE * sizeof(Entry), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    x.table = static_cast<uint32_t*>(mmap(nullptr, TABLE * sizeof(uint32_t), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    x.vc = static_cast<VC*>(mmap(nullptr, MAXSEG * sizeof(VC), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    x.seg = 1; x.vc[1].c[t] = 1; x.body = &bodies[size_t(t)];
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, x.stack, STACK);
    if (pthread_create(&x.tid, &at, thread_main, reinterpret_cast<void*>(intptr_t(t))) != 0) die("INTERNAL pthread_create");
  }
  int opt[MAXT]; for (int t = 0; t < nthreads; t++) opt[t] = t;
  cur = decide(opt, nthreads);
  sem_post(&T[cur].sem);
  while (sem_wait(&finished) != 0) {}
  analyse();
  shm->accesses = n_access; shm->switches = n_switch;
  shm->done = true;
  _exit(0);
}
void init() {
  if (shm) return;
  shm = static_cast<Shm*>(mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  arenas = static_cast<char*>(mmap(nullptr, MAXT * ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  stacks = static_cast<char*>(mmap(nullptr, MAXT * STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  if (shm == MAP_FAILED || arenas == MAP_FAILED || stacks == MAP_FAILED) { perror("mmap"); _exit(2); }
}
std::string where(std::string const& race) {     // adds source lines to the code addresses of a race
  std::string cmd = "addr2line -Cfpse /proc/" + std::to_string(getpid()) + "/exe";
  size_t i = 0; bool any = false;
  while ((i = race.find("0x", i)) != std::string::npos) { size_t e = race.find_first_not_of("0123456789abcdefx", i); char b[32]; snprintf(b, sizeof b, " 0x%lx", strtoul(race.substr(i, e - i).c_str(), nullptr, 16) - 1); cmd += b; i = e == std::string::npos ? race.size() : e; any = true; }
  if (!any) return race;
  std::string o = race;
  if (FILE* f = popen((cmd + " 2>/dev/null").c_str(), "r")) { char b[2000]; size_t n = fread(b, 1, sizeof b, f); pclose(f); o += " (" + std::string(b, n) + ")"; }
  for (auto& c : o) if (c == '\n') c = ';';
  return o;
}
std::string shorten(std::string const& s) { std::string o; for (unsigned char c : s.substr(0, 200)) { char b[5]; if (c >= 32 && c < 127) o += char(c); else { snprintf(b, sizeof b, "\\%02x", c); o += b; } } return o; }
} // namespace

namespace sched {
Result run(std::vector<Body> const& bodies, std::vector<uint8_t> const& prefix, int bound, std::vector<uint64_t> const& shared, bool syscalls) {
  init();
  size_t used = shm->n_points; memset(shm->points, 0, used * sizeof(Point));
  shm->n_prefix = uint32_t(prefix.size()); std::copy(prefix.begin(), prefix.end(), shm->prefix);
  shm->n_points = shm->n_conf = 0; shm->race[0] = shm->error[0] = 0; shm->done = false; shm->accesses = shm->switches = 0;
  for (auto& l : shm->len) l = 0;
  pid_t p = fork();
  if (p < 0) mc::fail("INTERNAL fork: %s", strerror(errno));
  if (p == 0) { for (uint64_t g : shared) add_shared(g); child(bodies, bound, syscalls); }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  Result r;
  r.points.assign(shm->points, shm->points + shm->n_points);
  r.error = shm->error;
  if (!shm->done) r.error = WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? "hang: the threads did not finish in 30 s" : WIFSIGNALED(st) ? std::string("crash: signal ") + std::to_string(WTERMSIG(st)) : "the process ended with status " + std::to_string(WEXITSTATUS(st));
  r.race = shm->race;
  r.conflicts.assign(shm->conf, shm->conf + shm->n_conf);
  r.accesses = shm->accesses; r.switches = shm->switches;
  for (size_t t = 0; t < bodies.size(); t++) r.out.emplace_back(shm->out[t], shm->len[t]);
  return r;
}
std::string alone(Body const& b) {
  Result r = run({b}, {}, 0, {}, false);
  if (!r.error.empty()) mc::fail("alone: %s", r.error.c_str());
  return r.out[0];
}
std::string in_process(std::function<std::string()> const& f) {
  init();
  shm->done = false;
  pid_t p = fork();
  if (p < 0) mc::fail("INTERNAL fork: %s", strerror(errno));
  if (p == 0) { alarm(60); std::string s = f(); if (s.size() > OUT) _exit(3); memcpy(shm->out[0], s.data(), s.size()); shm->len[0] = uint32_t(s.size()); shm->done = true; _exit(0); }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (!shm->done) mc::fail("preparing an operation failed with status %d", st);
  return std::string(shm->out[0], shm->len[0]);
}
Stats explore(std::vector<Body> const& bodies, std::vector<std::string> const& want, int bound, bool syscalls, uint64_t cap) {
  Stats s; s.bound = bound;
  std::vector<uint64_t> shared;
  if (syscalls) shared.push_back(2);
  auto check = [&](Result const& r) -> std::string {
    if (!r.error.empty()) return r.error;
    for (size_t t = 0; t < bodies.size(); t++) if (r.out[t] != want[t]) return "thread " + std::to_string(t) + " got another result than alone: " + shorten(r.out[t]) + " instead of " + shorten(want[t]);
    if (!r.race.empty()) return "data race: " + r.race;
    return "";
  };
  bool first = true;
again:
  std::vector<std::vector<uint8_t>> todo{{}};
  while (!todo.empty()) {
    std::vector<uint8_t> prefix = std::move(todo.back()); todo.pop_back();
    Result r = run(bodies, prefix, bound, shared, syscalls);
    s.schedules++; s.points += r.points.size(); s.switches += r.switches; s.accesses += r.accesses;
    mc::executions(1); mc::transition(r.points.size() + 1);
    std::string e = check(r);
    if (!e.empty()) {
      std::vector<uint8_t> full; for (auto& p : r.points) full.push_back(p.chosen);
      Result again = run(bodies, full, bound, shared, syscalls);     // the same schedule must fail again
      std::string sch; for (auto c : full) sch += std::to_string(int(c)); 
      while (!sch.empty() && sch.back() == '0') sch.pop_back();
      if (check(again).empty()) mc::fail("INTERNAL a failing schedule did not repeat: %s (schedule %s)", e.c_str(), sch.c_str());
      mc::fail("%s (schedule %s)", where(e).c_str(), sch.c_str());
    }
    bool grew = false;
    for (uint64_t g : r.conflicts) if (std::find(shared.begin(), shared.end(), g) == shared.end()) { shared.push_back(g); grew = true; }
    if (grew) { first = true; goto again; }
    if (first) {       // the largest bound within the budget, judged by the decisions of the first schedule
      first = false;
      double n = double(r.points.size()), e = 1; int b = 0;
      while (b < bound && (b == 0 || e * n / (b + 1) <= double(cap))) { e = e * n / (b + 1); b++; }
      if (b < bound) { s.bound = bound = b; goto again; }
    }
    if (r.points.size() < prefix.size()) mc::fail("INTERNAL a schedule has fewer decisions than its prefix");
    for (size_t i = r.points.size(); i-- > prefix.size();) for (int alt = r.points[i].n - 1; alt >= 1; alt--) {
      std::vector<uint8_t> p; for (size_t k = 0; k < i; k++) p.push_back(r.points[k].chosen);
      p.push_back(uint8_t(alt)); todo.push_back(std::move(p));
    }
    if (s.schedules >= 8 * cap + 1000 && !todo.empty()) { s.capped = true; break; }
  }
  s.shared = shared.size();
  return s;
}
} // namespace sched

// ---- instrumentation -------------------------------------------------------------------------------------------
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N) \
  void __tsan_read##N(void* p) { access(p, N, READ, PC); } void __tsan_write##N(void* p) { access(p, N, WRITE, PC); } \
  void __tsan_unaligned_read##N(void* p) { access(p, N, READ, PC); } void __tsan_unaligned_write##N(void* p) { access(p, N, WRITE, PC); } \
  void __tsan_volatile_read##N(void* p) { access(p, N, READ, PC); } void __tsan_volatile_write##N(void* p) { access(p, N, WRITE, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void* p, void*) { access(p, 8, WRITE, PC); }
void __tsan_vptr_read(void* p) { access(p, 8, READ, PC); }
void __tsan_read_range(void* p, size_t n) { access(p, n, READ, PC); }
void __tsan_write_range(void* p, size_t n) { access(p, n, WRITE, PC); }
} // extern "C"
namespace {
void before_atomic(void const* p, size_t n, bool write, void* pc) { access(p, n, write ? AWRITE : AREAD, pc); }
void after_load(void const* p) { if (me >= 0) acquire(sync(p)); }
void around_store(void const* p) { if (me >= 0) release(sync(p)); }
}
extern "C" {
#define ATOMIC(B, X) \
  X __tsan_atomic##B##_load(X const volatile* p, int) { before_atomic((void const*)p, sizeof(X), false, PC); after_load((void const*)p); return __atomic_load_n(p, 5); } \
  void __tsan_atomic##B##_store(X volatile* p, X v, int) { before_atomic((void const*)p, sizeof(X), true, PC); around_store((void const*)p); __atomic_store_n(p, v, 5); } \
  X __tsan_atomic##B##_exchange(X volatile* p, X v, int) { before_atomic((void const*)p, sizeof(X), true, PC); after_load((void const*)p); around_store((void const*)p); return __atomic_exchange_n(p, v, 5); } \
  X __tsan_atomic##B##_fetch_add(X volatile* p, X v, int) { before_atomic((void const*)p, sizeof(X), true, PC); after_load((void const*)p); around_store((void const*)p); return __atomic_fetch_add(p, v, 5); } \
  X __tsan_atomic##B##_fetch_sub(X volatile* p, X v, int) { before_atomic((void const*)p, sizeof(X), true, PC); after_load((void const*)p); around_store((void const*)p); return __atomic_fetch_sub(p, v, 5); } \
  X __tsan_atomic##B##_fetch_and(X volatile* p, X v, int) { before_atomic((void const*)p, sizeof(X), true, PC); after_load((void const*)p); around_store((void const*)p); return __atomic_fetch_and(p, v, 5); } \
  X __tsan_atomic##B##_fetch_or(X volatile* p, X v, int) { before_atomic((void const*)p, sizeof(X), true, PC); after_load((void const*)p); around_store((void const*)p); return __atomic_fetch_or(p, v, 5); } \
  X __tsan_atomic##B##_fetch_xor(X volatile* p, X v, int) { before_atomic((void const*)p, sizeof(X), true, PC); after_load((void const*)p); around_store((void const*)p); return __atomic_fetch_xor(p, v, 5); } \
  int __tsan_atomic##B##_compare_exchange_strong(X volatile* p, X* c, X v, int, int) { before_atomic((void const*)p, sizeof(X), true, PC); after_load((void const*)p); around_store((void const*)p); return __atomic_compare_exchange_n(p, c, v, 0, 5, 5); } \
  int __tsan_atomic##B##_compare_exchange_weak(X volatile* p, X* c, X v, int, int) { before_atomic((void const*)p, sizeof(X), true, PC); after_load((void const*)p); around_store((void const*)p); return __atomic_compare_exchange_n(p, c, v, 0, 5, 5); } \
  X __tsan_atomic##B##_compare_exchange_val(X volatile* p, X c, X v, int, int) { before_atomic((void const*)p, sizeof(X), true, PC); after_load((void const*)p); around_store((void const*)p); __atomic_compare_exchange_n(p, &c, v, 0, 5, 5); return c; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// Bulk memory functions, which the instrumentation relies on the runtime to see.
void* memcpy(void* d, void const* s, size_t n) { if (me >= 0) { access(s, n, READ, PC); access(d, n, WRITE, PC); } void* r = d; __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); return r; }
void* memmove(void* d, void const* s, size_t n) {
  if (me >= 0) { access(s, n, READ, PC); access(d, n, WRITE, PC); }
  void* r = d;
  if (d <= s || (char*)d >= (char const*)s + n) __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  else { char* x = (char*)d + n - 1; char const* y = (char const*)s + n - 1; __asm__ volatile("std\n rep movsb\n cld" : "+D"(x), "+S"(y), "+c"(n) : : "memory"); }
  return r;
}
void* memset(void* d, int c, size_t n) { if (me >= 0) access(d, n, WRITE, PC); void* r = d; __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory"); return r; }

// ---- memory: threads allocate from arenas of their own that are never recycled, so addresses do not depend on the schedule
static void* bump(size_t n, size_t al) {
  Thread& t = T[me];
  uintptr_t a = (reinterpret_cast<uintptr_t>(t.top) + 16 + al - 1) & ~(al - 1);
  reinterpret_cast<size_t*>(a)[-1] = n;
  t.top = reinterpret_cast<char*>(a + (n ? n : 1));
  if (t.top > t.arena + ARENA) die("INTERNAL arena is full");
  return reinterpret_cast<void*>(a);
}
static bool in_arena(void* p) { return arenas && p >= arenas && p < arenas + MAXT * ARENA; }
void* malloc(size_t n) { return me >= 0 ? bump(n, 16) : __libc_malloc(n); }
void free(void* p) { if (!in_arena(p)) __libc_free(p); }
void* calloc(size_t n, size_t m) { return me >= 0 ? bump(n * m, 16) : __libc_calloc(n, m); }
void* realloc(void* p, size_t n) {
  if (me < 0 && !in_arena(p)) return __libc_realloc(p, n);
  void* q = malloc(n);
  if (p) { size_t k = in_arena(p) ? static_cast<size_t*>(p)[-1] : n; int m = me; me = -1; memcpy(q, p, k < n ? k : n); me = m; free(p); }
  return q;
}
void* memalign(size_t a, size_t n) { return me >= 0 ? bump(n, a < 16 ? 16 : a) : __libc_memalign(a, n); }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** p, size_t a, size_t n) { *p = memalign(a, n); return *p ? 0 : ENOMEM; }

// ---- synchronisation
int __cxa_guard_acquire(uint64_t* g) {
  uint8_t* b = reinterpret_cast<uint8_t*>(g);
  if (me < 0) { if (b[0]) return 0; b[1] = 1; return 1; }
  access(g, 8, AWRITE, PC);
  while (b[1] && !b[0]) block(g);
  SyncObj& s = sync(g);
  acquire(s);
  if (b[0]) return 0;
  b[1] = 1;
  return 1;
}
void __cxa_guard_release(uint64_t* g) {
  uint8_t* b = reinterpret_cast<uint8_t*>(g);
  if (me >= 0) { access(g, 8, AWRITE, PC); release(sync(g)); wake(g); }
  b[0] = 1; b[1] = 0;
}
void __cxa_guard_abort(uint64_t* g) { if (me >= 0) { access(g, 8, AWRITE, PC); release(sync(g)); wake(g); } reinterpret_cast<uint8_t*>(g)[1] = 0; }

#define REAL(name) static auto real = reinterpret_cast<decltype(&name)>(dlsym(RTLD_NEXT, #name))
static int lock_write(void* m, bool try_only) {
  access(m, 8, AWRITE, PC);
  for (;;) {
    SyncObj& s = sync(m);
    if ((s.owner < 0 || s.owner == me) && s.readers == 0) { s.owner = me; s.count++; acquire(s); return 0; }
    if (try_only) return EBUSY;
    block(m);
  }
}
static int lock_read(void* m) { access(m, 8, AWRITE, PC); for (;;) { SyncObj& s = sync(m); if (s.owner < 0) { s.readers++; acquire(s); return 0; } block(m); } }
static int unlock(void* m) { access(m, 8, AWRITE, PC); SyncObj& s = sync(m); release(s); if (s.owner == me) { if (--s.count == 0) s.owner = -1; } else if (s.readers) s.readers--; wake(m); return 0; }
int pthread_mutex_lock(pthread_mutex_t* m) { if (me >= 0) return lock_write(m, false); REAL(pthread_mutex_lock); return real(m); }
int pthread_mutex_trylock(pthread_mutex_t* m) { if (me >= 0) return lock_write(m, true); REAL(pthread_mutex_trylock); return real(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) { if (me >= 0) return unlock(m); REAL(pthread_mutex_unlock); return real(m); }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { if (me >= 0) return lock_read(m); REAL(pthread_rwlock_rdlock); return real(m); }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (me >= 0) return lock_write(m, false); REAL(pthread_rwlock_wrlock); return real(m); }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { if (me >= 0) return unlock(m); REAL(pthread_rwlock_unlock); return real(m); }
int pthread_once(pthread_once_t* o, void (*f)()) {
  if (me < 0) { REAL(pthread_once); return real(o, f); }
  access(o, 4, AWRITE, PC);
  while (sync(o).owner >= 0 && *o != 2) block(o);
  SyncObj& s = sync(o);
  acquire(s);
  if (*o == 2) return 0;
  s.owner = me;
  try { f(); } catch (...) { sync(o).owner = -1; wake(o); throw; }
  release(sync(o)); sync(o).owner = -1; *o = 2; wake(o);
  return 0;
}

// ---- calls that concern files or the process
#define CALL(ret, name, params, args) ret name params { syscall_point(PC); REAL(name); return real args; }
CALL(int, close, (int a), (a))
CALL(ssize_t, read, (int a, void* b, size_t c), (a, b, c))
CALL(ssize_t, write, (int a, void const* b, size_t c), (a, b, c))
CALL(ssize_t, pread, (int a, void* b, size_t c, off_t d), (a, b, c, d))
CALL(ssize_t, pwrite, (int a, void const* b, size_t c, off_t d), (a, b, c, d))
CALL(off_t, lseek, (int a, off_t b, int c), (a, b, c))
CALL(int, ftruncate, (int a, off_t b), (a, b))
CALL(int, truncate, (char const* a, off_t b), (a, b))
CALL(int, posix_fallocate, (int a, off_t b, off_t c), (a, b, c))
CALL(int, posix_fallocate64, (int a, off64_t b, off64_t c), (a, b, c))
CALL(int, fallocate, (int a, int d, off_t b, off_t c), (a, d, b, c))
CALL(int, munmap, (void* a, size_t b), (a, b))
CALL(int, msync, (void* a, size_t b, int c), (a, b, c))
CALL(int, fsync, (int a), (a))
CALL(int, fdatasync, (int a), (a))
CALL(int, unlink, (char const* a), (a))
CALL(int, rename, (char const* a, char const* b), (a, b))
CALL(int, chdir, (char const* a), (a))
CALL(mode_t, umask, (mode_t a), (a))
CALL(int, stat, (char const* a, struct stat* b), (a, b))
CALL(int, fstat, (int a, struct stat* b), (a, b))
CALL(char*, setlocale, (int a, char const* b), (a, b))
// Mappings of a thread lie in a range of its own that is never used again, like its heap.
static void* place(void* a, size_t n) { if (me >= 0 && !a) { a = T[me].maps; T[me].maps += (n + 0x1fff) & ~size_t(0xfff); } return a; }
CALL(void*, mmap, (void* a, size_t b, int c, int d, int e, off_t f), (place(a, b), b, c, d, e, f))
CALL(void*, mmap64, (void* a, size_t b, int c, int d, int e, off64_t f), (place(a, b), b, c, d, e, f))
#define OPEN(name) int name(char const* p, int f, ...) { va_list ap; va_start(ap, f); mode_t m = va_arg(ap, mode_t); va_end(ap); syscall_point(PC); REAL(name); return real(p, f, m); }
OPEN(open) OPEN(open64)
} // extern "C"
void* operator new(size_t n) { void* p = malloc(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
namespace mc {   // allocation accounting is not used here
int64_t Mem::live_blocks() { return 0; }
uint64_t Mem::allocs() { return 0; }
void Mem::fail_at(uint64_t) {}
bool Mem::fired() { return false; }
}
