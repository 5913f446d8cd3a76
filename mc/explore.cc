#include "explore.h"
#include <algorithm>
#include <chrono>
#include <cstdarg>
#include <exception>
#include <map>
#include <typeinfo>
#include <unordered_set>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
#include <ftw.h>
#include <sys/stat.h>

namespace mc {
namespace {

// Shared with the driver through a file mapping, so that a crash or hang can be attributed.
constexpr int kMaxChoices = 1 << 14;
struct TraceFile {
  uint64_t heartbeat;
  uint32_t n;
  uint32_t active;
  char scenario[240];
  int32_t choice[kMaxChoices];
};
TraceFile g_local_trace;
TraceFile* g_trace = &g_local_trace;

// The explorer's own storage bypasses operator new, which is being accounted.
template <typename T> struct MA {
  using value_type = T;
  MA() = default;
  template <typename U> MA(MA<U> const&) {}
  T* allocate(size_t n) { return static_cast<T*>(malloc(n * sizeof(T))); }
  void deallocate(T* p, size_t) { free(p); }
  bool operator==(MA const&) const { return true; }
  bool operator!=(MA const&) const { return false; }
};
using MString = std::basic_string<char, std::char_traits<char>, MA<char>>;

std::vector<int, MA<int>> g_prefix;
std::vector<std::pair<int, int>, MA<std::pair<int, int>>> g_taken;   // (choice, alternatives)
bool g_diverged = false;

uint64_t g_exec = 0, g_bulk = 0, g_trans = 0, g_choices = 0, g_nontrivial = 0;
bool g_nt = false, g_tracing = false, g_thorough = false;
MString g_text, g_later;
std::unordered_set<uint64_t, std::hash<uint64_t>, std::equal_to<uint64_t>, MA<uint64_t>> g_states;
std::map<MString, uint64_t, std::less<MString>, MA<std::pair<MString const, uint64_t>>> g_extra;
std::string g_scratch;

std::vector<Scenario>& scenarios() { static std::vector<Scenario> v; return v; }

std::string vfmt(char const* fmt, va_list ap) {
  char buf[4096];
  vsnprintf(buf, sizeof buf, fmt, ap);
  return buf;
}
std::string js(std::string const& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
    else if (c == '\n') o += "\\n";
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += char(c);
  }
  return o + "\"";
}
std::string choices_text() {
  std::string s;
  for (auto& c : g_taken) s += (s.empty() ? "" : ",") + std::to_string(c.first);
  return s;
}

// Runs the body once; returns the failure message, or an empty string.
std::string run_once(Scenario const& sc) {
  g_taken.clear(); g_diverged = false; g_text.clear(); g_later.clear(); g_nt = false;
  g_trace->n = 0;
  g_trace->heartbeat++;
  Mem::fail_at(0);
  std::string err;
  try { sc.body(); }
  catch (Violation& v) { err = v.msg; }
  catch (std::exception& e) { err = std::string("unexpected exception ") + typeid(e).name() + ": " + e.what(); }
  Mem::fail_at(0);
  if (err.empty() && !g_later.empty()) err = g_later.c_str();
  if (err.empty() && g_taken.size() < g_prefix.size()) { err = "INTERNAL divergence: fewer choices than the prefix"; g_diverged = true; }
  g_exec++;
  if (g_nt) g_nontrivial++;
  return err;
}
bool next_prefix() {
  for (size_t i = g_taken.size(); i-- > 0;) {
    if (g_taken[i].first + 1 < g_taken[i].second) {
      g_prefix.clear();
      for (size_t j = 0; j < i; j++) g_prefix.push_back(g_taken[j].first);
      g_prefix.push_back(g_taken[i].first + 1);
      return true;
    }
  }
  return false;
}
} // namespace

int choose(int n) {
  if (n <= 0) fail("INTERNAL choose(%d)", n);
  size_t i = g_taken.size();
  int c = i < g_prefix.size() ? g_prefix[i] : 0;
  if (c >= n) { g_diverged = true; fail("INTERNAL divergence: choice %d of %d at %zu", c, n, i); }
  g_taken.emplace_back(c, n);
  if (i < size_t(kMaxChoices)) { g_trace->choice[i] = c; g_trace->n = uint32_t(i + 1); }
  g_choices++;
  return c;
}
void transition(uint64_t n) { g_trans += n; }
void state(uint64_t h) { g_states.insert(h); }
void state(std::string const& s) { g_states.insert(hash(s)); }
void nontrivial() { g_nt = true; }
bool tracing() { return g_tracing; }
void note(char const* fmt, ...) {
  if (!g_tracing || g_text.size() > 6000) return;
  va_list ap; va_start(ap, fmt); g_text += (g_text.empty() ? "" : "; ") + vfmt(fmt, ap); va_end(ap);
}
void fail(char const* fmt, ...) {
  va_list ap; va_start(ap, fmt); std::string m = vfmt(fmt, ap); va_end(ap);
  throw Violation{g_later.empty() ? m : std::string(g_later.c_str())};
}
void fail_later(char const* fmt, ...) {
  va_list ap; va_start(ap, fmt); if (g_later.empty()) g_later = vfmt(fmt, ap).c_str(); va_end(ap);
}
bool thorough() { return g_thorough; }
void extra(char const* key, uint64_t add) { g_extra[key] += add; }
void executions(uint64_t n) { g_bulk += n; g_trace->heartbeat++; }
uint64_t current_execution() { return g_exec; }
std::string scratch() { return g_scratch; }
uint64_t hash(void const* p, size_t n, uint64_t h) {
  auto* b = static_cast<unsigned char const*>(p);
  while (n >= 8) { uint64_t w; memcpy(&w, b, 8); h = (h ^ w) * 0xff51afd7ed558ccdull; h ^= h >> 32; b += 8; n -= 8; }
  uint64_t w = 0; memcpy(&w, b, n); h = (h ^ w ^ (uint64_t(n) << 56)) * 0xc4ceb9fe1a85ec53ull; h ^= h >> 29;
  return h;
}
void add(Scenario s) { scenarios().push_back(std::move(s)); }

} // namespace mc

using namespace mc;

__attribute__((weak)) int mc_pre_main(int, char**) { return -1; }

int main(int argc, char** argv) {
  int pre = mc_pre_main(argc, argv);
  if (pre >= 0) return pre;
  std::vector<std::string> skip; std::string mode, out, trace, only, match, replay_choices; int shard = 0, shards = 1; bool history = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--list") mode = "list";
    else if (a == "--run") mode = "run";
    else if (a == "--replay") { mode = "replay"; only = val(); replay_choices = val(); }
    else if (a == "--history") history = true;        // with --replay: explore the scenario from its start
    else if (a == "--shard") { auto v = val(); sscanf(v.c_str(), "%d/%d", &shard, &shards); }
    else if (a == "--out") out = val();
    else if (a == "--trace") trace = val();
    else if (a == "--only") only = val();
    else if (a == "--match") match = val();
    else if (a == "--skip") skip.push_back(val());
    else if (a == "--scratch") g_scratch = val();
    else if (a == "--thorough") g_thorough = true;
    else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
  }
  auto& all = scenarios();
  std::stable_sort(all.begin(), all.end(), [](Scenario const& a, Scenario const& b) { return a.name < b.name; });
  if (mode == "list") { for (auto& s : all) printf("%s\n", s.name.c_str()); return 0; }
  if (!trace.empty()) {
    int fd = open(trace.c_str(), O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ftruncate(fd, sizeof(TraceFile)) != 0) { perror("trace"); return 2; }
    void* p = mmap(nullptr, sizeof(TraceFile), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (p == MAP_FAILED) { perror("mmap"); return 2; }
    close(fd);
    g_trace = static_cast<TraceFile*>(p);
  }
  FILE* of = out.empty() ? stdout : fopen(out.c_str(), "w");
  if (!of) { perror("out"); return 2; }

  if (mode == "replay" && !history) {
    for (auto& s : all) {
      if (s.name != only) continue;
      g_prefix.clear();
      for (size_t i = 0; i < replay_choices.size();) {
        g_prefix.push_back(atoi(replay_choices.c_str() + i));
        i = replay_choices.find(',', i); if (i == std::string::npos) break; i++;
      }
      g_tracing = true;
      strncpy(g_trace->scenario, s.name.c_str(), sizeof g_trace->scenario - 1); g_trace->active = 1;
      std::string err = run_once(s);
      fprintf(of, "{\"replay\":%s,\"choices\":%s,\"trace\":%s,\"error\":%s}\n", js(s.name).c_str(),
              js(choices_text()).c_str(), js(g_text.c_str()).c_str(), js(err).c_str());
      fclose(of);
      return err.empty() ? 0 : g_diverged ? 3 : 1;
    }
    fprintf(stderr, "no scenario %s\n", only.c_str());
    return 2;
  }

  int failures = 0, idx = 0;
  for (auto& s : all) {
    if (s.thorough_only && !g_thorough) continue;
    if (!only.empty() && s.name != only) continue;
    if (!match.empty() && s.name.find(match) == std::string::npos) continue;
    if (idx++ % shards != shard) continue;
    if (std::find(skip.begin(), skip.end(), s.name) != skip.end()) continue;
    strncpy(g_trace->scenario, s.name.c_str(), sizeof g_trace->scenario - 1); g_trace->active = 1;
    g_exec = g_bulk = g_trans = g_choices = g_nontrivial = 0; g_states.clear(); g_extra.clear(); g_prefix.clear();
    auto t0 = std::chrono::steady_clock::now();
    bool capped = false; int errs = 0;
    std::vector<std::string> samples;
    uint64_t next_sample = 0;
    for (;;) {
      g_tracing = g_exec == next_sample && samples.size() < 3;
      uint64_t before = g_exec;
      std::string err = run_once(s);
      if (g_tracing) { samples.push_back("[" + choices_text() + "] " + g_text.c_str()); next_sample = before * 7 + 3; }
      if (!err.empty()) {
        fprintf(of, "{\"violation\":%s,\"choices\":%s,\"error\":%s,\"diverged\":%s}\n", js(s.name).c_str(),
                js(choices_text()).c_str(), js(err).c_str(), g_diverged ? "true" : "false");
        fflush(of);
        failures++;
        if (g_diverged || ++errs >= 3) { capped = true; break; }
      }
      if (s.max_exec && g_exec >= s.max_exec) { capped = true; break; }
      if (!next_prefix()) break;
    }
    fprintf(of, "{\"scenario\":%s,\"executions\":%llu,\"transitions\":%llu,\"choices\":%llu,\"states\":%zu,\"nontrivial\":%llu,\"capped\":%s,\"samples\":[",
            js(s.name).c_str(), (unsigned long long)(g_exec + g_bulk), (unsigned long long)g_trans, (unsigned long long)g_choices,
            g_states.size(), (unsigned long long)(g_nontrivial + (g_nontrivial ? g_bulk : 0)), capped ? "true" : "false");
    for (size_t i = 0; i < samples.size(); i++) fprintf(of, "%s%s", i ? "," : "", js(samples[i].substr(0, 600)).c_str());
    fprintf(of, "],\"ms\":%lld,\"extra\":{", (long long)std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - t0).count());
    bool first = true;
    for (auto& e : g_extra) { fprintf(of, "%s%s:%llu", first ? "" : ",", js(e.first.c_str()).c_str(), (unsigned long long)e.second); first = false; }
    fprintf(of, "}}\n");
    fflush(of);
  }
  g_trace->active = 0;
  fprintf(of, "{\"done\":true}\n");
  if (of != stdout) fclose(of);
  return failures ? 1 : 0;
}
