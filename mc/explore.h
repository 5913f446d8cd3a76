// Stateless explorer: runs a scenario body once per sequence of choices, in depth-first order, until every
// sequence has been executed. The body is ordinary code that calls the library under check; whatever varies
// (value shapes, operations, injected faults, schedules) is decided by mc::choose(n).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <vector>

namespace mc {

struct Violation { std::string msg; };   // deliberately not a std::exception

// ---- choices -----------------------------------------------------------------------------------------------
int choose(int n);                        // 0..n-1; every value is explored
inline bool flip() { return choose(2) == 1; }

// ---- bookkeeping ---------------------------------------------------------------------------------------------
void transition(uint64_t n = 1);          // one operation executed on the implementation
void state(uint64_t hash);                // an abstract state reached (distinct ones are counted)
void state(std::string const& canon);
void nontrivial();                        // this execution exercised what the scenario is about
bool tracing();                           // true while a trace text is wanted (samples, replays)
void note(char const* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void fail(char const* fmt, ...) __attribute__((format(printf, 1, 2)));
void fail_later(char const* fmt, ...) __attribute__((format(printf, 1, 2)));  // from destructors and callbacks
bool thorough();
void extra(char const* key, uint64_t add); // additional measured counters for the evidence file
void executions(uint64_t n);             // executions of the implementation within this run of the body (schedules, processes)
uint64_t current_execution();
std::string scratch();                    // private scratch directory of this process

uint64_t hash(void const* p, size_t n, uint64_t seed = 0x9e3779b97f4a7c15ull);
inline uint64_t hash(std::string const& s) { return hash(s.data(), s.size()); }

#define MC_CHECK(cond, ...) do { if (!(cond)) ::mc::fail(__VA_ARGS__); } while (0)

// ---- scenarios -----------------------------------------------------------------------------------------------
struct Scenario {
  std::string name;
  std::function<void()> body;
  bool thorough_only = false;
  uint64_t max_exec = 0;                  // 0: exhaustive; otherwise reported as capped
};
void add(Scenario s);
struct Registrar {
  Registrar(std::string name, std::function<void()> body, bool thorough_only = false) {
    Scenario s; s.name = std::move(name); s.body = std::move(body); s.thorough_only = thorough_only;
    add(std::move(s));
  }
};
#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
#define MC_SCENARIO(name, ...) static ::mc::Registrar MC_CAT(mc_reg_, __COUNTER__){name, __VA_ARGS__}

// ---- memory accounting (alloc.cc) ------------------------------------------------------------------------------
struct Mem {
  static int64_t live_blocks();
  static uint64_t allocs();               // allocations so far
  static void fail_at(uint64_t k);        // k-th allocation from now (1-based) throws bad_alloc; 0: never
  static bool fired();
};

} // namespace mc
