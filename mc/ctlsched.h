// Controlled scheduler for real threads: code compiled with -fsanitize=thread (instrumentation only, no TSan
// runtime) reports every memory access and synchronisation to mc/sched.cc, which runs one thread at a time and may
// switch at accesses to memory that threads share. Every execution is a forked process, so that first uses stay first.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sched {

using Body = std::function<std::string()>;   // runs in a thread; what it returns is compared

struct Point { uint8_t n, chosen; };
struct Result {
  std::vector<std::string> out;        // per thread
  std::vector<Point> points;           // scheduling decisions with more than one option
  std::vector<uint64_t> conflicts;     // 8-byte granules touched by two threads, at least one writing
  std::string race;                    // first pair of conflicting accesses not ordered by synchronisation
  std::string error;                   // deadlock, crash, hang, internal
  uint64_t accesses = 0, switches = 0;
};
// Runs the bodies once: the first decisions are `prefix`, later ones continue the running thread. At most `bound`
// preemptions. Switches are possible at accesses to the granules in `shared`, at synchronisation on them, and (if
// `syscalls`) before calls that concern files or the process.
Result run(std::vector<Body> const& bodies, std::vector<uint8_t> const& prefix, int bound, std::vector<uint64_t> const& shared, bool syscalls);

struct Stats { uint64_t schedules = 0, points = 0, shared = 0, switches = 0, accesses = 0; bool capped = false; int bound = 0; };
// All schedules with at most `bound` preemptions. Fails (mc::fail) when a thread's outcome is not want[i], on a data
// race, a deadlock or a crash.
Stats explore(std::vector<Body> const& bodies, std::vector<std::string> const& want, int bound, bool syscalls, uint64_t cap);

std::string alone(Body const& b);      // the outcome in a fresh process with one thread
std::string in_process(std::function<std::string()> const& f);   // computes something in a forked process

} // namespace sched
