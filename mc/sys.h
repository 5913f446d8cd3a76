// Every file-related system call of this process, from whatever code, passes through here (seccomp traps it, SIGSYS
// brings it to a handler): calls can be made to fail, descriptors and mappings are accounted, and a model of the
// disk keeps what explicit flushes have made durable.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sys {
void install();                          // once per process; later calls do nothing

// Between arm() and disarm() calls on files are observed and may be failed.
struct Faults {
  int budget = 0;                        // how many calls may fail
  std::vector<int> errnos;               // with which errors; the explorer chooses call and error
};
void arm(Faults f = {});
void disarm();
struct Window { explicit Window(Faults f = {}) { arm(std::move(f)); } ~Window() { disarm(); } };

int calls();                             // calls observed since arm()
int injected();                          // how many of them failed by choice
std::string const& log();                // text of the calls since arm() (while tracing or always short)
int open_fds();                          // descriptors opened in windows and not closed
int open_maps();                         // file mappings made in windows, not unmapped (failed unmaps not counted)
void release();                          // closes and unmaps whatever is left, forgets it

// ---- the disk: what survives a crash ---------------------------------------------------------------------------
void disk_reset();
// Every content the path may have after a crash now: "-" means no such file, "+..." a content. The first is what
// holds if nothing unflushed survives, the last if everything does.
std::vector<std::string> images(std::string const& path);
extern std::function<void()> boundary;   // called before each observed call executes
}
