#include "sys.h"
#include "explore.h"
#include <cerrno>
#include <csignal>
#include <cstddef>
#include <map>
#include <set>
#include <fcntl.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <ucontext.h>
#include <unistd.h>

extern "C" long mc_raw(long n, long a, long b, long c, long d, long e, long f);
extern "C" char mc_raw_ret[];
asm(".text\n.globl mc_raw\nmc_raw:\n mov %rdi,%rax\n mov %rsi,%rdi\n mov %rdx,%rsi\n mov %rcx,%rdx\n mov %r8,%r10\n mov %r9,%r8\n"
    " mov 8(%rsp),%r9\n syscall\n.globl mc_raw_ret\nmc_raw_ret: ret\n");

namespace sys {
std::function<void()> boundary;
namespace {
long raw(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) { return mc_raw(n, a, b, c, d, e, f); }
constexpr size_t kPage = 4096;
struct Name { long nr; char const* name; };
constexpr Name kTrap[] = {
  {SYS_open, "open"}, {SYS_openat, "openat"}, {SYS_creat, "creat"}, {SYS_close, "close"}, {SYS_read, "read"}, {SYS_write, "write"},
  {SYS_pread64, "pread"}, {SYS_pwrite64, "pwrite"}, {SYS_readv, "readv"}, {SYS_writev, "writev"}, {SYS_lseek, "lseek"}, {SYS_fstat, "fstat"},
  {SYS_stat, "stat"}, {SYS_lstat, "lstat"}, {SYS_newfstatat, "fstatat"}, {SYS_statx, "statx"}, {SYS_access, "access"}, {SYS_mmap, "mmap"}, {SYS_munmap, "munmap"},
  {SYS_msync, "msync"}, {SYS_fsync, "fsync"}, {SYS_fdatasync, "fdatasync"}, {SYS_sync, "sync"}, {SYS_syncfs, "syncfs"}, {SYS_sync_file_range, "sync_file_range"},
  {SYS_fallocate, "fallocate"}, {SYS_ftruncate, "ftruncate"}, {SYS_truncate, "truncate"}, {SYS_rename, "rename"}, {SYS_renameat, "renameat"}, {SYS_renameat2, "renameat2"},
  {SYS_unlink, "unlink"}, {SYS_unlinkat, "unlinkat"}, {SYS_link, "link"}, {SYS_linkat, "linkat"}, {SYS_dup, "dup"}, {SYS_dup2, "dup2"}, {SYS_dup3, "dup3"}, {SYS_fcntl, "fcntl"},
  {SYS_flock, "flock"}, {SYS_mkdir, "mkdir"}, {SYS_copy_file_range, "copy_file_range"}, {SYS_sendfile, "sendfile"}};
char const* call_name(long nr) { for (auto& t : kTrap) if (t.nr == nr) return t.name; return "?"; }

bool g_installed = false, g_armed = false, g_inside = false;
Faults g_faults;
int g_calls = 0, g_injected = 0;
std::string g_log;

struct Inode { std::map<size_t, std::string> pages; size_t size = 0; std::string path; };   // what is durable
using Key = std::pair<uint64_t, uint64_t>;
struct Fd { Key key; std::string path; bool sync = false, full = false; };
struct Map { size_t len; Key key; size_t off; bool shared, excused; };
std::map<int, Fd> g_fds;
std::map<uintptr_t, Map> g_maps;
std::map<Key, Inode> g_disk;
std::map<std::string, Key> g_dns;       // durable names

bool stat_path(std::string const& p, struct stat& sb) { return raw(SYS_stat, long(p.c_str()), long(&sb)) == 0; }
bool read_path(std::string const& p, std::string& out) {
  long fd = raw(SYS_open, long(p.c_str()), O_RDONLY | O_CLOEXEC, 0);
  if (fd < 0) return false;
  out.clear();
  static char buf[65536];
  for (;;) { long n = raw(SYS_read, fd, long(buf), sizeof buf); if (n <= 0) break; out.append(buf, size_t(n)); }
  raw(SYS_close, fd);
  return true;
}
std::string fd_path(int fd) { return "/proc/self/fd/" + std::to_string(fd); }
void flush_content(Inode& n, std::string const& c) {
  n.pages.clear(); n.size = c.size();
  for (size_t i = 0; i * kPage < c.size(); i++) n.pages[i] = c.substr(i * kPage, kPage);
}
// A file the model has not seen: what it contains now is on the disk.
void know(std::string const& path) {
  struct stat sb; std::string c;
  if (!stat_path(path, sb) || !S_ISREG(sb.st_mode)) return;
  Key k(sb.st_dev, sb.st_ino);
  if (g_disk.count(k) && g_disk[k].path == path) return;
  if (!read_path(path, c)) return;
  auto& n = g_disk[k]; n.path = path; flush_content(n, c); g_dns[path] = k;
}
void flush_fd(int fd) {
  auto it = g_fds.find(fd); if (it == g_fds.end()) return;
  auto d = g_disk.find(it->second.key); if (d == g_disk.end()) return;
  std::string c; if (read_path(fd_path(fd), c)) { flush_content(d->second, c); g_dns[d->second.path] = d->first; }
}
void flush_all() {
  for (auto& d : g_disk) {
    struct stat sb; std::string c;
    if (stat_path(d.second.path, sb) && Key(sb.st_dev, sb.st_ino) == d.first && read_path(d.second.path, c)) { flush_content(d.second, c); g_dns[d.second.path] = d.first; }
  }
}
void flush_range(uintptr_t a, size_t len) {
  for (auto& m : g_maps) {
    uintptr_t lo = std::max(a, m.first), hi = std::min(a + len, m.first + m.second.len);
    if (lo >= hi || !m.second.shared) continue;
    auto d = g_disk.find(m.second.key); if (d == g_disk.end()) continue;
    // what the file holds (also through other mappings); pages are flushed whole
    std::string c;
    int fd = -1;
    for (auto& f : g_fds) if (f.second.key == m.second.key) fd = f.first;
    if (!(fd >= 0 ? read_path(fd_path(fd), c) : read_path(d->second.path, c))) continue;
    size_t first = (m.second.off + (lo - m.first)) / kPage, last = (m.second.off + (hi - 1 - m.first)) / kPage;
    for (size_t i = first; i <= last && i * kPage < c.size(); i++) d->second.pages[i] = c.substr(i * kPage, kPage);
  }
}

bool system_path(char const* p) {
  for (char const* s : {"/proc", "/sys", "/dev/null", "/dev/urandom", "/etc", "/usr", "/lib", "/lib64"}) if (!strncmp(p, s, strlen(s))) return true;
  return false;
}
struct Call { long nr; long a[6]; };
char const* path_of(Call const& c) {
  switch (c.nr) {
    case SYS_open: case SYS_creat: case SYS_stat: case SYS_lstat: case SYS_access: case SYS_truncate: case SYS_unlink: case SYS_rename: case SYS_link: case SYS_mkdir:
      return reinterpret_cast<char const*>(c.a[0]);
    case SYS_openat: case SYS_unlinkat: case SYS_renameat: case SYS_renameat2: case SYS_linkat: case SYS_newfstatat: case SYS_statx:
      return reinterpret_cast<char const*>(c.a[1]);
    default: return nullptr;
  }
}
bool relevant(Call const& c) {
  if (c.nr == SYS_sync) return true;
  if (c.nr == SYS_msync || c.nr == SYS_munmap) {
    uintptr_t a = uintptr_t(c.a[0]); size_t len = size_t(c.a[1]);
    for (auto& m : g_maps) if (a < m.first + ((m.second.len + kPage - 1) & ~(kPage - 1)) && m.first < a + std::max<size_t>(len, 1)) return true;
    return false;
  }
  if (c.nr == SYS_mmap) return g_fds.count(int(c.a[4])) != 0;
  if (auto* p = path_of(c)) {
    if ((c.nr == SYS_newfstatat || c.nr == SYS_statx) && !*p) return g_fds.count(int(c.a[0])) != 0;
    return !system_path(p);
  }
  if (c.nr == SYS_copy_file_range) return g_fds.count(int(c.a[0])) || g_fds.count(int(c.a[2]));
  return g_fds.count(int(c.a[0])) != 0;
}
std::string text(Call const& c) {
  std::string s = call_name(c.nr);
  if (auto* p = path_of(c)) { auto* b = strrchr(p, '/'); s += std::string("(") + (b ? b + 1 : p) + ")"; }
  return s;
}
long execute(Call const& c) { return raw(c.nr, c.a[0], c.a[1], c.a[2], c.a[3], c.a[4], c.a[5]); }

void opened(long fd, std::string const& path, int flags) {
  struct stat sb;
  if (raw(SYS_fstat, fd, long(&sb)) != 0) return;
  Key k(sb.st_dev, sb.st_ino);
  g_fds[int(fd)] = Fd{k, path, (flags & (O_SYNC | O_DSYNC)) != 0};
  if (S_ISREG(sb.st_mode) && !g_disk.count(k)) { g_disk[k].path = path; }   // new: nothing durable, no durable name
}
// The call itself and its effect on the accounts.
long perform(Call c) {
  std::string p1 = path_of(c) ? path_of(c) : "";
  if (c.nr == SYS_open || c.nr == SYS_openat || c.nr == SYS_creat) {
    know(p1);
    long fd = execute(c);
    if (fd >= 0) opened(fd, p1, c.nr == SYS_creat ? O_WRONLY : int(c.nr == SYS_open ? c.a[1] : c.a[2]));
    return fd;
  }
  if (c.nr == SYS_rename || c.nr == SYS_renameat || c.nr == SYS_renameat2) {
    std::string p2 = reinterpret_cast<char const*>(c.nr == SYS_rename ? c.a[1] : c.a[3]);
    know(p1); know(p2);
    struct stat sb; bool was = stat_path(p1, sb);
    long r = execute(c);
    if (r == 0 && was) {
      Key k(sb.st_dev, sb.st_ino);
      if (g_disk.count(k)) g_disk[k].path = p2;
      if (g_dns.count(p1)) { g_dns[p2] = g_dns[p1]; g_dns.erase(p1); } else g_dns.erase(p2);
    }
    return r;
  }
  if (c.nr == SYS_unlink || c.nr == SYS_unlinkat) {
    struct stat sb; bool was = stat_path(p1, sb);
    long r = execute(c);
    if (r == 0) { g_dns.erase(p1); if (was && sb.st_nlink == 1) { bool held = false; for (auto& f : g_fds) held |= f.second.key == Key(sb.st_dev, sb.st_ino); if (!held) g_disk.erase(Key(sb.st_dev, sb.st_ino)); } }
    return r;
  }
  if (c.nr == SYS_truncate) { know(p1); return execute(c); }
  // a file for which no space could be had: its mapping has no pages to store into
  if (c.nr == SYS_mmap && g_fds[int(c.a[4])].full && (c.a[3] & MAP_SHARED) && (c.a[2] & PROT_WRITE)) c.a[5] += 1l << 40;
  if ((c.nr == SYS_write || c.nr == SYS_pwrite64 || c.nr == SYS_writev) && g_fds[int(c.a[0])].full) return -ENOSPC;
  long r = execute(c);
  switch (c.nr) {
    case SYS_close: g_fds.erase(int(c.a[0])); break;
    case SYS_mmap: if (r >= 0 || r < -4095) g_maps[uintptr_t(r)] = Map{size_t(c.a[1]), g_fds[int(c.a[4])].key, size_t(c.a[5]), (c.a[3] & MAP_SHARED) != 0, false}; break;
    case SYS_munmap: if (r == 0) {
      uintptr_t a = uintptr_t(c.a[0]), b = a + ((size_t(c.a[1]) + kPage - 1) & ~(kPage - 1));
      for (auto it = g_maps.begin(); it != g_maps.end();) {
        uintptr_t lo = it->first, hi = lo + ((it->second.len + kPage - 1) & ~(kPage - 1));
        if (lo >= b || hi <= a) { ++it; continue; }
        Map m = it->second; it = g_maps.erase(it);
        if (lo < a) { Map l = m; l.len = a - lo; g_maps[lo] = l; }
        if (hi > b) { Map h = m; h.len = hi - b; h.off += b - lo; g_maps[b] = h; }
      }
    } break;
    case SYS_msync: if (r == 0 && (c.a[2] & MS_SYNC)) flush_range(uintptr_t(c.a[0]), size_t(c.a[1])); break;
    case SYS_fsync: case SYS_fdatasync: if (r == 0) flush_fd(int(c.a[0])); break;
    case SYS_syncfs: case SYS_sync: if (r == 0) flush_all(); break;
    case SYS_write: case SYS_pwrite64: case SYS_writev: if (r >= 0 && g_fds[int(c.a[0])].sync) flush_fd(int(c.a[0])); break;
    case SYS_dup: case SYS_dup2: case SYS_dup3: if (r >= 0) { Fd f = g_fds[int(c.a[0])]; g_fds[int(r)] = f; } break;
    case SYS_fcntl: if (r >= 0 && (c.a[1] == F_DUPFD || c.a[1] == F_DUPFD_CLOEXEC)) { Fd f = g_fds[int(c.a[0])]; g_fds[int(r)] = f; } break;
    default: break;
  }
  return r;
}
long observed(Call c) {
  if (boundary) boundary();
  g_calls++;
  std::string t = text(c);
  bool transfer = c.nr == SYS_read || c.nr == SYS_write || c.nr == SYS_pread64 || c.nr == SYS_pwrite64;
  int fault = 0;
  if (g_faults.budget > 0) {
    int n = int(g_faults.errnos.size());
    int k = mc::choose(1 + n + (transfer && c.a[2] > 1 ? 1 : 0));
    if (k > n) { g_faults.budget--; g_injected++; c.a[2] /= 2; t += " short"; }
    else if (k > 0) { fault = g_faults.errnos[size_t(k - 1)]; g_faults.budget--; g_injected++; t += "=errno " + std::to_string(fault); }
  }
  if (g_log.size() < 4000) g_log += (g_log.empty() ? "" : " ") + t;
  if (!fault) return perform(c);
  if (c.nr == SYS_close) { execute(c); g_fds.erase(int(c.a[0])); }    // a failing close releases the descriptor
  if (c.nr == SYS_fallocate && (fault == ENOSPC || fault == EDQUOT)) g_fds[int(c.a[0])].full = true;
  if (c.nr == SYS_munmap) for (auto& m : g_maps) if (uintptr_t(c.a[0]) <= m.first && m.first < uintptr_t(c.a[0] + c.a[1])) m.second.excused = true;
  return -fault;
}
void handler(int, siginfo_t*, void* u) {
  auto* g = static_cast<ucontext_t*>(u)->uc_mcontext.gregs;
  Call c{long(g[REG_RAX]), {long(g[REG_RDI]), long(g[REG_RSI]), long(g[REG_RDX]), long(g[REG_R10]), long(g[REG_R8]), long(g[REG_R9])}};
  int e = errno;
  if (!g_armed || g_inside) g[REG_RAX] = execute(c);
  else {
    g_inside = true;
    bool rel = relevant(c);
    g[REG_RAX] = rel ? observed(c) : execute(c);
    g_inside = false;
  }
  errno = e;
}
} // namespace

void install() {
  if (g_installed) return;
  g_installed = true;
  struct sigaction sa; memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = handler; sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  if (sigaction(SIGSYS, &sa, nullptr) != 0) { perror("sigaction"); _exit(97); }
  uint64_t ip = uint64_t(reinterpret_cast<uintptr_t>(mc_raw_ret));
  std::vector<sock_filter> f = {
    BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, instruction_pointer)), BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, uint32_t(ip), 0, 3),
    BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, instruction_pointer) + 4), BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, uint32_t(ip >> 32), 0, 1),
    BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW),
    BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, nr)),
    // anonymous mappings are no business of ours
    BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, SYS_mmap, 0, 4),
    BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, args) + 32), BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, 0xffffffffu, 0, 1),
    BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW), BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP)};
  for (auto& t : kTrap) if (t.nr != SYS_mmap) {
    f.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, uint32_t(t.nr), 0, 1));
    f.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP));
  }
  f.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW));
  sock_fprog p{static_cast<unsigned short>(f.size()), f.data()};
  if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) != 0 || prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p) != 0) { perror("seccomp"); _exit(97); }
}
void arm(Faults f) { install(); g_faults = std::move(f); g_calls = g_injected = 0; g_log.clear(); g_armed = true; }
void disarm() { g_armed = false; }
int calls() { return g_calls; }
int injected() { return g_injected; }
std::string const& log() { return g_log; }
int open_fds() { return int(g_fds.size()); }
int open_maps() { int n = 0; for (auto& m : g_maps) n += !m.second.excused; return n; }
void release() {
  for (auto& f : g_fds) raw(SYS_close, f.first);
  for (auto& m : g_maps) raw(SYS_munmap, long(m.first), long(m.second.len));
  g_fds.clear(); g_maps.clear();
}
void disk_reset() { g_disk.clear(); g_dns.clear(); }
std::vector<std::string> images(std::string const& path) {
  std::vector<std::string> res;
  auto add = [&](std::string s) { for (auto& r : res) if (r == s) return; res.push_back(std::move(s)); };
  struct stat sb; std::string vol;
  bool now = stat_path(path, sb) && read_path(path, vol);
  auto it = g_dns.find(path);
  if (it == g_dns.end()) add("-");
  Key k = it != g_dns.end() ? it->second : now ? Key(sb.st_dev, sb.st_ino) : Key(0, 0);
  if (now && Key(sb.st_dev, sb.st_ino) == k && g_disk.count(k)) {
    auto& n = g_disk[k];
    size_t pages = (std::max(vol.size(), n.size) + kPage - 1) / kPage;
    auto dur_page = [&](size_t i) { auto p = n.pages.find(i); std::string s = p == n.pages.end() ? "" : p->second; s.resize(kPage, 0); return s; };
    auto vol_page = [&](size_t i) { std::string s = i * kPage < vol.size() ? vol.substr(i * kPage, kPage) : ""; s.resize(kPage, 0); return s; };
    std::vector<size_t> dirty;
    for (size_t i = 0; i < pages; i++) {
      std::string a = dur_page(i), b = vol_page(i);
      if (i * kPage + kPage > vol.size()) { size_t keep = i * kPage < vol.size() ? vol.size() - i * kPage : 0; if (vol.size() == n.size) { a.resize(keep); b.resize(keep); } }
      if (a != b) dirty.push_back(i);
    }
    std::vector<std::vector<bool>> subsets;
    size_t d = dirty.size();
    if (d <= 8) for (size_t m = 0; m < (size_t(1) << d); m++) { std::vector<bool> s(d); for (size_t i = 0; i < d; i++) s[i] = m >> i & 1; subsets.push_back(s); }
    else {   // none, each alone, each missing, prefixes, all
      subsets.emplace_back(d, false);
      for (size_t i = 0; i < d && i < 64; i++) { std::vector<bool> s(d, false); s[i] = true; subsets.push_back(s); s.assign(d, true); s[i] = false; subsets.push_back(s); s.assign(d, false); for (size_t j = 0; j < i; j++) s[j] = true; subsets.push_back(s); }
      subsets.emplace_back(d, true);
    }
    for (auto& s : subsets) for (int z = 0; z < (n.size == vol.size() ? 1 : 2); z++) {
      std::string c;
      for (size_t i = 0; i < pages; i++) {
        size_t x = 0; bool taken = false; for (; x < d; x++) if (dirty[x] == i) { taken = s[x]; break; }
        c += taken ? vol_page(i) : x < d ? dur_page(i) : vol_page(i);
      }
      c.resize(z ? vol.size() : n.size, 0);
      add("+" + c);
    }
  } else if (it != g_dns.end() && g_disk.count(k)) {     // replaced or removed since: only the durable content is left
    auto& n = g_disk[k]; std::string c;
    for (size_t i = 0; i * kPage < n.size; i++) { auto p = n.pages.find(i); std::string s = p == n.pages.end() ? "" : p->second; s.resize(kPage, 0); c += s; }
    c.resize(n.size, 0); add("+" + c);
  }
  return res;
}
}
