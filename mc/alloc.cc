#include "explore.h"
#include <new>
#include <cstdlib>
namespace {
int64_t g_live = 0; uint64_t g_allocs = 0, g_fail = 0; bool g_fired = false;
void* get(size_t n, size_t al) {
  g_allocs++;
  if (g_fail && --g_fail == 0) { g_fired = true; throw std::bad_alloc(); }
  if (n == 0) n = 1;
  void* p = nullptr;
  if (al <= alignof(std::max_align_t)) p = std::malloc(n);
  else if (posix_memalign(&p, al, n) != 0) p = nullptr;
  if (!p) throw std::bad_alloc();
  g_live++;
  return p;
}
void put(void* p) { if (p) { g_live--; std::free(p); } }
}
namespace mc {
int64_t Mem::live_blocks() { return g_live; }
uint64_t Mem::allocs() { return g_allocs; }
void Mem::fail_at(uint64_t k) { g_fail = k; g_fired = false; }
bool Mem::fired() { return g_fired; }
}
void* operator new(size_t n) { return get(n, 1); }
void* operator new[](size_t n) { return get(n, 1); }
void* operator new(size_t n, std::align_val_t a) { return get(n, size_t(a)); }
void* operator new[](size_t n, std::align_val_t a) { return get(n, size_t(a)); }
void* operator new(size_t n, std::nothrow_t const&) noexcept { try { return get(n, 1); } catch (...) { return nullptr; } }
void* operator new[](size_t n, std::nothrow_t const&) noexcept { try { return get(n, 1); } catch (...) { return nullptr; } }
void* operator new(size_t n, std::align_val_t a, std::nothrow_t const&) noexcept { try { return get(n, size_t(a)); } catch (...) { return nullptr; } }
void* operator new[](size_t n, std::align_val_t a, std::nothrow_t const&) noexcept { try { return get(n, size_t(a)); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, size_t) noexcept { put(p); }
void operator delete[](void* p, size_t) noexcept { put(p); }
void operator delete(void* p, std::align_val_t) noexcept { put(p); }
void operator delete[](void* p, std::align_val_t) noexcept { put(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { put(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { put(p); }
void operator delete(void* p, std::nothrow_t const&) noexcept { put(p); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { put(p); }
void operator delete(void* p, std::align_val_t, std::nothrow_t const&) noexcept { put(p); }
void operator delete[](void* p, std::align_val_t, std::nothrow_t const&) noexcept { put(p); }
