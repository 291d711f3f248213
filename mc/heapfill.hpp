// Replaces operator new: fresh memory is filled with a chosen byte and guarded
// by canaries, so that reads of memory nobody wrote and writes past an
// allocation become visible in the observed behaviour.
#ifndef MC_HEAPFILL_HPP
#define MC_HEAPFILL_HPP
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <new>
static unsigned char heapFill = 0;
static volatile bool heapSmashed = false;
static inline void* hfAlloc(size_t n) {
  unsigned char* p = (unsigned char*)malloc(n + 64);
  if (!p) throw std::bad_alloc();
  memcpy(p, &n, 8); memset(p + 8, 0xCA, 24); memset(p + 32, heapFill, n); memset(p + 32 + n, 0xCA, 32);
  return p + 32;
}
static inline void hfFree(void* q) {
  if (!q) return;
  unsigned char* p = (unsigned char*)q - 32; size_t n; memcpy(&n, p, 8);
  for (int i = 8; i < 32; ++i) if (p[i] != 0xCA) heapSmashed = true;
  if (!heapSmashed) for (int i = 0; i < 32; ++i) if (p[32 + n + i] != 0xCA) heapSmashed = true;
  free(p);
}
void* operator new(size_t n) { return hfAlloc(n); }
void* operator new[](size_t n) { return hfAlloc(n); }
void operator delete(void* p) noexcept { hfFree(p); }
void operator delete[](void* p) noexcept { hfFree(p); }
void operator delete(void* p, size_t) noexcept { hfFree(p); }
void operator delete[](void* p, size_t) noexcept { hfFree(p); }
#endif
