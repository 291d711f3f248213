// Interposes the allocator: live and peak heap bytes as the program asked for
// them (requested sizes, without allocator overhead).
#ifndef MC_MEMCOUNT_HPP
#define MC_MEMCOUNT_HPP
#include <cstddef>
#include <cstring>
#include <malloc.h>
extern "C" void* __libc_malloc(size_t);
extern "C" void __libc_free(void*);
extern "C" void* __libc_realloc(void*, size_t);
extern "C" void* __libc_memalign(size_t, size_t);
static size_t memLive = 0, memPeak = 0, memBlocks = 0;
static inline void memAdd(void* p) { if (p) { memLive += malloc_usable_size(p); ++memBlocks; if (memLive > memPeak) memPeak = memLive; } }
static inline void memSub(void* p) { if (p) { memLive -= malloc_usable_size(p); --memBlocks; } }
extern "C" void* malloc(size_t n) { void* p = __libc_malloc(n); memAdd(p); return p; }
extern "C" void free(void* p) { memSub(p); __libc_free(p); }
extern "C" void* calloc(size_t a, size_t b) {
  if (b && a > (size_t)-1 / b) return 0;
  void* p = __libc_malloc(a * b); if (p) memset(p, 0, a * b); memAdd(p); return p;
}
extern "C" void* realloc(void* q, size_t n) {
  size_t old = q ? malloc_usable_size(q) : 0; void* p = __libc_realloc(q, n);
  if (p) { if (q) { memLive -= old; --memBlocks; } memAdd(p); }
  else if (q && n == 0) { memLive -= old; --memBlocks; }
  return p;
}
extern "C" void* memalign(size_t a, size_t n) { void* p = __libc_memalign(a, n); memAdd(p); return p; }
extern "C" void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
extern "C" int posix_memalign(void** r, size_t a, size_t n) { void* p = memalign(a, n); if (!p) return 12; *r = p; return 0; }
#endif
