// Interposes malloc: every fresh heap block starts with a chosen byte.
#ifndef MC_MEMFILL_HPP
#define MC_MEMFILL_HPP
#include <alloca.h>
#include <cstdlib>
#include <cstring>
extern "C" void* __libc_malloc(size_t);
static volatile int memFill = -1;
// when set, small blocks are handed out at descending instead of ascending
// addresses, so that an order taken from addresses becomes visible
static volatile bool memDescending = false;
struct MemStash { void* p[16]; int n; };
static MemStash memStash[33];
static inline void* memDown(size_t n) {
  size_t c = (n + 15) / 16; MemStash& s = memStash[c];
  if (s.n == 0) {
    for (int i = 0; i < 16; ++i) { void* q = __libc_malloc(c * 16); if (!q) break; int k = s.n++; while (k > 0 && s.p[k - 1] > q) { s.p[k] = s.p[k - 1]; --k; } s.p[k] = q; }
    if (s.n == 0) return 0;
  }
  return s.p[--s.n];
}
extern "C" void* malloc(size_t n) { void* p = memDescending && n && n <= 512 ? memDown(n) : __libc_malloc(n); if (p && memFill >= 0) memset(p, memFill, n); return p; }
// leaves the chosen byte in the stack area the next calls will use
__attribute__((noinline)) static void dirtyStack(int v) { volatile unsigned char* p = (volatile unsigned char*)alloca(3 << 20); for (size_t i = 0; i < (3u << 20); i += 1) p[i] = (unsigned char)v; }
#endif
