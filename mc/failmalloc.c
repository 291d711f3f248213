/* Preloaded into a program: lets one allocation (MC_FAIL_MODE=once) or every
 * allocation from one on (from) fail, counted from the start of main.
 * MC_FAIL_LOG is a file that gets a byte per failed allocation. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stddef.h>
#include <stdlib.h>
#include <unistd.h>
extern void* __libc_malloc(size_t);
extern void* __libc_calloc(size_t, size_t);
extern void* __libc_realloc(void*, size_t);
extern void* __libc_memalign(size_t, size_t);
static long left = -1;          /* -1: not counting */
static int once = 1, logfd = -1;
static int fails(void) {
  if (left < 0) return 0;
  if (left > 0 && --left > 0) return 0;
  if (once) left = -1;
  if (logfd >= 0 && write(logfd, "x", 1) != 1) {}
  errno = ENOMEM;
  return 1;
}
void* malloc(size_t n) { return fails() ? NULL : __libc_malloc(n); }
void* calloc(size_t a, size_t b) { return fails() ? NULL : __libc_calloc(a, b); }
void* realloc(void* p, size_t n) { return fails() ? NULL : __libc_realloc(p, n); }
void* memalign(size_t a, size_t n) { return fails() ? NULL : __libc_memalign(a, n); }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** r, size_t a, size_t n) { void* p = memalign(a, n); if (!p) return ENOMEM; *r = p; return 0; }
static int (*realMain)(int, char**, char**);
static int startMain(int c, char** v, char** e) {
  const char *at = getenv("MC_FAIL_AT"), *mode = getenv("MC_FAIL_MODE"), *log = getenv("MC_FAIL_LOG");
  if (log) logfd = open(log, O_WRONLY | O_APPEND | O_CREAT, 0600);
  once = !(mode && mode[0] == 'f');
  if (at) left = atol(at);
  return realMain(c, v, e);
}
int __libc_start_main(int (*m)(int, char**, char**), int c, char** v, void (*i)(void), void (*f)(void), void (*rf)(void), void* s) {
  int (*real)(int (*)(int, char**, char**), int, char**, void (*)(void), void (*)(void), void (*)(void), void*) = dlsym(RTLD_NEXT, "__libc_start_main");
  realMain = m;
  return real(startMain, c, v, i, f, rf, s);
}
