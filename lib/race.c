/* LD_PRELOAD: realises the model's Race action at the worst moment. Just before the process creates or renames
   onto the path ending in $RACE_AT, another party's file appears there (once). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <unistd.h>
static int fired;
static void race(const char *p) {
  const char *at = getenv("RACE_AT");
  if (!at || !p || __sync_val_compare_and_swap(&fired, 2, 2)) return;
  size_t n = strlen(p), m = strlen(at);
  if (n < m || strcmp(p + n - m, at) || (n > m && p[n - m - 1] != 0x2f)) return;
  if (!__sync_bool_compare_and_swap(&fired, 0, 2)) return;
  int fd = syscall(SYS_openat, AT_FDCWD, p, O_WRONLY | O_CREAT | O_EXCL, 0644);
  if (fd >= 0) { (void)!write(fd, "theirs", 6); close(fd); }
}
#define OPEN(name) int name(const char *p, int fl, ...) { \
  static int (*f)(const char *, int, ...); if (!f) f = dlsym(RTLD_NEXT, #name); \
  va_list a; va_start(a, fl); mode_t m = va_arg(a, mode_t); va_end(a); \
  if (fl & O_CREAT) race(p); return f(p, fl, m); }
OPEN(open) OPEN(open64)
#define OPENAT(name) int name(int d, const char *p, int fl, ...) { \
  static int (*f)(int, const char *, int, ...); if (!f) f = dlsym(RTLD_NEXT, #name); \
  va_list a; va_start(a, fl); mode_t m = va_arg(a, mode_t); va_end(a); \
  if (fl & O_CREAT) race(p); return f(d, p, fl, m); }
OPENAT(openat) OPENAT(openat64)
int rename(const char *a, const char *b) { static int (*f)(const char *, const char *); if (!f) f = dlsym(RTLD_NEXT, "rename"); race(b); return f(a, b); }
int renameat2(int x, const char *a, int y, const char *b, unsigned fl) { static int (*f)(int, const char *, int, const char *, unsigned); if (!f) f = dlsym(RTLD_NEXT, "renameat2"); race(b); return f(x, a, y, b, fl); }
