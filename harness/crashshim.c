/* Ends the process at the n-th file-modifying call below a directory, before
   the call or (writes) in the middle of it.  Loaded with LD_PRELOAD. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>
static char prefix[4096];
static long count, target, mode;
void shim_arm(const char *p, long t, long m) {
  strncpy(prefix, p, sizeof prefix - 1); count = 0; target = t; mode = m;
}
long shim_count(void) { return count; }
static int under(const char *p) {
  if (!prefix[0]) return 0;
  if (p[0] == '/') return strncmp(p, prefix, strlen(prefix)) == 0;
  char cwd[4096]; if (!getcwd(cwd, sizeof cwd)) return 0;
  return strncmp(cwd, prefix, strlen(prefix)) == 0;
}
static int fdunder(int fd) {
  if (!prefix[0]) return 0;
  char l[64], b[4096]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
  ssize_t n = readlink(l, b, sizeof b - 1); if (n < 0) return 0; b[n] = 0;
  return strncmp(b, prefix, strlen(prefix)) == 0;
}
static int hit(void) { return ++count == target; }
#define REAL(name) static __typeof__(&name) r; if (!r) r = dlsym(RTLD_NEXT, #name)
#define OPENLIKE(fn) int fn(const char *p, int fl, ...) { \
  REAL(fn); mode_t m = 0; va_list a; va_start(a, fl); m = va_arg(a, int); va_end(a); \
  if ((fl & (O_CREAT | O_TRUNC)) && under(p) && hit()) _exit(77); return r(p, fl, m); }
OPENLIKE(open)
OPENLIKE(open64)
#define OPENATLIKE(fn) int fn(int d, const char *p, int fl, ...) { \
  REAL(fn); mode_t m = 0; va_list a; va_start(a, fl); m = va_arg(a, int); va_end(a); \
  if ((fl & (O_CREAT | O_TRUNC)) && under(p) && hit()) _exit(77); return r(d, p, fl, m); }
OPENATLIKE(openat)
OPENATLIKE(openat64)
ssize_t write(int fd, const void *b, size_t n) {
  REAL(write);
  if (fdunder(fd) && hit()) {
    if (mode == 1 && n > 1) { ssize_t k = r(fd, b, n / 2); (void)k; }
    if (mode == 2 && n > 1) { ssize_t k = r(fd, b, n - 1); (void)k; }
    _exit(77);
  }
  return r(fd, b, n);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
  REAL(pwrite); if (fdunder(fd) && hit()) _exit(77); return r(fd, b, n, o);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
  REAL(pwrite64); if (fdunder(fd) && hit()) _exit(77); return r(fd, b, n, o);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
  REAL(writev); if (fdunder(fd) && hit()) _exit(77); return r(fd, v, n);
}
int rename(const char *a, const char *b) {
  REAL(rename); if (under(a) && hit()) _exit(77); return r(a, b);
}
int renameat(int x, const char *a, int y, const char *b) {
  REAL(renameat); if (under(a) && hit()) _exit(77); return r(x, a, y, b);
}
int mkdir(const char *a, mode_t m) { REAL(mkdir); if (under(a) && hit()) _exit(77); return r(a, m); }
int mkdirat(int d, const char *a, mode_t m) {
  REAL(mkdirat); if (under(a) && hit()) _exit(77); return r(d, a, m);
}
int unlink(const char *a) { REAL(unlink); if (under(a) && hit()) _exit(77); return r(a); }
int ftruncate(int fd, off_t n) { REAL(ftruncate); if (fdunder(fd) && hit()) _exit(77); return r(fd, n); }
int ftruncate64(int fd, off64_t n) { REAL(ftruncate64); if (fdunder(fd) && hit()) _exit(77); return r(fd, n); }
