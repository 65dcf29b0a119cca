/* LD_PRELOAD shim: counts the file operations of the program and fails or kills the process at a chosen one.
   FSHIM_LOG: file to append "n op path" to;  FSHIM_AT: operation number;  FSHIM_MODE: before|after|fail;
   FSHIM_ERRNO: errno for fail.  Operations on standard streams are not counted. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <unistd.h>
#include <dlfcn.h>
#include <fcntl.h>
static long n, at = -1; static int mode, err, logfd = -1, inited;
static void init(void) {
  if (inited) return;
  inited = 1;
  char *p = getenv("FSHIM_AT"); if (p) at = atol(p);
  p = getenv("FSHIM_MODE"); if (p) mode = p[0];
  p = getenv("FSHIM_ERRNO"); err = p ? atoi(p) : EIO;
  p = getenv("FSHIM_LOG"); if (p) logfd = open(p, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
}
static int hit(const char *op, const char *path) {
  init(); n++;
  if (logfd >= 0) { char b[400]; int l = snprintf(b, sizeof b, "%ld %s %s\n", n, op, path ? path : "-"); if (l > 399) l = 399; if (write(logfd, b, l) < 0) {} }
  if (n != at) return 0;
  if (mode == 'b') _exit(137);
  return mode == 'a' ? 2 : 1;
}
#define REAL(f) static __typeof__(&f) real; if (!real) real = (__typeof__(&f))dlsym(RTLD_NEXT, #f)
static int std(FILE *f) { return f == stdin || f == stdout || f == stderr; }
FILE *fopen(const char *p, const char *m) {
  REAL(fopen); int h = hit(m[0] == 'w' ? "fopen-w" : "fopen-r", p);
  if (h == 1) { errno = err; return 0; }
  FILE *f = real(p, m); if (h == 2) _exit(137); return f; }
int fclose(FILE *f) {
  REAL(fclose); if (std(f)) return real(f); int h = hit("fclose", 0);
  if (h == 1) { real(f); errno = err; return -1; }
  int r = real(f); if (h == 2) _exit(137); return r; }
int rename(const char *a, const char *b) {
  REAL(rename); int h = hit("rename", a);
  if (h == 1) { errno = err; return -1; }
  int r = real(a, b); if (h == 2) _exit(137); return r; }
int remove(const char *a) {
  REAL(remove); int h = hit("remove", a);
  if (h == 1) { errno = err; return -1; }
  int r = real(a); if (h == 2) _exit(137); return r; }
int fputs(const char *s, FILE *f) {
  REAL(fputs); if (std(f)) return real(s, f); int h = hit("fputs", 0);
  if (h == 1) { errno = err; return EOF; }
  int r = real(s, f); if (h == 2) _exit(137); return r; }
int fputc(int c, FILE *f) {
  REAL(fputc); if (std(f)) return real(c, f); int h = hit("fputc", 0);
  if (h == 1) { errno = err; return EOF; }
  int r = real(c, f); if (h == 2) _exit(137); return r; }
size_t fwrite(const void *p, size_t s, size_t k, FILE *f) {
  REAL(fwrite); if (std(f)) return real(p, s, k, f); int h = hit("fwrite", 0);
  if (h == 1) { errno = err; return 0; }
  size_t r = real(p, s, k, f); if (h == 2) _exit(137); return r; }
int fprintf(FILE *f, const char *fmt, ...) {
  va_list ap; int r, h = 0; if (!std(f)) { h = hit("fprintf", 0); if (h == 1) { errno = err; return -1; } }
  va_start(ap, fmt); r = vfprintf(f, fmt, ap); va_end(ap); if (h == 2) _exit(137); return r; }
int __fprintf_chk(FILE *f, int flag, const char *fmt, ...) {
  va_list ap; int r, h = 0; (void)flag; if (!std(f)) { h = hit("fprintf", 0); if (h == 1) { errno = err; return -1; } }
  va_start(ap, fmt); r = vfprintf(f, fmt, ap); va_end(ap); if (h == 2) _exit(137); return r; }
int unlink(const char *a) {
  REAL(unlink); int h = hit("unlink", a);
  if (h == 1) { errno = err; return -1; }
  int r = real(a); if (h == 2) _exit(137); return r; }
