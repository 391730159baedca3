/* Linked with the CLI whose allocation and file symbols are renamed: failing allocations, and a log of opened and changed paths. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

static long count, fail_at = -2, fail_from = -2, minsize;
static size_t maxsize; /* of one allocation, except growing ones: the encoder's are not checked */
static int logfd = -2;

static void init(void) {
  if (logfd != -2) return;
  const char *e = getenv("VF_LOG");
  logfd = e ? open(e, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600) : -1;
  fail_at = (e = getenv("VF_FAIL_AT")) ? atol(e) : -1;
  fail_from = (e = getenv("VF_FAIL_FROM")) ? atol(e) : -1;
  maxsize = (e = getenv("VF_MAX")) ? (size_t)atol(e) : 0;
  minsize = (e = getenv("VF_FAIL_MIN")) ? atol(e) : 0;
}
static void note(const char *what, const char *a, const char *b) {
  init();
  if (logfd < 0) return;
  char buf[9000];
  int n = snprintf(buf, sizeof buf, "%s\t%s\t%s\n", what, a ? a : "", b ? b : "");
  if (n > (int)sizeof buf) n = sizeof buf;
  if (write(logfd, buf, (size_t)n) < 0) {}
}
static int refuse(size_t n) {
  init();
  if (maxsize && n > maxsize) { errno = ENOMEM; return 1; }
  if ((long)n < minsize) return 0;
  long k = count++;
  if (k == fail_at || (fail_from >= 0 && k >= fail_from)) { errno = ENOMEM; return 1; }
  return 0;
}
__attribute__((destructor)) static void end(void) {
  char b[64];
  snprintf(b, sizeof b, "%ld", count);
  note("allocations", b, "");
}

void *vf_malloc(size_t n) { return refuse(n) ? 0 : malloc(n); }
void *vf_calloc(size_t a, size_t b) { size_t t; return __builtin_mul_overflow(a, b, &t) || refuse(t) ? 0 : calloc(a, b); }
void *vf_realloc(void *p, size_t n) { init(); return (!maxsize || n > maxsize * 8) && refuse(n) ? 0 : realloc(p, n); }
void *vf_reallocarray(void *p, size_t a, size_t b) { return refuse(a * b) ? 0 : reallocarray(p, a, b); }
void vf_free(void *p) { free(p); }
char *vf_strdup(const char *s) { return refuse(strlen(s) + 1) ? 0 : strdup(s); }
char *vf_strndup(const char *s, size_t n) { return refuse(n) ? 0 : strndup(s, n); }
int vf_posix_memalign(void **p, size_t a, size_t n) { return refuse(n) ? ENOMEM : posix_memalign(p, a, n); }
void *vf_aligned_alloc(size_t a, size_t n) { return refuse(n) ? 0 : aligned_alloc(a, n); }
FILE *vf_fopen(const char *p, const char *m) { note("fopen", p, m); return fopen(p, m); }
FILE *vf_freopen(const char *p, const char *m, FILE *f) { note("fopen", p, m); return freopen(p, m, f); }
int vf_fclose(FILE *f) { return fclose(f); }
int vf_open(const char *p, int fl, ...) {
  va_list a; va_start(a, fl); int mode = va_arg(a, int); va_end(a);
  note("fopen", p, (fl & O_ACCMODE) == O_RDONLY && !(fl & (O_CREAT | O_TRUNC)) ? "r" : "w");
  return open(p, fl, mode);
}
int vf_openat(int d, const char *p, int fl, ...) {
  va_list a; va_start(a, fl); int mode = va_arg(a, int); va_end(a);
  note("fopen", p, (fl & O_ACCMODE) == O_RDONLY && !(fl & (O_CREAT | O_TRUNC)) ? "r" : "w");
  return openat(d, p, fl, mode);
}
int vf_creat(const char *p, mode_t m) { note("fopen", p, "w"); return creat(p, m); }
int vf_close(int f) { return close(f); }
#ifndef FUZZ
void vf_exit(int c) { exit(c); }
#endif
int vf_rename(const char *a, const char *b) { note("rename", a, b); return rename(a, b); }
int vf_remove(const char *a) { note("remove", a, ""); return remove(a); }
int vf_unlink(const char *a) { note("remove", a, ""); return unlink(a); }
int vf_truncate(const char *a, off_t n) { note("truncate", a, ""); return truncate(a, n); }
int vf_mkdir(const char *a, mode_t m) { note("mkdir", a, ""); return mkdir(a, m); }
int vf_system(const char *a) { note("system", a, ""); return -1; }
