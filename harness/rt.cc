// Runtime monitor: allocation and file handle accounting of the library under
// test, fault injection and fill patterns.
#include "h.h"
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VF_ASAN 1
#endif
#endif
#ifndef VF_ASAN
#define VF_ASAN 0
#endif
#include <errno.h>
#include <sched.h>
#include <sys/mman.h>
#include <unistd.h>
#include <fcntl.h>

Mon mon;
Stats st;
char g_msg[4096];
bool g_track = true;

bool fail(const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(g_msg, sizeof g_msg, fmt, ap);
  va_end(ap);
  return false;
}

namespace {
struct Blk { void *p; size_t n; u8 mapped; };
Blk *tab = nullptr;
size_t cap = 0, used = 0; // used includes tombstones
void *const TOMB = (void *)1;
size_t slot_of(void *p) { return (size_t)(mix64((u64)p)); }
void grow() {
  size_t oc = cap;
  Blk *o = tab;
  size_t live = 0;
  for (size_t i = 0; i < oc; i++)
    if (o[i].p && o[i].p != TOMB) live++;
  cap = 1024;
  while (cap < live * 4) cap *= 2;
  tab = (Blk *)calloc(cap, sizeof(Blk));
  used = 0;
  for (size_t i = 0; i < oc; i++)
    if (o[i].p && o[i].p != TOMB) {
      size_t s = slot_of(o[i].p) & (cap - 1);
      while (tab[s].p) s = (s + 1) & (cap - 1);
      tab[s] = o[i];
      used++;
    }
  free(o);
}
void put(void *p, size_t n, bool mapped) {
  if (used * 2 + 2 > cap) grow();
  size_t s = slot_of(p) & (cap - 1);
  while (tab[s].p) s = (s + 1) & (cap - 1);
  tab[s] = Blk{p, n, mapped};
  used++;
  mon.live++;
  mon.live_bytes += n;
}
Blk *get(void *p) {
  if (!cap || !p) return nullptr;
  size_t s = slot_of(p) & (cap - 1);
  while (tab[s].p) {
    if (tab[s].p == p) return &tab[s];
    s = (s + 1) & (cap - 1);
  }
  return nullptr;
}
bool inject(size_t n) {
  mon.allocs++;
  if (mon.fail_at && (mon.allocs == mon.fail_at || (mon.fail_rest && mon.allocs > mon.fail_at))) {
    mon.failed++;
    return true;
  }
  if (n > mon.limit) { mon.refused++; return true; }
  return false;
}
void fillmem(void *p, size_t n) {
  if (mon.fill < 0) return;
  if (mon.fill < 256) {
    memset(p, mon.fill, n);
    return;
  }
  u64 x = 88172645463325252ull + mon.allocs * 77;
  u8 *b = (u8 *)p;
  for (size_t i = 0; i < n; i++) {
    x ^= x << 13, x ^= x >> 7, x ^= x << 17;
    b[i] = (u8)(x >> 24);
  }
}
void *raw(size_t n, bool &mapped) {
  mapped = false;
  if (mon.noreserve && n >= (64u << 20)) {
    mapped = true;
    void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    return p == MAP_FAILED ? nullptr : p;
  }
  return malloc(n);
}
} // namespace

bool vf_owned(void *p) { return get(p) != nullptr; }
void vf_forget(void *p) { // no longer the library's block
  Blk *b = get(p);
  if (!b) return;
  mon.live--;
  mon.live_bytes -= b->n;
  b->p = TOMB;
}
size_t vf_size(void *p) {
  Blk *b = get(p);
  return b ? b->n : 0;
}

#ifdef NOTRACK
// Threaded builds: no accounting, but delays at the allocation calls, so that
// the threads are interrupted in the middle of the operations.
thread_local u64 vf_jitter_state = 0;
static void jitter() {
  if (!vf_jitter_state) return;
  vf_jitter_state = mix64(vf_jitter_state);
  u32 k = (u32)(vf_jitter_state & 15);
  if (k < 4) sched_yield();
  else if (k == 4) usleep((useconds_t)((vf_jitter_state >> 8) % 300));
}
extern "C" {
void *vf_malloc(size_t n) { jitter(); return n > (400ull << 20) ? nullptr : malloc(n); }
void *vf_calloc(size_t a, size_t b) { jitter(); size_t n; return __builtin_mul_overflow(a, b, &n) || n > (400ull << 20) ? nullptr : calloc(a, b); }
void vf_free(void *p) { jitter(); free(p); }
void *vf_realloc(void *p, size_t n) { jitter(); return realloc(p, n); }
void *vf_reallocarray(void *p, size_t a, size_t b) { jitter(); return reallocarray(p, a, b); }
char *vf_strdup(const char *s) { return strdup(s); }
char *vf_strndup(const char *s, size_t k) { return strndup(s, k); }
int vf_posix_memalign(void **o, size_t a, size_t n) { jitter(); return posix_memalign(o, a, n); }
void *vf_aligned_alloc(size_t a, size_t n) { jitter(); return aligned_alloc(a, n); }
FILE *vf_fopen(const char *n, const char *m) { jitter(); return fopen(n, m); }
int vf_fclose(FILE *f) { jitter(); return fclose(f); }
int vf_open(const char *n, int fl, ...) {
  va_list ap;
  va_start(ap, fl);
  int mode = va_arg(ap, int);
  va_end(ap);
  return open(n, fl, mode);
}
int vf_close(int fd) { return close(fd); }
void vf_exit(int) { abort(); }
}
#else
extern "C" {
void *vf_malloc(size_t n) {
  if (inject(n)) { errno = ENOMEM; return nullptr; }
  bool m;
  void *p = raw(n, m);
  if (!p) return nullptr;
  if (!m) fillmem(p, n);
  put(p, n, m);
  return p;
}
void *vf_calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) { mon.allocs++; mon.refused++; return nullptr; }
  if (inject(n)) { errno = ENOMEM; return nullptr; }
  bool m = false;
  void *p;
  if (mon.noreserve && n >= (64u << 20)) p = raw(n, m);
  else p = calloc(a, b);
  if (!p) return nullptr;
  put(p, n, m);
  return p;
}
void vf_free(void *p) {
  if (!p) return;
  Blk *b = get(p);
  if (!b) {
    mon.bad_free = true;
    snprintf(mon.bad, sizeof mon.bad, "free of a pointer that is not a live block");
#if VF_ASAN
    free(p); // let the sanitizer explain it
#endif
    return;
  }
  mon.live--;
  mon.live_bytes -= b->n;
  size_t n = b->n;
  bool m = b->mapped;
  b->p = TOMB;
  if (m) { munmap(p, n); return; }
#if !VF_ASAN
  if (mon.fill >= 0 && n < (1u << 20)) memset(p, 0xDD, n);
#endif
  free(p);
}
void *vf_realloc(void *p, size_t n) {
  if (!p) return vf_malloc(n);
  Blk *b = get(p);
  size_t o = b ? b->n : 0;
  void *q = vf_malloc(n);
  if (!q) return nullptr;
  memcpy(q, p, o < n ? o : n);
  vf_free(p);
  return q;
}
void *vf_reallocarray(void *p, size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) return nullptr;
  return vf_realloc(p, n);
}
char *vf_strdup(const char *s) {
  size_t n = strlen(s) + 1;
  char *p = (char *)vf_malloc(n);
  if (p) memcpy(p, s, n);
  return p;
}
char *vf_strndup(const char *s, size_t k) {
  size_t n = strnlen(s, k);
  char *p = (char *)vf_malloc(n + 1);
  if (p) { memcpy(p, s, n); p[n] = 0; }
  return p;
}
int vf_posix_memalign(void **out, size_t al, size_t n) {
  if (inject(n)) return ENOMEM;
  int r = posix_memalign(out, al, n);
  if (!r) put(*out, n, false);
  return r;
}
void *vf_aligned_alloc(size_t al, size_t n) {
  void *p = nullptr;
  if (vf_posix_memalign(&p, al, n)) return nullptr;
  return p;
}
FILE *vf_fopen(const char *n, const char *m) {
  FILE *f = fopen(n, m);
  if (f) mon.files++;
  return f;
}
int vf_fclose(FILE *f) {
  mon.files--;
  return fclose(f);
}
int vf_open(const char *n, int fl, ...) {
  va_list ap;
  va_start(ap, fl);
  int mode = va_arg(ap, int);
  va_end(ap);
  int fd = open(n, fl, mode);
  if (fd >= 0) mon.files++;
  return fd;
}
int vf_close(int fd) {
  mon.files--;
  return close(fd);
}
void vf_exit(int) { abort(); } // a library call must not end the process
}
#endif

__attribute__((noinline)) void stack_fill(int pattern) {
  volatile u8 buf[96 * 1024];
  memset((void *)buf, pattern, sizeof buf);
  __asm__ volatile("" : : "r"(buf) : "memory");
}
