// C27: images of more than four gigabytes. The input is a mapping that repeats
// a few megabytes of a pattern (period not a divisor of any power of two), so
// that it costs no memory; outputs are lazily committed mappings. Local
// operations are judged by running them on a small part of the same image,
// permutations, crops, borders, warps and counts by their definition.
#include "h.h"
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace {
const size_t PAGE = 4096;
struct Big {
  u8 *p = nullptr;
  size_t n = 0, len = 0;
  i64 w = 0, h = 0;
  u32 ch = 4;
  Bytes pat; // period
  u8 at(i64 x, i64 y, u32 c) const { return p[((size_t)y * (size_t)w + (size_t)x) * ch + c]; }
  u8 orig(size_t i) const { return pat.empty() ? 0 : pat[i % pat.size()]; }
  void unmap() {
    if (p) munmap(p, len);
    p = nullptr;
  }
};
bool g_nomem = false;

bool make(Big &b, i64 w, i64 h, u32 ch, const Bytes &pat) {
  b.w = w, b.h = h, b.ch = ch;
  b.n = (size_t)w * (size_t)h * ch;
  b.len = (b.n + PAGE - 1) / PAGE * PAGE;
  b.pat = pat;
  b.p = (u8 *)mmap(nullptr, b.len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (b.p == MAP_FAILED) { b.p = nullptr; g_nomem = true; return false; }
  if (!pat.empty()) {
    int fd = (int)syscall(SYS_memfd_create, "pat", 0u);
    if (fd < 0 || ftruncate(fd, (off_t)pat.size()) != 0) { g_nomem = true; return false; }
    u8 *m = (u8 *)mmap(nullptr, pat.size(), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (m == MAP_FAILED) { g_nomem = true; return false; }
    memcpy(m, pat.data(), pat.size());
    munmap(m, pat.size());
    for (size_t o = 0; o < b.len; o += pat.size()) {
      size_t k = b.len - o < pat.size() ? b.len - o : pat.size();
      if (mmap(b.p + o, k, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_FIXED | MAP_NORESERVE, fd, 0) == MAP_FAILED) { g_nomem = true; return false; }
    }
    close(fd);
  }
  return true;
}
// kinds of pattern: 0 noise, 1 two well separated gray levels with a little noise, 2 binary 0/255 blobs,
// 3 noise with flat areas and a sharp edge (strongest possible gradient)
Bytes pattern(Rng &r, int kind, u32 ch, i64 w) {
  Bytes p(PAGE * 1155); // 3*5*7*11 pages
  size_t n = p.size();
  for (size_t i = 0; i + 8 <= n; i += 8) {
    u64 v = r.next();
    memcpy(&p[i], &v, 8);
  }
  if (kind == 1) {
    for (size_t i = 0; i < n; i += ch) {
      u8 v = (u8)((r.below(3) ? 40 : 190) + r.below(8));
      for (u32 c = 0; c < ch && i + c < n; c++) p[i + c] = ch == 4 && c == 3 ? (u8)r.next() : v;
    }
  } else if (kind == 2) {
    size_t i = 0;
    while (i < n) {
      u8 v = r.below(2) ? 255 : 0;
      size_t k = 1 + r.below(40);
      while (k-- && i < n) p[i++] = v;
    }
  } else if (kind == 3) {
    for (size_t i = n / 4; i < n / 2; i++) p[i] = 0;
    // white rows below black rows: a full-strength edge
    size_t row = (size_t)w * ch, a = n / 4 + row * 10;
    for (size_t i = a; i < a + row * 10 && i < n / 2; i++) p[i] = 255;
  }
  return p;
}
Bytes part(const Big &b, i64 x0, i64 y0, i64 w, i64 h) {
  Bytes o((size_t)(w * h) * b.ch);
  for (i64 y = 0; y < h; y++) memcpy(&o[(size_t)(y * w) * b.ch], b.p + ((size_t)(y0 + y) * (size_t)b.w + (size_t)x0) * b.ch, (size_t)w * b.ch);
  return o;
}
// positions of interest along an axis of n lines of k units each: 2^30.. 2^34 unit boundaries, start, end, random
std::vector<i64> spots(Rng &r, i64 n, double units_per_line, int extra) {
  std::vector<i64> v = {0, n - 1, n / 2};
  for (int e = 29; e <= 35; e++) {
    double l = ldexp(1, e) / units_per_line;
    if (l < (double)n) v.push_back((i64)l);
    l *= 1.5;
    if (l < (double)n) v.push_back((i64)l);
  }
  for (int i = 0; i < extra; i++) v.push_back((i64)(r.unit() * (double)n));
  return v;
}
struct Out {
  u8 *p;
  size_t n;
  explicit Out(u8 *q) : p(q), n(vf_size(q)) {}
  ~Out() { if (p) vf_free(p); }
};
bool need(const Out &o, size_t n) {
  if (o.n < n) return fail("the result has %zu bytes, %zu are needed", o.n, n);
  return true;
}
typedef u8 *(*Perm)(u32, u32, u8 const *);

void shape(Rng &r, int k, double units, i64 &w, i64 &h) { // total slightly above `units` pixels
  i64 s = k % 3 == 0 ? 3 + (i64)r.below(6) : k % 3 == 1 ? 700 + (i64)r.below(400) : 20000 + (i64)r.below(15000);
  i64 l = (i64)(units / (double)s) + 3 + (i64)r.below(50);
  if (k & 1) w = s, h = l;
  else w = l, h = s;
}

bool perm(Rng &r, int which, int k) {
  static const Perm fn[] = {fcv_flip_x, fcv_flip_y, fcv_transpose, fcv_transverse, fcv_rotate_90_cw, fcv_rotate_180, fcv_rotate_270_cw};
  i64 w, h;
  shape(r, k, ldexp(1, 30), w, h);
  Big b;
  if (!make(b, w, h, 4, pattern(r, 0, 4, w))) return true;
  Out o(fn[which]((u32)w, (u32)h, b.p));
  bool ok = true;
  if (o.p) {
    ok = need(o, b.n);
    i64 ow = which < 2 || which == 5 ? w : h;
    auto check = [&](i64 x, i64 y) {
      i64 X = x, Y = y;
      switch (which) {
      case 0: X = w - 1 - x; break;
      case 1: Y = h - 1 - y; break;
      case 2: X = y, Y = x; break;
      case 3: X = h - 1 - y, Y = w - 1 - x; break;
      case 4: X = h - 1 - y, Y = x; break;
      case 5: X = w - 1 - x, Y = h - 1 - y; break;
      case 6: X = y, Y = w - 1 - x; break;
      }
      const u8 *e = b.p + ((size_t)y * (size_t)w + (size_t)x) * 4, *g = o.p + ((size_t)Y * (size_t)ow + (size_t)X) * 4;
      if (memcmp(e, g, 4)) return fail("pixel (%lld,%lld) of the %lldx%lld image is not at (%lld,%lld)", (long long)x, (long long)y, (long long)w, (long long)h, (long long)X, (long long)Y);
      return true;
    };
    for (i64 y : spots(r, h, (double)w, 20))
      for (i64 x : spots(r, w, 4, 20)) ok = ok && check(x, y);
    for (int i = 0; ok && i < 3000000; i++) ok = check((i64)(r.unit() * (double)w), (i64)(r.unit() * (double)h));
    st.okc[0]++;
  }
  b.unmap();
  return ok;
}

// an operation whose output at a pixel depends on the pixels within m of it
struct Local {
  const char *name;
  u32 ich, och;
  int margin, kind;
  double px;
  int shapek;
  u8 *(*run)(const u8 *, i64, i64);
  int tol;
  bool global; // depends on the value distribution: parts must hold a whole period
};
bool local(Rng &r, const Local &L) {
  i64 w, h;
  shape(r, L.shapek, L.px, w, h);
  Big b;
  if (!make(b, w, h, L.ich, pattern(r, L.kind, L.ich, w))) return true;
  Out o(L.run(b.p, w, h));
  bool ok = true;
  if (o.p) {
    ok = need(o, (size_t)w * (size_t)h * L.och);
    std::vector<i64> v = spots(r, w > h ? w : h, (double)(w > h ? h : w) * L.ich, L.global ? 1 : 6);
    i64 thick = L.global ? (i64)(b.pat.size() / L.ich / (size_t)(w > h ? h : w)) + 40 : 3000 / (w > h ? h : w) + 4 * L.margin + 8;
    for (i64 c : v) {
      if (!ok) break;
      i64 N = w > h ? w : h, a = c - thick / 2;
      if (a < 0) a = 0;
      if (a > N - thick) a = N - thick;
      i64 sw = w > h ? thick : w, sh = w > h ? h : thick, sx = w > h ? a : 0, sy = w > h ? 0 : a;
      Bytes in = part(b, sx, sy, sw, sh);
      u8 *e = L.run(in.data(), sw, sh);
      if (!e) { st.inconclusive++; continue; }
      i64 m0 = a > 0 ? L.margin : 0, m1 = a + thick < N ? L.margin : 0;
      i64 x0 = w > h ? m0 : 0, x1 = w > h ? sw - m1 : sw, y0 = w > h ? 0 : m0, y1 = w > h ? sh : sh - m1;
      for (i64 y = y0; ok && y < y1; y++)
        for (i64 x = x0; ok && x < x1; x++)
          for (u32 q = 0; q < L.och; q++) {
            int g = o.p[((size_t)(sy + y) * (size_t)w + (size_t)(sx + x)) * L.och + q], x2 = e[(size_t)(y * sw + x) * L.och + q];
            if (abs(g - x2) > L.tol) { ok = fail("%s of a %lldx%lld image: pixel (%lld,%lld) channel %u is %d, but %d in a part of the image", L.name, (long long)w, (long long)h, (long long)(sx + x), (long long)(sy + y), q, g, x2); break; }
          }
      vf_free(e);
      st.extra[7]++;
    }
    st.okc[0]++;
  }
  b.unmap();
  return ok;
}
const Local locals[] = {
  {"grayscale", 4, 4, 0, 0, ldexp(1, 30), 1, [](const u8 *p, i64 w, i64 h) { return fcv_grayscale((u32)w, (u32)h, p); }, 0, false},
  {"grayscale", 4, 4, 0, 0, ldexp(1, 30), 0, [](const u8 *p, i64 w, i64 h) { return fcv_grayscale((u32)w, (u32)h, p); }, 0, false},
  {"rgba_to_grayscale", 4, 1, 0, 0, ldexp(1, 31), 1, [](const u8 *p, i64 w, i64 h) { return fcv_rgba_to_grayscale((u32)w, (u32)h, p); }, 0, false},
  {"single_to_multichannel", 1, 4, 0, 0, ldexp(1, 30), 0, [](const u8 *p, i64 w, i64 h) { return fcv_single_to_multichannel((u32)w, (u32)h, p); }, 0, false},
  {"convert_to_binary", 4, 1, 0, 2, ldexp(1, 30), 1, [](const u8 *p, i64 w, i64 h) { return fcv_convert_to_binary(p, (i32)w, (i32)h, "FFFFFF", "000000"); }, 0, false},
  {"blur", 4, 4, 1, 0, ldexp(1, 30), 3, [](const u8 *p, i64 w, i64 h) { return fcv_apply_gaussian_blur((u32)w, (u32)h, 1.0, p); }, 1, false},
  {"blur with radius 0", 4, 4, 0, 0, ldexp(1, 30), 2, [](const u8 *p, i64 w, i64 h) { return fcv_apply_gaussian_blur((u32)w, (u32)h, 0.0, p); }, 0, false},
  {"dilation", 1, 1, 2, 2, ldexp(1, 32), 1, [](const u8 *p, i64 w, i64 h) { return fcv_binary_dilation_disk(p, (i32)w, (i32)h, 0); }, 0, false},
  {"erosion", 1, 1, 2, 2, ldexp(1, 32), 3, [](const u8 *p, i64 w, i64 h) { return fcv_binary_erosion_disk(p, (i32)w, (i32)h, 0); }, 0, false},
  {"otsu", 4, 4, 0, 1, ldexp(1, 30), 1, [](const u8 *p, i64 w, i64 h) { return fcv_otsu_threshold_rgba((u32)w, (u32)h, false, p); }, 0, true},
  {"stretch", 4, 4, 0, 1, ldexp(1, 30), 3, [](const u8 *p, i64 w, i64 h) { return fcv_grayscale_stretch((u32)w, (u32)h, p); }, 0, true},
  {"sobel", 4, 1, 1, 3, ldexp(1, 30), 3, [](const u8 *p, i64 w, i64 h) { return fcv_sobel_edge_detection((u32)w, (u32)h, 4, p); }, 0, true},
  {"dilation with radius 1", 1, 1, 2, 2, ldexp(1, 32), 3, [](const u8 *p, i64 w, i64 h) { return fcv_binary_dilation_disk(p, (i32)w, (i32)h, 1); }, 0, false},
  {"closing with radius 1", 1, 1, 3, 2, ldexp(1, 32), 1, [](const u8 *p, i64 w, i64 h) { return fcv_binary_closing_disk(p, (i32)w, (i32)h, 1); }, 0, false},
  {"opening with radius 1", 1, 1, 3, 2, ldexp(1, 32), 3, [](const u8 *p, i64 w, i64 h) { return fcv_binary_opening_disk(p, (i32)w, (i32)h, 1); }, 0, false},
  {"erosion with radius 1", 1, 1, 2, 2, ldexp(1, 32), 0, [](const u8 *p, i64 w, i64 h) { return fcv_binary_erosion_disk(p, (i32)w, (i32)h, 1); }, 0, false},
  {"sobel of a gray image", 1, 1, 1, 3, ldexp(1, 31) * 1.05, 3, [](const u8 *p, i64 w, i64 h) { return fcv_sobel_edge_detection((u32)w, (u32)h, 1, p); }, 0, true},
};

bool crop(Rng &r) {
  static const u32 chs[] = {1, 3, 4, 4, 1};
  for (int k = 0; k < 12; k++) {
    u32 ch = chs[k % 5];
    i64 w, h;
    shape(r, k, (k & 1 ? ldexp(1, 33) : exp2(34.2)) / ch, w, h);
    Big b;
    if (!make(b, w, h, ch, pattern(r, 0, ch, w))) return true;
    for (i64 y : spots(r, h, (double)w * ch, 8))
      for (i64 x : spots(r, w, 4, 3)) {
        i64 cw = 1 + (i64)r.below(60), hh = 1 + (i64)r.below(60);
        if (x + cw > w) x = w - cw;
        if (y + hh > h) y = h - hh;
        if (x < 0) x = 0, cw = w;
        if (y < 0) y = 0, hh = h;
        Out o(fcv_crop((u32)w, (u32)h, ch, b.p, (u32)x, (u32)y, (u32)cw, (u32)hh));
        if (!o.p) continue;
        Bytes e = part(b, x, y, cw, hh);
        if (!need(o, e.size()) || memcmp(e.data(), o.p, e.size())) { b.unmap(); return fail("crop at (%lld,%lld) of %lldx%lldx%u is not that part of the image", (long long)x, (long long)y, (long long)w, (long long)h, ch); }
        st.okc[0]++;
        st.extra[7]++;
      }
    b.unmap();
  }
  return true;
}
bool crop_large(Rng &r) { // the result itself is large
  i64 w = 70001, h = 61400 + (i64)r.below(50);
  Big b;
  if (!make(b, w, h, 1, pattern(r, 0, 1, w))) return true;
  i64 cw = w - 3, hh = h - 2;
  Out o(fcv_crop((u32)w, (u32)h, 1, b.p, 2, 1, (u32)cw, (u32)hh));
  bool ok = true;
  if (o.p) {
    ok = need(o, (size_t)cw * (size_t)hh);
    for (i64 y = 0; ok && y < hh; y++)
      if (memcmp(o.p + (size_t)y * (size_t)cw, b.p + (size_t)(y + 1) * (size_t)w + 2, (size_t)cw)) ok = fail("row %lld of the %lldx%lld crop is wrong", (long long)y, (long long)cw, (long long)hh);
    st.okc[0]++;
  }
  b.unmap();
  return ok;
}
bool border(Rng &r, int k) {
  u32 ch = k % 3 == 0 ? 4 : k % 3 == 1 ? 1 : 3;
  i64 w, h, bw;
  if (k < 3) { // a large image, narrow border
    shape(r, k + 1, ldexp(1, 32) / ch, w, h);
    bw = 1 + (i64)r.below(3);
  } else { // a small image, wide border
    w = 1 + (i64)r.below(300), h = 1 + (i64)r.below(300);
    bw = (i64)((sqrt(ldexp(1, 32) / ch) - (double)(w < h ? w : h)) / 2) + 40;
  }
  Big b;
  if (!make(b, w, h, ch, pattern(r, 0, ch, w))) return true;
  u32 ow = 0, oh = 0;
  Out o(fcv_add_border((u32)w, (u32)h, ch, "#102030", (u32)bw, b.p, &ow, &oh));
  bool ok = true;
  if (o.p) {
    if (ow != (u32)(w + 2 * bw) || oh != (u32)(h + 2 * bw)) ok = fail("bordered size %ux%u", ow, oh);
    ok = ok && need(o, (size_t)ow * oh * ch);
    u8 col[4] = {0x10, 0x20, 0x30, 255};
    if (ok && ch == 1) col[0] = o.p[0];
    for (u32 y = 0; ok && y < oh; y++) {
      const u8 *row = o.p + (size_t)y * ow * ch;
      bool inside = y >= bw && y < bw + h;
      i64 left = inside ? bw : ow;
      for (i64 x = 0; ok && x < left; x++)
        if (memcmp(row + (size_t)x * ch, col, ch)) ok = fail("frame pixel (%lld,%u) of the %ux%u image has another colour", (long long)x, y, ow, oh);
      if (ok && inside) {
        if (memcmp(row + (size_t)bw * ch, b.p + (size_t)(y - bw) * (size_t)w * ch, (size_t)w * ch)) ok = fail("row %u inside the border is not the original", y);
        for (i64 x = bw + w; ok && x < ow; x++)
          if (memcmp(row + (size_t)x * ch, col, ch)) ok = fail("frame pixel (%lld,%u) of the %ux%u image has another colour", (long long)x, y, ow, oh);
      }
    }
    st.okc[0]++;
  }
  b.unmap();
  return ok;
}
bool draw(Rng &r, int k) {
  static const u32 chs[] = {4, 1, 3, 4};
  u32 ch = chs[k % 4];
  i64 w, h;
  shape(r, (k / 2) % 2 ? 5 : 3 + (k & 1), ldexp(1, 33) / ch, w, h);
  Big b;
  if (!make(b, w, h, ch, pattern(r, 0, ch, w))) return true;
  bool ok = true;
  for (i64 y : spots(r, h, (double)w * ch, 4))
    for (i64 x : spots(r, w, 4, 1)) {
      if (!ok) break;
      if ((double)w * 90 * 4 > 4e8 && r.below(6)) continue;
      i64 rad = (i64)r.below(25);
      i64 x0 = x - 30, y0 = y - 30, sw = 61, sh = 61;
      if (x0 < 0) sw += x0, x0 = 0;
      if (y0 < 0) sh += y0, y0 = 0;
      if (x0 + sw > w) sw = w - x0;
      if (y0 + sh > h) sh = h - y0;
      Bytes e = part(b, x0, y0, sw, sh);
      bool disk = r.below(2);
      if (disk) fcv_draw_disk((u32)w, (u32)h, ch, "#A1B2C3", (double)rad, (double)x, (double)y, b.p), fcv_draw_disk((u32)sw, (u32)sh, ch, "#A1B2C3", (double)rad, (double)(x - x0), (double)(y - y0), e.data());
      else fcv_draw_circle((u32)w, (u32)h, ch, "#A1B2C3", (double)rad, (double)x, (double)y, b.p), fcv_draw_circle((u32)sw, (u32)sh, ch, "#A1B2C3", (double)rad, (double)(x - x0), (double)(y - y0), e.data());
      for (i64 j = 0; ok && j < sh; j++) {
        u8 *row = b.p + ((size_t)(y0 + j) * (size_t)w + (size_t)x0) * ch;
        if (memcmp(row, &e[(size_t)(j * sw) * ch], (size_t)sw * ch)) ok = fail("%s of radius %lld at (%lld,%lld) of a %lldx%lldx%u image is wrong in row %lld", disk ? "disk" : "circle", (long long)rad, (long long)x, (long long)y, (long long)w, (long long)h, ch, (long long)(y0 + j));
        // undo
        size_t off = (size_t)(row - b.p);
        for (size_t i = 0; i < (size_t)sw * ch; i++) row[i] = b.orig(off + i);
      }
      st.okc[0]++;
      st.extra[7]++;
    }
  // nothing else was changed
  for (size_t o = 0; ok && o < b.n; o += b.pat.size()) {
    size_t m = b.n - o < b.pat.size() ? b.n - o : b.pat.size();
    if (memcmp(b.p + o, b.pat.data(), m)) ok = fail("drawing changed bytes elsewhere in the %lldx%lldx%u image (near byte %zu)", (long long)w, (long long)h, ch, o);
  }
  b.unmap();
  return ok;
}
bool trim(Rng &r, int k) {
  u32 ch = k % 3 == 0 ? 4 : k % 3 == 1 ? 1 : 3;
  i64 w = 31000 + (i64)r.below(900), h = (i64)(ldexp(1, 32) / (double)(w * ch)) + 40 + (i64)r.below(20);
  Big b;
  if (!make(b, w, h, ch, Bytes())) return true;
  // four single pixels span the content
  i64 x0, x1, y0, y1;
  if (k < 3) x0 = 1 + (i64)r.below(3), x1 = w - 2 - (i64)r.below(3), y0 = 1 + (i64)r.below(3), y1 = h - 2 - (i64)r.below(3);
  else x0 = w - 900 - (i64)r.below(50), x1 = w - 5 - (i64)r.below(5), y0 = h - 900 - (i64)r.below(50), y1 = h - 5 - (i64)r.below(5);
  auto put = [&](i64 x, i64 y, u8 v) { for (u32 c = 0; c < ch; c++) b.p[((size_t)y * (size_t)w + (size_t)x) * ch + c] = v; };
  i64 mx = (x0 + x1) / 2, my = (y0 + y1) / 2;
  put(x0, my, 201), put(x1, my + 3, 202), put(mx, y0, 203), put(mx + 3, y1, 204);
  i32 tw = (i32)w, th = (i32)h;
  Out o(k & 1 ? fcv_trim(&tw, &th, ch, b.p) : fcv_trim_threshold(&tw, &th, ch, b.p, 10));
  bool ok = true;
  if (o.p) {
    i64 ew = x1 - x0 + 1, eh = y1 - y0 + 1;
    if (tw != ew || th != eh) ok = fail("trimmed %lldx%lldx%u image is %dx%d instead of %lldx%lld", (long long)w, (long long)h, ch, tw, th, (long long)ew, (long long)eh);
    ok = ok && need(o, (size_t)ew * (size_t)eh * ch);
    auto got = [&](i64 x, i64 y) { return o.p[((size_t)(y - y0) * (size_t)ew + (size_t)(x - x0)) * ch]; };
    if (ok && (got(x0, my) != 201 || got(x1, my + 3) != 202 || got(mx, y0) != 203 || got(mx + 3, y1) != 204)) ok = fail("content of the trimmed %lldx%lldx%u image is not in its place", (long long)w, (long long)h, ch);
    size_t nz = 0;
    if (ok) for (size_t i = 0, n = (size_t)ew * (size_t)eh * ch; i < n; i++) nz += o.p[i] != 0;
    if (ok && nz != 4 * ch) ok = fail("the trimmed image has %zu non-zero bytes instead of %u", nz, 4 * ch);
    st.okc[0]++;
  }
  b.unmap();
  return ok;
}
bool hist(Rng &r, int k) {
  u32 ch = k == 0 ? 1 : k == 1 ? 4 : 3;
  i64 w, h;
  shape(r, 1 + k, ldexp(1, 32) * 1.02 / (ch == 1 ? 1 : 4), w, h);
  Bytes p = pattern(r, 1, 1, w);
  if (k == 1)
    for (size_t i = 0; i + 4 <= p.size(); i += 4) p[i] = (u8)(p[i] / 2); // not gray
  Big b;
  if (!make(b, w, h, ch, p)) return true;
  u32 ow = 0, oh = 0;
  Out o(fcv_generate_histogram((u32)w, (u32)h, ch, b.p, &ow, &oh));
  bool ok = true;
  if (o.p) {
    if (ow != 256 || oh != 200) ok = fail("histogram is %ux%u", ow, oh);
    u64 cnt[4][256] = {{0}};
    // counts from the period: byte i has channel i % ch; the period is a multiple of 3 and 4
    u64 full = b.n / p.size(), rest = b.n % p.size();
    for (size_t i = 0; i < p.size(); i++) cnt[i % ch][p[i]] += full + (i < rest);
    u64 mx = 0;
    int nc = ch == 1 ? 1 : 3;
    for (int c = 0; c < nc; c++)
      for (int v = 0; v < 256; v++) mx = cnt[c][v] > mx ? cnt[c][v] : mx;
    for (int v = 0; ok && v < 256; v++)
      for (int c = 0; ok && c < nc; c++) {
        u64 bar = (u64)((unsigned __int128)cnt[c][v] * 200 / mx);
        u64 g = 0;
        for (int y = 199; y >= 0 && o.p[(y * 256 + v) * 4 + c]; y--) g++;
        if (g != bar) ok = fail("bar of value %d channel %d of a %lldx%lldx%u image is %llu instead of %llu high", v, c, (long long)w, (long long)h, ch, (unsigned long long)g, (unsigned long long)bar);
      }
    st.okc[0]++;
  }
  b.unmap();
  return ok;
}
bool shrink(Rng &r, int k) {
  // reads everything; a part at a multiple of 16 gives the same output pixels
  i64 w, h;
  shape(r, k ? 1 : 4, ldexp(1, 30), w, h);
  Big b;
  if (!make(b, w, h, 4, pattern(r, 0, 4, w))) return true;
  double fx = w > h ? 1.0 / 16 : 0.5, fy = w > h ? 0.5 : 1.0 / 16;
  u32 ow = 0, oh = 0;
  Out o(fcv_resize((u32)w, (u32)h, fx, fy, &ow, &oh, b.p));
  bool ok = true;
  if (o.p) {
    i64 sx = w > h ? 16 : 2, sy = w > h ? 2 : 16;
    if (ow != (u32)(w / sx) || oh != (u32)(h / sy)) ok = fail("resized to %ux%u", ow, oh);
    i64 N = w > h ? w : h;
    for (i64 c : spots(r, N, (double)(w > h ? h : w) * 4, 6)) {
      if (!ok) break;
      i64 a = c / 16 * 16 - 64, thick = 16 * 12;
      if (a < 0) a = 0;
      if (a + thick > N) a = (N - thick) / 16 * 16;
      i64 px0 = w > h ? a : 0, py0 = w > h ? 0 : a, pw = w > h ? thick : w, ph = w > h ? h : thick;
      Bytes in = part(b, px0, py0, pw, ph);
      u32 ew = 0, eh = 0;
      Out e(fcv_resize((u32)pw, (u32)ph, fx, fy, &ew, &eh, in.data()));
      if (!e.p) continue;
      for (u32 y = w > h ? 0 : 1; ok && y < (w > h ? eh : eh - 1); y++)
        for (u32 x = w > h ? 1 : 0; ok && x < (w > h ? ew - 1 : ew); x++)
          for (int q = 0; q < 4; q++) {
            int g = o.p[(((size_t)py0 / (size_t)sy + y) * ow + (size_t)px0 / (size_t)sx + x) * 4 + (size_t)q], x2 = e.p[((size_t)y * ew + x) * 4 + (size_t)q];
            if (abs(g - x2) > 1) { ok = fail("resize of a %lldx%lld image: part at (%lld,%lld), output pixel (%u,%u) is %d, but %d alone", (long long)w, (long long)h, (long long)px0, (long long)py0, x, y, g, x2); break; }
          }
      st.extra[7]++;
    }
    st.okc[0]++;
  }
  b.unmap();
  return ok;
}
bool enlarge(Rng &r, int k) {
  i64 w = 4 + (i64)r.below(4), h = 4 + (i64)r.below(4);
  Bytes in((size_t)(w * h) * 4);
  for (auto &v : in) v = (u8)r.next();
  double fx = k ? 20000 : 9000, fy = k ? ldexp(1, 30) / (20000.0 * (double)(w * h)) * 1.01 : ldexp(1, 30) / (9000.0 * (double)(w * h)) * 1.01;
  u32 ow = 0, oh = 0;
  Out o(fcv_resize((u32)w, (u32)h, fx, fy, &ow, &oh, in.data()));
  if (!o.p) return true;
  if (!need(o, (size_t)ow * oh * 4)) return false;
  st.okc[0]++;
  auto check = [&](u32 X, u32 Y) {
    double sx = (X + 0.5) / fx - 0.5, sy = (Y + 0.5) / fy - 0.5;
    sx = sx < 0 ? 0 : sx > (double)w - 1 ? (double)w - 1 : sx;
    sy = sy < 0 ? 0 : sy > (double)h - 1 ? (double)h - 1 : sy;
    i64 x0 = (i64)sx, y0 = (i64)sy, x1 = x0 + 1 < w ? x0 + 1 : x0, y1 = y0 + 1 < h ? y0 + 1 : y0;
    double u = sx - (double)x0, v = sy - (double)y0;
    for (int q = 0; q < 3; q++) {
      auto at = [&](i64 x, i64 y) { return (double)in[(size_t)(y * w + x) * 4 + (size_t)q]; };
      double e = (at(x0, y0) * (1 - u) + at(x1, y0) * u) * (1 - v) + (at(x0, y1) * (1 - u) + at(x1, y1) * u) * v;
      int g = o.p[((size_t)Y * ow + X) * 4 + (size_t)q];
      if (fabs(e - g) > 1.01) return fail("enlarged to %ux%u: pixel (%u,%u) channel %d is %d instead of %.2f", ow, oh, X, Y, q, g, e);
    }
    if (o.p[((size_t)Y * ow + X) * 4 + 3] != 255) return fail("enlarged to %ux%u: pixel (%u,%u) is not opaque", ow, oh, X, Y);
    return true;
  };
  for (i64 y : spots(r, oh, (double)ow * 4, 50))
    for (i64 x : spots(r, ow, 4, 50))
      if (!check((u32)x, (u32)y)) return false;
  for (int i = 0; i < 2000000; i++)
    if (!check(r.below(ow), r.below(oh))) return false;
  return true;
}
bool warp_in(Rng &r) { // large input, small output far away
  for (int k = 0; k < 6; k++) {
    i64 w, h;
    shape(r, k, k < 3 ? ldexp(1, 31) : exp2(32.6), w, h);
    Big b;
    if (!make(b, w, h, 4, pattern(r, 0, 4, w))) return true;
    for (i64 y : spots(r, h, (double)w * 4, 4))
      for (i64 x : spots(r, w, 4, 2)) {
        i64 cw = 1 + (i64)r.below(20), hh = 1 + (i64)r.below(20);
        Matrix3x3 m = {{1, 0, (double)x, 0, 1, (double)y, 0, 0, 1}};
        Out o(fcv_apply_matrix_3x3((i32)w, (i32)h, b.p, (i32)cw, (i32)hh, &m));
        if (!o.p) continue;
        for (i64 j = 0; j < hh; j++)
          for (i64 i = 0; i < cw; i++) {
            static const u8 z[4] = {0, 0, 0, 0};
            bool in = x + i < w && y + j < h;
            const u8 *e = in ? b.p + ((size_t)(y + j) * (size_t)w + (size_t)(x + i)) * 4 : z;
            if (memcmp(e, o.p + (size_t)(j * cw + i) * 4, 4)) { b.unmap(); return fail("translation by (%lld,%lld) of a %lldx%lld image: output pixel (%lld,%lld) is not the input pixel", (long long)x, (long long)y, (long long)w, (long long)h, (long long)i, (long long)j); }
          }
        st.okc[0]++;
        st.extra[7]++;
      }
    b.unmap();
  }
  return true;
}
bool warp_out(Rng &r, int k) { // small input lands in a far corner of a large output
  i64 w = 50, h = 40, ow, oh;
  shape(r, k ? 1 : 2, ldexp(1, 30), ow, oh);
  if (ow < 60) ow = 60, oh = (i64)(ldexp(1, 30) / 60) + 9;
  if (oh < 60) oh = 60, ow = (i64)(ldexp(1, 30) / 60) + 9;
  Bytes in((size_t)(w * h) * 4);
  for (auto &v : in) v = (u8)(1 + r.below(255));
  double tx = (double)(ow - w), ty = (double)(oh - h);
  Matrix3x3 m = {{1, 0, -tx, 0, 1, -ty, 0, 0, 1}};
  Out o(fcv_apply_matrix_3x3((i32)w, (i32)h, in.data(), (i32)ow, (i32)oh, &m));
  if (!o.p) return true;
  if (!need(o, (size_t)ow * (size_t)oh * 4)) return false;
  st.okc[0]++;
  for (i64 j = 0; j < h; j++)
    if (memcmp(&in[(size_t)(j * w) * 4], o.p + ((size_t)(oh - h + j) * (size_t)ow + (size_t)(ow - w)) * 4, (size_t)w * 4)) return fail("row %lld of the image is not in the far corner of the %lldx%lld output", (long long)j, (long long)ow, (long long)oh);
  for (i64 y = 0; y < oh; y++) {
    size_t k2 = (size_t)(y < oh - h ? ow : ow - w) * 4;
    const u8 *row = o.p + (size_t)y * (size_t)ow * 4;
    if (row[0] || memcmp(row, row + 1, k2 - 1)) return fail("row %lld of the %lldx%lld output is not empty outside of the image", (long long)y, (long long)ow, (long long)oh);
  }
  return true;
}
bool peaks(Rng &r, int k) {
  i64 w, h;
  shape(r, k ? 3 : 5, ldexp(1, 31), w, h);
  Big b;
  if (!make(b, w, h, 2, Bytes())) return true;
  std::vector<Point2D> e;
  for (i64 y : spots(r, h, (double)w * 2, 30)) {
    if (y < 1) y = 1;
    if (y > h - 2) y = h - 2;
    i64 x = 1 + (i64)(r.unit() * (double)(w - 2));
    bool close = false;
    for (auto &p : e) close |= fabs(p.y - (double)y) < 20;
    if (close) continue;
    size_t i = ((size_t)y * (size_t)w + (size_t)x) * 2;
    b.p[i] = (u8)(200 + r.below(56)), b.p[i + 1] = (u8)(200 + r.below(56));
    e.push_back(Point2D{(double)x, (double)y});
  }
  for (size_t i = 0; i < e.size(); i++)
    for (size_t j = i + 1; j < e.size(); j++)
      if (e[j].y < e[i].y) { Point2D t = e[i]; e[i] = e[j]; e[j] = t; }
  CornerPeaks *p = fcv_corner_peaks((u32)w, (u32)h, b.p, 5, 0.1, 0.1);
  bool ok = true;
  if (p) {
    if (p->count != e.size()) ok = fail("%u peaks in the %lldx%lld image instead of %zu", p->count, (long long)w, (long long)h, e.size());
    for (size_t i = 0; ok && i < e.size(); i++)
      if (p->points[i].x != e[i].x || p->points[i].y != e[i].y) ok = fail("peak %zu of the %lldx%lld image is (%.0f,%.0f) instead of (%.0f,%.0f)", i, (long long)w, (long long)h, p->points[i].x, p->points[i].y, e[i].x, e[i].y);
    if (p->points) vf_free(p->points);
    vf_free(p);
    st.okc[0]++;
  }
  b.unmap();
  return ok;
}
// a bright rectangle on dark ground: rows are page multiples, of two kinds
bool document(Rng &r, int op) {
  i64 w = 32768, h = 32768 + 100 + (i64)r.below(500);
  size_t row = (size_t)w * 4;
  i64 x0 = (i64)((double)w * (0.15 + 0.1 * r.unit())), x1 = (i64)((double)w * (0.75 + 0.1 * r.unit()));
  i64 y0 = (i64)((double)h * (0.15 + 0.1 * r.unit())), y1 = (i64)((double)h * (0.75 + 0.1 * r.unit()));
  size_t len = row * (size_t)h;
  u8 *p = (u8 *)mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  int fd = (int)syscall(SYS_memfd_create, "doc", 0u);
  size_t blk = row * 64;
  if (p == MAP_FAILED || fd < 0 || ftruncate(fd, (off_t)blk) != 0) { g_nomem = true; return true; }
  u8 *m = (u8 *)mmap(nullptr, blk, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  if (m == MAP_FAILED) { g_nomem = true; return true; }
  for (i64 y = 0; y < 64; y++)
    for (i64 x = 0; x < w; x++) {
      u8 v = x >= x0 && x < x1 ? 230 : 20;
      u8 *q = m + (size_t)y * row + (size_t)x * 4;
      q[0] = q[1] = q[2] = v, q[3] = 255;
    }
  munmap(m, blk);
  int fd2 = (int)syscall(SYS_memfd_create, "dark", 0u);
  if (fd2 < 0 || ftruncate(fd2, (off_t)blk) != 0) { g_nomem = true; return true; }
  m = (u8 *)mmap(nullptr, blk, PROT_READ | PROT_WRITE, MAP_SHARED, fd2, 0);
  for (size_t i = 0; i < blk; i++) m[i] = i % 4 == 3 ? 255 : 20;
  munmap(m, blk);
  y0 = y0 / 64 * 64, y1 = y1 / 64 * 64;
  for (i64 y = 0; y < h; y += 64) {
    size_t k = (size_t)((h - y < 64 ? h - y : 64)) * row;
    bool in = y >= y0 && y < y1;
    if (mmap(p + (size_t)y * row, k, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_FIXED | MAP_NORESERVE, in ? fd : fd2, 0) == MAP_FAILED) { g_nomem = true; return true; }
  }
  close(fd), close(fd2);
  bool ok = true;
  if (op == 0) {
    Corners c = fcv_detect_corners(p, (i32)w, (i32)h);
    double e[8] = {(double)x0, (double)y0, (double)x1, (double)y0, (double)x1, (double)y1, (double)x0, (double)y1}, g[8];
    memcpy(g, &c, sizeof g);
    bool dflt = c.tl_x == 0 && c.tl_y == 0 && c.br_x == (double)w - 1 && c.br_y == (double)h - 1; // could not be processed
    for (int i = 0; i < 8 && !dflt; i++)
      if (!(fabs(e[i] - g[i]) < 0.025 * (double)h)) ok = fail("corner coordinate %d of a document in a %lldx%lld image is %.0f instead of %.0f", i, (long long)w, (long long)h, g[i], e[i]);
    if (dflt) st.inconclusive++;
    st.okc[0] += !dflt;
  } else {
    Out o(fcv_extract_document((u32)w, (u32)h, p, 120, 90));
    if (o.p) {
      for (int y = 15; ok && y < 75; y++)
        for (int x = 15; x < 105; x++)
          if (abs(o.p[(y * 120 + x) * 4] - 230) > 3) { ok = fail("document extracted from a %lldx%lld image has %d at (%d,%d)", (long long)w, (long long)h, o.p[(y * 120 + x) * 4], x, y); break; }
      st.okc[0]++;
    }
  }
  munmap(p, len);
  return ok;
}
bool refuse(Rng &r) { // sizes that cannot be held: no wrapped small result
  (void)r;
  // products of the sides that are a multiple of 2^32 (or 2^64 in bytes)
  static const u32 s[][2] = {{65536, 65536}, {1u << 30, 1u << 31}, {2147483647u, 2147483647u}, {1u << 31, 1u << 31}, {4294967295u, 4294967295u}, {1u << 20, 1u << 30}};
  std::vector<u8> tiny(4096, 9);
  u64 lim = mon.limit;
  mon.limit = 1u << 30;
  bool ok = true;
  for (auto &d : s) {
    u32 w = d[0], h = d[1], ow = 0, oh = 0;
    u8 *q[16] = {nullptr};
    int n = 0;
    // (the input is never read: the allocation of the output is refused)
    q[n++] = fcv_flip_x(w, h, tiny.data());
    q[n++] = fcv_flip_y(w, h, tiny.data());
    q[n++] = fcv_transpose(w, h, tiny.data());
    q[n++] = fcv_transverse(w, h, tiny.data());
    q[n++] = fcv_rotate_90_cw(w, h, tiny.data());
    q[n++] = fcv_rotate_180(w, h, tiny.data());
    q[n++] = fcv_rotate_270_cw(w, h, tiny.data());
    q[n++] = fcv_grayscale(w, h, tiny.data());
    q[n++] = fcv_grayscale_stretch(w, h, tiny.data());
    q[n++] = fcv_single_to_multichannel(w, h, tiny.data());
    q[n++] = fcv_apply_gaussian_blur(w, h, 1, tiny.data());
    q[n++] = fcv_rgba_to_grayscale(w, h, tiny.data());
    q[n++] = fcv_crop(w, h, 4, tiny.data(), 0, 0, w, h);
    Point2D mk = {0, 0};
    q[n++] = fcv_watershed_segmentation(w, h, tiny.data(), &mk, 1, false);
    q[n++] = fcv_resize(1, 1, w, h, &ow, &oh, tiny.data());
    for (int i = 0; i < n; i++)
      if (q[i]) { if (ok) ok = fail("operation %d returned an image of %zu bytes for %ux%u pixels", i, vf_size(q[i]), w, h); vf_free(q[i]); }
    st.okc[0]++;
  }
  mon.limit = lim;
  return ok;
}
} // namespace

// name, memory in GB, quick?
struct BigCase { const char *name; int mem; bool quick; };
static char g_bigname[80];
static const int NLOCAL = sizeof locals / sizeof *locals;
int big_count() { return 7 + NLOCAL + 25; }
bool big_case(Rng &r, int i, int round) {
  if (i < 7) return snprintf(g_bigname, 80, "permutation %d", i), perm(r, i, round * 5 + (i & 1) + (round ? (int)r.below(6) : i));
  i -= 7;
  if (i < NLOCAL) return snprintf(g_bigname, 80, "%s", locals[i].name), local(r, locals[i]);
  i -= NLOCAL;
  switch (i) {
  case 0: return snprintf(g_bigname, 80, "crop"), crop(r);
  case 1: return snprintf(g_bigname, 80, "large crop"), crop_large(r);
  case 2: case 3: case 4: case 5: case 6: return snprintf(g_bigname, 80, "border %d", i - 2), border(r, i - 2);
  case 7: case 8: case 9: case 10: return snprintf(g_bigname, 80, "draw %d", i - 7), draw(r, i - 7);
  case 11: case 12: case 13: case 14: return snprintf(g_bigname, 80, "trim %d", i - 11), trim(r, i - 11);
  case 15: case 16: case 17: return snprintf(g_bigname, 80, "histogram %d", i - 15), hist(r, i - 15);
  case 18: return snprintf(g_bigname, 80, "shrink"), shrink(r, round & 1);
  case 19: return snprintf(g_bigname, 80, "enlarge"), enlarge(r, round & 1);
  case 20: return snprintf(g_bigname, 80, "warp in"), warp_in(r);
  case 21: return snprintf(g_bigname, 80, "warp out"), warp_out(r, round & 1);
  case 22: return snprintf(g_bigname, 80, "peaks"), peaks(r, round & 1);
  case 23: return snprintf(g_bigname, 80, "document"), document(r, round & 1);
  case 24: return snprintf(g_bigname, 80, "refusal"), refuse(r);
  }
  return true;
}
const char *big_name() { return g_bigname; }

bool case_c27(Src &s, u64 idx) {
  mon.limit = 1ull << 44;
  mon.noreserve = true;
  mon.fill = -1;
  mon.reset();
  u64 live = mon.live;
  Rng r(s.bytes(8));
  int n = big_count();
  bool ok = big_case(r, (int)(idx % (u64)n), (int)(idx / (u64)n));
  mon.noreserve = false;
  st.evals++;
  if (g_nomem) { st.inconclusive++; return true; }
  if (ok && mon.live != live) return fail("memory not released by %s", g_bigname);
  return ok;
}
