// Reference semantics of every operation.  Each oracle compares what the real
// code returned with an independent computation (or with a relation that every
// right answer has to satisfy).
#include "h.h"
#include <algorithm>

#define AT(W, x, y) ((size_t)(y) * (size_t)(W) + (size_t)(x))

static int gray_of(const u8 *p) { return (p[0] * 76 + p[1] * 150 + p[2] * 30) >> 8; }

static void hex_of(const char *s, u8 *o) {
  if (*s == '#') s++;
  o[0] = o[1] = o[2] = 255;
  if (strlen(s) != 6) return;
  int v[6];
  for (int i = 0; i < 6; i++) {
    char ch = s[i];
    if (ch >= '0' && ch <= '9') v[i] = ch - '0';
    else if (ch >= 'a' && ch <= 'f') v[i] = ch - 'a' + 10;
    else if (ch >= 'A' && ch <= 'F') v[i] = ch - 'A' + 10;
    else return;
  }
  for (int i = 0; i < 3; i++) o[i] = (u8)(v[2 * i] * 16 + v[2 * i + 1]);
}

// luminance of a drawing colour; where the exact value is integral both
// neighbours are acceptable (floating point evaluation order)
static void lum_of(const u8 *c, int &lo, int &hi) {
  i64 v = 299 * c[0] + 587 * c[1] + 114 * c[2];
  lo = hi = (int)(v / 1000);
  if (v % 1000 == 0 && lo > 0) lo--;
}

// 1: must be refused, 0: must be accepted, -1: not specified
static int refusal(const Call &c) {
  auto bad_dims = c.w <= 0 || c.h <= 0;
  if (c.op == HEX) return 0;
  if (c.op == PERSP || c.op == SORT || c.op == EXIF) return 0;
  if (c.nulls & N_DATA) return 1;
  if (bad_dims) return 1;
  switch (c.op) {
  case BLUR:
    return !(c.p[0] >= 0) || !(c.p[0] <= 1000);
  case RESIZE: {
    if (c.nulls & (N_OW | N_OH)) return 1;
    for (int k = 0; k < 2; k++)
      if (!isfinite(c.p[k]) || !(c.p[k] > 0)) return 1;
    int un = 0;
    for (int k = 0; k < 2; k++) {
      long double v = (long double)(k ? c.h : c.w) * (long double)c.p[k];
      if (v < 1 - 1e-12L) return 1;
      if (v < 1) un = 1;
      if (v > 4294967296.0L) return 1;
      if (v > 4294967294.0L) un = 1;
    }
    if ((double)c.w * c.p[0] * (double)c.h * c.p[1] > 5e7) un = 1; // too large for memory
    return un ? -1 : 0;
  }
  case TOBIN: return (c.nulls & (N_S0 | N_S1)) ? -1 : 0;
  case PEAKS: return isfinite(c.p[0]) && isfinite(c.p[1]) ? 0 : -1;
  case CROP:
    if (c.ch == 0) return 1;
    return c.q[2] <= 0 || c.q[3] <= 0 || c.q[0] + c.q[2] > c.w || c.q[1] + c.q[3] > c.h;
  case CIRCLE: case DISK:
    if (c.ch == 0) return 1;
    for (int k = 0; k < 3; k++)
      if (!isfinite(c.p[k])) return 1;
    if (c.p[0] < 0) return 1;
    if (c.p[0] > 536870911.0 || fabs(c.p[1]) > 536870911.0 || fabs(c.p[2]) > 536870911.0) return -1;
    if (c.nulls & N_S0) return 1;
    return c.ch == 1 || c.ch == 3 || c.ch == 4 ? 0 : -1;
  case BORDER:
    if (c.nulls & (N_OW | N_OH | N_S0)) return 1;
    if (c.q[0] == 0 || (c.ch != 1 && c.ch != 3 && c.ch != 4)) return 1;
    if (c.w + 2 * c.q[0] > 4294967295ll || c.h + 2 * c.q[0] > 4294967295ll) return 1;
    return (double)(c.w + 2 * c.q[0]) * (double)(c.h + 2 * c.q[0]) * c.ch > 3e8 ? -1 : 0; // too large for memory
  case EXTRACT: return c.q[0] <= 0 || c.q[1] <= 0;
  case EXTRACTA: return (c.nulls & (N_OW | N_OH)) ? 1 : 0;
  case FOERSTNER: return isfinite(c.p[0]) ? 0 : -1;
  case HIST:
    if (c.nulls & (N_OW | N_OH)) return 1;
    if (c.ch == 0) return 1;
    return c.ch == 1 || c.ch == 3 || c.ch == 4 ? 0 : -1;
  case APPLY: return (c.nulls & N_MAT) || c.q[0] <= 0 || c.q[1] <= 0;
  case SOBEL: return c.ch != 1 && c.ch != 3 && c.ch != 4;
  case TRIM: case TRIMT:
    if (c.nulls & (N_OW | N_OH)) return 1;
    if (c.ch == 0) return 1;
    return c.op == TRIMT && !isfinite(c.p[0]) ? -1 : 0;
  case WATERSHED:
    if ((c.nulls & N_PTS) || c.pts.empty()) return 1;
    for (auto &p : c.pts) {
      if (!isfinite(p.x) || !isfinite(p.y)) return 1;
      if (p.x <= -1 || p.y <= -1 || p.x >= (double)c.w || p.y >= (double)c.h) return 1;
    }
    for (auto &p : c.pts)
      if (p.x < 0 || p.y < 0) return -1; // truncated to the first pixel, or refused as outside
    return 0;
  case DILATE: case ERODE: case CLOSE: case OPEN: return c.q[0] < 0;
  }
  return 0;
}
bool expect_refused(const Call &c) { return refusal(c) == 1; }

static bool size_is(const Result &r, i64 w, i64 h, u32 ch) {
  if (r.ow != w || r.oh != h) return fail("result is %lldx%lld, expected %lldx%lld", (long long)r.ow, (long long)r.oh, (long long)w, (long long)h);
  if (r.out.size() != (size_t)w * (size_t)h * ch) return fail("internal: result size");
  return true;
}

// ---- permutations -------------------------------------------------------------
static bool o_perm(const Call &c, const Result &r) {
  i64 W = c.w, H = c.h;
  bool sw = c.op == TRANSPOSE || c.op == TRANSVERSE || c.op == ROT90 || c.op == ROT270;
  i64 ow = sw ? H : W, oh = sw ? W : H;
  if (!size_is(r, ow, oh, 4)) return false;
  for (i64 y = 0; y < H; y++)
    for (i64 x = 0; x < W; x++) {
      i64 X = 0, Y = 0;
      switch (c.op) {
      case FLIPX: X = W - 1 - x, Y = y; break;
      case FLIPY: X = x, Y = H - 1 - y; break;
      case TRANSPOSE: X = y, Y = x; break;
      case TRANSVERSE: X = H - 1 - y, Y = W - 1 - x; break;
      case ROT90: X = H - 1 - y, Y = x; break;
      case ROT180: X = W - 1 - x, Y = H - 1 - y; break;
      case ROT270: X = y, Y = W - 1 - x; break;
      }
      const u8 *a = &c.in[AT(W, x, y) * 4], *b = &r.out[AT(ow, X, Y) * 4];
      if (memcmp(a, b, 4))
        return fail("pixel (%lld,%lld) %02x%02x%02x%02x must be at (%lld,%lld) but there is %02x%02x%02x%02x", (long long)x, (long long)y,
                    a[0], a[1], a[2], a[3], (long long)X, (long long)Y, b[0], b[1], b[2], b[3]);
    }
  return true;
}

// ---- copies ---------------------------------------------------------------------
static bool o_crop(const Call &c, const Result &r) {
  if (!size_is(r, c.q[2], c.q[3], c.ch)) return false;
  for (i64 y = 0; y < c.q[3]; y++)
    for (i64 x = 0; x < c.q[2]; x++)
      for (u32 k = 0; k < c.ch; k++) {
        u8 a = c.in[AT(c.w, x + c.q[0], y + c.q[1]) * c.ch + k], b = r.out[AT(c.q[2], x, y) * c.ch + k];
        if (a != b) return fail("cropped pixel (%lld,%lld) channel %u is %d instead of %d", (long long)x, (long long)y, k, b, a);
      }
  return true;
}
static bool o_border(const Call &c, const Result &r) {
  i64 b = c.q[0], W = c.w + 2 * b, H = c.h + 2 * b;
  if (!size_is(r, W, H, c.ch)) return false;
  u8 col[4];
  hex_of(c.s[0], col);
  col[3] = 255;
  int lo, hi;
  lum_of(col, lo, hi);
  int frame = -1;
  for (i64 y = 0; y < H; y++)
    for (i64 x = 0; x < W; x++) {
      const u8 *o = &r.out[AT(W, x, y) * c.ch];
      if (x >= b && y >= b && x < b + c.w && y < b + c.h) {
        if (memcmp(o, &c.in[AT(c.w, x - b, y - b) * c.ch], c.ch)) return fail("interior pixel at output (%lld,%lld) differs from the original", (long long)x, (long long)y);
      } else if (c.ch == 1) {
        if (o[0] < lo || o[0] > hi || (frame >= 0 && o[0] != frame)) return fail("frame pixel (%lld,%lld) is %d instead of %d", (long long)x, (long long)y, o[0], hi);
        frame = o[0];
      } else if (memcmp(o, col, c.ch))
        return fail("frame pixel (%lld,%lld) is %02x%02x%02x%02x instead of %02x%02x%02x", (long long)x, (long long)y, o[0], o[1], o[2], c.ch == 4 ? o[3] : 0, col[0], col[1], col[2]);
    }
  return true;
}

// ---- trim -----------------------------------------------------------------------
struct Rect { int l, t, r, b; }; // right and bottom exclusive
static bool uniform(const Call &c, const Rect &q, int side, int tol) {
  int x0 = q.l, x1 = q.r, y0 = q.t, y1 = q.b;
  if (side == 0) x1 = q.l + 1;
  else if (side == 1) x0 = q.r - 1;
  else if (side == 2) y1 = q.t + 1;
  else y0 = q.b - 1;
  const u8 *f = &c.in[AT(c.w, x0, y0) * c.ch];
  for (int y = y0; y < y1; y++)
    for (int x = x0; x < x1; x++) {
      const u8 *p = &c.in[AT(c.w, x, y) * c.ch];
      for (u32 k = 0; k < c.ch; k++)
        if (abs((int)p[k] - (int)f[k]) > tol) return false;
    }
  return true;
}
static bool content_is(const Call &c, const Result &r, const Rect &q) {
  if (q.r - q.l != r.ow || q.b - q.t != r.oh) return false;
  for (int y = 0; y < r.oh; y++)
    if (memcmp(&r.out[AT(r.ow, 0, y) * c.ch], &c.in[AT(c.w, q.l, q.t + y) * c.ch], (size_t)r.ow * c.ch)) return false;
  return true;
}
static bool trim_with(const Call &c, const Result &r, int tol, bool &unsure) {
  unsure = false;
  if (r.ow < 1 || r.oh < 1 || r.ow > c.w || r.oh > c.h)
    return fail("trimmed size %lldx%lld is not within the image", (long long)r.ow, (long long)r.oh);
  // breadth-first search over the reachable rectangles
  std::vector<Rect> todo;
  std::vector<u64> seen;
  size_t scap = 4096, sn = 0;
  seen.assign(scap, 0);
  auto visit = [&](const Rect &q) {
    u64 k = mix64(((u64)q.l << 48) ^ ((u64)q.t << 32) ^ ((u64)q.r << 16) ^ (u64)q.b ^ ((u64)q.r << 40)) | 1;
    if (sn * 2 > scap) {
      std::vector<u64> o;
      o.swap(seen);
      scap *= 2;
      seen.assign(scap, 0);
      for (u64 v : o)
        if (v) {
          size_t i = v & (scap - 1);
          while (seen[i]) i = (i + 1) & (scap - 1);
          seen[i] = v;
        }
    }
    size_t i = k & (scap - 1);
    while (seen[i]) {
      if (seen[i] == k) return;
      i = (i + 1) & (scap - 1);
    }
    seen[i] = k;
    sn++;
    todo.push_back(q);
  };
  visit(Rect{0, 0, (int)c.w, (int)c.h});
  u64 work = 0;
  int finals = 0;
  Rect last{0, 0, 0, 0};
  while (!todo.empty()) {
    Rect q = todo.back();
    todo.pop_back();
    int W = q.r - q.l, H = q.b - q.t;
    bool fin = true;
    bool u[4];
    for (int k = 0; k < 4; k++) {
      u[k] = (k < 2 ? W > 1 : H > 1) && uniform(c, q, k, tol);
      if (u[k]) fin = false;
    }
    work += (u64)(2 * (W + H)) + 8;
    if (fin) {
      finals++;
      last = q;
      if (content_is(c, r, q)) return true;
      if (tol == 0 && W > 1 && H > 1) break; // exact trimming is confluent here
    } else if (W < r.ow || H < r.oh) {
      continue; // smaller than the result: cannot lead to it
    } else {
      // with exact comparison the order does not matter unless a side may collapse
      if (u[3]) visit(Rect{q.l, q.t, q.r, q.b - 1});
      if (u[2]) visit(Rect{q.l, q.t + 1, q.r, q.b});
      if (u[1]) visit(Rect{q.l, q.t, q.r - 1, q.b});
      if (u[0]) visit(Rect{q.l + 1, q.t, q.r, q.b});
    }
    if (work > (g_thorough ? 60000000u : 8000000u)) {
      unsure = true;
      return true;
    }
  }
  return fail("result %lldx%lld is not what removing uniform outer lines (tolerance %d) leads to; %d possible result(s), e.g. %dx%d at (%d,%d)",
              (long long)r.ow, (long long)r.oh, tol, finals, last.r - last.l, last.b - last.t, last.l, last.t);
}
static bool o_trim(const Call &c, const Result &r) {
  double pct = 0;
  if (c.op == TRIMT) pct = c.p[0] < 0 ? 0 : c.p[0] > 100 ? 100 : c.p[0];
  double t = pct * 255 / 100;
  int tol = (int)floor(t);
  if (pct == floor(pct)) tol = (int)((i64)pct * 255 / 100);
  bool unsure;
  bool ok = trim_with(c, r, tol, unsure);
  // an integral percentage with an integral tolerance leaves no room for rounding
  bool exact = pct == floor(pct) && (i64)pct * 255 % 100 == 0;
  if (!ok && !exact && tol > 0 && t - tol < 1e-9) ok = trim_with(c, r, tol - 1, unsure);
  if (!ok && tol < 255 && t - tol > 1 - 1e-9) ok = trim_with(c, r, tol + 1, unsure);
  if (ok && unsure) st.inconclusive++;
  return ok;
}

// ---- per pixel conversions ---------------------------------------------------------
static bool o_point(const Call &c, const Result &r) {
  size_t n = (size_t)(c.w * c.h);
  if (!size_is(r, c.w, c.h, c.op == RGBA2GRAY || c.op == GTHRESH || c.op == TOBIN ? 1 : 4)) return false;
  int map[256];
  u8 fg[4];
  if (c.op == TOBIN) hex_of(c.s[0], fg);
  if (c.op == STRETCH) {
    u64 h[256] = {0}, ign = n >> 6, a = 0;
    for (size_t i = 0; i < n; i++) h[gray_of(&c.in[i * 4])]++;
    int lo = 0, hi = 255;
    for (lo = 0; lo < 256; lo++) if ((a += h[lo]) > ign) break;
    a = 0;
    for (hi = 255; hi >= 0; hi--) if ((a += h[hi]) > ign) break;
    for (int v = 0; v < 256; v++)
      map[v] = hi <= lo ? v : v < lo ? 0 : v > hi ? 255 : (v - lo) * 255 / (hi - lo);
  }
  for (size_t i = 0; i < n; i++) {
    int e;
    if (c.op == S2M) e = c.in[i];
    else if (c.op == GTHRESH) e = c.in[i] > (int)c.q[0] ? 255 : 0;
    else if (c.op == TOBIN) e = !memcmp(&c.in[i * 4], fg, 3) ? 255 : 0;
    else {
      e = gray_of(&c.in[i * 4]);
      if (c.op == STRETCH) e = map[e];
    }
    if (r.out.size() == n) {
      if (r.out[i] != e) return fail("pixel %zu of %zu is %d instead of %d", i, n, r.out[i], e);
    } else {
      const u8 *o = &r.out[i * 4];
      if (o[0] != e || o[1] != e || o[2] != e || o[3] != 255)
        return fail("pixel %zu of %zu is %d,%d,%d,%d instead of %d (opaque)", i, n, o[0], o[1], o[2], o[3], e);
    }
  }
  return true;
}

// ---- Otsu -----------------------------------------------------------------------
// vals: the luminance values that are thresholded
static bool check_otsu(const Bytes &vals, const Result &r, bool dbl, bool setmsg = true) {
  size_t n = vals.size();
  u64 h[256] = {0};
  u64 S = 0;
  for (u8 v : vals) h[v]++, S += v;
  int out[256];
  for (int i = 0; i < 256; i++) out[i] = -1;
  for (size_t i = 0; i < n; i++) {
    const u8 *o = &r.out[i * 4];
    if (o[3] != 255 || o[0] != o[1] || o[0] != o[2]) return setmsg ? fail("pixel %zu is not an opaque gray", i) : false;
    if (!dbl && o[0] != 0 && o[0] != 255) return setmsg ? fail("pixel %zu is %d in a black and white image", i, o[0]) : false;
    int &m = out[vals[i]];
    if (m >= 0 && m != o[0]) return setmsg ? fail("equal values %d become %d and %d", vals[i], m, o[0]) : false;
    m = o[0];
  }
  long double var[256], best = 0;
  u64 n0 = 0, s0 = 0;
  for (int t = 0; t < 256; t++) {
    n0 += h[t], s0 += h[t] * (u64)t;
    var[t] = 0;
    if (n0 == 0 || n0 == n) continue;
    long double d = (long double)S * n0 - (long double)s0 * n;
    var[t] = d * d / ((long double)n0 * (long double)(n - n0));
    if (var[t] > best) best = var[t];
  }
  for (int t = 0; t < 256; t++) {
    if (best > 0 && var[t] < best * (1 - 1e-9L)) continue;
    bool ok = true;
    int lo = t - 16 < 0 ? 0 : t - 16, hi = t + 16 > 255 ? 255 : t + 16;
    for (int v = 0; v < 256 && ok; v++) {
      if (out[v] < 0) continue;
      if (!dbl) ok = out[v] == (v > t ? 255 : 0);
      else if (v < lo) ok = out[v] == 0;
      else if (v > hi) ok = out[v] == 255;
      else ok = abs(out[v] - (v - lo) * 255 / (hi - lo)) <= 1;
    }
    if (ok) return true;
  }
  if (setmsg) {
    int bt = 0, sp = -1;
    for (int t = 0; t < 256; t++) if (var[t] == best) { bt = t; break; }
    for (int v = 0; v < 256; v++) if (out[v] == 0) sp = v;
    return fail("no threshold of maximal between-class variance (e.g. %d) explains the result (highest black value %d)", bt, sp);
  }
  return false;
}
static bool o_otsu(const Call &c, const Result &r) {
  if (!size_is(r, c.w, c.h, 4)) return false;
  Bytes g((size_t)(c.w * c.h));
  for (size_t i = 0; i < g.size(); i++) g[i] = (u8)gray_of(&c.in[i * 4]);
  return check_otsu(g, r, c.q[0] != 0);
}
static bool o_bwsmart(const Call &c, const Result &r) {
  if (!size_is(r, c.w, c.h, 4)) return false;
  size_t n = (size_t)(c.w * c.h);
  Call b;
  b.op = BLUR;
  b.w = c.w, b.h = c.h, b.ch = 4;
  b.in.resize(n * 4);
  for (size_t i = 0; i < n; i++) {
    u8 g = (u8)gray_of(&c.in[i * 4]);
    b.in[i * 4] = b.in[i * 4 + 1] = b.in[i * 4 + 2] = g;
    b.in[i * 4 + 3] = 255;
  }
  double rad = 0.1 * sqrt((double)c.w * (double)c.h);
  static const double f[3] = {1, 1 - 1e-12, 1 + 1e-12};
  for (int k = 0; k < 3; k++) {
    b.p[0] = rad * f[k];
    Result q;
    exec_call(b, q); // the blur itself is judged by its own oracle
    if (q.null) { st.inconclusive++; return true; }
    Bytes v(n);
    for (size_t i = 0; i < n; i++) {
      int d = 127 + b.in[i * 4] - q.out[i * 4];
      v[i] = (u8)(d < 0 ? 0 : d > 255 ? 255 : d);
    }
    if (check_otsu(v, r, c.q[0] != 0, k == 2)) return true;
  }
  return false;
}

// ---- blur -----------------------------------------------------------------------
static bool blur_with(const Call &c, const Result &r, const std::vector<double> &ker, int n, bool setmsg) {
  int W = (int)c.w, H = (int)c.h;
  double eps = 0.003 + n * 4e-5;
  std::vector<float> lo((size_t)W * H), hi((size_t)W * H);
  for (int k = 0; k < 3; k++) {
    for (int y = 0; y < H; y++)
      for (int x = 0; x < W; x++) {
        double s = 0, ws = 0;
        int a = x - n < 0 ? -x : -n, b = x + n >= W ? W - 1 - x : n;
        const u8 *p = &c.in[AT(W, x + a, y) * 4 + (size_t)k];
        for (int j = a; j <= b; j++, p += 4) s += ker[(size_t)(j + n)] * *p, ws += ker[(size_t)(j + n)];
        s /= ws;
        lo[AT(W, x, y)] = (float)floor(s - eps);
        hi[AT(W, x, y)] = (float)ceil(s + eps);
      }
    for (int y = 0; y < H; y++)
      for (int x = 0; x < W; x++) {
        double s = 0, t = 0, ws = 0;
        int a = y - n < 0 ? -y : -n, b = y + n >= H ? H - 1 - y : n;
        for (int j = a; j <= b; j++) {
          double g = ker[(size_t)(j + n)];
          s += g * lo[AT(W, x, y + j)], t += g * hi[AT(W, x, y + j)], ws += g;
        }
        s /= ws, t /= ws;
        double L = floor(s - eps), U = ceil(t + eps);
        int v = r.out[AT(W, x, y) * 4 + (size_t)k];
        if (v < L || v > U) return setmsg ? fail("pixel (%d,%d) channel %d is %d, outside [%g,%g] of the weighted mean", x, y, k, v, L, U) : false;
      }
  }
  return true;
}
static bool o_blur(const Call &c, const Result &r) {
  if (!size_is(r, c.w, c.h, 4)) return false;
  double R = c.p[0];
  size_t n4 = c.in.size();
  if (R == 0) {
    if (memcmp(c.in.data(), r.out.data(), n4)) return fail("radius 0 does not give a copy");
    return true;
  }
  for (size_t i = 3; i < n4; i += 4)
    if (r.out[i] != 255) return fail("pixel %zu is not opaque", i / 4);
  if (R < 1) {
    for (size_t i = 0; i < n4; i++)
      if (i % 4 != 3 && c.in[i] != r.out[i]) return fail("radius below 1 changes the colour of pixel %zu", i / 4);
    return true;
  }
  int n = (int)R;
  double sg = R / 3;
  std::vector<double> ker((size_t)(2 * n + 1));
  for (int k = -n; k <= n; k++) ker[(size_t)(k + n)] = exp(-(double)k * k / (2 * sg * sg));
  if (blur_with(c, r, ker, n, R == n)) return true;
  if (R == n) return false;
  // KNOWN-FINDING 0: the kernel of a fractional radius is shifted on one side
  for (int k = 1; k <= n; k++) ker[(size_t)(k + n)] = exp(-(double)(k - 1) * (k - 1) / (2 * sg * sg));
  if (!blur_with(c, r, ker, n, true)) return false;
  st.known[0]++;
  return true;
}

// ---- resize ---------------------------------------------------------------------
struct Span { i64 a; std::vector<double> w; }; // source indices and weights
static void spans(i64 n, i64 on, double f, double shift, std::vector<Span> &v) {
  v.resize((size_t)on);
  for (i64 o = 0; o < on; o++) {
    double a = (double)o / f - shift, b = (double)(o + 1) / f - shift;
    i64 i0 = (i64)floor(a - 1e-9), i1 = (i64)ceil(b + 1e-9);
    if (i0 < 0) i0 = 0;
    if (i1 > n) i1 = n;
    Span &s = v[(size_t)o];
    s.a = i0;
    s.w.clear();
    double tot = 0;
    for (i64 i = i0; i < i1; i++) {
      double l = (double)i > a ? (double)i : a, r = (double)(i + 1) < b ? (double)(i + 1) : b;
      double w = r > l ? r - l : 0;
      s.w.push_back(w);
      tot += w;
    }
    if (tot <= 0) { s.w.assign(1, 1.0); s.a = i0 < n ? i0 : n - 1; tot = 1; }
    for (auto &x : s.w) x /= tot;
  }
}
static void spans_bilinear(i64 n, i64 on, double f, std::vector<Span> &v) {
  v.resize((size_t)on);
  for (i64 o = 0; o < on; o++) {
    double p = ((double)o + 0.5) / f - 0.5;
    if (p < 0) p = 0;
    if (p > (double)(n - 1)) p = (double)(n - 1);
    i64 i = (i64)p;
    double d = p - (double)i;
    Span &s = v[(size_t)o];
    s.a = i;
    s.w.clear();
    s.w.push_back(1 - d);
    if (i + 1 < n) s.w.push_back(d);
    else s.w[0] = 1;
  }
}
static bool resize_with(const Call &c, const Result &r, const std::vector<Span> &sx, const std::vector<Span> &sy, bool setmsg) {
  i64 ow = r.ow, oh = r.oh;
  std::vector<double> row((size_t)c.w * 3);
  for (i64 y = 0; y < oh; y++) {
    const Span &v = sy[(size_t)y];
    std::fill(row.begin(), row.end(), 0.0);
    for (size_t j = 0; j < v.w.size(); j++) {
      if (v.w[j] == 0) continue;
      const u8 *p = &c.in[AT(c.w, 0, v.a + (i64)j) * 4];
      for (i64 x = 0; x < c.w; x++)
        for (int k = 0; k < 3; k++) row[(size_t)x * 3 + (size_t)k] += v.w[j] * p[x * 4 + k];
    }
    for (i64 x = 0; x < ow; x++) {
      const Span &h = sx[(size_t)x];
      const u8 *o = &r.out[AT(ow, x, y) * 4];
      for (int k = 0; k < 3; k++) {
        double t = 0;
        for (size_t j = 0; j < h.w.size(); j++) t += h.w[j] * row[(size_t)(h.a + (i64)j) * 3 + (size_t)k];
        // "to within rounding": any rounding of the exact mean
        if (fabs(t - o[k]) > 0.5 + 1e-6)
          return setmsg ? fail("output pixel (%lld,%lld) channel %d is %d instead of %.3f", (long long)x, (long long)y, k, o[k], t) : false;
      }
    }
  }
  return true;
}
static bool o_resize(const Call &c, const Result &r) {
  for (int k = 0; k < 2; k++) {
    i64 side = k ? c.h : c.w, got = k ? r.oh : r.ow;
    long double v = (long double)side * (long double)c.p[k];
    i64 a = (i64)floorl(v * (1 - 1e-15L)), b = (i64)floorl(v * (1 + 2e-14L));
    i64 t = (i64)llroundl(v);
    if (t > 0 && (double)t / (double)side == c.p[k]) a = b = t;
    if (got < a || got > b) return fail("%s is %lld instead of %lld (%lld * %.17g)", k ? "height" : "width", (long long)got, (long long)b, (long long)side, c.p[k]);
  }
  if (!size_is(r, r.ow, r.oh, 4)) return false;
  for (size_t i = 3; i < r.out.size(); i += 4)
    if (r.out[i] != 255) return fail("pixel %zu is not opaque", i / 4);
  if (c.p[0] == 1 && c.p[1] == 1)
    for (size_t i = 0; i < r.out.size(); i++)
      if (i % 4 != 3 && r.out[i] != c.in[i]) return fail("factor 1 changes the colour of pixel %zu", i / 4);
  std::vector<Span> sx, sy;
  if (c.p[0] >= 1 && c.p[1] >= 1) {
    spans_bilinear(c.w, r.ow, c.p[0], sx);
    spans_bilinear(c.h, r.oh, c.p[1], sy);
    return resize_with(c, r, sx, sy, true);
  }
  spans(c.w, r.ow, c.p[0], 0, sx);
  spans(c.h, r.oh, c.p[1], 0, sy);
  if (resize_with(c, r, sx, sy, false)) return true;
  // KNOWN-FINDING 1: on a shrunk axis the source area is half a pixel too far left/up
  spans(c.w, r.ow, c.p[0], c.p[0] < 1 ? 0.5 : 0, sx);
  spans(c.h, r.oh, c.p[1], c.p[1] < 1 ? 0.5 : 0, sy);
  if (!resize_with(c, r, sx, sy, true)) return false;
  st.known[1]++;
  return true;
}

// ---- Sobel ----------------------------------------------------------------------
static bool o_sobel(const Call &c, const Result &r) {
  if (!size_is(r, c.w, c.h, 1)) return false;
  i64 W = c.w, H = c.h;
  size_t n = (size_t)(W * H);
  Bytes g(n);
  for (size_t i = 0; i < n; i++) g[i] = c.ch == 1 ? c.in[i] : (u8)gray_of(&c.in[i * c.ch]);
  std::vector<i32> m(n);
  i32 mn = 0x7fffffff, mx = 0;
  for (i64 y = 0; y < H; y++)
    for (i64 x = 0; x < W; x++) {
      i64 l = x > 0 ? x - 1 : 0, R = x + 1 < W ? x + 1 : W - 1, u = y > 0 ? y - 1 : 0, d = y + 1 < H ? y + 1 : H - 1;
#define G(a, b) (int)g[AT(W, a, b)]
      int gx = G(R, u) - G(l, u) + 2 * (G(R, y) - G(l, y)) + G(R, d) - G(l, d);
      int gy = G(l, d) - G(l, u) + 2 * (G(x, d) - G(x, u)) + G(R, d) - G(R, u);
#undef G
      i32 q = gx * gx + gy * gy;
      m[AT(W, x, y)] = q;
      if (q < mn) mn = q;
      if (q > mx) mx = q;
    }
  double a = sqrt((double)mn), b = sqrt((double)mx);
  for (size_t i = 0; i < n; i++) {
    int v = r.out[i];
    if (mx == mn) {
      if (v) return fail("pixel %zu is %d although all responses are equal", i, v);
      continue;
    }
    if (m[i] == mx) {
      if (v != 255) return fail("strongest response (pixel %zu) is %d instead of 255", i, v);
      continue;
    }
    if (m[i] == mn) {
      if (v) return fail("weakest response (pixel %zu) is %d instead of 0", i, v);
      continue;
    }
    double e = (sqrt((double)m[i]) - a) / (b - a) * 255;
    if (v < floor(e - 1e-9) || v > floor(e + 1e-9)) return fail("pixel (%lld,%lld) is %d instead of %.4f rounded down", (long long)((i64)i % W), (long long)((i64)i / W), v, e);
  }
  return true;
}

// ---- morphology -----------------------------------------------------------------
static void spans_of_disk(i64 r, i64 limit, std::vector<i64> &half) { // half[dy]: largest dx
  if (r > limit) r = limit;
  half.clear();
  for (i64 dy = 0; dy <= r; dy++) {
    i64 q = r * r + r - dy * dy; // dx^2 <= (r+.5)^2 - dy^2
    i64 x = (i64)sqrt((double)q);
    while (x * x > q) x--;
    while ((x + 1) * (x + 1) <= q) x++;
    if (x > r) x = r;
    half.push_back(x);
  }
}
static void morph(const Bytes &in, i64 W, i64 H, i64 r, bool dil, bool edge, Bytes &out) {
  std::vector<i64> half;
  spans_of_disk(r, W + H, half);
  i64 R = (i64)half.size() - 1;
  // prefix sums of white pixels
  std::vector<u32> pre((size_t)((W + 1) * H));
  for (i64 y = 0; y < H; y++)
    for (i64 x = 0; x < W; x++) pre[AT(W + 1, x + 1, y)] = pre[AT(W + 1, x, y)] + (in[AT(W, x, y)] == 255);
  out.assign((size_t)(W * H), 0);
  for (i64 y = 0; y < H; y++)
    for (i64 x = 0; x < W; x++) {
      bool hit = false, all = true;
      for (i64 dy = -R; dy <= R; dy++) {
        i64 yy = y + dy, hw = half[(size_t)(dy < 0 ? -dy : dy)];
        if (yy < 0 || yy >= H) {
          if (!edge) all = false;
          continue;
        }
        i64 a = x - hw, b = x + hw;
        if (a < 0) { if (!edge) all = false; a = 0; }
        if (b >= W) { if (!edge) all = false; b = W - 1; }
        u32 k = pre[AT(W + 1, b + 1, yy)] - pre[AT(W + 1, a, yy)];
        if (k) hit = true;
        if (k != (u32)(b - a + 1)) all = false;
      }
      out[AT(W, x, y)] = (dil ? hit : all) ? 255 : 0;
    }
}
static bool o_morph(const Call &c, const Result &r) {
  if (!size_is(r, c.w, c.h, 1)) return false;
  Bytes a, b;
  bool first_dil = c.op == DILATE || c.op == CLOSE;
  morph(c.in, c.w, c.h, c.q[0], first_dil, false, a);
  if (c.op == CLOSE) morph(a, c.w, c.h, c.q[0], false, true, b), a.swap(b);
  if (c.op == OPEN) morph(a, c.w, c.h, c.q[0], true, false, b), a.swap(b);
  for (size_t i = 0; i < a.size(); i++)
    if (a[i] != r.out[i]) return fail("pixel (%lld,%lld) is %d instead of %d (radius %lld)", (long long)((i64)i % c.w), (long long)((i64)i / c.w), r.out[i], a[i], (long long)c.q[0]);
  return true;
}

// ---- drawing --------------------------------------------------------------------
static void draw_on(int op, i64 W, i64 H, u32 ch, const char *col, double rad, double x, double y, Bytes &b) {
  if (op == CIRCLE) fcv_draw_circle((u32)W, (u32)H, ch, col, rad, x, y, b.data());
  else fcv_draw_disk((u32)W, (u32)H, ch, col, rad, x, y, b.data());
}
// shape drawn on a canvas large enough to hold it; 1 byte per pixel: 1 = set
static void full_shape(int op, int R, Bytes &f, int &side) {
  side = 2 * R + 5;
  f.assign((size_t)side * side, 0);
  draw_on(op, side, side, 1, "FFFFFF", R, R + 2, R + 2, f);
  for (auto &v : f) v = v != 0;
}
static bool check_shape(int op, int R, Bytes &f, int &side) {
  full_shape(op, R, f, side);
  int m = R + 2;
  auto at = [&](int dx, int dy) { return f[AT(side, m + dx, m + dy)] != 0; };
  for (int dy = -m; dy <= m; dy++)
    for (int dx = -m; dx <= m; dx++) {
      if (!at(dx, dy)) continue;
      double d = sqrt((double)dx * dx + (double)dy * dy);
      if (op == CIRCLE ? fabs(d - R) > 1 : d > R + 1) return fail("%s of radius %d sets offset (%d,%d), %.2f from the centre", op_names[op], R, dx, dy, d);
      if (!at(-dx, dy) || !at(dx, -dy) || !at(dy, dx)) return fail("%s of radius %d is not symmetric at offset (%d,%d)", op_names[op], R, dx, dy);
    }
  if (op == CIRCLE) {
    if (R == 0) {
      if (!at(0, 0)) return fail("circle of radius 0 does not set its centre");
      for (size_t i = 0, k = 0; i < f.size(); i++)
        if ((k += f[i]) > 1) return fail("circle of radius 0 sets more than one pixel");
      return true;
    }
    // no gaps: in each column of the flat part there is a pixel above the centre, and the curve is 8-connected
    for (int dx = -R; dx <= R; dx++) {
      bool any = false;
      for (int dy = -m; dy <= 0; dy++) any |= at(dx, dy);
      if (!any) return fail("circle of radius %d has no pixel in column %d", R, dx);
    }
    int seen = 0, tot = 0;
    for (auto v : f) tot += v;
    std::vector<int> stk;
    Bytes vis(f.size(), 0);
    for (size_t i = 0; i < f.size(); i++)
      if (f[i]) { stk.push_back((int)i); vis[i] = 1; break; }
    while (!stk.empty()) {
      int i = stk.back();
      stk.pop_back();
      seen++;
      int x = i % side, y = i / side;
      for (int b = -1; b <= 1; b++)
        for (int a = -1; a <= 1; a++) {
          if (x + a < 0 || y + b < 0 || x + a >= side || y + b >= side) continue;
          size_t j = AT(side, x + a, y + b);
          if (f[j] && !vis[j]) vis[j] = 1, stk.push_back((int)j);
        }
    }
    if (seen != tot) return fail("circle of radius %d has a gap", R);
    // and it encloses the centre: no 4-connected way out
    if (R >= 2) {
      Bytes out(f.size(), 0);
      stk.assign(1, (int)AT(side, m, m));
      out[AT(side, m, m)] = 1;
      while (!stk.empty()) {
        int i = stk.back();
        stk.pop_back();
        int x = i % side, y = i / side;
        if (x == 0 || y == 0 || x == side - 1 || y == side - 1) return fail("circle of radius %d is not closed", R);
        static const int D[4][2] = {{1, 0}, {-1, 0}, {0, 1}, {0, -1}};
        for (auto &d : D) {
          size_t j = AT(side, x + d[0], y + d[1]);
          if (!f[j] && !out[j]) out[j] = 1, stk.push_back((int)j);
        }
      }
    }
  } else {
    Bytes ci;
    int s2;
    if (!check_shape(CIRCLE, R, ci, s2)) return false;
    for (int dy = -m; dy <= m; dy++) {
      int lo = 1 << 30, hi = -(1 << 30);
      for (int dx = -m; dx <= m; dx++)
        if (ci[AT(side, m + dx, m + dy)]) { if (dx < lo) lo = dx; if (dx > hi) hi = dx; }
      for (int dx = -m; dx <= m; dx++)
        if (at(dx, dy) != (dx >= lo && dx <= hi)) return fail("disk of radius %d is not the filled circle at offset (%d,%d)", R, dx, dy);
    }
  }
  return true;
}
static bool o_draw(const Call &c, const Result &r) {
  u8 col[4];
  hex_of(c.s[0], col);
  col[3] = 255;
  i64 W = c.w, H = c.h;
  size_t n = (size_t)(W * H);
  int lo = 0, hi = 0;
  lum_of(col, lo, hi);
  u32 ch = c.ch;
  // which pixels does this call set: draw on a canvas of another colour
  Bytes cv(n * ch);
  for (size_t i = 0; i < n; i++)
    for (u32 k = 0; k < ch; k++) cv[i * ch + k] = ch == 1 ? (u8)(lo ^ 0x80) : (u8)~(k < 4 ? col[k] : 0);
  if (ch == 1 && (hi == (u8)(lo ^ 0x80))) return true;
  Bytes base = cv;
  draw_on(c.op, W, H, ch, c.s[0], c.p[0], c.p[1], c.p[2], cv);
  Bytes S(n, 0);
  for (size_t i = 0; i < n; i++) {
    bool ch_any = memcmp(&cv[i * ch], &base[i * ch], ch) != 0;
    S[i] = ch_any;
    const u8 *o = &r.out[i * ch], *a = &c.in[i * ch];
    for (u32 k = 0; k < ch; k++) {
      bool coloured = S[i] && k < 4;
      bool ok = !coloured ? o[k] == a[k] : ch == 1 ? (o[0] == lo || o[0] == hi) : o[k] == col[k];
      if (!ok)
        return fail("%s pixel (%lld,%lld) channel %u is %d instead of %d", S[i] ? "drawn" : "untouched", (long long)((i64)i % W), (long long)((i64)i / W), k, o[k],
                    !coloured ? a[k] : ch == 1 ? hi : col[k]);
    }
  }
  i64 R = (i64)c.p[0], cx = (i64)c.p[1], cy = (i64)c.p[2];
  if (R <= 90) {
    static Bytes cache[2][91];
    static int side_of[91];
    int w = c.op == DISK;
    Bytes &f = cache[w][R];
    if (f.empty() && !check_shape(c.op, (int)R, f, side_of[R])) { f.clear(); return false; }
    int side = (int)(2 * R + 5), m = (int)R + 2;
    for (i64 y = 0; y < H; y++)
      for (i64 x = 0; x < W; x++) {
        i64 dx = x - cx, dy = y - cy;
        bool e = dx >= -m && dx <= m && dy >= -m && dy <= m && f[AT(side, m + dx, m + dy)];
        if (e != (S[AT(W, x, y)] != 0)) return fail("pixel (%lld,%lld) is %s by the shape of radius %lld at (%lld,%lld)", (long long)x, (long long)y, e ? "missed" : "wrongly set", (long long)R, (long long)cx, (long long)cy);
      }
    return true;
  }
  for (i64 y = 0; y < H; y++)
    for (i64 x = 0; x < W; x++) {
      double d = hypot((double)(x - cx), (double)(y - cy));
      bool set = S[AT(W, x, y)] != 0;
      if (set && (c.op == CIRCLE ? fabs(d - (double)R) > 1 : d > (double)R + 1)) return fail("pixel (%lld,%lld), %.2f from the centre, is set (radius %lld)", (long long)x, (long long)y, d, (long long)R);
      if (!set && c.op == DISK && d <= (double)R - 1) return fail("pixel (%lld,%lld), %.2f from the centre, is not set (disk radius %lld)", (long long)x, (long long)y, d, (long long)R);
    }
  if (c.op == CIRCLE) // no gaps in the flat and the steep parts
    for (int pass = 0; pass < 2; pass++) {
      i64 A = pass ? H : W, B = pass ? W : H, ca = pass ? cy : cx, cb = pass ? cx : cy;
      for (i64 a = 0; a < A; a++) {
        double da = (double)(a - ca);
        if (fabs(da) > (double)R * 0.70) continue;
        double v = sqrt((double)R * (double)R - da * da);
        for (int sg = -1; sg <= 1; sg += 2) {
          i64 b0 = cb + (i64)floor(sg * v) - 1, b1 = b0 + 3;
          if (b0 < 0 || b1 >= B) continue;
          bool any = false;
          for (i64 b = b0; b <= b1; b++) any |= S[pass ? AT(W, b, a) : AT(W, a, b)] != 0;
          if (!any) return fail("circle of radius %lld has a gap at %s %lld", (long long)R, pass ? "row" : "column", (long long)a);
        }
      }
    }
  return true;
}

// ---- histogram ------------------------------------------------------------------
static bool o_hist(const Call &c, const Result &r) {
  if (!size_is(r, 256, 200, 4)) return false;
  if (c.ch != 1 && c.ch != 3 && c.ch != 4) return true;
  size_t n = (size_t)(c.w * c.h);
  u64 h[3][256] = {{0}}, mx = 0;
  bool gray = c.ch != 3;
  for (size_t i = 0; i < n; i++) {
    const u8 *p = &c.in[i * c.ch];
    for (u32 k = 0; k < 3; k++) h[k][c.ch == 1 ? p[0] : p[k]]++;
    if (c.ch == 4 && (p[0] != p[1] || p[0] != p[2])) gray = false;
  }
  (void)gray; // the three equal histograms of a gray image overlay to white
  for (int k = 0; k < 3; k++)
    for (int v = 0; v < 256; v++)
      if (h[k][v] > mx) mx = h[k][v];
  for (int v = 0; v < 256; v++)
    for (int y = 0; y < 200; y++) {
      const u8 *o = &r.out[AT(256, v, 199 - y) * 4];
      for (int k = 0; k < 3; k++) {
        int e = (u64)y < h[k][v] * 200 / mx ? 255 : 0;
        if (o[k] != e) return fail("column %d, %d from the bottom, channel %d is %d instead of %d (count %llu of %llu)", v, y, k, o[k], e, (unsigned long long)h[k][v], (unsigned long long)mx);
      }
      if (o[3] != 255) return fail("column %d, %d from the bottom is not opaque", v, y);
    }
  return true;
}

// ---- watershed ------------------------------------------------------------------
static const u8 wcol[10][3] = {{255, 0, 0}, {0, 255, 0}, {0, 0, 255}, {255, 255, 0}, {255, 0, 255}, {0, 255, 255}, {255, 128, 0}, {128, 0, 255}, {255, 192, 203}, {128, 128, 128}};
static bool o_watershed(const Call &c, const Result &r) {
  if (!size_is(r, c.w, c.h, 4)) return false;
  i64 W = c.w, H = c.h;
  size_t n = (size_t)(W * H);
  std::vector<int> lab(n, -1), tm(n, -1), open, next;
  for (size_t m = 0; m < c.pts.size(); m++) {
    size_t i = AT(W, (i64)c.pts[m].x, (i64)c.pts[m].y);
    lab[i] = (int)m;
    tm[i] = 0;
  }
  bool bound = c.q[0] != 0;
  static const int D[4][2] = {{-1, 0}, {1, 0}, {0, -1}, {0, 1}};
  int t = 0;
  std::vector<int> newlab;
  for (int lev = 0; lev < 256; lev++) {
    // pixels that could join at this level
    open.clear();
    for (size_t i = 0; i < n; i++)
      if (lab[i] < 0 && c.in[i] <= lev) open.push_back((int)i);
    bool changed = true;
    while (changed) {
      changed = false;
      t++;
      next.clear();
      newlab.clear();
      size_t keep = 0;
      for (size_t k = 0; k < open.size(); k++) {
        int i = open[k];
        i64 x = i % W, y = i / W;
        int l = -1;
        bool multi = false;
        for (auto &d : D) {
          i64 X = x + d[0], Y = y + d[1];
          if (X < 0 || Y < 0 || X >= W || Y >= H) continue;
          int q = lab[AT(W, X, Y)];
          if (q < 0) continue;
          if (l < 0) l = q;
          else if (q != l) multi = true;
        }
        if (l >= 0 && !(multi && bound)) next.push_back(i), newlab.push_back(l);
        else open[keep++] = i;
      }
      open.resize(keep);
      for (size_t k = 0; k < next.size(); k++) lab[(size_t)next[k]] = newlab[k], tm[(size_t)next[k]] = t, changed = true;
    }
  }
  auto colour_is = [&](size_t i, int l) {
    static const u8 black[3] = {0, 0, 0};
    return !memcmp(&r.out[i * 4], l < 0 ? black : wcol[l < 9 ? l : 9], 3);
  };
  for (size_t i = 0; i < n; i++) {
    i64 x = (i64)i % W, y = (i64)i / W;
    if (r.out[i * 4 + 3] != 255) return fail("pixel %zu is not opaque", i);
    if (bound || tm[i] <= 0) { // exact: markers, boundaries, unreachable pixels
      if (!colour_is(i, lab[i])) return fail("pixel (%lld,%lld) is %d,%d,%d, not the colour of label %d", (long long)x, (long long)y, r.out[i * 4], r.out[i * 4 + 1], r.out[i * 4 + 2], lab[i]);
      continue;
    }
    bool ok = false;
    for (auto &d : D) {
      i64 X = x + d[0], Y = y + d[1];
      if (X < 0 || Y < 0 || X >= W || Y >= H) continue;
      size_t j = AT(W, X, Y);
      if (tm[j] >= 0 && tm[j] < tm[i] && !memcmp(&r.out[i * 4], &r.out[j * 4], 3)) ok = true;
    }
    if (!ok) return fail("pixel (%lld,%lld) does not have the colour of a neighbour that was flooded before it", (long long)x, (long long)y);
  }
  return true;
}

// ---- corner response and peaks -----------------------------------------------------
static bool o_foerstner(const Call &c, const Result &r) {
  if (!size_is(r, c.w, c.h, 2)) return false;
  i64 W = c.w, H = c.h;
  size_t n = (size_t)(W * H);
  double sg = c.p[0] < 0 ? 0 : c.p[0];
  if (fabs(3 * sg - nearbyint(3 * sg)) < 1e-9 && 3 * sg != nearbyint(3 * sg)) { st.inconclusive++; return true; }
  i64 k = 3 * sg > 1e9 ? 1000000001 : ((i64)(3 * sg) | 1);
  if (k < 3) k = 3;
  i64 hk = k / 2;
  std::vector<int> gx(n, 0), gy(n, 0);
  for (i64 y = 1; y + 1 < H; y++)
    for (i64 x = 1; x + 1 < W; x++) {
#define G(a, b) (int)c.in[AT(W, x + (a), y + (b))]
      gx[AT(W, x, y)] = G(1, -1) - G(-1, -1) + 2 * (G(1, 0) - G(-1, 0)) + G(1, 1) - G(-1, 1);
      gy[AT(W, x, y)] = G(-1, 1) - G(-1, -1) + 2 * (G(0, 1) - G(0, -1)) + G(1, 1) - G(1, -1);
#undef G
    }
  // integral images (exact)
  auto integral = [&](int what) {
    std::vector<i64> s((size_t)((W + 1) * (H + 1)), 0);
    for (i64 y = 0; y < H; y++)
      for (i64 x = 0; x < W; x++) {
        size_t i = AT(W, x, y);
        i64 v = what == 0 ? (i64)gx[i] * gx[i] : what == 1 ? (i64)gx[i] * gy[i] : (i64)gy[i] * gy[i];
        s[AT(W + 1, x + 1, y + 1)] = v + s[AT(W + 1, x, y + 1)] + s[AT(W + 1, x + 1, y)] - s[AT(W + 1, x, y)];
      }
    return s;
  };
  std::vector<i64> sxx = integral(0), sxy = integral(1), syy = integral(2);
  std::vector<long double> w(n, 0), q(n, 0);
  long double mw = 0, mq = 0, mtr = 0;
  for (i64 y = hk; y < H - hk; y++)
    for (i64 x = hk; x < W - hk; x++) {
      auto box = [&](std::vector<i64> &s) {
        return (long double)(s[AT(W + 1, x + hk + 1, y + hk + 1)] - s[AT(W + 1, x - hk, y + hk + 1)] - s[AT(W + 1, x + hk + 1, y - hk)] + s[AT(W + 1, x - hk, y - hk)]);
      };
      long double a = box(sxx), b = box(sxy), d = box(syy);
      long double det = a * d - b * b, tr = a + d;
      size_t i = AT(W, x, y);
      if (tr > mtr) mtr = tr;
      if (tr > 0 && det > 0) w[i] = det / tr, q[i] = 4 * det / (tr * tr);
      if (w[i] > mw) mw = w[i];
      if (q[i] > mq) mq = q[i];
    }
  for (size_t i = 0; i < n; i++) {
    i64 x = (i64)i % W, y = (i64)i / W;
    bool inside = x >= hk && y >= hk && x < W - hk && y < H - hk;
    if (!inside && (r.out[i * 2] || r.out[i * 2 + 1])) return fail("response (%lld,%lld) is not zero where the window does not fit", (long long)x, (long long)y);
    if (!inside) continue;
    // responses that are pure rounding noise cannot be normalised meaningfully
    bool noisew = mw < mtr * 1e-9L, noiseq = mq < 1e-9L;
    if (mtr == 0) {
      if (r.out[i * 2] || r.out[i * 2 + 1]) return fail("response (%lld,%lld) without structure", (long long)x, (long long)y);
      continue;
    }
    if (!noisew) {
      long double e = 255 * w[i] / mw;
      if (fabsl(r.out[i * 2] - floorl(e)) > 1 || (w[i] == mw && r.out[i * 2] < 254) || (e == 0 && r.out[i * 2] > 0))
        return fail("w of (%lld,%lld) is %d instead of %.3f", (long long)x, (long long)y, r.out[i * 2], (double)e);
    }
    if (!noiseq) {
      long double e = 255 * q[i] / mq;
      if (fabsl(r.out[i * 2 + 1] - floorl(e)) > 1 || (e == 0 && r.out[i * 2 + 1] > 0))
        return fail("q of (%lld,%lld) is %d instead of %.3f", (long long)x, (long long)y, r.out[i * 2 + 1], (double)e);
    }
  }
  return true;
}
static bool o_peaks(const Call &c, const Result &r) {
  i64 W = c.w, H = c.h;
  struct P { i64 x, y; int w; bool ret; };
  std::vector<P> cand;
  for (i64 y = 1; y + 1 < H; y++)
    for (i64 x = 1; x + 1 < W; x++) {
      const u8 *p = &c.in[AT(W, x, y) * 2];
      if (!p[0] || !(p[0] / 255.0 > c.p[0]) || !(p[1] / 255.0 > c.p[1])) continue;
      bool mx = true;
      for (int b = -1; b <= 1; b++)
        for (int a = -1; a <= 1; a++)
          if (c.in[AT(W, x + a, y + b) * 2] > p[0]) mx = false;
      if (mx) cand.push_back(P{x, y, p[0], false});
    }
  size_t k = r.v.empty() ? 0 : (size_t)r.v[0];
  size_t j = 0;
  for (size_t i = 0; i < k; i++) {
    double x = r.v[1 + 2 * i], y = r.v[2 + 2 * i];
    while (j < cand.size() && !((double)cand[j].x == x && (double)cand[j].y == y)) j++;
    if (j == cand.size()) return fail("peak %zu (%g,%g) is no candidate or out of row order", i, x, y);
    cand[j].ret = true;
    j++;
  }
  if (cand.size() > 3000) { st.inconclusive++; return true; }
  double md2 = (double)c.q[0] * (double)c.q[0];
  for (size_t a = 0; a < cand.size(); a++) {
    bool excuse = false;
    for (size_t b = 0; b < cand.size(); b++) {
      if (a == b) continue;
      double dx = (double)(cand[a].x - cand[b].x), dy = (double)(cand[a].y - cand[b].y);
      bool closer = dx * dx + dy * dy < md2;
      if (!closer) continue;
      if (cand[a].ret && cand[b].ret) return fail("peaks (%lld,%lld) and (%lld,%lld) are closer than %lld", (long long)cand[a].x, (long long)cand[a].y, (long long)cand[b].x, (long long)cand[b].y, (long long)c.q[0]);
      if (cand[b].w >= cand[a].w) excuse = true;
    }
    if (!cand[a].ret && !excuse) return fail("candidate (%lld,%lld) of strength %d is missing", (long long)cand[a].x, (long long)cand[a].y, cand[a].w);
  }
  return true;
}

// ---- perspective ---------------------------------------------------------------
bool solve_persp(const Point2D *a, const Point2D *b, long double *m) {
  long double A[8][9] = {{0}};
  for (int i = 0; i < 4; i++) {
    long double x = a[i].x, y = a[i].y, X = b[i].x, Y = b[i].y;
    long double r1[9] = {x, y, 1, 0, 0, 0, -x * X, -y * X, X}, r2[9] = {0, 0, 0, x, y, 1, -x * Y, -y * Y, Y};
    memcpy(A[2 * i], r1, sizeof r1);
    memcpy(A[2 * i + 1], r2, sizeof r2);
  }
  for (int k = 0; k < 8; k++) {
    int p = k;
    for (int i = k; i < 8; i++) if (fabsl(A[i][k]) > fabsl(A[p][k])) p = i;
    if (fabsl(A[p][k]) < 1e-9L) return false;
    for (int j = 0; j < 9; j++) { long double t = A[p][j]; A[p][j] = A[k][j]; A[k][j] = t; }
    for (int i = 0; i < 8; i++)
      if (i != k) {
        long double f = A[i][k] / A[k][k];
        for (int j = k; j < 9; j++) A[i][j] -= f * A[k][j];
      }
  }
  for (int i = 0; i < 8; i++) m[i] = A[i][8] / A[i][i];
  m[8] = 1;
  return true;
}
bool good_quad(const Point2D *p) {
  double L = 0;
  for (int i = 0; i < 4; i++) {
    if (!isfinite(p[i].x) || !isfinite(p[i].y) || fabs(p[i].x) > 2e4 || fabs(p[i].y) > 2e4) return false;
    for (int j = 0; j < i; j++) L = fmax(L, hypot(p[i].x - p[j].x, p[i].y - p[j].y));
  }
  if (L < 4) return false;
  int pos = 0, neg = 0;
  for (int i = 0; i < 4; i++) {
    const Point2D &a = p[i], &b = p[(i + 1) & 3], &d = p[(i + 2) & 3];
    double cr = (b.x - a.x) * (d.y - b.y) - (b.y - a.y) * (d.x - b.x);
    if (fabs(cr) < 0.02 * L * L) return false;
    (cr > 0 ? pos : neg)++;
  }
  return pos == 4 || neg == 4;
}
static bool is_identity(const Result &r) {
  static const double id[9] = {1, 0, 0, 0, 1, 0, 0, 0, 1};
  for (int i = 0; i < 9; i++)
    if (r.v[(size_t)i] != id[i]) return false;
  return true;
}
static bool o_persp(const Call &c, const Result &r) {
  if (r.v.size() != 9) return fail("no matrix");
  bool nonfin = (c.nulls & (N_PTS | N_C2)) != 0;
  for (auto &p : c.pts) nonfin |= !isfinite(p.x) || !isfinite(p.y);
  if (nonfin) return is_identity(r) ? true : fail("matrix is not the identity for missing or non-finite corners");
  for (double v : r.v)
    if (!isfinite(v)) return fail("non-finite matrix");
  const Point2D *a = c.pts.data(), *b = a + 4;
  // degenerate: all source corners in one point
  if (a[0].x == a[1].x && a[0].y == a[1].y && a[2].x == a[1].x && a[2].y == a[1].y && a[3].x == a[1].x && a[3].y == a[1].y) {
    bool same = true;
    for (int i = 1; i < 4; i++) same &= b[i].x == b[0].x && b[i].y == b[0].y;
    if (!same && fabs(a[0].x) < 1e5 && fabs(a[0].y) < 1e5) return is_identity(r) ? true : fail("matrix is not the identity for a degenerate source");
    return true;
  }
  if (!good_quad(a) || !good_quad(b)) return true;
  long double m[9];
  if (!solve_persp(a, b, m)) return true;
  double L = 0;
  for (int i = 0; i < 8; i++) {
    if (fabsl(m[i]) > 1e5L) return true;
    L = fmax(L, fmax(fabs(c.pts[(size_t)i].x), fabs(c.pts[(size_t)i].y)));
  }
  for (int i = 0; i < 4; i++) {
    long double wd = m[6] * a[i].x + m[7] * a[i].y + 1;
    if (fabsl(wd) < 1e-3L || fabsl(wd) > 1e3L) return true; // vanishing line close to the corner
  }
  st.extra[0]++;
  double nA = 0, nm = 1;
  for (int i = 0; i < 8; i++) nm = fmax(nm, (double)fabsl(m[i]));
  for (int i = 0; i < 4; i++)
    nA = fmax(nA, (1 + fabs(a[i].x) + fabs(a[i].y)) * (1 + fmax(fabs(b[i].x), fabs(b[i].y))));
  for (int i = 0; i < 4; i++) {
    double w = r.v[6] * a[i].x + r.v[7] * a[i].y + r.v[8];
    double x = (r.v[0] * a[i].x + r.v[1] * a[i].y + r.v[2]) / w, y = (r.v[3] * a[i].x + r.v[4] * a[i].y + r.v[5]) / w;
    // a backward stable solution leaves a residual of some eps * |A| * |m| in each equation
    double tol = 1e-9 + 256 * 2.3e-16 * nA * nm / (double)fabsl(m[6] * a[i].x + m[7] * a[i].y + 1);
    if (!(hypot(x - b[i].x, y - b[i].y) <= fmin(tol, 1e-3 + L * 1e-6))) return fail("corner %d (%g,%g) is mapped to (%.9g,%.9g) instead of (%g,%g)", i, a[i].x, a[i].y, x, y, b[i].x, b[i].y);
  }
  return true;
}
// every output pixel against bilinear interpolation at the transformed position
bool check_warp(const Bytes &in, i64 W, i64 H, const Bytes &out, i64 OW, i64 OH, const double *mm, int slack) {
  double m[9];
  memcpy(m, mm, sizeof m);
  bool flip_amb = false;
  if (m[2] == 0 && m[5] == 0) {
    if (m[0] == -1 && m[4] == -1 && m[1] == 0 && m[3] == 0 && m[6] == 0 && m[7] == 0 && m[8] == 1) {
      m[2] = (double)(W - 1), m[5] = (double)(H - 1);
    } else if (fabs(m[0] + 1) < 1e-6 && fabs(m[4] + 1) < 1e-6) flip_amb = true; // like a plain flip: not specified
  }
  if (flip_amb) { st.inconclusive++; return true; }
  bool integral = m[6] == 0 && m[7] == 0 && m[8] == 1;
  for (int i = 0; i < 6 && integral; i++) integral = fabs(m[i]) < 1e6 && m[i] == floor(m[i]);
  for (i64 y = 0; y < OH; y++)
    for (i64 x = 0; x < OW; x++) {
      const u8 *o = &out[AT(OW, x, y) * 4];
      bool empty = !o[0] && !o[1] && !o[2] && !o[3];
      double w = m[6] * (double)x + m[7] * (double)y + m[8];
      double wa = fabs(m[6] * (double)x) + fabs(m[7] * (double)y) + fabs(m[8]);
      double nx = m[0] * (double)x + m[1] * (double)y + m[2], ny = m[3] * (double)x + m[4] * (double)y + m[5];
      double na = fabs(m[0] * (double)x) + fabs(m[1] * (double)y) + fabs(m[2]), nb = fabs(m[3] * (double)x) + fabs(m[4] * (double)y) + fabs(m[5]);
      double X = nx / w, Y = ny / w;
      if (!isfinite(w) || !isfinite(wa) || !isfinite(na) || !isfinite(nb)) {
        if (isnan(w) || isnan(X) || isnan(Y)) {
          if (!empty && isfinite(wa) == isfinite(w)) return fail("pixel (%lld,%lld) with an undefined position is not empty", (long long)x, (long long)y);
        }
        continue;
      }
      if (fabs(w) < 1e-13 && wa < 1e-13) { // undefined position (also for large entries)
        if (!empty) return fail("pixel (%lld,%lld) with an undefined position is not empty", (long long)x, (long long)y);
        continue;
      }
      if (fabs(w) < 1e-8) continue;
      double e = integral ? 0 : 1e-13 * (na / fabs(w) + fabs(X) * wa / fabs(w)) + 1e-14;
      double f = integral ? 0 : 1e-13 * (nb / fabs(w) + fabs(Y) * wa / fabs(w)) + 1e-14;
      bool in_sure = X >= e && X < (double)W - e && Y >= f && Y < (double)H - f;
      bool out_sure = X < -e || X >= (double)W + e || Y < -f || Y >= (double)H + f;
      if (X != X || Y != Y) { in_sure = false; out_sure = true; }
      if (e > 1e-4 || f > 1e-4) { if (!out_sure) continue; }
      if (out_sure) {
        if (!empty) return fail("pixel (%lld,%lld) from outside the input (%g,%g) is not empty", (long long)x, (long long)y, X, Y);
        continue;
      }
      if (!in_sure && empty) continue;
      if (X < 0) X = 0;
      if (Y < 0) Y = 0;
      i64 x0 = (i64)X, y0 = (i64)Y;
      if (x0 > W - 1) x0 = W - 1;
      if (y0 > H - 1) y0 = H - 1;
      double dx = X - (double)x0, dy = Y - (double)y0;
      if (x0 == W - 1) dx = 0;
      if (y0 == H - 1) dy = 0;
      i64 x1 = x0 + 1 < W ? x0 + 1 : x0, y1 = y0 + 1 < H ? y0 + 1 : y0;
      double tv = integral ? 0 : 512 * (e + f) + 1e-9;
      for (int k = 0; k < 4; k++) {
        double p00 = in[AT(W, x0, y0) * 4 + (size_t)k], p01 = in[AT(W, x1, y0) * 4 + (size_t)k], p10 = in[AT(W, x0, y1) * 4 + (size_t)k], p11 = in[AT(W, x1, y1) * 4 + (size_t)k];
        double v = (p00 * (1 - dx) + p01 * dx) * (1 - dy) + (p10 * (1 - dx) + p11 * dx) * dy;
        if (o[k] < floor(v - tv) - slack || o[k] > floor(v + tv) + slack)
          return fail("pixel (%lld,%lld) channel %d is %d instead of %.4f rounded down (position %.6f,%.6f)", (long long)x, (long long)y, k, o[k], v, X, Y);
      }
    }
  return true;
}
static bool o_apply(const Call &c, const Result &r) {
  if (!size_is(r, c.q[0], c.q[1], 4)) return false;
  return check_warp(c.in, c.w, c.h, r.out, r.ow, r.oh, c.p, 0);
}

// ---- detection, extraction, sorting --------------------------------------------------
static bool o_detect(const Call &c, const Result &r) {
  if (r.v.size() != 8) return fail("no corners");
  for (double v : r.v)
    if (!isfinite(v)) return fail("non-finite corner");
  bool uni = true;
  for (size_t i = 4; i < c.in.size() && uni; i++) uni = c.in[i] == c.in[i - 4];
  if (uni) {
    double e[8] = {0, 0, (double)c.w - 1, 0, (double)c.w - 1, (double)c.h - 1, 0, (double)c.h - 1};
    for (int i = 0; i < 8; i++)
      if (r.v[(size_t)i] != e[i]) return fail("corner value %d of a uniform image is %g instead of %g", i, r.v[(size_t)i], e[i]);
  }
  return true;
}
static bool o_extract(const Call &c, const Result &r) {
  Corners k = fcv_detect_corners(c.in.data(), (i32)c.w, (i32)c.h);
  Point2D q[4];
  memcpy(q, &k, sizeof q);
  i64 ow = c.q[0], oh = c.q[1];
  if (c.op == EXTRACTA) {
    auto d = [&](int a, int b) { return hypot(q[a].x - q[b].x, q[a].y - q[b].y); };
    double W = fmax(d(1, 0), d(2, 3)), H = fmax(d(3, 0), d(2, 1));
    ow = W < 100 ? 100 : (i64)(W + 0.5), oh = H < 100 ? 100 : (i64)(H + 0.5);
    if (llabs(ow - r.ow) <= 1 && fabs(fmod(W, 1) - 0.5) < 1e-6) ow = r.ow;
    if (llabs(oh - r.oh) <= 1 && fabs(fmod(H, 1) - 0.5) < 1e-6) oh = r.oh;
  }
  if (!size_is(r, ow, oh, 4)) return false;
  Point2D a[4] = {{0, 0}, {(double)ow - 1, 0}, {(double)ow - 1, (double)oh - 1}, {0, (double)oh - 1}};
  long double m[9];
  if (!good_quad(a) || !good_quad(q) || !solve_persp(a, q, m)) return true;
  double md[9];
  for (int i = 0; i < 9; i++) {
    if (fabsl(m[i]) > 1e5L) return true;
    md[i] = (double)m[i];
  }
  st.extra[1]++;
  // positions of the library's matrix may differ by rounding: compare with tolerance
  size_t bad = 0;
  for (i64 y = 0; y < oh; y++)
    for (i64 x = 0; x < ow; x++) {
      double w = md[6] * (double)x + md[7] * (double)y + 1;
      double X = (md[0] * (double)x + md[1] * (double)y + md[2]) / w, Y = (md[3] * (double)x + md[4] * (double)y + md[5]) / w;
      const u8 *o = &r.out[AT(ow, x, y) * 4];
      if (X < 1e-4 || Y < 1e-4 || X > (double)c.w - 1 - 1e-4 || Y > (double)c.h - 1 - 1e-4) continue;
      i64 x0 = (i64)X, y0 = (i64)Y;
      double dx = X - (double)x0, dy = Y - (double)y0;
      for (int k2 = 0; k2 < 4; k2++) {
        double p00 = c.in[AT(c.w, x0, y0) * 4 + (size_t)k2], p01 = c.in[AT(c.w, x0 + 1, y0) * 4 + (size_t)k2], p10 = c.in[AT(c.w, x0, y0 + 1) * 4 + (size_t)k2], p11 = c.in[AT(c.w, x0 + 1, y0 + 1) * 4 + (size_t)k2];
        double v = (p00 * (1 - dx) + p01 * dx) * (1 - dy) + (p10 * (1 - dx) + p11 * dx) * dy;
        if (fabs(o[k2] + 0.5 - v) > 1.2) bad++;
        if (bad > 0) return fail("extracted pixel (%lld,%lld) channel %d is %d instead of %.3f (from %.3f,%.3f)", (long long)x, (long long)y, k2, o[k2], v, X, Y);
      }
    }
  return true;
}
static bool o_sort(const Call &c, const Result &r) {
  size_t n = c.pts.size();
  if (n < 3) {
    for (int i = 0; i < 8; i++)
      if (r.v[(size_t)i] != 0) return fail("corners of less than 3 points are not zero");
    return true;
  }
  size_t k = n > 4 ? n : 4;
  std::vector<Point2D> q(k);
  for (size_t i = 0; i < k; i++) q[i] = Point2D{r.v[8 + 2 * i], r.v[9 + 2 * i]};
  for (auto &p : c.pts)
    if (!isfinite(p.x) || !isfinite(p.y) || fabs(p.x) > 1e12 || fabs(p.y) > 1e12) return true;
  for (auto &p : q)
    if (!isfinite(p.x) || !isfinite(p.y)) return fail("non-finite sorted corner");
  // the given points are all there, as often as given
  std::vector<u8> used(k, 0);
  for (auto &p : c.pts) {
    bool f = false;
    for (size_t i = 0; i < k && !f; i++)
      if (!used[i] && q[i].x == p.x && q[i].y == p.y) used[i] = 1, f = true;
    if (!f) return fail("point (%g,%g) is missing in the sorted corners", p.x, p.y);
  }
  if (n == 3) { // three corners of an upright rectangle: the fourth completes it
    double x0 = 1e300, x1 = -1e300, y0 = 1e300, y1 = -1e300;
    for (auto &p : c.pts) x0 = fmin(x0, p.x), x1 = fmax(x1, p.x), y0 = fmin(y0, p.y), y1 = fmax(y1, p.y);
    int have = 0, all = 1;
    for (auto &p : c.pts) {
      int b = (p.x == x0 ? 0 : p.x == x1 ? 1 : 9) + (p.y == y0 ? 0 : p.y == y1 ? 2 : 9);
      if (b > 3) all = 0;
      else have |= 1 << b;
    }
    if (all && x1 - x0 > 2 && y1 - y0 > 2 && __builtin_popcount((u32)have) == 3) {
      int miss = 0;
      while (have >> miss & 1) miss++;
      double ex = miss & 1 ? x1 : x0, ey = miss & 2 ? y1 : y0;
      bool f = false;
      for (size_t i = 0; i < 4; i++) f |= q[i].x == ex && q[i].y == ey;
      if (!f) return fail("missing rectangle corner (%g,%g) was not added", ex, ey);
    }
  }
  double mn = 1e300, cx = 0, cy = 0, sc = 1;
  for (auto &p : q) mn = fmin(mn, p.x + p.y), cx += p.x, cy += p.y, sc = fmax(sc, fabs(p.x) + fabs(p.y));
  cx /= (double)k, cy /= (double)k;
  bool amb = false;
  for (auto &p : q) {
    if (hypot(p.x - cx, p.y - cy) < sc * 1e-7) amb = true;
  }
  if (amb) return true;
  // sort_corners starts with one of the points of smallest x + y; if another point lies in the
  // same direction, it may come first
  double a0 = atan2(q[0].y - cy, q[0].x - cx);
  bool start_ok = q[0].x + q[0].y <= mn + sc * 1e-12;
  for (auto &p : q)
    if (!start_ok && p.x + p.y <= mn + sc * 1e-12) {
      double d = remainder(atan2(p.y - cy, p.x - cx) - a0, 2 * M_PI);
      if (fabs(d) < 1e-5) return true;
    }
  if (!start_ok) return fail("first corner (%g,%g) does not have the smallest x + y (%g)", q[0].x, q[0].y, mn);
  double prev = 0;
  for (size_t i = 1; i < k; i++) {
    double d = atan2(q[i].y - cy, q[i].x - cx) - a0;
    while (d < 0) d += 2 * M_PI;
    if (d > 2 * M_PI - 1e-5 || d < 1e-5) return true; // same direction as the first
    if (d < prev - 1e-5) return fail("corner %zu (%g,%g) is not in clockwise order", i, q[i].x, q[i].y);
    if (d > prev) prev = d;
  }
  if (c.q[0] > 0 && c.q[1] > 0)
    for (int i = 0; i < 4; i++) {
      double ex = q[(size_t)i].x * (double)c.w / (double)c.q[0], ey = q[(size_t)i].y * (double)c.h / (double)c.q[1];
      if (fabs(r.v[(size_t)(2 * i)] - ex) > 1e-9 * (1 + fabs(ex)) || fabs(r.v[(size_t)(2 * i + 1)] - ey) > 1e-9 * (1 + fabs(ey)))
        return fail("returned corner %d (%g,%g) is not the scaled sorted corner (%g,%g)", i, r.v[(size_t)(2 * i)], r.v[(size_t)(2 * i + 1)], ex, ey);
    }
  return true;
}

bool oracle(const Call &c, const Result &r, Src &) {
  if (r.input_changed) return fail("the input image was modified");
  if (r.args_changed) return fail("an argument of the caller was modified");
  int ref = refusal(c);
  bool got_null = op_inplace(c.op) ? !r.inplace_changed : r.null;
  if (ref == 1) {
    if (c.op == DETECT) {
      for (double v : r.v)
        if (v != 0) return fail("corners of a missing or empty image are not zero");
      return true;
    }
    if (!got_null) return fail("malformed arguments were not refused");
    return true;
  }
  if (ref == -1 && got_null) return true;
  if (!op_inplace(c.op) && r.null) {
    if (mon.refused) { st.inconclusive++; return true; }
    return fail("no result for valid arguments");
  }
  switch (c.op) {
  case FLIPX: case FLIPY: case TRANSPOSE: case TRANSVERSE: case ROT90: case ROT180: case ROT270: return o_perm(c, r);
  case GRAY: case STRETCH: case GTHRESH: case RGBA2GRAY: case S2M: return o_point(c, r);
  case TOBIN: return ref == 0 ? o_point(c, r) : true;
  case OTSU: return o_otsu(c, r);
  case BWSMART: return o_bwsmart(c, r);
  case BLUR: return o_blur(c, r);
  case RESIZE: return ref == 0 ? o_resize(c, r) : true;
  case PEAKS: return ref == 0 ? o_peaks(c, r) : true;
  case CROP: return o_crop(c, r);
  case CIRCLE: case DISK: return ref == 0 ? o_draw(c, r) : true;
  case BORDER: return o_border(c, r);
  case EXIF: {
    double v = r.v[0];
    if (!(v >= 1 && v <= 8) || v != floor(v)) return fail("orientation %g is not one of 1 to 8", v);
    if (c.nulls && v != 1) return fail("orientation of a missing file is %g instead of 1", v);
    if (!c.nulls && c.q[0] > 0 && v != (double)c.q[0]) return fail("orientation is %g instead of %lld", v, (long long)c.q[0]);
    return true;
  }
  case EXTRACT: case EXTRACTA: return o_extract(c, r);
  case FOERSTNER: return ref == 0 ? o_foerstner(c, r) : true;
  case HIST: return ref == 0 ? o_hist(c, r) : true;
  case HEX: {
    u8 e[3];
    hex_of(c.s[0], e);
    for (int i = 0; i < 3; i++)
      if (r.v[(size_t)i] != e[i]) return fail("colour component %d of '%s' is %g instead of %d", i, c.s[0], r.v[(size_t)i], e[i]);
    return true;
  }
  case PERSP: return o_persp(c, r);
  case APPLY: return o_apply(c, r);
  case DETECT: case DETECTP: return o_detect(c, r);
  case SOBEL: return o_sobel(c, r);
  case SORT: return o_sort(c, r);
  case TRIM: case TRIMT: return ref == 0 ? o_trim(c, r) : true;
  case WATERSHED: return o_watershed(c, r);
  case DILATE: case ERODE: case CLOSE: case OPEN: return o_morph(c, r);
  }
  return true;
}
