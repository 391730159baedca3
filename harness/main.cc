// Drivers: one test case per (property, seed, index); random and coverage
// guided (libFuzzer) main programs.
#include "h.h"
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>
#include <time.h>

bool g_thorough = false, g_big = false;
static std::vector<u64> g_hashes;
static char g_desc[6000];
static int g_prop = 0;
bool check_warp(const Bytes &in, i64 W, i64 H, const Bytes &out, i64 OW, i64 OH, const double *mm, int slack);
bool solve_persp(const Point2D *a, const Point2D *b, long double *m);
bool good_quad(const Point2D *p);
bool case_c27(Src &s, u64 idx);
const char *big_name();

static bool is_uniform(const Bytes &b) {
  for (size_t i = 1; i < b.size(); i++)
    if (b[i] != b[0]) return false;
  return true;
}
static void note(const Call &c, const Result &r) {
  st.evals++;
  st.per[c.op]++;
  if (!r.null) st.okc[c.op]++;
  bool nt = !r.null && (c.in.empty() ? true : !is_uniform(c.in));
  if (nt) {
    st.nontrivial++;
    if (g_hashes.size() < 400000) g_hashes.push_back(call_hash(c));
  }
}
static void set_desc(const Call &c) { describe(c, g_desc, sizeof g_desc); }

static u64 pick_area(Src &s) {
  u32 k = s.below(100);
  if (g_big) return k < 45 ? 200000 : k < 80 ? 1200000 : k < 93 ? 5000000 : 30000000;
  if (g_thorough) return k < 60 ? 3000 : k < 90 ? 30000 : 400000;
  return k < 70 ? 2000 : k < 95 ? 12000 : 120000;
}
static int pick_fill(Src &s) {
  static const int f[] = {0, 255, 256, 0xAA, 1};
  return f[s.below(5)];
}

// executes the call with allocation accounting
static bool monitored(const Call &c, Result &r, const ExecOpt &o = ExecOpt()) {
  u64 live = mon.live, files = mon.files;
  mon.reset();
  mon.bad_free = false;
  exec_call(c, r, o);
  if (mon.bad_free) return fail("%s", mon.bad);
  if (mon.live != live) return fail("%lld block(s) of memory not released", (long long)(mon.live - live));
  if (mon.files != files) return fail("%lld file handle(s) not closed", (long long)(mon.files - files));
  return true;
}

static bool generic(const int *ops, int n, Src &s, u64 idx, int any_pct) {
  int op = ops[s.fuzz ? s.below((u32)n) : (u32)(idx % (u64)n)];
  Call c;
  gen_call(op, s, c, s.chance(any_pct), pick_area(s));
  set_desc(c);
  mon.fill = pick_fill(s);
  Result r;
  mon.reset();
  exec_call(c, r);
  note(c, r);
  return oracle(c, r, s);
}

// ---- C01 ------------------------------------------------------------------------
bool op_present(int op) {
  if (op == SETPX) return fcv_set_circle_pixel != nullptr;
  if (op == CIRCPTS) return fcv_draw_circle_points != nullptr;
  if (op == DISKLINES) return fcv_fill_disk_lines != nullptr;
  return true;
}
// corner detection takes long: only some of its turns are used
static bool is_det(int op) { return op == DETECT || op == DETECTP || op == EXTRACT || op == EXTRACTA; }
static int thin(int op, Src &s, int pct) {
  while (is_det(op) && !s.chance(pct)) op = (int)s.below(NOPS);
  return op;
}
static bool case_c01(Src &s, u64 idx) {
  int op = thin((int)(s.fuzz ? s.below(NOPS) : (u32)(idx % NOPS)), s, s.fuzz ? 1 : 5);
  if (!op_present(op)) return true;
  Call c;
  gen_call(op, s, c, !s.chance(25), pick_area(s));
  set_desc(c);
  mon.fill = -1;
  mon.reset();
  Result r;
  ExecOpt o;
  o.ro = s.chance(15);
  exec_call(c, r, o);
  note(c, r);
  if (!r.null && r.out.size() && !op_inplace(op) && (r.ow <= 0 || r.oh <= 0)) return fail("a result of size %lldx%lld", (long long)r.ow, (long long)r.oh);
  return true;
}

// ---- C02 ------------------------------------------------------------------------
static bool has_image(int op) { return op != HEX && op != PERSP && op != SORT && op != EXIF; }
static bool is_signed_dims(int op) {
  return op == TOBIN || op == APPLY || op == DETECT || op == DETECTP || op == TRIM || op == TRIMT || (op >= DILATE && op <= OPEN);
}
static double bad_real(Src &s, bool zero_bad) {
  static const double v[] = {NAN, INFINITY, -INFINITY, -1, -1e-300, -0.5, -1e300, -1000, -4.9e-324};
  if (zero_bad && s.chance(25)) return s.chance(50) ? 0.0 : -0.0;
  return v[s.below(9)];
}
static bool case_c02(Src &s, u64 idx) {
  static const int ops[] = {GRAY, STRETCH, GTHRESH, OTSU, BLUR, BWSMART, RESIZE, TOBIN, PEAKS, CROP, CIRCLE, DISK, BORDER, EXTRACT, EXTRACTA, FLIPX, FLIPY, TRANSPOSE, TRANSVERSE,
                            FOERSTNER, HIST, APPLY, DETECT, DETECTP, RGBA2GRAY, ROT90, ROT180, ROT270, S2M, SOBEL, TRIM, TRIMT, WATERSHED, DILATE, ERODE, CLOSE, OPEN,
                            BLUR, RESIZE, CROP, CROP, BORDER, WATERSHED, WATERSHED, SOBEL, CIRCLE, DISK, RESIZE, EXIF, PERSP};
  int n = sizeof ops / sizeof *ops;
  int op = ops[s.fuzz ? s.below((u32)n) : (u32)(idx % (u64)n)];
  if (is_det(op) && !s.chance(20)) op = ops[s.below(10)];
  Call c;
  gen_call(op, s, c, false, 1500);
  bool valid = false; // an edge of the accepted range
  u32 k = s.below(100);
  if (op == EXIF) {
    c.nulls = s.chance(50) ? N_DATA : N_S0;
  } else if (op == PERSP) {
    if (s.chance(50)) c.nulls = s.chance(50) ? N_PTS : N_C2;
    else { u32 i = s.below(8); (s.chance(50) ? c.pts[i].x : c.pts[i].y) = s.chance(50) ? NAN : s.chance(50) ? INFINITY : -INFINITY; }
  } else if (k < 12) c.nulls |= N_DATA;
  else if (k < 34) {
    static const i64 neg[] = {-1, -2, -100, -2147483647 - 1, -2147483647};
    i64 z = is_signed_dims(op) && s.chance(60) ? neg[s.below(5)] : 0;
    u32 m = s.below(3);
    if (m != 1) c.w = z;
    if (m != 0) c.h = m == 2 && is_signed_dims(op) && s.chance(50) ? neg[s.below(5)] : z;
    if (op == GTHRESH) c.w = 0, valid = false;
  } else {
    switch (op) {
    case BLUR:
      if (s.chance(60)) { static const double v[] = {1000.0000001, 1000.5, 1001, 1e4, 1e9, 1e300, 4294967296.0, 65536}; c.p[0] = s.chance(50) ? bad_real(s, false) : v[s.below(8)]; }
      else { static const double v[] = {0, 1000, 999.99, 1, 0.999, 1e-300, -0.0}; c.p[0] = v[s.below(7)]; valid = true; if (c.p[0] > 100 && c.in.size() > 600) { c.w = 1 + s.below(6), c.h = 1 + s.below(6); c.in.resize((size_t)(c.w * c.h * 4)); } }
      break;
    case RESIZE: {
      u32 j = s.below(2);
      double side = (double)(j ? c.h : c.w);
      u32 m = s.below(6);
      if (m < 2) c.p[j] = bad_real(s, true);
      else if (m == 2) c.p[j] = (1 - 1e-3 - s.unit() * 0.9) / side;
      else if (m == 3) { static const double v[] = {1e10, 1e300, 4.3e9, 5e9}; c.p[j] = v[s.below(4)]; }
      else if (m == 4) c.nulls |= s.chance(50) ? N_OW : N_OH;
      else { c.p[j] = 1 / side; if (s.chance(50)) c.p[1 - j] = 1 / (double)(j ? c.w : c.h); valid = true; }
      break;
    }
    case CROP: {
      u32 m = s.below(9);
      if (m == 0) c.q[2] = 0;
      else if (m == 1) c.q[3] = 0;
      else if (m == 2) c.q[0] = c.w, c.q[2] = s.chance(50) ? 1 : c.w;
      else if (m == 3) c.q[1] = c.h, c.q[3] = 1;
      else if (m == 4) c.q[2] = c.w - c.q[0] + 1 + (s.chance(50) ? 0 : (i64)s.below(1000));
      else if (m == 5) c.q[3] = c.h - c.q[1] + 1 + (s.chance(50) ? 0 : (i64)s.below(1000));
      else if (m == 6) { u32 j = s.below(2); c.q[j] = 4294967295ll - s.below(5); c.q[2 + j] = s.chance(70) ? 4294967296ll - c.q[j] + s.below(4) : 4294967295ll; c.q[2 + j] = (u32)c.q[2 + j]; }
      else if (m == 7) c.ch = 0;
      else { c.q[0] = c.w - 1, c.q[2] = 1; if (s.chance(50)) c.q[1] = c.h - 1, c.q[3] = 1; else c.q[1] = 0, c.q[3] = c.h; valid = true; }
      break;
    }
    case CIRCLE: case DISK: {
      u32 m = s.below(6);
      if (m < 2) c.p[0] = bad_real(s, false);
      else if (m < 4) c.p[1 + s.below(2)] = s.chance(50) ? NAN : s.chance(50) ? INFINITY : -INFINITY;
      else if (m == 4) c.ch = 0;
      else { c.p[0] = s.chance(50) ? 0 : 0.99; c.p[1] = s.chance(50) ? 0 : (double)c.w - 1; c.p[2] = s.chance(50) ? 0 : (double)c.h - 1; valid = true; }
      break;
    }
    case BORDER: {
      u32 m = s.below(6);
      static const u32 bch[] = {0, 2, 5, 6, 7, 8, 16, 255};
      if (m < 2) c.q[0] = 0;
      else if (m == 2) { c.ch = bch[s.below(8)]; c.in.resize((size_t)(c.w * c.h) * (c.ch > 4 ? c.ch : 4)); }
      else if (m == 3) { static const i64 v[] = {4294967295ll, 2147483648ll, 4294967294ll, 2147483647}; c.q[0] = v[s.below(4)]; }
      else if (m == 4) c.nulls |= s.chance(50) ? N_OW : N_OH;
      else { c.q[0] = 1; valid = true; }
      break;
    }
    case SOBEL: {
      static const u32 bch[] = {0, 2, 5, 6, 7, 8, 16, 255};
      if (s.chance(80)) { c.ch = bch[s.below(8)]; c.in.resize((size_t)(c.w * c.h) * (c.ch > 4 ? c.ch : 4)); }
      else valid = true;
      break;
    }
    case WATERSHED: {
      u32 m = s.below(8);
      u32 at = s.below((u32)c.pts.size());
      static const double v[] = {NAN, INFINITY, -INFINITY, -1, -5, -1e9, 1e300, -1e300, 4294967296.0, 2147483648.0, -2147483649.0, 4294967295.0};
      if (m < 3) (s.chance(50) ? c.pts[at].x : c.pts[at].y) = v[s.below(12)];
      else if (m == 3) c.pts[at].x = (double)c.w + (s.chance(50) ? 0 : s.unit());
      else if (m == 4) c.pts[at].y = (double)c.h + (s.chance(50) ? 0 : s.unit());
      else if (m == 5) c.pts.clear();
      else if (m == 6) c.nulls |= N_PTS;
      else { c.pts[at].x = nextafter((double)c.w, 0), c.pts[at].y = s.chance(50) ? 0 : nextafter((double)c.h, 0); valid = true; }
      break;
    }
    case DILATE: case ERODE: case CLOSE: case OPEN:
      if (s.chance(80)) { static const i64 v[] = {-1, -2, -100, -2147483647 - 1}; c.q[0] = v[s.below(4)]; }
      else c.q[0] = 0, valid = true;
      break;
    case HIST:
      if (s.chance(50)) c.ch = 0; else c.nulls |= s.chance(50) ? N_OW : N_OH;
      break;
    case TRIM: case TRIMT:
      if (s.chance(40)) c.ch = 0; else if (s.chance(60)) c.nulls |= s.chance(50) ? N_OW : N_OH; else c.p[0] = 0, valid = true;
      break;
    case APPLY:
      if (s.chance(30)) c.nulls |= N_MAT;
      else { static const i64 v[] = {0, -1, -2147483647 - 1, -100}; c.q[s.below(2)] = v[s.below(4)]; }
      break;
    case EXTRACT: c.q[s.below(2)] = 0; break;
    case EXTRACTA: c.nulls |= s.chance(50) ? N_OW : N_OH; break;
    default: // the smallest image is valid
      c.w = s.chance(50) ? 1 : 1 + s.below(3), c.h = 1;
      c.in.resize((size_t)(c.w * c.h) * c.ch);
      valid = true;
    }
  }
  set_desc(c);
  mon.fill = pick_fill(s);
  Result r;
  if (!monitored(c, r)) return false;
  st.evals++;
  st.per[op]++;
  bool ref = expect_refused(c);
  if (ref) {
    st.nontrivial++;
    g_hashes.push_back(call_hash(c));
    if (op_inplace(op) && r.inplace_changed) return fail("a refused call changed the image");
  } else if (valid) st.extra[2]++;
  // the same call repeated gives the same answer, a valid call afterwards works
  if (!oracle(c, r, s)) return false;
  if (ref) st.okc[op]++;
  return true;
}

// ---- C03 ------------------------------------------------------------------------
static int any_op(Src &s) {
  for (;;) {
    int op = thin((int)s.below(NOPS), s, 5);
    if (op_present(op)) return op;
  }
}
static bool eqres(const Result &a, const Result &b, const char *why) {
  if (a.same(b)) return true;
  size_t i = 0;
  if (a.out.size() == b.out.size())
    while (i < a.out.size() && a.out[i] == b.out[i]) i++;
  return fail("equal calls give different results (%s): null %d/%d size %lldx%lld/%lldx%lld first difference at byte %zu", why, a.null, b.null, (long long)a.ow, (long long)a.oh, (long long)b.ow, (long long)b.oh, i);
}
static bool case_c03(Src &s, u64 idx) {
  int op = thin((int)(s.fuzz ? s.below(NOPS) : (u32)(idx % NOPS)), s, 6);
  if (!op_present(op)) return true;
  u32 mode = s.below(10);
  Call c;
  gen_call(op, s, c, s.chance(40), mode == 9 ? 30 : s.chance(80) ? 1500 : 12000);
  set_desc(c);
  Result a, b;
  mon.fill = 0;
  stack_fill(0);
  if (!monitored(c, a)) return false;
  note(c, a);
  if (a.input_changed) return fail("the input image was modified");
  if (a.args_changed) return fail("an argument of the caller was modified");
  if (!op_inplace(op) || 1) { // other heap and stack contents
    static const int fills[] = {255, 256, 0x55, 127};
    int f = fills[s.below(4)];
    mon.fill = f;
    stack_fill(f & 255);
    if (!monitored(c, b)) return false;
    if (!eqres(a, b, "heap contents")) return false;
  }
  if (mode < 3) { // read-only input pages
    ExecOpt o;
    o.ro = true;
    if (!monitored(c, b, o)) return false;
    if (!eqres(a, b, "read-only input")) return false;
  } else if (mode < 6) { // other calls before, refused and failing ones included
    u32 n = 1 + s.below(8);
    for (u32 i = 0; i < n; i++) {
      Call d;
      int o2 = s.chance(40) ? op : any_op(s);
      gen_call(o2, s, d, s.chance(60), 1000);
      if (s.chance(15)) d.nulls |= N_DATA;
      if (s.chance(30)) d.w = c.w, d.h = c.h, d.in.size() == c.in.size() ? (void)0 : (void)d.in.resize(c.in.size() > d.in.size() ? c.in.size() : d.in.size());
      if (d.op == EXIF || d.op == HEX || d.op == PERSP || d.op == SORT) d.nulls = 0;
      { // sizes must stay within the buffer
        size_t need = (size_t)(d.w > 0 ? d.w : 0) * (size_t)(d.h > 0 ? d.h : 0) * (d.ch ? d.ch : 1);
        if (d.op != EXIF && d.in.size() < need) d.in.resize(need);
        for (auto &p : d.pts) if (d.op == WATERSHED) { if (p.x >= (double)d.w) p.x = 0; if (p.y >= (double)d.h) p.y = 0; }
        if (d.op == CROP && (d.q[0] + d.q[2] > d.w || d.q[1] + d.q[3] > d.h)) {}
        if (d.op >= DILATE && d.op <= OPEN && d.q[0] > 20 && d.w * d.h > 400) d.q[0] = 2;
        if (d.op == WATERSHED && d.w * d.h > 2000) continue;
        if (d.op == FOERSTNER && d.w * d.h > 3000) d.p[0] = 1;
        if (d.op == BLUR && d.w * d.h > 3000) d.p[0] = 2;
      }
      mon.fill = pick_fill(s);
      u64 live = mon.live;
      mon.reset();
      if (s.chance(30)) mon.fail_at = 1 + s.below(6), mon.fail_rest = s.chance(50);
      Result t;
      exec_call(d, t);
      u64 failed = mon.failed;
      mon.fail_at = 0;
      if (mon.live != live) {
        char t2[600];
        describe(d, t2, sizeof t2);
        return fail("%lld block(s) of memory not released by %s%s", (long long)(mon.live - live), t2, failed ? " (allocation failure)" : "");
      }
    }
    if (!monitored(c, b)) return false;
    if (!eqres(a, b, "earlier calls")) return false;
    st.extra[3] += n;
  } else if (mode < 8) { // the same buffer with other contents in between
    size_t n = c.in.size() + 64;
    u8 *buf = (u8 *)malloc(n);
    ExecOpt o;
    o.reuse = buf;
    Call d = c;
    Rng r(s.bytes(4));
    for (auto &v : d.in) v = (u8)(v ^ r.next());
    if (s.chance(50) && d.in.size()) { d = c; d.in[(size_t)(r.next() % d.in.size())] ^= 0x81; }
    Result t;
    mon.reset();
    exec_call(d, t, o);
    exec_call(c, b, o);
    bool ok = eqres(a, b, "buffer used before for another image");
    if (ok) {
      Result t2;
      exec_call(d, t2);
      ok = eqres(t, t2, "buffer used before for another image");
    }
    free(buf);
    if (!ok) return false;
  } else { // many repetitions
    u32 n = mode == 9 && s.chance(g_thorough ? 20 : 4) ? (c.op == DETECT || c.op == EXTRACT || c.op == EXTRACTA || c.op == DETECTP ? 400 : 66000) : 3 + s.below(40);
    if (c.in.size() > 4000) n = n > 20 ? 20 : n;
    if (is_det(c.op)) n = g_thorough && s.chance(10) ? 60 : 3;
    u64 live = mon.live;
    double t0 = (double)clock() / CLOCKS_PER_SEC;
    for (u32 i = 0; i < n; i++) {
      mon.reset();
      exec_call(c, b);
      if (!eqres(a, b, "repetition")) return false;
      if (mon.live != live) return fail("memory not released in repetition %u", i);
      st.extra[4]++;
      if ((i & 15) == 15 && (double)clock() / CLOCKS_PER_SEC - t0 > 4) break;
    }
  }
  return true;
}

// ---- C05 ------------------------------------------------------------------------
static bool case_c05(Src &s, u64 idx) {
  static const int ops[] = {GRAY, STRETCH, OTSU, BLUR, BWSMART, RESIZE, TOBIN, PEAKS, CROP, BORDER, EXTRACT, EXTRACTA, FLIPX, FLIPY, TRANSPOSE, TRANSVERSE, FOERSTNER, HIST, PERSP, APPLY,
                            DETECT, DETECTP, RGBA2GRAY, ROT90, ROT180, ROT270, S2M, SOBEL, SORT, TRIM, TRIMT, WATERSHED, DILATE, ERODE, CLOSE, OPEN, CIRCLE, DISK, GTHRESH, EXIF, DETECT, TRIM, TRIMT};
  int n = sizeof ops / sizeof *ops;
  int op = ops[s.fuzz ? s.below((u32)n) : (u32)(idx % (u64)n)];
  if (is_det(op) && !s.chance(12)) op = ops[22 + s.below((u32)n - 25)];
  Call c;
  gen_call(op, s, c, s.chance(20), 500);
  set_desc(c);
  Result a, dflt;
  mon.fill = 256;
  if (!monitored(c, a)) return false;
  note(c, a);
  u64 N = mon.allocs;
  bool det = op == DETECT || op == DETECTP || op == EXTRACT || op == EXTRACTA;
  if (op == EXTRACT || op == EXTRACTA) { // the result for the image bounds as corners
    double W = (double)c.w - 1, H = (double)c.h - 1;
    u32 ow = (u32)c.q[0], oh = (u32)c.q[1];
    if (op == EXTRACTA) ow = W < 99.5 ? 100 : (u32)(W + 0.5), oh = H < 99.5 ? 100 : (u32)(H + 0.5);
    if (ow && oh) {
      Corners src = {0, 0, W, 0, W, H, 0, H}, dst = {0, 0, ow - 1.0, 0, ow - 1.0, oh - 1.0, 0, oh - 1.0};
      Matrix3x3 *m = fcv_calculate_perspective_transform(&dst, &src);
      Bytes in = c.in;
      u8 *o = fcv_apply_matrix_3x3((i32)c.w, (i32)c.h, in.data(), (i32)ow, (i32)oh, m);
      if (o) dflt.null = false, dflt.ow = ow, dflt.oh = oh, dflt.och = 4, dflt.out.assign(o, o + (size_t)ow * oh * 4);
      vf_free(o);
      vf_free(m);
    }
  }
  bool every = N <= 12 && !det;
  u32 tries = det ? 6 : every ? (u32)N * 2 : 24;
  if (!N) tries = 0;
  for (u32 t = 0; t < tries; t++) {
    u64 k = every ? t / 2 + 1 : 1 + s.below((u32)N);
    bool rest = every ? t & 1 : s.chance(50);
    Result r;
    u64 live = mon.live, files = mon.files;
    mon.reset();
    mon.bad_free = false;
    mon.fail_at = k;
    mon.fail_rest = rest;
    exec_call(c, r);
    mon.fail_at = 0;
    st.extra[5] += mon.failed > 0;
    st.evals++;
    char where[80];
    snprintf(where, sizeof where, "allocation %llu of %llu%s failing", (unsigned long long)k, (unsigned long long)N, rest ? " and all later ones" : "");
    if (mon.bad_free) return fail("%s (%s)", mon.bad, where);
    if (mon.live != live) return fail("%lld block(s) not released (%s)", (long long)(mon.live - live), where);
    if (mon.files != files) return fail("file handle not closed (%s)", where);
    if (r.input_changed) return fail("input image modified (%s)", where);
    if (r.args_changed) return fail("argument modified (%s)", where);
    bool ok = r.null || r.same(a);
    if (!ok && op_inplace(op)) ok = !r.inplace_changed;
    if (!ok && (op == DETECT || op == DETECTP) && r.v.size() == 8) {
      double e[8] = {0, 0, (double)c.w - 1, 0, (double)c.w - 1, (double)c.h - 1, 0, (double)c.h - 1};
      ok = true;
      for (int i = 0; i < 8; i++) ok &= r.v[(size_t)i] == e[i];
    }
    if (!ok && det) ok = r.same(dflt);
    if (!ok && op == SORT) {
      ok = true;
      for (int i = 0; i < 8; i++) ok &= r.v[(size_t)i] == 0;
    }
    if (!ok && op == EXIF) ok = r.v[0] == 1;
    if (!ok) return fail("returned a result that differs from the normal one (%s)", where);
  }
  Result b;
  if (!monitored(c, b)) return false;
  return eqres(a, b, "after allocation failures");
}

// ---- C19 ------------------------------------------------------------------------
static bool case_c19(Src &s, u64 idx) {
  u32 kind = s.fuzz ? s.below(8) : (u32)(idx % 8);
  if (kind >= 5) {
    static const int ops[] = {SORT, DETECT, EXTRACT, EXTRACTA, DETECTP, SORT, SORT};
    return generic(ops, 7, s, idx / 8, 10);
  }
  Call c;
  c.op = DETECT;
  c.ch = 4;
  c.w = 120 + s.below(s.chance(30) ? 1000 : 400), c.h = 120 + s.below(s.chance(30) ? 1000 : 400);
  if (g_big) c.w = 1000 + s.below(s.chance(30) ? 5000 : 2000), c.h = 1000 + s.below(s.chance(30) ? 5000 : 2000);
  if (c.w > 3 * c.h) c.w = 3 * c.h;
  if (c.h > 3 * c.w) c.h = 3 * c.w;
  double W = (double)c.w, H = (double)c.h;
  Point2D q[4];
  // a rectangle of 45 to 75 percent of the image around the centre, a little rotated and distorted
  double hw = W * (0.24 + 0.12 * s.unit()), hh = H * (0.24 + 0.12 * s.unit());
  double a = (s.unit() - 0.5) * 0.5;
  double cx = W / 2 + (s.unit() - 0.5) * W * 0.1, cy = H / 2 + (s.unit() - 0.5) * H * 0.1;
  static const int sx[] = {-1, 1, 1, -1}, sy[] = {-1, -1, 1, 1};
  if (s.chance(30)) a = 0;
  double L = W < H ? W : H;
  for (int i = 0; i < 4; i++) {
    double x = sx[i] * hw + (s.unit() - 0.5) * 0.10 * L, y = sy[i] * hh + (s.unit() - 0.5) * 0.10 * L;
    q[i] = Point2D{cx + x * cos(a) - y * sin(a), cy + x * sin(a) + y * cos(a)};
  }
  for (auto &p : q)
    if (p.x < W * 0.06 || p.y < H * 0.06 || p.x > W * 0.94 || p.y > H * 0.94) { st.inconclusive++; return true; }
  // the first corner has to be the one with the smallest x + y, clearly
  for (int i = 1; i < 4; i++)
    if (q[i].x * 256 / W + q[i].y * 256 / H < q[0].x * 256 / W + q[0].y * 256 / H + 12) return true;
  u8 bg[3], fg[3];
  for (int k = 0; k < 3; k++) bg[k] = (u8)s.below(50), fg[k] = (u8)(205 + s.below(51));
  u32 pat = s.below(3);
  c.in.resize((size_t)(c.w * c.h * 4));
  auto inside = [&](double x, double y) {
    for (int i = 0; i < 4; i++) {
      const Point2D &p = q[i], &r = q[(i + 1) & 3];
      if ((r.x - p.x) * (y - p.y) - (r.y - p.y) * (x - p.x) < 0) return false;
    }
    return true;
  };
  Rng nr(s.bytes(4));
  u32 amp = s.chance(50) ? 0 : 1 + s.below(6);
  for (i64 y = 0; y < c.h; y++)
    for (i64 x = 0; x < c.w; x++) {
      bool in = inside((double)x + 0.5, (double)y + 0.5);
      u8 *o = &c.in[(size_t)(y * c.w + x) * 4];
      for (int k = 0; k < 3; k++) {
        int v = in ? fg[k] : bg[k];
        if (amp) v += (int)nr.below(amp + 1) - (int)amp / 2;
        o[k] = (u8)(v < 0 ? 0 : v > 255 ? 255 : v);
      }
      o[3] = pat == 0 ? (u8)nr.next() : 255;
    }
  snprintf(g_desc, sizeof g_desc, "document %lldx%lld corners (%.1f,%.1f) (%.1f,%.1f) (%.1f,%.1f) (%.1f,%.1f) noise %u", (long long)c.w, (long long)c.h, q[0].x, q[0].y, q[1].x, q[1].y, q[2].x, q[2].y, q[3].x, q[3].y, amp);
  Result r;
  mon.fill = pick_fill(s);
  mon.reset();
  exec_call(c, r);
  note(c, r);
  if (r.v.size() != 8) return fail("no corners");
  double worst = 0, ref = W > H ? W : H;
  for (int i = 0; i < 4; i++) {
    double d = hypot(r.v[(size_t)(2 * i)] - q[i].x, r.v[(size_t)(2 * i + 1)] - q[i].y) / ref;
    if (d > worst) worst = d;
  }
  u64 w = (u64)(worst * 10000);
  if (w > st.extra[6]) st.extra[6] = w;
  if (worst > 0.03) return fail("corners found (%.1f,%.1f) (%.1f,%.1f) (%.1f,%.1f) (%.1f,%.1f), off by up to %.2f%%", r.v[0], r.v[1], r.v[2], r.v[3], r.v[4], r.v[5], r.v[6], r.v[7], worst * 100);
  // extraction: the interior of the result is the document's colour
  if (s.chance(40)) {
    Call e = c;
    e.op = s.chance(50) ? EXTRACT : EXTRACTA;
    e.q[0] = 20 + s.below(300), e.q[1] = 20 + s.below(300);
    Result x;
    mon.reset();
    exec_call(e, x);
    note(e, x);
    if (x.null) return fail("document was not extracted");
    for (i64 y = 0; y < x.oh; y++)
      for (i64 z = 0; z < x.ow; z++) {
        double u = (double)z / (double)x.ow, v = (double)y / (double)x.oh;
        if (u < 0.12 || v < 0.12 || u > 0.88 || v > 0.88) continue;
        const u8 *o = &x.out[(size_t)(y * x.ow + z) * 4];
        for (int k = 0; k < 3; k++)
          if (abs(o[k] - fg[k]) > 8) return fail("extracted document has %d instead of %d at (%lld,%lld) channel %d", o[k], fg[k], (long long)z, (long long)y, k);
      }
    if (e.op == EXTRACTA) {
      auto d = [&](int i, int j) { return hypot(q[i].x - q[j].x, q[i].y - q[j].y); };
      double ew = fmax(d(0, 1), d(3, 2)), eh = fmax(d(0, 3), d(1, 2));
      if (ew < 100) ew = 100;
      if (eh < 100) eh = 100;
      double tol = 0.065 * ref + 2;
      if (fabs((double)x.ow - ew) > tol || fabs((double)x.oh - eh) > tol) return fail("extracted size %lldx%lld instead of about %.0fx%.0f", (long long)x.ow, (long long)x.oh, ew, eh);
    }
    if (!oracle(e, x, s)) return false;
  }
  return true;
}

// ---- C20 ------------------------------------------------------------------------
static bool case_c20(Src &s, u64 idx) {
  static const int ops[] = {APPLY, PERSP, APPLY, EXTRACT, APPLY, PERSP, APPLY, EXTRACTA};
  if (!s.fuzz && idx % 40 == 39) { // coincident source corners
    Call c;
    gen_call(PERSP, s, c, false, 100);
    for (int i = 1; i < 4; i++) c.pts[(size_t)i] = c.pts[0];
    set_desc(c);
    Result r;
    exec_call(c, r);
    note(c, r);
    return oracle(c, r, s);
  }
  if ((idx & 3) == 3 && !s.chance(s.fuzz ? 2 : 5)) idx--;
  return generic(ops, s.fuzz ? (s.chance(3) ? 8 : 3) : 8, s, idx, 20);
}

// ---- C25 ------------------------------------------------------------------------
static bool case_c25(Src &s, u64 idx) {
  if (!exec_call2) return fail("no second build of the library");
  int op = thin((int)(s.fuzz ? s.below(NOPS) : (u32)(idx % NOPS)), s, s.fuzz ? 1 : 10);
  if (!op_present(op)) return true;
  Call c;
  gen_call(op, s, c, s.chance(25), pick_area(s));
  set_desc(c);
  mon.fill = pick_fill(s);
  if (mon.fill < 0 || mon.fill > 255) mon.fill = 7;
  Result a, b;
  mon.reset();
  u64 live = mon.live, files = mon.files;
  exec_call(c, a);
  u64 la = mon.live - live, fa = mon.files - files;
  live = mon.live, files = mon.files;
  mon.reset();
  exec_call2(c, b, ExecOpt());
  note(c, a);
  st.evals++;
  if (mon.live - live != la || mon.files - files != fa) return fail("the amalgamation keeps %lld blocks and %lld files, the separate sources %lld and %lld", (long long)(mon.live - live), (long long)(mon.files - files), (long long)la, (long long)fa);
  if (a.null != b.null) return fail("the amalgamation %s the call, the separate sources do not", b.null ? "refuses" : "accepts");
  if (a.ow != b.ow || a.oh != b.oh || a.och != b.och) return fail("size %lldx%lld from the amalgamation, %lldx%lld from the separate sources", (long long)b.ow, (long long)b.oh, (long long)a.ow, (long long)a.oh);
  if (a.out.size() != b.out.size()) return fail("different amounts of data");
  for (size_t i = 0; i < a.out.size(); i++)
    if (a.out[i] != b.out[i]) return fail("byte %zu is %d from the amalgamation, %d from the separate sources", i, b.out[i], a.out[i]);
  if (a.v.size() != b.v.size()) return fail("%zu values from the amalgamation, %zu from the separate sources", b.v.size(), a.v.size());
  for (size_t i = 0; i < a.v.size(); i++)
    if (memcmp(&a.v[i], &b.v[i], 8) && !(std::isnan(a.v[i]) && std::isnan(b.v[i]))) return fail("value %zu is %.17g from the amalgamation, %.17g from the separate sources", i, b.v[i], a.v[i]);
  if (a.input_changed != b.input_changed || a.args_changed != b.args_changed || a.inplace_changed != b.inplace_changed) return fail("one build changes its arguments");
  return true;
}

#ifdef WHICH_hs
#include "hs/bridge.inc"
#endif

#define GEN(any, ...) { static const int ops[] = {__VA_ARGS__}; return generic(ops, sizeof ops / sizeof *ops, s, idx, any); }
bool run_case(int prop, Src &s, u64 idx) {
  g_msg[0] = 0;
  g_desc[0] = 0;
  mon.limit = 400ull << 20;
  st.cases++;
  switch (prop) {
  case 1: return case_c01(s, idx);
  case 2: return case_c02(s, idx);
  case 3: return case_c03(s, idx);
  case 5: return case_c05(s, idx);
  case 6: GEN(0, FLIPX, FLIPY, TRANSPOSE, TRANSVERSE, ROT90, ROT180, ROT270)
  case 7: GEN(30, CROP, BORDER)
  case 8: GEN(25, TRIM, TRIMT, TRIMT)
  case 9: GEN(20, GRAY, STRETCH, GTHRESH, RGBA2GRAY, S2M, TOBIN, HEX, STRETCH)
  case 10: GEN(0, OTSU, BWSMART)
  case 11: GEN(20, BLUR)
  case 12: GEN(20, RESIZE)
  case 13: GEN(0, SOBEL)
  case 14: GEN(20, DILATE, ERODE, CLOSE, OPEN)
  case 15: GEN(25, CIRCLE, DISK)
  case 16: GEN(0, HIST)
  case 17: GEN(0, WATERSHED)
  case 18: GEN(20, FOERSTNER, PEAKS)
  case 19: return case_c19(s, idx);
  case 20: return case_c20(s, idx);
  case 21: GEN(0, EXIF)
  case 25: return case_c25(s, idx);
#ifdef WHICH_hs
  case 26: return case_c26(s, idx);
#endif
#ifdef WHICH_main
  case 27: {
    bool ok = case_c27(s, idx);
    snprintf(g_desc, sizeof g_desc, "%s", big_name());
    return ok;
  }
#endif
  }
  return fail("no driver for this property");
}

// ---- literals mined from the sources under test ---------------------------------------
static void load_literals(const char *f) {
  FILE *p = fopen(f, "r");
  if (!p) return;
  char kind[8];
  double v;
  while (fscanf(p, "%7s %lf", kind, &v) == 2) {
    if (kind[0] == 'i') { if (fabs(v) < 4e9) (kind[1] == 'n' ? lit_new : lit_all).push_back((i64)v); }
    else (kind[1] == 'n' ? flit_new : flit_all).push_back(v);
  }
  fclose(p);
}
void init_harness() {
  const char *e = getenv("VF_LITS");
  if (e) load_literals(e);
  if ((e = getenv("VF_SCRATCH"))) snprintf(g_scratch, sizeof g_scratch, "%s", e);
  g_thorough = getenv("VF_THOROUGH") != nullptr;
  g_big = getenv("VF_LARGE") != nullptr;
  if ((e = getenv("VF_PROP"))) g_prop = atoi(e);
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
}

#ifdef FUZZER
static u64 g_fuzzcase = 0;
static void fuzz_report() {
  const char *o = getenv("VF_OUT");
  if (!o) return;
  char name[400];
  snprintf(name, sizeof name, "%s.%d", o, (int)getpid());
  FILE *f = fopen(name, "w");
  if (!f) return;
  fprintf(f, "{\"cases\":%llu,\"evals\":%llu,\"nontrivial\":%llu,\"inconclusive\":%llu}\n", (unsigned long long)st.cases, (unsigned long long)st.evals, (unsigned long long)st.nontrivial, (unsigned long long)st.inconclusive);
  fclose(f);
}
extern "C" int LLVMFuzzerInitialize(int *, char ***) {
  init_harness();
  atexit(fuzz_report);
  int fd = open("/dev/null", O_WRONLY);
  (void)fd;
  return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const u8 *d, size_t n) {
  Src s;
  s.fuzz = true;
  s.d = d, s.n = n;
  u64 h = 99;
  for (size_t i = 0; i < n; i++) h = mix64(h ^ d[i]);
  s.r = Rng(h);
  if (!run_case(g_prop, s, g_fuzzcase++)) {
    fprintf(stderr, "\nVF-FAIL: %s\nVF-CASE: %s\n", g_msg, g_desc);
    abort();
  }
  return 0;
}
#elif !defined(NO_MAIN)
// ---- random driver ----------------------------------------------------------------
struct Status { u64 idx, done, running; };
static Status *status = nullptr, status_dummy;
static const char *g_out = nullptr;
static u64 g_seed = 1;

extern "C" {
static bool *cov_a[64], *cov_b[64];
static int cov_n = 0;
void __sanitizer_cov_bool_flag_init(bool *a, bool *b) {
  if (cov_n < 64) cov_a[cov_n] = a, cov_b[cov_n] = b, cov_n++;
}
}

static void jstr(FILE *f, const char *s) {
  fputc('"', f);
  for (; *s; s++) {
    u8 ch = (u8)*s;
    if (ch == '"' || ch == '\\') fprintf(f, "\\%c", ch);
    else if (ch < 32 || ch > 126) fprintf(f, "\\u%04x", ch);
    else fputc(ch, f);
  }
  fputc('"', f);
}
static char g_samples[5][700];
static int g_ns = 0;

static void report(bool viol, u64 idx, double secs) {
  if (!g_out) return;
  FILE *f = fopen(g_out, "w");
  if (!f) return;
  fprintf(f, "{\"violation\":%s,\"idx\":%llu,\"secs\":%.2f,\"msg\":", viol ? "true" : "false", (unsigned long long)idx, secs);
  jstr(f, viol ? g_msg : "");
  fprintf(f, ",\"case\":");
  jstr(f, viol ? g_desc : "");
  fprintf(f, ",\"cases\":%llu,\"evals\":%llu,\"nontrivial\":%llu,\"inconclusive\":%llu,\"per\":{", (unsigned long long)st.cases, (unsigned long long)st.evals, (unsigned long long)st.nontrivial, (unsigned long long)st.inconclusive);
  bool first = true;
  for (int i = 0; i < NOPS; i++)
    if (st.per[i]) fprintf(f, "%s\"%s\":[%llu,%llu]", first ? "" : ",", op_names[i], (unsigned long long)st.per[i], (unsigned long long)st.okc[i]), first = false;
  fprintf(f, "},\"known\":[");
  for (int i = 0; i < 8; i++) fprintf(f, "%s%llu", i ? "," : "", (unsigned long long)st.known[i]);
  fprintf(f, "],\"extra\":[");
  for (int i = 0; i < 16; i++) fprintf(f, "%s%llu", i ? "," : "", (unsigned long long)st.extra[i]);
  fprintf(f, "],\"samples\":[");
  for (int i = 0; i < g_ns; i++) { if (i) fputc(',', f); jstr(f, g_samples[i]); }
  u64 hit = 0, all = 0;
  for (int i = 0; i < cov_n; i++)
    for (bool *p = cov_a[i]; p < cov_b[i]; p++) all++, hit += *p;
  fprintf(f, "],\"edges_hit\":%llu,\"edges\":%llu}\n", (unsigned long long)hit, (unsigned long long)all);
  fclose(f);
  if (!g_hashes.empty()) {
    char n[500];
    snprintf(n, sizeof n, "%s.hash", g_out);
    int fd = open(n, O_WRONLY | O_CREAT | O_TRUNC, 0600);
    const char *p = (const char *)g_hashes.data();
    size_t len = g_hashes.size() * 8;
    while (len) {
      ssize_t k = write(fd, p, len);
      if (k <= 0) break;
      p += k, len -= (size_t)k;
    }
    close(fd);
  }
}
static void on_prof(int) { _exit(78); } // CPU time of one case exhausted
static double now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return (double)t.tv_sec + (double)t.tv_nsec / 1e9;
}
#ifdef WHICH_hs
#define main harness_main
extern "C"
#endif
int main(int argc, char **argv) {
  u64 from = 0, to = 1, step = 1;
  double limit = 1e9;
  int cpu = 60;
  bool dig = false;
  init_harness();
  for (int i = 1; i + 1 < argc; i += 2) {
    const char *k = argv[i], *v = argv[i + 1];
    if (!strcmp(k, "--prop")) g_prop = atoi(v);
    else if (!strcmp(k, "--seed")) g_seed = strtoull(v, 0, 10);
    else if (!strcmp(k, "--from")) from = strtoull(v, 0, 10);
    else if (!strcmp(k, "--to")) to = strtoull(v, 0, 10);
    else if (!strcmp(k, "--step")) step = strtoull(v, 0, 10);
    else if (!strcmp(k, "--out")) g_out = v;
    else if (!strcmp(k, "--time")) limit = atof(v);
    else if (!strcmp(k, "--cpu")) cpu = atoi(v);
    else if (!strcmp(k, "--digest")) dig = v[0] == '1';
    else if (!strcmp(k, "--status")) {
      int fd = open(v, O_RDWR | O_CREAT, 0600);
      if (fd >= 0 && ftruncate(fd, sizeof(Status)) == 0) {
        void *p = mmap(nullptr, sizeof(Status), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (p != MAP_FAILED) status = (Status *)p;
      }
    }
  }
  if (!status) status = &status_dummy;
  if (!getenv("VF_VERBOSE")) {
    int fd = open("/dev/null", O_WRONLY);
    if (fd >= 0) dup2(fd, 2), dup2(fd, 1);
  }
  signal(SIGPROF, on_prof);
  double t0 = now();
  FILE *df = nullptr;
  if (dig) {
    char n[500];
    snprintf(n, sizeof n, "%s.dig", g_out ? g_out : "/tmp/dig");
    df = fopen(n, "wb");
  }
  for (u64 i = from; i < to; i += step) {
    status->idx = i;
    status->running = 1;
    struct itimerval it = {{0, 0}, {cpu, 0}};
    setitimer(ITIMER_PROF, &it, nullptr);
    Src s;
    s.r = Rng(mix64(g_seed * 1000003 + (u64)g_prop) ^ mix64(i + 12345));
    bool ok = true;
    if (dig) {
      int op = (int)(i % NOPS);
      if (op_present(op)) {
        Call c;
        gen_call(op, s, c, s.chance(40), pick_area(s));
        Result r;
        mon.reset();
        mon.fill = 0x33;
        exec_call(c, r);
        note(c, r);
        u64 d = digest(c, r);
        if (df) fwrite(&d, 8, 1, df);
      } else if (df) { u64 d = 0; fwrite(&d, 8, 1, df); }
    } else ok = run_case(g_prop, s, i);
    if (!ok) {
      report(true, i, now() - t0);
      if (getenv("VF_VERBOSE")) fprintf(stderr, "FAIL %s | %s\n", g_msg, g_desc);
      _exit(1);
    }
    status->done++;
    status->running = 0;
    if (g_ns < 5 && (g_ns * 97) <= (int)(status->done) && g_desc[0]) snprintf(g_samples[g_ns++], 700, "%s", g_desc);
    if ((i & 15) == 0 && now() - t0 > limit) break;
  }
  if (df) fclose(df);
  report(false, 0, now() - t0);
  if (getenv("VF_VERBOSE")) fprintf(stderr, "ok %llu evals, %llu inconclusive, extra6 %llu, %.1fs\n", (unsigned long long)st.evals, (unsigned long long)st.inconclusive, (unsigned long long)st.extra[6], now() - t0);
  fflush(nullptr);
  _exit(0);
}
#endif
