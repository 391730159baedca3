// Operation table: argument generation and execution of every public operation.
#include "h.h"
#include <sys/mman.h>
#include <unistd.h>
#include <fcntl.h>
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define MSAN 1
#endif
#endif

const char *op_names[NOPS] = {
  "grayscale", "grayscale_stretch", "global_threshold", "otsu_threshold", "gaussian_blur", "bw_smart", "resize",
  "convert_to_binary", "corner_peaks", "crop", "draw_circle", "draw_disk", "add_border", "exif_orientation",
  "extract_document", "extract_document_auto", "flip_x", "flip_y", "transpose", "transverse", "foerstner_corner",
  "histogram", "parse_hex_color", "perspective_transform", "apply_matrix", "detect_corners", "detect_corners_ptr",
  "rgba_to_grayscale", "rotate_90", "rotate_180", "rotate_270", "single_to_multichannel", "sobel", "sort_corners",
  "trim", "trim_threshold", "watershed", "dilation", "erosion", "closing", "opening", "set_circle_pixel",
  "draw_circle_points", "fill_disk_lines"};

char g_scratch[256] = "/tmp";

bool op_inplace(int op) {
  return op == GTHRESH || op == CIRCLE || op == DISK || op == SETPX || op == CIRCPTS || op == DISKLINES;
}

static i64 any_i32(Src &s) {
  static const i64 sp[] = {0, 1, 2, 3, 5, 16, 100, 255, 256, 1000, 65536, 2147483647, -2147483647 - 1, -1, -2, 2147483646, 46341, 46340, 1073741824};
  if (s.chance(60)) return sp[s.below(sizeof sp / sizeof *sp)];
  if (s.chance(50)) return (i64)s.below(64);
  return (i32)s.bytes(4);
}
static i64 any_u32(Src &s) {
  static const i64 sp[] = {0, 1, 2, 3, 7, 64, 255, 65535, 65536, 2147483647, 2147483648ll, 4294967295ll, 4294967294ll, 1073741824, 1073741823};
  if (s.chance(60)) return sp[s.below(sizeof sp / sizeof *sp)];
  if (s.chance(50)) return (i64)s.below(128);
  return (i64)s.bytes(4);
}

// the largest area of an operation: cap for most cases, large in the phase with large images
static u64 lim(u64 area, u64 cap, u64 large) {
  u64 m = g_big ? large : cap;
  return area < m ? area : m;
}
static void image(Src &s, Call &c, u64 area, u32 ch) {
  gen_dims(s, area, c.w, c.h);
  c.ch = ch;
  c.content = gen_content(s, c.in, (u32)c.w, (u32)c.h, ch);
}

void gen_call(int op, Src &s, Call &c, bool any, u64 area) {
  c = Call();
  c.op = op;
  static const u32 chs[] = {1, 3, 4, 4};
  switch (op) {
  case GRAY: case STRETCH: case FLIPX: case FLIPY: case TRANSPOSE: case TRANSVERSE: case RGBA2GRAY:
  case ROT90: case ROT180: case ROT270:
    image(s, c, area, 4);
    break;
  case S2M:
    image(s, c, area, 1);
    break;
  case GTHRESH: {
    image(s, c, area, 1);
    c.q[0] = s.chance(30) ? (i64)(u8)(c.in[s.below((u32)c.in.size())] - s.below(2)) : s.below(256);
    break;
  }
  case OTSU:
    image(s, c, area, 4);
    c.q[0] = s.below(2);
    break;
  case BWSMART:
    image(s, c, lim(area, 4000, 400000), 4);
    c.q[0] = s.below(2);
    break;
  case BLUR: {
    image(s, c, lim(area, 8000, 2000000), 4);
    const double work = g_big ? 4e7 : 2e6;
    double maxr = work / (double)(c.w * c.h) / 4;
    if (maxr < 1) maxr = 1;
    if (maxr > 1000) maxr = 1000;
    double r;
    if (any && s.chance(60)) r = gen_double(s);
    else {
      u32 m = s.below(6);
      if (m == 0) r = s.chance(20) ? 0 : s.unit();
      else if (m <= 2) r = (double)(1 + s.below(8)) + (s.chance(40) ? s.unit() : 0);
      else if (m == 3) r = 1 + s.unit() * (maxr - 1);
      else if (m == 4) r = floor(1 + s.unit() * (maxr - 1));
      else { r = fabs(gen_double(s)); if (!(r <= 1000)) r = s.below(12); }
    }
    if (fabs(r) <= 1000 && fabs(r) > maxr) { // shrink the image instead of the radius
      u64 a = (u64)(work / fabs(r) / 4);
      image(s, c, a < 1 ? 1 : a, 4);
    }
    c.p[0] = r;
    break;
  }
  case RESIZE: {
    image(s, c, lim(area, 20000, 4000000), 4);
    for (int k = 0; k < 2; k++) {
      double side = (double)(k ? c.h : c.w), f;
      u32 m = s.below(8);
      if (any && m < 4) f = gen_double(s);
      else if (m < 3) f = (double)(1 + s.below(200)) / side;               // target / size
      else if (m < 4) f = 1;
      else if (m < 5) f = (double)(1 + s.below(400)) / 100.0;               // percentages
      else if (m < 6) f = s.unit() * 3;
      else if (m < 7) f = (double)(1 + s.below(9)) / (double)(1 + s.below(9));
      else { f = fabs(gen_double(s)); if (!(f < 1e4 && f * side >= 1)) f = 2; }
      if (!any && f * side < 1) f = 1 / side;
      c.p[k] = f;
    }
    double ow = c.p[0] * (double)c.w, oh = c.p[1] * (double)c.h;
    // keep the work small: reduce the output or leave absurd sizes to the refusal
    if (ow >= 1 && oh >= 1 && ow * oh > (g_big ? 4e6 : 6e4) && !(ow * oh > 2e9)) {
      const u32 mx = g_big ? 2500 : 300, my = g_big ? 1600 : 200;
      if (ow > mx) c.p[0] = (double)(1 + s.below(mx)) / (double)c.w;
      if (oh > my) c.p[1] = (double)(1 + s.below(my)) / (double)c.h;
    }
    break;
  }
  case TOBIN: {
    image(s, c, area, 4);
    gen_hex(s, c.s[0], true);
    gen_hex(s, c.s[1], true);
    if (s.chance(60)) { // a colour of the image (or next to it)
      size_t i = s.below((u32)(c.w * c.h));
      snprintf(c.s[0], 64, "%s%02X%02x%02X", s.chance(50) ? "#" : "", c.in[i * 4], c.in[i * 4 + 1], c.in[i * 4 + 2]);
    }
    if (s.chance(40)) {
      size_t i = s.below((u32)(c.w * c.h));
      snprintf(c.s[1], 64, "%s%02x%02x%02x", s.chance(50) ? "#" : "", c.in[i * 4], c.in[i * 4 + 1], c.in[i * 4 + 2]);
    }
    break;
  }
  case PEAKS: {
    image(s, c, lim(area, 6000, 60000), 2);
    if (s.chance(60)) { // sparse responses
      Rng r(s.bytes(4));
      u32 n = 1 + r.below(12), keep = r.below(2);
      if (!keep) memset(c.in.data(), 0, c.in.size());
      for (u32 i = 0; i < n; i++) {
        size_t k = (size_t)(r.next() % (u64)(c.w * c.h));
        c.in[k * 2] = r.below(4) ? (u8)(200 + r.below(56)) : (u8)r.next();
        c.in[k * 2 + 1] = (u8)(r.below(4) ? 100 + r.below(156) : r.next());
        if (r.below(3) == 0 && k + 1 < (size_t)(c.w * c.h)) memcpy(&c.in[k * 2 + 2], &c.in[k * 2], 2);
      }
    }
    c.q[0] = s.chance(50) ? s.below(20) : s.chance(50) ? s.below(300) : any ? any_u32(s) : s.below(3);
    for (int k = 0; k < 2; k++)
      c.p[k] = any && s.chance(50) ? gen_double(s)
               : s.chance(40) ? (double)s.below(257) / 255.0 : s.chance(50) ? s.unit() : 0.05 * s.below(21);
    break;
  }
  case CROP: {
    image(s, c, area, any ? 1 + s.below(8) : (s.chance(85) ? chs[s.below(4)] : 1 + s.below(8)));
    u32 x = s.below((u32)c.w), y = s.below((u32)c.h);
    u32 nw = 1 + s.below((u32)c.w - x), nh = 1 + s.below((u32)c.h - y);
    if (s.chance(25)) nw = (u32)c.w - x;
    if (s.chance(25)) nh = (u32)c.h - y;
    if (s.chance(10)) x = 0, nw = (u32)c.w;
    if (s.chance(10)) y = 0, nh = (u32)c.h;
    c.q[0] = x, c.q[1] = y, c.q[2] = nw, c.q[3] = nh;
    if (s.chance(any ? 50 : 15)) { // not inside, including wrap arounds
      u32 k = s.below(4);
      if (s.chance(60)) c.q[k] = any_u32(s);
      else if (k >= 2) c.q[k] += 1;
      else c.q[k] += 1 + (k == 0 ? c.w - x - nw : c.h - y - nh);
      if (s.chance(30)) { // x + nw wraps to a small number
        c.q[0] = 4294967295ll - s.below(4);
        c.q[2] = 4294967295ll - c.q[0] + 1 + s.below((u32)c.w);
      }
      for (int i = 0; i < 4; i++) c.q[i] = (u32)c.q[i];
    }
    break;
  }
  case CIRCLE:
  case DISK: {
    image(s, c, lim(area, 30000, 6000000), any ? 1 + s.below(6) : chs[s.below(4)]);
    gen_hex(s, c.s[0], s.chance(20));
    double m = (double)(c.w > c.h ? c.w : c.h);
    double r;
    if (any && s.chance(40)) r = gen_double(s);
    else if (s.chance(70)) r = s.unit() * (m < 40 ? m * 1.5 : s.chance(50) ? 40 : m * 1.2);
    else if (s.chance(60)) r = s.below(30);
    else r = s.unit() * (op == CIRCLE ? 100000 : 20000);
    if (s.chance(30)) r = floor(r);
    double cap = op == CIRCLE ? 4e5 : 4e4;
    if (fabs(r) > cap && fabs(r) <= 1073741823.0) r = fmod(r, cap);
    c.p[0] = r;
    for (int k = 0; k < 2; k++) {
      double side = (double)(k ? c.h : c.w);
      double v;
      if (any && s.chance(30)) v = gen_double(s);
      else if (s.chance(55)) v = s.unit() * side;
      else if (s.chance(50)) v = floor(s.unit() * side);
      else if (s.chance(60)) v = (s.unit() * 3 - 1) * side;
      else v = s.chance(50) ? -fabs(c.p[0]) + s.unit() * side : fabs(c.p[0]) + s.unit() * side; // edge passes through
      c.p[1 + k] = v;
    }
    break;
  }
  case SETPX: case CIRCPTS: case DISKLINES: {
    image(s, c, area < 4000 ? area : 4000, any ? 1 + s.below(6) : chs[s.below(4)]);
    for (int k = 0; k < 4; k++) {
      i64 side = (k & 1) ? c.h : c.w;
      c.q[k] = s.chance(70) ? s.range(-5, side + 5) : s.range(-(1 << 29), 1 << 29);
      if (op == DISKLINES && k >= 2) c.q[k] = s.below((u32)side + 20);
    }
    c.q[4] = s.below(256), c.q[5] = s.below(256), c.q[6] = s.below(256);
    break;
  }
  case BORDER: {
    image(s, c, lim(area, 20000, 4000000), any && s.chance(40) ? s.below(7) : chs[s.below(4)]);
    gen_hex(s, c.s[0], s.chance(25));
    i64 b = s.chance(60) ? 1 + s.below(6) : 1 + s.below(60);
    if (any && s.chance(30)) b = any_u32(s);
    double a = ((double)c.w + 2.0 * (double)b) * ((double)c.h + 2.0 * (double)b);
    if (a > (g_big ? 1.6e7 : 3e5) && a < 2e9) b = 1 + s.below(3);
    c.q[0] = b;
    break;
  }
  case EXIF: {
    int exp, ve;
    gen_exif(s, c.in, exp, ve);
    c.q[0] = exp;
    c.w = (i64)c.in.size(), c.h = 1, c.ch = 1;
    break;
  }
  case DETECT: case DETECTP: case EXTRACT: case EXTRACTA: {
    if (s.chance(30)) image(s, c, lim(area, 20000, 2000000), 4);
    else {
      c.w = 16 + s.below(g_big ? 3000 : 400), c.h = 16 + s.below(g_big ? 2500 : 300), c.ch = 4;
      c.content = gen_content(s, c.in, (u32)c.w, (u32)c.h, 4, s.chance(70) ? 14 : -1);
    }
    c.q[0] = 1 + s.below(120), c.q[1] = 1 + s.below(120);
    if (any && s.chance(20)) c.q[0] = 0;
    break;
  }
  case FOERSTNER: {
    double sg = s.chance(60) ? s.unit() * 3 : s.chance(40) ? 1.5 : any ? gen_double(s) : s.unit() * 8;
    double k = fabs(sg) < 1e6 ? 3 * fabs(sg) : 30;
    double a = (g_big ? 2e7 : 4e5) / (1 + k * k);
    if (a > (double)area) a = (double)area;
    if (a > (g_big ? 300000 : 5000)) a = g_big ? 300000 : 5000;
    if (a < 200) a = 200;
    image(s, c, (u64)a, 1);
    c.p[0] = sg;
    break;
  }
  case HIST: {
    image(s, c, area, any ? 1 + s.below(7) : chs[s.below(4)]);
    if (g_big && c.ch == 4 && s.chance(30)) c.content = gen_content(s, c.in, (u32)c.w, (u32)c.h, 4, s.chance(20) ? 8 : s.chance(20) ? 9 : 20);
    break;
  }
  case HEX:
    gen_hex(s, c.s[0], true);
    break;
  case PERSP: {
    c.pts.resize(8);
    double sc = s.chance(50) ? 1000 : s.chance(50) ? 100 : 5000;
    for (int k = 0; k < 8; k++) {
      int j = k & 3;
      double bx = (j == 1 || j == 2) ? sc : 0, by = j >= 2 ? sc : 0;
      if (any && s.chance(50)) {
        c.pts[k] = Point2D{gen_double(s), gen_double(s)};
        continue;
      }
      c.pts[k] = Point2D{bx + (s.unit() - 0.5) * sc * 0.7, by + (s.unit() - 0.5) * sc * 0.7};
      if (s.chance(20)) c.pts[k] = Point2D{floor(c.pts[k].x), floor(c.pts[k].y)};
    }
    if (s.chance(20)) { // rectangle as destination or source
      double W = 1 + s.below(2000), H = 1 + s.below(2000);
      int o = s.chance(50) ? 4 : 0;
      c.pts[o] = Point2D{0, 0}, c.pts[o + 1] = Point2D{W, 0}, c.pts[o + 2] = Point2D{W, H}, c.pts[o + 3] = Point2D{0, H};
    }
    if (s.chance(15)) { // corners that lie almost on the axes or almost in line with one another
      int o = s.chance(70) ? 0 : 4;
      for (int k = 0; k < 4; k++)
        for (int e = 0; e < 2; e++) {
          double &v = e ? c.pts[(size_t)(o + k)].y : c.pts[(size_t)(o + k)].x;
          double d = (s.unit() - 0.5) * pow(10, -(double)s.below(14));
          if (fabs(v) < 0.36 * sc && s.chance(40)) v = d;
          else if (s.chance(20)) v += d;
        }
    }
    break;
  }
  case APPLY: {
    image(s, c, lim(area, 10000, 2000000), 4);
    i64 ow, oh;
    gen_dims(s, g_big ? 2000000 : 10000, ow, oh);
    if (s.chance(30)) ow = c.w, oh = c.h;
    c.q[0] = ow, c.q[1] = oh;
    double *m = c.p;
    u32 k = s.below(10);
    static const double id[9] = {1, 0, 0, 0, 1, 0, 0, 0, 1};
    memcpy(m, id, sizeof id);
    if (k == 0) m[2] = (s.unit() - 0.5) * (double)c.w, m[5] = (s.unit() - 0.5) * (double)c.h;
    else if (k == 1) m[2] = (double)s.range(-c.w, c.w), m[5] = (double)s.range(-c.h, c.h);
    else if (k == 2) m[0] = s.unit() * 3 - 1, m[4] = s.unit() * 3 - 1, m[2] = s.unit() * (double)c.w / 2, m[5] = s.unit() * (double)c.h / 2;
    else if (k == 3) { double a = s.unit() * 7; m[0] = cos(a), m[1] = -sin(a), m[3] = sin(a), m[4] = cos(a), m[2] = s.unit() * (double)c.w, m[5] = s.unit() * (double)c.h; }
    else if (k == 4) { for (int i = 0; i < 8; i++) m[i] += (s.unit() - 0.5) * (i >= 6 ? 0.02 : i == 2 ? (double)c.w : i == 5 ? (double)c.h : 0.5); }
    else if (k == 5) { m[0] = m[4] = -1; if (s.chance(40)) m[2] = (double)c.w - 1, m[5] = (double)c.h - 1; if (s.chance(20)) m[1] = s.unit(), m[3] = s.unit() - 0.5; if (s.chance(20)) m[8] = 1 + s.unit(); }
    else if (k == 6) { for (int i = 0; i < 9; i++) if (s.chance(50)) m[i] = gen_double(s); }
    else if (k == 7) { for (int i = 0; i < 9; i++) m[i] = (double)s.range(-2, 2); }
    else if (k == 8) { memset(m, 0, sizeof id); m[8] = s.chance(50) ? 1 : 0; m[2] = (double)s.below((u32)c.w), m[5] = (double)s.below((u32)c.h); }
    else { double f = 0.2 + s.unit() * 3; for (int i = 0; i < 9; i++) m[i] *= (s.chance(50) ? -f : f); }
    if (s.chance(15)) { // the same mapping, written with other numbers
      double f = s.chance(50) ? pow(10, (double)s.range(-9, 9)) : pow(2, (double)s.range(-26, 40));
      for (int i = 0; i < 9; i++) m[i] *= f;
    }
    if (any && s.chance(20)) m[s.below(9)] = gen_double(s);
    break;
  }
  case SOBEL:
    image(s, c, lim(area, 40000, s.chance(90) ? 4000000 : 30000000), any && s.chance(30) ? s.below(7) : chs[s.below(4)]);
    if (g_big && s.below(150) == 0) { // a line (or two) longer than 2^24 pixels
      c.ch = 1, c.w = 16777216 + (i64)s.below(1500000), c.h = 1;
      if (s.chance(20)) c.w = 16777216 / 2 + (i64)s.below(1500000), c.h = 2;
      c.content = gen_content(s, c.in, (u32)c.w, (u32)c.h, 1, s.chance(30) ? 20 : 0);
    }
    break;
  case SORT: {
    u32 n = s.chance(50) ? 4 : s.chance(60) ? 3 : s.chance(50) ? 5 + s.below(12) : any ? s.below(60) : 3 + s.below(50);
    double sc = 1 + s.below(2000);
    for (u32 i = 0; i < n; i++) {
      if (any && s.chance(20)) c.pts.push_back(Point2D{gen_double(s), gen_double(s)});
      else c.pts.push_back(Point2D{s.unit() * sc, s.unit() * sc});
      if (s.chance(20)) c.pts.back().x = floor(c.pts.back().x / 16) * 16, c.pts.back().y = floor(c.pts.back().y / 16) * 16;
    }
    if (n == 4 && s.chance(50)) { // convex quadrilaterals
      double cx = sc, cy = sc;
      double a0 = s.unit() * 6.28;
      for (u32 i = 0; i < 4; i++) {
        double a = a0 + i * 1.5708 + (s.unit() - 0.5) * 0.9, r = sc * (0.4 + 0.6 * s.unit());
        c.pts[i] = Point2D{cx + r * cos(a), cy + r * sin(a)};
      }
    }
    for (u32 i = 0; i + 1 < c.pts.size(); i++) { // shuffle
      u32 j = i + s.below((u32)c.pts.size() - i);
      Point2D t = c.pts[i];
      c.pts[i] = c.pts[j], c.pts[j] = t;
    }
    c.w = 1 + s.below(4000), c.h = 1 + s.below(4000);
    c.q[0] = s.chance(50) ? 256 : 1 + s.below(4000), c.q[1] = s.chance(50) ? 256 : 1 + s.below(4000);
    if (any && s.chance(20)) c.q[0] = 0;
    break;
  }
  case TRIM:
  case TRIMT: {
    i64 w, h;
    gen_dims(s, lim(area, 20000, 1000000), w, h);
    if (!g_big && s.chance(60)) w = 1 + s.below(24), h = 1 + s.below(24);
    c.w = w, c.h = h;
    c.ch = any && s.chance(30) ? 1 + s.below(7) : chs[s.below(4)];
    c.content = gen_content(s, c.in, (u32)w, (u32)h, c.ch, s.chance(65) ? 12 : -1);
    c.p[0] = any && s.chance(40) ? gen_double(s) : s.chance(50) ? s.below(8) : s.chance(50) ? (s.chance(30) ? 20.0 * s.below(6) : s.unit() * 10) : s.chance(30) ? s.below(101) : s.unit() * 110;
    break;
  }
  case WATERSHED: {
    image(s, c, lim(area, 900, 20000), 1);
    if (s.chance(50)) { // few levels: flats and basins
      Rng r(s.bytes(4));
      u32 lv = 1 + r.below(5);
      for (auto &v : c.in) v = (u8)((v * lv / 256) * (lv > 1 ? 255 / (lv - 1) : 0));
    }
    u32 n = s.chance(70) ? 1 + s.below(4) : s.chance(70) ? 1 + s.below(15) : s.chance(70) ? 1 + s.below(60) : 1 + s.below(s.chance(50) ? 700 : 300);
    for (u32 i = 0; i < n; i++) {
      Point2D p{s.unit() * (double)c.w, s.unit() * (double)c.h};
      if (s.chance(50)) p.x = floor(p.x), p.y = floor(p.y);
      if (s.chance(8)) p.x = -s.unit() * 0.999;
      if (s.chance(10) && i) p = c.pts[s.below(i)];
      if (any && s.chance(10)) p.x = gen_double(s);
      if (any && s.chance(10)) p.y = gen_double(s);
      c.pts.push_back(p);
    }
    c.q[0] = s.below(2);
    break;
  }
  case DILATE: case ERODE: case CLOSE: case OPEN: {
    i64 r = s.chance(75) ? s.below(7) : s.chance(60) ? s.below(30) : any_i32(s);
    if (!any && r < 0) r = 0;
    double k = (double)(r > 500 ? 500 : r < 0 ? 0 : r) * 2 + 1;
    if (r > 100) { // the library does O(area * (w+h)^2) steps for a covering disk
      image(s, c, 60, 1);
    } else {
      double a = (op >= CLOSE ? 3e6 : 6e6) * (g_big ? 30 : 1) / (k * k);
      if (a > (g_big ? 1e6 : 4000)) a = g_big ? 1e6 : 4000;
      if (a < 16) a = 16;
      image(s, c, (u64)a < area ? (u64)a : area, 1);
    }
    if (r > c.w + c.h) { // long thin images would take too long
      while (c.w + c.h > 60) {
        if (c.w > c.h) c.w = (c.w + 1) / 2; else c.h = (c.h + 1) / 2;
      }
      c.in.resize((size_t)(c.w * c.h));
    }
    if (r >= 4 && r <= 40 && s.chance(60)) { // an image in which the disk fits, with a few deviating pixels
      c.w = 2 * r + 1 + (i64)s.below(12), c.h = 2 * r + 1 + (i64)s.below(12);
      Rng rr(s.bytes(4));
      u8 bg = rr.below(3) ? 255 : 0;
      c.in.assign((size_t)(c.w * c.h), bg);
      for (u32 k = rr.below(5); k--;) c.in[rr.next() % c.in.size()] = rr.below(6) ? (u8)(255 - bg) : (u8)rr.next();
    } else if (s.chance(70)) {
      Rng rr(s.bytes(4));
      u32 d = rr.below(3) == 0 ? 98 : rr.below(2) ? 3 : 50;
      for (auto &v : c.in) v = rr.below(100) < d ? 255 : rr.below(12) ? 0 : (u8)rr.next();
    }
    c.q[0] = r;
    break;
  }
  }
}

bool Result::same(const Result &o) const {
  if (null != o.null || inplace_changed != o.inplace_changed) return false;
  if (ow != o.ow || oh != o.oh || och != o.och) return false;
  if (out.size() != o.out.size() || (out.size() && memcmp(out.data(), o.out.data(), out.size()))) return false;
  return v.size() == o.v.size() && (v.empty() || !memcmp(v.data(), o.v.data(), v.size() * sizeof(double)));
}

static void take(Result &r, u8 *p, i64 w, i64 h, u32 ch) {
  r.null = !p;
  if (!p) return;
  r.ow = w, r.oh = h, r.och = ch;
  size_t n = (size_t)w * (size_t)h * ch;
#ifdef MSAN
  __msan_check_mem_is_initialized(p, n);
#endif
  r.out.assign(p, p + n); // reads the documented size (the sanitizer sees a short buffer)
  if (g_track && !vf_owned(p)) mon.bad_free = true, snprintf(mon.bad, sizeof mon.bad, "result is not the start of a heap block");
#ifdef NOTRACK
  free(p);
#else
  vf_free(p);
#endif
}
static void xfree(void *p) {
#ifdef NOTRACK
  free(p);
#else
  vf_free(p);
#endif
}

thread_local int vf_tid = 0;
#ifdef SECOND
void exec_call2(const Call &c, Result &r, const ExecOpt &o) {
#else
void exec_call(const Call &c, Result &r, const ExecOpt &o) {
#endif
  r = Result();
  size_t n = c.in.size();
  u8 *buf = nullptr;
  u8 *map = nullptr;
  size_t maplen = 0;
  if (o.shared) {
    buf = o.shared;
  } else if (o.reuse) {
    buf = o.reuse;
    if (n) memcpy(buf, c.in.data(), n);
  } else if (o.ro && !op_inplace(c.op)) {
    size_t pg = 4096, k = (n + pg - 1) / pg * pg;
    maplen = k + pg;
    map = (u8 *)mmap(nullptr, maplen, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    buf = map + k - n;
    if (n) memcpy(buf, c.in.data(), n);
    mprotect(map, k, PROT_READ);
    mprotect(map + k, pg, PROT_NONE);
  } else {
    buf = (u8 *)malloc(n);
    if (n) memcpy(buf, c.in.data(), n);
  }
  u8 *d = (c.nulls & N_DATA) ? nullptr : buf;
  u32 w = (u32)c.w, h = (u32)c.h;
  char *s0 = strdup(c.s[0]), *s1 = strdup(c.s[1]);
  const char *a0 = (c.nulls & N_S0) ? nullptr : s0, *a1 = (c.nulls & N_S1) ? nullptr : s1;
  u32 ow = 0xDEAD, oh = 0xBEEF;
  u32 *pow_ = (c.nulls & N_OW) ? nullptr : &ow, *poh = (c.nulls & N_OH) ? nullptr : &oh;
  Point2D *pts = (Point2D *)malloc(sizeof(Point2D) * (c.pts.size() ? c.pts.size() : 1));
  if (c.pts.size()) memcpy(pts, c.pts.data(), sizeof(Point2D) * c.pts.size());
  Point2D *ppts = (c.nulls & N_PTS) ? nullptr : pts;
  Matrix3x3 mat;
  memcpy(mat.m, c.p, sizeof mat.m);
  switch (c.op) {
  case GRAY: take(r, fcv_grayscale(w, h, d), c.w, c.h, 4); break;
  case STRETCH: take(r, fcv_grayscale_stretch(w, h, d), c.w, c.h, 4); break;
  case GTHRESH: fcv_apply_global_threshold((u32)(c.w * c.h), d, (u8)c.q[0]); break;
  case OTSU: take(r, fcv_otsu_threshold_rgba(w, h, c.q[0] != 0, d), c.w, c.h, 4); break;
  case BWSMART: take(r, fcv_bw_smart(w, h, c.q[0] != 0, d), c.w, c.h, 4); break;
  case BLUR: take(r, fcv_apply_gaussian_blur(w, h, c.p[0], d), c.w, c.h, 4); break;
  case RESIZE: {
    u8 *q = fcv_resize(w, h, c.p[0], c.p[1], pow_, poh, d);
    take(r, q, ow, oh, 4);
    break;
  }
  case TOBIN: take(r, fcv_convert_to_binary(d, (i32)c.w, (i32)c.h, a0, a1), c.w, c.h, 1); break;
  case PEAKS: {
    CornerPeaks *k = fcv_corner_peaks(w, h, d, (u32)c.q[0], c.p[0], c.p[1]);
    r.null = !k;
    if (k) {
      r.v.push_back(k->count);
      for (u32 i = 0; i < k->count; i++) r.v.push_back(k->points[i].x), r.v.push_back(k->points[i].y);
#ifdef MSAN
      __msan_check_mem_is_initialized(r.v.data(), r.v.size() * sizeof(double));
#endif
      if (k->points) xfree(k->points);
      xfree(k);
    }
    break;
  }
  case CROP: take(r, fcv_crop(w, h, c.ch, d, (u32)c.q[0], (u32)c.q[1], (u32)c.q[2], (u32)c.q[3]), c.q[2], c.q[3], c.ch); break;
  case CIRCLE: fcv_draw_circle(w, h, c.ch, a0, c.p[0], c.p[1], c.p[2], d); break;
  case DISK: fcv_draw_disk(w, h, c.ch, a0, c.p[0], c.p[1], c.p[2], d); break;
  case SETPX: fcv_set_circle_pixel(d, w, h, c.ch, (i32)c.q[0], (i32)c.q[1], (u8)c.q[4], (u8)c.q[5], (u8)c.q[6]); break;
  case CIRCPTS: fcv_draw_circle_points(d, w, h, c.ch, (i32)c.q[0], (i32)c.q[1], (i32)c.q[2], (i32)c.q[3], (u8)c.q[4], (u8)c.q[5], (u8)c.q[6]); break;
  case DISKLINES: fcv_fill_disk_lines(d, w, h, c.ch, (i32)c.q[0], (i32)c.q[1], (i32)c.q[2], (i32)c.q[3], (u8)c.q[4], (u8)c.q[5], (u8)c.q[6]); break;
  case BORDER: {
    u8 *q = fcv_add_border(w, h, c.ch, a0, (u32)c.q[0], d, pow_, poh);
    take(r, q, ow, oh, c.ch);
    break;
  }
  case EXIF: {
    char name[300];
    snprintf(name, sizeof name, "%s/exif.%d.%d.jpg", g_scratch, (int)getpid(), vf_tid);
    if (c.nulls & N_DATA) { r.v.push_back(fcv_get_exif_orientation(nullptr)); r.null = false; break; }
    if (c.nulls & N_S0) { unlink(name); }
    else {
      int fd = open(name, O_WRONLY | O_CREAT | O_TRUNC, 0600);
      size_t off = 0;
      while (off < n) {
        ssize_t k = write(fd, buf + off, n - off);
        if (k <= 0) break;
        off += (size_t)k;
      }
      close(fd);
    }
    r.v.push_back(fcv_get_exif_orientation(name));
    r.null = false;
    break;
  }
  case EXTRACT: take(r, fcv_extract_document(w, h, d, (u32)c.q[0], (u32)c.q[1]), c.q[0], c.q[1], 4); break;
  case EXTRACTA: {
    u8 *q = fcv_extract_document_auto(w, h, d, pow_, poh);
    take(r, q, ow, oh, 4);
    break;
  }
  case FLIPX: take(r, fcv_flip_x(w, h, d), c.w, c.h, 4); break;
  case FLIPY: take(r, fcv_flip_y(w, h, d), c.w, c.h, 4); break;
  case TRANSPOSE: take(r, fcv_transpose(w, h, d), c.h, c.w, 4); break;
  case TRANSVERSE: take(r, fcv_transverse(w, h, d), c.h, c.w, 4); break;
  case FOERSTNER: take(r, fcv_foerstner_corner(w, h, d, c.p[0]), c.w, c.h, 2); break;
  case HIST: {
    u8 *q = fcv_generate_histogram(w, h, c.ch, d, pow_, poh);
    take(r, q, ow, oh, 4);
    break;
  }
  case HEX: {
    u8 a = 1, b = 2, e = 3;
    fcv_parse_hex_color(a0, &a, &b, &e);
    r.null = false;
    r.v.push_back(a), r.v.push_back(b), r.v.push_back(e);
    break;
  }
  case PERSP: {
    Corners A, B;
    memcpy(&A, c.pts.data(), sizeof A);
    memcpy(&B, c.pts.data() + 4, sizeof B);
    Corners A0 = A, B0 = B;
    Matrix3x3 *m = fcv_calculate_perspective_transform((c.nulls & N_PTS) ? nullptr : &A, (c.nulls & N_C2) ? nullptr : &B);
    r.null = !m;
    if (m) {
      r.v.assign(m->m, m->m + 9);
#ifdef MSAN
      __msan_check_mem_is_initialized(m, sizeof *m);
#endif
      if (g_track && !vf_owned(m)) mon.bad_free = true, snprintf(mon.bad, sizeof mon.bad, "matrix is not the start of a heap block");
      xfree(m);
    }
    if (memcmp(&A, &A0, sizeof A) || memcmp(&B, &B0, sizeof B)) r.args_changed = true;
    break;
  }
  case APPLY: {
    Matrix3x3 m0 = mat;
    u8 *q = fcv_apply_matrix_3x3((i32)c.w, (i32)c.h, d, (i32)c.q[0], (i32)c.q[1], (c.nulls & N_MAT) ? nullptr : &mat);
    take(r, q, c.q[0], c.q[1], 4);
    if (memcmp(&m0, &mat, sizeof mat)) r.args_changed = true;
    break;
  }
  case DETECT: {
    Corners k = fcv_detect_corners(d, (i32)c.w, (i32)c.h);
    double t[8];
    memcpy(t, &k, sizeof t);
    r.v.assign(t, t + 8);
#ifdef MSAN
    __msan_check_mem_is_initialized(&k, sizeof k);
#endif
    r.null = false;
    break;
  }
  case DETECTP: {
    Corners *k = fcv_detect_corners_ptr(d, (i32)c.w, (i32)c.h);
    r.null = !k;
    if (k) {
      double t[8];
      memcpy(t, k, sizeof t);
      r.v.assign(t, t + 8);
      if (g_track && !vf_owned(k)) mon.bad_free = true, snprintf(mon.bad, sizeof mon.bad, "corners are not a heap block");
      xfree(k);
    }
    break;
  }
  case RGBA2GRAY: take(r, fcv_rgba_to_grayscale(w, h, d), c.w, c.h, 1); break;
  case ROT90: take(r, fcv_rotate_90_cw(w, h, d), c.h, c.w, 4); break;
  case ROT180: take(r, fcv_rotate_180(w, h, d), c.w, c.h, 4); break;
  case ROT270: take(r, fcv_rotate_270_cw(w, h, d), c.h, c.w, 4); break;
  case S2M: take(r, fcv_single_to_multichannel(w, h, d), c.w, c.h, 4); break;
  case SOBEL: take(r, fcv_sobel_edge_detection(w, h, c.ch, d), c.w, c.h, 1); break;
  case SORT: {
    size_t k = c.pts.size() > 4 ? c.pts.size() : 4;
    Point2D *res = (Point2D *)malloc(k * sizeof(Point2D));
    for (size_t i = 0; i < k; i++) res[i] = Point2D{-7, -7};
    Corners q = sort_corners(w, h, (u32)c.q[0], (u32)c.q[1], ppts, (u32)c.pts.size(), res);
    double t[8];
    memcpy(t, &q, sizeof t);
    r.v.assign(t, t + 8);
    for (size_t i = 0; i < k; i++) r.v.push_back(res[i].x), r.v.push_back(res[i].y);
    r.null = false;
    free(res);
    break;
  }
  case TRIM: case TRIMT: {
    i32 tw = (i32)c.w, th = (i32)c.h;
    i32 *a = (c.nulls & N_OW) ? nullptr : &tw, *b = (c.nulls & N_OH) ? nullptr : &th;
    u8 *q = c.op == TRIM ? fcv_trim(a, b, c.ch, d) : fcv_trim_threshold(a, b, c.ch, d, c.p[0]);
    take(r, q, tw, th, c.ch);
    break;
  }
  case WATERSHED: take(r, fcv_watershed_segmentation(w, h, d, ppts, (u32)c.pts.size(), c.q[0] != 0), c.w, c.h, 4); break;
  case DILATE: take(r, fcv_binary_dilation_disk(d, (i32)c.w, (i32)c.h, (i32)c.q[0]), c.w, c.h, 1); break;
  case ERODE: take(r, fcv_binary_erosion_disk(d, (i32)c.w, (i32)c.h, (i32)c.q[0]), c.w, c.h, 1); break;
  case CLOSE: take(r, fcv_binary_closing_disk(d, (i32)c.w, (i32)c.h, (i32)c.q[0]), c.w, c.h, 1); break;
  case OPEN: take(r, fcv_binary_opening_disk(d, (i32)c.w, (i32)c.h, (i32)c.q[0]), c.w, c.h, 1); break;
  }
  if (op_inplace(c.op)) {
    r.null = false;
    r.ow = c.w, r.oh = c.h, r.och = c.ch;
#ifdef MSAN
    __msan_check_mem_is_initialized(buf, n);
#endif
    r.out.assign(buf, buf + n);
    r.inplace_changed = n && memcmp(buf, c.in.data(), n) != 0;
  } else if (n && memcmp(buf, c.in.data(), n)) r.input_changed = true;
  if (strcmp(s0, c.s[0]) || strcmp(s1, c.s[1])) r.args_changed = true;
  if (c.pts.size() && memcmp(pts, c.pts.data(), sizeof(Point2D) * c.pts.size())) r.args_changed = true;
  free(pts);
  free(s0);
  free(s1);
  if (map) munmap(map, maplen);
  else if (!o.reuse && !o.shared) free(buf);
}

void describe(const Call &c, char *buf, size_t n) {
  size_t k = 0;
  auto add = [&](const char *f, ...) {
    va_list ap;
    va_start(ap, f);
    if (k < n) k += (size_t)vsnprintf(buf + k, n - k, f, ap);
    va_end(ap);
  };
  add("%s w=%lld h=%lld ch=%u content=%d", op_names[c.op], (long long)c.w, (long long)c.h, c.ch, c.content);
  int np = 0, nq = 0;
  switch (c.op) {
  case BLUR: case FOERSTNER: case TRIMT: np = 1; break;
  case RESIZE: case PEAKS: np = 2; nq = c.op == PEAKS ? 1 : 0; break;
  case CIRCLE: case DISK: np = 3; break;
  case APPLY: np = 9; nq = 2; break;
  case CROP: nq = 4; break;
  case BORDER: case OTSU: case BWSMART: case GTHRESH: case DILATE: case ERODE: case CLOSE: case OPEN: case WATERSHED: case EXIF: nq = 1; break;
  case EXTRACT: case SORT: nq = 2; break;
  case SETPX: case CIRCPTS: case DISKLINES: nq = 7; break;
  default: break;
  }
  for (int i = 0; i < np; i++) add(" p%d=%.17g", i, c.p[i]);
  for (int i = 0; i < nq; i++) add(" q%d=%lld", i, (long long)c.q[i]);
  if (c.s[0][0] || c.op == HEX) add(" s0='%s'", c.s[0]);
  if (c.s[1][0]) add(" s1='%s'", c.s[1]);
  if (c.nulls) add(" nulls=0x%x", c.nulls);
  for (size_t i = 0; i < c.pts.size() && i < 10; i++) add(" (%.9g,%.9g)", c.pts[i].x, c.pts[i].y);
  if (c.in.size() <= 64) {
    add(" data=");
    for (u8 v : c.in) add("%02x", v);
  }
  if (k >= n) buf[n - 1] = 0;
}

static u64 fnv(u64 h, const void *p, size_t n) {
  const u8 *b = (const u8 *)p;
  size_t i = 0;
  for (; i + 8 <= n; i += 8) {
    u64 v;
    memcpy(&v, b + i, 8);
    h = (h ^ v) * 0x100000001b3ull;
    h ^= h >> 29;
  }
  for (; i < n; i++) h = (h ^ b[i]) * 0x100000001b3ull;
  return h;
}
u64 digest(const Call &c, const Result &r) {
  u64 h = 0xcbf29ce484222325ull + (u64)c.op;
  u64 t[6] = {r.null, (u64)r.ow, (u64)r.oh, r.och, r.inplace_changed, r.args_changed};
  h = fnv(h, t, sizeof t);
  h = fnv(h, r.out.data(), r.out.size());
  return mix64(fnv(h, r.v.data(), r.v.size() * 8));
}
u64 call_hash(const Call &c) {
  u64 h = 0x1234567 + (u64)c.op;
  u64 t[4] = {(u64)c.w, (u64)c.h, c.ch, c.nulls};
  h = fnv(h, t, sizeof t);
  h = fnv(h, c.p, sizeof c.p);
  h = fnv(h, c.q, sizeof c.q);
  h = fnv(h, c.s, sizeof c.s);
  h = fnv(h, c.pts.data(), c.pts.size() * sizeof(Point2D));
  return mix64(fnv(h, c.in.data(), c.in.size()));
}
