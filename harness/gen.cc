// Workload generators.
#include "h.h"

std::vector<i64> lit_new, lit_all;
std::vector<double> flit_new, flit_all;

static const i64 edge_dims[] = {1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 24, 25, 31, 32, 33, 50, 63, 64, 65, 99,
                                100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 258, 511, 512, 513, 999, 1000,
                                1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16383,
                                16384, 32767, 32768, 32769, 65535, 65536, 65537};

static i64 pick_lit(Src &s) {
  if (!lit_new.empty() && (lit_all.empty() || s.chance(75))) return lit_new[s.below((u32)lit_new.size())];
  if (!lit_all.empty()) return lit_all[s.below((u32)lit_all.size())];
  return 1 + s.below(300);
}
static double pick_flit(Src &s) {
  if (!flit_new.empty() && (flit_all.empty() || s.chance(75))) return flit_new[s.below((u32)flit_new.size())];
  if (!flit_all.empty()) return flit_all[s.below((u32)flit_all.size())];
  return s.below(300);
}

// width and height with width * height <= area
void gen_dims(Src &s, u64 area, i64 &w, i64 &h) {
  u32 m = s.below(100);
  bool lits = !lit_new.empty();
  if (g_big && m == 99 && area >= 5000000) { // lines of millions of pixels
    h = 1 + (s.chance(30) ? s.below(3) : 0), w = (i64)((double)area * (0.5 + 0.5 * s.unit())) / h;
  } else if (g_big && m < 70 && area > 1000) { // any number of pixels up to the limit, any proportions
    double n = (double)area * exp(-s.unit() * (s.chance(60) ? 0.4 : 4)), e = s.chance(70) ? 0.35 + 0.3 * s.unit() : s.unit();
    w = (i64)pow(n, e), h = (i64)(n / (double)(w < 1 ? 1 : w));
    if (s.chance(15)) { // a multiple of a power of two, or next to it
      i64 b = 1ll << (4 + s.below(7));
      w = (w / b + 1) * b + s.range(-1, 1);
    }
    m = 75;
  } else if (m < 22) {
    w = 1 + s.below(8), h = 1 + s.below(8);
  } else if (m < 40) {
    w = edge_dims[s.below(sizeof edge_dims / sizeof *edge_dims)];
    h = s.chance(50) ? edge_dims[s.below(sizeof edge_dims / sizeof *edge_dims)] : 1 + s.below(40);
  } else if (m < 50) {
    w = 1 + (s.chance(50) ? s.below(70000) : s.below(2000)), h = 1 + s.below(3);
  } else if (m < 72) {
    w = 1 + s.below(100), h = 1 + s.below(100);
  } else if (m < 80) {
    w = 1 + s.below(16), h = 1 + s.below(600);
  } else if (m < 88) { // squares and near squares
    w = 1 + s.below(260), h = w + s.range(-1, 1);
    if (h < 1) h = 1;
  } else if (m < (lits ? 96u : 90u)) {
    i64 l = pick_lit(s);
    u32 k = s.below(6);
    if (k < 2) {
      w = l + s.range(-1, 1), h = 1 + s.below(s.chance(50) ? 4 : 64);
    } else if (k < 4) { // the product is near the literal
      w = 1 + s.below(40);
      h = l / w + s.range(0, 1);
    } else if (k < 5) {
      w = l + s.range(-1, 1), h = pick_lit(s);
    } else { // w + h, w - h, multiples
      h = 1 + s.below(40), w = s.chance(50) ? l - h : l + h;
    }
  } else { // raw values (reachable for comparison guided mutation)
    w = (i64)s.bytes(2), h = (i64)s.bytes(2);
  }
  if (w < 1) w = 1;
  if (h < 1) h = 1;
  if ((m < 72 || m >= 80) && s.chance(50)) { i64 t = w; w = h; h = t; }
  if (w > (i64)area) w = (i64)area;
  if ((u64)w * (u64)h > area) {
    if (s.chance(50) || h > (i64)area) h = (i64)(area / (u64)w);
    else w = (i64)(area / (u64)h);
  }
  if (w < 1) w = 1;
  if (h < 1) h = 1;
  if (w > (i64)area) w = (i64)area;
  while ((u64)w * (u64)h > area && h > 1) h--;
}

static void noise(Rng &r, u8 *p, size_t n) {
  size_t i = 0;
  for (; i + 8 <= n; i += 8) {
    u64 v = r.next();
    memcpy(p + i, &v, 8);
  }
  for (; i < n; i++) p[i] = (u8)r.next();
}

int gen_content(Src &s, Bytes &b, u32 w, u32 h, u32 ch, int mode) {
  b.resize((size_t)w * h * ch);
  size_t px = (size_t)w * h;
  if (b.empty()) return -1;
  if (s.fuzz && b.size() <= 96 && s.chance(50) && s.pos + b.size() <= s.n) {
    memcpy(b.data(), s.d + s.pos, b.size());
    s.pos += b.size();
    return 99;
  }
  int m = mode >= 0 ? mode : (int)s.below(21);
  Rng r(s.bytes(4) ^ ((u64)m << 40));
  u8 c1[16], c2[16];
  static const u8 ext[] = {0, 1, 2, 15, 16, 17, 127, 128, 129, 238, 239, 240, 253, 254, 255};
  for (int i = 0; i < 16; i++) {
    c1[i] = r.below(3) ? (u8)r.next() : ext[r.below(sizeof ext)];
    c2[i] = r.below(3) ? (u8)r.next() : ext[r.below(sizeof ext)];
  }
  u32 cc = ch > 16 ? 16 : ch;
  auto setp = [&](size_t i, const u8 *c) {
    for (u32 k = 0; k < ch; k++) b[i * ch + k] = c[k % 16];
  };
  (void)cc;
  switch (m) {
  default:
  case 0: noise(r, b.data(), b.size()); break;
  case 1:
    for (size_t i = 0; i < px; i++) setp(i, c1);
    break;
  case 2: {
    u32 d = 1 + r.below(99);
    for (size_t i = 0; i < px; i++) setp(i, r.below(100) < d ? c1 : c2);
    break;
  }
  case 3: {
    u32 bx = 1 + r.below(9), by = 1 + r.below(9), k = r.below(3);
    for (u32 y = 0; y < h; y++)
      for (u32 x = 0; x < w; x++) {
        bool on = k == 0 ? ((x / bx + y / by) & 1) : k == 1 ? ((x / bx) & 1) : ((y / by) & 1);
        setp((size_t)y * w + x, on ? c1 : c2);
      }
    break;
  }
  case 4: {
    u32 k = r.below(3);
    double f = 0.2 + r.unit() * 3;
    for (u32 y = 0; y < h; y++)
      for (u32 x = 0; x < w; x++) {
        double t = k == 0 ? (double)x / w : k == 1 ? (double)y / h : ((double)x / w + (double)y / h) / 2;
        t *= f;
        for (u32 q = 0; q < ch; q++) {
          double v = c1[q % 16] + (c2[q % 16] - (double)c1[q % 16]) * t;
          b[((size_t)y * w + x) * ch + q] = v < 0 ? 0 : v > 255 ? 255 : (u8)v;
        }
      }
    break;
  }
  case 5: {
    u32 lv = 2 + r.below(6);
    u8 t[8];
    for (u32 i = 0; i < lv; i++) t[i] = r.below(2) ? (u8)r.next() : ext[r.below(sizeof ext)];
    for (auto &v : b) v = t[r.below(lv)];
    break;
  }
  case 6: {
    for (size_t i = 0; i < px; i++) setp(i, c1);
    u32 k = 1 + r.below(4);
    while (k--) {
      size_t i = r.below(4) == 0 ? px - 1 : r.below(4) == 0 ? 0 : (size_t)(r.next() % px);
      if (r.below(2)) b[i * ch + r.below(ch)] ^= (u8)(1 + r.below(255));
      else setp(i, c2);
    }
    break;
  }
  case 7: {
    double fx = 0.02 + r.unit() * 0.5, fy = 0.02 + r.unit() * 0.5, ph = r.unit() * 6;
    for (u32 y = 0; y < h; y++)
      for (u32 x = 0; x < w; x++)
        for (u32 q = 0; q < ch; q++)
          b[((size_t)y * w + x) * ch + q] =
            (u8)(127.5 + 127 * sin(x * fx + q + ph) * cos(y * fy + q * 0.7));
    break;
  }
  case 8:
  case 9: {
    for (size_t i = 0; i < px; i++) {
      u8 v = (u8)r.next();
      for (u32 q = 0; q < ch; q++) b[i * ch + q] = q == 3 ? (u8)r.next() : v;
    }
    if (m == 9 && px) {
      size_t i = r.below(2) ? px - 1 : (size_t)(r.next() % px);
      u32 q = r.below(ch > 3 ? 3 : ch);
      b[i * ch + q] ^= (u8)(1u << r.below(8));
    }
    break;
  }
  case 10: {
    u32 d = 1 + r.below(99);
    for (size_t i = 0; i < px; i++) {
      u8 v = r.below(100) < d ? 255 : 0;
      for (u32 q = 0; q < ch; q++) b[i * ch + q] = v;
    }
    break;
  }
  case 11:
    for (auto &v : b) v = ext[r.below(sizeof ext)];
    break;
  case 12: { // frames of uniform lines around noise
    noise(r, b.data(), b.size());
    if (r.below(2))
      for (size_t i = 0; i < px; i++)
        if (r.below(3)) setp(i, c1);
    u32 l = 0, t = 0, R = w, B = h;
    u32 steps = r.below(w + h < 60 ? w + h : 60);
    u32 jit = r.below(3) == 0 ? 1 + r.below(12) : 0;
    for (u32 i = 0; i < steps && R - l > 0 && B - t > 0; i++) {
      u8 c[16];
      memcpy(c, r.below(3) ? c1 : c2, 16);
      if (r.below(3) == 0) noise(r, c, 16);
      u32 side = r.below(4);
      auto line = [&](u32 x, u32 y) {
        setp((size_t)y * w + x, c);
        if (jit)
          for (u32 q = 0; q < ch; q++) {
            int v = c[q % 16] + (int)r.below(2 * jit + 1) - (int)jit;
            b[((size_t)y * w + x) * ch + q] = v < 0 ? 0 : v > 255 ? 255 : (u8)v;
          }
      };
      if (side == 0) { for (u32 y = t; y < B; y++) line(l, y); l++; }
      else if (side == 1) { for (u32 y = t; y < B; y++) line(R - 1, y); R--; }
      else if (side == 2) { for (u32 x = l; x < R; x++) line(x, t); t++; }
      else { for (u32 x = l; x < R; x++) line(x, B - 1); B--; }
      if (l >= R || t >= B) break;
    }
    // sometimes one pixel of a frame differs in one channel by a little
    if (r.below(3) == 0 && px) {
      size_t i = r.below(2) ? (size_t)(r.next() % px) : (r.below(2) ? px - 1 : w - 1);
      b[i * ch + r.below(ch)] ^= (u8)(1 + r.below(15));
    }
    break;
  }
  case 13:
    for (size_t i = 0; i < px; i++) {
      setp(i, c1);
      if (ch >= 4) b[i * ch + 3] = (u8)r.next();
    }
    break;
  case 14: { // bright rectangle / quadrilateral on dark
    u32 x0 = r.below(w), x1 = x0 + r.below(w - x0), y0 = r.below(h), y1 = y0 + r.below(h - y0);
    double sl = (r.unit() - 0.5) * 0.6;
    for (u32 y = 0; y < h; y++)
      for (u32 x = 0; x < w; x++) {
        double xs = x + sl * ((double)y - y0);
        setp((size_t)y * w + x, xs >= x0 && xs <= x1 && y >= y0 && y <= y1 ? c2 : c1);
      }
    break;
  }
  case 15: {
    u32 bs = 2 + r.below(7);
    u64 k = r.next();
    for (u32 y = 0; y < h; y++)
      for (u32 x = 0; x < w; x++)
        for (u32 q = 0; q < ch; q++)
          b[((size_t)y * w + x) * ch + q] = (u8)mix64(k + (x / bs) * 7919 + (y / bs) * 104729 + q);
    break;
  }
  case 16: { // very skewed distribution
    u32 n = 1 + r.below(200);
    for (size_t i = 0; i < px; i++)
      for (u32 q = 0; q < ch; q++) b[i * ch + q] = r.below(n) ? (u8)(c1[0] + r.below(3)) : (u8)r.next();
    break;
  }
  case 17: { // literals of the source as values
    for (auto &v : b) v = r.below(2) && !lit_all.empty()
        ? (u8)(lit_all[r.below((u32)lit_all.size())] + (i64)r.below(3) - 1) : (u8)r.next();
    if (!lit_new.empty())
      for (auto &v : b)
        if (r.below(3) == 0) v = (u8)(lit_new[r.below((u32)lit_new.size())] + (i64)r.below(3) - 1);
    break;
  }
  case 18: { // low amplitude around a base
    u32 a = 1 + r.below(6);
    for (size_t i = 0; i < b.size(); i++) b[i] = (u8)((c1[0] & 0x7f) + 40 + r.below(a));
    break;
  }
  case 20: { // every k-th pixel differs in kind: colours among grays, noise in a uniform image, ...
    u32 k = 2 + r.below(r.below(4) ? 7 : 70), o = r.below(k), kind = r.below(3), rare = r.below(3) ? 1 : 1 + r.below(9);
    u8 lv = (u8)r.next();
    for (size_t i = 0; i < px; i++) {
      u8 v = kind == 0 ? (u8)r.next() : kind == 1 ? (u8)(lv + (r.next() & 3)) : lv;
      for (u32 q = 0; q < ch; q++) b[i * ch + q] = q == 3 ? 255 : v;
      if (i % k == o && r.below(rare) == 0) {
        if (r.below(4)) setp(i, c2);
        else b[i * ch + r.below(ch > 3 ? 3 : ch)] = (u8)r.next();
      }
    }
    break;
  }
  case 19: { // one full row or column with another colour
    for (size_t i = 0; i < px; i++) setp(i, c1);
    if (r.below(2)) { u32 y = r.below(h); for (u32 x = 0; x < w; x++) setp((size_t)y * w + x, c2); }
    else { u32 x = r.below(w); for (u32 y = 0; y < h; y++) setp((size_t)y * w + x, c2); }
    break;
  }
  }
  if (ch == 4 && r.below(4) == 0) {
    u32 k = r.below(4);
    for (size_t i = 0; i < px; i++)
      b[i * 4 + 3] = k == 0 ? 0 : k == 1 ? 255 : k == 2 ? (r.below(2) ? 255 : 0) : (u8)r.next();
  }
  return m;
}

double gen_double(Src &s) {
  static const double sp[] = {0.0, -0.0, 1e-300, 4.9e-324, 1e-12, 1e-6, 0.1, 0.3, 0.5, 0.999999, 1.0, 1.000001, 1.5, 2.0, 2.5,
                              3.0, 3.14159, 7.7, 10, 16, 31.5, 64, 99.5, 100, 127.5, 255, 256, 511, 999, 999.999, 1000, 1000.0001,
                              1001, 65535, 65536, 1e6, 16777216, 2147483646, 2147483647, 2147483648.0, 1073741823.0, 1073741824.0,
                              4294967295.0, 4294967296.0, 1e10, 9.3e18, 1e100, 1e300, INFINITY, NAN};
  u32 m = s.below(10);
  double v;
  if (m < 5) v = sp[s.below(sizeof sp / sizeof *sp)];
  else if (m < 7) v = s.unit() * (double)(1 + s.below(1000));
  else if (m < 8) v = (double)pick_lit(s) + (double)s.range(-1, 1) * (s.chance(50) ? 1 : 0.5);
  else if (m < 9) v = pick_flit(s);
  else {
    u64 b = s.bytes(8);
    memcpy(&v, &b, 8);
  }
  if (s.chance(25)) v = -v;
  return v;
}

void gen_hex(Src &s, char *buf, bool any) {
  static const char *const sp[] = {"000000", "FFFFFF", "ff0000", "#00FF00", "#0000ff", "FEDCBA", "010203", "7f7f7f", "#808080"};
  static const char *const bad[] = {"", "#", "fff", "#fff", "12345", "1234567", "#12345", "#1234567", "gggggg", "0x1234", " 12345",
                                    "12345 ", "+12345", "-12345", "##12345", "##123456", "00000g", "g00000", "1234-5", "white",
                                    "#\xff\xff\xff\xff\xff\xff", "123456789012345678901234567890", "12 456", "0X12AB"};
  u32 m = s.below(10);
  if (any && m < 4) {
    strcpy(buf, bad[s.below(sizeof bad / sizeof *bad)]);
    return;
  }
  if (any && m == 4 && s.chance(60)) { // only digits, any number of them, perhaps after something
    static const char *const pre[] = {"", "", "", "#", "#", "0x", "##", " ", "0X", "rgb", "\t", "-", "+", "$"};
    strcpy(buf, pre[s.below(sizeof pre / sizeof *pre)]);
    u32 n = s.chance(85) ? s.below(13) : s.below(40);
    for (u32 i = 0; i < n; i++) strncat(buf, &"0123456789abcdefABCDEF"[s.below(22)], 1);
    if (s.chance(10)) strcat(buf, s.chance(50) ? " " : "\n");
    return;
  }
  if (any && m == 4) {
    u32 n = s.below(12);
    for (u32 i = 0; i < n; i++) buf[i] = (char)(1 + s.below(255));
    buf[n] = 0;
    return;
  }
  if (any && m == 5) { // one character of a right one changed
    snprintf(buf, 64, "%s%06x", s.chance(50) ? "#" : "", s.below(0x1000000));
    buf[s.below((u32)strlen(buf))] = (char)(1 + s.below(127));
    return;
  }
  if (m < 7) strcpy(buf, sp[s.below(sizeof sp / sizeof *sp)]);
  else if (m < 8 && !lit_new.empty()) snprintf(buf, 64, "%s%06X", s.chance(50) ? "#" : "", (u32)pick_lit(s) & 0xffffff);
  else {
    snprintf(buf, 64, s.chance(50) ? "%s%06X" : "%s%06x", s.chance(50) ? "#" : "", (u32)s.bytes(3) & 0xffffff);
    for (char *p = buf; *p; p++)
      if (s.chance(20) && *p >= 'a' && *p <= 'f') *p = (char)(*p - 32);
  }
}

// ---- EXIF files --------------------------------------------------------------
// expect: orientation the reader must return (0: any of 1..8 is acceptable);
static void p16(Bytes &f, u32 v, bool le) {
  if (le) { f.push_back((u8)v); f.push_back((u8)(v >> 8)); }
  else { f.push_back((u8)(v >> 8)); f.push_back((u8)v); }
}
static void p32(Bytes &f, u32 v, bool le) {
  if (le) for (int i = 0; i < 4; i++) f.push_back((u8)(v >> (8 * i)));
  else for (int i = 3; i >= 0; i--) f.push_back((u8)(v >> (8 * i)));
}
static void segment(Bytes &f, u8 code, const Bytes &body, Src &s) {
  u32 fill = s.chance(15) ? 1 + s.below(s.chance(20) ? 40 : 4) : 0;
  f.push_back(0xFF);
  while (fill--) f.push_back(0xFF);
  f.push_back(code);
  p16(f, (u32)body.size() + 2, false);
  f.insert(f.end(), body.begin(), body.end());
}
void gen_exif(Src &s, Bytes &f, int &expect, int &value_end) {
  f.clear();
  value_end = -1;
  expect = 1;
  u32 kind = s.below(20);
  if (kind == 0) { // no JPEG
    u32 n = s.below(64);
    for (u32 i = 0; i < n; i++) f.push_back((u8)s.bytes(1));
    if (n >= 2 && f[0] == 0xFF && f[1] == 0xD8) f[1] = 0xD7;
    return;
  }
  f.push_back(0xFF);
  f.push_back(0xD8);
  u32 before = s.below(4);
  for (u32 i = 0; i < before; i++) {
    static const u8 codes[] = {0xE0, 0xE2, 0xE3, 0xED, 0xEE, 0xEF, 0xDB, 0xC4, 0xFE, 0xE1, 0xC0, 0xDD, 0xC2, 0xE4};
    u8 c = codes[s.below(sizeof codes)];
    Bytes body;
    u32 n = s.chance(10) ? 0 : s.chance(10) ? (s.chance(30) ? 65533 : 32768 + s.below(32700)) : s.below(80);
    if (c == 0xE1) { // an APP1 block that is no EXIF block, at least as long as the signature
      const char *x = "http://ns.adobe.com/xap/1.0/";
      u32 k = s.below(3);
      if (k == 0) for (const char *q = x; ; q++) { body.push_back((u8)*q); if (!*q) break; }
      else if (k == 1) { const char *e = "Exif\0\1"; body.insert(body.end(), e, e + 6); }
      else { const char *e = "exif\0\0"; body.insert(body.end(), e, e + 6); }
      if (n > 60000) n = 60000;
    }
    Rng r(s.bytes(4));
    for (u32 j = 0; j < n; j++) {
      u8 v = (u8)r.next();
      body.push_back(v);
    }
    // decoy that looks like a marker or EXIF inside other segments
    if (n > 40 && s.chance(30)) {
      static const u8 decoy[] = {0xFF, 0xE1, 0, 34, 'E', 'x', 'i', 'f', 0, 0, 'M', 'M', 0, 42, 0, 0, 0, 8, 0, 1, 1, 0x12, 0, 3, 0, 0, 0, 1, 0, 5, 0, 0};
      memcpy(&body[body.size() - sizeof decoy], decoy, sizeof decoy);
    }
    segment(f, c, body, s);
  }
  if (kind == 1) { // JPEG without EXIF
    f.push_back(0xFF);
    f.push_back(s.chance(50) ? 0xDA : 0xD9);
    u32 n = s.below(40);
    for (u32 i = 0; i < n; i++) f.push_back((u8)s.bytes(1));
    return;
  }
  if (kind == 2) { // EXIF only after the end of the headers: not to be read
    f.push_back(0xFF);
    f.push_back(s.chance(50) ? 0xDA : 0xD9);
  }
  bool le = s.chance(50);
  Bytes t; // TIFF block
  t.push_back(le ? 'I' : 'M');
  t.push_back(le ? 'I' : 'M');
  u32 magic = 42;
  if (kind == 3) magic = s.chance(50) ? 43 : (u32)s.bytes(2);
  p16(t, magic, le);
  u32 gap = s.chance(60) ? 0 : s.below(s.chance(10) ? (s.chance(20) ? 60000 : 3000) : 30);
  p32(t, 8 + gap, le);
  { Rng r(s.bytes(4)); for (u32 i = 0; i < gap; i++) t.push_back((u8)r.next()); }
  u32 before_e = s.chance(5) ? s.below(s.chance(30) ? 4900 : 300) : s.below(8), after_e = s.below(5);
  if (gap > 6000) before_e %= 300;
  bool has = kind != 4;
  u32 val = s.chance(80) ? 1 + s.below(8) : (s.chance(30) ? 0 : s.chance(50) ? 9 + s.below(20) : (u32)s.bytes(2));
  if (kind == 5 && !lit_new.empty()) val = (u32)pick_lit(s) & 0xffff;
  p16(t, before_e + after_e + has, le);
  auto entry = [&](u32 tag, u32 ty, u32 cnt, u32 v) {
    p16(t, tag, le);
    p16(t, ty, le);
    p32(t, cnt, le);
    p32(t, v, le);
  };
  auto other = [&](bool low) {
    static const u32 lowt[] = {0x00FE, 0x0100, 0x0101, 0x010E, 0x010F, 0x0110, 0x0111, 0x1201, 0x0102};
    static const u32 hight[] = {0x0113, 0x011A, 0x011B, 0x0128, 0x0131, 0x0132, 0x0213, 0x8769, 0x8825, 0x1201, 0x0212};
    u32 tag = low ? lowt[s.below(9)] : hight[s.below(11)];
    // values that look like the orientation tag or like orientations
    u32 v = s.chance(30) ? 0x01120003 : s.chance(30) ? 0x00030112 : (u32)s.bytes(4);
    entry(tag, s.chance(20) ? 0x0112 : 1 + s.below(12), s.chance(20) ? 0x01120112 : 1 + s.below(20), v);
  };
  for (u32 i = 0; i < before_e; i++) other(true);
  if (has) {
    p16(t, 0x0112, le);
    p16(t, 3, le);
    p32(t, 1, le);
    p16(t, val, le);
    value_end = (int)t.size();
    p16(t, s.chance(70) ? 0 : (u32)s.bytes(2), le);
  }
  for (u32 i = 0; i < after_e; i++) other(false);
  p32(t, 0, le); // next IFD
  if (s.chance(20)) { // IFD1 with another orientation (of the thumbnail)
    p16(t, 1, le);
    entry(0x0112, 3, 1, le ? 1 + s.below(8) : (1 + s.below(8)) << 16);
    p32(t, 0, le);
  }
  expect = 1;
  if (has && kind > 3 && val >= 1 && val <= 8) expect = (int)val;
  if (kind == 3 && magic == 42 && has && val >= 1 && val <= 8) expect = (int)val;
  Bytes body;
  const char *sig = "Exif\0\0";
  body.insert(body.end(), sig, sig + 6);
  if (kind == 6) { // unknown byte order
    t[0] = 'X';
    expect = 1;
  }
  body.insert(body.end(), t.begin(), t.end());
  size_t seg = f.size();
  segment(f, 0xE1, body, s);
  size_t body_at = f.size() - body.size();
  (void)seg;
  if (value_end >= 0) value_end += (int)body_at + 6;
  u32 tail = s.below(30);
  f.push_back(0xFF);
  f.push_back(0xDA);
  for (u32 i = 0; i < tail; i++) f.push_back((u8)s.bytes(1));
  if (kind >= 16) { // corruption
    if (kind == 16) { // cut off
      size_t n = s.below((u32)f.size() + 1);
      f.resize(n);
      if (value_end < 0 || (size_t)value_end > n) expect = 1;
    } else if (kind == 17) {
      u32 k = 1 + s.below(4);
      while (k--) f[s.below((u32)f.size())] ^= (u8)(1 + s.below(255));
      expect = 0;
    } else if (kind == 18) {
      for (size_t i = s.below((u32)f.size()); i < f.size(); i++) f[i] = (u8)s.bytes(1);
      expect = 0;
    } else {
      size_t at = s.below((u32)f.size());
      f.insert(f.begin() + (long)at, (u8)s.bytes(1));
      expect = 0;
    }
  }
}
