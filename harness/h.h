// Common definitions of the FlatCV runtime-verification harness.
#pragma once
#include <math.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <vector>

// global names that must not collide with those of the library under test
#define mon vf_g_mon
#define st vf_g_st
#define op_names vf_op_names
#define g_msg vf_g_msg
#define g_track vf_g_track
#define lit_new vf_lit_new
#define lit_all vf_lit_all
#define flit_new vf_flit_new
#define flit_all vf_flit_all
#define g_thorough vf_g_thorough
#define g_big vf_g_big
#define g_scratch vf_g_scratch

typedef uint8_t u8;
typedef uint16_t u16;
typedef uint32_t u32;
typedef uint64_t u64;
typedef int32_t i32;
typedef int64_t i64;
typedef std::vector<u8> Bytes;

// ---- the public interface under test (prototypes only; no repo header is
// included so that the harness objects can be built once) -------------------
extern "C" {
typedef struct { double x, y; } Point2D;
typedef struct { double tl_x, tl_y, tr_x, tr_y, br_x, br_y, bl_x, bl_y; } Corners;
typedef struct { double m[9]; } Matrix3x3;
typedef struct { Point2D *points; u32 count; } CornerPeaks;
u8 *fcv_binary_dilation_disk(u8 const *, i32, i32, i32);
u8 *fcv_binary_erosion_disk(u8 const *, i32, i32, i32);
u8 *fcv_binary_closing_disk(u8 const *, i32, i32, i32);
u8 *fcv_binary_opening_disk(u8 const *, i32, i32, i32);
u8 *fcv_apply_gaussian_blur(u32, u32, double, u8 const *);
u8 *fcv_grayscale(u32, u32, u8 const *);
u8 *fcv_grayscale_stretch(u32, u32, u8 const *);
void fcv_apply_global_threshold(u32, u8 *, u8);
u8 *fcv_otsu_threshold_rgba(u32, u32, bool, u8 const *);
u8 *fcv_bw_smart(u32, u32, bool, u8 const *);
u8 *fcv_resize(u32, u32, double, double, u32 *, u32 *, u8 const *);
u8 *fcv_convert_to_binary(u8 const *, i32, i32, const char *, const char *);
CornerPeaks *fcv_corner_peaks(u32, u32, u8 const *, u32, double, double);
u8 *fcv_crop(u32, u32, u32, u8 const *, u32, u32, u32, u32);
void fcv_set_circle_pixel(u8 *, u32, u32, u32, i32, i32, u8, u8, u8) __attribute__((weak));
void fcv_draw_circle(u32, u32, u32, const char *, double, double, double, u8 *);
void fcv_draw_disk(u32, u32, u32, const char *, double, double, double, u8 *);
void fcv_draw_circle_points(u8 *, u32, u32, u32, i32, i32, i32, i32, u8, u8, u8) __attribute__((weak));
void fcv_fill_disk_lines(u8 *, u32, u32, u32, i32, i32, i32, i32, u8, u8, u8) __attribute__((weak));
u8 *fcv_add_border(u32, u32, u32, const char *, u32, u8 *, u32 *, u32 *);
i32 fcv_get_exif_orientation(char const *);
u8 *fcv_extract_document(u32, u32, u8 const *, u32, u32);
u8 *fcv_extract_document_auto(u32, u32, u8 const *, u32 *, u32 *);
u8 *fcv_flip_x(u32, u32, u8 const *);
u8 *fcv_flip_y(u32, u32, u8 const *);
u8 *fcv_transpose(u32, u32, u8 const *);
u8 *fcv_transverse(u32, u32, u8 const *);
u8 *fcv_foerstner_corner(u32, u32, u8 const *, double);
u8 *fcv_generate_histogram(u32, u32, u32, u8 const *, u32 *, u32 *);
void fcv_parse_hex_color(const char *, u8 *, u8 *, u8 *);
Matrix3x3 *fcv_calculate_perspective_transform(Corners *, Corners *);
u8 *fcv_apply_matrix_3x3(i32, i32, u8 *, i32, i32, Matrix3x3 *);
Corners fcv_detect_corners(const u8 *, i32, i32);
Corners *fcv_detect_corners_ptr(const u8 *, i32, i32);
u8 *fcv_rgba_to_grayscale(u32, u32, u8 const *);
u8 *fcv_rotate_90_cw(u32, u32, u8 const *);
u8 *fcv_rotate_180(u32, u32, u8 const *);
u8 *fcv_rotate_270_cw(u32, u32, u8 const *);
u8 *fcv_single_to_multichannel(u32, u32, u8 const *);
u8 *fcv_sobel_edge_detection(u32, u32, u32, u8 const *);
Corners sort_corners(u32, u32, u32, u32, Point2D *, u32, Point2D *);
u8 *fcv_trim(i32 *, i32 *, u32, u8 const *);
u8 *fcv_trim_threshold(i32 *, i32 *, u32, u8 const *, double);
u8 *fcv_watershed_segmentation(u32, u32, u8 const *, Point2D *, u32, bool);
}

// ---- random / fuzz data source ---------------------------------------------
static inline u64 mix64(u64 x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
struct Rng {
  u64 s;
  explicit Rng(u64 seed = 1) : s(mix64(seed)) {}
  u64 next() { return mix64(s += 0x632be59bd9b4e019ull); }
  u32 below(u32 n) { return n ? (u32)((next() >> 32) * n >> 32) : 0; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};
struct Src {
  const u8 *d = nullptr;
  size_t n = 0, pos = 0;
  Rng r;
  bool fuzz = false;
  u64 bytes(int k) {
    u64 v = 0;
    if (fuzz && pos + (size_t)k <= n) {
      memcpy(&v, d + pos, (size_t)k);
      pos += (size_t)k;
    } else {
      pos = n;
      v = r.next();
      if (k < 8) v &= (1ull << (8 * k)) - 1;
    }
    return v;
  }
  u32 below(u32 m) { // m values
    if (m <= 1) return 0;
    if (m <= 256) return (u32)(bytes(1) % m);
    if (m <= 65536) return (u32)(bytes(2) % m);
    return (u32)(bytes(4) % m);
  }
  i64 range(i64 a, i64 b) { return a + (i64)below((u32)(b - a + 1)); }
  bool chance(int pct) { return (int)below(100) < pct; }
  double unit() { return (double)(bytes(4)) / 4294967296.0; }
};

// ---- allocation / file monitor (rt.cc) --------------------------------------
// Every allocation call of the library objects is redirected to vf_*.
struct Mon {
  u64 allocs = 0;      // allocations requested since reset
  u64 live = 0;        // live blocks
  u64 live_bytes = 0;
  u64 files = 0;       // open FILE handles
  u64 fail_at = 0;     // 1-based index of the allocation to fail (0: none)
  bool fail_rest = false; // also fail all later ones
  u64 failed = 0;      // number of injected failures
  u64 refused = 0;     // requests above the limit
  u64 limit = 400ull << 20; // requests above are refused
  int fill = -1;       // fill pattern of new memory (-1: none, 256: random)
  bool noreserve = false;  // large blocks as lazily committed mappings
  bool bad_free = false;
  char bad[128] = "";
  void reset(void) { allocs = 0; fail_at = 0; fail_rest = false; failed = 0; refused = 0; }
};
extern Mon mon;
extern "C" void *vf_malloc(size_t);
extern "C" void vf_free(void *);
bool vf_owned(void *p); // live block base?
void vf_forget(void *p);
size_t vf_size(void *p);
void stack_fill(int pattern);
extern bool g_track; // tracking active (single-threaded drivers)

// ---- verdicts ---------------------------------------------------------------
extern char g_msg[4096];
bool fail(const char *fmt, ...) __attribute__((format(printf, 1, 2))); // returns false
struct Stats {
  u64 cases = 0, evals = 0, nontrivial = 0, inconclusive = 0;
  u64 per[64] = {0};     // per operation
  u64 okc[64] = {0};     // returned a result
  u64 known[8] = {0};
  u64 extra[16] = {0};
};
extern Stats st;

// ---- operations -------------------------------------------------------------
enum OpId {
  GRAY, STRETCH, GTHRESH, OTSU, BLUR, BWSMART, RESIZE, TOBIN, PEAKS, CROP, CIRCLE,
  DISK, BORDER, EXIF, EXTRACT, EXTRACTA, FLIPX, FLIPY, TRANSPOSE, TRANSVERSE, FOERSTNER,
  HIST, HEX, PERSP, APPLY, DETECT, DETECTP, RGBA2GRAY, ROT90, ROT180, ROT270, S2M, SOBEL,
  SORT, TRIM, TRIMT, WATERSHED, DILATE, ERODE, CLOSE, OPEN, SETPX, CIRCPTS, DISKLINES, NOPS
};
extern const char *op_names[NOPS];

// pointer arguments that are passed as NULL
enum { N_DATA = 1, N_OW = 2, N_OH = 4, N_S0 = 8, N_S1 = 16, N_PTS = 32, N_MAT = 64, N_C2 = 128 };

struct Call {
  int op = 0;
  i64 w = 1, h = 1;   // as passed (may be out of range on purpose)
  u32 ch = 4;
  double p[20] = {0}; // double parameters
  i64 q[8] = {0};     // integer parameters
  char s[2][64] = {"", ""};
  Bytes in;           // input bytes, exactly the documented size
  std::vector<Point2D> pts;
  u32 nulls = 0;
  int content = -1;
};
struct Result {
  bool null = true;
  i64 ow = 0, oh = 0;
  u32 och = 4;
  Bytes out;              // result pixels or canonical bytes of other results
  std::vector<double> v;  // numeric results
  bool inplace_changed = false;
  bool args_changed = false; // non-pixel arguments (markers, matrices, ...) modified
  bool input_changed = false;
  bool same(const Result &o) const;
};
struct ExecOpt {
  bool ro = false;      // input pixels in read-only pages with a guard page
  u8 *reuse = nullptr;  // use this buffer for the input pixels
  u8 *shared = nullptr; // input pixels are already there (shared between threads)
};
bool op_inplace(int op);
// chooses arguments; any = arbitrary parameters, otherwise the documented domain
void gen_call(int op, Src &s, Call &c, bool any, u64 area);
void exec_call(const Call &c, Result &r, const ExecOpt &o = ExecOpt());
void exec_call2(const Call &c, Result &r, const ExecOpt &o) __attribute__((weak)); // the same with the amalgamation (C25)
void describe(const Call &c, char *buf, size_t n);
u64 digest(const Call &c, const Result &r);
u64 call_hash(const Call &c);

// generators
extern std::vector<i64> lit_new, lit_all;
extern std::vector<double> flit_new, flit_all;
void gen_dims(Src &s, u64 area, i64 &w, i64 &h);
int gen_content(Src &s, Bytes &b, u32 w, u32 h, u32 ch, int mode = -1);
double gen_double(Src &s);
void gen_hex(Src &s, char *buf, bool any);
void gen_exif(Src &s, Bytes &f, int &expect, int &alt);

// oracles: true if the result is right; fail() sets the message
bool oracle(const Call &c, const Result &r, Src &s);
bool expect_refused(const Call &c);

// drivers (one case each): return false on violation
bool run_case(int prop, Src &s, u64 idx);
extern thread_local int vf_tid;
extern bool g_thorough, g_big;
extern char g_scratch[256];
void init_harness();
