// ---- C26: the case is handed to the Haskell driver, which calls the binding and reports what it returned.
extern "C" {
int hs_run(int op, int pointer_api); // Haskell: calls the binding, reports through the functions below
void hs_gc(void);                    // Haskell: full collection, runs the finalizers
void __real_free(void *);
}
static Call hs_call;
static Result hs_ref, hs_res;
static bool hs_raised, hs_ptr_api, hs_changed, hs_have;
static i64 hs_len_seen;
static u32 hs_off; // the vector handed over is a slice that starts here
static char hs_raised_msg[200];
static char hs_file[300];

// Results are freed by the bindings with free(): the monitor sees each of these calls. Freed blocks are poisoned and
// kept for a while, so that a second free or a use of the content is noticed.
enum { QN = 256 };
static void *q_ring[QN];
static u32 q_at;
static bool q_double;
static bool q_on;
extern "C" void __wrap_free(void *p) {
  if (!p) return;
  if (q_on) {
    for (u32 i = 0; i < QN; i++)
      if (q_ring[i] == p) { q_double = true; return; }
    if (vf_owned(p)) {
      memset(p, 0xDD, vf_size(p));
      vf_forget(p);
      void *old = q_ring[q_at % QN];
      q_ring[q_at++ % QN] = p;
      if (old) __real_free(old);
      return;
    }
  }
  __real_free(p);
}

extern "C" {
i64 hs_w(void) { return hs_call.w; }
i64 hs_h(void) { return hs_call.h; }
i64 hs_ch(void) { return hs_call.ch; }
i64 hs_q(int i) { return hs_call.q[i]; }
double hs_p(int i) { return hs_call.p[i]; }
const char *hs_s(int i) { return hs_call.s[i]; }
const char *hs_path(void) { return hs_file; }
i64 hs_npts(void) { return (i64)hs_call.pts.size(); }
double hs_pt(int i, int k) { return k ? hs_call.pts[(size_t)i].y : hs_call.pts[(size_t)i].x; }
const u8 *hs_data(void) { return hs_call.in.data(); }
i64 hs_len(void) { return (i64)hs_call.in.size(); }
i64 hs_offset(void) { return hs_off; }
i64 hs_reflen(void) { return (i64)hs_ref.out.size(); }
void hs_value(double v) { hs_res.v.push_back(v); }
void hs_size(i64 w, i64 h) { hs_res.ow = w, hs_res.oh = h; }
void hs_bytes(const u8 *p, i64 n) {
  hs_have = true;
  hs_len_seen = n;
  // not more than the library computed: what lies behind is foreign memory
  i64 k = n < (i64)hs_ref.out.size() ? n : (i64)hs_ref.out.size();
  hs_res.out.assign(p, p + (k > 0 ? k : 0));
}
void hs_input(const u8 *p, i64 n) { hs_changed = n != (i64)hs_call.in.size() || (n && memcmp(p, hs_call.in.data(), (size_t)n)); }
void hs_around(const u8 *p, i64 n) { // what surrounds the slice
  for (i64 i = 0; i < n; i++)
    if ((i < hs_off || i >= (i64)hs_off + (i64)hs_call.in.size()) && p[i] != 0x5A) hs_changed = true;
}
void hs_error(const char *m) {
  hs_raised = true;
  snprintf(hs_raised_msg, sizeof hs_raised_msg, "%s", m);
}
}

static bool sized(int op) { return op == RESIZE || op == BORDER || op == EXTRACTA || op == HIST || op == TRIM || op == TRIMT; }

static bool case_c26(Src &s, u64 idx) {
  static const int ops[] = {GRAY, STRETCH, GTHRESH, OTSU, BLUR, BWSMART, RESIZE, TOBIN, CROP, CIRCLE, DISK, BORDER, EXIF, EXTRACT, EXTRACTA, FLIPX, FLIPY, TRANSPOSE,
                            TRANSVERSE, FOERSTNER, HIST, HEX, PERSP, APPLY, DETECTP, RGBA2GRAY, ROT90, ROT180, ROT270, S2M, SOBEL, TRIM, TRIMT, WATERSHED, DILATE, ERODE, CLOSE, OPEN};
  static const int ptr[] = {GRAY, STRETCH, RGBA2GRAY, S2M, BLUR, OTSU, BWSMART, PERSP, APPLY, DETECTP, FLIPX, FLIPY, TRANSPOSE, ROT90, ROT180, ROT270};
  int nops = (int)(sizeof ops / sizeof *ops), nptr = (int)(sizeof ptr / sizeof *ptr), k = (int)(idx % (u64)(nops + nptr));
  int op = k < nops ? ops[k] : ptr[k - nops];
  hs_ptr_api = k >= nops;
  if (is_det(op) && !s.chance(15)) op = WATERSHED, hs_ptr_api = false;
  Call &c = hs_call;
  gen_call(op, s, c, s.chance(15), s.chance(90) ? 300 : 3000);
  set_desc(c);
  if (c.nulls) c.nulls = 0;
  if (!op_inplace(op) && op != EXIF && op != HEX && op != PERSP && (c.w < 1 || c.h < 1 || c.w > 1000000 || c.h > 1000000)) return true;
  hs_off = s.below(9);
  mon.fill = 0x77;
  mon.reset();
  exec_call(c, hs_ref);
  snprintf(hs_file, sizeof hs_file, "%s/exif.%d.%d.jpg", g_scratch, (int)getpid(), vf_tid);
  // the lengths the bindings have (known finding) where they differ from what the library computes
  i64 want = (i64)hs_ref.out.size(), known = want;
  if (!hs_ptr_api) {
    if (op == SOBEL) known = c.w * c.h * c.ch;
    if (op == DILATE || op == ERODE || op == CLOSE || op == OPEN || op == TOBIN) known = c.w * c.h * 4;
  }
  if (known > 4000000000ll || want > 4000000000ll) return true;
  hs_res = Result();
  hs_raised = hs_changed = hs_have = q_double = false;
  hs_len_seen = -1;
  hs_gc();
  u64 live = mon.live, files = mon.files;
  mon.reset();
  q_on = true;
  hs_run(op, hs_ptr_api ? 1 : 0);
  hs_gc();
  hs_gc();
  q_on = false;
  note(c, hs_ref);
  st.evals++;
  const char *api = hs_ptr_api ? "pointer binding" : "binding";
  if (hs_raised && !hs_ref.null) return fail("the %s fails (%s), the library does not", api, hs_raised_msg);
  if (!hs_raised && hs_ref.null) return fail("the %s returns a result for a call that the library refuses", api);
  if (q_double) return fail("the %s frees a result of the library twice", api);
  if (mon.live != live) return fail("%lld result(s) of the library not freed after the %s's result is gone", (long long)(mon.live - live), api);
  if (mon.files != files) return fail("a file is left open");
  if (hs_changed) return fail("the %s modifies the caller's vector", api);
  if (hs_raised) return st.extra[7]++, true;
  if (sized(op) && (hs_res.ow != hs_ref.ow || hs_res.oh != hs_ref.oh)) return fail("the %s returns the size %lldx%lld, the library %lldx%lld", api, (long long)hs_res.ow, (long long)hs_res.oh, (long long)hs_ref.ow, (long long)hs_ref.oh);
  if (want || hs_have) {
    if (!hs_have) return fail("the %s returns no pixels", api);
    if (hs_len_seen != want) {
      if (hs_len_seen == known) st.known[2]++;
      else return fail("the %s returns %lld bytes, the library computed %lld", api, (long long)hs_len_seen, (long long)want);
    }
    for (size_t i = 0; i < hs_ref.out.size(); i++)
      if (i >= hs_res.out.size() || hs_res.out[i] != hs_ref.out[i]) return fail("byte %zu of the %s's result is %d, of the library's %d", i, api, i < hs_res.out.size() ? hs_res.out[i] : -1, hs_ref.out[i]);
  }
  if (hs_res.v.size() != hs_ref.v.size()) return fail("%zu values from the %s, %zu from the library", hs_res.v.size(), api, hs_ref.v.size());
  for (size_t i = 0; i < hs_ref.v.size(); i++)
    if (memcmp(&hs_res.v[i], &hs_ref.v[i], 8) && !(std::isnan(hs_res.v[i]) && std::isnan(hs_ref.v[i]))) return fail("value %zu is %.17g from the %s, %.17g from the library", i, hs_res.v[i], api, hs_ref.v[i]);
  return true;
}
