/* Helpers for the Python side: PNG unfiltering of our own, and decoding through the repository's decoder. */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#define STB_IMAGE_IMPLEMENTATION
#define STB_IMAGE_STATIC
#include "stb_image.h"

static int paeth(int a, int b, int c) {
  int p = a + b - c, pa = abs(p - a), pb = abs(p - b), pc = abs(p - c);
  return pa <= pb && pa <= pc ? a : pb <= pc ? b : c;
}

/* Undoes the filters of PNG scanlines in place order: in has rows of 1 + stride bytes. Returns 0 if a filter is unknown. */
int ref_unfilter(const uint8_t *in, long rows, long stride, int bpp, uint8_t *out) {
  for (long y = 0; y < rows; y++) {
    int f = in[y * (stride + 1)];
    const uint8_t *s = in + y * (stride + 1) + 1;
    uint8_t *d = out + y * stride, *u = y ? d - stride : 0;
    if (f > 4) return 0;
    for (long x = 0; x < stride; x++) {
      int a = x >= bpp ? d[x - bpp] : 0, b = u ? u[x] : 0, c = u && x >= bpp ? u[x - bpp] : 0;
      int add = f == 0 ? 0 : f == 1 ? a : f == 2 ? b : f == 3 ? (a + b) / 2 : paeth(a, b, c);
      d[x] = (uint8_t)(s[x] + add);
    }
  }
  return 1;
}

/* Applies filter types (one per row) to raw rows. */
void ref_filter(const uint8_t *in, long rows, long stride, int bpp, const uint8_t *types, uint8_t *out) {
  for (long y = 0; y < rows; y++) {
    int f = types[y];
    const uint8_t *s = in + y * stride, *u = y ? s - stride : 0;
    uint8_t *d = out + y * (stride + 1);
    *d++ = (uint8_t)f;
    for (long x = 0; x < stride; x++) {
      int a = x >= bpp ? s[x - bpp] : 0, b = u ? u[x] : 0, c = u && x >= bpp ? u[x - bpp] : 0;
      int sub = f == 0 ? 0 : f == 1 ? a : f == 2 ? b : f == 3 ? (a + b) / 2 : paeth(a, b, c);
      d[x] = (uint8_t)(s[x] - sub);
    }
  }
}

uint8_t *ref_decode(const uint8_t *data, int len, int *w, int *h) {
  int c;
  return stbi_load_from_memory(data, len, w, h, &c, 4);
}
void ref_free(void *p) { free(p); }
