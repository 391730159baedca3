/* libFuzzer target: the command line's main() in process. Input: number of arguments, their lengths and bytes, then the file. */
#define _GNU_SOURCE
#include <ctype.h>
#include <fcntl.h>
#include <setjmp.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

int cli_main(int argc, char **argv);
static jmp_buf back;
static int code;
void vf_exit(int c) { code = c; longjmp(back, 1); }

static char in[4][256], out[256];

int LLVMFuzzerInitialize(int *argc, char ***argv) {
  (void)argc; (void)argv;
  const char *d = getenv("VF_SCRATCH"), *ext[] = {"png", "jpg", "JPEG", "img"};
  for (int i = 0; i < 4; i++) snprintf(in[i], 256, "%s/in.%s", d ? d : "/tmp", ext[i]);
  snprintf(out, 256, "%s/", d ? d : "/tmp");
  if (chdir(d ? d : "/tmp")) {}
  int n = open("/dev/null", O_WRONLY);
  dup2(n, 1);
  return 0;
}

/* Long numbers are explored elsewhere: some operations take time in proportion to them. */
static int costly(const char *s) {
  int run = 0;
  for (; *s; s++) {
    if (isdigit((unsigned char)*s)) { if (++run > 3) return 1; }
    else run = 0;
    if ((*s == 'e' || *s == 'E' || *s == 'p' || *s == 'P') && (isdigit((unsigned char)s[1]) || s[1] == '+' || s[1] == '-')) return 1;
    if (*s == '0' && (s[1] == 'x' || s[1] == 'X') && isxdigit((unsigned char)s[2]) && isxdigit((unsigned char)s[3])) return 1;
  }
  return 0;
}

int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n) {
  if (n < 3) return 0;
  unsigned ctl = d[0], na = d[1] % 5;
  d += 2, n -= 2;
  char *av[8];
  int ac = 0;
  av[ac++] = strdup("flatcv");
  av[ac++] = strdup(in[ctl & 3]);
  int ok = 1, had = 0;
  for (unsigned i = 0; i < na && ok; i++) {
    if (n < 1) break;
    size_t l = d[0];
    d++, n--;
    if (l > n) l = n;
    char *s = malloc(l + 1);
    memcpy(s, d, l);
    s[l] = 0;
    d += l, n -= l;
    av[ac++] = s;
    had = 1;
    ok = !costly(s);
  }
  if (ctl & 4 || !had) {}
  else {
    static const char *names[] = {"o.png", "o.jpg", "o", "o.JPG"};
    char p[300];
    snprintf(p, sizeof p, "%s%s", out, names[ctl >> 3 & 3]);
    av[ac++] = strdup(p);
  }
  /* a result may only be written below the scratch directory */
  if (ac > 3 && (ctl & 4) && (strchr(av[ac - 1], '/') || !strcmp(av[ac - 1], ".."))) ok = 0;
  av[ac] = 0;
  if (ok) {
    int f = open(in[ctl & 3], O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (f >= 0) {
      if (write(f, d, n) < 0) {}
      close(f);
    }
    char *keep[8];
    memcpy(keep, av, sizeof av);
    if (!setjmp(back)) code = cli_main(ac, av);
    if (code != 0 && code != 1) abort();
    memcpy(av, keep, sizeof av);
  }
  for (int i = 0; i < ac; i++) free(av[i]);
  if (ctl & 4 && ok && ac > 3) {}
  return 0;
}
