/* shared by the replay drivers: values, reporting */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <float.h>
#include <stdarg.h>
#include <sundials/sundials_types.h>
#include <sundials/sundials_math.h>
#include <sundials/sundials_context.h>
#include <sundials/sundials_nvector.h>
#include <nvector/nvector_serial.h>
#include "mined.h"
static long execs = 0, fails = 0;
static unsigned long long rs = 88172645463325252ULL;
static unsigned rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (unsigned)(rs >> 11); }
static void fail(const char *f, ...) {
  va_list ap; fails++;
  if (fails > 40) return;
  va_start(ap, f); printf("FAIL "); vprintf(f, ap); printf("\n"); va_end(ap); fflush(stdout);
}
static double pool[4096]; static int npool = 0;
static void addp(double x) { if (npool < 4000 && isfinite(x)) pool[npool++] = x; }
static void mkpool(void) {
  double b[] = {0, 1, -1, 2, -2, 0.5, -0.5, 3, -3, 0.25, 1.5, -1.5, 7, 1e-3, -1e-3};
  int i;
  for (i = 0; i < (int)(sizeof b / sizeof *b); i++) addp(b[i]);
  for (i = 0; i < NMINED; i++) { double x = mined[i]; if (fabs(x) < 1e100 && (x == 0 || fabs(x) > 1e-100)) { addp(x); addp(-x); addp(x * 1.25); addp(-x * 0.75); } }
}
static double val(void) { return pool[rnd() % npool]; }
static double small(void) { return ((int)(rnd() % 33) - 16) / 4.0; }
static double anyv(void) { unsigned r = rnd() % 8; return r == 0 ? 0.0 : r == 1 ? val() : small(); }
static int lens[256], nlen = 0;
static void mklens(void) {
  int i, j;
  for (i = 0; i <= 6; i++) lens[nlen++] = i;
  lens[nlen++] = 11; lens[nlen++] = 17;
  for (i = 0; i < NMINED; i++) for (j = -1; j <= 1; j++) { double x = mined[i] + j; if (x == floor(x) && x > 6 && x <= 130 && nlen < 200) { int k, d = 0; for (k = 0; k < nlen; k++) d |= lens[k] == (int)x; if (!d) lens[nlen++] = (int)x; } }
}
static int close_(double a, double b) {
  if (isnan(a) && isnan(b)) return 1;
  if (isinf(a) || isinf(b)) return a == b || (isinf(a) && isinf(b));
  if (isnan(a) || isnan(b)) return 0;
  return fabs(a - b) <= 1e-9 * fmax(1e-3 * 0 + fmax(fabs(a), fabs(b)), 1e-300) + 0;
}
/* for results of cancelling sums: scale is the sum of the magnitudes of the terms */
static int closes(double a, double b, double scale) {
  if (isnan(a) || isnan(b) || isinf(a) || isinf(b)) return close_(a, b);
  return fabs(a - b) <= 1e-9 * fmax(fabs(b), scale) + 1e-300;
}
static SUNContext ctx;
static void begin(int argc, char **argv) {
  if (argc > 1) rs ^= strtoull(argv[1], 0, 10) * 0x9E3779B97F4A7C15ULL;
  mkpool(); mklens();
  SUNContext_Create(NULL, &ctx);
}
static int finish(void) { printf("EXEC %ld FAILS %ld\n", execs, fails); fflush(stdout); return 0; }
/* vectors with guard words on both sides of the data */
#define GUARD 1234567.25
typedef struct { N_Vector v; double *raw, *old; int n; } GV;
static GV gv(int n) {
  GV g; int i; g.n = n; g.raw = malloc((n + 4) * sizeof(double)); g.old = malloc((n + 4) * sizeof(double));
  for (i = 0; i < n + 4; i++) g.raw[i] = GUARD + i;
  for (i = 0; i < n; i++) g.raw[2 + i] = anyv();
  g.v = N_VMake_Serial(n, g.raw + 2, ctx);
  return g;
}
static void snap(GV *g) { memcpy(g->old, g->raw, (g->n + 4) * sizeof(double)); }
static int guards(GV *g) { int n = g->n; return g->raw[0] == GUARD && g->raw[1] == GUARD + 1 && g->raw[n + 2] == GUARD + n + 2 && g->raw[n + 3] == GUARD + n + 3; }
static int unchanged(GV *g) { return memcmp(g->old, g->raw, (g->n + 4) * sizeof(double)) == 0 && NV_LENGTH_S(g->v) == g->n && (g->n == 0 || NV_DATA_S(g->v) == g->raw + 2); }
static void gfree(GV *g) { N_VDestroy(g->v); free(g->raw); free(g->old); }
