/* replay search for C25: dense direct solvers */
#include "common.h"
#include <sunmatrix/sunmatrix_dense.h>
#include <sunlinsol/sunlinsol_dense.h>
#include <sundials/sundials_dense.h>
static double **mk(int m, int n) { double **a = malloc((n ? n : 1) * sizeof *a); int j; for (j = 0; j < n; j++) a[j] = malloc(m * sizeof(double)); return a; }
static void rm(double **a, int n) { int j; for (j = 0; j < n; j++) free(a[j]); free(a); }
static void fill(double **a, int m, int n, int kind) {
  int i, j; for (j = 0; j < n; j++) for (i = 0; i < m; i++) a[j][i] = kind == 1 ? (rnd() % 3 ? 0 : small()) : kind == 2 ? (i == j ? 0.0 : small()) : small();
}
static double det(double **a, int n) { /* by fraction-free expansion on a copy with full pivoting */
  double **c = mk(n, n), d = 1; int i, j, k; for (j = 0; j < n; j++) memcpy(c[j], a[j], n * sizeof(double));
  for (k = 0; k < n; k++) { int pi = k, pj = k; for (j = k; j < n; j++) for (i = k; i < n; i++) if (fabs(c[j][i]) > fabs(c[pj][pi])) pi = i, pj = j;
    if (fabs(c[pj][pi]) < 1e-9) { d = 0; break; }
    { double *t = c[k]; c[k] = c[pj]; c[pj] = t; } for (j = 0; j < n; j++) { double t = c[j][k]; c[j][k] = c[j][pi]; c[j][pi] = t; }
    d *= fabs(c[k][k]); for (j = k + 1; j < n; j++) for (i = k + 1; i < n; i++) c[j][i] -= c[k][i] * c[j][k] / c[k][k]; }
  rm(c, n); return d;
}
static void lu(int m, int n, int kind) {
  double **a = mk(m, n), **o = mk(m, n); sunindextype p[64], r; int perm[64], i, j, t; double mx = 0;
  fill(a, m, n, kind); for (j = 0; j < n; j++) memcpy(o[j], a[j], m * sizeof(double));
  for (i = 0; i < 64; i++) p[i] = -77;
  r = SUNDlsMat_denseGETRF(a, m, n, p); execs++;
  for (j = 0; j < n; j++) for (i = 0; i < m; i++) mx = fmax(mx, fabs(a[j][i]));
  for (i = n; i < 64; i++) if (p[i] != -77) { fail("denseGETRF %dx%d writes pivot %d", m, n, i); break; }
  if (r == 0) {
    for (i = 0; i < m; i++) perm[i] = i;
    for (t = 0; t < n; t++) { int l = p[t], q; if (l < t || l >= m) { fail("denseGETRF %dx%d: pivot %d is %d", m, n, t, l); goto end; } q = perm[t]; perm[t] = perm[l]; perm[l] = q; }
    for (i = 0; i < m; i++) for (j = 0; j < n; j++) {
      double s = 0, sc = 1; for (t = 0; t <= (i < j ? i : j); t++) { double l = t < i ? a[t][i] : 1; s += l * a[j][t]; sc += fabs(l * a[j][t]); }
      if (!(fabs(s - o[j][perm[i]]) <= 1e-9 * sc)) { fail("denseGETRF %dx%d: (LU)[%d][%d] = %.12g but (PA) = %.12g", m, n, i, j, s, o[j][perm[i]]); goto end; } }
    for (j = 0; j < n; j++) for (i = j + 1; i < m; i++) if (!(fabs(a[j][i]) <= 1 + 1e-12)) { fail("denseGETRF %dx%d: multiplier (%d,%d) is %g", m, n, i, j, a[j][i]); goto end; }
    for (t = 0; t < n; t++) if (a[t][t] == 0) { fail("denseGETRF %dx%d reports success with a zero pivot", m, n); goto end; }
    if (m == n) { double b[64], x[64]; for (i = 0; i < n; i++) x[i] = b[i] = small();
      SUNDlsMat_denseGETRS(a, n, p, x); execs++;
      for (i = 0; i < n; i++) { double s = 0, sc = 1; for (j = 0; j < n; j++) s += o[j][i] * x[j], sc += fabs(o[j][i] * x[j]); if (!(fabs(s - b[i]) <= 1e-7 * sc) && sc < 1e6) { fail("denseGETRS n=%d: residual of row %d is %g", n, i, s - b[i]); goto end; } } }
  } else {
    int ok = r >= 1 && r <= n;
    /* the first r columns must be dependent after elimination: the reduced column is zero on and below the diagonal */
    if (ok) for (i = r - 1; i < m; i++) if (fabs(a[r - 1][i]) > 1e-12) ok = 0;
    if (!ok) fail("denseGETRF %dx%d returns %ld although column has a nonzero pivot", m, n, (long)r);
  }
end: rm(a, n); rm(o, n);
}
static void chol(int n, int kind) {
  double **g = mk(n, n), **a = mk(n, n), **o = mk(n, n); int i, j, t, r; fill(g, n, n, kind);
  for (i = 0; i < n; i++) for (j = 0; j < n; j++) { a[j][i] = 0; for (t = 0; t < n; t++) a[j][i] += g[t][i] * g[t][j]; if (i == j) a[j][i] += kind == 1 ? (int)(rnd() % 5) - 3 : 0.5; }
  for (i = 0; i < n; i++) for (j = i + 1; j < n; j++) a[j][i] = GUARD;
  for (j = 0; j < n; j++) memcpy(o[j], a[j], n * sizeof(double));
  r = SUNDlsMat_densePOTRF(a, n); execs++;
  for (j = 0; j < (r ? r - 1 : n); j++) for (i = j; i < n; i++) { double s = 0, sc = 1; for (t = 0; t <= j; t++) s += a[t][i] * a[t][j], sc += fabs(a[t][i] * a[t][j]); if (!(fabs(s - o[j][i]) <= 1e-9 * sc) || !(a[j][j] > 0)) { fail("densePOTRF n=%d: (CC^T)[%d][%d] = %.12g, should be %.12g", n, i, j, s, o[j][i]); goto end; } }
  for (i = 0; i < n; i++) for (j = i + 1; j < n; j++) if (a[j][i] != GUARD) { fail("densePOTRF n=%d touches the upper triangle", n); goto end; }
  if (r) { double s = o[r - 1][r - 1], sc = fabs(s); for (t = 0; t < r - 1; t++) s -= a[t][r - 1] * a[t][r - 1], sc += a[t][r - 1] * a[t][r - 1]; if (s > 1e-9 * sc) fail("densePOTRF n=%d reports step %d although its pivot is %g", n, r, s); }
  else { double b[64], x[64]; for (i = 0; i < n; i++) x[i] = b[i] = small(); SUNDlsMat_densePOTRS(a, n, x); execs++;
    for (i = 0; i < n; i++) { double s = 0, sc = 1; for (j = 0; j < n; j++) { double e = i >= j ? o[j][i] : o[i][j]; s += e * x[j]; sc += fabs(e * x[j]); } if (!(fabs(s - b[i]) <= 1e-7 * sc) && sc < 1e6) { fail("densePOTRS n=%d: residual of row %d is %g", n, i, s - b[i]); goto end; } } }
end: rm(g, n); rm(a, n); rm(o, n);
}
static void qr(int m, int n, int kind) {
  double **a = mk(m, n), **o = mk(m, n), beta[64], w[64], vn[64], vm[64], x[64]; int i, j, c, t; fill(a, m, n, kind);
  if (rnd() % 4 == 0) for (j = 0; j < n; j++) for (i = j + 1; i < m; i++) if (rnd() % 2) a[j][i] = 0;
  for (j = 0; j < n; j++) memcpy(o[j], a[j], m * sizeof(double));
  SUNDlsMat_denseGEQRF(a, m, n, beta, w); execs++;
  for (j = 0; j < n; j++) { double vv = 1; for (i = j + 1; i < m; i++) vv += a[j][i] * a[j][i]; if (!(fabs(beta[j] * (2 - beta[j] * vv)) <= 1e-9)) { fail("denseGEQRF %dx%d: reflector %d is not orthogonal", m, n, j); goto end; } }
  for (c = 0; c < n; c++) { for (i = 0; i < m; i++) x[i] = i <= c ? a[c][i] : 0;
    for (t = n - 1; t >= 0; t--) { double s = x[t]; for (i = t + 1; i < m; i++) s += a[t][i] * x[i]; s *= beta[t]; x[t] -= s; for (i = t + 1; i < m; i++) x[i] -= s * a[t][i]; }
    for (i = 0; i < m; i++) if (!(fabs(x[i] - o[c][i]) <= 1e-8 * (1 + fabs(o[c][i])))) { fail("denseGEQRF %dx%d: (QR)[%d][%d] = %.12g, should be %.12g", m, n, i, c, x[i], o[c][i]); goto end; } }
  for (j = 0; j < n; j++) vn[j] = small(); for (i = 0; i < m; i++) vm[i] = 99;
  SUNDlsMat_denseORMQR(a, m, n, beta, vn, vm, w); execs++;
  for (i = 0; i < m; i++) x[i] = i < n ? vn[i] : 0;
  for (t = n - 1; t >= 0; t--) { double s = x[t]; for (i = t + 1; i < m; i++) s += a[t][i] * x[i]; s *= beta[t]; x[t] -= s; for (i = t + 1; i < m; i++) x[i] -= s * a[t][i]; }
  for (i = 0; i < m; i++) if (!(fabs(x[i] - vm[i]) <= 1e-8 * (1 + fabs(x[i])))) { fail("denseORMQR %dx%d: element %d is %.12g, should be %.12g", m, n, i, vm[i], x[i]); goto end; }
end: rm(a, n); rm(o, n);
}
static void ls(int n, int kind, int alias) {
  SUNMatrix A = SUNDenseMatrix(n, n, ctx); N_Vector b = N_VNew_Serial(n, ctx), x = alias ? b : N_VNew_Serial(n, ctx); SUNLinearSolver S = SUNLinSol_Dense(x, A, ctx);
  double **o = mk(n, n), b0[64]; int i, j, r, pass;
  if (!S) { fail("SUNLinSol_Dense refuses n=%d", n); return; }
  if (SUNLinSolGetType(S) != SUNLINEARSOLVER_DIRECT || SUNLinSolGetID(S) != SUNLINEARSOLVER_DENSE) fail("type of SUNLinSol_Dense");
  if (SUNLinSolInitialize(S)) fail("SUNLinSolInitialize");
  for (pass = 0; pass < 2; pass++) {
    fill(o, n, n, pass ? 0 : kind); for (j = 0; j < n; j++) for (i = 0; i < n; i++) SM_ELEMENT_D(A, i, j) = o[j][i];
    r = SUNLinSolSetup(S, A); execs++;
    if (r) { if (r < 0 || det(o, n) > 1e-6 || SUNLinSolLastFlag(S) < 1 || SUNLinSolLastFlag(S) > n) fail("SUNLinSolSetup n=%d returns %d flag %ld", n, r, (long)SUNLinSolLastFlag(S)); continue; }
    if (det(o, n) == 0 && kind == 1 && n < 4) { double mx = 0; }
    for (i = 0; i < n; i++) b0[i] = NV_Ith_S(b, i) = small();
    r = SUNLinSolSolve(S, A, x, b, 0.0); execs++;
    if (r || SUNLinSolLastFlag(S)) fail("SUNLinSolSolve n=%d returns %d", n, r);
    for (i = 0; i < n; i++) { double s = 0, sc = 1; for (j = 0; j < n; j++) s += o[j][i] * NV_Ith_S(x, j), sc += fabs(o[j][i] * NV_Ith_S(x, j)); if (!(fabs(s - b0[i]) <= 1e-7 * sc) && sc < 1e6) { fail("SUNLinSol_Dense n=%d: residual of row %d is %g", n, i, s - b0[i]); break; } if (!alias && NV_Ith_S(b, i) != b0[i]) { fail("SUNLinSolSolve changed b"); break; } }
  }
  { SUNMatrix R = SUNDenseMatrix(n, n + 1, ctx), Q = SUNDenseMatrix(n + 1, n + 1, ctx); if (SUNLinSol_Dense(x, R, ctx)) fail("SUNLinSol_Dense accepts a rectangular matrix"); if (SUNLinSol_Dense(x, Q, ctx)) fail("SUNLinSol_Dense accepts a matrix of another size"); SUNMatDestroy(R); SUNMatDestroy(Q); }
  if (SUNLinSolFree(S)) fail("SUNLinSolFree"); SUNMatDestroy(A); N_VDestroy(b); if (!alias) N_VDestroy(x); rm(o, n);
}
int main(int argc, char **argv) {
  int il, m, rep, reps = argc > 2 ? atoi(argv[2]) : 10;
  begin(argc, argv);
  for (il = 1; il < nlen; il++) { int n = lens[il]; if (n > 24 || n < 1) continue;
    for (rep = 0; rep < reps * (n < 7 ? 3 : 1); rep++) { lu(n, n, rep % 3); lu(n + rep % 4, n, rep % 3); chol(n, rep % 2); qr(n, n, rep % 3); qr(n + 1 + rep % 3, n, rep % 3); ls(n, rep % 3, rep % 2); } }
  SUNContext_Free(&ctx);
  return finish();
}
