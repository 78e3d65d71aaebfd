/* replay search for C24: dense SUNMatrix operations and the dense kernels against their definitions */
#include "common.h"
#include <sunmatrix/sunmatrix_dense.h>
#include <sundials/sundials_dense.h>
typedef struct { SUNMatrix A; int m, n; double *old; } DM;
static DM dm(int m, int n) {
  DM d; int i; d.A = SUNDenseMatrix(m, n, ctx); d.m = m; d.n = n; d.old = malloc(m * n * sizeof(double));
  if (!d.A) { fail("SUNDenseMatrix(%d,%d) gives no matrix", m, n); exit(0); }
  for (i = 0; i < m * n; i++) if (SM_DATA_D(d.A)[i] != 0) { fail("SUNDenseMatrix(%d,%d) is not zero at %d", m, n, i); break; }
  for (i = 0; i < n; i++) if (SM_COLS_D(d.A)[i] != SM_DATA_D(d.A) + i * m) { fail("SUNDenseMatrix(%d,%d): column %d is misplaced", m, n, i); break; }
  for (i = 0; i < m * n; i++) d.old[i] = SM_DATA_D(d.A)[i] = anyv();
  return d;
}
static void sn(DM *d) { memcpy(d->old, SM_DATA_D(d->A), d->m * d->n * sizeof(double)); }
static double O(DM *d, int i, int j) { return d->old[j * d->m + i]; }
static double D(DM *d, int i, int j) { return SM_DATA_D(d->A)[j * d->m + i]; }
static int same(DM *d) { int k, ok = SM_ROWS_D(d->A) == d->m && SM_COLUMNS_D(d->A) == d->n && SM_LDATA_D(d->A) == d->m * d->n; for (k = 0; k < d->m * d->n; k++) ok &= SM_DATA_D(d->A)[k] == d->old[k] || isnan(d->old[k]);
  for (k = 0; k < d->n; k++) ok &= SM_COLS_D(d->A)[k] == SM_DATA_D(d->A) + k * d->m; return ok; }
static void fr(DM *d) { SUNMatDestroy(d->A); free(d->old); }
#define ALL(d, op, expr, sc) do { int i, j, ok_ = 1; execs++; for (j = 0; j < (d)->n && ok_; j++) for (i = 0; i < (d)->m && ok_; i++) { double w = (expr); if (!closes(D(d, i, j), w, sc)) { fail("%s %dx%d c=%g: element (%d,%d) is %.17g, should be %.17g", op, (d)->m, (d)->n, c, i, j, D(d, i, j), w); ok_ = 0; } } } while (0)
int main(int argc, char **argv) {
  int il, jl, rep, reps = argc > 2 ? atoi(argv[2]) : 6;
  begin(argc, argv);
  for (il = 0; il < nlen; il++) for (jl = 0; jl < nlen; jl++) for (rep = 0; rep < reps; rep++) {
    int m = lens[il], n = lens[jl], r, k, i, j; double c = rep < 5 ? pool[rep] : val(); DM A, B; N_Vector x, y;
    if (m < 1 || n < 1) { if (SUNDenseMatrix(m, n, ctx)) fail("SUNDenseMatrix(%d,%d) should be refused", m, n); continue; }
    if (m > 40 || n > 40 || (m > 11 && n > 11)) continue;
    A = dm(m, n); B = dm(m, n);
    if (SUNDenseMatrix_Rows(A.A) != m || SUNDenseMatrix_Columns(A.A) != n || SUNDenseMatrix_LData(A.A) != m * n || SUNDenseMatrix_Column(A.A, n - 1) != SUNDenseMatrix_Data(A.A) + (n - 1) * m) fail("accessors of a %dx%d matrix", m, n);
    r = SUNMatCopy(A.A, B.A); if (r) fail("SUNMatCopy returns %d", r); ALL(&B, "SUNMatCopy", O(&A, i, j), 0); if (!same(&A)) fail("SUNMatCopy changed its source"); fr(&B);
    { SUNMatrix C = SUNMatClone(A.A); if (!C || SM_ROWS_D(C) != m || SM_COLUMNS_D(C) != n || SM_LDATA_D(C) != m * n || SM_DATA_D(C) == SM_DATA_D(A.A)) fail("SUNMatClone shape");
      else { int q; for (q = 0; q < m * n; q++) SM_DATA_D(C)[q] = 1; r = SUNMatCopy(A.A, C); if (r) fail("SUNMatCopy into a clone returns %d", r); } SUNMatDestroy(C); if (!same(&A)) fail("SUNMatClone or SUNMatDestroy of the clone changed the original"); }
    B = dm(m, n);
    r = SUNMatScaleAdd(c, A.A, B.A); if (r) fail("SUNMatScaleAdd returns %d", r); ALL(&A, "SUNMatScaleAdd", c * O(&A, i, j) + O(&B, i, j), fabs(c * O(&A, i, j)) + fabs(O(&B, i, j))); if (!same(&B)) fail("SUNMatScaleAdd changed its second operand"); fr(&A);
    A = dm(m, n); r = SUNMatScaleAdd(c, A.A, A.A); ALL(&A, "SUNMatScaleAdd in place", c * O(&A, i, j) + O(&A, i, j), (fabs(c) + 1) * fabs(O(&A, i, j))); fr(&A);
    A = dm(m, n); r = SUNMatScaleAddI(c, A.A); if (r) fail("SUNMatScaleAddI returns %d", r); ALL(&A, "SUNMatScaleAddI", c * O(&A, i, j) + (i == j), fabs(c * O(&A, i, j)) + 1); fr(&A);
    { DM C = dm(m + 1, n), E = dm(m, n + 1); A = dm(m, n);
      if (SUNMatCopy(A.A, C.A) == 0 || SUNMatCopy(A.A, E.A) == 0 || SUNMatCopy(C.A, A.A) == 0 || SUNMatCopy(E.A, A.A) == 0) fail("SUNMatCopy accepts a shape mismatch"); if (SUNMatScaleAdd(c, A.A, C.A) == 0 || SUNMatScaleAdd(c, A.A, E.A) == 0) fail("SUNMatScaleAdd accepts a shape mismatch");
      if (!same(&C) || !same(&E) || !same(&A)) fail("a refused operation changed a matrix"); fr(&C); fr(&E); }
    x = N_VNew_Serial(n, ctx); y = N_VNew_Serial(m, ctx); for (k = 0; k < n; k++) NV_Ith_S(x, k) = anyv(); for (k = 0; k < m; k++) NV_Ith_S(y, k) = anyv();
    r = SUNMatMatvec(A.A, x, y); execs++; if (r) fail("SUNMatMatvec returns %d", r);
    for (i = 0; i < m; i++) { double s = 0, sc = 0; for (j = 0; j < n; j++) s += O(&A, i, j) * NV_Ith_S(x, j), sc += fabs(O(&A, i, j) * NV_Ith_S(x, j)); if (!closes(NV_Ith_S(y, i), s, sc)) { fail("SUNMatMatvec %dx%d: row %d is %.17g, should be %.17g", m, n, i, NV_Ith_S(y, i), s); break; } }
    if (!same(&A)) fail("SUNMatMatvec changed the matrix"); if (SUNMatMatvec(A.A, x, x) == 0) fail("SUNMatMatvec accepts x = y");
    for (k = 0; k < m; k++) NV_Ith_S(y, k) = anyv();
    SUNDlsMat_denseMatvec(SM_COLS_D(A.A), NV_DATA_S(x), NV_DATA_S(y), m, n); execs++;
    for (i = 0; i < m; i++) { double s = 0, sc = 0; for (j = 0; j < n; j++) s += O(&A, i, j) * NV_Ith_S(x, j), sc += fabs(O(&A, i, j) * NV_Ith_S(x, j)); if (!closes(NV_Ith_S(y, i), s, sc)) { fail("denseMatvec %dx%d: row %d is %.17g, should be %.17g", m, n, i, NV_Ith_S(y, i), s); break; } }
    N_VDestroy(x); N_VDestroy(y);
    SUNDlsMat_denseCopy(SM_COLS_D(A.A), SM_COLS_D(B.A), m, n); ALL(&B, "denseCopy", O(&A, i, j), 0); if (!same(&A)) fail("denseCopy changed its source");
    SUNDlsMat_denseScale(c, SM_COLS_D(A.A), m, n); ALL(&A, "denseScale", c * O(&A, i, j), 0); sn(&A);
    if (m >= n) { SUNDlsMat_denseAddIdentity(SM_COLS_D(A.A), n); ALL(&A, "denseAddIdentity", O(&A, i, j) + (i == j), 1 + fabs(O(&A, i, j))); }
    r = SUNMatZero(A.A); if (r) fail("SUNMatZero returns %d", r); ALL(&A, "SUNMatZero", 0.0, 0); if (SM_ROWS_D(A.A) != m || SM_COLUMNS_D(A.A) != n) fail("SUNMatZero changed the shape");
    fr(&A); fr(&B);
  }
  SUNContext_Free(&ctx);
  return finish();
}
