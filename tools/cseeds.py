NV = "src/nvector/serial/nvector_serial.c"
GV = "src/sundials/sundials_nvector.c"
VEC = [NV, GV, "src/sundials/sundials_math.c", "src/sundials/sundials_context.c", "src/sundials/sundials_version.c"]
H = '''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <nvector/nvector_serial.h>
#include <sundials/sundials_context.h>
static SUNContext ctx;
static N_Vector V(int n, const double *a) { N_Vector v = N_VNew_Serial(n, ctx); int i; for (i = 0; i < n; i++) NV_Ith_S(v, i) = a[i]; return v; }
static int bad = 0;
static void want(const char *s, double g, double w) { if (!(fabs(g - w) <= 1e-12 * (1 + fabs(w)))) { printf("%s: %.17g, should be %.17g\\n", s, g, w); bad = 1; } }
'''
seed("c22_lin2_swap", "C22", [(NV, "  if ((test = (a == -ONE)) || (b == -ONE)) {\n    c = test ? b : a;\n    v1 = test ? y : x;\n    v2 = test ? x : y;\n    VLin2_Serial(c, v1, v2, z);", "  if ((test = (a == -ONE)) || (b == -ONE)) {\n    c = test ? b : a;\n    v1 = (test && z != x) ? y : x;\n    v2 = (test && z != x) ? x : y;\n    VLin2_Serial(c, v1, v2, z);")], H + '''
int main(void) { double x[] = {1, 2, 3}, y[] = {5, 7, 11}; int i; N_Vector a, b; SUNContext_Create(NULL, &ctx);
  a = V(3, x); b = V(3, y);
  N_VLinearSum(-1.0, a, 2.0, b, a);
  for (i = 0; i < 3; i++) want("2y-x into x", NV_Ith_S(a, i), 2 * y[i] - x[i]);
  return bad; }
''', VEC, "N_VLinearSum(-1, x, c, y, x): coefficient -1 on the operand that is also the output", "c y - x stored into x becomes c x - y")
seed("c22_minquot_first", "C22", [(NV, "    if (dd[i] == ZERO) continue;\n    else {\n      if (!notEvenOnce) min = SUNMIN(min, nd[i]/dd[i]);", "    if (dd[i] == ZERO) continue;\n    else {\n      if (!notEvenOnce) min = SUNMIN(min, nd[i]/SUNRabs(dd[i]));")], H + '''
int main(void) { double n[] = {4, 1, 3}, d[] = {2, 0, -1}; SUNContext_Create(NULL, &ctx);
  want("min quotient", N_VMinQuotient(V(3, n), V(3, d)), -3); return bad; }
''', VEC, "a negative denominator that is not the first nonzero one", "N_VMinQuotient drops the sign of later denominators")
seed("c23_scaleaddmulti_inplace", "C23", [(NV, "      yd = NV_DATA_S(Y[i]);\n      for (j=0; j<N; j++) {\n        yd[j] += a[i] * xd[j];\n      }", "      yd = NV_DATA_S(Y[i]);\n      for (j=0; j<N; j++) {\n        yd[j] += a[0] * xd[j];\n      }")], H + '''
int main(void) { double x[] = {1, 2}, a[] = {2, 3, 5}; int i, j; N_Vector X, Y[3]; SUNContext_Create(NULL, &ctx);
  X = V(2, x); for (i = 0; i < 3; i++) Y[i] = N_VClone(X), N_VConst(i + 1.0, Y[i]);
  N_VEnableFusedOps_Serial(X, 1); for (i = 0; i < 3; i++) N_VEnableFusedOps_Serial(Y[i], 1);
  N_VScaleAddMulti(3, a, X, Y, Y);
  for (i = 0; i < 3; i++) for (j = 0; j < 2; j++) want("y += a x", NV_Ith_S(Y[i], j), i + 1.0 + a[i] * x[j]);
  return bad; }
''', VEC, "fused kernels on, several sums, output family equal to the input family", "every target gets the first coefficient")
seed("c23_lincombva_inplace", "C23", [(NV, "  if ((X[0] == Z) && (c[0] == ONE)) {\n    for (j=0; j<nvec; j++) {\n      zd = NV_DATA_S(Z[j]);\n      for (i=1; i<nsum; i++) {", "  if ((X[0] == Z) && (c[0] == ONE)) {\n    for (j=0; j<nvec; j++) {\n      zd = NV_DATA_S(Z[j]);\n      for (i=1; i<nsum-(nsum > 4); i++) {")], H + '''
int main(void) { double x[] = {1, 2}, c[] = {1, 3, 5, 7, 11}; int i, j, k; N_Vector X[5][2], *P[5], t; SUNContext_Create(NULL, &ctx);
  t = V(2, x); N_VEnableFusedOps_Serial(t, 1);
  for (i = 0; i < 5; i++) { P[i] = X[i]; for (j = 0; j < 2; j++) X[i][j] = N_VClone(t), N_VConst(i + 10.0 * j, X[i][j]); }
  N_VLinearCombinationVectorArray(2, 5, c, P, X[0]);
  for (j = 0; j < 2; j++) { double s = 0; for (i = 0; i < 5; i++) s += c[i] * (i + 10.0 * j); want("combination", NV_Ith_S(X[0][j], 1), s); }
  return bad; }
''', VEC, "fused kernels on, at least five terms, in place with unit first coefficient", "the last term is dropped")
DM = "src/sunmatrix/dense/sunmatrix_dense.c"
DS = "src/sundials/sundials_dense.c"
DL = "src/sunlinsol/dense/sunlinsol_dense.c"
DALL = VEC + [DM, "src/sundials/sundials_matrix.c", DS, DL, "src/sundials/sundials_linearsolver.c"]
HD = H.replace("#include <sundials/sundials_context.h>", "#include <sundials/sundials_context.h>\n#include <sunmatrix/sunmatrix_dense.h>\n#include <sunlinsol/sunlinsol_dense.h>\n#include <sundials/sundials_dense.h>")
seed("c24_scaleaddi_wide", "C24", [(DM, "  for (j=0; j<SM_COLUMNS_D(A); j++)\n    for (i=0; i<SM_ROWS_D(A); i++) {\n      SM_ELEMENT_D(A,i,j) *= c;", "  for (j=0; j<SUNMIN(SM_COLUMNS_D(A), SM_ROWS_D(A)+1); j++)\n    for (i=0; i<SM_ROWS_D(A); i++) {\n      SM_ELEMENT_D(A,i,j) *= c;")], HD + '''
int main(void) { int i, j; SUNMatrix A; SUNContext_Create(NULL, &ctx); A = SUNDenseMatrix(2, 5, ctx);
  for (j = 0; j < 5; j++) for (i = 0; i < 2; i++) SM_ELEMENT_D(A, i, j) = 1 + i + 2 * j;
  SUNMatScaleAddI(3.0, A);
  for (j = 0; j < 5; j++) for (i = 0; i < 2; i++) want("cA+I", SM_ELEMENT_D(A, i, j), 3.0 * (1 + i + 2 * j) + (i == j));
  return bad; }
''', DALL, "a matrix with at least two more columns than rows", "the last columns of a wide matrix are not scaled")
seed("c25_pivot_sign", "C25", [(DS, "      if (SUNRabs(col_k[i]) > SUNRabs(col_k[l])) l=i;", "      if (SUNRabs(col_k[i]) > SUNRabs(col_k[k])) l=i;")], HD + '''
int main(void) { double a0[] = {1, 100, 2}, a1[] = {2, 1, 50}, a2[] = {3, 4, 5}, *a[] = {a0, a1, a2}; sunindextype p[3]; int i, j; SUNContext_Create(NULL, &ctx);
  want("result", SUNDlsMat_denseGETRF(a, 3, 3, p), 0); want("first pivot row", p[0], 1);
  for (j = 0; j < 3; j++) for (i = j + 1; i < 3; i++) if (!(fabs(a[j][i]) <= 1 + 1e-12)) { printf("multiplier %g\\n", a[j][i]); bad = 1; }
  return bad; }
''', DALL, "a column whose largest entry is followed by a smaller one that still exceeds the diagonal", "partial pivoting takes the last entry larger than the diagonal, not the largest: multipliers exceed one")
seed("c25_potrf_last", "C25", [(DS, "    if (a_diag <= ZERO) return(j+1);", "    if (a_diag <= ZERO && (j < m-1 || j == 0)) return(j+1);")], HD + '''
int main(void) { double a0[] = {1, 1}, a1[] = {1, 0.5}, *a[] = {a0, a1}; SUNContext_Create(NULL, &ctx);
  want("not positive definite: second pivot", SUNDlsMat_densePOTRF(a, 2), 2); return bad; }
''', DALL, "a matrix whose last pivot alone is not positive", "densePOTRF reports success for an indefinite matrix")
seed("c25_lastflag", "C25", [(DL, "  LASTFLAG(S) = SUNDlsMat_denseGETRF(A_cols, SUNDenseMatrix_Rows(A),\n                                     SUNDenseMatrix_Columns(A), pivots);\n\n  /* store error flag (if nonzero, this row encountered zero-valued pivod) */\n  if (LASTFLAG(S) > 0)", "  LASTFLAG(S) = SUNDlsMat_denseGETRF(A_cols, SUNDenseMatrix_Rows(A),\n                                     SUNDenseMatrix_Columns(A), pivots);\n\n  /* store error flag (if nonzero, this row encountered zero-valued pivod) */\n  if (LASTFLAG(S) > 0 && LASTFLAG(S) < SUNDenseMatrix_Rows(A))")], HD + '''
int main(void) { int r; SUNMatrix A; SUNLinearSolver S; double b[] = {1, 2}; N_Vector v; SUNContext_Create(NULL, &ctx); A = SUNDenseMatrix(2, 2, ctx); v = V(2, b); S = SUNLinSol_Dense(v, A, ctx);
  SM_ELEMENT_D(A, 0, 0) = 1; SM_ELEMENT_D(A, 0, 1) = 2; SM_ELEMENT_D(A, 1, 0) = 2; SM_ELEMENT_D(A, 1, 1) = 4;
  r = SUNLinSolSetup(S, A); if (r <= 0) { printf("setup of a singular matrix returns %d\\n", r); bad = 1; } return bad; }
''', DALL, "a matrix that is singular only in its last pivot", "the setup of the solver reports success for a singular matrix")
CVC = "src/cvodes/cvodes.c"
HCV = '''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "%s"
#include <nvector/nvector_serial.h>
#include <sunnonlinsol/sunnonlinsol_fixedpoint.h>
#include <sunmatrix/sunmatrix_dense.h>
#include <sunlinsol/sunlinsol_dense.h>
static SUNContext ctx; static CVodeMem M; static N_Vector Y, YQ, *YS, *YQS;
static int bad = 0;
static void want(const char *s, double g, double w) { if (!(fabs(g - w) <= 1e-9 * (1 + fabs(w)))) { printf("%%s: %%.17g, should be %%.17g\\n", s, g, w); bad = 1; } }
static int f(realtype t, N_Vector y, N_Vector d, void *u) { N_VScale(-1.0, y, d); return 0; }
static int fQ(realtype t, N_Vector y, N_Vector d, void *u) { N_VScale(1.0, y, d); return 0; }
static int fS(int n, realtype t, N_Vector y, N_Vector yd, N_Vector *s, N_Vector *sd, void *u, N_Vector a, N_Vector b) { int k; for (k = 0; k < n; k++) N_VScale(-1.0, s[k], sd[k]); return 0; }
static int fQS(int n, realtype t, N_Vector y, N_Vector *s, N_Vector yq, N_Vector *d, void *u, N_Vector a, N_Vector b) { int k; for (k = 0; k < n; k++) N_VScale(1.0, s[k], d[k]); return 0; }
static void quiet(int a, const char *b, const char *c, char *d, void *e) {}
static void make(int lmm) { double ab[2] = {1, 1}; int k; SUNContext_Create(NULL, &ctx);
  Y = N_VNew_Serial(2, ctx); N_VConst(1, Y); YQ = N_VClone(Y); N_VConst(0, YQ); YS = N_VCloneVectorArray(2, Y); YQS = N_VCloneVectorArray(2, Y);
  for (k = 0; k < 2; k++) { N_VConst(0, YS[k]); N_VConst(0, YQS[k]); }
  M = CVodeCreate(lmm, ctx); CVodeSetErrHandlerFn(M, quiet, NULL); CVodeInit(M, f, 0, Y); CVodeSStolerances(M, 1, 1);
  CVodeQuadInit(M, fQ, YQ); CVodeSensInit(M, 2, CV_STAGGERED, fS, YS); CVodeSensSStolerances(M, 1, ab); CVodeQuadSensInit(M, fQS, YQS); }
static void setq(int q, double h) { int j; M->cv_q = q; M->cv_L = q + 1; M->cv_h = M->cv_hscale = M->cv_hu = h; M->cv_tn = 1; for (j = 0; j < 13; j++) M->cv_tau[j] = h * (1 + 0.25 * j); M->cv_indx_acor = M->cv_qmax; }
'''
HPUB, HSRC = HCV % "cvodes_impl.h", HCV % "cvodes.c"
import re as _re
_mb = open("/repo/" + SUN + "meson.build").read()
CVALL = [x for x in _re.findall(r"'(src/[\w/]+\.c)'", _mb) if _re.match(r"src/(cvodes/|nvector/serial|sunmatrix/(dense|band)|sunlinsol/(dense|band|spgmr)|sunnonlinsol/(newton|fixedpoint)|sundials/sundials_(?!xbraid|mpi|futils|hypre))", x)]
CVREST = [x for x in CVALL if x != CVC]

seed("c28_backward_fuzz", "C28", [(CVC, "  if (cv_mem->cv_hu < ZERO) tfuzz = -tfuzz;\n  tp = cv_mem->cv_tn - cv_mem->cv_hu - tfuzz;\n  tn1 = cv_mem->cv_tn + tfuzz;\n  if ((t-tp)*(t-tn1) > ZERO) {\n    cvProcessError(cv_mem, CV_BAD_T, \"CVODES\", \"CVodeGetQuadSensDky1\",", "  tp = cv_mem->cv_tn - cv_mem->cv_hu - tfuzz;\n  tn1 = cv_mem->cv_tn + tfuzz;\n  if ((t-tp)*(t-tn1) > ZERO) {\n    cvProcessError(cv_mem, CV_BAD_T, \"CVODES\", \"CVodeGetQuadSensDky1\",")], HPUB + r"""
int main(void) { N_Vector d; make(CV_BDF); d = N_VClone(Y); setq(2, -0.5);
  want("the current time, integrating backward", CVodeGetQuadSensDky1(M, 1.0, 0, 1, d), CV_SUCCESS); want("the other end of the step", CVodeGetQuadSensDky1(M, 1.5, 0, 1, d), CV_SUCCESS); return bad; }
""", CVALL, "quadrature sensitivities with a negative step size, asked for exactly at the end of the last step", "the end points of the last step are refused")
seed("c28_quad_power", "C28", [(CVC, "    cv_mem->cv_Xvecs[nvec] = cv_mem->cv_znQ[j];\n    nvec += 1;\n  }\n  ier = N_VLinearCombination(nvec, cv_mem->cv_cvals, cv_mem->cv_Xvecs, dkyQ);\n  if (ier != CV_SUCCESS) {\n    SUNDIALS_MARK_FUNCTION_END(CV_PROFILER);\n    return(CV_VECTOROP_ERR);\n  }\n\n  if (k == 0) {\n    SUNDIALS_MARK_FUNCTION_END(CV_PROFILER);\n    return(CV_SUCCESS);\n  }\n  r = SUNRpowerI(cv_mem->cv_h, -k);", "    cv_mem->cv_Xvecs[nvec] = cv_mem->cv_znQ[j];\n    nvec += 1;\n  }\n  ier = N_VLinearCombination(nvec, cv_mem->cv_cvals, cv_mem->cv_Xvecs, dkyQ);\n  if (ier != CV_SUCCESS) {\n    SUNDIALS_MARK_FUNCTION_END(CV_PROFILER);\n    return(CV_VECTOROP_ERR);\n  }\n\n  if (k == 0) {\n    SUNDIALS_MARK_FUNCTION_END(CV_PROFILER);\n    return(CV_SUCCESS);\n  }\n  r = SUNRpowerI(SUNRabs(cv_mem->cv_h), -k);")], HPUB + r"""
int main(void) { N_Vector d; int j; make(CV_BDF); d = N_VClone(Y); setq(2, -0.5); for (j = 0; j < 4; j++) N_VConst(j + 1, M->cv_znQ[j]);
  want("flag", CVodeGetQuadDky(M, 1.0, 1, d), CV_SUCCESS); want("first derivative", NV_Ith_S(d, 0), -4); return bad; }
""", CVALL, "an odd derivative of the quadratures, integrating backward", "the sign of odd derivatives is lost")
seed("c29_decrease_tau", "C29", [(CVC, "  cv_mem->cv_l[2] = ONE;\n  hsum = ZERO;\n  for (j=1; j <= cv_mem->cv_q-2; j++) {\n    hsum += cv_mem->cv_tau[j];\n    xi = hsum / cv_mem->cv_hscale;", "  cv_mem->cv_l[2] = ONE;\n  hsum = ZERO;\n  for (j=1; j <= cv_mem->cv_q-2; j++) {\n    hsum += cv_mem->cv_tau[SUNMIN(j,2)];\n    xi = hsum / cv_mem->cv_hscale;")], HSRC + r"""
/* the polynomial through the history points, of one degree less, is what the history describes after the decrease: x^2 (x+xi1)(x+xi2)(x+xi3) of degree 5 becomes 0 */
int main(void) { int i, j; double c[6] = {0, 0, 1, 0, 0, 0}, s = 0; make(CV_BDF); setq(5, 0.5);
  for (j = 1; j <= 3; j++) { s += M->cv_tau[j] / M->cv_hscale; for (i = 5; i >= 1; i--) c[i] = c[i] * s + c[i - 1]; }
  for (j = 0; j <= 5; j++) { N_VConst(c[j], M->cv_zn[j]); } cvAdjustOrder(M, -1);
  for (j = 0; j < 5; j++) want("history", NV_Ith_S(M->cv_zn[j], 0), 0); return bad; }
""", CVREST, "an order reduction from order 5 after unequal steps", "the third past step is taken equal to the second")
seed("c29_increase_xi", "C29", [(CVC, "        cv_mem->cv_l[i] = cv_mem->cv_l[i]*xiold + cv_mem->cv_l[i-1];\n      xiold = xi;", "        cv_mem->cv_l[i] = cv_mem->cv_l[i]*xiold + cv_mem->cv_l[i-1];\n      if (j < 2) xiold = xi;")], HSRC + r"""
int main(void) { int i, j; double c[7] = {0, 0, 1, 0, 0, 0, 0}, s = 1, a; make(CV_BDF); setq(4, 0.5); M->cv_indx_acor = 5;
  for (j = 0; j <= 4; j++) N_VConst(0, M->cv_zn[j]); N_VConst(2, M->cv_zn[5]); cvAdjustOrder(M, 1); a = NV_Ith_S(M->cv_zn[5], 0);
  /* x^2 (x+1)(x+xi2)(x+xi3) */
  for (j = 1; j <= 3; j++) { for (i = 6; i >= 1; i--) c[i] = c[i] * s + c[i - 1]; s += M->cv_tau[j + 1] / M->cv_hscale; }
  for (j = 0; j <= 4; j++) want("history", NV_Ith_S(M->cv_zn[j], 0), a * c[j]); return bad; }
""", CVREST, "an order increase from order 4 or more after unequal steps", "the history of the raised order uses a wrong past step")
seed("c29_saved_qs", "C29", [(CVC, "      (void) N_VScaleVectorArray(cv_mem->cv_Ns, cv_mem->cv_cvals,\n                                 cv_mem->cv_acorQS, cv_mem->cv_znQS[cv_mem->cv_qmax]);", "      (void) N_VScaleVectorArray(cv_mem->cv_Ns, cv_mem->cv_cvals,\n                                 cv_mem->cv_acorQS, cv_mem->cv_znQS[cv_mem->cv_q+1]);")], HSRC + r"""
int main(void) { int i; make(CV_BDF); setq(2, 0.5); M->cv_qwait = 2; M->cv_nst = 5; N_VConst(7, M->cv_acorQS[1]); N_VConst(0, M->cv_znQS[5][1]); for (i = 0; i < 6; i++) M->cv_l[i] = 1;
  cvCompleteStep(M); want("saved column", NV_Ith_S(M->cv_znQS[M->cv_indx_acor][1], 0), 7); return bad; }
""", CVREST, "quadrature sensitivities, the step before an order increase is considered, two or more orders below the maximum", "the correction needed by an order increase is stored in the wrong column")
seed("c29_rescale_ns", "C29", [(CVC, "        cv_mem->cv_Xvecs[(j-1)*cv_mem->cv_Ns+is] = cv_mem->cv_znQS[j][is];\n\n    (void) N_VScaleVectorArray(cv_mem->cv_q*cv_mem->cv_Ns, cv_mem->cv_cvals,", "        cv_mem->cv_Xvecs[(j-1)*cv_mem->cv_Ns+is] = cv_mem->cv_znQS[j][is];\n\n    (void) N_VScaleVectorArray(cv_mem->cv_Ns > 1 ? (cv_mem->cv_q-1)*cv_mem->cv_Ns+1 : cv_mem->cv_q, cv_mem->cv_cvals,")], HSRC + r"""
int main(void) { int j; make(CV_BDF); setq(3, 0.5); M->cv_eta = 0.5; for (j = 0; j < 6; j++) { N_VConst(1, M->cv_znQS[j][0]); N_VConst(1, M->cv_znQS[j][1]); }
  cvRescale(M); for (j = 1; j <= 3; j++) { want("first", NV_Ith_S(M->cv_znQS[j][0], 0), pow(0.5, j)); want("second", NV_Ith_S(M->cv_znQS[j][1], 0), pow(0.5, j)); } return bad; }
""", CVREST, "two or more quadrature sensitivities, a step size change", "the last column of all but the first sensitivity is not rescaled")
seed("c30_tq3", "C30", [(CVC, "    hsum += cv_mem->cv_tau[cv_mem->cv_q];\n    xi_inv = cv_mem->cv_h / hsum;\n    A5", "    hsum += cv_mem->cv_tau[SUNMAX(1,cv_mem->cv_q-1)];\n    xi_inv = cv_mem->cv_h / hsum;\n    A5")], HSRC + r"""
static double tq3(double f) { setq(2, 0.5); M->cv_qwait = 1; M->cv_nlscoef = 0.1; M->cv_tau[2] *= f; cvSet(M); return M->cv_tq[3]; }
/* order 2: tq[3] with xi_3 = (h + tau1 + tau2)/h against the closed formula */
int main(void) { double h = 0.5, t1, t2, x3, a0, a0h, l1, A1, A2, A5, A6, want3, xq; make(CV_BDF); want("two equal calls", tq3(3), tq3(3)); t1 = M->cv_tau[1]; t2 = M->cv_tau[2];
  xq = (h + t1) / h; x3 = h / (h + t1 + t2); a0 = -1.5; a0h = -1 - 1 / xq; A1 = 1 - a0h + a0; A2 = 1 + 2 * A1; A5 = a0 - 1.0 / 3; A6 = a0h - x3; want3 = fabs((1 - A6 + A5) / A2 / (x3 * 4 * A5));
  want("tq[3]", M->cv_tq[3], want3); return bad; }
""", CVREST, "an order increase under consideration (qwait = 1) after unequal steps", "the error constant for the next order uses the wrong past step")
seed("c30_adams_tq1", "C30", [(CVC, "      sum = cvAltSum(cv_mem->cv_q-2, m, 2);\n      cv_mem->cv_tq[1] = cv_mem->cv_q * sum / m[cv_mem->cv_q-2];", "      sum = cvAltSum(cv_mem->cv_q-2, m, 2);\n      cv_mem->cv_tq[1] = cv_mem->cv_q * sum / m[SUNMIN(cv_mem->cv_q-2,3)];")], HSRC + r"""
int main(void) { double m[13] = {1}, s = 0, hs = 0.5; int i, j, q = 6, g = 1; make(CV_ADAMS); setq(q, 0.5); M->cv_qwait = 1; M->cv_nlscoef = 0.1;
  for (j = 1; j < q - 1; j++) { for (i = j; i >= 1; i--) m[i] += m[i - 1] * 0.5 / hs; hs += M->cv_tau[j]; }
  for (i = 0; i <= q - 2; i++, g = -g) s += g * m[i] / (i + 2);
  cvSet(M); want("tq[1]", M->cv_tq[1], q * s / m[q - 2]); return bad; }
""", CVREST, "Adams at order six or more with an order reduction under consideration", "the error constant of the order below is scaled by the wrong coefficient")
seed("c31_small_nef", "C31", [(CVC, "    if (*nefPtr >= SMALL_NEF) cv_mem->cv_eta = SUNMIN(cv_mem->cv_eta, ETAMXF);", "    if (*nefPtr > SMALL_NEF) cv_mem->cv_eta = SUNMIN(cv_mem->cv_eta, ETAMXF);")], HSRC + r"""
int main(void) { int nflag = 0, nef = 1; long netf = 0; double d; make(CV_BDF); setq(2, 0.5); M->cv_tq[2] = 1; M->cv_hmin = 0;
  want("verdict", cvDoErrorTest(M, &nflag, 0.5, 1.0000001, &nef, &netf, &d), TRY_AGAIN); if (!(M->cv_h <= 0.5 * 0.2 + 1e-12)) { printf("second failure: the step is only cut to %g of itself\n", M->cv_h / 0.5); bad = 1; } return bad; }
""", CVREST, "a second error test failure in one step with an error barely above the tolerance", "the step size is not cut to a fifth")
seed("c31_hnflag_constr", "C31", [(CVC, "  if (nflag != CONSTR_RECVR)\n    cv_mem->cv_eta = SUNMAX(ETACF, cv_mem->cv_hmin / SUNRabs(cv_mem->cv_h));\n  *nflagPtr = PREV_CONV_FAIL;", "  if (nflag != CONSTR_RECVR)\n    cv_mem->cv_eta = SUNMAX(ETACF, cv_mem->cv_hmin / cv_mem->cv_h);\n  *nflagPtr = PREV_CONV_FAIL;")], HSRC + r"""
int main(void) { int nflag = SUN_NLS_CONV_RECVR, ncf = 0; long nc = 0; make(CV_BDF); setq(2, -0.5); M->cv_hmin = 0.3;
  want("verdict", cvHandleNFlag(M, &nflag, 1.5, &ncf, &nc), PREDICT_AGAIN); want("new step", M->cv_h, -0.3); return bad; }
""", CVREST, "a convergence failure while integrating backward with a minimum step size", "the step is cut below the minimum")
seed("c31_qwait", "C31", [(CVC, "    cv_mem->cv_qwait = SUNMAX(cv_mem->cv_qwait, 2);", "    cv_mem->cv_qwait = 2;")], HSRC + r"""
int main(void) { make(CV_BDF); setq(4, 0.5); M->cv_etamax = 1; M->cv_qwait = 4; cvPrepareNextStep(M, 0.5); want("steps to wait", M->cv_qwait, 4); want("step", M->cv_hprime, 0.5); return bad; }
""", CVREST, "a step that needed a retry soon after an order change", "order changes are considered too early")
seed("c31_hmax", "C31", [(CVC, "    cv_mem->cv_eta /= SUNMAX(ONE, SUNRabs(cv_mem->cv_h) *\n                             cv_mem->cv_hmax_inv*cv_mem->cv_eta);\n    cv_mem->cv_hprime = cv_mem->cv_h * cv_mem->cv_eta;\n    if (cv_mem->cv_qprime", "    cv_mem->cv_eta /= SUNMAX(ONE, cv_mem->cv_h *\n                             cv_mem->cv_hmax_inv*cv_mem->cv_eta);\n    cv_mem->cv_hprime = cv_mem->cv_h * cv_mem->cv_eta;\n    if (cv_mem->cv_qprime")], HSRC + r"""
int main(void) { make(CV_BDF); setq(2, -0.5); M->cv_etamax = 10; M->cv_qwait = 1; M->cv_hmax_inv = 1; cvPrepareNextStep(M, 1e-6); if (!(fabs(M->cv_hprime) <= 1 + 1e-12)) { printf("next step %g with a maximum of 1\n", M->cv_hprime); bad = 1; } return bad; }
""", CVREST, "a maximum step size while integrating backward", "the maximum step size is ignored")

HI = (HCV % "cvodes_impl.h").split("static void make(int lmm)")[0]
RUN = r"""
static void *m; static int ism; static void run(int quad, int sens, int qsens) { double ab[2] = {1e-8, 1e-8}, t = 0, tout; int k, r; N_Vector y, yq, *ys, *yqs, o; SUNNonlinearSolver S, S2; SUNContext_Create(NULL, &ctx);
  y = N_VNew_Serial(2, ctx); o = N_VClone(y); N_VConst(1, y); yq = N_VClone(y); N_VConst(0, yq); ys = N_VCloneVectorArray(2, y); yqs = N_VCloneVectorArray(2, y);
  for (k = 0; k < 2; k++) { N_VConst(k + 1, ys[k]); N_VConst(0, yqs[k]); }
  m = CVodeCreate(CV_ADAMS, ctx); M = m; CVodeSetErrHandlerFn(m, quiet, NULL); CVodeInit(m, f, 0, y); CVodeSStolerances(m, 1e-6, 1e-8); S = SUNNonlinSol_FixedPoint(y, 0, ctx); CVodeSetNonlinearSolver(m, S);
  if (quad) { CVodeQuadInit(m, gQ, yq); CVodeSetQuadErrCon(m, 1); CVodeQuadSStolerances(m, 1e-6, 1e-8); }
  if (sens) { if (ism == CV_STAGGERED1) { CVodeSensInit1(m, 2, ism, gS1, ys); S2 = SUNNonlinSol_FixedPoint(y, 0, ctx); CVodeSetNonlinearSolverSensStg1(m, S2); } else { CVodeSensInit(m, 2, ism, fS, ys); S2 = SUNNonlinSol_FixedPointSens(2, y, 0, ctx); CVodeSetNonlinearSolverSensStg(m, S2); }
    CVodeSensSStolerances(m, 1e-6, ab); CVodeSetSensErrCon(m, 1); }
  if (qsens) { CVodeQuadSensInit(m, gQS, yqs); CVodeSetQuadSensErrCon(m, 1); CVodeQuadSensSStolerances(m, 1e-6, ab); }
  for (tout = 0; tout < 2.1; tout = t) { r = CVode(m, 3, o, &t, CV_ONE_STEP); if (r >= 0 && !(t > tout)) { printf("a successful step from %g ends at %g\n", tout, t); bad = 1; return; } if (r < 0) { printf("the integration stops with %d\n", r); bad = 1; return; }
    near("solution", NV_Ith_S(o, 0), exp(-t));
    if (quad) { CVodeGetQuad(m, &t, o); near("quadrature", NV_Ith_S(o, 0), 1 - exp(-t)); }
    if (sens) for (k = 0; k < 2; k++) { CVodeGetSens1(m, &t, k, o); near("sensitivity", NV_Ith_S(o, 0), (k + 1) * exp(-t)); }
    if (qsens) for (k = 0; k < 2; k++) { CVodeGetQuadSens1(m, &t, k, o); near("quadrature sensitivity", NV_Ith_S(o, 0), (k + 1) * (1 - exp(-t))); } } }
"""
NEAR = 'static void near(const char *s, double g, double w) { if (!(fabs(g - w) <= 1e-4 * (1 + fabs(w)))) { printf("%s: %.17g, should be %.17g\\n", s, g, w); bad = 1; } }\nstatic int calls;\n'
GQ = "static int gQ(realtype t, N_Vector y, N_Vector d, void *u) { N_VScale(1.0, y, d); return %s; }\n"
GS1 = "static int gS1(int n, realtype t, N_Vector y, N_Vector yd, int i, N_Vector s, N_Vector sd, void *u, N_Vector a, N_Vector b) { N_VScale(-1.0, s, sd); return %s; }\n"
GQS = "static int gQS(int n, realtype t, N_Vector y, N_Vector *s, N_Vector yq, N_Vector *d, void *u, N_Vector a, N_Vector b) { int k; for (k = 0; k < n; k++) N_VScale(1.0, s[k], d[k]); return %s; }\n"
seed("c32_stg1_break", "C32", [(CVC, "          if (kflag != DO_ERROR_TEST) break;\n        }\n      }\n\n      if (kflag == PREDICT_AGAIN) continue;", "          if (kflag != DO_ERROR_TEST && kflag != PREDICT_AGAIN) break;\n        }\n      }\n\n      if (kflag == PREDICT_AGAIN) continue;")], HI + NEAR + GQ % "0" + GS1 % "(i == 0 && ++calls % 9 == 7)" + GQS % "0" + RUN + "int main(void) { ism = CV_STAGGERED1; run(0, 1, 0); return bad; }\n", CVALL, "one-by-one staggered sensitivities where the equations of one that is not the last fail recoverably", "the step goes on with the restored history")
seed("c32_quad_savedt", "C32", [(CVC, "      nflag = cvQuadNls(cv_mem);\n      kflag = cvHandleNFlag(cv_mem, &nflag, saved_t, &ncf, &(cv_mem->cv_ncfn));", "      nflag = cvQuadNls(cv_mem);\n      kflag = cvHandleNFlag(cv_mem, &nflag, cv_mem->cv_tn, &ncf, &(cv_mem->cv_ncfn));")], HI + NEAR + GQ % "(++calls % 9 == 7)" + GS1 % "0" + GQS % "0" + RUN + "int main(void) { ism = CV_STAGGERED; run(1, 0, 0); return bad; }\n", CVALL, "a quadrature function that fails recoverably", "the time is not taken back when the step is retried")
seed("c32_quadsens_test", "C32", [(CVC, "        if (eflag == TRY_AGAIN) continue;\n        if (eflag != CV_SUCCESS) return(eflag);\n\n        /* Set dsm = max(dsm, dsmQS) to be used in cvPrepareNextStep */", "        if (eflag == TRY_AGAIN && nefQS == 1) continue;\n        if (eflag != CV_SUCCESS && eflag != TRY_AGAIN) return(eflag);\n\n        /* Set dsm = max(dsm, dsmQS) to be used in cvPrepareNextStep */")], HI + NEAR + GQ % "0" + GS1 % "0" + GQS.replace("N_VScale(1.0, s[k], d[k]);", "{ N_VScale(1.0, s[k], d[k]); if (t > 0.21) N_VScale(1 + 200000 * (t - 0.21), s[k], d[k]); }") % "0" + RUN.replace("(k + 1) * (1 - exp(-t)))", "(k + 1) * (1 - exp(-t) + (t > 0.21) * 200000 * (exp(-0.21) - exp(-t) - (t - 0.21) * exp(-t))))") + "int main(void) { ism = CV_STAGGERED; run(1, 1, 1); return bad; }\n", CVALL, "the error test of the quadrature sensitivities failing twice within one step", "the second failure leaves the restored history as the new one")
seed("c33_constr_backward", "C33", [(CVC, "  if (SUNRabs(cv_mem->cv_h) <= cv_mem->cv_hmin*ONEPSM) return(CV_CONSTR_FAIL);", "  if (cv_mem->cv_h <= cv_mem->cv_hmin*ONEPSM) return(CV_CONSTR_FAIL);")], HSRC + r"""
int main(void) { make(CV_BDF); setq(2, -0.5); M->cv_hmin = 0; M->cv_tq[4] = 1e-3; M->cv_y = N_VClone(Y); M->cv_constraints = N_VClone(Y); N_VConst(1, M->cv_constraints); N_VConst(-1, M->cv_y); N_VConst(1, M->cv_ewt); N_VConst(1, M->cv_zn[0]); N_VConst(0, M->cv_acor);
  want("verdict", cvCheckConstraints(M), CONSTR_RECVR); want("ratio", M->cv_eta, 0.45); return bad; }
""", CVREST, "an inequality constraint violated while integrating backward", "the integration stops instead of taking a smaller step")
seed("c33_quad_ftemp", "C33", [(CVC, "  if (cv_mem->cv_quadr_sensi) {\n    N_VScale(ONE, cv_mem->cv_acorQ, cv_mem->cv_ftempQ);\n  }", "  if (cv_mem->cv_quadr_sensi && cv_mem->cv_errconQ) {\n    N_VScale(ONE, cv_mem->cv_acorQ, cv_mem->cv_ftempQ);\n  }")], HSRC + r"""
int main(void) { make(CV_BDF); setq(2, 0.5); M->cv_y = N_VClone(Y); N_VConst(3, M->cv_y); M->cv_rl1 = 1; N_VConst(0, M->cv_znQ[0]); N_VConst(0, M->cv_znQ[1]); N_VConst(77, M->cv_ftempQ);
  want("result", cvQuadNls(M), 0); want("saved quadrature right-hand side", NV_Ith_S(M->cv_ftempQ, 1), 3); return bad; }
""", CVREST, "quadrature sensitivities while the quadratures themselves are outside the error control", "the quadrature sensitivity function is given an old quadrature right-hand side")
STG1 = "src/cvodes/cvodes_nls_stg1.c"
seed("c34_stg1_rate", "C34", [(STG1, "  dcon = del * SUNMIN(ONE, cv_mem->cv_crateS) / tol;", "  dcon = del * SUNMIN(ONE, cv_mem->cv_crate) / tol;")], HSRC + r"""
#include "cvodes_nls_stg1.c"
static int one(SUNNonlinearSolver S, int *k) { *k = 1; return 0; }
int main(void) { SUNNonlinearSolver S; N_Vector d; make(CV_BDF); S = SUNNonlinSolNewEmpty(ctx); S->ops->getcuriter = one; d = N_VClone(Y); N_VConst(1, d); N_VConst(1, M->cv_ewt);
  M->cv_crate = 1e-3; M->cv_crateS = 1; M->cv_delp = 1; want("verdict", cvNlsConvTestSensStg1(S, Y, d, 0.5, M->cv_ewt, M), SUN_NLS_CONTINUE);
  M->cv_crate = 1; M->cv_crateS = 0.1; M->cv_delp = 100; want("verdict with a fast rate", cvNlsConvTestSensStg1(S, Y, d, 0.5, M->cv_ewt, M), 0); return bad; }
""", [x for x in CVREST if x != STG1], "sensitivities one by one whose convergence differs from that of the states", "the iteration is accepted or rejected with the convergence rate of the states")
SW = "src/sundials/sundials_nvector_senswrapper.c"
seed("c34_wrapper_norm", "C34", [(SW, "realtype N_VWrmsNorm_SensWrapper(N_Vector x, N_Vector w)\n{\n  int i;\n  realtype nrm, tmp;\n\n  nrm = ZERO;\n\n  for (i=0; i < NV_NVECS_SW(x); i++) {", "realtype N_VWrmsNorm_SensWrapper(N_Vector x, N_Vector w)\n{\n  int i;\n  realtype nrm, tmp;\n\n  nrm = ZERO;\n\n  for (i=(NV_NVECS_SW(x) > 1); i < NV_NVECS_SW(x); i++) {")], HPUB + r"""
#include <sundials/sundials_nvector_senswrapper.h>
int main(void) { N_Vector X, W; int k; SUNContext_Create(NULL, &ctx); Y = N_VNew_Serial(3, ctx); X = N_VNewEmpty_SensWrapper(3, ctx); W = N_VNewEmpty_SensWrapper(3, ctx);
  for (k = 0; k < 3; k++) { NV_VEC_SW(X, k) = N_VClone(Y); NV_VEC_SW(W, k) = N_VClone(Y); N_VConst(k ? 1 : 5, NV_VEC_SW(X, k)); N_VConst(1, NV_VEC_SW(W, k)); }
  want("norm", N_VWrmsNorm(X, W), 5); return bad; }
""", [SW] + VEC, "bundled vectors whose first member has the largest norm", "the states do not take part in the convergence test of the simultaneous corrector")
seed("c35_sv_again", "C35", [(CVC, "    cv_mem->cv_lrw += cv_mem->cv_lrw1;\n    cv_mem->cv_liw += cv_mem->cv_liw1;\n    cv_mem->cv_VabstolMallocDone = SUNTRUE;\n  }\n\n  cv_mem->cv_reltol = reltol;\n  N_VScale(ONE, abstol, cv_mem->cv_Vabstol);", "    cv_mem->cv_lrw += cv_mem->cv_lrw1;\n    cv_mem->cv_liw += cv_mem->cv_liw1;\n    cv_mem->cv_VabstolMallocDone = SUNTRUE;\n    N_VScale(ONE, abstol, cv_mem->cv_Vabstol);\n  }\n\n  cv_mem->cv_reltol = reltol;")], HPUB + r"""
int main(void) { N_Vector a, w; SUNContext_Create(NULL, &ctx); Y = N_VNew_Serial(2, ctx); N_VConst(1, Y); a = N_VClone(Y); w = N_VClone(Y); M = CVodeCreate(CV_BDF, ctx); CVodeInit(M, f, 0, Y);
  N_VConst(1, a); CVodeSVtolerances(M, 1, a); N_VConst(3, a); CVodeSVtolerances(M, 1, a); M->cv_efun(Y, w, M); want("weight", NV_Ith_S(w, 0), 0.25); return bad; }
""", CVALL, "vector tolerances set a second time on one integrator", "later vector tolerances are ignored")
seed("c35_sens_min0", "C35", [(CVC, "    N_VAddConst(cv_mem->cv_tempv, cv_mem->cv_SabstolS[is], cv_mem->cv_tempv);\n    if (cv_mem->cv_atolSmin0[is]) {", "    N_VAddConst(cv_mem->cv_tempv, cv_mem->cv_SabstolS[is], cv_mem->cv_tempv);\n    if (cv_mem->cv_atolSmin0[0]) {")], HSRC + r"""
int main(void) { double ab[2] = {1, 0}; N_Vector *w; make(CV_BDF); w = N_VCloneVectorArray(2, Y); CVodeSensSStolerances(M, 1, ab); N_VConst(1, YS[0]); N_VConst(0, YS[1]);
  want("result", cvSensEwtSet(M, YS, w), -1); N_VConst(1, YS[1]); want("result", cvSensEwtSet(M, YS, w), 0); return bad; }
""", CVREST, "a zero absolute tolerance for a later sensitivity only, which passes through zero", "its error weight becomes infinite instead of an error")
NWT, FPT = "src/sunnonlinsol/newton/sunnonlinsol_newton.c", "src/sunnonlinsol/fixedpoint/sunnonlinsol_fixedpoint.c"
NLSH = r"""
#include <sunnonlinsol/sunnonlinsol_newton.h>
#include <sunnonlinsol/sunnonlinsol_fixedpoint.h>
static int ns, nt, nl, jb[9], mem; static N_Vector y, w, y_0; static SUNNonlinearSolver S;
"""
NLSRC = ["src/sundials/sundials_nonlinearsolver.c", "src/sundials/sundials_nvector_senswrapper.c"]
seed("c36_retry_start", "C36", [(NWT, "      callLSetup = SUNTRUE;\n      jbad = SUNTRUE;\n      N_VConst(ZERO, ycor);\n      continue;", "      callLSetup = SUNTRUE;\n      jbad = SUNTRUE;\n      if (NEWTON_CONTENT(NLS)->curiter > 0) N_VConst(ZERO, ycor);\n      continue;")], H + NLSH + r"""
static double start[9];
static int sys(N_Vector a, N_Vector F, void *m) { start[ns++] = NV_Ith_S(a, 0); N_VConst(1, F); return 0; }
static int lset(booleantype j, booleantype *c, void *m) { jb[nl++] = j; *c = j ? 1 : 0; return 0; }
static int lsol(N_Vector b, void *m) { return 0; }
static int ct(SUNNonlinearSolver s, N_Vector a, N_Vector d, realtype t, N_Vector ww, void *x) { return nt++ == 0 ? SUN_NLS_CONV_RECVR : 0; }
int main(void) { double z[] = {0, 0}; SUNContext_Create(NULL, &ctx); y = V(2, z); w = V(2, z); y_0 = V(2, z); S = SUNNonlinSol_Newton(y, ctx);
  SUNNonlinSolSetSysFn(S, sys); SUNNonlinSolSetLSetupFn(S, lset); SUNNonlinSolSetLSolveFn(S, lsol); SUNNonlinSolSetConvTestFn(S, ct, &mem); SUNNonlinSolInitialize(S);
  want("result", SUNNonlinSolSolve(S, y_0, y, w, 1, 0, &mem), 0); want("attempts", ns, 2); want("start of the second attempt", start[1], 0); want("bad Jacobian", jb[0], 1); return bad; }
""", VEC + [NWT] + NLSRC, "a Newton attempt that diverges in its first iteration with a stale Jacobian", "the repeated attempt starts from the diverged correction and not from the prediction")
seed("c36_jcur_stays", "C36", [(NWT, "      if (retval == SUN_NLS_SUCCESS) {\n        NEWTON_CONTENT(NLS)->jcur = SUNFALSE;\n        return(SUN_NLS_SUCCESS);", "      if (retval == SUN_NLS_SUCCESS) {\n        if (callLSetup) NEWTON_CONTENT(NLS)->jcur = jbad;\n        return(SUN_NLS_SUCCESS);")], H + NLSH + r"""
static int f2;
static int sys(N_Vector a, N_Vector F, void *m) { ns++; N_VConst(1, F); return 0; }
static int lset(booleantype j, booleantype *c, void *m) { jb[nl++] = j; *c = 1; return 0; }
static int lsol(N_Vector b, void *m) { return 0; }
static int ct(SUNNonlinearSolver s, N_Vector a, N_Vector d, realtype t, N_Vector ww, void *x) { static int r[] = {SUN_NLS_CONV_RECVR, 0, SUN_NLS_CONV_RECVR, 0}; return r[nt++]; }
int main(void) { double z[] = {0, 0}; SUNContext_Create(NULL, &ctx); y = V(2, z); w = V(2, z); y_0 = V(2, z); S = SUNNonlinSol_Newton(y, ctx);
  SUNNonlinSolSetSysFn(S, sys); SUNNonlinSolSetLSetupFn(S, lset); SUNNonlinSolSetLSolveFn(S, lsol); SUNNonlinSolSetConvTestFn(S, ct, &mem); SUNNonlinSolInitialize(S);
  want("first solve", SUNNonlinSolSolve(S, y_0, y, w, 1, 0, &mem), 0); want("second solve", SUNNonlinSolSolve(S, y_0, y, w, 1, 0, &mem), 0); want("setups", nl, 2); return bad; }
""", VEC + [NWT] + NLSRC, "a solve that succeeded after a repeated attempt, then one that fails with those (now old) Jacobian data", "the second failure is reported instead of repeated with current Jacobian data")
seed("c36_fp_maxiters", "C36", [(FPT, "    /* return if successful */\n    if (retval == SUN_NLS_SUCCESS)  return(SUN_NLS_SUCCESS);", "    /* return if successful */\n    if (retval == SUN_NLS_SUCCESS || FP_CONTENT(NLS)->niters >= 10)  return(SUN_NLS_SUCCESS);")], H + NLSH + r"""
static int sys(N_Vector a, N_Vector F, void *m) { N_VConst(1, F); return 0; }
static int ct(SUNNonlinearSolver s, N_Vector a, N_Vector d, realtype t, N_Vector ww, void *x) { return nt++ < 9 ? SUN_NLS_CONTINUE : SUN_NLS_CONV_RECVR; }
int main(void) { double z[] = {0, 0}; long k; SUNContext_Create(NULL, &ctx); y = V(2, z); w = V(2, z); y_0 = V(2, z); S = SUNNonlinSol_FixedPoint(y, 0, ctx);
  SUNNonlinSolSetSysFn(S, sys); SUNNonlinSolSetConvTestFn(S, ct, &mem); SUNNonlinSolSetMaxIters(S, 20); SUNNonlinSolInitialize(S);
  want("result", SUNNonlinSolSolve(S, y_0, y, w, 1, 0, &mem), SUN_NLS_CONV_RECVR); SUNNonlinSolGetNumConvFails(S, &k); want("failures", k, 1); return bad; }
""", VEC + [FPT] + NLSRC, "a limit of more than nine fixed point iterations, and an iteration that fails that late", "a diverging iteration is reported as converged")
LSC = "src/cvodes/cvodes_ls.c"
HLS = HPUB.replace('#include "cvodes_impl.h"', '#include "cvodes_impl.h"\n#include "cvodes_ls_impl.h"')
MKLS = r"""
static struct _generic_SUNLinearSolver ls; static struct _generic_SUNLinearSolver_Ops op; static int kind, code, ncalls; static N_Vector F, P, Q, R;
static SUNLinearSolver_Type gt(SUNLinearSolver s) { return kind; }
static int ok(SUNLinearSolver s) { return 0; }
static int st(SUNLinearSolver s, SUNMatrix a) { return 0; }
static int zg(SUNLinearSolver s, booleantype b) { return 0; }
static int so(SUNLinearSolver s, SUNMatrix a, N_Vector x, N_Vector b, realtype t) { N_VConst(1, x); return code; }
static int ta(SUNLinearSolver s, void *m, SUNATimesFn g) { return 0; }
static void mk(int k, SUNMatrix A) { kind = k; op.gettype = gt; op.initialize = ok; op.setup = st; op.setzeroguess = zg; op.solve = so; op.setatimes = ta; ls.ops = &op; F = N_VClone(Y); P = N_VClone(Y); Q = N_VClone(Y); R = N_VClone(Y); N_VConst(-1, F);
  want("attach", CVodeSetLinearSolver(M, &ls, A), 0); want("start", M->cv_linit(M), 0); N_VConst(1, M->cv_ewt); }
"""
seed("c37_savedj_every_step", "C37", [(LSC, "    /* Update saved copy of the Jacobian matrix */\n    retval = SUNMatCopy(A, cvls_mem->savedJ);", "    /* Update saved copy of the Jacobian matrix, unless it is evaluated in every step */\n    retval = (cvls_mem->msbj > 1) ? SUNMatCopy(A, cvls_mem->savedJ) : 0;")], HLS + MKLS + r"""
static double v; static int jac(realtype t, N_Vector y, N_Vector fy, SUNMatrix J, void *u, N_Vector a, N_Vector b, N_Vector c) { ncalls++; SM_ELEMENT_D(J, 0, 0) = SM_ELEMENT_D(J, 1, 1) = v; return 0; }
int main(void) { int jc; SUNMatrix A; make(CV_BDF); A = SUNDenseMatrix(2, 2, ctx); mk(SUNLINEARSOLVER_DIRECT, A); CVodeSetJacFn(M, jac); CVodeSetJacEvalFrequency(M, 1); want("start", M->cv_linit(M), 0); M->cv_gamma = M->cv_gammap = 0.5; M->cv_nst = 3; v = -2;
  M->cv_lsetup(M, CV_NO_FAILURES, Y, F, &jc, P, Q, R); want("1 - gamma J", SM_ELEMENT_D(A, 0, 0), 2); M->cv_gamma = 0.25; v = -8;
  M->cv_lsetup(M, CV_FAIL_BAD_J, Y, F, &jc, P, Q, R); want("evaluations", ncalls, 1); want("1 - gamma J", SM_ELEMENT_D(A, 0, 0), 1.5); return bad; }
""", CVALL, "a Jacobian evaluated in every step, and a second setup within one step for a changed gamma", "the second setup builds its matrix from a Jacobian that was never saved")
seed("c37_jv_retry", "C37", [(LSC, "  sig = ONE/N_VWrmsNorm(v, cv_mem->cv_ewt);\n", "  sig = ONE/N_VWrmsNorm(v, cv_mem->cv_ewt);\n  siginv = ONE/sig;\n"), (LSC, "  /* Replace Jv by (Jv - fy)/sig */\n  siginv = ONE/sig;\n", "  /* Replace Jv by (Jv - fy)/sig */\n")], HLS + MKLS + r"""
static int g(realtype t, N_Vector y, N_Vector d, void *u) { N_VScale(-2.0, y, d); return ncalls++ == 0; }
int main(void) { CVLsMem L; make(CV_BDF); mk(SUNLINEARSOLVER_ITERATIVE, NULL); L = M->cv_lmem; L->jt_f = g; N_VConst(1, Y); N_VConst(-2, F); N_VConst(1, P);
  want("result", L->jtimes(P, Q, 0, Y, F, M, R), 0); want("product", NV_Ith_S(Q, 0), -2); return bad; }
""", CVALL, "a right-hand side that fails recoverably in the evaluation for a Jacobian-vector product", "the product is a quarter of the true one")
seed("c37_stg1_iter", "C37", [(LSC, "  else if (do_sensi_stg1 && cv_mem->sens_solve)", "  else if (do_sensi_stg1)")], HLS + MKLS + r"""
static int it0, it1; static struct _generic_SUNNonlinearSolver n0, n1; static struct _generic_SUNNonlinearSolver_Ops no;
static int ci(SUNNonlinearSolver s, int *i) { *i = s == &n0 ? it0 : it1; return 0; }
int main(void) { N_Vector b; SUNNonlinearSolver a0, a1; make(CV_BDF); mk(SUNLINEARSOLVER_ITERATIVE, NULL); no.getcuriter = ci; n0.ops = n1.ops = &no; a0 = M->NLS; a1 = M->NLSstg1; M->cv_sensi = 1; M->cv_ism = CV_STAGGERED1; M->sens_solve = 0; M->NLS = &n0; M->NLSstg1 = &n1; it0 = 0; it1 = 2; code = SUNLS_RES_REDUCED; M->cv_tq[4] = 1e-3; b = N_VClone(Y); N_VConst(5, b);
  want("reduced in the first iteration", M->cv_lsolve(M, b, M->cv_ewt, Y, F), 0); it0 = 2; it1 = 0; N_VConst(5, b); want("reduced in a later iteration", M->cv_lsolve(M, b, M->cv_ewt, Y, F), 1); return bad; }
""", CVALL, "an iterative linear solver with the staggered1 method, when a sensitivity solve stopped at another iteration than the state solve", "a solve of the state is judged by the iteration of the last sensitivity")
seed("c37_jacfn_default", "C37", [(LSC, "  /* ensure the internal linear system function is used */\n  cvls_mem->user_linsys = SUNFALSE;\n", "  /* ensure the internal linear system function is used */\n  if (jac != NULL) cvls_mem->user_linsys = SUNFALSE;\n")], HLS + MKLS + r"""
static int lin(realtype t, N_Vector y, N_Vector fy, SUNMatrix A, booleantype jok, booleantype *jc, realtype g, void *u, N_Vector a, N_Vector b, N_Vector c) { return 0; }
int main(void) { CVLsMem L; SUNMatrix A; int d; make(CV_BDF); CVodeSetUserData(M, &d); A = SUNDenseMatrix(2, 2, ctx); mk(SUNLINEARSOLVER_DIRECT, A); L = M->cv_lmem; CVodeSetLinSysFn(M, lin); CVodeSetJacFn(M, NULL); want("start", M->cv_linit(M), 0); want("data of the internal system function", L->A_data == M, 1); want("a saved Jacobian", L->savedJ != NULL, 1); return bad; }
""", CVALL, "the default Jacobian asked for after a user's linear system function", "the internal system function gets the user's data and no saved Jacobian")
