/* whole integrations through the public interface: linear problems with known solutions, injected failures, every sensitivity mode */
#include "common.h"
#include <cvodes/cvodes.h>
#include <sunmatrix/sunmatrix_dense.h>
#include <sunlinsol/sunlinsol_dense.h>
#include <sunnonlinsol/sunnonlinsol_newton.h>
#include <sunnonlinsol/sunnonlinsol_fixedpoint.h>
/* y0' = -p0 y0 + p1 cos t,  y1' = p1 y0 - p2 y1 : solved by a fine Runge-Kutta reference, sensitivities with it */
#define NP 3
typedef struct { double p[NP]; long n, fail_at[4]; int kind, nfail, sign; long nq, qfail, ns, sfail; } UD;
static void rhs(const double *p, double t, const double *y, double *d) { d[0] = -p[0] * y[0] + p[1] * cos(t); d[1] = p[1] * y[0] - p[2] * y[1]; }
static void srhs(const double *p, double t, const double *y, const double *s, int k, double *d) {
  d[0] = -p[0] * s[0] + (k == 0 ? -y[0] : 0) + (k == 1 ? cos(t) : 0);
  d[1] = p[1] * s[0] - p[2] * s[1] + (k == 1 ? y[0] : 0) - (k == 2 ? y[1] : 0);
}
/* everything: y(2) S(2*NP) q(1) qS(NP) */
#define NA (2 + 2 * NP + 1 + NP)
static void all(const double *p, double t, const double *a, double *d) {
  int k;
  rhs(p, t, a, d);
  for (k = 0; k < NP; k++) srhs(p, t, a, a + 2 + 2 * k, k, d + 2 + 2 * k);
  d[2 + 2 * NP] = a[0] + a[1] * a[1];
  for (k = 0; k < NP; k++) d[3 + 2 * NP + k] = a[2 + 2 * k] + 2 * a[1] * a[3 + 2 * k];
}
static void reference(const double *p, double t0, double t1, double *a) {
  int n = 4000, i, j; double h = (t1 - t0) / n, k1[NA], k2[NA], k3[NA], k4[NA], b[NA];
  for (i = 0; i < n; i++) {
    double t = t0 + i * h;
    all(p, t, a, k1);
    for (j = 0; j < NA; j++) b[j] = a[j] + h / 2 * k1[j];
    all(p, t + h / 2, b, k2);
    for (j = 0; j < NA; j++) b[j] = a[j] + h / 2 * k2[j];
    all(p, t + h / 2, b, k3);
    for (j = 0; j < NA; j++) b[j] = a[j] + h * k3[j];
    all(p, t + h, b, k4);
    for (j = 0; j < NA; j++) a[j] += h / 6 * (k1[j] + 2 * k2[j] + 2 * k3[j] + k4[j]);
  }
}
static int f(realtype t, N_Vector y, N_Vector d, void *u) {
  UD *U = u; int i; U->n++;
  for (i = 0; i < U->nfail; i++) if (U->n == U->fail_at[i]) return U->sign;
  rhs(U->p, t, N_VGetArrayPointer(y), N_VGetArrayPointer(d)); return 0;
}
static int jac(realtype t, N_Vector y, N_Vector fy, SUNMatrix J, void *u, N_Vector a, N_Vector b, N_Vector c) {
  UD *U = u; SM_ELEMENT_D(J, 0, 0) = -U->p[0]; SM_ELEMENT_D(J, 0, 1) = 0; SM_ELEMENT_D(J, 1, 0) = U->p[1]; SM_ELEMENT_D(J, 1, 1) = -U->p[2]; return 0;
}
static int fQ(realtype t, N_Vector y, N_Vector d, void *u) {
  UD *U = u; double *a = N_VGetArrayPointer(y); U->nq++;
  if (U->nq == U->qfail) return U->sign;
  NV_Ith_S(d, 0) = a[0] + a[1] * a[1]; return 0;
}
static int fS(int Ns, realtype t, N_Vector y, N_Vector yd, N_Vector *s, N_Vector *sd, void *u, N_Vector a, N_Vector b) {
  UD *U = u; int k; U->ns++;
  if (U->ns == U->sfail) return U->sign;
  for (k = 0; k < Ns; k++) srhs(U->p, t, N_VGetArrayPointer(y), N_VGetArrayPointer(s[k]), k, N_VGetArrayPointer(sd[k]));
  return 0;
}
static int fS1(int Ns, realtype t, N_Vector y, N_Vector yd, int k, N_Vector s, N_Vector sd, void *u, N_Vector a, N_Vector b) {
  UD *U = u; U->ns++;
  if (U->ns == U->sfail) return U->sign;
  srhs(U->p, t, N_VGetArrayPointer(y), N_VGetArrayPointer(s), k, N_VGetArrayPointer(sd)); return 0;
}
static int fQS(int Ns, realtype t, N_Vector y, N_Vector *s, N_Vector yq, N_Vector *d, void *u, N_Vector a, N_Vector b) {
  double *v = N_VGetArrayPointer(y); int k;
  for (k = 0; k < Ns; k++) { double *w = N_VGetArrayPointer(s[k]); NV_Ith_S(d[k], 0) = w[0] + 2 * v[1] * w[1]; }
  return 0;
}
static void quiet(int a, const char *b, const char *c, char *d, void *e) {}
static int near_(double a, double b) { return fabs(a - b) <= 2e-4 * (1 + fabs(b)); }
static void one(int it) {
  UD U; double t0 = (rnd() % 3) * 0.5, T, a[NA], ref[NA]; int i, k, fl, lmm = rnd() % 2 ? CV_BDF : CV_ADAMS, newton = rnd() % 3 != 0, ism = (int)(rnd() % 4), quad = rnd() % 2, qs, errS = rnd() % 2, nout = 1 + rnd() % 4, dense;
  void *m; N_Vector y, *yS = NULL, yQ = NULL, *yQS = NULL; SUNMatrix A = NULL; SUNLinearSolver LS = NULL; SUNNonlinearSolver NL = NULL, NLS = NULL; realtype t; double dir = rnd() % 5 ? 1 : -1;
  memset(&U, 0, sizeof U);
  for (i = 0; i < NP; i++) U.p[i] = 0.2 + (rnd() % 20) / 10.0;
  if (dir < 0) for (i = 0; i < NP; i++) U.p[i] *= 0.4;
  T = t0 + dir * (0.5 + (rnd() % 30) / 10.0);
  U.sign = 1; U.nfail = rnd() % 4; for (i = 0; i < U.nfail; i++) U.fail_at[i] = 3 + rnd() % 120;
  U.qfail = rnd() % 3 ? 0 : 3 + rnd() % 60; U.sfail = rnd() % 3 ? 0 : 3 + rnd() % 60;
  qs = ism && rnd() % 2; if (qs) quad = 1;
  execs++;
  y = N_VNew_Serial(2, ctx); NV_Ith_S(y, 0) = a[0] = 1; NV_Ith_S(y, 1) = a[1] = -0.5;
  for (i = 2; i < NA; i++) a[i] = 0;
  m = CVodeCreate(lmm, ctx);
  CVodeSetErrHandlerFn(m, quiet, NULL);
  if (CVodeInit(m, f, t0, y)) { fail("CVodeInit"); return; }
  CVodeSetUserData(m, &U); CVodeSStolerances(m, 1e-8, 1e-10); CVodeSetMaxNumSteps(m, 20000);
  if (newton) { A = SUNDenseMatrix(2, 2, ctx); LS = SUNLinSol_Dense(y, A, ctx); CVodeSetLinearSolver(m, LS, A); if (rnd() % 2) CVodeSetJacFn(m, jac); }
  else { NL = SUNNonlinSol_FixedPoint(y, 0, ctx); CVodeSetNonlinearSolver(m, NL); }
  if (quad) { yQ = N_VNew_Serial(1, ctx); N_VConst(0, yQ); CVodeQuadInit(m, fQ, yQ); if (rnd() % 2) { CVodeSetQuadErrCon(m, 1); CVodeQuadSStolerances(m, 1e-8, 1e-10); } }
  if (ism) {
    yS = N_VCloneVectorArray(NP, y); for (k = 0; k < NP; k++) N_VConst(0, yS[k]);
    fl = ism == 3 ? CVodeSensInit1(m, NP, CV_STAGGERED1, fS1, yS) : CVodeSensInit(m, NP, ism == 1 ? CV_SIMULTANEOUS : CV_STAGGERED, fS, yS);
    if (fl) { fail("CVodeSensInit %d", fl); return; }
    { double ab[NP] = {1e-10, 1e-10, 1e-10}; CVodeSensSStolerances(m, 1e-8, ab); }
    CVodeSetSensErrCon(m, errS);
    if (!newton) {
      if (ism == 1) { NLS = SUNNonlinSol_FixedPointSens(NP + 1, y, 0, ctx); CVodeSetNonlinearSolverSensSim(m, NLS); }
      else if (ism == 2) { NLS = SUNNonlinSol_FixedPointSens(NP, y, 0, ctx); CVodeSetNonlinearSolverSensStg(m, NLS); }
      else { NLS = SUNNonlinSol_FixedPoint(y, 0, ctx); CVodeSetNonlinearSolverSensStg1(m, NLS); }
    }
    if (qs) { double ab[NP] = {1e-10, 1e-10, 1e-10}; yQS = N_VCloneVectorArray(NP, yQ); for (k = 0; k < NP; k++) N_VConst(0, yQS[k]); CVodeQuadSensInit(m, fQS, yQS); CVodeQuadSensSStolerances(m, 1e-8, ab); if (rnd() % 2) CVodeSetQuadSensErrCon(m, 1); }
  }
  if (rnd() % 4 == 0) CVodeSetStopTime(m, T);
  memcpy(ref, a, sizeof a);
  { double tp = t0; double lasth = 0; char how[200];
  snprintf(how, sizeof how, "lmm=%d newton=%d sensitivity mode=%d quad=%d qs=%d errcon=%d p=(%g,%g,%g) t=%g..%g recoverable failures at f calls %ld,%ld,%ld fQ %ld fS %ld", lmm, newton, ism, quad, qs, errS, U.p[0], U.p[1], U.p[2], t0, T, U.nfail > 0 ? U.fail_at[0] : 0, U.nfail > 1 ? U.fail_at[1] : 0, U.nfail > 2 ? U.fail_at[2] : 0, U.qfail, U.sfail);
  for (i = 1; i <= nout; i++) {
    double tt = t0 + (T - t0) * i / nout; long nst; double tcur, hlast; int qlast;
    fl = CVode(m, tt, y, &t, CV_NORMAL);
    if (fl < 0) { fail("%s: CVode returns %d at t=%g", how, fl, (double)t); break; }
    if (fabs(t - tt) > 1e-12 * (1 + fabs(tt)) && fl == 0) { fail("%s: output time %.15g, asked for %.15g", how, (double)t, tt); break; }
    reference(U.p, tp, tt, ref); tp = tt;
    CVodeGetNumSteps(m, &nst); CVodeGetCurrentTime(m, &tcur); CVodeGetLastStep(m, &hlast); CVodeGetLastOrder(m, &qlast);
    if (qlast < 1 || qlast > (lmm == CV_BDF ? 5 : 12)) fail("%s: order %d", how, qlast);
    if (hlast * dir <= 0 || (tcur - tt) * dir < -1e-12) fail("%s: last step %g, internal time %g at %g", how, hlast, tcur, tt);
    for (k = 0; k < 2; k++) if (!near_(NV_Ith_S(y, k), ref[k])) fail("%s: y%d(%g) = %.10g, not %.10g", how, k, tt, NV_Ith_S(y, k), ref[k]);
    if (ism) { CVodeGetSens(m, &t, yS); for (k = 0; k < 2 * NP; k++) { double v = NV_Ith_S(yS[k / 2], k % 2); if (!near_(v, ref[2 + k])) fail("%s: sensitivity %d of y%d at %g = %.10g, not %.10g", how, k / 2, k % 2, tt, v, ref[2 + k]); } }
    if (quad) { CVodeGetQuad(m, &t, yQ); if (!near_(NV_Ith_S(yQ, 0), ref[2 + 2 * NP])) fail("%s: quadrature at %g = %.10g, not %.10g", how, tt, NV_Ith_S(yQ, 0), ref[2 + 2 * NP]); }
    if (qs) { CVodeGetQuadSens(m, &t, yQS); for (k = 0; k < NP; k++) if (!near_(NV_Ith_S(yQS[k], 0), ref[3 + 2 * NP + k])) fail("%s: sensitivity %d of the quadrature at %g = %.10g, not %.10g", how, k, tt, NV_Ith_S(yQS[k], 0), ref[3 + 2 * NP + k]); }
    /* the derivative of the interpolant is the right-hand side; the solution anywhere in the last step is the interpolant */
    { N_Vector d = N_VNew_Serial(2, ctx); double e[2], b[NA]; double s = tcur - hlast * ((rnd() % 9) / 8.0);
      if (CVodeGetDky(m, s, 0, d)) fail("%s: CVodeGetDky(0) at %g", how, s);
      memcpy(b, ref, sizeof b); reference(U.p, tt, s, b);
      for (k = 0; k < 2; k++) if (!near_(NV_Ith_S(d, k), b[k])) fail("%s: dense output y%d(%g) = %.10g, not %.10g", how, k, s, NV_Ith_S(d, k), b[k]);
      if (CVodeGetDky(m, tt, 1, d)) fail("%s: CVodeGetDky(1) at %g", how, tt);
      rhs(U.p, tt, ref, e);
      for (k = 0; k < 2; k++) if (fabs(NV_Ith_S(d, k) - e[k]) > 3e-3 * (1 + fabs(e[k]))) fail("%s: derivative of the dense output y%d'(%g) = %.10g, not %.10g", how, k, tt, NV_Ith_S(d, k), e[k]);
      if (CVodeGetDky(m, tcur + hlast, 0, d) != CV_BAD_T || CVodeGetDky(m, tcur - 2 * hlast, 0, d) != CV_BAD_T || CVodeGetDky(m, tcur, qlast + 1, d) != CV_BAD_K || CVodeGetDky(m, tcur, -1, d) != CV_BAD_K) fail("%s: CVodeGetDky accepts a time or an order it must refuse", how);
      N_VDestroy(d); }
  }
  CVodeFree(&m); }
  N_VDestroy(y); if (yQ) N_VDestroy(yQ); if (yS) N_VDestroyVectorArray(yS, NP); if (yQS) N_VDestroyVectorArray(yQS, NP);
  if (A) SUNMatDestroy(A); if (LS) SUNLinSolFree(LS); if (NL) SUNNonlinSolFree(NL); if (NLS) SUNNonlinSolFree(NLS);
}
int main(int argc, char **argv) {
  int i, n;
  begin(argc, argv);
  n = argc > 2 ? atoi(argv[2]) : 40;
  for (i = 0; i < n; i++) one(i);
  SUNContext_Free(&ctx);
  return finish();
}
