/* the Newton and the fixed point iteration on random scripts of results, against a reference simulation */
#include "common.h"
#include <nvector/nvector_serial.h>
#include <sunnonlinsol/sunnonlinsol_newton.h>
#include <sunnonlinsol/sunnonlinsol_fixedpoint.h>
#include "src/sunnonlinsol/newton/sunnonlinsol_newton.c"
#undef ONE
#undef ZERO
#include "src/sunnonlinsol/fixedpoint/sunnonlinsol_fixedpoint.c"
#define n 3
enum { SYS = 1, LSET, LSOLVE, CTEST };
static int script[1000], pos_, at, bad, newton, lset, call0;   /* results of the calls, in order */
static struct { int kind; double y[n], v[n]; int jb, cur; } rec[1000]; static int nrec;
static int DATA, MEM, jcs[1000]; static N_Vector Yc, Wt, Y0; static SUNNonlinearSolver NL; static double TOL = 0.37;
static double A(double y, int i, int c) { return 0.5 * y * y - 1 + i + 0.125 * c; }
static int next(int kind) { int r; rec[nrec].kind = kind; if (nrec >= 990) fail("the iteration does not end"); if (kind != CTEST && script[nrec] == 901) script[nrec] = 0; r = script[nrec]; nrec++; return r; }
static void keep(N_Vector y, N_Vector v) { int i; for (i = 0; i < n; i++) { if (y) rec[nrec].y[i] = NV_Ith_S(y, i); if (v) rec[nrec].v[i] = NV_Ith_S(v, i); } }
static int sys_(N_Vector y, N_Vector F, void *m) { int i, c = nrec; if (y != Yc) fail("the system function gets another correction"); if (m != &MEM) fail("the system function gets another block"); keep(y, NULL); for (i = 0; i < n; i++) NV_Ith_S(F, i) = A(NV_Ith_S(y, i), i, c); return next(SYS); }
static int lsetup_(booleantype jb, booleantype *jc, void *m) { if (m != &MEM) fail("the linear setup gets another block"); rec[nrec].jb = jb; *jc = jcs[nrec]; return next(LSET); }
static int lsolve_(N_Vector b, void *m) { int i; if (m != &MEM) fail("the linear solve gets another block"); keep(NULL, b); for (i = 0; i < n; i++) NV_Ith_S(b, i) = 0.25 * NV_Ith_S(b, i) + 0.5 * i; return next(LSOLVE); }
static int ctest_(SUNNonlinearSolver S, N_Vector y, N_Vector d, realtype tol, N_Vector w, void *dat) { int c; if (S != NL || y != Yc || w != Wt || dat != &DATA || tol != TOL) fail("the convergence test gets other arguments"); keep(y, d); SUNNonlinSolGetCurIter(S, &c); rec[nrec].cur = c; return next(CTEST); }
static int ex, curk;
static void want(int kind, const char *name) { curk = ex; if (ex >= nrec) fail("%s: the iteration stops after %d calls where a call of the %s is due", newton ? "Newton" : "fixed point", nrec, name); if (rec[ex].kind != kind) fail("%s: call %d is not the %s (kind %d)", newton ? "Newton" : "fixed point", ex, name, rec[ex].kind); ex++; }
static void eqv(double *a, double *b, const char *w) { int i; for (i = 0; i < n; i++) if (fabs(a[i] - b[i]) > 1e-9 * (1 + fabs(b[i]))) fail("%s, call %d: %s is %.12g, not %.12g", newton ? "Newton" : "fixed point", curk, w, a[i], b[i]); }
static int pick(void) { int r = rnd() % 10; return r < 5 ? 0 : r < 8 ? 1 + rnd() % 3 : r == 8 ? 902 : -1 - (int)(rnd() % 3); }
static void one(void) {
  int i, k, r, er, mx, jc, jc0, it = 0, att = 0, call, rate = 1 + rnd() % 6; long a, b; double y[n], d[n], g[n], m1[n]; SUNNonlinearSolver S;
  newton = rnd() % 2; lset = newton && rnd() % 3; call0 = lset && rnd() % 2; mx = 1 + rnd() % (rnd() % 3 ? 5 : 40);
  Yc = N_VNew_Serial(n, ctx); Wt = N_VClone(Yc); Y0 = N_VClone(Yc); N_VConst(1, Wt); N_VConst(0, Y0);
  for (i = 0; i < n; i++) NV_Ith_S(Yc, i) = y[i] = rnd() % 3 ? 0 : (rnd() % 9) / 4.0;
  S = NL = newton ? SUNNonlinSol_Newton(Yc, ctx) : SUNNonlinSol_FixedPoint(Yc, 0, ctx);
  if (SUNNonlinSolGetType(S) != (newton ? SUNNONLINEARSOLVER_ROOTFIND : SUNNONLINEARSOLVER_FIXEDPOINT)) fail("the kind of the solver is wrong");
  if (SUNNonlinSolInitialize(S) != SUN_NLS_MEM_NULL) fail("a solver without functions is initialised");
  if (SUNNonlinSolSetSysFn(S, NULL) != SUN_NLS_ILL_INPUT || SUNNonlinSolSetConvTestFn(S, NULL, NULL) != SUN_NLS_ILL_INPUT || SUNNonlinSolSetMaxIters(S, 0) != SUN_NLS_ILL_INPUT) fail("an invalid setting is accepted");
  if (SUNNonlinSolSetSysFn(S, sys_) || SUNNonlinSolSetConvTestFn(S, ctest_, &DATA) || SUNNonlinSolSetMaxIters(S, mx)) fail("a setting is refused");
  if (newton) { if (SUNNonlinSolInitialize(S) != SUN_NLS_MEM_NULL) fail("a Newton solver without linear solver is initialised"); if (SUNNonlinSolSetLSolveFn(S, NULL) != SUN_NLS_ILL_INPUT || SUNNonlinSolSetLSolveFn(S, lsolve_) || SUNNonlinSolSetLSetupFn(S, lset ? lsetup_ : NULL)) fail("a linear setting fails"); }
  if (SUNNonlinSolInitialize(S)) fail("a complete solver is not initialised");
  SUNNonlinSolGetNumIters(S, &a); SUNNonlinSolGetNumConvFails(S, &b); if (a || b) fail("the counts do not start at zero");
  jc0 = 0; if (newton) { if (NEWTON_CONTENT(S)->jcur) fail("the Jacobian status does not start as not current"); jc0 = NEWTON_CONTENT(S)->jcur = rnd() % 4 == 0; }
  if (newton && !lset) { r = SUNNonlinSolSolve(S, Y0, Yc, Wt, TOL, SUNTRUE, &MEM); if (r != SUN_NLS_MEM_NULL) fail("a missing linear setup is not reported (%d)", r); }
  memset(rec, 0, sizeof rec); nrec = 0;
  for (i = 0; i < 1000; i++) { script[i] = rnd() % (rate * rate) ? (rnd() % (rate * rate) == 0 ? 0 : 901) : pick(); jcs[i] = rnd() % 2; }
  r = SUNNonlinSolSolve(S, Y0, Yc, Wt, TOL, call0, &MEM);
  /* reference */
  ex = 0; jc = jc0; call = call0; k = 0;
  if (newton) for (;;) {
    int c = ex, done = 0; want(SYS, "residual"); eqv(rec[c].y, y, "the correction"); for (i = 0; i < n; i++) g[i] = A(y[i], i, c);
    er = script[c]; if (er) break;
    if (call) { c = ex; want(LSET, "linear setup"); if (!!rec[c].jb != (att > 0)) fail("Newton: the linear setup is told that the Jacobian is %s in attempt %d", rec[c].jb ? "bad" : "good", att + 1); jc = jcs[c]; er = script[c]; if (er) break; }
    it = 0;
    for (;;) {
      c = ex; for (i = 0; i < n; i++) m1[i] = -g[i]; want(LSOLVE, "linear solve"); k++; eqv(rec[c].v, m1, "the right-hand side of the linear solve"); for (i = 0; i < n; i++) d[i] = 0.25 * m1[i] + 0.5 * i;
      er = script[c]; if (er) break;
      for (i = 0; i < n; i++) y[i] += d[i];
      c = ex; want(CTEST, "convergence test"); eqv(rec[c].y, y, "the correction tested"); eqv(rec[c].v, d, "the update tested"); if (rec[c].cur != it) fail("Newton: the convergence test sees iteration %d, not %d", rec[c].cur, it);
      er = script[c]; if (er == 0) { done = 1; break; } if (er != 901) break;
      if (++it >= mx) { er = 902; break; }
      c = ex; want(SYS, "residual"); eqv(rec[c].y, y, "the correction"); for (i = 0; i < n; i++) g[i] = A(y[i], i, c); er = script[c]; if (er) break;
    }
    if (done) break;
    if (er > 0 && !jc && lset) { att++; call = 1; for (i = 0; i < n; i++) y[i] = 0; continue; }
    break;
  } else for (;;) {
    int c; if (it >= mx) { er = 902; break; }
    c = ex; want(SYS, "map"); k++; eqv(rec[c].y, y, "the correction"); er = script[c]; if (er) break;
    for (i = 0; i < n; i++) { g[i] = A(y[i], i, c); d[i] = g[i] - y[i]; y[i] = g[i]; }
    c = ex; want(CTEST, "convergence test"); eqv(rec[c].y, y, "the correction tested"); eqv(rec[c].v, d, "the change tested"); if (rec[c].cur != it) fail("fixed point: the convergence test sees iteration %d, not %d", rec[c].cur, it);
    er = script[c]; if (er != 901) break; it++;
  }
  if (ex != nrec) fail("%s: %d calls where %d are due", newton ? "Newton" : "fixed point", nrec, ex);
  if (r != er) fail("%s: returns %d, not %d (calls %d, attempts %d)", newton ? "Newton" : "fixed point", r, er, nrec, att + 1);
  if (er == 0) for (i = 0; i < n; i++) if (fabs(NV_Ith_S(Yc, i) - y[i]) > 1e-9 * (1 + fabs(y[i]))) fail("the correction returned is not the one that was accepted");
  SUNNonlinSolGetNumIters(S, &a); SUNNonlinSolGetNumConvFails(S, &b);
  if (newton ? a != k : r == 0 && a != k) fail("%s: %ld iterations counted, not %d", newton ? "Newton" : "fixed point", a, k);
  if (b != att + (r != 0)) fail("%s: %ld failures counted, not %d", newton ? "Newton" : "fixed point", b, att + (r != 0));
  if (newton && r == 0 && NEWTON_CONTENT(S)->jcur) fail("Newton: after success the Jacobian is still called current");
  if (newton && r != 0 && !!NEWTON_CONTENT(S)->jcur != !!jc) fail("Newton: the Jacobian status is not the one of the linear setup");
  if (!newton) { double be[4] = {0.5, 1, 2, -1}; for (k = 0; k < 4; k++) { double ob = FP_CONTENT(S)->beta; int q = SUNNonlinSolSetDamping_FixedPoint(S, be[k]); if (q != (be[k] <= 0 ? SUN_NLS_ILL_INPUT : 0) || FP_CONTENT(S)->beta != (be[k] <= 0 ? ob : be[k] < 1 ? be[k] : 1)) fail("the damping factor %g is stored as %g, code %d", be[k], FP_CONTENT(S)->beta, q); } }
  SUNNonlinSolFree(S); N_VDestroy(Yc); N_VDestroy(Wt); N_VDestroy(Y0);
}
int main(int argc, char **argv) { int i, reps; begin(argc, argv); reps = argc > 2 ? atoi(argv[2]) : 2000; for (i = 0; i < reps; i++) { one(); execs++; } SUNContext_Free(&ctx); return finish(); }
