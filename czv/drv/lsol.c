/* the linear solver interface of the integrator on random states, against references */
#include "common.h"
#include <sunmatrix/sunmatrix_dense.h>
#include <sunmatrix/sunmatrix_band.h>
#include "src/cvodes/cvodes_ls.c"
#define n 3
static CVodeMem M; static CVLsMem L; static struct _generic_SUNLinearSolver ls; static struct _generic_SUNLinearSolver_Ops op;
static int kind, D, JD, calls, seen[64], code, code2, code3, iters, cur; static SUNMatrix A, J; static N_Vector y, fy, v1, v2, v3, b, w; static double T, tols;
static struct _generic_SUNNonlinearSolver nl, nlo; static struct _generic_SUNNonlinearSolver_Ops no;
static double r1(void) { return ((int)(rnd() % 33) - 16) / 8.0; }
static double rp(void) { return (1 + rnd() % 16) / 8.0; }
static void rv(N_Vector v) { int i; for (i = 0; i < n; i++) NV_Ith_S(v, i) = r1(); }
static int eq(double a, double c) { return fabs(a - c) <= 1e-6 * (1e-3 + fmax(fabs(a), fabs(c))); }
static SUNLinearSolver_Type gt(SUNLinearSolver S) { return kind; }
static int ini(SUNLinearSolver S) { calls++; if (S != &ls) fail("another solver is initialised"); return code; }
static int *jcp, pcur; static int stp(SUNLinearSolver S, SUNMatrix a) { calls++; if (S != &ls || a != L->A) fail("setup gets another solver or matrix"); if (jcp) *jcp = pcur; return code; }
static int szg(SUNLinearSolver S, booleantype on) { seen[0]++; if (!on) fail("the initial guess is said not to be zero"); return 0; }
static int ssv(SUNLinearSolver S, N_Vector a, N_Vector c) { seen[1]++; if (a != w || c != w) fail("other scaling vectors"); return 0; }
static int slv(SUNLinearSolver S, SUNMatrix a, N_Vector x, N_Vector bb, double tol) { int i; calls++; tols = tol; if (S != &ls || a != L->A || bb != b) fail("solve gets other arguments"); if (L->ycur != y || L->fcur != fy) fail("the state of the solver's functions is not the one given"); for (i = 0; i < n; i++) { if (NV_Ith_S(x, i) != 0) fail("the initial guess is not zero"); NV_Ith_S(x, i) = 1 + i; } return code; }
static int nit(SUNLinearSolver S) { return iters; }
static int gci(SUNNonlinearSolver S, int *i) { *i = cur; if (S != &nl) fail("another nonlinear solver is asked for the iteration"); return 0; }
static int ls_atimes(SUNLinearSolver S, void *m, SUNATimesFn f) { return code2; }
static int ls_prec(SUNLinearSolver S, void *m, SUNPSetupFn p, SUNPSolveFn q) { return code3; }
static double jnew(int i, int j) { return 0.25 * i - 0.5 * j + 0.125; }
static int ujac(double t, N_Vector yy, N_Vector ff, SUNMatrix a, void *d, N_Vector p, N_Vector q, N_Vector r) { int i, j; calls++; if (t != T || yy != y || ff != fy || a != A || d != &JD || p != v1 || q != v2 || r != v3) fail("the Jacobian function gets other arguments"); for (i = 0; i < n; i++) for (j = 0; j < n; j++) { if (kind == SUNLINEARSOLVER_DIRECT && SM_ELEMENT_D(a, i, j) != 0) fail("the matrix is not cleared for the Jacobian function"); SM_ELEMENT_D(a, i, j) = jnew(i, j); } return code; }
static int ok_, ucur;
static int ulin(double t, N_Vector yy, N_Vector ff, SUNMatrix a, booleantype jok, booleantype *jc, double g, void *d, N_Vector p, N_Vector q, N_Vector r) { seen[2]++; ok_ = jok; if (t != M->cv_tn || yy != y || ff != fy || a != A || g != M->cv_gamma || d != &JD || p != v1 || q != v2 || r != v3) fail("the system function gets other arguments"); *jc = ucur; return code2; }
static int uset(double t, N_Vector yy, N_Vector ff, booleantype jok, booleantype *jc, double g, void *d) { calls++; ok_ = jok; if (t != M->cv_tn || yy != y || ff != fy || g != M->cv_gamma || d != &D) fail("the preconditioner setup gets other arguments"); *jc = ucur; return code; }
static int usol(double t, N_Vector yy, N_Vector ff, N_Vector r, N_Vector z, double g, double del, int lr, void *d) { calls++; if (t != M->cv_tn || yy != y || ff != fy || r != v1 || z != v2 || g != M->cv_gamma || del != 0.75 || lr != 2 || d != &D) fail("the preconditioner solve gets other arguments"); return code; }
static int ujv(N_Vector v, N_Vector Jv, double t, N_Vector yy, N_Vector ff, void *d, N_Vector tmp) { int i; calls++; if (t != M->cv_tn || yy != y || ff != fy || v != v1 || Jv != v2 || tmp != L->ytemp || d != &D) fail("the product gets other arguments"); for (i = 0; i < n; i++) NV_Ith_S(Jv, i) = 1 + i; return code; }
static int ujs(double t, N_Vector yy, N_Vector ff, void *d) { seen[3]++; if (t != M->cv_tn || yy != y || ff != fy || d != &D) fail("the product setup gets other arguments"); return code2; }
static double fr[64][n]; static double at[64][n]; static int fc[64];
static int rhs(double t, N_Vector yy, N_Vector ff, void *d) { int i, k = calls++; if (k > 60) { fail("too many evaluations"); return -1; } if (t != T || d != &D) fail("the right-hand side gets another time or data"); for (i = 0; i < n; i++) { at[k][i] = NV_Ith_S(yy, i); NV_Ith_S(ff, i) = fr[k][i]; } return fc[k]; }
static void reset(void) {
  int i, j; memset(seen, 0, sizeof seen); calls = code = code2 = code3 = 0; T = r1();
  memset(&op, 0, sizeof op); op.gettype = gt; op.initialize = ini; op.setup = stp; op.setzeroguess = szg; op.solve = slv; op.numiters = nit; ls.ops = &op;
  memset(&no, 0, sizeof no); no.getcuriter = gci; nl.ops = nlo.ops = &no;
  rv(y); rv(fy); rv(v1); rv(v2); rv(v3); rv(b); for (i = 0; i < n; i++) { NV_Ith_S(w, i) = rp(); NV_Ith_S(M->cv_ewt, i) = rp(); }
  for (i = 0; i < n; i++) for (j = 0; j < n; j++) { SM_ELEMENT_D(A, i, j) = r1(); SM_ELEMENT_D(J, i, j) = r1(); }
  M->cv_tn = r1(); M->cv_gamma = rp(); M->cv_gammap = rnd() % 2 ? M->cv_gamma * (1 + (int)(rnd() % 5 - 2) * 0.12) : rp(); M->cv_gamrat = rnd() % 3 ? rp() : 1; M->cv_h = rp() * (rnd() % 2 ? 1 : -1); M->cv_nst = rnd() % 120; M->cv_user_data = &D; M->cv_lmm = 1 + rnd() % 2; M->cv_constraintsSet = 0; M->cv_sensi = 0; M->sens_solve = 0;
  for (i = 1; i < 6; i++) M->cv_tq[i] = rp();
  memset(L, 0, sizeof *L); L->LS = &ls; L->A = A; L->savedJ = J; L->ytemp = v3; L->x = NULL; L->nstlj = rnd() % 120; L->msbj = 1 + rnd() % 60; if (rnd() % 3 == 0) L->nstlj = M->cv_nst - L->msbj + (int)(rnd() % 3) - 1; L->eplifac = rp(); L->nrmfac = rp(); L->nje = rnd() % 9; L->npe = rnd() % 9; L->nli = rnd() % 9; L->nps = rnd() % 9; L->ncfl = rnd() % 9; L->nfeDQ = rnd() % 9; L->njtimes = rnd() % 9; L->njtsetup = rnd() % 9; L->last_flag = 77; L->jbad = rnd() % 2;
  M->cv_lmem = L; kind = rnd() % 4;
}
static int sg(int r) { return r < 0 ? -1 : r > 0; }
static int pickc(void) { int r = rnd() % 4; return r < 2 ? 0 : r == 2 ? 1 + rnd() % 3 : -1 - (int)(rnd() % 3); }
static void t_linsys(void) {
  int i, j, r, jok = rnd() % 2, jc = 7; double g = r1(), s[n][n]; reset(); kind = rnd() % 2 ? SUNLINEARSOLVER_DIRECT : SUNLINEARSOLVER_MATRIX_ITERATIVE; code = pickc(); L->jac = ujac; L->J_data = &JD;
  for (i = 0; i < n; i++) for (j = 0; j < n; j++) s[i][j] = jok ? SM_ELEMENT_D(J, i, j) : jnew(i, j);
  r = cvLsLinSys(T, y, fy, A, jok, &jc, g, M, v1, v2, v3);
  if (calls != !jok) fail("cvLsLinSys: %d evaluations of the Jacobian with jok=%d", calls, jok);
  if (!!jc != !jok) fail("cvLsLinSys: jcur is %d with jok=%d", jc, jok);
  if (r != (jok ? 0 : sg(code))) fail("cvLsLinSys: returns %d for a Jacobian that returns %d", r, code);
  if (L->last_flag != (jok || !code ? 77 : code < 0 ? CVLS_JACFUNC_UNRECVR : CVLS_JACFUNC_RECVR)) fail("cvLsLinSys: remembers %d for a Jacobian that returns %d", L->last_flag, code);
  if (!r) for (i = 0; i < n; i++) for (j = 0; j < n; j++) { if (!eq(SM_ELEMENT_D(A, i, j), (i == j) - g * s[i][j])) fail("cvLsLinSys: entry %d,%d of the matrix is not that of I - gamma J", i, j); if (!eq(SM_ELEMENT_D(J, i, j), s[i][j])) fail("cvLsLinSys: the saved Jacobian is not the one in use"); }
}
static void t_setup(void) {
  int r, jc = 5, cf = rnd() % 3, mat = rnd() % 2, bad, user = rnd() % 2, e; long je, pe, sl; reset(); kind = mat ? (rnd() % 2 ? SUNLINEARSOLVER_DIRECT : SUNLINEARSOLVER_MATRIX_ITERATIVE) : SUNLINEARSOLVER_ITERATIVE; code = pickc(); code2 = pickc(); ucur = rnd() % 2; if (!mat) L->A = NULL; L->user_linsys = user; L->linsys = ulin; L->A_data = &JD; je = L->nje; pe = L->npe; sl = L->nstlj;
  L->pset = uset; jc = rnd() % 2; jcp = mat ? NULL : &jc; pcur = ucur;
  bad = M->cv_nst == 0 || M->cv_nst >= L->nstlj + L->msbj || (cf == CV_FAIL_BAD_J && fabs(M->cv_gamma / M->cv_gammap - 1) < 0.2) || cf == CV_FAIL_OTHER;
  r = cvLsSetup(M, cf, y, fy, &jc, v1, v2, v3); jcp = NULL;
  if (L->ycur != y || L->fcur != fy) fail("cvLsSetup: the state for the solver's functions is not the predicted one");
  if (!!L->jbad != bad) fail("cvLsSetup: jbad is %d (step %ld, last %ld, every %ld, failure %d)", L->jbad, M->cv_nst, sl, L->msbj, cf);
  if (mat) { if (seen[2] != 1) fail("cvLsSetup: %d calls of the system function", seen[2]); if (!!ok_ != !bad) fail("cvLsSetup: the saved Jacobian %s be used (step %ld, last update %ld, every %ld, failure %d)", ok_ ? "may" : "may not", M->cv_nst, sl, L->msbj, cf);
    e = code2 ? (user ? sg(code2) : code2) : code; if (r != e) fail("cvLsSetup: returns %d, not %d", r, e); if (calls != !code2) fail("cvLsSetup: the solver is set up %d times", calls);
    if (user || !code2) if (L->last_flag != (code2 ? (code2 < 0 ? CVLS_JACFUNC_UNRECVR : CVLS_JACFUNC_RECVR) : code)) fail("cvLsSetup: remembers %d", L->last_flag);
    if (L->nje != je + ucur || L->npe != pe) fail("cvLsSetup: Jacobian evaluations %ld, setups %ld", L->nje - je, L->npe - pe); if (!!jc != ucur) fail("cvLsSetup: jcur is %d", jc);
  } else { if (r != code || L->last_flag != code) fail("cvLsSetup: returns %d, not %d", r, code); if (L->npe != pe + ucur || L->nje != je) fail("cvLsSetup: setups %ld", L->npe - pe); if (!!jc != (ucur || bad)) fail("cvLsSetup: jcur is %d", jc); }
  if (L->nstlj != (ucur ? M->cv_nst : sl)) fail("cvLsSetup: the step of the last update is %ld", L->nstlj);
}
static void t_solve(void) {
  static int cs[] = {0, 0, 0, 0, 801, 802, 803, 804, 805, 806, 807, 808, -801, -802, -803, -804, -805, -806, -807, -808, -809, -810, -811, -812}; int i, r, it, sv, jt, e, ism, sm, sgi; double nb = 0, wm = 0, tol, B[n], s; long li, cf, js; N_Vector x = N_VClone(y); reset();
  L->x = x; it = L->iterative = rnd() % 2; kind = it ? SUNLINEARSOLVER_ITERATIVE : SUNLINEARSOLVER_DIRECT; sv = rnd() % 2; jt = rnd() % 2; if (sv) op.setscalingvectors = ssv; L->jtsetup = jt ? ujs : NULL; L->jt_data = &D; if (jt) code2 = rnd() % 4 ? 0 : pickc(); L->scalesol = rnd() % 2; cur = rnd() % 3; iters = rnd() % 5; code = cs[rnd() % (sizeof cs / sizeof *cs)];
  sgi = rnd() % 4; M->cv_sensi = sgi > 0; ism = M->cv_ism = sgi; M->sens_solve = sm = rnd() % 2; M->NLS = M->NLSsim = M->NLSstg = M->NLSstg1 = &nlo; if (ism == CV_SIMULTANEOUS) M->NLSsim = &nl; else if (ism == CV_STAGGERED && sm) M->NLSstg = &nl; else if (ism == CV_STAGGERED1 && sm) M->NLSstg1 = &nl; else M->NLS = &nl;
  li = L->nli; cf = L->ncfl; js = L->njtsetup; for (i = 0; i < n; i++) { B[i] = NV_Ith_S(b, i); s = B[i] * NV_Ith_S(w, i); nb += s * s; wm += NV_Ith_S(w, i) * NV_Ith_S(w, i); } nb = sqrt(nb / n); wm = sqrt(wm / n);
  r = cvLsSolve(M, b, w, y, fy);
  if (it && nb <= L->eplifac * M->cv_tq[4]) { if (calls) fail("cvLsSolve: a right-hand side that is small enough is solved for"); if (r || L->last_flag) fail("cvLsSolve: returns %d for a small right-hand side", r); for (i = 0; i < n; i++) if (NV_Ith_S(b, i) != (cur > 0 ? 0 : B[i])) fail("cvLsSolve: the correction for a small right-hand side is wrong (iteration %d)", cur); N_VDestroy(x); return; }
  if (seen[0] != 1 || seen[1] != sv || seen[3] != jt) fail("cvLsSolve: preparations %d %d %d", seen[0], seen[1], seen[3]);
  if (L->njtsetup != js + jt) fail("cvLsSolve: product setups %ld", L->njtsetup - js);
  if (jt && code2) { if (calls || r != code2 || L->last_flag != code2) fail("cvLsSolve: a product setup that fails gives %d", r); N_VDestroy(x); return; }
  if (calls != 1) { fail("cvLsSolve: %d solves", calls); N_VDestroy(x); return; }
  tol = it ? L->eplifac * M->cv_tq[4] * L->nrmfac / (sv ? 1 : wm) : 0; if (!eq(tols, tol)) fail("cvLsSolve: tolerance %g, not %g", tols, tol);
  s = L->scalesol ? 2 / (1 + M->cv_gamrat) : 1; for (i = 0; i < n; i++) if (!eq(NV_Ith_S(b, i), s * (1 + i))) fail("cvLsSolve: the correction is %g times the solution, not %g", NV_Ith_S(b, i) / (1 + i), s);
  if (L->nli != li + (it ? iters : 0) || L->ncfl != cf + (code != 0) || L->last_flag != code) fail("cvLsSolve: iterations %ld, failures %ld, last flag %d", L->nli - li, L->ncfl - cf, L->last_flag);
  e = code == 0 ? 0 : code == 801 ? cur != 0 : code > 0 ? 1 : -1; if (r != e) fail("cvLsSolve: the solver's code %d gives %d, not %d", code, r, e); N_VDestroy(x);
}
static void t_dq(void) {
  int i, j, k, r, cons = rnd() % 2, nev; double u, fn = 0, mi, inc[n], Y[n], F[n], s; N_Vector cv = N_VClone(y); reset(); u = M->cv_uround; M->cv_f = rhs; M->cv_tempv = v2; M->cv_constraints = cv; M->cv_constraintsSet = cons; k = (int)L->nfeDQ;
  for (i = 0; i < n; i++) { NV_Ith_S(cv, i) = (int)(rnd() % 5) - 2; if (rnd() % 2) NV_Ith_S(y, i) = 0; if (rnd() % 6 == 0) NV_Ith_S(y, i) *= 1e-9; else if (rnd() % 4 == 0) NV_Ith_S(y, i) *= 100; if (rnd() % 4 == 0) NV_Ith_S(fy, i) = 0; } if (rnd() % 5 == 0) N_VConst(0, fy); M->cv_h *= rnd() % 2 ? 1 : 1e5;
  for (i = 0; i < n; i++) { Y[i] = NV_Ith_S(y, i); F[i] = NV_Ith_S(fy, i); s = F[i] * NV_Ith_S(M->cv_ewt, i); fn += s * s; } fn = sqrt(fn / n); mi = fn != 0 ? 1000 * fabs(M->cv_h) * u * n * fn : 1;
  for (j = 0; j < n; j++) { double c = NV_Ith_S(cv, j); inc[j] = fmax(sqrt(u) * fabs(Y[j]), mi / NV_Ith_S(M->cv_ewt, j)); if (cons && ((fabs(c) == 1 && (Y[j] + inc[j]) * c < 0) || (fabs(c) == 2 && (Y[j] + inc[j]) * c <= 0))) inc[j] = -inc[j]; }
  nev = n; for (i = 0; i < 60; i++) { fc[i] = rnd() % 10 ? 0 : rnd() % 2 ? 2 : -3; for (j = 0; j < n; j++) fr[i][j] = r1(); } for (i = 0; i < n; i++) if (fc[i]) { nev = i + 1; break; }
  r = cvLsDQJac(T, y, fy, A, M, v1, v2, v3);
  if (calls != nev || L->nfeDQ != k + nev) fail("difference quotients: %d evaluations, %ld counted, not %d", calls, L->nfeDQ - k, nev); if (r != (nev ? fc[nev - 1] : 0)) fail("difference quotients: result %d, not %d", r, fc[nev - 1]);
  for (k = 0; k < calls && k < n; k++) for (i = 0; i < n; i++) if (at[k][i] != (i == k ? Y[i] + inc[i] : Y[i])) fail("difference quotients: evaluation %d perturbs component %d by %g, not %g", k, i, at[k][i] - Y[i], i == k ? inc[i] : 0);
  if (!r) for (j = 0; j < n; j++) for (i = 0; i < n; i++) { if (!eq(SM_ELEMENT_D(A, i, j) * inc[j], fr[j][i] - F[i])) fail("difference quotients: entry %d,%d is %g, not %g", i, j, SM_ELEMENT_D(A, i, j), (fr[j][i] - F[i]) / inc[j]); if (NV_Ith_S(y, j) != Y[j]) fail("difference quotients: the state is not restored"); } N_VDestroy(cv);
}
static void t_jv(void) {
  int i, k, r, e; double nv = 0, s; long c0, c1; reset(); L->jt_f = rhs; c0 = L->nfeDQ; for (i = 0; i < n; i++) { s = NV_Ith_S(v1, i) * NV_Ith_S(M->cv_ewt, i); nv += s * s; } nv = sqrt(nv / n); if (nv == 0) return; for (k = 0; k < 60; k++) { fc[k] = rnd() % 2 ? 0 : rnd() % 5 ? 1 : -2; for (i = 0; i < n; i++) fr[k][i] = r1(); }
  r = cvLsDQJtimes(v1, v2, T, y, fy, M, v3); for (k = 0; k < 3; k++) if (fc[k] <= 0) break; e = k == 3 ? 1 : fc[k] < 0 ? -1 : 0; if (k == 3) k = 2;
  if (r != e) fail("cvLsDQJtimes: returns %d, not %d", r, e); if (calls != k + 1 || L->nfeDQ != c0 + k + 1) fail("cvLsDQJtimes: %d evaluations, %ld counted, not %d", calls, L->nfeDQ - c0, k + 1);
  for (e = 0; e < calls && e < 3; e++) for (i = 0; i < n; i++) if (!eq(at[e][i], NV_Ith_S(y, i) + NV_Ith_S(v1, i) / nv * pow(0.25, e)) ) fail("cvLsDQJtimes: evaluation %d is at another point", e);
  if (!r) for (i = 0; i < n; i++) if (!eq(NV_Ith_S(v2, i), (fr[k][i] - NV_Ith_S(fy, i)) * nv * pow(4, k))) fail("cvLsDQJtimes: the product is not the difference quotient");
  reset(); L->jtimes = ujv; L->jt_data = &D; L->ycur = y; L->fcur = fy; code = pickc(); c0 = L->njtimes; r = cvLsATimes(M, v1, v2); if (r != code || calls != 1 || L->njtimes != c0 + 1) fail("cvLsATimes: returns %d after %d products, %ld counted", r, calls, L->njtimes - c0); if (!r) for (i = 0; i < n; i++) if (!eq(NV_Ith_S(v2, i), NV_Ith_S(v1, i) - M->cv_gamma * (1 + i))) fail("cvLsATimes: not v - gamma J v");
  reset(); L->pset = uset; L->psolve = usol; L->P_data = &D; L->ycur = y; L->fcur = fy; code = pickc(); ucur = rnd() % 2; M->cv_jcur = !ucur; r = cvLsPSetup(M); if (r != code || calls != 1 || !!ok_ != !L->jbad || !!M->cv_jcur != ucur) fail("cvLsPSetup: returns %d after %d calls (jok %d jbad %d)", r, calls, ok_, L->jbad);
  c1 = L->nps; r = cvLsPSolve(M, v1, v2, 0.75, 2); if (r != code || calls != 2 || L->nps != c1 + 1) fail("cvLsPSolve: returns %d after %d calls, %ld counted", r, calls - 1, L->nps - c1);
}
static void t_init(void) {
  int r, mat = rnd() % 2, jdq, jtd, ul, ps, e, sc; CVLsLinSysFn lf; reset(); if (!mat) L->A = NULL, L->savedJ = NULL; kind = mat ? (rnd() % 2 ? SUNLINEARSOLVER_DIRECT : SUNLINEARSOLVER_MATRIX_ITERATIVE) : rnd() % 2 ? SUNLINEARSOLVER_ITERATIVE : SUNLINEARSOLVER_MATRIX_EMBEDDED; code = pickc(); jdq = L->jacDQ = rnd() % 2; jtd = L->jtimesDQ = rnd() % 2; ul = L->user_linsys = rnd() % 2; ps = rnd() % 2; sc = L->scalesol = rnd() % 2; L->pset = ps ? uset : NULL; L->jac = ujac; L->linsys = ulin; L->jtimes = ujv; L->jtsetup = ujs; M->cv_lsetup = cvLsSetup; L->J_data = L->A_data = L->jt_data = &JD;
  r = cvLsInitialize(M); if (r != code || L->last_flag != code || calls != 1) fail("cvLsInitialize: returns %d, not %d", r, code);
  if (L->nje || L->nfeDQ || L->nstlj || L->npe || L->nli || L->nps || L->ncfl || L->njtsetup || L->njtimes) fail("cvLsInitialize: a count does not start from zero");
  if (mat && ul) { if (L->linsys != ulin || L->A_data != &D) fail("cvLsInitialize: the user's system function or its data"); }
  else if (mat) { if (L->linsys != cvLsLinSys || L->A_data != M) fail("cvLsInitialize: the internal system function or its data"); if (jdq ? L->jac != cvLsDQJac || L->J_data != M : L->jac != ujac || L->J_data != &D) fail("cvLsInitialize: the Jacobian function or its data"); if (L->savedJ != J) fail("cvLsInitialize: the saved Jacobian is replaced"); }
  else if (L->jac || L->J_data || L->linsys || L->A_data || L->jacDQ || L->user_linsys) fail("cvLsInitialize: functions for a matrix that is not there");
  if (jtd ? L->jtsetup != NULL || L->jtimes != cvLsDQJtimes || L->jt_data != M : L->jtsetup != ujs || L->jtimes != ujv || L->jt_data != &D) fail("cvLsInitialize: the product or its data");
  e = kind == SUNLINEARSOLVER_MATRIX_EMBEDDED || (!mat && !ps); if (M->cv_lsetup != (e ? NULL : cvLsSetup)) fail("cvLsInitialize: the setup is %s", M->cv_lsetup ? "there" : "not there"); if (!!L->scalesol != (kind == SUNLINEARSOLVER_MATRIX_EMBEDDED ? 0 : sc)) fail("cvLsInitialize: scaling of the solution");
}
static void t_set(void) {
  double d[] = {-0.5, 0, 0.25, 2}, x; long q[] = {-1, 0, 1, 20}, o; int i, r, mat; reset(); if (!(mat = rnd() % 2)) L->A = NULL; L->matrixbased = rnd() % 2;
  for (i = 0; i < 4; i++) { x = L->eplifac; r = CVodeSetEpsLin(M, d[i]); if (r != (d[i] < 0 ? CVLS_ILL_INPUT : 0) || L->eplifac != (d[i] < 0 ? x : d[i] == 0 ? 0.05 : d[i])) fail("CVodeSetEpsLin(%g): code %d, value %g", d[i], r, L->eplifac); o = L->msbj; r = CVodeSetJacEvalFrequency(M, q[i]); if (r != (q[i] < 0 ? CVLS_ILL_INPUT : 0) || L->msbj != (q[i] < 0 ? o : q[i] == 0 ? 51 : q[i])) fail("CVodeSetJacEvalFrequency(%ld): code %d, value %ld", q[i], r, L->msbj); r = CVodeSetLSNormFactor(M, d[i]); if (r || !eq(L->nrmfac, d[i] > 0 ? d[i] : sqrt(n))) fail("CVodeSetLSNormFactor(%g): code %d, value %g", d[i], r, L->nrmfac); }
  for (i = 0; i < 2; i++) { int ok = L->matrixbased && M->cv_lmm == CV_BDF, b0 = L->scalesol; r = CVodeSetLinearSolutionScaling(M, i); if (r != (ok ? 0 : CVLS_ILL_INPUT) || L->scalesol != (ok ? i : b0)) fail("CVodeSetLinearSolutionScaling(%d): code %d, value %d", i, r, L->scalesol); }
  r = CVodeSetLinSysFn(M, ulin); if (r != (mat ? 0 : CVLS_ILL_INPUT) || (mat && (L->linsys != ulin || L->A_data != &D || !L->user_linsys))) fail("CVodeSetLinSysFn: code %d", r);
  r = CVodeSetJacFn(M, ujac); if (r != (mat ? 0 : CVLS_ILL_INPUT) || (mat && (L->jac != ujac || L->J_data != &D || L->jacDQ || L->linsys != cvLsLinSys || L->A_data != M || L->user_linsys))) fail("CVodeSetJacFn: code %d", r);
  r = CVodeSetLinSysFn(M, ulin); r = CVodeSetLinSysFn(M, NULL); if (r || L->linsys != cvLsLinSys || L->A_data != M || L->user_linsys) fail("CVodeSetLinSysFn(NULL): code %d", r);
  if (rnd() % 2) CVodeSetLinSysFn(M, ulin); r = CVodeSetJacFn(M, NULL); if (r || L->jac != cvLsDQJac || L->J_data != M || !L->jacDQ || L->linsys != cvLsLinSys || L->A_data != M || L->user_linsys) fail("CVodeSetJacFn(NULL): code %d", r);
}
static void t_attach(void) {
  int r, mat = rnd() % 2, e, lmm = 1 + rnd() % 2; CVLsMem g; reset(); M->cv_lmm = lmm; M->cv_lmem = NULL; M->cv_lfree = NULL; M->cv_f = rhs; M->cv_tempv = v2; op.setatimes = rnd() % 4 ? ls_atimes : NULL; op.setpreconditioner = rnd() % 2 ? ls_prec : NULL; if (rnd() % 8 == 0) op.solve = NULL;
  code2 = code3 = 0; e = !op.solve || (kind == SUNLINEARSOLVER_MATRIX_EMBEDDED && mat) || (kind == SUNLINEARSOLVER_ITERATIVE && !op.setatimes) || ((kind == SUNLINEARSOLVER_DIRECT || kind == SUNLINEARSOLVER_MATRIX_ITERATIVE) && !mat) ? CVLS_ILL_INPUT : 0;
  r = CVodeSetLinearSolver(M, &ls, mat ? A : NULL); if (r != e) fail("CVodeSetLinearSolver: returns %d, not %d (kind %d, %s matrix)", r, e, kind, mat ? "a" : "no"); if (r) { M->cv_lmem = L; return; }
  g = M->cv_lmem; if (g->LS != &ls || g->A != (mat ? A : NULL) || g->savedJ || !!g->iterative != (kind != SUNLINEARSOLVER_DIRECT) || !!g->matrixbased != (kind == SUNLINEARSOLVER_DIRECT || kind == SUNLINEARSOLVER_MATRIX_ITERATIVE)) fail("CVodeSetLinearSolver: kind of the solver");
  if (g->jac != (mat ? cvLsDQJac : NULL) || g->J_data != (mat ? (void *)M : NULL) || !!g->jacDQ != mat || g->jtimes != cvLsDQJtimes || g->jt_data != M || !g->jtimesDQ || g->jtsetup || g->jt_f != rhs || g->linsys != cvLsLinSys || g->A_data != M || g->user_linsys || g->pset || g->psolve || g->pfree || g->P_data != &D) fail("CVodeSetLinearSolver: the default functions");
  if (g->msbj != 51 || g->eplifac != 0.05 || g->last_flag || !g->jbad || g->nje || g->npe || g->nli || g->ncfl || g->nstlj || (kind != SUNLINEARSOLVER_DIRECT && !eq(g->nrmfac, sqrt(n))) || !!g->scalesol != (g->matrixbased && lmm == CV_BDF)) fail("CVodeSetLinearSolver: the default values");
  if (M->cv_linit != cvLsInitialize || M->cv_lsetup != cvLsSetup || M->cv_lsolve != cvLsSolve || M->cv_lfree != cvLsFree) fail("CVodeSetLinearSolver: the functions of the interface");
  /* a second solver, whose attachment may fail */
  kind = SUNLINEARSOLVER_ITERATIVE; op.solve = slv; op.setatimes = ls_atimes; op.setpreconditioner = ls_prec; code2 = rnd() % 2 ? 0 : -3; code3 = rnd() % 2 ? 0 : 4; r = CVodeSetLinearSolver(M, &ls, NULL); if (r != (code2 || code3 ? CVLS_SUNLS_FAIL : 0)) fail("CVodeSetLinearSolver: returns %d for a second solver", r);
  if (r && M->cv_lmem) { fail("CVodeSetLinearSolver: a failure leaves a released block attached"); M->cv_lmem = NULL; } else if (M->cv_lmem) M->cv_lfree(M);
  M->cv_lmem = L; M->cv_lfree = NULL;
}
static void eh(int c, const char *a, const char *f, char *m, void *d) {}
int main(int argc, char **argv) {
  int i, reps; begin(argc, argv); reps = argc > 2 ? atoi(argv[2]) : 2000; M = CVodeCreate(CV_BDF, ctx); CVodeSetErrHandlerFn(M, eh, NULL); L = malloc(sizeof *L); y = N_VNew_Serial(n, ctx); fy = N_VClone(y); v1 = N_VClone(y); v2 = N_VClone(y); v3 = N_VClone(y); b = N_VClone(y); w = N_VClone(y); M->cv_ewt = N_VClone(y); A = SUNDenseMatrix(n, n, ctx); J = SUNDenseMatrix(n, n, ctx);
  for (i = 0; i < reps; i++) { t_linsys(); t_setup(); t_solve(); t_dq(); t_jv(); t_init(); t_set(); t_attach(); execs += 8; }
  M->cv_lmem = NULL; M->cv_lfree = NULL; N_VDestroy(M->cv_ewt); M->cv_ewt = NULL; free(L); N_VDestroy(y); N_VDestroy(fy); N_VDestroy(v1); N_VDestroy(v2); N_VDestroy(v3); N_VDestroy(b); N_VDestroy(w); SUNMatDestroy(A); SUNMatDestroy(J); SUNContext_Free(&ctx); return finish();
}
