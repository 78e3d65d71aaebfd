/* the solves of one step attempt and the functions given to the nonlinear solver, called one by one on random states with recording stand-ins */
#include "common.h"
#include "cvodes.c"
#include "cvodes_nls.c"
#include "cvodes_nls_sim.c"
#include "cvodes_nls_stg.c"
#include "cvodes_nls_stg1.c"
#include <sundials/sundials_nvector_senswrapper.h>
#define n 3
#define NS 2
static CVodeMem M; static N_Vector Y, YQ, *YS, *YQS; static int ism, quad, ls, rootf, hassetup;
static SUNNonlinearSolver MK, OTHER;
static double z[2][NS + 1][n], zq[2][NS + 1][n], cor[NS + 1][n]; /* row 0 the state, row 1 + k sensitivity k */
static int fret, sret, qret, qsret, nf_, ns_, nq_, nqs_; static double UDATA;
static double F(double t, double y, int i) { return 0.5 * y * y - t + i; }
static double G(double yd, double s, double y, int k, int i) { return s * y - 0.5 * yd + k + 0.25 * i; }
static int close2(double a, double b) { return fabs(a - b) <= 1e-9 * (1 + fabs(b)); }
static const char *what;
#define WANT(x, w, ...) do { double x_ = (x), w_ = (w); if (!close2(x_, w_)) { char b_[200]; snprintf(b_, sizeof b_, __VA_ARGS__); fail("%s (sensitivities %d, %s, linear solver %d): %s is %.12g, not %.12g", what, ism, rootf ? "root finding" : "fixed point", ls, b_, x_, w_); } } while (0)
static int f_(realtype t, N_Vector y, N_Vector d, void *u) { int i; nf_++; if (u != &UDATA) fail("%s: the right-hand side is given other user data", what); for (i = 0; i < n; i++) NV_Ith_S(d, i) = F(t, NV_Ith_S(y, i), i); return fret; }
static int fs1_(int Ns, realtype t, N_Vector y, N_Vector yd, int k, N_Vector s, N_Vector sd, void *u, N_Vector a, N_Vector b) {
  int i; ns_++; if (u != &UDATA || Ns != NS) fail("%s: the sensitivity right-hand side is given other data", what);
  for (i = 0; i < n; i++) NV_Ith_S(sd, i) = G(NV_Ith_S(yd, i), NV_Ith_S(s, i), NV_Ith_S(y, i), k, i);
  return sret; }
static int fs_(int Ns, realtype t, N_Vector y, N_Vector yd, N_Vector *s, N_Vector *sd, void *u, N_Vector a, N_Vector b) { int k; for (k = 0; k < Ns; k++) fs1_(Ns, t, y, yd, k, s[k], sd[k], u, a, b); ns_ -= Ns - 1; return sret; }
static int fq_(realtype t, N_Vector y, N_Vector d, void *u) { int i; nq_++; if (u != &UDATA) fail("%s: the quadrature function is given other user data", what); for (i = 0; i < n; i++) NV_Ith_S(d, i) = F(t, NV_Ith_S(y, i), i) + 1; return qret; }
static int fqs_(int Ns, realtype t, N_Vector y, N_Vector *s, N_Vector yq, N_Vector *d, void *u, N_Vector a, N_Vector b) { int k, i; nqs_++; if (u != &UDATA) fail("%s: the quadrature sensitivity function is given other user data", what); for (k = 0; k < Ns; k++) for (i = 0; i < n; i++) NV_Ith_S(d[k], i) = G(NV_Ith_S(yq, i), NV_Ith_S(s[k], i), NV_Ith_S(y, i), k, i); return qsret; }
static void quiet(int a, const char *b, const char *c, char *d, void *e) {}
static double pos(void) { return (1 + rnd() % 20) / 8.0; }
/* recording nonlinear solver */
static struct { SUNNonlinSolSysFn sys; SUNNonlinSolLSetupFn lset; SUNNonlinSolLSolveFn lsol; SUNNonlinSolConvTestFn ct; int ninit, nsetup, nsolve, iter, cs, r, initr, setupr, freed; double tol, ac[NS + 1][n], z0[NS + 1][n]; int cur; double nrm; N_Vector y0, yc, w; } R;
static SUNNonlinearSolver_Type k_type(SUNNonlinearSolver S) { return rootf ? SUNNONLINEARSOLVER_ROOTFIND : SUNNONLINEARSOLVER_FIXEDPOINT; }
static int k_init(SUNNonlinearSolver S) { R.ninit++; return R.initr; }
static int wrapped(void) { return ism == CV_SIMULTANEOUS || ism == CV_STAGGERED; }
static N_Vector part(N_Vector v, int row) { return ism == CV_SIMULTANEOUS ? NV_VEC_SW(v, row) : ism == CV_STAGGERED ? NV_VEC_SW(v, row - 1) : v; }
static int lo(void) { return ism == CV_STAGGERED || ism == CV_STAGGERED1 ? 1 : 0; }
static int hi(void) { return ism == 0 ? 0 : ism == CV_STAGGERED1 ? 1 : NS; } /* rows lo..hi; one by one: row 1 stands for sensitivity isx */
static int isx;
static int k_setup(SUNNonlinearSolver S, N_Vector y, void *m) { R.nsetup++; if (S != MK) fail("%s: another solver is set up", what); R.yc = y; return R.setupr; }
static int k_solve(SUNNonlinearSolver S, N_Vector y0, N_Vector yc, N_Vector w, realtype tol, booleantype cs, void *m) {
  int r, i; N_Vector v;
  R.nsolve++; R.cs = cs; R.tol = tol; R.y0 = y0; R.w = w;
  if (S != MK) fail("%s: another solver is used", what);
  for (r = lo(); r <= hi(); r++) { v = part(yc, r); for (i = 0; i < n; i++) if (NV_Ith_S(v, i) != 0) fail("%s (sensitivities %d): the correction starts at %g", what, ism, NV_Ith_S(v, i)); }
  for (r = lo(); r <= hi(); r++) { v = part(y0, r); for (i = 0; i < n; i++) R.z0[r][i] = NV_Ith_S(v, i); v = part(yc, r); for (i = 0; i < n; i++) NV_Ith_S(v, i) = R.ac[r][i] = cor[r][i]; }
  if (ism >= CV_STAGGERED && !M->sens_solve) fail("%s: sens_solve is not set during the solve", what);
  M->cv_acnrmcur = R.cur; M->cv_acnrm = R.nrm; M->cv_jcur = 1;
  return R.r; }
static int k_free(SUNNonlinearSolver S) { R.freed++; return 0; }
static int k_sys(SUNNonlinearSolver S, SUNNonlinSolSysFn f) { R.sys = f; return 0; }
static int k_ls(SUNNonlinearSolver S, SUNNonlinSolLSetupFn f) { R.lset = f; return 0; }
static int k_lsol(SUNNonlinearSolver S, SUNNonlinSolLSolveFn f) { R.lsol = f; return 0; }
static int k_ct(SUNNonlinearSolver S, SUNNonlinSolConvTestFn f, void *d) { R.ct = f; if (d != M) fail("%s: the convergence test gets other data", what); return 0; }
static int k_max(SUNNonlinearSolver S, int m) { return 0; }
static int k_it(SUNNonlinearSolver S, long *k) { *k = 3; return 0; }
static int k_cur(SUNNonlinearSolver S, int *k) { *k = R.iter; return 0; }
static int o_it(SUNNonlinearSolver S, long *k) { fail("%s: another solver is asked for its iterations", what); *k = 50; return 0; }
static SUNNonlinearSolver mock(void) {
  SUNNonlinearSolver S = SUNNonlinSolNewEmpty(ctx);
  S->ops->gettype = k_type; S->ops->initialize = k_init; S->ops->solve = k_solve; S->ops->free = k_free; S->ops->setsysfn = k_sys; S->ops->setlsetupfn = k_ls; S->ops->setlsolvefn = k_lsol; S->ops->setctestfn = k_ct; S->ops->setmaxiters = k_max; S->ops->getnumiters = k_it; S->ops->getcuriter = k_cur; S->ops->setup = hassetup ? k_setup : NULL;
  return S; }
/* recording linear solver */
static struct { int conv, cnt, r, jc, ns, rs; N_Vector y, f, w[NS + 1]; int fail_at; } L;
static int l_setup(CVodeMem m, int conv, N_Vector y, N_Vector f, booleantype *jc, N_Vector a, N_Vector b, N_Vector c) { L.cnt++; L.conv = conv; L.y = y; L.f = f; *jc = L.jc; return L.r; }
static int l_solve(CVodeMem m, N_Vector b, N_Vector w, N_Vector y, N_Vector f) { L.w[L.ns] = w; L.y = y; L.f = f; N_VScale(2, b, b); return ++L.ns == L.fail_at ? L.rs : 0; }
static void make(void) {
  int k; double ab[NS] = {1, 1};
  what = "creation";
  Y = N_VNew_Serial(n, ctx); N_VConst(1, Y); YQ = N_VNew_Serial(n, ctx); N_VConst(0, YQ); YS = N_VCloneVectorArray(NS, Y); YQS = N_VCloneVectorArray(NS, YQ);
  for (k = 0; k < NS; k++) { N_VConst(0, YS[k]); N_VConst(0, YQS[k]); }
  M = CVodeCreate(CV_BDF, ctx); CVodeSetErrHandlerFn(M, quiet, NULL); CVodeInit(M, f_, 0, Y); CVodeSStolerances(M, 1, 1); CVodeSetUserData(M, &UDATA);
  if (quad) { CVodeQuadInit(M, fq_, YQ); CVodeQuadSStolerances(M, 1, 1); }
  if (ism) { if (ism == CV_STAGGERED1) CVodeSensInit1(M, NS, ism, fs1_, YS); else CVodeSensInit(M, NS, ism, fs_, YS); CVodeSensSStolerances(M, 1, ab); if (quad) CVodeQuadSensInit(M, fqs_, YQS); }
  memset(&R, 0, sizeof R); M->cv_y = N_VClone(Y);
  MK = mock(); hassetup = !hassetup; OTHER = mock(); hassetup = !hassetup; OTHER->ops->getnumiters = o_it;
  if (ism) { k = CVodeSetNonlinearSolver(M, OTHER); if (k) fail("CVodeSetNonlinearSolver returns %d", k); OTHER->ops->setsysfn = NULL; }
  k = ism == 0 ? CVodeSetNonlinearSolver(M, MK) : ism == CV_SIMULTANEOUS ? CVodeSetNonlinearSolverSensSim(M, MK) : ism == CV_STAGGERED ? CVodeSetNonlinearSolverSensStg(M, MK) : CVodeSetNonlinearSolverSensStg1(M, MK);
  if (k) fail("the nonlinear solver is refused with %d (sensitivities %d)", k, ism);
  M->cv_lsetup = ls ? l_setup : NULL; M->cv_lsolve = ls ? l_solve : NULL;
  k = ism == 0 ? cvNlsInit(M) : ism == CV_SIMULTANEOUS ? cvNlsInitSensSim(M) : ism == CV_STAGGERED ? cvNlsInitSensStg(M) : cvNlsInitSensStg1(M);
  WANT(k, 0, "the result of the initialisation"); WANT(R.ninit, 1, "the number of initialisations"); WANT(R.lset != NULL, ls, "a linear setup installed"); WANT(R.lsol != NULL, ls, "a linear solve installed");
  if (!R.sys || !R.ct) fail("no system or convergence test is installed");
  if (ism == 0 && CVodeSetNonlinearSolver(M, NULL) != CV_ILL_INPUT) fail("a missing nonlinear solver is accepted");
  if (CVodeSetNonlinearSolver(NULL, MK) != CV_MEM_NULL) fail("a missing integrator is accepted");
}
static void unmake(void) { void *p = M; N_VDestroy(M->cv_y); M->cv_y = NULL; CVodeFree(&p); SUNNonlinSolFreeEmpty(MK); SUNNonlinSolFreeEmpty(OTHER); N_VDestroy(Y); N_VDestroy(YQ); N_VDestroyVectorArray(YS, NS); N_VDestroyVectorArray(YQS, NS); }
static void state(void) {
  int j, k, i;
  fret = rnd() % 6 ? 0 : rnd() % 2 ? 1 : -1; sret = rnd() % 6 ? 0 : rnd() % 2 ? 1 : -1; qret = rnd() % 4 ? 0 : rnd() % 2 ? 1 : -1; qsret = rnd() % 4 ? 0 : rnd() % 2 ? 1 : -1;
  M->cv_tn = small(); M->cv_h = pos() * (rnd() % 4 ? 1 : -1); M->cv_rl1 = pos(); M->cv_gamma = M->cv_h * M->cv_rl1; M->cv_gammap = pos(); M->cv_gamrat = 1 + ((int)(rnd() % 9) - 4) / 8.0; M->cv_crate = pos() / 2; M->cv_crateS = pos() / 2; M->cv_delp = pos(); M->cv_tq[4] = pos(); M->cv_nst = rnd() % 3 ? 10 + rnd() % 40 : 0; M->cv_nstlp = rnd() % (M->cv_nst + 1); M->cv_msbp = 20;
  M->cv_q = 2; M->cv_L = 3; M->cv_errconS = rnd() % 2; M->cv_errconQ = rnd() % 2; M->cv_forceSetup = rnd() % 6 == 0; M->convfail = rnd() % 3; M->cv_constraintsSet = 0; M->cv_nni = 7; M->cv_nniS = 9; M->cv_nfe = M->cv_nfSe = M->cv_nfQe = M->cv_nfQSe = 0; M->cv_nsetups = 4; M->cv_nsetupsS = 6; M->cv_hmin = 0; M->cv_eta = 0.75;
  nf_ = ns_ = nq_ = nqs_ = 0; isx = rnd() % NS;
  for (j = 0; j < 2; j++) for (k = 0; k <= NS; k++) for (i = 0; i < n; i++) {
    z[j][k][i] = small(); zq[j][k][i] = small();
    if (k == 0) NV_Ith_S(M->cv_zn[j], i) = z[j][k][i]; else if (ism) NV_Ith_S(M->cv_znS[j][k - 1], i) = z[j][k][i];
    if (quad) { if (k == 0) NV_Ith_S(M->cv_znQ[j], i) = zq[j][k][i]; else if (ism) NV_Ith_S(M->cv_znQS[j][k - 1], i) = zq[j][k][i]; } }
  for (k = 0; k <= NS; k++) for (i = 0; i < n; i++) { cor[k][i] = small(); if (k == 0) { NV_Ith_S(M->cv_ewt, i) = pos(); NV_Ith_S(M->cv_acor, i) = small(); NV_Ith_S(M->cv_y, i) = small(); NV_Ith_S(M->cv_ftemp, i) = small(); } else if (ism) { NV_Ith_S(M->cv_ewtS[k - 1], i) = pos(); NV_Ith_S(M->cv_acorS[k - 1], i) = small(); NV_Ith_S(M->cv_yS[k - 1], i) = small(); } }
}
static double norm(double *v, N_Vector w) { double s = 0; int i; for (i = 0; i < n; i++) s += v[i] * NV_Ith_S(w, i) * v[i] * NV_Ith_S(w, i); return sqrt(s / n); }
static N_Vector wt(int row) { return row == 0 ? M->cv_ewt : M->cv_ewtS[ism == CV_STAGGERED1 ? isx : row - 1]; }
static int sidx(int row) { return ism == CV_STAGGERED1 ? isx : row - 1; }
static N_Vector vec(void) { N_Vector v; int r; if (!wrapped()) return N_VClone(Y); v = N_VNewEmpty_SensWrapper(hi() - lo() + 1, ctx); NV_OWN_VECS_SW(v) = SUNTRUE; for (r = 0; r <= hi() - lo(); r++) NV_VEC_SW(v, r) = N_VClone(Y); return v; }
static void fill(N_Vector v, double d[][n]) { int r, i; for (r = lo(); r <= hi(); r++) for (i = 0; i < n; i++) NV_Ith_S(part(v, r), i) = d[r][i]; }
static void functions(void) {
  N_Vector c = vec(), d = vec(), w = vec(); int r, i, k, e; double fy[n], y[n], wantv;
  /* the system */
  what = rootf ? "residual" : "fixed point map"; state(); execs++; fill(c, cor); M->sens_solve_idx = isx; M->sens_solve = ism >= CV_STAGGERED;
  for (i = 0; i < n; i++) { if (lo() == 0) { y[i] = z[0][0][i] + cor[0][i]; fy[i] = F(M->cv_tn, y[i], i); } else { y[i] = NV_Ith_S(M->cv_y, i); fy[i] = NV_Ith_S(M->cv_ftemp, i); } }
  e = lo() == 0 && fret ? (fret < 0 ? CV_RHSFUNC_FAIL : RHSFUNC_RECVR) : ism && sret ? (sret < 0 ? CV_SRHSFUNC_FAIL : SRHSFUNC_RECVR) : 0;
  k = R.sys(c, d, M); WANT(k, e, "the result (right-hand side returns %d, sensitivities %d)", fret, sret); WANT(M->cv_nfe, lo() == 0, "the count of right-hand sides"); WANT(nf_, lo() == 0, "the right-hand side evaluations");
  if (!e) for (r = lo(); r <= hi(); r++) for (i = 0; i < n; i++) {
    int row = r == 0 ? 0 : 1 + sidx(r); double s = z[0][row][i] + cor[r][i], fv = r == 0 ? fy[i] : G(fy[i], s, y[i], sidx(r), i);
    wantv = rootf ? M->cv_rl1 * z[1][row][i] + cor[r][i] - M->cv_gamma * fv : M->cv_rl1 * (M->cv_h * fv - z[1][row][i]);
    WANT(NV_Ith_S(part(d, r), i), wantv, "component %d of part %d", i, r);
    if (r == 0) WANT(NV_Ith_S(M->cv_y, i), y[i], "y"); else WANT(NV_Ith_S(M->cv_yS[sidx(r)], i), s, "yS"); }
  /* the linear setup and solve */
  if (ls) { int jb, jc = 5, cf; double gm; long st, n0, n1;
    what = "linear setup"; state(); execs++; jb = rnd() % 2; cf = M->convfail; gm = M->cv_gamma; st = M->cv_nst; n0 = M->cv_nsetups; n1 = M->cv_nsetupsS; memset(&L, 0, sizeof L); L.r = rnd() % 3 ? 0 : rnd() % 2 ? 4 : -4; L.jc = rnd() % 2;
    k = R.lset(jb, &jc, M); WANT(k, L.r < 0 ? CV_LSETUP_FAIL : L.r > 0 ? SUN_NLS_CONV_RECVR : 0, "the result"); WANT(L.cnt, 1, "the setups"); WANT(L.conv, jb ? CV_FAIL_BAD_J : cf, "the kind of failure"); WANT(jc, L.jc, "jcur"); WANT(M->cv_jcur, L.jc, "cv_jcur"); WANT(L.y == M->cv_y && L.f == M->cv_ftemp, 1, "state and rate given");
    WANT(M->cv_gammap, gm, "gammap"); WANT(M->cv_gamrat, 1, "gamrat"); WANT(M->cv_crate, 1, "crate"); WANT(M->cv_crateS, 1, "crateS"); WANT(M->cv_nstlp, st, "nstlp"); WANT(M->cv_nsetups, n0 + 1, "nsetups"); WANT(M->cv_nsetupsS, n1 + lo(), "nsetupsS"); if (!lo()) WANT(M->cv_forceSetup, 0, "forceSetup");
    what = "linear solve"; state(); execs++; M->sens_solve_idx = isx; fill(d, cor); memset(&L, 0, sizeof L); L.fail_at = rnd() % 3 ? 0 : 1 + rnd() % (hi() - lo() + 1); L.rs = rnd() % 2 ? 1 : -1;
    k = R.lsol(d, M); WANT(k, !L.fail_at ? 0 : L.rs < 0 ? CV_LSOLVE_FAIL : SUN_NLS_CONV_RECVR, "the result"); WANT(L.ns, L.fail_at ? L.fail_at : hi() - lo() + 1, "the number of solves"); WANT(L.y == M->cv_y && L.f == M->cv_ftemp, 1, "state and rate given");
    for (r = lo(); r <= hi(); r++) { if (r - lo() < L.ns && L.w[r - lo()] != wt(r)) fail("%s: part %d is solved with other weights", what, r); if (!k) for (i = 0; i < n; i++) WANT(NV_Ith_S(part(d, r), i), 2 * cor[r][i], "part %d", r); } }
  /* the convergence test */
  { double del = 0, d0 = 0, c0 = 0, call = 0, tol = pos(), cr, dp, dc, an, de[NS + 1][n]; int m, conv;
    what = "convergence test"; state(); execs++; fill(c, cor); for (r = 0; r <= NS; r++) for (i = 0; i < n; i++) de[r][i] = small() * (rnd() % 2 ? 0.05 : 1); fill(d, de);
    for (r = lo(); r <= hi(); r++) for (i = 0; i < n; i++) NV_Ith_S(part(w, r), i) = NV_Ith_S(wt(r), i);
    for (r = lo(); r <= hi(); r++) { double x = norm(de[r], wt(r)), x2 = norm(cor[r], wt(r)); del = fmax(del, x); call = fmax(call, x2); if (r == lo()) d0 = x, c0 = x2; }
    R.iter = m = rnd() % 3; cr = lo() ? M->cv_crateS : M->cv_crate; dp = M->cv_delp; if (m) cr = fmax(0.3 * cr, del / dp); dc = del * fmin(1, cr) / tol; conv = dc <= 1; an = M->cv_acnrm = M->cv_acnrmS = -3;
    if (fabs(dc - 1) < 1e-9 || fabs(del - 2 * dp) < 1e-9) goto out;
    M->cv_acnrmcur = M->cv_acnrmScur = 0;
    k = R.ct(MK, c, d, tol, w, M); WANT(k, conv ? 0 : m && del > 2 * dp ? SUN_NLS_CONV_RECVR : SUN_NLS_CONTINUE, "the result (norm %g, previous %g, rate %g, tolerance %g, iteration %d)", del, dp, cr, tol, m); WANT(lo() ? M->cv_crateS : M->cv_crate, cr, "the rate"); WANT(M->cv_delp, !conv && !(m && del > 2 * dp) ? del : dp, "the norm kept");
    if (!lo()) { WANT(M->cv_acnrm, !conv ? an : m == 0 ? (ism && M->cv_errconS ? del : d0) : ism && M->cv_errconS ? call : c0, "the norm for the error test"); WANT(M->cv_acnrmcur, conv, "acnrmcur"); }
    if (ism == CV_STAGGERED) { WANT(M->cv_acnrmS, conv && M->cv_errconS ? (m == 0 ? del : call) : an, "the norm for the error test of the sensitivities"); WANT(M->cv_acnrmScur, conv && M->cv_errconS, "acnrmScur"); }
    out: ; }
  N_VDestroy(c); N_VDestroy(d); N_VDestroy(w);
}
static void solves(void) {
  int k, i, r, nfl, want, ex, cs; double x, yc[n]; static const int flags[] = {FIRST_CALL, PREV_CONV_FAIL, PREV_ERR_FAIL};
  state(); execs++; R.r = rnd() % 4 ? 0 : rnd() % 2 ? 902 : -8; R.cur = rnd() % 2; R.nrm = pos(); R.nsolve = R.nsetup = 0; R.setupr = rnd() % 4 ? 0 : rnd() % 2 ? 1 : -1;
  nfl = flags[rnd() % 3];
  if (lo() == 0) {
    int cf = M->convfail, force = M->cv_forceSetup; what = "cvNls";
    cs = ls && (nfl == PREV_CONV_FAIL || nfl == PREV_ERR_FAIL || M->cv_nst == 0 || M->cv_nst >= M->cv_nstlp + 20 || fabs(M->cv_gamrat - 1) > 0.3 || force); if (fabs(fabs(M->cv_gamrat - 1) - 0.3) < 1e-9) return;
    ex = hassetup && R.setupr; want = ex ? (R.setupr < 0 ? CV_NLS_SETUP_FAIL : SUN_NLS_CONV_RECVR) : R.r; M->cv_acnrm = -5;
    k = cvNls(M, nfl); WANT(k, want, "the result"); WANT(R.nsetup, hassetup, "the setups of the nonlinear solver"); WANT(R.nsolve, !ex, "the solves");
    if (hassetup && R.nsetup && R.yc != (ism == CV_SIMULTANEOUS ? M->ycorSim : M->cv_acor)) fail("%s: the solver is set up with another vector", what);
    if (!ex) { WANT(R.cs, cs, "a linear setup asked for"); if (ls) WANT(M->convfail, force ? CV_FAIL_OTHER : nfl == FIRST_CALL || nfl == PREV_ERR_FAIL ? CV_NO_FAILURES : CV_FAIL_OTHER, "convfail (was %d)", cf); else { WANT(M->cv_crate, 1, "crate"); WANT(M->cv_crateS, 1, "crateS"); } WANT(M->cv_nni, 10, "nni"); }
  } else if (ism == CV_STAGGERED) { ex = 0; what = "cvStgrNls"; k = cvStgrNls(M); WANT(k, R.r, "the result"); WANT(R.nsolve, 1, "the solves"); WANT(R.cs, 0, "a linear setup asked for"); WANT(M->cv_nniS, 12, "nniS"); WANT(M->sens_solve, 0, "sens_solve"); if (!ls) WANT(M->cv_crateS, 1, "crateS"); }
  else { long c0 = M->cv_nniS1[isx], c1 = M->cv_nniS1[1 - isx]; ex = 0; what = "cvStgr1Nls"; k = cvStgr1Nls(M, isx); WANT(k, R.r, "the result"); WANT(R.nsolve, 1, "the solves"); WANT(R.cs, 0, "a linear setup asked for"); WANT(M->cv_nniS1[isx], c0 + 3, "nniS1"); WANT(M->cv_nniS1[1 - isx], c1, "nniS1 of another"); WANT(M->sens_solve, 0, "sens_solve"); if (!ls) WANT(M->cv_crateS, 1, "crateS"); }
  if (!ex) { WANT(R.tol, M->cv_tq[4], "the tolerance");
    for (r = lo(); r <= hi(); r++) { int row = r == 0 ? 0 : 1 + sidx(r); for (i = 0; i < n; i++) { WANT(R.z0[r][i], z[0][row][i], "the prediction given, part %d", r); WANT(NV_Ith_S(part(R.w, r), i), NV_Ith_S(wt(r), i), "the weights given, part %d", r); } }
    if (!R.r) { WANT(M->cv_jcur, 0, "jcur"); x = 0;
      for (r = lo(); r <= hi(); r++) { int row = r == 0 ? 0 : 1 + sidx(r); double e; for (i = 0; i < n; i++) WANT(NV_Ith_S((r ? M->cv_yS[sidx(r)] : M->cv_y), i), z[0][row][i] + cor[r][i], "the solution, part %d component %d", r, i); e = norm(cor[r], wt(r)); if (r == 0 || M->cv_errconS) x = fmax(x, e); }
      if (!lo()) WANT(M->cv_acnrm, R.cur ? R.nrm : x, "the norm for the error test"); } }
  /* quadratures */
  if (quad) { double fv[n]; what = "cvQuadNls"; state(); execs++; k = cvQuadNls(M); WANT(k, qret < 0 ? CV_QRHSFUNC_FAIL : qret > 0 ? QRHSFUNC_RECVR : 0, "the result"); WANT(nq_, 1, "the evaluations"); WANT(M->cv_nfQe, 1, "nfQe");
    if (!qret) for (i = 0; i < n; i++) { fv[i] = F(M->cv_tn, NV_Ith_S(M->cv_y, i), i) + 1; x = M->cv_rl1 * (M->cv_h * fv[i] - zq[1][0][i]); WANT(NV_Ith_S(M->cv_acorQ, i), x, "acorQ"); WANT(NV_Ith_S(M->cv_yQ, i), zq[0][0][i] + x, "yQ"); if (ism) WANT(NV_Ith_S(M->cv_ftempQ, i), fv[i], "ftempQ"); }
    if (ism && !qret) { what = "cvQuadSensNls"; execs++; k = cvQuadSensNls(M); WANT(k, qsret < 0 ? CV_QSRHSFUNC_FAIL : qsret > 0 ? QSRHSFUNC_RECVR : 0, "the result"); WANT(nqs_, 1, "the evaluations"); WANT(M->cv_nfQSe, 1, "nfQSe");
      if (!qsret) for (r = 1; r <= NS; r++) for (i = 0; i < n; i++) { x = M->cv_rl1 * (M->cv_h * G(fv[i], NV_Ith_S(M->cv_yS[r - 1], i), NV_Ith_S(M->cv_y, i), r - 1, i) - zq[1][r][i]); WANT(NV_Ith_S(M->cv_acorQS[r - 1], i), x, "acorQS"); WANT(NV_Ith_S(M->cv_yQS[r - 1], i), zq[0][r][i] + x, "yQS"); } } }
  /* constraints */
  if (!ism) { N_Vector cv = N_VClone(Y); double v[n], ac[n], eta, q = 1e300, hm; int bad = 0, mk[n], atmin; what = "cvCheckConstraints"; state(); execs++; M->cv_constraints = cv; M->cv_tq[4] = pos() * (rnd() % 2 ? 1 : 4);
    for (i = 0; i < n; i++) { static const double cc[] = {-2, -1, 0, 1, 2}; double c = cc[rnd() % 5], y = rnd() % 4 ? small() : 0; NV_Ith_S(cv, i) = c; NV_Ith_S(M->cv_y, i) = yc[i] = y; ac[i] = NV_Ith_S(M->cv_acor, i); mk[i] = (c == 2 && y <= 0) || (c == 1 && y < 0) || (c == -1 && y > 0) || (c == -2 && y >= 0); bad |= mk[i]; v[i] = mk[i] ? y - (fabs(c) > 1.5 ? 0.1 * c / NV_Ith_S(M->cv_ewt, i) : 0) : 0; if (mk[i] && z[0][0][i] != y) q = fmin(q, z[0][0][i] / (z[0][0][i] - y)); }
    M->cv_hmin = rnd() % 3 ? 0 : rnd() % 2 ? fabs(M->cv_h) : fabs(M->cv_h) / 3; hm = M->cv_hmin; atmin = fabs(M->cv_h) <= hm * 1.000001; eta = M->cv_eta; x = norm(v, M->cv_ewt);
    if (fabs(x - M->cv_tq[4]) < 1e-9) goto done;
    k = cvCheckConstraints(M); WANT(k, !bad || x <= M->cv_tq[4] ? 0 : atmin ? CV_CONSTR_FAIL : CONSTR_RECVR, "the result");
    for (i = 0; i < n; i++) WANT(NV_Ith_S(M->cv_acor, i), ac[i] - (bad && x <= M->cv_tq[4] ? v[i] : 0), "the correction of component %d", i);
    if (k == CONSTR_RECVR && q < 1e299) { WANT(M->cv_eta, fmax(fmax(0.9 * q, 0.1), hm / fabs(M->cv_h)), "eta"); } else if (k != CONSTR_RECVR) WANT(M->cv_eta, eta, "eta");
    done: M->cv_constraints = NULL; N_VDestroy(cv); }
  /* norms */
  if (ism) { double a = 0, b, old = pos(); N_Vector v[NS]; what = "norms"; state(); execs++; for (r = 0; r < NS; r++) { v[r] = N_VClone(Y); for (i = 0; i < n; i++) NV_Ith_S(v[r], i) = cor[r + 1][i]; b = norm(cor[r + 1], M->cv_ewtS[r]); a = fmax(a, b); }
    WANT(cvSensNorm(M, v, M->cv_ewtS), a, "cvSensNorm"); WANT(cvSensUpdateNorm(M, old, v, M->cv_ewtS), fmax(old, a), "cvSensUpdateNorm");
    if (quad) { WANT(cvQuadSensNorm(M, v, M->cv_ewtS), a, "cvQuadSensNorm"); WANT(cvQuadSensUpdateNorm(M, old, v, M->cv_ewtS), fmax(old, a), "cvQuadSensUpdateNorm"); }
    WANT(cvQuadUpdateNorm(M, old, v[0], M->cv_ewtS[0]), fmax(old, norm(cor[1], M->cv_ewtS[0])), "cvQuadUpdateNorm");
    for (r = 0; r < NS; r++) N_VDestroy(v[r]); }
}
static void bundles(void) {
  N_Vector v[4], o; int i, k, w; double d[4][3][n], c = small(), e = small(), b = 0, x; what = "bundled vectors"; execs++;
  for (w = 0; w < 4; w++) { v[w] = N_VNewEmpty_SensWrapper(3, ctx); NV_OWN_VECS_SW(v[w]) = SUNTRUE; for (k = 0; k < 3; k++) { NV_VEC_SW(v[w], k) = N_VClone(Y); for (i = 0; i < n; i++) d[w][k][i] = NV_Ith_S(NV_VEC_SW(v[w], k), i) = w == 1 ? pos() : small(); } }
#define EACH(call, expr, nm) do { call; for (k = 0; k < 3; k++) for (i = 0; i < n; i++) { double X = d[0][k][i], P = d[1][k][i]; (void)X; (void)P; WANT(NV_Ith_S(NV_VEC_SW(v[2], k), i), expr, "%s, part %d", nm, k); } } while (0)
  EACH(N_VLinearSum(c, v[0], e, v[1], v[2]), c * X + e * P, "linear sum"); EACH(N_VConst(c, v[2]), c, "const"); EACH(N_VScale(c, v[0], v[2]), c * X, "scale"); EACH(N_VProd(v[0], v[1], v[2]), X * P, "product"); EACH(N_VDiv(v[0], v[1], v[2]), X / P, "quotient"); EACH(N_VAbs(v[0], v[2]), fabs(X), "abs"); EACH(N_VInv(v[1], v[2]), 1 / P, "inverse"); EACH(N_VAddConst(v[0], c, v[2]), X + c, "add const");
  for (k = 0; k < 3; k++) { x = norm(d[0][k], NV_VEC_SW(v[1], k)); b = fmax(b, x); } WANT(N_VWrmsNorm(v[0], v[1]), b, "the norm");
  o = N_VClone(v[0]); WANT(NV_NVECS_SW(o), 3, "the size of a clone"); N_VDestroy(o);
  for (w = 0; w < 4; w++) N_VDestroy(v[w]);
}
int main(int argc, char **argv) {
  int reps, r;
  begin(argc, argv); reps = argc > 2 ? atoi(argv[2]) : 20;
  for (ism = 0; ism <= CV_STAGGERED1; ism++) for (quad = 0; quad < 2; quad++) for (rootf = 0; rootf < 2; rootf++) for (ls = 0; ls <= rootf; ls++) for (hassetup = 0; hassetup < 2; hassetup++) {
    make();
    for (r = 0; r < reps; r++) { functions(); solves(); bundles(); }
    unmake();
  }
  SUNContext_Free(&ctx); return finish();
}
