/* the integrator's history, coefficients and control functions, called one by one on random states */
#include "common.h"
#include "cvodes.c"
#define n 3
#define NS 2
#define NF 4
static CVodeMem M; static N_Vector Y, YQ, *YS, *YQS;
static double old[NF][L_MAX][NS][n], tau0[L_MAX + 2], tq0[NUM_TESTS + 1], l0[L_MAX], C[L_MAX][L_MAX]; static int lmm, qmax;
static double fval[n]; static int fret; static double ft; static double fy[n];
static int f_(realtype t, N_Vector y, N_Vector d, void *u) { int i; ft = t; for (i = 0; i < n; i++) { fy[i] = NV_Ith_S(y, i); NV_Ith_S(d, i) = fval[i]; } return fret; }
static int fq_(realtype t, N_Vector y, N_Vector d, void *u) { N_VConst(1, d); return 0; }
static int fs_(int Ns, realtype t, N_Vector y, N_Vector yd, N_Vector *s, N_Vector *sd, void *u, N_Vector a, N_Vector b) { int k; for (k = 0; k < Ns; k++) N_VConst(1, sd[k]); return 0; }
static int fqs_(int Ns, realtype t, N_Vector y, N_Vector *s, N_Vector yq, N_Vector *d, void *u, N_Vector a, N_Vector b) { int k; for (k = 0; k < Ns; k++) N_VConst(1, d[k]); return 0; }
static void quiet(int a, const char *b, const char *c, char *d, void *e) {}
static N_Vector v(int f, int j, int s) { return f == 0 ? M->cv_zn[j] : f == 1 ? M->cv_znQ[j] : f == 2 ? M->cv_znS[j][s] : M->cv_znQS[j][s]; }
static N_Vector ac(int f, int s) { return f == 0 ? M->cv_acor : f == 1 ? M->cv_acorQ : f == 2 ? M->cv_acorS[s] : M->cv_acorQS[s]; }
static N_Vector ew(int f, int s) { return f == 0 ? M->cv_ewt : f == 1 ? M->cv_ewtQ : f == 2 ? M->cv_ewtS[s] : M->cv_ewtQS[s]; }
static int ns(int f) { return f < 2 ? 1 : NS; }
static double pos(void) { return (1 + rnd() % 20) / 8.0; }
static void make(int feat) {
  int k; double ab[NS] = {1, 1};
  Y = N_VNew_Serial(n, ctx); N_VConst(1, Y); YQ = N_VNew_Serial(n, ctx); N_VConst(0, YQ); YS = N_VCloneVectorArray(NS, Y); YQS = N_VCloneVectorArray(NS, YQ);
  for (k = 0; k < NS; k++) { N_VConst(0, YS[k]); N_VConst(0, YQS[k]); }
  M = CVodeCreate(lmm, ctx); CVodeSetErrHandlerFn(M, quiet, NULL); CVodeInit(M, f_, 0, Y); CVodeSStolerances(M, 1, 1);
  if (feat) { CVodeQuadInit(M, fq_, YQ); CVodeSensInit(M, NS, CV_STAGGERED, fs_, YS); CVodeSensSStolerances(M, 1, ab); CVodeQuadSensInit(M, fqs_, YQS); }
  qmax = M->cv_qmax;
}
static void unmake(void) { void *p = M; CVodeFree(&p); N_VDestroy(Y); N_VDestroy(YQ); N_VDestroyVectorArray(YS, NS); N_VDestroyVectorArray(YQS, NS); }
static int has(int f) { return f == 0 || (f == 1 ? M->cv_quadr : f == 2 ? M->cv_sensi : M->cv_quadr_sensi); }
static void state(int q) {
  int f, j, s, i; double sg = rnd() % 4 ? 1 : -1;
  for (f = 0; f < NF; f++) if (has(f)) for (s = 0; s < ns(f); s++) for (i = 0; i < n; i++) {
    for (j = 0; j <= qmax; j++) old[f][j][s][i] = NV_Ith_S(v(f, j, s), i) = small();
    NV_Ith_S(ac(f, s), i) = small(); NV_Ith_S(ew(f, s), i) = pos();
  }
  for (j = 0; j < L_MAX + 1; j++) tau0[j] = M->cv_tau[j] = sg * pos();
  for (j = 0; j < NUM_TESTS + 1; j++) tq0[j] = M->cv_tq[j] = pos();
  for (j = 0; j < L_MAX; j++) l0[j] = M->cv_l[j] = small();
  M->cv_q = q; M->cv_L = q + 1; M->cv_h = M->cv_hscale = sg * pos(); M->cv_eta = pos() / 2; M->cv_tn = small(); M->cv_hu = sg * pos(); M->cv_nst = rnd() % 4; M->cv_nscon = rnd() % 7;
  M->cv_qwait = 2 + rnd() % 4; M->cv_tstopset = 0; M->cv_etamax = 1 + pos(); M->cv_hmin = 0; M->cv_hmax_inv = rnd() % 2 ? 0 : 1 / (3 * pos()); M->cv_qprime = q; M->cv_indx_acor = qmax; M->cv_saved_tq5 = pos();
  M->cv_gammap = pos(); M->cv_nlscoef = 0.1; M->cv_hprime = M->cv_h; M->cv_next_h = M->cv_h;
  M->cv_errconQ = rnd() % 2; M->cv_errconS = rnd() % 2; M->cv_errconQS = rnd() % 2;
  fret = 0; for (i = 0; i < n; i++) fval[i] = small();
  memset(C, 0, sizeof C); for (j = 0; j < L_MAX; j++) C[j][j] = 1;
}
static int same(double a, double b, double sc) { return fabs(a - b) <= 1e-9 * (fabs(b) + sc + 1e-9); }
static void map(const char *what, int q) {
  int f, j, s, i, k;
  for (f = 0; f < NF; f++) if (has(f)) for (s = 0; s < ns(f); s++) for (i = 0; i < n; i++) for (j = 0; j <= qmax; j++) {
    double w = 0, sc = 0, g = NV_Ith_S(v(f, j, s), i); for (k = 0; k <= qmax; k++) w += C[j][k] * old[f][k][s][i], sc += fabs(C[j][k] * old[f][k][s][i]);
    if (!same(g, w, sc)) { fail("%s (method %d, order %d, h=%g): %s[%d]%s component %d is %.12g, not %.12g", what, lmm, q, M->cv_h, f == 0 ? "zn" : f == 1 ? "znQ" : f == 2 ? "znS" : "znQS", j, s ? " (second)" : "", i, g, w); return; }
  }
}
static double choose(int a, int b) { double r = 1; int i; for (i = 1; i <= b; i++) r = r * (a - b + i) / i; return floor(r + 0.5); }
#define WANT(x, w, name) do { double x_ = (x), w_ = (w); if (!same(x_, w_, 0)) fail("%s (method %d, order %d, h=%g): %s is %.12g, not %.12g", what, lmm, q, M->cv_h, name, x_, w_); } while (0)
static void pmul(double *p, int *d, double a, double b) { int i; /* p(x)(a + b x) */ double r[40] = {0}; for (i = 0; i <= *d; i++) r[i] += a * p[i], r[i + 1] += b * p[i]; ++*d; memcpy(p, r, (*d + 1) * sizeof(double)); }
static void history(int q) {
  const char *what; int j, k; double h, e;
  what = "cvPredict"; state(q); e = M->cv_tn; cvPredict(M); execs++; for (j = 0; j <= q; j++) for (k = j; k <= q; k++) C[j][k] = choose(k, j); map(what, q); WANT(M->cv_tn, e + M->cv_h, "tn");
  what = "cvPredict with a stop time"; state(q); M->cv_tstopset = 1; M->cv_tstop = M->cv_tn + (rnd() % 2 ? 0.5 : 2) * M->cv_h; e = M->cv_tstop; h = M->cv_tn + M->cv_h; cvPredict(M); execs++; WANT(M->cv_tn, (h - e) * M->cv_h > 0 ? e : h, "tn");
  what = "cvRestore"; state(q); cvRestore(M, 0.375); execs++; for (j = 0; j <= q; j++) for (k = j; k <= q; k++) C[j][k] = choose(k, j) * ((k - j) % 2 ? -1 : 1); map(what, q); WANT(M->cv_tn, 0.375, "tn");
  what = "cvRescale"; state(q); h = M->cv_hscale; e = M->cv_eta; cvRescale(M); execs++; for (j = 1; j <= q; j++) C[j][j] = pow(e, j); map(what, q); WANT(M->cv_h, h * e, "h"); WANT(M->cv_hscale, h * e, "hscale"); WANT(M->cv_next_h, h * e, "next_h"); WANT(M->cv_nscon, 0, "nscon"); WANT(M->cv_q, q, "q");
  if (q > 1) { double p[40] = {0}, s = 0; int d;
    what = "cvAdjustOrder(-1)"; state(q);
    if (lmm == CV_BDF) { p[2] = 1; d = 2; } else { p[1] = 1; d = 1; }
    for (j = 1; j <= q - 2; j++) { s += M->cv_tau[j]; pmul(p, &d, s / M->cv_hscale, 1); }
    if (lmm == CV_ADAMS) for (j = d; j >= 0; j--) { p[j + 1] = q * p[j] / (j + 1); if (!j) p[0] = 0; }
    cvAdjustOrder(M, -1); execs++; if (q > 2) for (j = 2; j < q; j++) C[j][q] = -p[j]; map(what, q); }
  if (q < qmax) { double p[40] = {0}, s, pr = 1, a0 = 0, a1 = 0; int d = 2;
    what = "cvAdjustOrder(+1)"; state(q); s = M->cv_hscale; p[2] = 1;
    if (lmm == CV_BDF) {
      for (j = 1; j <= q; j++) { double xi; if (j > 1) s += M->cv_tau[j]; xi = s / M->cv_hscale; if (j < q) pmul(p, &d, xi, 1); a0 += 1.0 / j; a1 += 1 / xi; pr *= xi; }
      C[q + 1][q + 1] = 0; C[q + 1][qmax] = (a0 - a1) / pr; for (j = 2; j <= q; j++) C[j][qmax] += C[q + 1][qmax] * p[j];
    } else C[q + 1][q + 1] = 0;
    cvAdjustOrder(M, 1); execs++; map(what, q); }
  { double w; int f, s, i, sv = q < qmax && rnd() % 2; what = "cvCompleteStep"; state(q); if (sv) M->cv_qwait = 2; else M->cv_qwait = 3; h = M->cv_h; j = M->cv_nst; k = M->cv_nscon;
    { int ia = M->cv_indx_acor = -7; double s5 = M->cv_saved_tq5; int qw = M->cv_qwait;
    cvCompleteStep(M); execs++; WANT(M->cv_nst, j + 1, "nst"); WANT(M->cv_nscon, k + 1, "nscon"); WANT(M->cv_hu, h, "hu"); WANT(M->cv_qu, q, "qu"); WANT(M->cv_qwait, qw - 1, "qwait"); WANT(M->cv_tau[1], h, "tau[1]");
    for (i = 2; i <= q; i++) WANT(M->cv_tau[i], tau0[i - 1], "tau[i]");
    if (q == 1 && j + 1 > 1) WANT(M->cv_tau[2], tau0[1], "tau[2]");
    WANT(M->cv_indx_acor, sv ? qmax : ia, "indx_acor"); WANT(M->cv_saved_tq5, sv ? tq0[5] : s5, "saved_tq5"); }
    for (f = 0; f < NF; f++) if (has(f)) for (s = 0; s < ns(f); s++) for (i = 0; i < n; i++) for (j = 0; j <= qmax; j++) {
      w = old[f][j][s][i]; if (j <= q) w += l0[j] * NV_Ith_S(ac(f, s), i); else if (sv && j == qmax) w = NV_Ith_S(ac(f, s), i);
      WANT(NV_Ith_S(v(f, j, s), i), w, "a history column"); } }
  { int to, d; for (d = -1; d <= 1; d++) { to = q + d; if (to < 1 || to > qmax) continue;
    what = "cvAdjustParams"; state(q); M->cv_qprime = to; h = M->cv_hscale; e = M->cv_eta; k = M->cv_qwait; cvAdjustParams(M); execs++; WANT(M->cv_q, to, "q"); WANT(M->cv_L, to + 1, "L"); WANT(M->cv_qwait, d ? to + 1 : k, "qwait"); WANT(M->cv_h, h * e, "h");
    if (!d) { for (j = 1; j <= q; j++) C[j][j] = pow(e, j); map(what, q); } } }
}
static void coef(int q) {
  const char *what = lmm == CV_BDF ? "cvSet (BDF)" : "cvSet (Adams)"; int j, qw1 = rnd() % 2; double xi[L_MAX + 2], s, h, g, gp; long nst; double p[40] = {1}, t[6]; int d = 0, i;
  state(q); if (qw1) M->cv_qwait = 1; h = M->cv_h; s = h; xi[1] = 1; for (j = 2; j <= q + 1; j++) { s += M->cv_tau[j - 1]; xi[j] = s / h; } gp = M->cv_gammap; nst = M->cv_nst;
  memcpy(t, tq0, sizeof t);
  if (lmm == CV_BDF) {
    double a0 = 0, sum = 0, xs, xq, a0h, A1, A2;
    for (j = 1; j <= q; j++) a0 -= 1.0 / j;
    for (j = 1; j < q; j++) { sum += 1 / xi[j]; pmul(p, &d, 1, 1 / xi[j]); }
    xs = q == 1 ? 1 : -a0 - sum; xq = q == 1 ? 1 : 1 / xi[q]; a0h = q == 1 ? -1 : -sum - xq; pmul(p, &d, 1, xs);
    A1 = 1 - a0h + a0; A2 = 1 + q * A1; t[2] = fabs(A1 / (a0 * A2)); t[5] = fabs(A2 * xs / (p[q] * xq));
    if (qw1) { double A3 = a0 + 1.0 / q, A4 = a0h + xq, A5 = a0 - 1.0 / (q + 1), A6 = a0h - 1 / xi[q + 1]; t[1] = q > 1 ? fabs((xs / p[q]) * (1 - A4 + A3) / A3) : 1; t[3] = fabs((1 - A6 + A5) / A2 / ((1 / xi[q + 1]) * (q + 2) * A5)); }
  } else if (q == 1) { p[1] = 1; t[1] = 1; t[2] = 0.5; t[3] = 1.0 / 12; t[5] = 1; }
  else {
    double b[40], M0 = 0, M1 = 0, z = 0, P[40]; int bd = 0; b[0] = 1;
    for (j = 1; j < q; j++) { pmul(p, &d, 1, 1 / xi[j]); if (j < q - 1) pmul(b, &bd, 1, 1 / xi[j]); }
    for (i = 0; i <= d; i++) M0 += (i % 2 ? -1 : 1) * p[i] / (i + 1), M1 += (i % 2 ? -1 : 1) * p[i] / (i + 2);
    if (qw1) { for (i = 0; i <= bd; i++) z += (i % 2 ? -1 : 1) * b[i] / (i + 2); t[1] = q * z / b[q - 2]; }
    t[2] = M1 / M0 / xi[q];
    if (qw1) { memcpy(P, p, sizeof P); i = d; pmul(P, &i, 1, 1 / xi[q]); for (z = 0, j = 0; j <= i; j++) z += (j % 2 ? -1 : 1) * P[j] / (j + 2); t[3] = z / (M0 * (q + 1)); }
    for (i = q; i >= 1; i--) p[i] = p[i - 1] / (i * M0); p[0] = 1; t[5] = xi[q] / p[q];
  }
  t[4] = M->cv_nlscoef / t[2];
  cvSet(M); execs++;
  for (j = 0; j <= q; j++) if (fabs(M->cv_l[j] - p[j]) > 1e-9 * (1 + fabs(p[j]))) { fail("%s order %d: l[%d] is %.12g, not %.12g", what, q, j, M->cv_l[j], p[j]); return; }
  for (j = 1; j <= 5; j++) if (fabs(M->cv_tq[j] - t[j]) > 1e-7 * fabs(t[j]) + 1e-11) { fail("%s order %d: tq[%d] is %.12g, not %.12g%s", what, q, j, M->cv_tq[j], t[j], qw1 ? "" : " (order change not considered)"); return; }
  g = h / p[1]; WANT(M->cv_gamma, g, "gamma"); WANT(M->cv_rl1, 1 / p[1], "rl1"); WANT(M->cv_gammap, nst == 0 ? g : gp, "gammap"); WANT(M->cv_gamrat, nst > 0 ? g / gp : 1, "gamrat");
}
static void dky(int q) {
  const char *what = "dense output"; int f, s, i, k, j, r; double t, x, *o; N_Vector d = N_VNew_Serial(n, ctx), D[NS]; D[0] = N_VNew_Serial(n, ctx); D[1] = N_VNew_Serial(n, ctx);
  state(q); M->cv_hu = M->cv_h; k = rnd() % (q + 1); x = -(double)(rnd() % 9) / 8; t = M->cv_tn + x * M->cv_h; M->cv_tretlast = t; o = NV_DATA_S(d);
  for (f = 0; f < NF; f++) if (has(f)) for (s = 0; s < ns(f); s++) {
    r = f == 0 ? CVodeGetDky(M, t, k, d) : f == 1 ? CVodeGetQuadDky(M, t, k, d) : f == 2 ? CVodeGetSensDky1(M, t, k, s, d) : CVodeGetQuadSensDky1(M, t, k, s, d); execs++;
    if (r) { fail("%s: order %d derivative %d at t=%g refused with %d", what, q, k, t, r); continue; }
    for (i = 0; i < n; i++) { double w = 0, sc = 0; for (j = k; j <= q; j++) { double c = 1; int b; for (b = j; b > j - k; b--) c *= b; c *= pow(x, j - k) * old[f][j][s][i]; w += c; sc += fabs(c); } w /= pow(M->cv_h, k); sc /= fabs(pow(M->cv_h, k));
      if (!same(o[i], w, sc)) { fail("%s (family %d, order %d): derivative %d component %d at x=%g is %.12g, not %.12g", what, f, q, k, i, x, o[i], w); break; } }
    if (f >= 2) { realtype tt = -1e9; r = f == 2 ? CVodeGetSens(M, &tt, D) : CVodeGetQuadSens(M, &tt, D); WANT(r, 0, "the result of GetSens"); WANT(tt, t, "the time of GetSens");
      for (i = 0; i < n; i++) { double w = 0, sc = 0; for (j = 0; j <= q; j++) w += pow(x, j) * old[f][j][s][i], sc += fabs(pow(x, j) * old[f][j][s][i]); if (!same(NV_Ith_S(D[s], i), w, sc)) { fail("CVodeGetSens family %d order %d", f, q); break; } } }
  }
  if (CVodeGetDky(M, t, q + 1, d) != CV_BAD_K || CVodeGetDky(M, t, -1, d) != CV_BAD_K || CVodeGetDky(M, t, 0, NULL) != CV_BAD_DKY || CVodeGetDky(NULL, t, 0, d) != CV_MEM_NULL || CVodeGetDky(M, M->cv_tn + M->cv_h, 0, d) != CV_BAD_T || CVodeGetDky(M, M->cv_tn - 2 * M->cv_h, 0, d) != CV_BAD_T) fail("%s: an illegal request is accepted or misreported", what);
  if (has(2) && (CVodeGetSensDky1(M, t, 0, NS, d) != CV_BAD_IS || CVodeGetSensDky1(M, t, 0, -1, d) != CV_BAD_IS || CVodeGetSensDky1(M, t, q + 1, 0, d) != CV_BAD_K || CVodeGetSensDky1(M, M->cv_tn + M->cv_h, 0, 0, d) != CV_BAD_T)) fail("%s of sensitivities: an illegal request is accepted or misreported", what);
  if (has(1) && (CVodeGetQuadDky(M, t, q + 1, d) != CV_BAD_K || CVodeGetQuadDky(M, M->cv_tn + M->cv_h, 0, d) != CV_BAD_T)) fail("%s of quadratures: an illegal request is accepted or misreported", what);
  N_VDestroy(d); N_VDestroy(D[0]); N_VDestroy(D[1]);
}
static double wn(int f, double (*g)(int, int, int, double, int), double c, int q) { int s, i; double m = 0; for (s = 0; s < ns(f); s++) { double a = 0; for (i = 0; i < n; i++) { double z = g(f, s, i, c, q) * NV_Ith_S(ew(f, s), i); a += z * z; } a = sqrt(a / n); if (a > m) m = a; } return m; }
static double gz(int f, int s, int i, double c, int q) { return old[f][q][s][i]; }
static double ga(int f, int s, int i, double c, int q) { return NV_Ith_S(ac(f, s), i) - c * old[f][qmax][s][i]; }
static double wnall(double (*g)(int, int, int, double, int), double c, int q) { double m = wn(0, g, c, q); if (has(1) && M->cv_errconQ) m = fmax(m, wn(1, g, c, q)); if (has(2) && M->cv_errconS) m = fmax(m, wn(2, g, c, q)); if (has(3) && M->cv_errconQS) m = fmax(m, wn(3, g, c, q)); return m; }
static int cap(const char *what, int q, double eta, double h, double em, double hmi) {
  double e = fmin(eta, em); e /= fmax(1, fabs(h) * hmi * e); if (eta < 1.5) e = 1;
  WANT(M->cv_eta, e, "eta"); WANT(M->cv_hprime, eta < 1.5 ? h : h * e, "hprime"); return 0;
}
static void control(int q) {
  const char *what; int i, j, k, r;
  { static const int in[] = {0, CV_LSETUP_FAIL, CV_LSOLVE_FAIL, CV_RHSFUNC_FAIL, CV_QRHSFUNC_FAIL, CV_SRHSFUNC_FAIL, CV_QSRHSFUNC_FAIL, -1, SUN_NLS_CONV_RECVR, CONSTR_RECVR, RHSFUNC_RECVR, QRHSFUNC_RECVR, SRHSFUNC_RECVR, QSRHSFUNC_RECVR},
      code[] = {DO_ERROR_TEST, CV_LSETUP_FAIL, CV_LSOLVE_FAIL, CV_RHSFUNC_FAIL, CV_QRHSFUNC_FAIL, CV_SRHSFUNC_FAIL, CV_QSRHSFUNC_FAIL, CV_NLS_FAIL, CV_CONV_FAILURE, CV_CONSTR_FAIL, CV_REPTD_RHSFUNC_ERR, CV_REPTD_QRHSFUNC_ERR, CV_REPTD_SRHSFUNC_ERR, CV_REPTD_QSRHSFUNC_ERR};
    int w = rnd() % 14, nf = in[w], ncf, e0, stop; long nn = rnd() % 9, n0 = nn; double eta, h, sv = small();
    what = "cvHandleNFlag"; state(q); M->cv_maxncf = 4; ncf = e0 = rnd() % 4; M->cv_hmin = rnd() % 3 ? 0 : rnd() % 2 ? fabs(M->cv_h) : fabs(M->cv_h) / 3; eta = M->cv_eta; h = M->cv_h; stop = fabs(h) <= M->cv_hmin * 1.000001 || e0 + 1 == 4;
    r = cvHandleNFlag(M, &nf, sv, &ncf, &nn); execs++;
    WANT(nn, n0 + (w > 0), "the total of failures"); WANT(ncf, e0 + (w >= 8), "the consecutive failures"); WANT(r, w < 8 || stop ? code[w] : PREDICT_AGAIN, "the result"); WANT(nf, w < 8 || stop ? in[w] : PREV_CONV_FAIL, "nflag");
    if (w) { WANT(M->cv_tn, sv, "tn"); for (j = 0; j <= q; j++) for (k = j; k <= q; k++) C[j][k] = choose(k, j) * ((k - j) % 2 ? -1 : 1); }
    if (w >= 8) { WANT(M->cv_etamax, 1, "etamax"); if (!stop) { if (in[w] != CONSTR_RECVR) eta = fmax(0.25, M->cv_hmin / fabs(h)); WANT(M->cv_eta, eta, "eta"); WANT(M->cv_h, h * eta, "h"); for (j = 1; j <= q; j++) for (k = 0; k <= qmax; k++) C[j][k] *= pow(eta, j); } }
    map(what, q); }
  { int nf = 3, nef, e0, stop; long nt = rnd() % 9, n0 = nt; double dsm = -1, nrm = pos() * (rnd() % 2 ? 0.1 : 10), eta, h, sv = small(), d, lo;
    what = "cvDoErrorTest"; state(q); M->cv_maxnef = 7; M->cv_nfe = 0; nef = e0 = rnd() % 7; M->cv_hmin = rnd() % 3 ? 0 : rnd() % 2 ? fabs(M->cv_h) : fabs(M->cv_h) / 3; h = M->cv_h; d = nrm * tq0[2]; lo = M->cv_hmin / fabs(h); stop = fabs(h) <= M->cv_hmin * 1.000001 || e0 + 1 == 7; fret = rnd() % 4 ? 0 : rnd() % 2 ? 1 : -1;
    r = cvDoErrorTest(M, &nf, sv, nrm, &nef, &nt, &dsm); execs++; WANT(dsm, d, "dsm");
    if (d <= 1) { WANT(r, CV_SUCCESS, "the result"); WANT(nef, e0, "nef"); WANT(nt, n0, "netf"); WANT(nf, 3, "nflag"); map(what, q); }
    else { WANT(nef, e0 + 1, "nef"); WANT(nt, n0 + 1, "netf"); WANT(nf, PREV_ERR_FAIL, "nflag"); WANT(M->cv_tn, sv, "tn");
      for (j = 0; j <= q; j++) for (k = j; k <= q; k++) C[j][k] = choose(k, j) * ((k - j) % 2 ? -1 : 1);
      if (stop) { WANT(r, CV_ERR_FAILURE, "the result"); map(what, q); }
      else { WANT(M->cv_etamax, 1, "etamax");
        if (e0 + 1 <= 3) { eta = fmax(0.1, fmax(1 / (pow(6 * d, 1.0 / (q + 1)) + 1e-6), lo)); if (e0 + 1 >= 2) eta = fmin(eta, 0.2); WANT(r, TRY_AGAIN, "the result"); WANT(M->cv_eta, eta, "eta"); WANT(M->cv_h, h * eta, "h"); WANT(M->cv_q, q, "q"); for (j = 1; j <= q; j++) for (k = 0; k <= qmax; k++) C[j][k] *= pow(eta, j); map(what, q); }
        else if (q > 1) { eta = fmax(0.1, lo); WANT(r, TRY_AGAIN, "the result"); WANT(M->cv_eta, eta, "eta"); WANT(M->cv_h, h * eta, "h"); WANT(M->cv_q, q - 1, "q"); WANT(M->cv_L, q, "L"); WANT(M->cv_qwait, q, "qwait"); }
        else { eta = fmax(0.1, lo); WANT(M->cv_h, h * eta, "h"); WANT(M->cv_qwait, 10, "qwait"); WANT(M->cv_nfe, 1, "nfe"); WANT(ft, sv, "the time of the restart"); WANT(r, fret < 0 ? CV_RHSFUNC_FAIL : fret > 0 ? CV_UNREC_RHSFUNC_ERR : TRY_AGAIN, "the result"); if (!fret) for (i = 0; i < n; i++) { WANT(NV_Ith_S(M->cv_zn[1], i), h * eta * fval[i], "zn[1]"); WANT(fy[i], old[0][0][0][i] - old[0][1][0][i], "the state of the restart"); } } } } }
  { double eta, h, em, hmi; int qp, nsc; what = "cvSetEta"; state(q); M->cv_qprime = qp = q + (int)(rnd() % 3) - 1; M->cv_eta = eta = pos() * (rnd() % 2 ? 1 : 4); h = M->cv_h; em = M->cv_etamax; hmi = M->cv_hmax_inv; nsc = M->cv_nscon; cvSetEta(M); execs++; cap(what, q, eta, h, em, hmi); WANT(M->cv_nscon, eta >= 1.5 && qp < q ? 0 : nsc, "nscon"); }
  { double d, w; what = "cvComputeEtaqm1"; state(q); w = q > 1 ? 1 / (pow(6 * wnall(gz, 0, q) * tq0[1], 1.0 / q) + 1e-6) : 0; d = cvComputeEtaqm1(M); execs++; WANT(d, w, "the ratio"); WANT(M->cv_etaqm1, w, "etaqm1"); }
  { double d, w, c; what = "cvComputeEtaqp1"; state(q); if (rnd() % 8 == 0) M->cv_saved_tq5 = 0; if (q < qmax) { c = tq0[5] / M->cv_saved_tq5 * pow(M->cv_h / tau0[2], q + 1); w = M->cv_saved_tq5 == 0 ? 0 : 1 / (pow(10 * wnall(ga, c, q) * tq0[3], 1.0 / (q + 2)) + 1e-6); } else w = 0; d = cvComputeEtaqp1(M); execs++; WANT(d, w, "the ratio"); WANT(M->cv_etaqp1, w, "etaqp1"); }
  { double dsm, e, em1, ep1, best, h, em, hmi, c; int qp, qw; what = "cvPrepareNextStep"; state(q); M->cv_qwait = qw = rnd() % 3 ? 0 : 1 + rnd() % 3; dsm = pos() * (rnd() % 3 ? 0.01 : 1); h = M->cv_h; em = M->cv_etamax; hmi = M->cv_hmax_inv;
    if (rnd() % 5 == 0) em = M->cv_etamax = 1;
    for (i = 1; i <= 3; i += 2) M->cv_tq[i] = tq0[i] *= rnd() % 2 ? 1e-3 : 1;
    e = 1 / (pow(6 * dsm, 1.0 / (q + 1)) + 1e-6); em1 = q > 1 ? 1 / (pow(6 * wnall(gz, 0, q) * tq0[1], 1.0 / q) + 1e-6) : 0; c = tq0[5] / M->cv_saved_tq5 * pow(h / tau0[2], q + 1); ep1 = q < qmax ? 1 / (pow(10 * wnall(ga, c, q) * tq0[3], 1.0 / (q + 2)) + 1e-6) : 0;
    cvPrepareNextStep(M, dsm); execs++;
    if (em == 1) { WANT(M->cv_eta, 1, "eta"); WANT(M->cv_hprime, h, "hprime"); WANT(M->cv_qprime, q, "qprime"); WANT(M->cv_qwait, qw > 2 ? qw : 2, "qwait"); }
    else if (qw) { WANT(M->cv_qprime, q, "qprime"); cap(what, q, e, h, em, hmi); WANT(M->cv_qwait, qw, "qwait"); }
    else { best = fmax(e, fmax(em1, ep1)); qp = best < 1.5 ? q : best == e ? q : best == em1 ? q - 1 : q + 1; WANT(M->cv_qprime, qp, "qprime"); cap(what, q, best, h, em, hmi);
      if (qp == q + 1 && lmm == CV_BDF) for (i = 0; i < n; i++) WANT(NV_Ith_S(M->cv_zn[qmax], i), NV_Ith_S(M->cv_acor, i), "the saved correction"); } }
}
int main(int argc, char **argv) {
  int reps, r, q, feat;
  begin(argc, argv); reps = argc > 2 ? atoi(argv[2]) : 20;
  for (lmm = CV_ADAMS; lmm <= CV_BDF; lmm++) for (feat = 0; feat < 2; feat++) {
    make(feat);
    for (r = 0; r < reps; r++) for (q = 1; q <= qmax; q++) { history(q); coef(q); dky(q); control(q); }
    unmake();
  }
  SUNContext_Free(&ctx); return finish();
}
