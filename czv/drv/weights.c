/* tolerances set one after another on a real block, and the error weights computed from them */
#include "common.h"
#include "cvodes.c"
#define n 3
#define NS 2
int __lsan_is_turned_off(void) { return 1; } /* a change from vector to scalar tolerances keeps the earlier copies allocated: noted in DESIGN.md, not part of the property */
static CVodeMem M; static N_Vector Y; static int has[4]; /* state, quadratures, sensitivities, quadrature sensitivities */
static const char *what;
static int close2(double a, double b) { return fabs(a - b) <= 1e-9 * (1 + fabs(b)); }
#define WANT(x, w, ...) do { double x_ = (x), w_ = (w); if (!close2(x_, w_)) { char b_[200]; snprintf(b_, sizeof b_, __VA_ARGS__); fail("%s: %s is %.12g, not %.12g", what, b_, x_, w_); } } while (0)
static int f_(realtype t, N_Vector y, N_Vector d, void *u) { N_VConst(0, d); return 0; }
static int fs_(int Ns, realtype t, N_Vector y, N_Vector yd, int k, N_Vector s, N_Vector sd, void *u, N_Vector a, N_Vector b) { N_VConst(0, sd); return 0; }
static int fqs_(int Ns, realtype t, N_Vector y, N_Vector *s, N_Vector yq, N_Vector *d, void *u, N_Vector a, N_Vector b) { return 0; }
static int uw(N_Vector y, N_Vector w, void *u) { N_VConst(3, w); return 0; }
static void quiet(int a, const char *b, const char *c, char *d, void *e) {}
/* what is set now: per integrator, kind, relative and absolute tolerances */
static struct { int kind; double r, a[NS][n]; } T[4];
static double P[NS];
static double tol(void) { int r = rnd() % 8; return r == 0 ? 0 : r == 1 ? -0.25 : (1 + rnd() % 16) / 16.0; }
static double yval(void) { return rnd() % 4 ? small() : 0; }
static int zero(int w, int k) { int i, z = 1; if (T[w].kind == CV_SS) return T[w].a[k][0] == 0; for (i = 0; i < n; i++) if (T[w].a[k][i] == 0) return 1; return 0; (void)z; }
static void set(int w, int sv) {
  double r = tol(), a[NS][n], v[NS]; int k, i, K = w >= 2 ? NS : 1, neg = r < 0, ret, want, itol[4]; N_Vector av[NS]; double lrw = M->cv_lrw;
  static const int none[] = {CV_NO_MALLOC, CV_NO_QUAD, CV_NO_SENS, CV_NO_QUADSENS};
  for (k = 0; k < K; k++) { av[k] = N_VClone(Y); v[k] = tol(); if (v[k] < 0 && !sv) neg = 1; for (i = 0; i < n; i++) { a[k][i] = sv ? tol() : v[k]; if (a[k][i] < 0) neg = 1; NV_Ith_S(av[k], i) = a[k][i]; } }
  static const char *nm[4][2] = {{"CVodeSStolerances", "CVodeSVtolerances"}, {"CVodeQuadSStolerances", "CVodeQuadSVtolerances"}, {"CVodeSensSStolerances", "CVodeSensSVtolerances"}, {"CVodeQuadSensSStolerances", "CVodeQuadSensSVtolerances"}};
  what = nm[w][sv]; execs++;
  itol[0] = M->cv_itol; itol[1] = M->cv_itolQ; itol[2] = M->cv_itolS; itol[3] = M->cv_itolQS;
  ret = w == 0 ? (sv ? CVodeSVtolerances(M, r, av[0]) : CVodeSStolerances(M, r, v[0])) : w == 1 ? (sv ? CVodeQuadSVtolerances(M, r, av[0]) : CVodeQuadSStolerances(M, r, v[0]))
    : w == 2 ? (sv ? CVodeSensSVtolerances(M, r, av) : CVodeSensSStolerances(M, r, v)) : (sv ? CVodeQuadSensSVtolerances(M, r, av) : CVodeQuadSensSStolerances(M, r, v));
  want = !has[w] ? (w == 3 && !has[2] ? CV_NO_SENS : none[w]) : neg ? CV_ILL_INPUT : 0;
  WANT(ret, want, "the result");
  if (!want) { T[w].kind = sv ? CV_SV : CV_SS; T[w].r = r; memcpy(T[w].a, a, sizeof a); itol[w] = T[w].kind; if (w == 0) { if (M->cv_user_efun || M->cv_efun != cvEwtSet) fail("%s: the weights are not computed from these tolerances", what); } }
  else if (M->cv_lrw != lrw) fail("%s: a refusal changes the recorded workspace", what);
  WANT(M->cv_itol, itol[0], "itol"); WANT(M->cv_itolQ, itol[1], "itolQ"); WANT(M->cv_itolS, itol[2], "itolS"); WANT(M->cv_itolQS, itol[3], "itolQS");
  for (k = 0; k < K; k++) { for (i = 0; i < n; i++) NV_Ith_S(av[k], i) = 77; v[k] = 77; N_VDestroy(av[k]); } /* the caller's values are not needed any more */
}
static void others(void) {
  int k; execs++;
  what = "CVodeWFtolerances"; k = CVodeWFtolerances(M, uw); WANT(k, has[0] ? 0 : CV_NO_MALLOC, "the result"); if (!k) { if (M->cv_itol != CV_WF || M->cv_efun != uw || !M->cv_user_efun) fail("%s: the user's weights are not in use", what); T[0].kind = CV_WF; }
  what = "CVodeSensEEtolerances"; k = CVodeSensEEtolerances(M); WANT(k, has[2] ? 0 : CV_NO_SENS, "the result"); if (!k) { T[2].kind = CV_EE; WANT(M->cv_itolS, CV_EE, "itolS"); }
  what = "CVodeQuadSensEEtolerances"; k = CVodeQuadSensEEtolerances(M); WANT(k, has[3] ? 0 : has[2] ? CV_NO_QUADSENS : CV_NO_SENS, "the result"); if (!k) { T[3].kind = CV_EE; WANT(M->cv_itolQS, CV_EE, "itolQS"); }
  what = "tolerances"; if (CVodeSStolerances(NULL, 1, 1) != CV_MEM_NULL || CVodeSensEEtolerances(NULL) != CV_MEM_NULL || CVodeQuadSensEEtolerances(NULL) != CV_MEM_NULL || CVodeQuadSStolerances(NULL, 1, 1) != CV_MEM_NULL) fail("%s: a missing block is accepted", what);
}
/* weights of one vector by the tolerances of integrator w (row k): 0 if they can be computed */
static int weigh(int w, int k, const double *y, double *out) { int i, bad = 0; double s; for (i = 0; i < n; i++) { s = T[w].r * fabs(y[i]) + (T[w].kind == CV_SS ? T[w].a[k][0] : T[w].a[k][i]); out[i] = s > 0 ? 1 / s : 0; if (s <= 0) bad = 1; } return bad; }
static void check(void) {
  M->cv_e_data = M->cv_user_efun ? M->cv_user_data : M; /* as the initial setup does */
  int w, k, i, K, bad, r; double y[NS][n], e[NS][n], py[n]; N_Vector Yv[NS], W[NS];
  for (k = 0; k < NS; k++) { Yv[k] = N_VClone(Y); W[k] = N_VClone(Y); }
  for (w = 0; w < 4; w++) {
    if (!has[w] || !T[w].kind) continue;
    if (T[w].kind == CV_EE && !T[w - 2].kind) continue;
    K = w >= 2 ? NS : 1; bad = 0; execs++;
    for (k = 0; k < K; k++) { for (i = 0; i < n; i++) NV_Ith_S(Yv[k], i) = y[k][i] = yval();
      if (T[w].kind == CV_WF) continue;
      if (T[w].kind == CV_EE) { for (i = 0; i < n; i++) py[i] = P[k] * y[k][i]; if (T[w - 2].kind == CV_WF) for (i = 0; i < n; i++) e[k][i] = 3; else bad |= weigh(w - 2, 0, py, e[k]); for (i = 0; i < n; i++) e[k][i] *= P[k]; }
      else bad |= weigh(w, k, y[k], e[k]); }
    static const char *nm[] = {"cvEwtSet", "cvQuadEwtSet", "cvSensEwtSet", "cvQuadSensEwtSet"}; what = nm[w];
    if (T[w].kind == CV_WF) continue;
    r = w == 0 ? M->cv_efun(Yv[0], W[0], M->cv_e_data) : w == 1 ? cvQuadEwtSet(M, Yv[0], W[0]) : w == 2 ? cvSensEwtSet(M, Yv, W) : cvQuadSensEwtSet(M, Yv, W);
    WANT(r, bad ? -1 : 0, "the result");
    if (!bad) for (k = 0; k < K; k++) for (i = 0; i < n; i++) { WANT(NV_Ith_S(W[k], i), e[k][i], "weight %d of vector %d", i, k); WANT(NV_Ith_S(Yv[k], i), y[k][i], "the vector itself"); }
  }
  for (k = 0; k < NS; k++) { N_VDestroy(Yv[k]); N_VDestroy(W[k]); }
}
int main(int argc, char **argv) {
  int reps, c, r, k, q; void *p; N_Vector S[NS]; int plist[NS];
  begin(argc, argv); reps = argc > 2 ? atoi(argv[2]) : 20;
  Y = N_VNew_Serial(n, ctx); for (k = 0; k < NS; k++) S[k] = N_VClone(Y);
  for (q = 0; q < reps; q++) for (c = 0; c < 16; c++) {
    has[0] = 1; has[1] = c & 1; has[2] = (c >> 1) & 1; has[3] = has[1] && has[2] && (c & 4); if (c == 8) has[0] = 0; memset(T, 0, sizeof T);
    p = CVodeCreate(CV_BDF, ctx); M = p; CVodeSetErrHandlerFn(M, quiet, NULL);
    if (has[0]) CVodeInit(M, f_, 0, Y);
    if (has[1]) CVodeQuadInit(M, f_, Y);
    if (has[2]) { CVodeSensInit1(M, NS, CV_STAGGERED1, fs_, S); for (k = 0; k < NS; k++) P[k] = (1 + rnd() % 8) / 4.0; double pp[NS] = {1, 1}; CVodeSetSensParams(M, pp, P, NULL); }
    if (has[3]) CVodeQuadSensInit(M, fqs_, S);
    if (has[0]) for (r = 0; r < 12; r++) { k = rnd() % 9; if (k < 8) set(k / 2, k % 2); else others(); check(); }
    else { what = "no problem yet"; WANT(CVodeSStolerances(M, 1, 1), CV_NO_MALLOC, "the result of CVodeSStolerances"); WANT(CVodeSVtolerances(M, 1, Y), CV_NO_MALLOC, "the result of CVodeSVtolerances"); WANT(CVodeWFtolerances(M, uw), CV_NO_MALLOC, "the result of CVodeWFtolerances"); }
    CVodeFree(&p);
  }
  N_VDestroy(Y); for (k = 0; k < NS; k++) N_VDestroy(S[k]);
  SUNContext_Free(&ctx); return finish();
}
