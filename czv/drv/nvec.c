/* replay search for C22: every N_Vector operation on serial vectors against its definition */
#include "common.h"
static const char *pn(int a, int b, int c) { static char s[64]; sprintf(s, "alias pattern %d%d%d", a, b, c); return s; }
/* three vectors, some of them the same object */
static GV V[3]; static GV *P[3];
static int R3[5][3] = {{0,1,2},{0,0,2},{0,1,0},{0,1,1},{0,0,0}};
static void set(int n, int p, int k) { int i; for (i = 0; i < 3; i++) if (i < k && R3[p][i] == i) V[i] = gv(n); for (i = 0; i < k; i++) P[i] = &V[R3[p][i]]; }
static void snaps(int p, int k) { int i; for (i = 0; i < k; i++) if (R3[p][i] == i) snap(P[i]); }
static void done(int p, int k) { int i; for (i = 0; i < k; i++) if (R3[p][i] == i) gfree(&V[i]); }
static double O(int v, int i) { return P[v]->old[2 + i]; }
static double D(int v, int i) { return P[v]->raw[2 + i]; }
static void others(const char *op, int p, int k, int out) {
  int i; execs++;
  for (i = 0; i < k; i++) { if (!guards(P[i])) fail("%s %s writes outside vector %d (length %d)", op, pn(R3[p][0], R3[p][1], R3[p][2]), i, P[i]->n);
    if ((out < 0 || P[i] != P[out]) && !unchanged(P[i])) fail("%s %s changed its operand %d (length %d)", op, pn(R3[p][0], R3[p][1], R3[p][2]), i, P[i]->n); }
}
#define CHK(op, expr, scale) do { int i_; for (i_ = 0; i_ < n; i_++) { int i = i_; double w = (expr); if (!closes(D(out, i), w, (scale))) { fail("%s %s length %d a=%g b=%g: element %d is %.17g, should be %.17g", op, pn(R3[p][0], R3[p][1], R3[p][2]), n, a, b, i, D(out, i), w); break; } } } while (0)
static void red(const char *op, int p, int n, double got, double want, double scale) {
  execs++;
  if (!closes(got, want, scale)) { char s[400]; int i, l = 0; s[0] = 0; for (i = 0; i < n && i < 6; i++) l += sprintf(s + l, " %g", O(0, i)); fail("%s %s length %d x=%s...: %.17g, should be %.17g", op, pn(R3[p][0], R3[p][1], R3[p][2]), n, s, got, want); }
}
static double SQR(double x) { return x <= 0 ? 0 : sqrt(x); }
int main(int argc, char **argv) {
  int il, p, rep, q, loc; int reps = argc > 2 ? atoi(argv[2]) : 12;
  begin(argc, argv);
  for (il = 0; il < nlen; il++) for (p = 0; p < 5; p++) for (rep = 0; rep < reps * (il < 9 ? 4 : 1); rep++) {
    int n = lens[il], out; double a = rep < 25 ? pool[rep % 5] : val(), b = rep < 25 ? pool[rep / 5 % 5] : val();
    if (rep % 7 == 3) b = a; if (rep % 7 == 5) b = -a;
    set(n, p, 3); snaps(p, 3); out = 2;
    N_VLinearSum(a, P[0]->v, b, P[1]->v, P[2]->v); others("N_VLinearSum", p, 3, 2);
    CHK("N_VLinearSum", a * O(0, i) + b * O(1, i), fabs(a * O(0, i)) + fabs(b * O(1, i)));
    done(p, 3); set(n, p, 3); snaps(p, 3);
    N_VProd(P[0]->v, P[1]->v, P[2]->v); others("N_VProd", p, 3, 2); CHK("N_VProd", O(0, i) * O(1, i), 0);
    done(p, 3); set(n, p, 3); snaps(p, 3);
    N_VDiv(P[0]->v, P[1]->v, P[2]->v); others("N_VDiv", p, 3, 2); CHK("N_VDiv", O(0, i) / O(1, i), 0);
    done(p, 3);
    if (p == 0 || p == 1) { /* two operands, the same or not */
      int k = 2; out = 1;
      set(n, p, k); snaps(p, k); N_VScale(a, P[0]->v, P[1]->v); others("N_VScale", p, k, 1); CHK("N_VScale", a * O(0, i), 0); done(p, k);
      set(n, p, k); snaps(p, k); N_VAbs(P[0]->v, P[1]->v); others("N_VAbs", p, k, 1); CHK("N_VAbs", fabs(O(0, i)), 0); done(p, k);
      set(n, p, k); snaps(p, k); N_VInv(P[0]->v, P[1]->v); others("N_VInv", p, k, 1); CHK("N_VInv", 1 / O(0, i), 0); done(p, k);
      set(n, p, k); snaps(p, k); N_VAddConst(P[0]->v, b, P[1]->v); others("N_VAddConst", p, k, 1); CHK("N_VAddConst", O(0, i) + b, fabs(O(0, i)) + fabs(b)); done(p, k);
      set(n, p, k); if (n && rep % 3 == 0) P[0]->raw[2 + rnd() % n] = a; if (n && rep % 3 == 1) P[0]->raw[2 + rnd() % n] = -a; snaps(p, k);
      N_VCompare(a, P[0]->v, P[1]->v); others("N_VCompare", p, k, 1); CHK("N_VCompare", fabs(O(0, i)) >= a ? 1.0 : 0.0, 0); done(p, k);
      if (p == 0) { out = 0; set(n, p, 1); snaps(p, 1); N_VConst(a, P[0]->v); others("N_VConst", p, 1, 0); CHK("N_VConst", a, 0); done(p, 1); out = 1; }
      for (loc = 0; loc < 2; loc++) {
        int i, nz = 1; double s = 0, sc = 0, m;
        set(n, p, k); snaps(p, k);
        for (i = 0; i < n; i++) s += O(0, i) * O(1, i), sc += fabs(O(0, i) * O(1, i));
        red("N_VDotProd", p, n, loc ? N_VDotProdLocal(P[0]->v, P[1]->v) : N_VDotProd(P[0]->v, P[1]->v), s, sc);
        for (s = 0, i = 0; i < n; i++) s = fmax(s, fabs(O(0, i)));
        red("N_VMaxNorm", p, n, loc ? N_VMaxNormLocal(P[0]->v) : N_VMaxNorm(P[0]->v), s, 0);
        for (s = 0, i = 0; i < n; i++) s += fabs(O(0, i));
        red("N_VL1Norm", p, n, loc ? N_VL1NormLocal(P[0]->v) : N_VL1Norm(P[0]->v), s, 0);
        if (n) { for (m = O(0, 0), i = 1; i < n; i++) m = fmin(m, O(0, i)); red("N_VMin", p, n, loc ? N_VMinLocal(P[0]->v) : N_VMin(P[0]->v), m, 0); }
        for (s = 0, i = 0; i < n; i++) s += O(0, i) * O(1, i) * O(0, i) * O(1, i);
        if (n) red("N_VWrmsNorm", p, n, N_VWrmsNorm(P[0]->v, P[1]->v), SQR(s / n), 0);
        red("N_VWL2Norm", p, n, N_VWL2Norm(P[0]->v, P[1]->v), SQR(s), 0);
        red("N_VWSqrSumLocal", p, n, N_VWSqrSumLocal(P[0]->v, P[1]->v), s, 0);
        others("reductions", p, k, -1);
        if (p == 0) {
          double want = DBL_MAX; int any = 0;
          for (i = 0; i < n; i++) if (O(1, i) != 0) { double q_ = O(0, i) / O(1, i); if (!any || q_ < want) want = q_; any = 1; }
          red("N_VMinQuotient", p, n, loc ? N_VMinQuotientLocal(P[0]->v, P[1]->v) : N_VMinQuotient(P[0]->v, P[1]->v), want, 0);
          others("N_VMinQuotient", p, k, -1);
        }
        if (rep % 2) for (i = 0; i < n; i++) if (P[0]->raw[2 + i] == 0) P[0]->raw[2 + i] = 1.25;
        snaps(p, k);
        for (i = 0; i < n; i++) nz &= O(0, i) != 0;
        q = loc ? N_VInvTestLocal(P[0]->v, P[1]->v) : N_VInvTest(P[0]->v, P[1]->v);
        others("N_VInvTest", p, k, 1);
        { CHK("N_VInvTest", O(0, i) == 0 ? O(1, i) : 1 / O(0, i), 0); }
        if (!!q != nz) fail("N_VInvTest length %d returned %d, should be %d", n, q, nz);
        done(p, k);
      }
    }
    for (loc = 0; loc < 2; loc++) {
      int i; double s = 0;
      set(n, p, 3); if (p != 2 && p != 4 && p != 3) for (i = 0; i < n; i++) P[2]->raw[2 + i] = (int)(rnd() % 3) - 1 + (rnd() % 4 == 0 ? 0.25 : 0.0);
      snaps(p, 3);
      for (i = 0; i < n; i++) if (O(2, i) > 0) s += O(0, i) * O(1, i) * O(0, i) * O(1, i);
      if (n) red("N_VWrmsNormMask", p, n, N_VWrmsNormMask(P[0]->v, P[1]->v, P[2]->v), SQR(s / n), 0);
      red("N_VWSqrSumMaskLocal", p, n, N_VWSqrSumMaskLocal(P[0]->v, P[1]->v, P[2]->v), s, 0);
      others("N_VWrmsNormMask", p, 3, -1);
      if (p == 0) {
        int ok = 1;
        for (i = 0; i < n; i++) { P[0]->raw[2 + i] = (int)(rnd() % 5) - 2; if (rnd() % 3) P[0]->raw[2 + i] = 0; if (rnd() % 3 == 0) P[1]->raw[2 + i] = 0; }
        snaps(p, 3); out = 2;
        q = loc ? N_VConstrMaskLocal(P[0]->v, P[1]->v, P[2]->v) : N_VConstrMask(P[0]->v, P[1]->v, P[2]->v);
        others("N_VConstrMask", p, 3, 2);
#define BAD(c, x) ((c) == 2 ? (x) <= 0 : (c) == 1 ? (x) < 0 : (c) == -1 ? (x) > 0 : (c) == -2 ? (x) >= 0 : 0)
        CHK("N_VConstrMask", BAD(O(0, i), O(1, i)) ? 1.0 : 0.0, 0);
        for (i = 0; i < n; i++) if (BAD(O(0, i), O(1, i))) ok = 0;
        if (!!q != ok) fail("N_VConstrMask length %d returned %d, should be %d", n, q, ok);
      }
      done(p, 3);
    }
  }
  return finish();
}
