/* replay search for C23: fused and vector-array operations against their definitions, in every dispatch tier */
#include "common.h"
typedef struct { GV *g; N_Vector *a; int m, n; } FAM;
static FAM fam(int m, int n) { FAM f; int i; f.m = m; f.n = n; f.g = malloc(m * sizeof(GV)); f.a = malloc(m * sizeof(N_Vector)); for (i = 0; i < m; i++) { f.g[i] = gv(n); f.a[i] = f.g[i].v; } return f; }
static void fsnap(FAM *f) { int i; for (i = 0; i < f->m; i++) snap(&f->g[i]); }
static void ffree(FAM *f) { int i; for (i = 0; i < f->m; i++) gfree(&f->g[i]); free(f->g); free(f->a); }
static double FO(FAM *f, int i, int j) { return f->g[i].old[2 + j]; }
static double FD(FAM *f, int i, int j) { return f->g[i].raw[2 + j]; }
static void same(const char *op, FAM *f, const char *nm, int tier) { int i; for (i = 0; i < f->m; i++) if (!unchanged(&f->g[i]) || f->a[i] != f->g[i].v) fail("%s tier %d changed operand %s[%d]", op, tier, nm, i); }
static void ok_(const char *op, FAM *f, const char *nm, int tier) { int i; for (i = 0; i < f->m; i++) if (!guards(&f->g[i])) fail("%s tier %d writes outside %s[%d]", op, tier, nm, i); }
static double SQR(double x) { return x <= 0 ? 0 : sqrt(x); }
static int tier;
static void prep(N_Vector v) {
  if (tier == 0) N_VEnableFusedOps_Serial(v, 0);
  else if (tier == 2) N_VEnableFusedOps_Serial(v, 1);
  else { N_VEnableFusedOps_Serial(v, 0); N_VEnableLinearCombination_Serial(v, 1); N_VEnableScaleAddMulti_Serial(v, 1); }
}
static void fprep(FAM *f) { int i; for (i = 0; i < f->m; i++) prep(f->a[i]); }
#define BADEL(op, i, j, got, want) { fail("%s tier %d alias %d: nvec %d nsum %d length %d a=%g b=%g c0=%g c1=%g: [%d][%d] is %.17g, should be %.17g", op, tier, al, m, k, n, a, b, c[0], c[1], i, j, got, want); goto next; }
int main(int argc, char **argv) {
  int il, m, k, rep, al, i, j, l; int reps = argc > 2 ? atoi(argv[2]) : 3; int ms[64], nm = 0;
  begin(argc, argv);
  for (i = 1; i <= 5; i++) ms[nm++] = i;
  for (i = 9; i < nlen && nm < 40; i++) if (lens[i] < 40) ms[nm++] = lens[i];
  for (tier = 0; tier < 3; tier++) for (il = 1; il < nlen; il++) { int im, ik; for (im = 0; im < nm; im++) for (ik = 0; ik < (im < 5 ? nm : 2); ik++) for (rep = 0; rep < reps; rep++) {
    int n = lens[il]; double a = rep ? val() : pool[rnd() % 5], b = rep ? val() : pool[rnd() % 5]; double c[64], d[64];
    m = ms[im]; k = ms[ik]; if (rnd() % 5 == 0) b = a; if (rnd() % 5 == 0) b = -a;
    if (n > 6 && (m > 3 || k > 3) && rep) continue;
    for (i = 0; i < 64; i++) c[i] = rnd() % 3 ? val() : (rnd() % 2 ? 1.0 : -1.0);
    if (k == ms[0]) for (al = 0; al < 2; al++) { /* single-sum operations over m vectors */
      FAM X = fam(m, n), Y = fam(m, n), Z; GV z, x; int r; N_Vector zv;
      double cc[64]; memcpy(cc, c, sizeof cc);
      fprep(&X); fprep(&Y);
      /* linear combination */
      z = gv(n); zv = al ? X.a[0] : z.v; prep(z.v); fsnap(&X); snap(&z);
      r = N_VLinearCombination(m, c, X.a, zv); execs++;
      if (r) fail("N_VLinearCombination returned %d", r);
      for (j = 0; j < n; j++) { double w = 0, s = 0, got = NV_DATA_S(zv)[j]; for (i = 0; i < m; i++) w += c[i] * FO(&X, i, j), s += fabs(c[i] * FO(&X, i, j)); if (!closes(got, w, s)) BADEL("N_VLinearCombination", 0, j, got, w); }
      for (i = al; i < m; i++) if (!unchanged(&X.g[i])) fail("N_VLinearCombination tier %d changed operand X[%d] (nvec %d length %d)", tier, i, m, n);
      if (al ? !unchanged(&z) : !guards(&z)) fail("N_VLinearCombination tier %d wrote outside its result", tier);
      gfree(&z);
      /* scale-add */
      x = gv(n); prep(x.v); Z = fam(m, n); fprep(&Z); fsnap(&X); fsnap(&Y); fsnap(&Z); snap(&x);
      r = N_VScaleAddMulti(m, c, x.v, Y.a, al ? Y.a : Z.a); execs++; if (r) fail("N_VScaleAddMulti returned %d", r);
      for (i = 0; i < m; i++) for (j = 0; j < n; j++) { double t = c[i] * x.old[2 + j], w = t + FO(&Y, i, j), got = al ? FD(&Y, i, j) : FD(&Z, i, j); if (!closes(got, w, fabs(t) + fabs(FO(&Y, i, j)))) BADEL("N_VScaleAddMulti", i, j, got, w); }
      if (!unchanged(&x)) fail("N_VScaleAddMulti changed x"); if (al) { same("N_VScaleAddMulti", &Z, "Z", tier); ok_("N_VScaleAddMulti", &Y, "Y", tier); } else { same("N_VScaleAddMulti", &Y, "Y", tier); ok_("N_VScaleAddMulti", &Z, "Z", tier); }
      /* dot products */
      fsnap(&Y); snap(&x);
      for (l = 0; l < 2; l++) {
        for (i = 0; i < 64; i++) d[i] = GUARD;
        r = l ? N_VDotProdMultiLocal(m, x.v, Y.a, d) : N_VDotProdMulti(m, x.v, Y.a, d); execs++; if (r) fail("N_VDotProdMulti returned %d", r);
        for (i = 0; i < m; i++) { double w = 0, s = 0; for (j = 0; j < n; j++) w += x.old[2 + j] * FO(&Y, i, j), s += fabs(x.old[2 + j] * FO(&Y, i, j)); if (!closes(d[i], w, s)) BADEL("N_VDotProdMulti", i, 0, d[i], w); }
        if (d[m] != GUARD) fail("N_VDotProdMulti writes past its result");
        if (!unchanged(&x)) fail("N_VDotProdMulti changed x"); same("N_VDotProdMulti", &Y, "Y", tier);
      }
      /* linear sums */
      for (l = 0; l < 5; l++) { static int R[5][3] = {{0,1,2},{0,0,2},{0,1,0},{0,1,1},{0,0,0}}; FAM *F[3] = {&X, &Y, &Z}; FAM *p = F[R[l][0]], *q = F[R[l][1]], *o = F[R[l][2]];
        fsnap(&X); fsnap(&Y); fsnap(&Z);
        r = N_VLinearSumVectorArray(m, a, p->a, b, q->a, o->a); execs++; if (r) fail("N_VLinearSumVectorArray returned %d", r);
        for (i = 0; i < m; i++) for (j = 0; j < n; j++) { double w = a * FO(p, i, j) + b * FO(q, i, j), s = fabs(a * FO(p, i, j)) + fabs(b * FO(q, i, j)); if (!closes(FD(o, i, j), w, s)) BADEL("N_VLinearSumVectorArray", i, j, FD(o, i, j), w); }
        for (i = 0; i < 3; i++) if (F[i] != o) same("N_VLinearSumVectorArray", F[i], "operand", tier);
        ok_("N_VLinearSumVectorArray", o, "Z", tier);
        /* keep the numbers tame */
        for (i = 0; i < m; i++) for (j = 0; j < n; j++) { X.g[i].raw[2 + j] = anyv(); Y.g[i].raw[2 + j] = anyv(); Z.g[i].raw[2 + j] = anyv(); }
      }
      fsnap(&X); fsnap(&Z);
      r = N_VScaleVectorArray(m, c, X.a, al ? X.a : Z.a); execs++; if (r) fail("N_VScaleVectorArray returned %d", r);
      for (i = 0; i < m; i++) for (j = 0; j < n; j++) { double w = c[i] * FO(&X, i, j), got = al ? FD(&X, i, j) : FD(&Z, i, j); if (!closes(got, w, 0)) BADEL("N_VScaleVectorArray", i, j, got, w); }
      if (!al) same("N_VScaleVectorArray", &X, "X", tier); ok_("N_VScaleVectorArray", &X, "X", tier); ok_("N_VScaleVectorArray", &Z, "Z", tier);
      fsnap(&Z);
      r = N_VConstVectorArray(m, a, Z.a); execs++; if (r) fail("N_VConstVectorArray returned %d", r);
      for (i = 0; i < m; i++) for (j = 0; j < n; j++) if (!closes(FD(&Z, i, j), a, 0)) BADEL("N_VConstVectorArray", i, j, FD(&Z, i, j), a);
      ok_("N_VConstVectorArray", &Z, "Z", tier);
      for (l = 0; l < 2; l++) { FAM *W = al ? &X : &Y; fsnap(&X); fsnap(&Y);
        for (j = 0; j < n; j++) x.raw[2 + j] = (int)(rnd() % 3) - 1 + (rnd() % 3 == 0 ? 0.5 : 0); snap(&x);
        for (i = 0; i < 64; i++) d[i] = GUARD;
        r = l ? N_VWrmsNormMaskVectorArray(m, X.a, W->a, x.v, d) : N_VWrmsNormVectorArray(m, X.a, W->a, d); execs++; if (r) fail("N_VWrmsNormVectorArray returned %d", r);
        for (i = 0; i < m; i++) { double w = 0; for (j = 0; j < n; j++) if (!l || x.old[2 + j] > 0) { double t = FO(&X, i, j) * FO(W, i, j); w += t * t; } w = SQR(w / n); if (!closes(d[i], w, 0)) BADEL(l ? "N_VWrmsNormMaskVectorArray" : "N_VWrmsNormVectorArray", i, 0, d[i], w); }
        if (d[m] != GUARD) fail("N_VWrmsNormVectorArray writes past its result");
        same("N_VWrmsNormVectorArray", &X, "X", tier); same("N_VWrmsNormVectorArray", &Y, "Y", tier); if (!unchanged(&x)) fail("N_VWrmsNormMaskVectorArray changed id");
      }
      if (memcmp(cc, c, sizeof cc)) fail("a fused operation changed its coefficients");
      gfree(&x); ffree(&X); ffree(&Y); ffree(&Z);
    }
    for (al = 0; al < 2; al++) { /* k sums over m vectors */
      FAM X = fam(m, n); FAM Y[40], Z[40]; N_Vector *Ya[40], *Za[40]; int r;
      fprep(&X);
      for (l = 0; l < k; l++) { Y[l] = fam(m, n); Z[l] = fam(m, n); fprep(&Y[l]); fprep(&Z[l]); Ya[l] = Y[l].a; Za[l] = Z[l].a; fsnap(&Y[l]); fsnap(&Z[l]); }
      fsnap(&X);
      r = N_VScaleAddMultiVectorArray(m, k, c, X.a, Ya, al ? Ya : Za); execs++; if (r) fail("N_VScaleAddMultiVectorArray returned %d", r);
      for (l = 0; l < k; l++) for (i = 0; i < m; i++) for (j = 0; j < n; j++) { double t = c[l] * FO(&X, i, j), w = t + FO(&Y[l], i, j), got = al ? FD(&Y[l], i, j) : FD(&Z[l], i, j); if (!closes(got, w, fabs(t) + fabs(FO(&Y[l], i, j)))) BADEL("N_VScaleAddMultiVectorArray", l, i, got, w); }
      same("N_VScaleAddMultiVectorArray", &X, "X", tier);
      for (l = 0; l < k; l++) { if (al) same("N_VScaleAddMultiVectorArray", &Z[l], "Z", tier); else same("N_VScaleAddMultiVectorArray", &Y[l], "Y", tier); ok_("N_VScaleAddMultiVectorArray", &Y[l], "Y", tier); ok_("N_VScaleAddMultiVectorArray", &Z[l], "Z", tier); }
      for (l = 0; l < k; l++) fsnap(&Y[l]); fsnap(&X);
      r = N_VLinearCombinationVectorArray(m, k, c, Ya, al ? Ya[0] : X.a); execs++; if (r) fail("N_VLinearCombinationVectorArray returned %d", r);
      for (i = 0; i < m; i++) for (j = 0; j < n; j++) { double w = 0, s = 0, got = al ? FD(&Y[0], i, j) : FD(&X, i, j); for (l = 0; l < k; l++) w += c[l] * FO(&Y[l], i, j), s += fabs(c[l] * FO(&Y[l], i, j)); if (!closes(got, w, s)) BADEL("N_VLinearCombinationVectorArray", i, j, got, w); }
      for (l = al; l < k; l++) same("N_VLinearCombinationVectorArray", &Y[l], "X", tier); if (al) same("N_VLinearCombinationVectorArray", &X, "Z", tier); else ok_("N_VLinearCombinationVectorArray", &X, "Z", tier); ok_("N_VLinearCombinationVectorArray", &Y[0], "X", tier);
      for (l = 0; l < k; l++) { ffree(&Y[l]); ffree(&Z[l]); }
      ffree(&X);
    }
    next:;
  } }
  return finish();
}
