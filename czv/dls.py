"""Dense direct linear solvers (LU, Cholesky, QR): bounded sizes, all real entries."""
import z3
from . import eng, harness
from .eng import *
from .run import Unit
from .sunmat import FILES as MF, cols, el, mat
FILES = MF + ("src/sunlinsol/dense/sunlinsol_dense.c", "src/sundials/sundials_linearsolver.c")
UNITS = []
def unit(id, body, **k):
    UNITS.append(Unit(id, FILES, body, **k))

def intarr(cx, name, n):
    rid = cx.ext(name, n, "long")
    return Ptr(rid, (), (0,), "R", "long")

def b_lu(cx, n, m=None):
    E = cx.E
    m = m or n
    a, ac = cols(cx, "a", m, n)
    p = intarr(cx, "p", n)
    cx.start()
    A0 = [[el(cx, a, j, i) for j in range(n)] for i in range(m)]
    r = cx.fn("SUNDlsMat_denseGETRF", [ac, m, n, p])
    cx.frame({a: None, p.rid: None})
    r = E.concrete(r) if hasattr(E, "concrete") else r
    P = list(range(m))
    k = n if not isz(r) and r == 0 else r - 1
    F = [[zr(cx.cell(a, (j, i), False)) for j in range(n)] for i in range(m)]
    for t in range(n if r == 0 else r):
        l = cx.read(p, t)
        cx.ob("pivot row %d is not above its step" % t, band(bsimp(zi(l) >= t), bsimp(zi(l) < m)))
        if r != 0 and t == r - 1:
            break
        P[t], P[l] = P[l], P[t]
    if r == 0:
        for i in range(m):
            for j in range(n):
                s = zr(0)
                for t in range(min(i, j) + 1):
                    s = s + (F[i][t] if t < i else 1) * F[t][j] if t < i or t == i else s
                cx.same("(PA)[%d][%d] = (LU)[%d][%d]" % (i, j, i, j), s, A0[P[i]][j])
        for i in range(m):
            for j in range(min(i, n)):
                cx.ob("|L[%d][%d]| <= 1" % (i, j), z3.And(F[i][j] <= 1, F[i][j] >= -1))
        for t in range(n):
            cx.ob("U[%d][%d] is not zero" % (t, t), F[t][t] != 0)
for n, m in ((1, 1), (2, 2), (3, 3), (2, 3)):
    unit("SUNDlsMat_denseGETRF %dx%d" % (m, n), lambda cx, n=n, m=m: b_lu(cx, n, m), bounded="matrix of %d x %d reals" % (m, n))

def b_getrs(cx, n):
    E = cx.E
    a, ac = cols(cx, "a", n, n)
    p = intarr(cx, "p", n)
    b = cx.realarr("b", n)
    F = [[el(cx, a, j, i) for j in range(n)] for i in range(n)]
    for t in range(n):
        E.assume(F[t][t] != 0)
        pt = zi(cx.cell(p.rid, (t,), False))
        E.assume(z3.And(pt >= t, pt < n))
    P = list(range(n))
    pv = []
    for t in range(n):
        pt = zi(cx.cell(p.rid, (t,), False))
        l = None
        for q in range(t, n):
            if E.branch(pt == q):
                l = q
                break
        P[t], P[l] = P[l], P[t]
    cx.start()
    b0 = [zr(cx.cell(b.rid, (i,))) for i in range(n)]
    cx.fn("SUNDlsMat_denseGETRS", [ac, n, p, b])
    cx.frame({b.rid: None})
    x = [zr(cx.cell(b.rid, (i,), False)) for i in range(n)]
    # LUx = Pb
    Ux = [sum((F[i][j] * x[j] for j in range(i, n)), zr(0)) for i in range(n)]
    for i in range(n):
        s = Ux[i]
        for t in range(i):
            s = s + F[i][t] * Ux[t]
        cx.same("(LUx)[%d] = (Pb)[%d]" % (i, i), s, b0[P[i]])
for n in (1, 2, 3):
    unit("SUNDlsMat_denseGETRS n=%d" % n, lambda cx, n=n: b_getrs(cx, n), bounded="%d unknowns, all reals" % n)

def b_potrf(cx, n):
    E = cx.E
    a, ac = cols(cx, "a", n, n)
    cx.start()
    A0 = [[el(cx, a, j, i) for j in range(n)] for i in range(n)]
    r = cx.fn("SUNDlsMat_densePOTRF", [ac, n])
    C = [[zr(cx.cell(a, (j, i), False)) for j in range(n)] for i in range(n)]
    for j in range(n):
        for i in range(j):
            cx.same("upper triangle (%d,%d) unchanged" % (i, j), C[i][j], A0[i][j])
    for j in range(n if r == 0 else r - 1):
        cx.ob("C[%d][%d] > 0" % (j, j), C[j][j] > 0)
        for i in range(j, n):
            cx.same("(C C^T)[%d][%d] = A" % (i, j), sum((C[i][t] * C[j][t] for t in range(j + 1)), zr(0)), A0[i][j])
    cx.frame({a: None})
    if r != 0:
        j = r - 1
        cx.ob("the reported pivot is not positive", A0[j][j] - sum((C[j][t] * C[j][t] for t in range(j)), zr(0)) <= 0)
for n in (1, 2, 3):
    unit("SUNDlsMat_densePOTRF n=%d" % n, lambda cx, n=n: b_potrf(cx, n), bounded="%d x %d reals" % (n, n))

def b_potrs(cx, n):
    E = cx.E
    a, ac = cols(cx, "a", n, n)
    b = cx.realarr("b", n)
    C = [[el(cx, a, j, i) for j in range(n)] for i in range(n)]
    for t in range(n):
        E.assume(C[t][t] != 0)
    cx.start()
    b0 = [zr(cx.cell(b.rid, (i,))) for i in range(n)]
    cx.fn("SUNDlsMat_densePOTRS", [ac, n, b])
    cx.frame({b.rid: None})
    x = [zr(cx.cell(b.rid, (i,), False)) for i in range(n)]
    y = [sum((C[j][i] * x[j] for j in range(i, n)), zr(0)) for i in range(n)]
    for i in range(n):
        cx.same("(C C^T x)[%d] = b[%d]" % (i, i), sum((C[i][t] * y[t] for t in range(i + 1)), zr(0)), b0[i])
for n in (1, 2, 3):
    unit("SUNDlsMat_densePOTRS n=%d" % n, lambda cx, n=n: b_potrs(cx, n), bounded="%d unknowns, all reals" % n)

def refl(v, beta, x):
    s = sum((v[i] * x[i] for i in range(len(x))), zr(0))
    return [x[i] - beta * v[i] * s for i in range(len(x))]
def b_geqrf(cx, m, n):
    E = cx.E
    a, ac = cols(cx, "a", m, n)
    be, w = cx.realarr("beta", n), cx.realarr("v", m)
    cx.start()
    A0 = [[el(cx, a, j, i) for j in range(n)] for i in range(m)]
    r = cx.fn("SUNDlsMat_denseGEQRF", [ac, m, n, be, w])
    cx.same("returns 0", r, 0)
    cx.frame({a: None, be.rid: None, w.rid: None})
    F = [[zr(cx.cell(a, (j, i), False)) for j in range(n)] for i in range(m)]
    B = [zr(cx.cell(be.rid, (j,), False)) for j in range(n)]
    V = [[zr(0)] * j + [zr(1)] + [F[i][j] for i in range(j + 1, m)] for j in range(n)]
    for j in range(n):
        vv = sum((x * x for x in V[j]), zr(0))
        cx.ob("reflector %d is orthogonal" % j, B[j] * (2 - B[j] * vv) == 0)
    for c in range(n):
        x = [A0[i][c] for i in range(m)]
        for j in range(c + 1):
            x = refl(V[j], B[j], x)
        for i in range(m):
            cx.same("(Q^T A)[%d][%d] = R" % (i, c), x[i], F[i][c] if i <= c else zr(0))
for m, n in ((1, 1), (2, 1), (2, 2)):
    unit("SUNDlsMat_denseGEQRF %dx%d" % (m, n), lambda cx, n=n, m=m: b_geqrf(cx, m, n), bounded="%d x %d reals" % (m, n))

def b_ormqr(cx, m, n):
    E = cx.E
    a, ac = cols(cx, "a", m, n)
    be, w = cx.realarr("beta", n), cx.realarr("wrk", m)
    vn, vm = cx.realarr("vn", n), cx.realarr("vm", m)
    cx.start()
    F = [[el(cx, a, j, i) for j in range(n)] for i in range(m)]
    B = [zr(cx.cell(be.rid, (j,))) for j in range(n)]
    V = [[zr(0)] * j + [zr(1)] + [F[i][j] for i in range(j + 1, m)] for j in range(n)]
    x = [zr(cx.cell(vn.rid, (j,))) for j in range(n)] + [zr(0)] * (m - n)
    r = cx.fn("SUNDlsMat_denseORMQR", [ac, m, n, be, vn, vm, w])
    cx.same("returns 0", r, 0)
    cx.frame({vm.rid: None, w.rid: None})
    for j in reversed(range(n)):
        x = refl(V[j], B[j], x)
    for i in range(m):
        cx.same("vm[%d] = (Q vn)[%d]" % (i, i), zr(cx.cell(vm.rid, (i,), False)), x[i])
for m, n in ((1, 1), (2, 1), (2, 2), (3, 2), (3, 3)):
    unit("SUNDlsMat_denseORMQR %dx%d" % (m, n), lambda cx, n=n, m=m: b_ormqr(cx, m, n), bounded="%d x %d reals" % (m, n))

def b_solve(cx, n, alias):
    """setup then solve through the generic interface"""
    E = cx.E
    co, mm = E.collect, eng.MALLOC_MAY_FAIL[0]
    A = mat(cx, "A", n, n)
    b = cx.vec("b", n)
    x = b if alias else cx.vec("x", n)
    E.collect, eng.MALLOC_MAY_FAIL[0] = False, False
    try:
        S = cx.fn("SUNLinSol_Dense", [x, A.p, cx._ctx])
    finally:
        E.collect, eng.MALLOC_MAY_FAIL[0] = co, mm
    E.st.pc = list(E.st.pc)
    cx.same("initialize succeeds", cx.fn("SUNLinSolInitialize", [S]), 0)
    cx.start()
    A0 = [[el(cx, A, j, i) for j in range(n)] for i in range(n)]
    b0 = [zr(cx.el(b, i)) for i in range(n)]
    r = cx.fn("SUNLinSolSetup", [S, A.p])
    if E.branch(zb(E.compare("!=", r, 0))):
        cx.ob("a singular matrix is reported as recoverable", bsimp(zi(r) > 0))
        lf = cx.fn("SUNLinSolLastFlag", [S])
        cx.ob("the last flag names the column", band(bsimp(zi(lf) >= 1), bsimp(zi(lf) <= n)))
        d = A0[0][0] if n == 1 else A0[0][0] * A0[1][1] - A0[0][1] * A0[1][0]
        cx.ob("the matrix is singular", d == 0)
        cx.frame({A.data: None}, ignore=[S.rid] + [rid for rid in E.regions if rid.startswith("malloc")])
        return
    cx.same("last flag after setup", cx.fn("SUNLinSolLastFlag", [S]), 0)
    r = cx.fn("SUNLinSolSolve", [S, A.p, x, b, cx.real("tol")])
    cx.same("solve succeeds", r, 0)
    cx.same("last flag after solve", cx.fn("SUNLinSolLastFlag", [S]), 0)
    xs = [zr(cx.el(x, i, False)) for i in range(n)]
    for i in range(n):
        cx.same("(A x)[%d] = b[%d]" % (i, i), sum((A0[i][j] * xs[j] for j in range(n)), zr(0)), b0[i])
    cx.frame({A.data: None, harness.v_data[x.rid]: None}, ignore=[rid for rid in E.regions if rid.startswith("malloc")])
for n in (1, 2):
    for al in (False, True):
        unit("SUNLinSol_Dense setup; solve n=%d%s" % (n, " (x=b)" if al else ""), lambda cx, n=n, al=al: b_solve(cx, n, al), bounded="%d unknowns, all reals" % n)

def b_lsnew(cx):
    E = cx.E
    n, m, l = cx.N("n"), cx.N("m"), cx.N("l")
    A = mat(cx, "A", m, n)
    y = cx.vec("y", l)
    cx.start()
    S = cx.fn("SUNLinSol_Dense", [y, A.p, cx._ctx])
    cx.frame()
    from .sunmat import noleak, isnull
    if isnull(cx, S):
        noleak(cx, "failed construction")
        return
    cx.ob("only a square matrix matching the vector is accepted", z3.And(n == m, n == l))
    cx.same("type", cx.fn("SUNLinSolGetType", [S]), E.P.enum("SUNLINEARSOLVER_DIRECT") if hasattr(E.P, "enum") else 0)
    cx.same("last flag", cx.fn("SUNLinSolLastFlag", [S]), 0)
    cx.same("free", cx.fn("SUNLinSolFree", [S]), 0)
    noleak(cx, "destruction")
    cx.frame()
unit("SUNLinSol_Dense; SUNLinSolFree", b_lsnew)
