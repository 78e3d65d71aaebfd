"""Fused and vector-array operations: specifications, for the serial kernels and the generic fallbacks."""
import z3
from . import eng
from .eng import *
from .run import Unit
from .nvec import FILES, SQ, ab, sq
from .contracts import CONTRACTS

CT = tuple(CONTRACTS)
UNITS = []

def setup(cx, fused):
    eng.MALLOC_MAY_FAIL[0] = False
    cx.fused = fused
    cx.template()
def M(E, name="nvec", lo=1):
    m = z3.Int(name)
    E.assume(m >= lo)
    return m
def fdat(cx, p):
    return cx.fdata(p)
TIERS = [("fallback", ()), ("fused", "all")]

def mk(name, body, tiers=TIERS):
    for tn, fused in tiers:
        def b(cx, fused=fused):
            setup(cx, fused)
            body(cx)
        UNITS.append(Unit("%s [%s]" % (name, tn), FILES, b, contracts=CT))

def ok(cx, r):
    cx.same("returns 0", r, 0)

# z = sum c_i X_i
def lincomb(alias):
    def body(cx):
        E = cx.E
        n, m = cx.N(), M(E)
        c = cx.realarr("c", m)
        X = cx.fam("X", [m], n)
        z = cx.read(X, 0) if alias else cx.vec("z", n)
        cx.start()
        r = cx.fn("N_VLinearCombination", [m, c, X, z])
        ok(cx, r)
        want = lambda j: E.sumof(lambda i: zr(cx.cell(c.rid, (i,))) * zr(cx.fel(X, (i, j))), 0, m)
        if alias:
            cx.frame({fdat(cx, X): lambda q: z3.If(zi(q[0]) == 0, want(q[1]), zr(cx.fel(X, q)))})
        else:
            from .nvec import eng_vd
            cx.frame({eng_vd(z): lambda q: want(q[0])})
    return body
mk("N_VLinearCombination(z distinct)", lincomb(False))
mk("N_VLinearCombination(z=X[0])", lincomb(True))

# Z_i = a_i x + Y_i
def scaleaddmulti(alias):
    def body(cx):
        E = cx.E
        n, m = cx.N(), M(E)
        a = cx.realarr("a", m)
        x = cx.vec("x", n)
        Y = cx.fam("Y", [m], n)
        Z = Y if alias else cx.fam("Z", [m], n)
        cx.start()
        ok(cx, cx.fn("N_VScaleAddMulti", [m, a, x, Y, Z]))
        cx.frame({fdat(cx, Z): lambda q: zr(cx.cell(a.rid, (q[0],))) * zr(cx.el(x, q[1])) + zr(cx.fel(Y, q))})
    return body
mk("N_VScaleAddMulti(Z distinct)", scaleaddmulti(False))
mk("N_VScaleAddMulti(Z=Y)", scaleaddmulti(True))

def dotmulti(cx):
    E = cx.E
    n, m = cx.N(), M(E)
    x = cx.vec("x", n)
    Y = cx.fam("Y", [m], n)
    d = cx.realarr("dotprods", m)
    cx.start()
    ok(cx, cx.fn("N_VDotProdMulti", [m, x, Y, d]))
    cx.frame({d.rid: lambda q: E.sumof(lambda j: zr(cx.el(x, j)) * zr(cx.fel(Y, (q[0], j))), 0, n)})
mk("N_VDotProdMulti", dotmulti)
def dotmultilocal(cx):
    E = cx.E
    n, m = cx.N(), M(E)
    x = cx.vec("x", n)
    Y = cx.fam("Y", [m], n)
    d = cx.realarr("dotprods", m)
    cx.start()
    ok(cx, cx.fn("N_VDotProdMultiLocal", [m, x, Y, d]))
    cx.frame({d.rid: lambda q: E.sumof(lambda j: zr(cx.el(x, j)) * zr(cx.fel(Y, (q[0], j))), 0, n)})
mk("N_VDotProdMultiLocal", dotmultilocal)

def linsumva(rep):
    def body(cx):
        E = cx.E
        n, m = cx.N(), M(E)
        a, b = cx.real("a"), cx.real("b")
        fs = []
        for i, nm in enumerate("XYZ"):
            fs.append(fs[rep[i]] if rep[i] != i else cx.fam(nm, [m], n))
        X, Y, Z = fs
        cx.start()
        ok(cx, cx.fn("N_VLinearSumVectorArray", [m, a, X, b, Y, Z]))
        cx.frame({fdat(cx, Z): lambda q: a * zr(cx.fel(X, q)) + b * zr(cx.fel(Y, q))})
    return body
from .harness import partitions
from .nvec import patname
for rep in partitions("XYZ"):
    mk("N_VLinearSumVectorArray(%s)" % patname("XYZ", rep), linsumva(rep))

def scaleva(alias):
    def body(cx):
        E = cx.E
        n, m = cx.N(), M(E)
        c = cx.realarr("c", m)
        X = cx.fam("X", [m], n)
        Z = X if alias else cx.fam("Z", [m], n)
        cx.start()
        ok(cx, cx.fn("N_VScaleVectorArray", [m, c, X, Z]))
        cx.frame({fdat(cx, Z): lambda q: zr(cx.cell(c.rid, (q[0],))) * zr(cx.fel(X, q))})
    return body
mk("N_VScaleVectorArray(Z distinct)", scaleva(False))
mk("N_VScaleVectorArray(Z=X)", scaleva(True))

def constva(cx):
    E = cx.E
    n, m = cx.N(), M(E)
    c = cx.real("c")
    Z = cx.fam("Z", [m], n)
    cx.start()
    ok(cx, cx.fn("N_VConstVectorArray", [m, c, Z]))
    cx.frame({fdat(cx, Z): lambda q: c})
mk("N_VConstVectorArray", constva)

def wrmsva(mask, same):
    def body(cx):
        E = cx.E
        n, m = cx.N(lo=1), M(E)
        X = cx.fam("X", [m], n)
        W = X if same else cx.fam("W", [m], n)
        d = cx.realarr("nrm", m)
        i_ = cx.vec("id", n) if mask else None
        cx.start()
        if mask:
            r = cx.fn("N_VWrmsNormMaskVectorArray", [m, X, W, i_, d])
        else:
            r = cx.fn("N_VWrmsNormVectorArray", [m, X, W, d])
        ok(cx, r)
        def term(q, j):
            e = sq(zr(cx.fel(X, (q, j))) * zr(cx.fel(W, (q, j))))
            return z3.If(zr(cx.el(i_, j)) > 0, e, zr(0)) if mask else e
        cx.frame({d.rid: lambda q: SQ(E.sumof(lambda j: term(q[0], j), 0, n) / zr(n))})
    return body
mk("N_VWrmsNormVectorArray(distinct)", wrmsva(False, False))
mk("N_VWrmsNormVectorArray(W=X)", wrmsva(False, True))
mk("N_VWrmsNormMaskVectorArray(distinct)", wrmsva(True, False))

TIERS3 = [("fallback", ()), ("single fused", ("nvscaleaddmulti", "nvlinearcombination")), ("fused", "all")]
def samva(alias):
    def body(cx):
        E = cx.E
        n, m, k = cx.N(), M(E), M(E, "nsum")
        a = cx.realarr("a", k)
        X = cx.fam("X", [m], n)
        Y = cx.fam("Y", [k, m], n)
        Z = Y if alias else cx.fam("Z", [k, m], n)
        cx.start()
        ok(cx, cx.fn("N_VScaleAddMultiVectorArray", [m, k, a, X, Y, Z]))
        cx.frame({fdat(cx, Z): lambda q: zr(cx.cell(a.rid, (q[0],))) * zr(cx.fel(X, (q[1], q[2]))) + zr(cx.fel(Y, q))})
    return body
mk("N_VScaleAddMultiVectorArray(Z distinct)", samva(False), TIERS3)
mk("N_VScaleAddMultiVectorArray(Z=Y)", samva(True), TIERS3)

def lcva(alias):
    def body(cx):
        E = cx.E
        n, m, k = cx.N(), M(E), M(E, "nsum")
        c = cx.realarr("c", k)
        X = cx.fam("X", [k, m], n)
        Z = cx.read(X, 0) if alias else cx.fam("Z", [m], n)
        cx.start()
        ok(cx, cx.fn("N_VLinearCombinationVectorArray", [m, k, c, X, Z]))
        want = lambda i, j: E.sumof(lambda l: zr(cx.cell(c.rid, (l,))) * zr(cx.fel(X, (l, i, j))), 0, k)
        if alias:
            cx.frame({fdat(cx, X): lambda q: z3.If(zi(q[0]) == 0, want(q[1], q[2]), zr(cx.fel(X, q)))})
        else:
            cx.frame({fdat(cx, Z): lambda q: want(q[0], q[1])})
    return body
mk("N_VLinearCombinationVectorArray(Z distinct)", lcva(False), TIERS3)
mk("N_VLinearCombinationVectorArray(Z=X[0])", lcva(True), TIERS3)
