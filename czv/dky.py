"""CVODES dense output: CVodeGetDky, CVodeGetSens*, and the quadrature variants."""
import z3
from math import factorial
from . import eng, harness
from .eng import *
from .run import Unit
from .cv import *
from .cv import frame as cvframe

UNITS = []
def unit(id, body, **k):
    UNITS.append(Unit(id, FILES, body, contracts=CT, **k))

def times(cx, m):
    """t within the last step, with the slack the interface states"""
    E = cx.E
    t, tn, hu, h, ur = cx.real("t"), cx.real("tn"), cx.real("hu"), cx.real("h"), cx.real("uround")
    for f, v in (("cv_tn", tn), ("cv_hu", hu), ("cv_h", h), ("cv_uround", ur)):
        cx.set(m.p, f, v)
    E.assume(h != 0); E.assume(ur > 0)
    ab = lambda x: z3.If(x >= 0, x, -x)
    fz = 100 * ur * (ab(tn) + ab(hu))
    lo, hi = z3.If(hu < 0, tn - fz, tn - hu - fz), z3.If(hu < 0, tn - hu + fz, tn + fz)
    # hu < 0: the interval runs backwards
    return t, tn, h, z3.And(t >= lo, t <= hi)

def powr(x, k):
    r = zr(1)
    for _ in range(k):
        r = r * x
    return r

VAR = {
    "CVodeGetDky": ("zn", dict(), "cv_zn"),
    "CVodeGetQuadDky": ("znQ", dict(quadr=1), None),
    "CVodeGetSensDky1": ("znS", dict(sensi=1), None),
    "CVodeGetQuadSensDky1": ("znQS", dict(quadr_sensi=1), None),
}
def dky(cx, fn, q, k):
    E = cx.E
    fam, kw, _ = VAR[fn]
    m = cvmem(cx, q, **kw)
    t, tn, h, ok = times(cx, m)
    E.assume(ok)
    n = m.NQ if "Q" in fam else m.N
    d = cx.vec("dky", n)
    sens = fam.endswith("S")
    args = [m.p, t, k]
    if sens:
        i = z3.Int("is")
        E.assume(i >= 0); E.assume(i < m.Ns)
        args.append(i)
    cx.start()
    r = cx.fn(fn, args + [d])
    cx.same("returns CV_SUCCESS", r, 0)
    F = getattr(m, fam)
    s = (t - tn) / h
    def want(c):
        v = zr(0)
        for j in range(k, q + 1):
            e = znel(cx, F, (j, i, c[0]) if sens else (j, c[0]))
            v = v + zr(factorial(j) // factorial(j - k)) * powr(s, j - k) * e
        return v / powr(h, k)
    cvframe(cx, m, {harness.v_data[d.rid]: want}, scratch=[m.cvals.rid, m.X.rid])
BDF, ADAMS = 5, 12
for fn in VAR:
    for q in range(1, ADAMS + 1):
        ks = range(q + 1) if q <= 3 else (0, 1, q)
        if fn != "CVodeGetDky" and q > 5:
            ks = (0, q)
        for k in ks:
            unit("%s order %d derivative %d" % (fn, q, k), lambda cx, fn=fn, q=q, k=k: dky(cx, fn, q, k))

def refuse(cx, fn, what):
    """every illegal argument is refused and nothing changes"""
    E = cx.E
    fam, kw, _ = VAR[fn]
    kw = dict(kw)
    sens = fam.endswith("S")
    off = what == "not enabled"
    m = cvmem(cx, None, **kw)
    q = z3.Int("q")
    cx.set(m.p, "cv_q", q)
    E.assume(q >= 1); E.assume(q <= ADAMS)
    t, tn, h, ok = times(cx, m)
    k = z3.Int("k")
    i = z3.Int("is")
    n = m.NQ if "Q" in fam else m.N
    d = cx.vec("dky", n)
    err = {"null block": -21, "null vector": -26, "k": -24, "t": -25, "index": -45, "not enabled": {"CVodeGetQuadDky": -30, "CVodeGetSensDky1": -40, "CVodeGetQuadSensDky1": -50}.get(fn)}[what]
    if sens and what != "index":
        E.assume(i >= 0); E.assume(i < m.Ns)
    if what not in ("k",):
        E.assume(k >= 0); E.assume(k <= q)
    if what == "t":
        E.assume(z3.Not(ok))
    elif what == "k":
        E.assume(z3.Or(k < 0, k > q))
    elif what == "index":
        E.assume(z3.Or(i < 0, i >= m.Ns))
    elif what == "not enabled":
        cx.set(m.p, {"znQ": "cv_quadr", "znS": "cv_sensi", "znQS": "cv_quadr_sensi"}[fam], 0)
    p = NULL if what == "null block" else m.p
    cx.start()
    r = cx.fn(fn, [p, t, k] + ([i] if sens else []) + [NULL if what == "null vector" else d])
    cx.same("returns its error code", r, err)
    cx.frame()
for fn in VAR:
    for w in ("null block", "null vector", "k", "t", "index", "not enabled"):
        if w == "index" and not fn.endswith("Dky1") or w == "not enabled" and fn == "CVodeGetDky":
            continue
        unit("%s refuses: %s" % (fn, w), lambda cx, fn=fn, w=w: refuse(cx, fn, w))

def getsens(cx, fn, q):
    E = cx.E
    m = cvmem(cx, q, sensi=1) if fn == "CVodeGetSens1" else cvmem(cx, q, quadr=1)
    t, tn, h, ok = times(cx, m)
    E.assume(ok)
    cx.set(m.p, "cv_tretlast", t)
    tr = cx.out("double", "tret")
    sens = fn == "CVodeGetSens1"
    d = cx.vec("y", m.N if sens else m.NQ)
    i = z3.Int("is")
    if sens:
        E.assume(i >= 0); E.assume(i < m.Ns)
    cx.start()
    r = cx.fn(fn, [m.p, tr] + ([i] if sens else []) + [d])
    cx.same("returns CV_SUCCESS", r, 0)
    s = (t - tn) / h
    F = m.znS if sens else m.znQ
    def want(c):
        v = zr(0)
        for j in range(q + 1):
            v = v + powr(s, j) * znel(cx, F, (j, i, c[0]) if sens else (j, c[0]))
        return v
    cvframe(cx, m, {harness.v_data[d.rid]: want, tr.rid: lambda c: t}, scratch=[m.cvals.rid, m.X.rid])
for q in (1, 2, 5):
    unit("CVodeGetSens1 order %d" % q, lambda cx, q=q: getsens(cx, "CVodeGetSens1", q))
    unit("CVodeGetQuad order %d" % q, lambda cx, q=q: getsens(cx, "CVodeGetQuad", q))

def getall(cx, q, ns):
    """every sensitivity at the time last returned"""
    E = cx.E
    m = cvmem(cx, q, sensi=1, Ns=ns)
    t, tn, h, ok = times(cx, m)
    E.assume(ok)
    cx.set(m.p, "cv_tretlast", t)
    tr = cx.out("double", "tret")
    Y = cx.fam("yS", [m.Ns], m.N)
    cx.start()
    r = cx.fn("CVodeGetSens", [m.p, tr, Y])
    cx.same("returns CV_SUCCESS", r, 0)
    s = (t - tn) / h
    want = lambda c: sum((powr(s, j) * znel(cx, m.znS, (j, c[0], c[1])) for j in range(q + 1)), zr(0))
    cvframe(cx, m, {cx.fdata(Y): want, tr.rid: lambda c: t}, scratch=[m.cvals.rid, m.X.rid])
for q in (1, 3):
    for ns in (1, 2, 3):
        unit("CVodeGetSens order %d, %d sensitivities" % (q, ns), lambda cx, q=q, ns=ns: getall(cx, q, ns), bounded="%d sensitivities, vectors of any length" % ns)

def compstate(cx, fn):
    E = cx.E
    m = cvmem(cx, None, sensi=1)
    if fn == "CVodeComputeState":
        a, y = cx.vec("ycor", m.N), cx.vec("y", m.N)
        cx.start()
        r = cx.fn(fn, [m.p, a, y])
        exp = {harness.v_data[y.rid]: lambda c: znel(cx, m.zn, (0, c[0])) + zr(cx.el(a, c[0]))}
    elif fn == "CVodeComputeStateSens1":
        i = z3.Int("is")
        E.assume(i >= 0); E.assume(i < m.Ns)
        a, y = cx.vec("ycor", m.N), cx.vec("y", m.N)
        cx.start()
        r = cx.fn(fn, [m.p, i, a, y])
        exp = {harness.v_data[y.rid]: lambda c: znel(cx, m.znS, (0, i, c[0])) + zr(cx.el(a, c[0]))}
    else:
        a, y = cx.fam("ycor", [m.Ns], m.N), cx.fam("y", [m.Ns], m.N)
        cx.start()
        r = cx.fn(fn, [m.p, a, y])
        exp = {cx.fdata(y): lambda c: znel(cx, m.znS, (0, c[0], c[1])) + zr(cx.fel(a, c))}
    cx.same("returns CV_SUCCESS", r, 0)
    cvframe(cx, m, exp)
for fn in ("CVodeComputeState", "CVodeComputeStateSens", "CVodeComputeStateSens1"):
    unit(fn, lambda cx, fn=fn: compstate(cx, fn))
