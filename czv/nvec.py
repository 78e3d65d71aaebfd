"""N_Vector operations on serial vectors: specifications."""
import z3
from . import eng
from .eng import *
from .harness import partitions
from .run import Unit

FILES = ("src/nvector/serial/nvector_serial.c", "src/sundials/sundials_nvector.c", "src/sundials/sundials_math.c")

def pats(names):
    return partitions(names)
def patname(names, rep):
    g = {}
    for n, r in zip(names, rep):
        g.setdefault(r, []).append(n)
    return "; ".join("=".join(x) for x in g.values() if len(x) > 1) or "distinct"

def elementwise(cname, sig, f, out="z", pre=None):
    """sig: parameter names in order: v:<name> vector, r:<name> real"""
    vnames = [x[2:] for x in sig if x[0] == "v"]
    us = []
    for rep in pats(vnames):
        def body(cx, rep=rep):
            E = cx.E
            n = cx.N()
            objs = {}
            for i, v in enumerate(vnames):
                objs[v] = objs[vnames[rep[i]]] if rep[i] != i else cx.vec(v, n)
            rs = {x[2:]: cx.real(x[2:]) for x in sig if x[0] == "r"}
            i = E.fint("i")
            if pre is not None:
                q = z3.Int("q")
                E.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), zb(pre(rs, {v: zr(cx.el(o, q, False)) for v, o in objs.items()})))))
            cx.start()
            cx.fn(cname, [objs[x[2:]] if x[0] == "v" else rs[x[2:]] for x in sig])
            want = lambda c: f(rs, {v: zr(cx.el(o, c[0])) for v, o in objs.items()})
            cx.frame({eng_vd(objs[out]): want})
        us.append(Unit("%s(%s)" % (cname, patname(vnames, rep)), FILES, body))
    return us

def eng_vd(v):
    from .harness import v_data
    return v_data[v.rid]

def ab(x):
    return z3.If(x >= 0, x, -x)

UNITS = []
UNITS += elementwise("N_VLinearSum", ["r:a", "v:x", "r:b", "v:y", "v:z"], lambda r, v: r["a"] * v["x"] + r["b"] * v["y"])
UNITS += elementwise("N_VConst", ["r:c", "v:z"], lambda r, v: r["c"])
UNITS += elementwise("N_VProd", ["v:x", "v:y", "v:z"], lambda r, v: v["x"] * v["y"])
UNITS += elementwise("N_VDiv", ["v:x", "v:y", "v:z"], lambda r, v: v["x"] / v["y"])
UNITS += elementwise("N_VScale", ["r:c", "v:x", "v:z"], lambda r, v: r["c"] * v["x"])
UNITS += elementwise("N_VAbs", ["v:x", "v:z"], lambda r, v: ab(v["x"]))
UNITS += elementwise("N_VInv", ["v:x", "v:z"], lambda r, v: 1 / v["x"])
UNITS += elementwise("N_VAddConst", ["v:x", "r:b", "v:z"], lambda r, v: v["x"] + r["b"])
UNITS += elementwise("N_VCompare", ["r:c", "v:x", "v:z"], lambda r, v: z3.If(ab(v["x"]) >= r["c"], zr(1), zr(0)))

def SQ(x):
    return z3.If(x <= 0, zr(0), eng.SQRT(x))
def BIG():
    from fractions import Fraction
    import sys
    return Fraction(sys.float_info.max)

def reduction(cname, sig, result, lo=0, ghosts=None, pre=None, writes=None, alias=True):
    """result(cx, n, reals, el) -> expected value; el(name)(i) is the initial content"""
    vnames = [x[2:] for x in sig if x[0] == "v"]
    us = []
    for rep in (pats(vnames) if alias else [tuple(range(len(vnames)))]):
        def body(cx, rep=rep):
            E = cx.E
            n = cx.N(lo=lo)
            objs = {}
            for i, v in enumerate(vnames):
                objs[v] = objs[vnames[rep[i]]] if rep[i] != i else cx.vec(v, n)
            rs = {x[2:]: cx.real(x[2:]) for x in sig if x[0] == "r"}
            el = {v: (lambda i, o=o: zr(cx.el(o, i))) for v, o in objs.items()}
            for o in objs.values():
                cx.el(o, 0)
            if pre is not None:
                q = z3.Int("q")
                E.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), zb(pre(rs, el, q)))))
            cx.start()
            g = ghosts(el) if ghosts else None
            E.ghosts = [g] if g else []
            if g:
                E.assume(g.initfact())
            r = cx.fn(cname, [objs[x[2:]] if x[0] == "v" else rs[x[2:]] for x in sig])
            if g:
                # the ghost is defined by its recurrence
                want = result(cx, n, rs, el, g)
            else:
                want = result(cx, n, rs, el)
            if isinstance(want, z3.BoolRef) or isinstance(want, bool):
                cx.ob("result", bsimp(zb(E.truth(r)) == zb(want)))
            else:
                cx.same("result", r, want)
            if writes:
                w, f = writes
                cx.frame({eng_vd(objs[w]): lambda c: f(rs, {v: el[v](c[0]) for v in el})})
            else:
                cx.frame()
        us.append(Unit("%s(%s)" % (cname, patname(vnames, rep)), FILES, body))
    return us

from .loops import Ghost
def mx(a, b):
    return z3.If(a >= b, a, b)
def g_maxnorm(el):
    return Ghost([("m", "real")], 0, (zr(0),), lambda t, g: (mx(g[0], ab(el["x"](t))),))
def g_min(el):
    return Ghost([("m", "real")], 1, (el["x"](0),), lambda t, g: (z3.If(el["x"](t) < g[0], el["x"](t), g[0]),))
def g_minq(el):
    return Ghost([("m", "real"), ("none", "bool")], 0, (zr(BIG()), True),
        lambda t, g: (z3.If(el["d"](t) == 0, g[0], z3.If(g[1], el["n"](t) / el["d"](t), z3.If(el["n"](t) / el["d"](t) < g[0], el["n"](t) / el["d"](t), g[0]))), z3.And(g[1], el["d"](t) == 0)),
        rels=[lambda g: z3.Implies(g[1], g[0] == zr(BIG()))])
def g_nonzero(el):
    return Ghost([("all", "bool")], 0, (True,), lambda t, g: (z3.And(g[0], el["x"](t) != 0),))
def viol(c, x):
    return z3.Or(z3.And(c == 2, x <= 0), z3.And(c == 1, x < 0), z3.And(c == -1, x > 0), z3.And(c == -2, x >= 0))
def g_constr(el):
    return Ghost([("ok", "bool")], 0, (True,), lambda t, g: (z3.And(g[0], z3.Not(viol(el["c"](t), el["x"](t)))),))
def ssum(cx, n, f):
    return cx.E.sumof(f, 0, n)
def sq(x):
    return x * x

for sfx in ("", "Local"):
    UNITS += reduction("N_VDotProd" + sfx, ["v:x", "v:y"], lambda cx, n, r, e: ssum(cx, n, lambda i: e["x"](i) * e["y"](i)))
    UNITS += reduction("N_VMaxNorm" + sfx, ["v:x"], lambda cx, n, r, e, g: g.at(n)[0], ghosts=g_maxnorm)
    UNITS += reduction("N_VMin" + sfx, ["v:x"], lambda cx, n, r, e, g: g.at(n)[0], lo=1, ghosts=g_min)
    UNITS += reduction("N_VL1Norm" + sfx, ["v:x"], lambda cx, n, r, e: ssum(cx, n, lambda i: ab(e["x"](i))))
    UNITS += reduction("N_VInvTest" + sfx, ["v:x", "v:z"], lambda cx, n, r, e, g: g.at(n)[0], ghosts=g_nonzero, writes=("z", lambda r, v: z3.If(v["x"] == 0, v["z"], 1 / v["x"])))
    UNITS += reduction("N_VConstrMask" + sfx, ["v:c", "v:x", "v:m"], lambda cx, n, r, e, g: g.at(n)[0], ghosts=g_constr, alias=False,
        pre=lambda r, e, q: z3.Or(*[e["c"](q) == k for k in (-2, -1, 0, 1, 2)]),
        writes=("m", lambda r, v: z3.If(viol(v["c"], v["x"]), zr(1), zr(0))))
    UNITS += reduction("N_VMinQuotient" + sfx, ["v:n", "v:d"], lambda cx, n, r, e, g: g.at(n)[0], ghosts=g_minq, alias=False)
UNITS += reduction("N_VWSqrSumLocal", ["v:x", "v:w"], lambda cx, n, r, e: ssum(cx, n, lambda i: sq(e["x"](i) * e["w"](i))))
UNITS += reduction("N_VWSqrSumMaskLocal", ["v:x", "v:w", "v:id"], lambda cx, n, r, e: ssum(cx, n, lambda i: z3.If(e["id"](i) > 0, sq(e["x"](i) * e["w"](i)), zr(0))))
UNITS += reduction("N_VWrmsNorm", ["v:x", "v:w"], lambda cx, n, r, e: SQ(ssum(cx, n, lambda i: sq(e["x"](i) * e["w"](i))) / zr(n)), lo=1)
UNITS += reduction("N_VWrmsNormMask", ["v:x", "v:w", "v:id"], lambda cx, n, r, e: SQ(ssum(cx, n, lambda i: z3.If(e["id"](i) > 0, sq(e["x"](i) * e["w"](i)), zr(0))) / zr(n)), lo=1)
UNITS += reduction("N_VWL2Norm", ["v:x", "v:w"], lambda cx, n, r, e: SQ(ssum(cx, n, lambda i: sq(e["x"](i) * e["w"](i)))))
