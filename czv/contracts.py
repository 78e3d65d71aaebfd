"""Callee contracts used at call sites; each is verified against its body by the units named here."""
import z3
from . import eng
from .eng import *

def vparts(E, v, what):
    """(data pointer, length) of a serial vector argument"""
    E.check_access(v, what)
    if not isinstance(v, Ptr):
        raise Unsupported("vector argument")
    c = E.load(E.member(v, "content", "struct _N_VectorContent_Serial *"))
    if not isinstance(c, Ptr):
        E.check_access(c, what)
    c = Ptr(c.rid, c.field, c.coords, c.dim, "struct _N_VectorContent_Serial")
    return E.load(E.member(c, "data", "double *")), E.load(E.member(c, "length", "long"))

def put(E, d, n, f):
    """d[t] = f(t) for 0 <= t < n"""
    t = E.fint("t")
    k = E.st.pc
    val = f(t)
    c = d.coords[:-1] + (add(d.coords[-1], t),)
    E.st.mem[(d.rid, d.field)] = E.arr(d).write(Layer((t,), z3.And(t >= 0, t < zi(n)), c, val))
    if E.st.wlog is not None:
        E.st.wlog.append((Ptr(d.rid, d.field, c, d.dim, d.ety),))
def get(E, d, t):
    q = E.padd(d, t)
    return zr(E.read_arr(E.arr(q), q.coords, False))
def need(E, name, c):
    E.ob("contract of %s: arguments have the same length" % name, "pre", c)

def linearsum(E, a):
    al, x, be, y, z = a
    (xd, n), (yd, m), (zd, l) = vparts(E, x, "x"), vparts(E, y, "y"), vparts(E, z, "z")
    need(E, "N_VLinearSum_Serial", band(eqv(n, m), eqv(n, l)))
    put(E, zd, n, lambda t: zr(al) * get(E, xd, t) + zr(be) * get(E, yd, t))
def scale(E, a):
    c, x, z = a
    (xd, n), (zd, l) = vparts(E, x, "x"), vparts(E, z, "z")
    need(E, "N_VScale_Serial", eqv(n, l))
    put(E, zd, n, lambda t: zr(c) * get(E, xd, t))
def const(E, a):
    c, z = a
    zd, n = vparts(E, z, "z")
    put(E, zd, n, lambda t: zr(c))

def dsum(E, lo, hi, f):
    t = E.fint("t")
    return E.newsum(t, [], zr(f(t)), lo, "sum"), t
def sq_root(x):
    return z3.If(x <= 0, zr(0), eng.SQRT(x))
def dot(E, a):
    x, y = a
    (xd, n), (yd, m) = vparts(E, x, "x"), vparts(E, y, "y")
    need(E, "N_VDotProd_Serial", eqv(n, m))
    fn, t = dsum(E, 0, n, lambda t: get(E, xd, t) * get(E, yd, t))
    return fn(zi(n))
def wrms(E, a):
    x, w = a
    (xd, n), (wd, m) = vparts(E, x, "x"), vparts(E, w, "w")
    need(E, "N_VWrmsNorm_Serial", band(eqv(n, m), bsimp(zi(n) >= 1)))
    def f(t):
        q = get(E, xd, t) * get(E, wd, t)
        return q * q
    fn, t = dsum(E, 0, n, f)
    return sq_root(fn(zi(n)) / zr(n))
def wrmsmask(E, a):
    x, w, i = a
    (xd, n), (wd, m), (idd, l) = vparts(E, x, "x"), vparts(E, w, "w"), vparts(E, i, "id")
    need(E, "N_VWrmsNormMask_Serial", band(eqv(n, m), eqv(n, l), bsimp(zi(n) >= 1)))
    def f(t):
        q = get(E, xd, t) * get(E, wd, t)
        return z3.If(get(E, idd, t) > 0, q * q, zr(0))
    fn, t = dsum(E, 0, n, f)
    return sq_root(fn(zi(n)) / zr(n))

CONTRACTS = dict(N_VLinearSum_Serial=linearsum, N_VScale_Serial=scale, N_VConst_Serial=const, N_VDotProd_Serial=dot, N_VWrmsNorm_Serial=wrms, N_VWrmsNormMask_Serial=wrmsmask)
TEXT = dict(N_VLinearSum_Serial="z[t] = a x[t] + b y[t] for 0 <= t < length, nothing else changes", N_VScale_Serial="z[t] = c x[t]", N_VConst_Serial="z[t] = c",
    N_VDotProd_Serial="returns sum x[t] y[t]", N_VWrmsNorm_Serial="returns sqrt(sum (x[t] w[t])^2 / length)", N_VWrmsNormMask_Serial="as N_VWrmsNorm over id[t] > 0")
# prefix of the units that prove a contract
PROOF = dict(N_VLinearSum_Serial="N_VLinearSum(", N_VScale_Serial="N_VScale(", N_VConst_Serial="N_VConst(", N_VDotProd_Serial="N_VDotProd(", N_VWrmsNorm_Serial="N_VWrmsNorm(", N_VWrmsNormMask_Serial="N_VWrmsNormMask(")
