"""Symbolic CVODES memory blocks, shared by the integrator specifications.

The Nordsieck array is a family of serial vectors: zn[j][i] is one region with two coordinates, the
sensitivity arrays one region with three.  Every other field of the block is an unconstrained input."""
import z3
from . import eng, harness
from .eng import *
from .contracts import CONTRACTS

FILES = ("src/cvodes/cvodes.c", "src/nvector/serial/nvector_serial.c", "src/sundials/sundials_nvector.c", "src/sundials/sundials_math.c")
CT = tuple(CONTRACTS)
LMAX = 13
MEM = "struct CVodeMemRec"

class Mem:
    pass

def stub(cx, name, fn, note):
    """assumed behaviour of a function outside the property"""
    cx.E.contracts[name] = fn
    cx.E.notes.add("assumed: " + note)

def quiet(cx):
    stub(cx, "cvProcessError", lambda E, a: None, "cvProcessError reports and changes nothing of the integrator state")

def cvmem(cx, q=None, n=None, quadr=0, sensi=0, quadr_sensi=0, Ns=None, fixed=None):
    E = cx.E
    eng.MALLOC_MAY_FAIL[0] = False
    quiet(cx)
    cx.template()
    m = Mem()
    m.N = n if n is not None else cx.N()
    m.q = q
    m.p = cx.struct("cv", MEM)
    m.rid = m.p.rid
    m.zn = cx.fam("zn", [LMAX], m.N)
    m.znd = cx.fdata(m.zn)
    vec1(cx, m, "cv_zn", m.zn)
    f = dict(cv_quadr=quadr, cv_sensi=sensi, cv_quadr_sensi=quadr_sensi)
    if q is not None:
        f.update(cv_q=q, cv_L=q + 1)
    m.Ns = None
    if sensi or quadr_sensi:
        m.Ns = Ns if Ns is not None else z3.Int("Ns")
        if isz(m.Ns):
            E.assume(m.Ns >= 1)
        f["cv_Ns"] = m.Ns
    m.len_ = simp(zi(m.Ns) * LMAX) if m.Ns is not None else LMAX
    m.cvals = cx.realarr("cvals", m.len_)
    x = cx.ext("Xvecs", m.len_, "struct _generic_N_Vector *")
    m.X = Ptr(x, (), (0,), "R", "struct _generic_N_Vector *")
    f.update(cv_cvals=m.cvals, cv_Xvecs=m.X)
    if quadr:
        m.NQ = cx.N("NQ")
        m.znQ = cx.fam("znQ", [LMAX], m.NQ)
        vec1(cx, m, "cv_znQ", m.znQ)
    if sensi:
        m.znS = cx.fam("znS", [LMAX, m.Ns], m.N)
        vec2(cx, m, "cv_znS", m.znS)
    if quadr_sensi:
        m.NQ = m.NQ if hasattr(m, "NQ") else cx.N("NQ")
        m.znQS = cx.fam("znQS", [LMAX, m.Ns], m.NQ)
        vec2(cx, m, "cv_znQS", m.znQS)
    f.update(fixed or {})
    for k, v in f.items():
        cx.set(m.p, k, v)
    return m

def vec1(cx, m, field, fam):
    """field[j] is vector j of the family"""
    vecs = cx.read(fam, 0).rid
    cx.E.setbase(m.rid, (field,), lambda c: Ptr(vecs, (), (c[1],), "R", "struct _generic_N_Vector"))
def vec2(cx, m, field, fam):
    last = cx.read(fam, 0).rid
    cx.E.setbase(m.rid, (field,), lambda c: Ptr(last, (), (c[1], 0), "R", "struct _generic_N_Vector *"))

def vecf(cx, m, name, n=None):
    """a vector field of the block"""
    v = cx.vec(name, m.N if n is None else n)
    cx.set(m.p, name, v)
    return v
def famf(cx, m, name, n=None):
    """a sensitivity vector array field of the block"""
    v = cx.fam(name, [m.Ns], m.N if n is None else n)
    cx.set(m.p, name, v)
    return v

def fa(cx, m, field, i, snap=True):
    """element i of a real array field of the block, initially or now"""
    p = cx.fieldarr(m.p, field)
    p = Ptr(p.rid, p.field, p.coords[:-1] + (i,), p.dim, p.ety)
    a = cx.E.arr(p)
    if snap and cx.snap is not None:
        a = cx.snap.get((p.rid, p.field)) or Arr(a.base)
    return zr(cx.E.read_arr(a, p.coords, False))
def seta(cx, m, field, i, v):
    p = cx.fieldarr(m.p, field)
    p = Ptr(p.rid, p.field, p.coords[:-1] + (i,), p.dim, p.ety)
    cx.E.st.mem[(p.rid, p.field)] = cx.E.arr(p).write(Layer((), True, p.coords, v))
def now(cx, m, field):
    return cx.get(m.p, field)

def scalars(cx, m, want):
    """final values of scalar fields"""
    for f, v in want.items():
        cx.same("%s has its specified value" % f, cx.get(m.p, f), v)
def arrays(cx, m, want):
    for f, l in want.items():
        for i, v in (l.items() if isinstance(l, dict) else enumerate(l)):
            cx.same("%s[%d] has its specified value" % (f, i), fa(cx, m, f, i, False), v)
def frame(cx, m, data=None, fields=(), scratch=()):
    """nothing else changed: data {region: expected cell values or None}, fields of the block checked separately"""
    e = dict(data or {})
    for s in scratch:
        e[s] = None
    for f in fields:
        e[(m.rid, (f,))] = None
    cx.frame(e)

def znel(cx, fam, c):
    return zr(cx.fel(fam, tuple(c)))

def user(cx, name, fn):
    """a user-supplied function: an arbitrary result, an arbitrary effect on its output"""
    cx.E.contracts[name] = fn
    return FnVal(name)
