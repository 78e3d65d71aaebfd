"""CVODES method coefficients (cvSet) and step/order control."""
import z3
from fractions import Fraction as Fr
from . import eng, harness
from .eng import *
from .run import Unit
from .cv import *
from .cv import frame as cvframe
from .nord import polymul, pw

SETS, CTRL = [], []
def unit(id, body, to=SETS, **k):
    to.append(Unit(id, FILES, body, contracts=CT, **k))
F = "src/cvodes/cvodes.c"

def elapsed(cx, m, q):
    """h and tau as differences of the elapsed times T_j = h / x_j, x_1 = 1, 1/x_j the scaled elapsed time"""
    E = cx.E
    h = z3.Real("h")
    E.assume(h != 0)
    cx.set(m.p, "cv_h", h)
    x = [None, zr(1)] + [z3.Real("x%d" % j) for j in range(2, q + 2)]
    T = [None, h] + [h / x[j] for j in range(2, q + 2)]
    for j in range(2, q + 2):
        E.assume(x[j] > 0)
        seta(cx, m, "cv_tau", j - 1, T[j] - T[j - 1])
    return h, x
def mulp(p, x):
    """p(u) (1 + x u)"""
    out = list(p) + [zr(0)]
    for i, c in enumerate(p):
        out[i + 1] = out[i + 1] + c * x
    return out
def alt(p, k, n=None):
    v = zr(0)
    for i, c in enumerate(p if n is None else p[:n]):
        v = v + zr(Fr((-1) ** i, i + k)) * c
    return v
def sameabs(cx, name, got, w):
    """got = |w|"""
    facts = []
    if z3.is_app_of(got, z3.Z3_OP_ITE):
        v = got.arg(1)
        if cx.E.prove(v == w, (), 6000)[0] is True:
            facts = [v == w]
        elif cx.E.prove(v == -w, (), 6000)[0] is True:
            facts = [v == -w]
    cx.ob(name, got == z3.If(w >= 0, w, -w), facts=facts)

def common(cx, m, l, gp, nst, h):
    rl1 = 1 / l
    g = h * rl1
    scalars(cx, m, dict(cv_rl1=rl1, cv_gamma=g, cv_gammap=z3.If(nst == 0, g, gp), cv_gamrat=z3.If(nst > 0, g / gp, zr(1)), cv_h=h))
SETF = ["cv_l", "cv_tq", "cv_rl1", "cv_gamma", "cv_gammap", "cv_gamrat"]

def setbdf(cx, q, qw1):
    E = cx.E
    m = cvmem(cx, q)
    h, x = elapsed(cx, m, q)
    cx.set(m.p, "cv_lmm", 2)
    nst, gp, nls = now(cx, m, "cv_nst"), now(cx, m, "cv_gammap"), now(cx, m, "cv_nlscoef")
    E.assume(nst >= 0)
    E.assume(gp != 0)
    qw = now(cx, m, "cv_qwait")
    E.assume(qw == 1 if qw1 else qw != 1)
    a0 = -zr(sum(Fr(1, j) for j in range(1, q + 1)))
    s = zr(0)
    for j in range(1, q):
        s = s + x[j]
    p = [zr(1)]
    for j in range(1, q):
        p = mulp(p, x[j])
    xs = zr(1) if q == 1 else -s - a0
    xq = zr(1) if q == 1 else x[q]
    a0h = zr(-1) if q == 1 else -s - xq
    l = mulp(p, xs)
    A1 = 1 - a0h + a0
    A2 = 1 + q * A1
    if q > 1:
        E.assume(xs != 0)
    for z in (l[1], l[q], A1, A2):
        E.assume(z != 0)
    cx.start()
    old = [fa(cx, m, "cv_tq", i) for i in range(6)]
    oldl = [fa(cx, m, "cv_l", i) for i in range(LMAX)]
    cx.fn("cvSet", [m.p], F)
    arrays(cx, m, dict(cv_l=l + oldl[q + 1:]))
    common(cx, m, l[1], gp, nst, h)
    tq = [fa(cx, m, "cv_tq", i, False) for i in range(6)]
    sameabs(cx, "tq[2]: error constant of the current order", tq[2], A1 / (a0 * A2))
    sameabs(cx, "tq[5]", tq[5], A2 * xs / (l[q] * xq))
    cx.same("tq[4] = nlscoef / tq[2]", tq[4], nls / tq[2])
    if qw1:
        if q > 1:
            A3, A4 = a0 + zr(Fr(1, q)), a0h + xq
            sameabs(cx, "tq[1]: error constant of the order below", tq[1], (xs / l[q]) * ((1 - A4 + A3) / A3))
        else:
            cx.same("tq[1]", tq[1], 1)
        A5, A6 = a0 - zr(Fr(1, q + 1)), a0h - x[q + 1]
        sameabs(cx, "tq[3]: error constant of the order above", tq[3], ((1 - A6 + A5) / A2) / (x[q + 1] * (q + 2) * A5))
    else:
        cx.same("tq[1] unchanged", tq[1], old[1])
        cx.same("tq[3] unchanged", tq[3], old[3])
    cvframe(cx, m, {}, SETF)
for q in range(1, 6):
    for w in (False, True):
        unit("cvSet BDF order %d%s" % (q, ", order change considered" if w else ""), lambda cx, q=q, w=w: setbdf(cx, q, w))

def setadams(cx, q, qw1):
    E = cx.E
    m = cvmem(cx, q)
    h, x = elapsed(cx, m, q)
    cx.set(m.p, "cv_lmm", 1)
    nst, gp, nls = now(cx, m, "cv_nst"), now(cx, m, "cv_gammap"), now(cx, m, "cv_nlscoef")
    E.assume(nst >= 0)
    E.assume(gp != 0)
    qw = now(cx, m, "cv_qwait")
    E.assume(qw == 1 if qw1 else qw != 1)
    p = [zr(1)]
    below = None
    for j in range(1, q):
        if j == q - 1:
            below = p
        p = mulp(p, x[j])
    if q > 1:
        M0, M1 = alt(p, 1), alt(p, 2)
        E.assume(M0 != 0); E.assume(M1 != 0)
        l = [zr(1)] + [p[i - 1] / (i * M0) for i in range(1, q + 1)]
        for c in (p[q - 1], below[q - 2]):
            E.assume(c != 0)
    else:
        l = [zr(1), zr(1)]
    cx.start()
    old = [fa(cx, m, "cv_tq", i) for i in range(6)]
    oldl = [fa(cx, m, "cv_l", i) for i in range(LMAX)]
    cx.fn("cvSet", [m.p], F)
    arrays(cx, m, dict(cv_l=l + oldl[q + 1:]))
    common(cx, m, l[1], gp, nst, h)
    tq = [fa(cx, m, "cv_tq", i, False) for i in range(6)]
    cx.same("tq[4] = nlscoef / tq[2]", tq[4], nls / tq[2])
    if q == 1:
        for i, v in ((1, 1), (2, Fr(1, 2)), (3, Fr(1.0 / 12.0)), (5, 1)):
            if i == 3:
                cx.ob("tq[3] is 1/12", z3.And(12 * tq[3] - 1 < zr(Fr(1, 10**15)), 12 * tq[3] - 1 > -zr(Fr(1, 10**15))))
            else:
                cx.same("tq[%d]" % i, tq[i], v)
    else:
        cx.same("tq[2]: error constant of the current order", tq[2], M1 / M0 * x[q])
        cx.same("tq[5]", tq[5], (1 / x[q]) / l[q])
        if qw1:
            cx.same("tq[1]: error constant of the order below", tq[1], q * alt(below, 2) / below[q - 2])
            cx.same("tq[3]: error constant of the order above", tq[3], alt(mulp(p, x[q]), 2) / (M0 * (q + 1)))
        else:
            cx.same("tq[1] unchanged", tq[1], old[1])
            cx.same("tq[3] unchanged", tq[3], old[3])
    cvframe(cx, m, {}, SETF)
for q in range(1, 5):
    for w in (False, True):
        unit("cvSet Adams order %d%s" % (q, ", order change considered" if w else ""), lambda cx, q=q, w=w: setadams(cx, q, w))

# higher orders: function by function, the callers against the callees' contracts
def altsum(cx, n, k):
    E = cx.E
    m = cvmem(cx, None)
    a = cx.realarr("a", LMAX)
    cx.start()
    r = cx.fn("cvAltSum", [n, a, k], F)
    el = [zr(cx.cell(a.rid, (i,))) for i in range(n + 1)]
    cx.same("cvAltSum returns the alternating sum", r, alt(el, k))
    cx.frame()
for n in range(-1, 13):
    for k in (1, 2):
        unit("cvAltSum to %d, weight %d" % (n, k), lambda cx, n=n, k=k: altsum(cx, n, k))

def astart(cx, q, qw1):
    E = cx.E
    m = cvmem(cx, q)
    h, x = elapsed(cx, m, q)
    qw = now(cx, m, "cv_qwait")
    E.assume(qw == 1 if qw1 else qw != 1)
    a = cx.realarr("m", LMAX)
    ps = [[zr(1)]]
    for j in range(1, q):
        ps.append(mulp(ps[-1], x[j]))
    old = fa(cx, m, "cv_tq", 1)
    el = lambda i: zr(cx.cell(a.rid, (i,), False))
    t = zr(0)
    if qw1:
        b = ps[q - 2]
        bl = [z3.Real("below%d" % i) for i in range(q - 1)]
        stub(cx, "cvAltSum", lambda E, g: alts(cx, g), "cvAltSum by its contract (units cvAltSum to n)")
    cx.start()
    r = cx.fn("cvAdamsStart", [m.p, a], F)
    cx.same("cvAdamsStart returns the elapsed time over the last q steps", r, h / x[q])
    for i in range(LMAX):
        if i <= q:
            cx.same("m[%d] has its specified value" % i, el(i), ps[-1][i] if i < q else zr(0))
        else:
            cx.same("m[%d] unchanged" % i, el(i), zr(cx.cell(a.rid, (i,))))
    if qw1:
        n, got = [], fa(cx, m, "cv_tq", 1, False)
        d = ps[q - 2][q - 2]
        cx.same("tq[1]: error constant of the order below", got, q * alt(ps[q - 2], 2) / d)
    else:
        cx.same("tq[1] unchanged", fa(cx, m, "cv_tq", 1, False), old)
    for i in range(2, 6):
        cx.same("tq[%d] unchanged" % i, fa(cx, m, "cv_tq", i, False), fa(cx, m, "cv_tq", i))
    cx.same("tq[0] unchanged", fa(cx, m, "cv_tq", 0, False), fa(cx, m, "cv_tq", 0))
    cvframe(cx, m, {a.rid: None}, ["cv_tq"])
def alts(cx, g):
    n, a, k = g
    if isz(n):
        n = z3.simplify(n).as_long()
    if isz(k):
        k = z3.simplify(k).as_long()
    return alt([zr(cx.read(a, i)) for i in range(n + 1)], k) if n >= 0 else zr(0)
for q in range(2, 13):
    for w in (False, True):
        unit("cvAdamsStart order %d%s" % (q, ", order change considered" if w else ""), lambda cx, q=q, w=w: astart(cx, q, w))

def setadams2(cx, q, qw1):
    """the callees by their contracts: m is any array the first one can leave"""
    E = cx.E
    m = cvmem(cx, q)
    h = z3.Real("h")
    E.assume(h != 0)
    cx.set(m.p, "cv_h", h)
    cx.set(m.p, "cv_lmm", 1)
    nst, gp, nls = now(cx, m, "cv_nst"), now(cx, m, "cv_gammap"), now(cx, m, "cv_nlscoef")
    E.assume(nst >= 0)
    E.assume(gp != 0)
    qw = now(cx, m, "cv_qwait")
    E.assume(qw == 1 if qw1 else qw != 1)
    p = [zr(1)] + [z3.Real("e%d" % i) for i in range(1, q)]
    xq, t1 = z3.Real("xq"), z3.Real("t1")
    E.assume(xq > 0)
    M0, M1 = z3.Real("M0"), z3.Real("M1")
    E.assume(M0 == alt(p, 1)); E.assume(M1 == alt(p, 2))
    E.assume(M0 != 0); E.assume(M1 != 0)
    E.assume(p[q - 1] > 0)
    def start(E, a):
        for i in range(q + 1):
            d = E.padd(a[1], i)
            E.st.mem[(d.rid, d.field)] = E.arr(d).write(Layer((), True, d.coords, p[i] if i < q else zr(0)))
        if qw1:
            seta(cx, m, "cv_tq", 1, t1)
        return h / xq
    def asum(E, a):
        n, b, k = a
        n, k = [z3.simplify(v).as_long() if isz(v) else v for v in (n, k)]
        el = [zr(cx.read(b, i)) for i in range(n + 1)]
        if n == q - 1 and k in (1, 2) and all(z3.eq(z3.simplify(u), z3.simplify(v)) for u, v in zip(el, p)):
            return M0 if k == 1 else M1
        return alt(el, k)
    stub(cx, "cvAdamsStart", start, "cvAdamsStart by its contract (units cvAdamsStart order q)")
    stub(cx, "cvAltSum", asum, "cvAltSum by its contract (units cvAltSum to n)")
    l = [zr(1)] + [p[i - 1] / (i * M0) for i in range(1, q + 1)]
    cx.start()
    old = [fa(cx, m, "cv_tq", i) for i in range(6)]
    oldl = [fa(cx, m, "cv_l", i) for i in range(LMAX)]
    cx.fn("cvSet", [m.p], F)
    arrays(cx, m, dict(cv_l=l + oldl[q + 1:]))
    common(cx, m, l[1], gp, nst, h)
    tq = [fa(cx, m, "cv_tq", i, False) for i in range(6)]
    cx.same("tq[4] = nlscoef / tq[2]", tq[4], nls / tq[2])
    cx.same("tq[2]: error constant of the current order", tq[2], M1 / M0 * xq)
    cx.same("tq[5]", tq[5], (1 / xq) / l[q])
    cx.same("tq[0] unchanged", tq[0], old[0])
    if qw1:
        cx.same("tq[1]: error constant of the order below", tq[1], t1)
        cx.same("tq[3]: error constant of the order above", tq[3], alt(mulp(p, xq), 2) / (M0 * (q + 1)))
    else:
        cx.same("tq[1] unchanged", tq[1], old[1])
        cx.same("tq[3] unchanged", tq[3], old[3])
    cvframe(cx, m, {}, SETF)
for q in range(5, 13):
    for w in (False, True):
        unit("cvSet Adams order %d%s, callees by contract" % (q, ", order change considered" if w else ""), lambda cx, q=q, w=w: setadams2(cx, q, w))
UNITS = SETS
