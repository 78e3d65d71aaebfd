"""CVODES history array: prediction, undoing it, rescaling, order changes, accepting a step; method coefficients."""
import z3
from math import comb
from . import eng, harness
from .eng import *
from .run import Unit
from .cv import *
from .cv import frame as cvframe

HIST, COEF = [], []
def unit(id, body, to=HIST, **k):
    to.append(Unit(id, FILES, body, contracts=CT, **k))

ALL = dict(quadr=1, sensi=1, quadr_sensi=1)
BDF, ADAMS = 5, 12
FAMS = ("zn", "znQ", "znS", "znQS")
def fams(m):
    return [f for f in FAMS if hasattr(m, f)]
def linmap(cx, m, coef, top):
    """every history column becomes the given combination of the old columns: coef(j) = [(i, factor)]"""
    out = {}
    for f in fams(m):
        F = getattr(m, f)
        def want(c, F=F):
            j = c[0]
            def row(jj):
                v = zr(0)
                for i, k in coef(jj):
                    v = v + zr(k) * znel(cx, F, (i,) + tuple(c[1:]))
                return v
            r = znel(cx, F, c)
            for jj in range(top + 1):
                r = z3.If(zi(j) == jj, row(jj), r)
            return r
        out[cx.fdata(F)] = want
    return out

def checkmap(cx, m, coef, top, fields=(), scratch=(), extra=None):
    """the same, column by column (small obligations), then the columns outside 0..top"""
    E = cx.E
    for f in fams(m):
        F = getattr(m, f)
        rid = cx.fdata(F)
        R = E.regions[rid]
        def go(F=F, rid=rid, R=R, f=f):
            cs = [E.fint("c") for _ in range(R.ncoord - 1)]
            L = R.length(())
            E.assume(cs[-1] >= 0); E.assume(cs[-1] < zi(L))
            if R.ncoord == 3:
                E.assume(cs[0] >= 0); E.assume(cs[0] < zi(m.Ns))
            for j in range(LMAX):
                got = zr(cx.fel(F, (j,) + tuple(cs), False))
                if j <= top:
                    want = zr(0)
                    for i, k in coef(j):
                        want = want + zr(k) * znel(cx, F, (i,) + tuple(cs))
                else:
                    want = znel(cx, F, (j,) + tuple(cs))
                cx.same("%s[%d] has its specified value" % (f, j), got, want)
            return True
        E.explore(go)
    d = {cx.fdata(getattr(m, f)): None for f in fams(m)}
    d.update(extra or {})
    cvframe(cx, m, d, fields, scratch)

# ---------------------------------------------------------------- prediction
def predict(cx, q, kw):
    E = cx.E
    m = cvmem(cx, q, **kw)
    ts = z3.Int("tstopset")
    E.assume(z3.Or(ts == 0, ts == 1))
    cx.set(m.p, "cv_tstopset", ts)
    tn, h, tst = now(cx, m, "cv_tn"), now(cx, m, "cv_h"), now(cx, m, "cv_tstop")
    cx.start()
    cx.fn("cvPredict", [m.p], "src/cvodes/cvodes.c")
    t1 = tn + h
    scalars(cx, m, dict(cv_tn=z3.If(z3.And(ts == 1, (t1 - tst) * h > 0), tst, t1), cv_h=h))
    checkmap(cx, m, lambda j: [(i, comb(i, j)) for i in range(j, q + 1)], q, ["cv_tn"])
def restore(cx, q, kw):
    E = cx.E
    m = cvmem(cx, q, **kw)
    t = cx.real("saved_t")
    cx.start()
    cx.fn("cvRestore", [m.p, t], "src/cvodes/cvodes.c")
    scalars(cx, m, dict(cv_tn=t))
    checkmap(cx, m, lambda j: [(i, (-1) ** (i - j) * comb(i, j)) for i in range(j, q + 1)], q, ["cv_tn"])
def roundtrip(cx, q, kw):
    E = cx.E
    m = cvmem(cx, q, **kw)
    cx.set(m.p, "cv_tstopset", 0)
    tn = now(cx, m, "cv_tn")
    cx.start()
    cx.fn("cvPredict", [m.p], "src/cvodes/cvodes.c")
    cx.fn("cvRestore", [m.p, tn], "src/cvodes/cvodes.c")
    scalars(cx, m, dict(cv_tn=tn))
    checkmap(cx, m, lambda j: [(j, 1)], q, ["cv_tn"])
for q in range(1, ADAMS + 1):
    unit("cvPredict order %d" % q, lambda cx, q=q: predict(cx, q, {}))
    unit("cvRestore order %d" % q, lambda cx, q=q: restore(cx, q, {}))
    unit("cvRestore undoes cvPredict order %d" % q, lambda cx, q=q: roundtrip(cx, q, {}))
for q in range(1, BDF + 1):
    unit("cvPredict order %d with quadratures and sensitivities" % q, lambda cx, q=q: predict(cx, q, ALL))
    unit("cvRestore order %d with quadratures and sensitivities" % q, lambda cx, q=q: restore(cx, q, ALL))

# ---------------------------------------------------------------- rescaling
def pw(x, k):
    r = zr(1)
    for _ in range(k):
        r = r * x
    return r
def rescale(cx, q, kw):
    E = cx.E
    m = cvmem(cx, q, **kw)
    eta, hs = now(cx, m, "cv_eta"), now(cx, m, "cv_hscale")
    cx.start()
    cx.fn("cvRescale", [m.p], "src/cvodes/cvodes.c")
    h = hs * eta
    scalars(cx, m, dict(cv_h=h, cv_next_h=h, cv_hscale=h, cv_nscon=0, cv_eta=eta))
    checkmap(cx, m, lambda j: [(j, pw(eta, j))], q, ["cv_h", "cv_next_h", "cv_hscale", "cv_nscon"], [m.cvals.rid, m.X.rid])
for q in range(1, ADAMS + 1):
    unit("cvRescale order %d" % q, lambda cx, q=q: rescale(cx, q, {}))
    if q <= BDF:
        unit("cvRescale order %d with quadratures" % q, lambda cx, q=q: rescale(cx, q, dict(quadr=1)))
        for ns in (1, 2):
            unit("cvRescale order %d, %d sensitivities" % (q, ns), lambda cx, q=q, ns=ns: rescale(cx, q, dict(sensi=1, quadr_sensi=1, Ns=ns)), bounded="%d sensitivities, vectors of any length" % ns)

# ---------------------------------------------------------------- order changes
def polymul(p, r):
    """p(x) * (x + r)"""
    out = [zr(0)] * (len(p) + 1)
    for i, c in enumerate(p):
        out[i + 1] = out[i + 1] + c
        out[i] = out[i] + c * r
    return out
def hist(cx, m, n, scale):
    """step history: tau[j] as differences of elapsed times, so that xi_j = T_j / scale with T_j = tau[1] + ... + tau[j]"""
    E = cx.E
    sc = z3.Real("hs")
    E.assume(sc != 0)
    cx.set(m.p, scale, sc)
    T = [z3.Real("T%d" % j) for j in range(n + 1)]
    for j in range(1, n + 1):
        E.assume(T[j] != 0)
        seta(cx, m, "cv_tau", j, T[j] - (T[j - 1] if j > 1 else 0))
    return sc, T
def qmaxs(cx, m, q, top):
    x = z3.Int("qmax")
    cx.E.assume(x >= q); cx.E.assume(x <= top)
    cx.set(m.p, "cv_qmax", x)
    return x

def dec_bdf(cx, q, kw, fn):
    E = cx.E
    m = cvmem(cx, q, **kw)
    hs, T = hist(cx, m, max(q - 2, 0), "cv_hscale")
    qmaxs(cx, m, q, BDF)
    cx.set(m.p, "cv_lmm", 2)
    cx.start()
    if fn == "cvDecreaseBDF":
        cx.fn(fn, [m.p], "src/cvodes/cvodes.c")
    else:
        cx.fn(fn, [m.p, -1], "src/cvodes/cvodes.c")
    p = [zr(0), zr(0), zr(1)]
    for i in range(1, q - 1):
        p = polymul(p, T[i] / hs)
    checkmap(cx, m, lambda j: [(j, 1)] + ([(q, -p[j])] if 2 <= j < q else []), q, ["cv_l"], [m.cvals.rid])
for q in range(2, BDF + 1):
    unit("cvDecreaseBDF from order %d" % q, lambda cx, q=q: dec_bdf(cx, q, ALL if q < 5 else {}, "cvDecreaseBDF"))
    if q > 2:
        unit("cvAdjustOrder(-1) BDF from order %d" % q, lambda cx, q=q: dec_bdf(cx, q, {}, "cvAdjustOrder"))

def inc_bdf(cx, q, kw, fn):
    E = cx.E
    m = cvmem(cx, q, **kw)
    hs = z3.Real("hs")
    E.assume(hs != 0)
    cx.set(m.p, "cv_hscale", hs)
    T = [None, hs] + [z3.Real("T%d" % j) for j in range(2, q + 1)]
    for j in range(2, q + 1):
        E.assume(T[j] != 0)
        seta(cx, m, "cv_tau", j, T[j] - T[j - 1])
    qmax = BDF
    cx.set(m.p, "cv_qmax", qmax)
    ia = qmax
    cx.set(m.p, "cv_indx_acor", ia)
    cx.set(m.p, "cv_lmm", 2)
    cx.start()
    if fn == "cvIncreaseBDF":
        cx.fn(fn, [m.p], "src/cvodes/cvodes.c")
    else:
        cx.fn(fn, [m.p, 1], "src/cvodes/cvodes.c")
    xi = [None] + [T[j] / hs for j in range(1, q + 1)]
    p = [zr(0), zr(0), zr(1)]
    for i in range(1, q):
        p = polymul(p, xi[i])
    from fractions import Fraction as Fr
    a = zr(sum(Fr(1, j) for j in range(1, q + 1)))
    prod = zr(1)
    for j in range(1, q + 1):
        a = a - 1 / xi[j]
        prod = prod * xi[j]
    A1 = a / prod
    def coef(j):
        if j == q + 1:
            return [(ia, A1)]
        if 2 <= j <= q:
            return [(j, 1), (ia, A1 * p[j])]
        return [(j, 1)]
    checkmap(cx, m, coef, q + 1, ["cv_l"], [m.cvals.rid])
for q in range(1, BDF):
    unit("cvIncreaseBDF from order %d" % q, lambda cx, q=q: inc_bdf(cx, q, ALL if q < 3 else {}, "cvIncreaseBDF"))
    unit("cvAdjustOrder(+1) BDF from order %d" % q, lambda cx, q=q: inc_bdf(cx, q, {}, "cvAdjustOrder"))

def inc_adams(cx, q, kw):
    m = cvmem(cx, q, **kw)
    cx.set(m.p, "cv_lmm", 1)
    cx.start()
    cx.fn("cvAdjustOrder", [m.p, 1], "src/cvodes/cvodes.c")
    checkmap(cx, m, lambda j: [(j, 1)] if j <= q else [], q + 1)
for q in range(1, ADAMS):
    unit("cvAdjustOrder(+1) Adams from order %d" % q, lambda cx, q=q: inc_adams(cx, q, ALL if q < 6 else {}))
def dec_adams(cx, q, kw):
    E = cx.E
    m = cvmem(cx, q, **kw)
    hs, T = hist(cx, m, max(q - 2, 0), "cv_hscale")
    qmaxs(cx, m, q, ADAMS)
    cx.set(m.p, "cv_lmm", 1)
    cx.start()
    cx.fn("cvAdjustOrder", [m.p, -1], "src/cvodes/cvodes.c")
    p = [zr(0), zr(1)]
    for i in range(1, q - 1):
        p = polymul(p, T[i] / hs)
    from fractions import Fraction as Fr
    # q * integral of p
    P = [zr(0)] + [p[i] * zr(Fr(q, i + 1)) for i in range(len(p))]
    checkmap(cx, m, lambda j: [(j, 1)] + ([(q, -P[j])] if 2 <= j < q else []), q, ["cv_l"], [m.cvals.rid])
for q in range(3, 8):
    unit("cvAdjustOrder(-1) Adams from order %d" % q, lambda cx, q=q: dec_adams(cx, q, ALL if q < 5 else {}))
def dec2(cx, lmm):
    """a decrease from order 2 needs no adjustment"""
    m = cvmem(cx, 2, **ALL)
    cx.set(m.p, "cv_lmm", lmm)
    cx.start()
    cx.fn("cvAdjustOrder", [m.p, -1], "src/cvodes/cvodes.c")
    checkmap(cx, m, lambda j: [(j, 1)], 2)
unit("cvAdjustOrder(-1) Adams from order 2", lambda cx: dec2(cx, 1))
unit("cvAdjustOrder(-1) BDF from order 2", lambda cx: dec2(cx, 2))

def adjparams(cx, q, d):
    """order and step size change together: the Adams case, where the columns are simple"""
    E = cx.E
    m = cvmem(cx, q)
    cx.set(m.p, "cv_lmm", 1)
    cx.set(m.p, "cv_qprime", q + d)
    eta, hs, qw = now(cx, m, "cv_eta"), now(cx, m, "cv_hscale"), now(cx, m, "cv_qwait")
    qmaxs(cx, m, q, ADAMS)
    cx.start()
    cx.fn("cvAdjustParams", [m.p], "src/cvodes/cvodes.c")
    h = hs * eta
    scalars(cx, m, dict(cv_h=h, cv_next_h=h, cv_hscale=h, cv_nscon=0, cv_q=q + d, cv_L=q + d + 1, cv_qwait=(q + d + 1) if d else qw))
    checkmap(cx, m, lambda j: [(j, pw(eta, j))] if j <= q and j <= q + d else [(j, 1)] if j <= q else [], q + max(d, 0), ["cv_h", "cv_next_h", "cv_hscale", "cv_nscon", "cv_q", "cv_L", "cv_qwait", "cv_l"], [m.cvals.rid, m.X.rid])
for q in (1, 2, 3, 5):
    for d in (0, 1, -1):
        if q + d >= 1 and (d >= 0 or q == 2):
            unit("cvAdjustParams order %d to %d" % (q, q + d), lambda cx, q=q, d=d: adjparams(cx, q, d))

# ---------------------------------------------------------------- accepting a step
def complete(cx, q, kw, save):
    E = cx.E
    m = cvmem(cx, q, **kw)
    a = vecf(cx, m, "cv_acor")
    src = {"zn": lambda c: zr(cx.el(a, c[0]))}
    if kw.get("quadr"):
        aq = vecf(cx, m, "cv_acorQ", m.NQ)
        src["znQ"] = lambda c: zr(cx.el(aq, c[0]))
    if kw.get("sensi"):
        as_ = famf(cx, m, "cv_acorS")
        src["znS"] = lambda c: zr(cx.fel(as_, c))
    if kw.get("quadr_sensi"):
        aqs = famf(cx, m, "cv_acorQS", m.NQ)
        src["znQS"] = lambda c: zr(cx.fel(aqs, c))
    nst, nscon, h, qw = now(cx, m, "cv_nst"), now(cx, m, "cv_nscon"), now(cx, m, "cv_h"), now(cx, m, "cv_qwait")
    E.assume(nst >= 0)
    if save:
        E.assume(qw == 2)
        qmax = 12 if q < 12 else 12
        E.assume(zi(q) < qmax)
        cx.set(m.p, "cv_qmax", qmax)
    else:
        qmax = now(cx, m, "cv_qmax")
        E.assume(z3.Or(qw != 2, qmax == q))
    ia, t5 = now(cx, m, "cv_indx_acor"), now(cx, m, "cv_saved_tq5")
    cx.start()
    tau = [fa(cx, m, "cv_tau", i) for i in range(LMAX + 1)]
    cx.fn("cvCompleteStep", [m.p], "src/cvodes/cvodes.c")
    scalars(cx, m, dict(cv_nst=nst + 1, cv_nscon=nscon + 1, cv_hu=h, cv_h=h, cv_qu=q, cv_q=q, cv_qwait=qw - 1,
        cv_indx_acor=qmax if save else ia, cv_saved_tq5=fa(cx, m, "cv_tq", 5) if save else t5))
    new = {1: h}
    for i in range(2, LMAX + 1):
        new[i] = tau[i - 1] if i <= q else tau[i]
    if q == 1:
        new[2] = z3.If(nst + 1 > 1, tau[1], tau[2])
    arrays(cx, m, dict(cv_tau=new))
    l = [fa(cx, m, "cv_l", j) for j in range(q + 1)]
    for f in fams(m):
        F = getattr(m, f)
        R = E.regions[cx.fdata(F)]
        def go(F=F, R=R, f=f):
            cs = [E.fint("c") for _ in range(R.ncoord - 1)]
            E.assume(cs[-1] >= 0); E.assume(cs[-1] < zi(R.length(())))
            if R.ncoord == 3:
                E.assume(cs[0] >= 0); E.assume(cs[0] < zi(m.Ns))
            for j in range(LMAX):
                o = znel(cx, F, (j,) + tuple(cs))
                want = o + l[j] * src[f](tuple(cs)) if j <= q else src[f](tuple(cs)) if save and j == qmax else o
                cx.same("%s[%d] has its specified value" % (f, j), zr(cx.fel(F, (j,) + tuple(cs), False)), want)
            return True
        E.explore(go)
    cvframe(cx, m, {cx.fdata(getattr(m, f)): None for f in fams(m)}, ["cv_nst", "cv_nscon", "cv_hu", "cv_qu", "cv_qwait", "cv_indx_acor", "cv_saved_tq5", "cv_tau"], [m.cvals.rid])
for q in range(1, ADAMS + 1):
    unit("cvCompleteStep order %d" % q, lambda cx, q=q: complete(cx, q, {}, False))
    if q < ADAMS:
        unit("cvCompleteStep order %d saving the correction" % q, lambda cx, q=q: complete(cx, q, {}, True))
for q in (1, 2, 4):
    for sv in (False, True):
        unit("cvCompleteStep order %d with quadratures and sensitivities%s" % (q, ", saving" if sv else ""), lambda cx, q=q, sv=sv: complete(cx, q, ALL, sv))
UNITS = HIST
