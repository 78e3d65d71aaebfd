"""CVODES step size and order control, and what happens after a failed attempt."""
import z3
from fractions import Fraction as Fr
from math import comb
from . import eng, harness
from .eng import *
from .run import Unit
from .cv import *
from .cv import frame as cvframe
from .nord import checkmap, pw, ALL, fams
from . import contracts as C

UNITS = []
def unit(id, body, **k):
    UNITS.append(Unit(id, FILES, body, contracts=CT, **k))
F = "src/cvodes/cvodes.c"
D = lambda x: zr(Fr(x))
THRESH, ETACF, ETAMIN, ETAMXF, ADDON, B1, B2, B3, ONEPSM = D(1.5), D(.25), D(.1), D(.2), D(.000001), D(6.), D(6.), D(10.), D(1.000001)
rabs = lambda x: z3.If(x >= 0, x, -x)
rmax = lambda a, b: z3.If(a > b, a, b)
rmin = lambda a, b: z3.If(a < b, a, b)
def powr(b, e):
    return z3.If(b <= 0, zr(0), POW(b, e))
def ratio(bias, d, n):
    """the step ratio that an error estimate d at an order with root n allows"""
    return 1 / (powr(bias * d, zr(Fr(1, n))) + ADDON)
def positive(E):
    """pow of positive arguments is positive"""
    x, y = z3.Reals("x y")
    E.notes.add("pow(x, y) > 0 for x > 0")
def powpos(cx, b, e):
    cx.E.assume(z3.Implies(b > 0, POW(b, e) > 0))
    cx.E.notes.add("pow(x, y) > 0 for x > 0")

def cellint(cx, name, lo=None):
    """an int variable of the caller, passed by address"""
    p = cx.intarr(name, 1)
    v = z3.Int(name)
    cx.E.st.mem[(p.rid, ())] = cx.E.arr(p).write(Layer((), True, (0,), v))
    if lo is not None:
        cx.E.assume(v >= lo)
    return p, v
def field(cx, m, name):
    return cx.E.member(m.p, name, cx.ftype(m.p, name))

# ---------------------------------------------------------------- a failed nonlinear solve
CODES = {-6: -6, -7: -7, -8: -8, -31: -31, -41: -41, -51: -51}
RECV = {902: -4, 10: -15, 9: -10, 11: -33, 12: -43, 13: -53}
def hnf(cx, q, kw, kind):
    E = cx.E
    m = cvmem(cx, q, **kw)
    nf, nfv = cellint(cx, "nflag")
    nc, ncv = cellint(cx, "ncf", 0)
    nn, nnv = cellint(cx, "ncfn", 0)
    saved = cx.real("saved_t")
    h, hmin, hs, eta, mx = (now(cx, m, f) for f in ("cv_h", "cv_hmin", "cv_hscale", "cv_eta", "cv_maxncf"))
    E.assume(h != 0); E.assume(hmin >= 0)
    if kind == "ok":
        E.assume(nfv == 0)
    elif kind == "fatal":
        E.assume(nfv < 0)
    else:
        E.assume(z3.Or(*[nfv == c for c in RECV]))
    cx.start()
    r = cx.fn("cvHandleNFlag", [m.p, nf, saved, nc, nn], F)
    rd = lambda p: cx.read(p, 0)
    if kind == "ok":
        cx.same("a solved step goes on to the error test", r, 2)
        cx.frame()
        return
    gone = [f.rid for f in (nf, nc, nn)]
    back = lambda j: [(i, (-1) ** (i - j) * comb(i, j)) for i in range(j, q + 1)]
    cx.same("the failure is counted", rd(nn), nnv + 1)
    if kind == "fatal":
        w = zi(-16)
        for c in CODES:
            w = z3.If(nfv == c, zi(c), w)
        cx.same("an unrecoverable failure is reported by its code", r, w)
        cx.same("the time goes back", now(cx, m, "cv_tn"), saved)
        cx.same("nflag unchanged", rd(nf), nfv)
        cx.same("ncf unchanged", rd(nc), ncv)
        checkmap(cx, m, back, q, ["cv_tn"], extra={g: None for g in gone})
        return
    stop = z3.Or(rabs(h) <= hmin * ONEPSM, ncv + 1 == mx)
    cx.same("the consecutive failures are counted", rd(nc), ncv + 1)
    cx.same("the step may not grow after this attempt", now(cx, m, "cv_etamax"), 1)
    cx.same("the time goes back", now(cx, m, "cv_tn"), saved)
    w = zi(0)
    for c, e in RECV.items():
        w = z3.If(nfv == c, zi(e), w)
    cx.same("gives up at the smallest step or after maxncf failures, retries otherwise", r, z3.If(stop, w, zi(3)))
    e2 = z3.If(nfv == 10, eta, rmax(ETACF, hmin / rabs(h)))
    cx.same("the next attempt knows that this one failed", rd(nf), z3.If(stop, nfv, zi(7)))
    # on this path the run has decided
    st = E.prove(stop, (), 4000)[0]
    if st is True:
        cx.same("eta unchanged", now(cx, m, "cv_eta"), eta)
        checkmap(cx, m, back, q, ["cv_tn", "cv_etamax"], extra={g: None for g in gone})
        return
    E.assume(z3.Not(stop))
    cx.same("eta is the reduced ratio", now(cx, m, "cv_eta"), e2)
    eg = now(cx, m, "cv_eta")
    scalars(cx, m, dict(cv_h=hs * eg, cv_next_h=hs * eg, cv_hscale=hs * eg, cv_nscon=0))
    checkmap(cx, m, lambda j: [(i, zr(k) * pw(eg, j)) for i, k in back(j)], q, ["cv_tn", "cv_etamax", "cv_eta", "cv_h", "cv_next_h", "cv_hscale", "cv_nscon"], [m.cvals.rid, m.X.rid], extra={g: None for g in gone})
def contracted(cx, m, saved):
    """cvRestore, cvRescale and cvAdjustOrder by their contracts (proved order by order in the history property): what they did is recorded"""
    E = cx.E
    log = cx.intarr("history_log", 3)
    for i in range(3):
        E.st.mem[(log.rid, ())] = E.arr(log).write(Layer((), True, (i,), z3.IntVal(0)))
    rd = lambda i: zi(cx.read(log, i))
    def put(i, v):
        E.st.mem[(log.rid, ())] = E.arr(log).write(Layer((), True, (i,), simp(v) if isz(v) else z3.IntVal(v)))
    def hav():
        d = E.regions[m.znd]
        f = E.ffun("zn", d.ncoord, z3.RealSort())
        E.st.mem[(m.znd, ())] = Arr(lambda c: f(*[zi(x) for x in c]))
    def restore(E, a):
        cx.ob("the prediction is undone once, first", z3.And(rd(0) == 0, rd(1) == 0, rd(2) == 0))
        cx.same("the time to go back to", zr(a[1]), saved)
        put(0, 1)
        hav()
        cx.set(m.p, "cv_tn", zr(a[1]))
    def rescale(E, a):
        cx.ob("the history is rescaled after the prediction is undone, once", z3.And(rd(0) == 1, rd(1) == 0))
        put(1, 1)
        hav()
        h = zr(now(cx, m, "cv_hscale")) * zr(now(cx, m, "cv_eta"))
        for f in ("cv_h", "cv_next_h", "cv_hscale"):
            cx.set(m.p, f, h)
        cx.set(m.p, "cv_nscon", 0)
    def adjust(E, a):
        cx.ob("the order is changed after the prediction is undone, before the rescaling", z3.And(rd(0) == 1, rd(1) == 0, rd(2) == 0))
        put(2, a[1])
        hav()
    stub(cx, "cvRestore", restore, "cvRestore by its contract (history property)")
    stub(cx, "cvRescale", rescale, "cvRescale by its contract (history property)")
    stub(cx, "cvAdjustOrder", adjust, "cvAdjustOrder by its contract (history property)")
    return [lambda: rd(0), lambda: rd(1), lambda: rd(2)], log.rid
def anyq(cx):
    q = z3.Int("q")
    cx.E.assume(q >= 1); cx.E.assume(q <= 12)
    return q
def hnf_any(cx, kind):
    """any order: the history functions by contract"""
    E = cx.E
    q = anyq(cx)
    m = cvmem(cx, q)
    nf, nfv = cellint(cx, "nflag")
    nc, ncv = cellint(cx, "ncf", 0)
    nn, nnv = cellint(cx, "ncfn", 0)
    saved = cx.real("saved_t")
    h, hmin, hs, eta, mx = (now(cx, m, f) for f in ("cv_h", "cv_hmin", "cv_hscale", "cv_eta", "cv_maxncf"))
    tn, emx = now(cx, m, "cv_tn"), now(cx, m, "cv_etamax")
    E.assume(h != 0); E.assume(hmin >= 0)
    E.assume(nfv < 0 if kind == "fatal" else z3.Or(*[nfv == c for c in RECV]))
    log, lr = contracted(cx, m, saved)
    cx.start()
    r = cx.fn("cvHandleNFlag", [m.p, nf, saved, nc, nn], F)
    rd = lambda p: cx.read(p, 0)
    outs = {nf.rid: None, nc.rid: None, nn.rid: None, lr: None, m.znd: None}
    cx.ob("the prediction is undone", z3.And(log[0]() == 1, log[2]() == 0))
    cx.same("the failure is counted", rd(nn), nnv + 1)
    cx.same("the time goes back", now(cx, m, "cv_tn"), saved)
    if kind == "fatal":
        w = zi(-16)
        for c in CODES:
            w = z3.If(nfv == c, zi(c), w)
        cx.same("an unrecoverable failure is reported by its code", r, w)
        cx.same("nflag unchanged", rd(nf), nfv)
        cx.same("ncf unchanged", rd(nc), ncv)
        cx.ob("the step size stays", log[1]() == 0)
        cvframe(cx, m, outs, ["cv_tn"])
        return
    stop = z3.Or(rabs(h) <= hmin * ONEPSM, ncv + 1 == mx)
    cx.same("the consecutive failures are counted", rd(nc), ncv + 1)
    cx.same("the step may not grow after this attempt", now(cx, m, "cv_etamax"), 1)
    w = zi(0)
    for c, e in RECV.items():
        w = z3.If(nfv == c, zi(e), w)
    cx.same("gives up at the smallest step or after maxncf failures, retries otherwise", r, z3.If(stop, w, zi(3)))
    cx.same("the next attempt knows that this one failed", rd(nf), z3.If(stop, nfv, zi(7)))
    e2 = z3.If(stop, eta, z3.If(nfv == 10, eta, rmax(ETACF, hmin / rabs(h))))
    cx.same("eta is the reduced ratio", now(cx, m, "cv_eta"), e2)
    cx.ob("the history is rescaled exactly when the step is tried again", (log[1]() == 1) == z3.Not(stop))
    scalars(cx, m, dict(cv_h=z3.If(stop, h, hs * e2), cv_hscale=z3.If(stop, hs, hs * e2)))
    cvframe(cx, m, outs, ["cv_tn", "cv_etamax", "cv_eta", "cv_h", "cv_next_h", "cv_hscale", "cv_nscon"])
for kind in ("fatal", "recoverable"):
    unit("cvHandleNFlag at any order, %s" % kind, lambda cx, kind=kind: hnf_any(cx, kind))
for q in range(1, 7):
    for kind in ("ok", "fatal", "recoverable"):
        if q > 5 and kind == "ok":
            continue
        unit("cvHandleNFlag order %d, %s" % (q, kind), lambda cx, q=q, kind=kind: hnf(cx, q, {}, kind))
for q in (1, 2, 3):
    unit("cvHandleNFlag order %d with quadratures, recoverable" % q, lambda cx, q=q: hnf(cx, q, dict(quadr=1), "recoverable"))
    unit("cvHandleNFlag order %d with quadratures and sensitivities, fatal" % q, lambda cx, q=q: hnf(cx, q, ALL, "fatal"))

# ---------------------------------------------------------------- the local error test
def et(cx, q, kw, lmm=2):
    E = cx.E
    m = cvmem(cx, q, **kw)
    nf, nfv = cellint(cx, "nflag")
    ne, nev = cellint(cx, "nef", 0)
    nt, ntv = cellint(cx, "netf", 0)
    dp = cx.out(name="dsm")
    saved, an = cx.real("saved_t"), cx.real("acor_nrm")
    h, hmin, hs, eta, mx, qw, nsc, nfe = (now(cx, m, f) for f in ("cv_h", "cv_hmin", "cv_hscale", "cv_eta", "cv_maxnef", "cv_qwait", "cv_nscon", "cv_nfe"))
    E.assume(h != 0); E.assume(hmin >= 0)
    cx.set(m.p, "cv_lmm", lmm)
    tq2 = fa(cx, m, "cv_tq", 2)
    hist = {}
    if q > 2:
        for j in range(1, q - 1):
            t = z3.Real("tau%d" % j)
            seta(cx, m, "cv_tau", j, t)
        E.assume(hs != 0)
    E.assume(zi(now(cx, m, "cv_qmax")) >= q); E.assume(zi(now(cx, m, "cv_qmax")) < LMAX)
    tv = vecf(cx, m, "cv_tempv")
    FV = z3.Function("f", z3.IntSort(), z3.RealSort())
    rv = z3.Int("f_returns")
    ghost = cx.realarr("ghost", 4)
    def userf(E, a):
        cx.same("the right-hand side is evaluated at the restored time", a[0], saved)
        cx.same("the right-hand side is evaluated at the restored state", a[1], cx.read(m.zn, 0))
        C.put(E, cx.vdata(tv), m.N, lambda t: FV(zi(t)))
        return rv
    cx.set(m.p, "cv_f", user(cx, "user_f", userf))
    cx.start()
    dsm = an * tq2
    L = q + 1
    r = cx.fn("cvDoErrorTest", [m.p, nf, saved, an, ne, nt, dp], F)
    rd = lambda p: cx.read(p, 0)
    cx.same("the error estimate is handed back", rd(dp), dsm)
    outs = {p.rid: None for p in (nf, ne, nt, dp)}
    if E.prove(dsm <= 1, (), 4000)[0] is True:
        cx.same("the step is accepted when the estimate is at most 1", r, 0)
        cx.same("nflag unchanged", rd(nf), nfv); cx.same("nef unchanged", rd(ne), nev); cx.same("netf unchanged", rd(nt), ntv)
        cvframe(cx, m, outs)
        return
    E.assume(dsm > 1)
    back = lambda j: [(i, (-1) ** (i - j) * comb(i, j)) for i in range(j, q + 1)]
    cx.same("the failure is counted for this step", rd(ne), nev + 1)
    cx.same("the failure is counted in total", rd(nt), ntv + 1)
    cx.same("the next attempt knows that this one failed", rd(nf), 8)
    cx.same("the time goes back", now(cx, m, "cv_tn"), saved)
    stop = z3.Or(rabs(h) <= hmin * ONEPSM, nev + 1 == mx)
    if E.prove(stop, (), 4000)[0] is True:
        cx.same("gives up at the smallest step or after maxnef failures", r, -3)
        checkmap(cx, m, back, q, ["cv_tn"], extra=outs)
        return
    E.assume(z3.Not(stop))
    cx.same("the step may not grow after this attempt", now(cx, m, "cv_etamax"), 1)
    lo = hmin / rabs(h)
    eg = now(cx, m, "cv_eta")
    if E.prove(nev + 1 <= 3, (), 4000)[0] is True:
        cx.same("tries again", r, 5)
        powpos(cx, B2 * dsm, zr(Fr(1, L)))
        e0 = rmax(ETAMIN, rmax(ratio(B2, dsm, L), lo))
        cx.same("eta follows the error estimate, within its bounds", eg, z3.If(nev + 1 >= 2, rmin(e0, ETAMXF), e0))
        scalars(cx, m, dict(cv_h=hs * eg, cv_next_h=hs * eg, cv_hscale=hs * eg, cv_nscon=0, cv_q=q, cv_L=L, cv_qwait=qw))
        checkmap(cx, m, lambda j: [(i, zr(k) * pw(eg, j)) for i, k in back(j)], q, ["cv_tn", "cv_etamax", "cv_eta", "cv_h", "cv_next_h", "cv_hscale", "cv_nscon"], [m.cvals.rid, m.X.rid], extra=outs)
        return
    E.assume(nev + 1 > 3)
    if q > 1:
        cx.same("tries again", r, 5)
        cx.same("eta is the smallest allowed ratio", eg, rmax(ETAMIN, lo))
        scalars(cx, m, dict(cv_h=hs * eg, cv_next_h=hs * eg, cv_hscale=hs * eg, cv_nscon=0, cv_q=q - 1, cv_L=q, cv_qwait=q))
        if q == 2:
            checkmap(cx, m, lambda j: [(i, zr(k) * (pw(eg, j) if j < q else zr(1))) for i, k in back(j)], q, ["cv_tn", "cv_etamax", "cv_eta", "cv_h", "cv_next_h", "cv_hscale", "cv_nscon", "cv_q", "cv_L", "cv_qwait", "cv_l"], [m.cvals.rid, m.X.rid], extra=outs)
        return
    # order 1: start again from the right-hand side
    cx.same("eta is the smallest allowed ratio", eg, rmax(ETAMIN, lo))
    hn = h * eg
    scalars(cx, m, dict(cv_h=hn, cv_next_h=hn, cv_hscale=hn, cv_nscon=0, cv_q=1, cv_L=2, cv_qwait=10, cv_nfe=nfe + 1))
    cx.same("a failing right-hand side is reported", r, z3.If(rv < 0, zi(-8), z3.If(rv > 0, zi(-11), zi(5))))
    okf = E.prove(rv == 0, (), 4000)[0] is True
    def want(c):
        o = znel(cx, m.zn, c)
        j = zi(c[0])
        v = z3.If(j == 0, znel(cx, m.zn, c) - znel(cx, m.zn, (1,) + tuple(c[1:])), o)
        return z3.If(j == 1, hn * FV(zi(c[1])), v) if okf else v
    cvframe(cx, m, {**outs, m.znd: want, cx.vdata(tv).rid: None}, ["cv_tn", "cv_etamax", "cv_eta", "cv_h", "cv_next_h", "cv_hscale", "cv_nscon", "cv_qwait", "cv_nfe"])
def et_any(cx):
    """any order from 2 up: the history functions by contract"""
    E = cx.E
    q = anyq(cx)
    E.assume(q >= 2)
    m = cvmem(cx, q)
    cx.set(m.p, "cv_L", q + 1)
    nf, nfv = cellint(cx, "nflag")
    ne, nev = cellint(cx, "nef", 0)
    nt, ntv = cellint(cx, "netf", 0)
    dp = cx.out(name="dsm")
    saved, an = cx.real("saved_t"), cx.real("acor_nrm")
    h, hmin, hs, eta, mx, qw, tn, emx = (now(cx, m, f) for f in ("cv_h", "cv_hmin", "cv_hscale", "cv_eta", "cv_maxnef", "cv_qwait", "cv_tn", "cv_etamax"))
    E.assume(h != 0); E.assume(hmin >= 0)
    tq2 = fa(cx, m, "cv_tq", 2)
    log, lr = contracted(cx, m, saved)
    cx.start()
    dsm = an * tq2
    r = cx.fn("cvDoErrorTest", [m.p, nf, saved, an, ne, nt, dp], F)
    rd = lambda p: cx.read(p, 0)
    cx.same("the error estimate is handed back", rd(dp), dsm)
    outs = {p.rid: None for p in (nf, ne, nt, dp)}
    outs.update({lr: None, m.znd: None})
    if E.prove(dsm <= 1, (), 4000)[0] is True:
        cx.same("the step is accepted when the estimate is at most 1", r, 0)
        cx.ob("the history is left alone", z3.And(log[0]() == 0, log[1]() == 0, log[2]() == 0))
        cvframe(cx, m, {k: v for k, v in outs.items() if k in (dp.rid, lr)})
        return
    E.assume(dsm > 1)
    cx.ob("the prediction is undone", log[0]() == 1)
    cx.same("the failure is counted for this step", rd(ne), nev + 1)
    cx.same("the failure is counted in total", rd(nt), ntv + 1)
    cx.same("the next attempt knows that this one failed", rd(nf), 8)
    cx.same("the time goes back", now(cx, m, "cv_tn"), saved)
    stop = z3.Or(rabs(h) <= hmin * ONEPSM, nev + 1 == mx)
    if E.prove(stop, (), 4000)[0] is True:
        cx.same("gives up at the smallest step or after maxnef failures", r, -3)
        cx.ob("nothing else happens", z3.And(log[1]() == 0, log[2]() == 0))
        cvframe(cx, m, outs, ["cv_tn"])
        return
    E.assume(z3.Not(stop))
    cx.same("tries again", r, 5)
    cx.same("the step may not grow after this attempt", now(cx, m, "cv_etamax"), 1)
    lo = hmin / rabs(h)
    eg = now(cx, m, "cv_eta")
    few = E.prove(nev + 1 <= 3, (), 4000)[0] is True
    if few:
        e = 1 / z3.ToReal(q + 1)
        powpos(cx, B2 * dsm, e)
        e0 = rmax(ETAMIN, rmax(1 / (powr(B2 * dsm, e) + ADDON), lo))
        cx.same("eta follows the error estimate, within its bounds", eg, z3.If(nev + 1 >= 2, rmin(e0, ETAMXF), e0))
    else:
        E.assume(nev + 1 > 3)
        cx.same("eta is the smallest allowed ratio", eg, rmax(ETAMIN, lo))
    cx.ob("the order is lowered after more than three failures only", log[2]() == (0 if few else -1))
    cx.ob("the history is rescaled", log[1]() == 1)
    scalars(cx, m, dict(cv_h=hs * eg, cv_next_h=hs * eg, cv_hscale=hs * eg, cv_nscon=0, cv_q=q if few else q - 1, cv_L=q + 1 if few else q, cv_qwait=qw if few else q))
    cvframe(cx, m, outs, ["cv_tn", "cv_etamax", "cv_eta", "cv_h", "cv_next_h", "cv_hscale", "cv_nscon"] + ([] if few else ["cv_q", "cv_L", "cv_qwait"]))
unit("cvDoErrorTest at any order from 2 up", et_any)
for q in range(1, 7):
    unit("cvDoErrorTest order %d" % q, lambda cx, q=q: et(cx, q, {}, 2 if q < 6 else 1))

# ---------------------------------------------------------------- the next step size
def nextvals(h, eta, etamax, hmi):
    e1 = rmin(eta, etamax)
    e2 = e1 / rmax(zr(1), rabs(h) * hmi * e1)
    e = z3.If(eta < THRESH, zr(1), e2)
    return e, z3.If(eta < THRESH, h, h * e2)
def seteta(cx):
    E = cx.E
    m = cvmem(cx, None)
    h, eta, em, hmi, qp, q, ns = (now(cx, m, f) for f in ("cv_h", "cv_eta", "cv_etamax", "cv_hmax_inv", "cv_qprime", "cv_q", "cv_nscon"))
    E.assume(hmi >= 0); E.assume(em >= 1); E.assume(h != 0)
    cx.start()
    cx.fn("cvSetEta", [m.p], F)
    e, hp = nextvals(h, eta, em, hmi)
    scalars(cx, m, dict(cv_eta=e, cv_hprime=hp, cv_nscon=z3.If(z3.And(eta >= THRESH, qp < q), zi(0), ns), cv_qprime=qp, cv_q=q, cv_h=h))
    eg, hg = now(cx, m, "cv_eta"), now(cx, m, "cv_hprime")
    cx.ob("the step is never lengthened beyond etamax", z3.Or(eg <= em, eg == 1))
    cx.ob("a changed step respects hmax", z3.Or(hg == h, rabs(hg) * hmi <= 1))
    cx.ob("the direction of integration is kept", hg * h > 0)
    cvframe(cx, m, {}, ["cv_eta", "cv_hprime", "cv_nscon"])
unit("cvSetEta", seteta)

def wn(cx, v, w):
    """the norm of a vector, by the contract of N_VWrmsNorm (the length is at least 1)"""
    return C.wrms(cx.E, [v, w])
class VecAt:
    pass
def row(cx, fam, j):
    return cx.read(fam, j)

def norm(cx, f, w, n):
    fn, t = C.dsum(cx.E, 0, n, lambda t: (f(t) * zr(cx.el(w, t))) * (f(t) * zr(cx.el(w, t))))
    return C.sq_root(fn(zi(n)) / zr(n))
def flag(cx, m, f):
    v = z3.Int(f)
    cx.E.assume(z3.Or(v == 0, v == 1))
    cx.set(m.p, f, v)
    return v

def etaqm1(cx, q, quadr):
    E = cx.E
    m = cvmem(cx, q, cx.N("N", 1), quadr=quadr)
    ew = vecf(cx, m, "cv_ewt")
    if quadr:
        E.assume(m.NQ >= 1)
        eq = flag(cx, m, "cv_errconQ")
        ewq = vecf(cx, m, "cv_ewtQ", m.NQ)
    tq1 = fa(cx, m, "cv_tq", 1)
    cx.start()
    want = zr(0)
    if q > 1:
        d = norm(cx, lambda t: znel(cx, m.zn, (q, t)), ew, m.N)
        if quadr:
            dq = norm(cx, lambda t: znel(cx, m.znQ, (q, t)), ewq, m.NQ)
            d = z3.If(eq == 1, rmax(d, dq), d)
        want = ratio(B1, d * tq1, q)
    r = cx.fn("cvComputeEtaqm1", [m.p], F)
    cx.same("ratio the order below allows", r, want)
    cx.same("cv_etaqm1 holds it", now(cx, m, "cv_etaqm1"), want)
    cvframe(cx, m, {}, ["cv_etaqm1"])
for q in range(1, 13):
    unit("cvComputeEtaqm1 order %d" % q, lambda cx, q=q: etaqm1(cx, q, 0))
    if q < 6:
        unit("cvComputeEtaqm1 order %d with quadratures" % q, lambda cx, q=q: etaqm1(cx, q, 1))

def etaqp1(cx, q, top, quadr):
    E = cx.E
    m = cvmem(cx, q, cx.N("N", 1), quadr=quadr)
    qmax = q if top else z3.Int("qmax")
    if not top:
        E.assume(qmax > q); E.assume(qmax < LMAX)
    cx.set(m.p, "cv_qmax", qmax)
    ew, ac, tv = vecf(cx, m, "cv_ewt"), vecf(cx, m, "cv_acor"), vecf(cx, m, "cv_tempv")
    scr = [cx.vdata(tv).rid]
    if quadr:
        E.assume(m.NQ >= 1)
        eq = flag(cx, m, "cv_errconQ")
        ewq, acq, tvq = vecf(cx, m, "cv_ewtQ", m.NQ), vecf(cx, m, "cv_acorQ", m.NQ), vecf(cx, m, "cv_tempvQ", m.NQ)
        scr.append(cx.vdata(tvq).rid)
    h, t5 = now(cx, m, "cv_h"), now(cx, m, "cv_saved_tq5")
    tau2 = fa(cx, m, "cv_tau", 2)
    E.assume(tau2 != 0)
    tq = [fa(cx, m, "cv_tq", i) for i in range(6)]
    cx.start()
    want = zr(0)
    if not top:
        g = h / tau2
        p = zr(1)
        for _ in range(q + 1):
            p = p * g
        cq = (tq[5] / t5) * p
        cqn = z3.Real("cquot")
        d = norm(cx, lambda t: zr(cx.el(ac, t)) - cq * znel(cx, m.zn, (qmax, t)), ew, m.N)
        if quadr:
            dq = norm(cx, lambda t: zr(cx.el(acq, t)) - cq * znel(cx, m.znQ, (qmax, t)), ewq, m.NQ)
            d = z3.If(eq == 1, rmax(d, dq), d)
        want = z3.If(t5 == 0, zr(0), ratio(B3, d * tq[3], q + 2))
    r = cx.fn("cvComputeEtaqp1", [m.p], F)
    cx.same("ratio the order above allows", r, want)
    cx.same("cv_etaqp1 holds it", now(cx, m, "cv_etaqp1"), want)
    cvframe(cx, m, {}, ["cv_etaqp1"], scr)
for q in range(1, 12):
    unit("cvComputeEtaqp1 order %d" % q, lambda cx, q=q: etaqp1(cx, q, False, 0))
    unit("cvComputeEtaqp1 order %d = qmax" % q, lambda cx, q=q: etaqp1(cx, q, True, 0))
    if q < 5:
        unit("cvComputeEtaqp1 order %d with quadratures" % q, lambda cx, q=q: etaqp1(cx, q, False, 1))

def prepare(cx, q, wait, kw):
    E = cx.E
    m = cvmem(cx, q, cx.N("N", 1), **kw)
    lmm = z3.Int("lmm")
    E.assume(z3.Or(lmm == 1, lmm == 2))
    cx.set(m.p, "cv_lmm", lmm)
    qmax = z3.Int("qmax")
    E.assume(qmax >= q); E.assume(qmax < LMAX)
    cx.set(m.p, "cv_qmax", qmax)
    L = q + 1
    dsm, h, em, hmi, qw, ns = cx.real("dsm"), *(now(cx, m, f) for f in ("cv_h", "cv_etamax", "cv_hmax_inv", "cv_qwait", "cv_nscon"))
    E.assume(hmi >= 0); E.assume(em >= 1); E.assume(h != 0); E.assume(dsm >= 0)
    E.assume(qw != 0 if wait else qw == 0)
    powpos(cx, B2 * dsm, zr(Fr(1, L)))
    on = {"zn": True}
    src = {"zn": vecf(cx, m, "cv_acor")}
    if kw.get("quadr"):
        on["znQ"] = flag(cx, m, "cv_errconQ") == 1
        src["znQ"] = vecf(cx, m, "cv_acorQ", m.NQ)
    if kw.get("sensi"):
        on["znS"] = flag(cx, m, "cv_errconS") == 1
        src["znS"] = famf(cx, m, "cv_acorS")
    if kw.get("quadr_sensi"):
        on["znQS"] = flag(cx, m, "cv_errconQS") == 1
        src["znQS"] = famf(cx, m, "cv_acorQS", m.NQ)
    gm, gp = (z3.Real("etaqm1") if q > 1 else zr(0)), z3.Real("etaqp1")
    E.assume(gp >= 0); E.assume(gm >= 0)
    E.assume(z3.Implies(qmax == q, gp == 0))
    def low(E, a):
        cx.set(m.p, "cv_etaqm1", gm)
        return gm
    def high(E, a):
        cx.set(m.p, "cv_etaqp1", gp)
        return gp
    stub(cx, "cvComputeEtaqm1", low, "cvComputeEtaqm1 by its contract (its units)")
    stub(cx, "cvComputeEtaqp1", high, "cvComputeEtaqp1 by its contract (its units)")
    cx.start()
    cx.fn("cvPrepareNextStep", [m.p, dsm], F)
    fields = ["cv_eta", "cv_hprime", "cv_nscon", "cv_qwait", "cv_qprime", "cv_etaq", "cv_etaqm1", "cv_etaqp1"]
    if E.prove(em == 1, (), 4000)[0] is True:
        scalars(cx, m, dict(cv_eta=1, cv_hprime=h, cv_qprime=q, cv_qwait=z3.If(qw > 2, qw, zi(2)), cv_nscon=ns))
        cvframe(cx, m, {}, fields)
        return
    E.assume(em > 1)
    gq = zr(now(cx, m, "cv_etaq"))
    cx.same("ratio the current order allows", gq, ratio(B2, dsm, L))
    if wait:
        e, hp = nextvals(h, gq, em, hmi)
        scalars(cx, m, dict(cv_eta=e, cv_hprime=hp, cv_qprime=q, cv_qwait=qw, cv_nscon=ns))
        cvframe(cx, m, {}, fields)
        return
    best = rmax(gm, rmax(gq, gp))
    none = best < THRESH
    pick = z3.If(none, zi(q), z3.If(best == gq, zi(q), z3.If(best == gm, zi(q - 1), zi(q + 1))))
    e, hp = nextvals(h, z3.If(none, zr(1), best), em, hmi)
    scalars(cx, m, dict(cv_qprime=pick, cv_eta=e, cv_hprime=hp, cv_qwait=2, cv_nscon=z3.If(z3.And(z3.Not(none), pick < q), zi(0), ns)))
    cx.ob("the order stays between 1 and qmax", z3.And(zi(now(cx, m, "cv_qprime")) >= 1, zi(now(cx, m, "cv_qprime")) <= qmax))
    up = z3.And(z3.Not(none), best != gq, best != gm, lmm == 2)
    def keep(f):
        def want(c):
            new = zr(cx.el(src[f], c[1])) if f in ("zn", "znQ") else zr(cx.fel(src[f], tuple(c[1:])))
            return z3.If(z3.And(up, zb(on[f]), zi(c[0]) == qmax), new, znel(cx, getattr(m, f), c))
        return want
    cvframe(cx, m, {cx.fdata(getattr(m, f)): keep(f) for f in fams(m)}, fields, [m.cvals.rid])
for q in range(1, 13):
    unit("cvPrepareNextStep order %d" % q, lambda cx, q=q: prepare(cx, q, False, {}))
    unit("cvPrepareNextStep order %d, no order change due" % q, lambda cx, q=q: prepare(cx, q, True, {}))
for q in (1, 2, 4):
    unit("cvPrepareNextStep order %d with quadratures and sensitivities" % q, lambda cx, q=q: prepare(cx, q, False, ALL))
