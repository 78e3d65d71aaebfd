"""cvStep: attempts, error tests, acceptance.  Callees by their contracts, over ghost state that records what has been done to the history;
the attempt loop by a loop contract (any number of attempts)."""
import z3
from . import eng, harness, loops
from .eng import *
from .run import Unit
from .cv import *
from .cv import frame as cvframe
from . import contracts as C
from .ctrl import norm, flag, F

UNITS = []
def unit(id, body, **k):
    UNITS.append(Unit(id, FILES, body, contracts=CT, **k))

NAMES = ["P", "SET", "NLS", "ET", "Q", "EQ", "S", "ES", "QS", "EQS", "ACC", "TRIED", "ADJ", "LC", "PREP", "STAB", "LOST", "FATAL"]
class G:
    """ghost variables"""
    def __init__(s, cx):
        s.cx = cx
        s.p = cx.intarr("ghost", len(NAMES))
        s.d = cx.realarr("ghost_d", 4)
        for n in NAMES:
            s[n] = 0
    def at(s, p, i):
        return Ptr(p.rid, (), (i,), "R", p.ety)
    def __getitem__(s, n):
        return zi(s.cx.read(s.p, NAMES.index(n)))
    def __setitem__(s, n, v):
        E = s.cx.E
        q = s.at(s.p, NAMES.index(n))
        E.st.mem[(q.rid, ())] = E.arr(q).write(Layer((), True, q.coords, v if isz(v) else z3.IntVal(v)))
    def dget(s, i):
        return zr(s.cx.read(s.d, i))
    def dset(s, i, v):
        E = s.cx.E
        q = s.at(s.d, i)
        E.st.mem[(q.rid, ())] = E.arr(q).write(Layer((), True, q.coords, v))

B = lambda c: z3.If(c, z3.IntVal(1), z3.IntVal(0))
def wr(E, p, v):
    E.st.mem[(p.rid, p.field)] = E.arr(p).write(Layer((), True, p.coords, v))

def step(cx, quadr, sens, qs, Ns=None, fix=None):
    E = cx.E
    def errcon(f):
        if fix and f in fix:
            cx.set(m.p, f, fix[f])
            return z3.BoolVal(bool(fix[f]))
        return flag(cx, m, f) == 1
    n = cx.N("N", 1)
    m = cvmem(cx, None, n, quadr=quadr, sensi=1 if sens else 0, quadr_sensi=qs, Ns=Ns)
    g = G(cx)
    q = z3.Int("q")
    E.assume(q >= 1); E.assume(q <= 12)
    cx.set(m.p, "cv_q", q); cx.set(m.p, "cv_L", q + 1)
    if sens:
        cx.set(m.p, "cv_ism", sens)
    ac = vecf(cx, m, "cv_acor")
    y, ft = vecf(cx, m, "cv_y"), vecf(cx, m, "cv_ftemp")
    on = dict(Q=False, S=False, QS=False)
    stag = sens in (2, 3)
    if quadr:
        on["Q"] = errcon("cv_errconQ")
        acq, ewq = vecf(cx, m, "cv_acorQ", m.NQ), vecf(cx, m, "cv_ewtQ", m.NQ)
        E.assume(m.NQ >= 1)
    if sens:
        on["S"] = errcon("cv_errconS") if stag else False
        acs, ews = famf(cx, m, "cv_acorS"), famf(cx, m, "cv_ewtS")
        scur = flag(cx, m, "cv_acnrmScur")
        if sens == 3:
            for f in ("cv_ncfS1", "cv_ncfnS1"):
                cx.set(m.p, f, cx.intarr(f, m.Ns))
    if qs:
        on["QS"] = errcon("cv_errconQS")
        acqs, ewqs = famf(cx, m, "cv_acorQS", m.NQ), famf(cx, m, "cv_ewtQS", m.NQ)
        if not quadr:
            E.assume(m.NQ >= 1)
    sld = flag(cx, m, "cv_sldeton")
    saved = z3.Real("saved_t")
    cx.set(m.p, "cv_tn", saved)
    nst, hp, h = now(cx, m, "cv_nst"), now(cx, m, "cv_hprime"), now(cx, m, "cv_h")
    hav = lambda f: cx.set(m.p, f, E.freal(f) if E.P.kind(cx.ftype(m.p, f)) == "real" else E.fint(f))
    tn = lambda: zr(now(cx, m, "cv_tn"))
    home = lambda: z3.And(g["P"] == 0, tn() == saved)

    def adjust(E, a):
        cx.ob("the method is adjusted only between steps", z3.And(g["TRIED"] == 0, g["P"] == 0))
        g["ADJ"] = 1
        for f in ("cv_h", "cv_hscale", "cv_next_h", "cv_q", "cv_L", "cv_qwait", "cv_nscon"):
            hav(f)
    def predict(E, a):
        cx.ob("an attempt starts from the history of the last accepted step", home())
        cx.ob("a pending step size change is made before the first attempt, once", g["ADJ"] == B(z3.And(nst > 0, hp != h)))
        for f in ("NLS", "ET", "Q", "EQ", "S", "ES", "QS", "EQS", "SET"):
            g[f] = 0
        g["P"] = 1
        hav("cv_tn")
    def cset(E, a):
        cx.ob("the coefficients are set for the predicted step", g["P"] == 1)
        g["SET"] = 1
        f = E.ffun("tq", 2, z3.RealSort())
        E.st.mem[(m.rid, ("cv_tq",))] = Arr(lambda c: f(*[zi(x) for x in c]))
    def result(nm, okflag):
        r = E.fint(nm)
        g["LC"] = r
        if okflag:
            g[okflag] = B(r == 0)
        return r
    def nls(E, a):
        nf = zi(a[1])
        cx.ob("the corrector works on a predicted step with its coefficients", z3.And(g["P"] == 1, g["SET"] == 1))
        cx.ob("the corrector is told whether the step was tried before", z3.If(g["TRIED"] == 0, nf == 6, z3.Or(nf == 7, nf == 8)))
        g["TRIED"] = 1
        hav("cv_acnrm")
        if sens:
            cx.set(m.p, "cv_acnrmScur", E.fint("scur")); hav("cv_acnrmS")
        return result("nls", "NLS")
    def back(E):
        g["P"] = 0
        cx.set(m.p, "cv_tn", saved)
        for f in ("cv_etamax",):
            hav(f)
    def handle(E, a):
        _, pf, sv, pc, pn = a
        cx.same("the time to go back to is that of the last accepted step", zr(sv), saved)
        nf = zi(cx.read(pf, 0))
        cx.ob("the outcome of the last solve is examined", nf == g["LC"])
        if E.branch(nf == 0):
            return 2
        cx.ob("there is a prediction to undo", g["P"] == 1)
        wr(E, pn, zi(cx.read(pn, 0)) + 1)
        back(E)
        c = E.fint("code")
        E.assume(c < 0)
        if E.branch(nf < 0):
            return c
        wr(E, pc, zi(cx.read(pc, 0)) + 1)
        if E.branch(E.fbool("gives_up")):
            return c
        wr(E, pf, z3.IntVal(7))
        for f in ("cv_h", "cv_hscale", "cv_next_h", "cv_eta", "cv_nscon"):
            hav(f)
        return 3
    STAGE = {"cv_netf": (0, "ET", "NLS"), "cv_netfQ": (1, "EQ", "Q"), "cv_netfS": (2, "ES", "S"), "cv_netfQS": (3, "EQS", "QS")}
    def etest(E, a):
        _, pf, sv, nrm, pe, pt, pd = a
        cx.same("the time to go back to is that of the last accepted step", zr(sv), saved)
        i, okf, need = STAGE[pt.field[0]]
        cx.ob("the error test follows a solved stage", z3.And(g["P"] == 1, g[need] == ((m.Ns if sens == 3 else 1) if need == "S" else 1)))
        nrm = zr(nrm)
        if i == 0:
            cx.same("error test on the norm of the state correction", nrm, zr(now(cx, m, "cv_acnrm")))
        elif i == 1:
            cx.same("error test on the norm of the quadrature correction", nrm, norm(cx, lambda t: zr(cx.el(acq, t, False)), ewq, m.NQ))
        elif i == 2:
            cx.same("error test on the norm of the sensitivity correction", nrm, z3.If(now(cx, m, "cv_acnrmScur") != 0, zr(now(cx, m, "cv_acnrmS")), SN))
        else:
            cx.same("error test on the norm of the quadrature sensitivity correction", nrm, QSN)
        d = nrm * fa(cx, m, "cv_tq", 2, False)
        dv = E.freal("dsm")
        E.assume(dv == d)
        wr(E, pd, dv)
        g.dset(i, dv)
        if E.branch(dv <= 1):
            g[okf] = 1
            return 0
        wr(E, pe, zi(cx.read(pe, 0)) + 1); wr(E, pt, zi(cx.read(pt, 0)) + 1); wr(E, pf, z3.IntVal(8))
        back(E)
        if E.branch(E.fbool("gives_up")):
            c = E.fint("code")
            E.assume(c < 0)
            return c
        for f in ("cv_h", "cv_hscale", "cv_next_h", "cv_eta", "cv_nscon", "cv_q", "cv_L", "cv_qwait"):
            hav(f)
        return 5
    state_done = lambda: z3.And(g["P"] == 1, g["NLS"] == 1, g["ET"] == 1)
    def quadnls(E, a):
        cx.ob("quadratures follow an accepted state", state_done())
        return result("quad", "Q")
    qdone = lambda: z3.And(g["Q"] == 1, z3.Implies(zb(on["Q"]), g["EQ"] == 1)) if quadr else z3.BoolVal(True)
    def stgr(E, a):
        cx.ob("staggered sensitivities follow accepted states and quadratures", z3.And(state_done(), qdone()))
        cx.set(m.p, "cv_acnrmScur", E.fint("scur")); hav("cv_acnrmS")
        return result("stgr", "S")
    def stgr1(E, a):
        cx.ob("staggered sensitivities follow accepted states and quadratures", z3.And(state_done(), qdone()))
        cx.ob("the sensitivities are solved one after the other", z3.And(zi(a[1]) == g["S"], zi(now(cx, m, "sens_solve_idx")) == zi(a[1])))
        r = E.fint("stgr1")
        g["LC"] = r
        g["S"] = g["S"] + B(r == 0)
        cx.set(m.p, "cv_acnrmScur", E.fint("scur")); hav("cv_acnrmS")
        return r
    sdone = lambda: z3.And(g["S"] == (m.Ns if sens == 3 else 1), z3.Implies(zb(on["S"]), g["ES"] == 1)) if stag else z3.BoolVal(True)
    def qsnls(E, a):
        cx.ob("quadrature sensitivities follow accepted states, quadratures and sensitivities", z3.And(state_done(), qdone(), sdone()))
        return result("qsens", "QS")
    SN, QSN = z3.Real("sens_norm"), z3.Real("quadsens_norm")
    def sn(E, a):
        cx.same("norm of the sensitivity correction", a[1], acs); cx.same("weights of the sensitivities", a[2], ews)
        return SN
    def qsn(E, a):
        cx.same("norm of the quadrature sensitivity correction", a[1], acqs); cx.same("weights of the quadrature sensitivities", a[2], ewqs)
        return QSN
    def ff(E, a):
        cx.ob("the right-hand side is evaluated at the corrected state of this step", z3.And(zr(a[0]) == tn(), g["P"] == 1, g["NLS"] == 1))
        cx.same("the right-hand side is evaluated at the corrected state", a[1], y)
        r = E.fint("f_returns")
        g["LC"] = z3.If(r > 0, z3.IntVal(9), g["LC"])
        g["FATAL"] = z3.If(r < 0, z3.IntVal(1), g["FATAL"])
        return r
    cx.set(m.p, "cv_f", user(cx, "user_f", ff))
    def restore(E, a):
        cx.ob("there is a prediction to undo", g["P"] == 1)
        g["P"] = 0
        cx.set(m.p, "cv_tn", zr(a[1]))
    qsdone = lambda: z3.And(g["QS"] == 1, z3.Implies(zb(on["QS"]), g["EQS"] == 1)) if qs else z3.BoolVal(True)
    def complete(E, a):
        cx.ob("a step is accepted only when it is solved and passes every enabled error test", z3.And(state_done(), qdone(), sdone(), qsdone(), g["ACC"] == 0))
        g["ACC"] = 1
        hav("cv_nst"); hav("cv_nscon"); hav("cv_qwait")
    def prepare(E, a):
        cx.ob("the next step is planned after this one is accepted", z3.And(g["ACC"] == 1, g["PREP"] == 0))
        w = g.dget(0)
        for i, k in ((1, "Q"), (2, "S"), (3, "QS")):
            if on[k] is not False:
                w = z3.If(z3.And(zb(on[k]), g.dget(i) > w), g.dget(i), w)
        cx.same("the next step is planned with the largest error estimate", zr(a[1]), w)
        g["PREP"] = 1
        for f in ("cv_eta", "cv_hprime", "cv_qprime", "cv_qwait"):
            hav(f)
    def stabf(E, a):
        cx.ob("stability limit detection follows the planning", g["PREP"] == 1)
        g["STAB"] = 1
        for f in ("cv_eta", "cv_hprime", "cv_qprime"):
            hav(f)
    for nm, fn in dict(cvAdjustParams=adjust, cvPredict=predict, cvSet=cset, cvNls=nls, cvHandleNFlag=handle, cvDoErrorTest=etest, cvQuadNls=quadnls, cvStgrNls=stgr,
            cvStgr1Nls=stgr1, cvQuadSensNls=qsnls, cvSensNorm=sn, cvQuadSensNorm=qsn, cvRestore=restore, cvCompleteStep=complete, cvPrepareNextStep=prepare, cvBDFStab=stabf).items():
        stub(cx, nm, fn, "%s by its contract over the ghost state of the step" % nm)
    flagvars = {}
    def inv(E):
        fr = E.frames[-1]
        out = [("the history and the time are those of the last accepted step", home()), ("the step is not accepted yet", z3.And(g["ACC"] == 0, g["PREP"] == 0, g["STAB"] == 0, g["FATAL"] == 0)),
            ("the step size change is made", g["ADJ"] == B(z3.And(nst > 0, hp != h))), ("tried or not", z3.Or(g["TRIED"] == 0, g["TRIED"] == 1))]
        # the variable that holds FIRST_CALL when the loop is entered
        if "rid" not in flagvars:
            for did, rid in fr["vars"].items():
                a = E.st.mem.get((rid, ()))
                if a is not None and E.P.kind(E.regions[rid].ety) == "int":
                    v = E.read_arr(a, (0,), False)
                    if isnum(v) and eqv(v, 6) is True:
                        flagvars["did"] = did
        did = flagvars.get("did")
        if did is not None:
            v = zi(E.read_arr(E.st.mem[(fr["vars"][did], ())], (0,), False))
            out.append(("the flag says whether the step was tried", z3.If(g["TRIED"] == 0, v == 6, z3.Or(v == 7, v == 8))))
        return out
    cfields = ["cv_tn", "cv_h", "cv_hscale", "cv_next_h", "cv_eta", "cv_etamax", "cv_nscon", "cv_q", "cv_L", "cv_qwait", "cv_tq", "cv_acnrm", "cv_ncfn", "cv_netf", "cv_nfe"]
    if quadr:
        cfields += ["cv_acnrmQ", "cv_netfQ"]
    if sens:
        cfields += ["cv_acnrmS", "cv_acnrmScur", "cv_netfS", "cv_ncfnS"] + (["sens_solve_idx"] if sens == 3 else [])
    if qs:
        cfields += ["cv_acnrmQS", "cv_netfQS"]
    mods = [(m.rid, (f,)) for f in cfields] + [(g.p.rid, ()), (g.d.rid, ())]
    if sens == 3:
        mods += [(now(cx, m, f).rid, ()) for f in ("cv_ncfS1", "cv_ncfnS1")]
    E.loopspecs["cvStep"] = loops.LoopSpec(inv, mods, lambda E, c, n: c is None or c.kind == "IntegerLiteral")
    E.st.snapg = None
    cx.start()
    r = zi(cx.fn("cvStep", [m.p], F))
    cx.ob("success means the step was accepted, failure that it was not", (r == 0) == (g["ACC"] == 1))
    if E.prove(g["ACC"] == 1, (), 3000)[0] is True:
        cx.ob("the accepted step was planned", g["PREP"] == 1)
        cx.ob("stability limit detection runs when it is on", (g["STAB"] == 1) == (sld == 1))
        cx.same("later steps may grow by a factor of 10", zr(now(cx, m, "cv_etamax")), 10)
        t2 = fa(cx, m, "cv_tq", 2, False)
        i = E.fint("i")
        E.assume(i >= 0)
        def scaled(nm, got, old, L):
            cx.ob(nm, z3.Implies(i < zi(L), got == t2 * old))
        scaled("acor becomes the estimated local error", zr(cx.el(ac, i, False)), zr(cx.el(ac, i)), m.N)
        if quadr:
            scaled("acorQ becomes the estimated local error", zr(cx.el(acq, i, False)), zr(cx.el(acq, i)), m.NQ)
        if sens or qs:
            s_ = E.fint("is")
            E.assume(s_ >= 0); E.assume(s_ < zi(m.Ns))
        if sens:
            scaled("acorS becomes the estimated local error", zr(cx.fel(acs, (s_, i), False)), zr(cx.fel(acs, (s_, i))), m.N)
        if qs:
            scaled("acorQS becomes the estimated local error", zr(cx.fel(acqs, (s_, i), False)), zr(cx.fel(acqs, (s_, i))), m.NQ)
    else:
        cx.ob("a failed step leaves the history and the time of the last accepted step", z3.Or(g["FATAL"] == 1, home()))
unit("cvStep", lambda cx: step(cx, 0, 0, 0))
unit("cvStep with quadratures", lambda cx: step(cx, 1, 0, 0))
unit("cvStep with simultaneous sensitivities", lambda cx: step(cx, 0, 1, 0))
unit("cvStep with staggered sensitivities", lambda cx: step(cx, 0, 2, 0))
def split(name, flags, body, **k):
    """one unit per setting of the error control flags"""
    for i in range(2 ** len(flags)):
        fx = {f: (i >> j) & 1 for j, f in enumerate(flags)}
        unit(name + ", error control on: " + (", ".join(f[9:] for f in flags if fx[f]) or "state only"), lambda cx, fx=fx: body(cx, fx), **k)
eQ, eS, eQS = "cv_errconQ", "cv_errconS", "cv_errconQS"
split("cvStep with quadratures and staggered sensitivities", (eQ,), lambda cx, fx: step(cx, 1, 2, 0, fix=fx))
split("cvStep with quadratures, staggered sensitivities and their quadratures", (eQ, eS, eQS), lambda cx, fx: step(cx, 1, 2, 1, fix=fx))
split("cvStep with quadratures, simultaneous sensitivities and their quadratures", (eQ, eQS), lambda cx, fx: step(cx, 1, 1, 1, fix=fx))
for ns in (1, 2):
    unit("cvStep with %d sensitivities solved one by one" % ns, lambda cx, ns=ns: step(cx, 0, 3, 0, ns), bounded="%d sensitivities" % ns)
split("cvStep with quadratures, 2 sensitivities solved one by one and their quadratures", (eQ, eS, eQS), lambda cx, fx: step(cx, 1, 3, 1, 2, fix=fx), bounded="2 sensitivities")
