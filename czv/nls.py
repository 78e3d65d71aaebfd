"""The corrector of one step: what the integrator asks of the nonlinear solver and what it does with the answer, the functions it gives the solver
(residual, fixed point map, linear setup and solve, convergence test) for each way of solving, the corrections of quadratures, the inequality constraints."""
import z3
from . import eng, harness
from .eng import *
from .run import Unit
from .cv import *
from .cv import frame as cvframe
from .ctrl import norm, flag, D, rabs, rmax, rmin

UNITS = []
CVF = "src/cvodes/cvodes.c"
NF = {"": "src/cvodes/cvodes_nls.c", "SensSim": "src/cvodes/cvodes_nls_sim.c", "SensStg": "src/cvodes/cvodes_nls_stg.c", "SensStg1": "src/cvodes/cvodes_nls_stg1.c"}
GEN = "src/sundials/sundials_nonlinearsolver.c"
def unit(id, body, extra=(), **k):
    UNITS.append(Unit(id, FILES + (GEN,) + tuple(extra), body, contracts=CT, **k))
NLS, OPS = "struct _generic_SUNNonlinearSolver", "struct _generic_SUNNonlinearSolver_Ops"

def solver(cx, name, ops):
    o = cx.struct(name + "_ops", OPS, ops)
    return cx.struct(name, NLS, dict(ops=o, content=NULL, sunctx=NULL))
def opaque(cx, name, const=None, wrms=None):
    """a vector known only by its operations"""
    o = cx.struct(name + "_ops", "struct _generic_N_Vector_Ops", dict(nvconst=const or NULL, nvwrmsnorm=wrms or NULL))
    return cx.struct(name, "struct _generic_N_Vector", dict(ops=o, content=NULL, sunctx=NULL))
def havoc(cx, rid):
    R = cx.E.regions[rid]
    f = cx.E.ffun(R.name, R.ncoord, z3.RealSort())
    cx.E.st.mem[(rid, ())] = Arr(lambda c: f(*[zi(x) for x in c]))
def havv(cx, *vs):
    for v in vs:
        havoc(cx, harness.v_data[v.rid] if v.rid in harness.v_data else harness.f_data[v.rid])
def hf(cx, m, *fs):
    for f in fs:
        cx.set(m.p, f, cx.E.freal(f) if cx.E.P.kind(cx.ftype(m.p, f)) == "real" else cx.E.fint(f))
def udata(cx, m, f="cv_user_data"):
    """distinct objects in the data fields of the block"""
    p = cx.realarr(f + "_object", 1)
    cx.set(m.p, f, p)
    return p
def index(cx, n, name="i"):
    i = cx.E.fint(name)
    cx.E.assume(i >= 0); cx.E.assume(i < zi(n))
    return i
def allof(cx, name, v, n, want, snap=False, Ns=None):
    """every element of a vector (of an array of vectors) now"""
    i = cx.E.fint("i")
    r = [i >= 0, i < zi(n)]
    if Ns is None:
        got, w = zr(cx.el(v, i, False)), want(i)
    else:
        k = cx.E.fint("k")
        r += [k >= 0, k < zi(Ns)]
        got, w = zr(cx.fel(v, (k, i), False)), want(k, i)
    cx.ob(name, z3.Implies(z3.And(*r), got == zr(w)))

# ---------------------------------------------------------------- the state (and simultaneous sensitivities)
def cvnls(cx, lset, setup, mode):
    """mode: 0 no sensitivities, 1 simultaneous, 2 staggered"""
    E = cx.E
    n = cx.N("N", 1)
    m = cvmem(cx, None, n, sensi=1 if mode else 0)
    sim = mode == 1
    if mode:
        cx.set(m.p, "cv_ism", mode)
    ac, y, ew, ft = (vecf(cx, m, f) for f in ("cv_acor", "cv_y", "cv_ewt", "cv_ftemp"))
    if mode:
        acS, yS, ewS, ftS = (famf(cx, m, f) for f in ("cv_acorS", "cv_yS", "cv_ewtS", "cv_ftempS"))
    nf = z3.Int("nflag")
    E.assume(z3.Or(nf == 6, nf == 7, nf == 8))
    cx.set(m.p, "cv_lsetup", FnVal("user_lsetup") if lset else NULL)
    errS = flag(cx, m, "cv_errconS")
    forced, cset, cur0 = flag(cx, m, "cv_forceSetup"), flag(cx, m, "cv_constraintsSet"), flag(cx, m, "cv_acnrmcur")
    nst, nstlp, msbp, gr, nni = (now(cx, m, f) for f in ("cv_nst", "cv_nstlp", "cv_msbp", "cv_gamrat", "cv_nni"))
    tq4 = fa(cx, m, "cv_tq", 4)
    done = dict(setup=0, solve=0, cons=0, r=None)
    z0, wsim = None, None
    WN = cx.real("combined_norm")
    if sim:
        def cconst(E, a):
            cx.same("the corrections of state and sensitivities start from one value", a[1], ycs)
            v = zr(a[0])
            for f in (ac, acS):
                d = harness.v_data.get(f.rid, harness.f_data.get(f.rid))
                E.st.mem[(d, ())] = Arr(lambda c: v)
        def cwrms(E, a):
            cx.same("norm of all corrections", a[0], ycs); cx.same("with all weights", a[1], wsim)
            return WN
        ycs = opaque(cx, "ycorSim", user(cx, "sw_const", cconst), user(cx, "sw_wrms", cwrms))
        z0, wsim = opaque(cx, "zn0Sim"), opaque(cx, "ewtSim")
        for f, v in (("ycorSim", ycs), ("zn0Sim", z0), ("ewtSim", wsim)):
            cx.set(m.p, f, v)
    def zero():
        allof(cx, "the correction starts at zero", ac, n, lambda i: 0)
        if sim:
            allof(cx, "the sensitivity corrections start at zero", acS, n, lambda k, i: 0, Ns=m.Ns)
    def fsetup(E, a):
        cx.same("setup of the solver in use", a[0], S)
        cx.same("setup with the correction", a[1], ycs if sim else ac)
        cx.same("setup with the integrator", a[2], m.p)
        done["setup"] += 1
        zero()
        r = E.fint("setup_returns")
        done["sr"] = r
        return r
    def fsolve(E, a):
        s_, p, c, w, tol, cs, mem = a
        cx.same("the solver in use", s_, S)
        cx.same("from the prediction", p, z0 if sim else cx.read(cx.fieldarr(m.p, "cv_zn"), 0))
        cx.same("the correction", c, ycs if sim else ac)
        cx.same("the weights", w, wsim if sim else ew)
        cx.same("the tolerance", zr(tol), tq4)
        cx.same("the integrator", mem, m.p)
        zero()
        if lset:
            want = z3.Or(nf == 7, nf == 8, nst == 0, nst >= nstlp + msbp, rabs(gr - 1) > D(.3), forced != 0)
            cx.ob("the linear solver is set up after a failure, at the first step, when too old, when gamma has changed too much, or when forced", (zi(cs) != 0) == want)
            cx.same("what is known about the last attempt", now(cx, m, "convfail"), z3.If(forced != 0, zi(2), z3.If(z3.Or(nf == 6, nf == 8), zi(0), zi(2))))
        else:
            cx.ob("no linear solver setup", zi(cs) == 0)
            cx.same("convergence rate", zr(now(cx, m, "cv_crate")), 1)
            cx.same("convergence rate of the sensitivities", zr(now(cx, m, "cv_crateS")), 1)
        cx.ob("set up first, if the solver has a setup", done["setup"] == (1 if setup else 0))
        done["solve"] += 1
        havv(cx, ac, y, ft)
        hf(cx, m, "cv_acnrm", "cv_jcur", "cv_crate", "cv_crateS", "cv_delp", "cv_nfe", "cv_gamrat", "cv_gammap", "cv_nstlp", "cv_nsetups", "convfail")
        cx.set(m.p, "cv_acnrmcur", E.fint("normcur"))
        if sim:
            havv(cx, acS, yS, ftS)
        done["r"] = E.fint("solve_returns")
        done["nrm"], done["cur"] = zr(now(cx, m, "cv_acnrm")), zi(now(cx, m, "cv_acnrmcur"))
        return done["r"]
    its = z3.Int("iterations")
    def fit(E, a):
        cx.same("iterations of the solver in use", a[0], S)
        E.store(a[1], its)
        return 0
    ops = dict(solve=user(cx, "nls_solve", fsolve), setup=user(cx, "nls_setup", fsetup) if setup else NULL, getnumiters=user(cx, "nls_iters", fit))
    S = solver(cx, "NLSsim" if sim else "NLS", ops)
    if sim:
        # the solver of the state alone may be any other one
        cx.set(m.p, "NLSsim", S)
        cx.set(m.p, "NLS", solver(cx, "NLS", dict(solve=FnVal("unused_solve"), setup=NULL, getnumiters=FnVal("unused_iters"))))
    else:
        cx.set(m.p, "NLS", S)
    def upd():
        """state and sensitivities from the correction"""
        allof(cx, "y is the prediction plus the correction", y, n, lambda i: znel_now(cx, m, (0, i)) + zr(cx.el(ac, i, False)))
        if sim:
            allof(cx, "yS is the prediction plus the correction", yS, n, lambda k, i: zr(cx.fel(m.znS, (0, k, i))) + zr(cx.fel(acS, (k, i), False)), Ns=m.Ns)
    def fcons(E, a):
        done["cons"] += 1
        upd()
        done["cr"] = E.fint("constraints_return")
        return done["cr"]
    stub(cx, "cvCheckConstraints", fcons, "cvCheckConstraints by its own contract")
    cx.start()
    r = zi(cx.fn("cvNls", [m.p, nf], CVF))
    if setup:
        cx.ob("the solver is set up once", done["setup"] == 1)
        if done["solve"] == 0:
            sr = done.get("sr", zi(0))
            cx.ob("no solve only if the setup failed", sr != 0)
            cx.same("a failed setup is reported", r, z3.If(sr < 0, zi(-14), zi(902)))
            return
        cx.ob("no solve after a failed setup", done.get("sr", zi(0)) == 0)
    cx.ob("one solve", done["solve"] == 1)
    cx.same("the iterations are counted", now(cx, m, "cv_nni"), nni + its)
    sr = done["r"]
    if done["cons"] == 0:
        cx.same("the outcome of the solve", r, sr)
        cx.ob("constraints are tested when there are any", z3.Implies(sr == 0, cset == 0))
    else:
        cx.ob("constraints are tested once, after a solve", z3.And(sr == 0, cset != 0, done["cons"] == 1))
        cx.same("the outcome of the constraint test", r, done["cr"])
    if E.prove(sr == 0, (), 3000)[0] is True:
        upd()
        w = z3.If(done["cur"] != 0, done["nrm"], z3.If(errS != 0, WN, norm(cx, lambda t: zr(cx.el(ac, t, False)), ew, n)) if sim else norm(cx, lambda t: zr(cx.el(ac, t, False)), ew, n))
        cx.same("the norm for the error test is that of the correction", zr(now(cx, m, "cv_acnrm")), w)
        cx.same("the Jacobian data is not current any more", now(cx, m, "cv_jcur"), 0)
    cvframe(cx, m, fields=("cv_acnrm", "cv_acnrmcur", "cv_jcur", "cv_crate", "cv_crateS", "cv_delp", "cv_nfe", "cv_gamrat", "cv_gammap", "cv_nstlp", "cv_nsetups", "convfail", "cv_nni"),
        scratch=[harness.v_data[v.rid] for v in (ac, y, ft)] + ([harness.f_data[v.rid] for v in (acS, yS, ftS)] if sim else []) + [m.cvals.rid, m.X.rid])
def znel_now(cx, m, c):
    return zr(cx.fel(m.zn, tuple(c)))
for lset in (0, 1):
    for setup in (0, 1):
        for mode, nm in ((0, "state"), (1, "state with simultaneous sensitivities"), (2, "state before staggered sensitivities")):
            unit("cvNls: %s, %s linear setup, %s solver setup" % (nm, "with" if lset else "without", "with" if setup else "without"), lambda cx, l=lset, s=setup, k=mode: cvnls(cx, l, s, k))

# ---------------------------------------------------------------- inequality constraints
def viol(c, x):
    return z3.Or(z3.And(c == 2, x <= 0), z3.And(c == 1, x < 0), z3.And(c == -1, x > 0), z3.And(c == -2, x >= 0))
def constraints(cx):
    E = cx.E
    n = cx.N("N", 1)
    m = cvmem(cx, None, n)
    c, y, ew, ac, ft, tv = (vecf(cx, m, f) for f in ("cv_constraints", "cv_y", "cv_ewt", "cv_acor", "cv_ftemp", "cv_tempv"))
    e = lambda v: (lambda i: zr(cx.el(v, i)))
    C_, Y, W, A = e(c), e(y), e(ew), e(ac)
    for v in (c, y, ew, ac):
        cx.el(v, 0)
    q = z3.Int("q")
    E.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), z3.And(W(q) > 0, z3.Or(*[C_(q) == k for k in (-2, -1, 0, 1, 2)])))))
    h, hmin, eta, tq4 = now(cx, m, "cv_h"), now(cx, m, "cv_hmin"), now(cx, m, "cv_eta"), fa(cx, m, "cv_tq", 4)
    E.assume(h != 0); E.assume(hmin >= 0)
    mask = lambda i: z3.If(viol(C_(i), Y(i)), zr(1), zr(0))
    strict = lambda i: z3.If(z3.Or(C_(i) >= D(1.5), C_(i) <= -D(1.5)), zr(1), zr(0))
    v = lambda i: mask(i) * (Y(i) - D(.1) * (strict(i) * C_(i) / W(i)))
    quot, zn0 = z3.Real("min_quotient"), lambda i: znel(cx, m.zn, (0, i))
    seen = dict(q=0)
    def minq(E, a):
        seen["q"] += 1
        i = E.fint("i")
        r = z3.And(i >= 0, i < n)
        cx.same("quotients of the prediction", a[0], cx.read(cx.fieldarr(m.p, "cv_zn"), 0))
        d = harness.v_data[a[1].rid]
        cx.ob("over how far the violated components moved", z3.Implies(r, zr(cx.cell(d, (i,), False)) == mask(i) * (zn0(i) - Y(i))))
        return quot
    stub(cx, "N_VMinQuotient", minq, "N_VMinQuotient by its contract (proved with the vector operations)")
    cx.start()
    g = Ghost([("ok", "bool")], 0, (True,), lambda t, gg: (z3.And(gg[0], z3.Not(viol(C_(t), Y(t)))),))
    E.ghosts = [g]
    E.assume(g.initfact())
    r = zi(cx.fn("cvCheckConstraints", [m.p], CVF))
    ok = g.at(n)[0]
    nrm = norm(cx, v, ew, n)
    small = nrm <= tq4
    atmin = rabs(h) <= hmin * D(1.000001)
    want = z3.If(ok, zi(0), z3.If(small, zi(0), z3.If(atmin, zi(-15), zi(10))))
    cx.same("passes; corrects a small violation; otherwise asks for a smaller step, or fails at the smallest", r, want)
    acd = harness.v_data[ac.rid]
    i = index(cx, n)
    cx.ob("a small violation is taken off the correction", zr(cx.el(ac, i, False)) == z3.If(z3.And(z3.Not(ok), small), A(i) - v(i), A(i)))
    e2 = rmax(rmax(D(.9) * quot, D(.1)), hmin / rabs(h))
    cx.same("the next ratio keeps the violated components on their side, not below 0.1 nor below the smallest step", zr(now(cx, m, "cv_eta")), z3.If(want == 10, e2, eta))
    cvframe(cx, m, fields=("cv_eta",), scratch=[acd, harness.v_data[ft.rid], harness.v_data[tv.rid]])
from .loops import Ghost
unit("cvCheckConstraints", constraints)

# ---------------------------------------------------------------- quadratures
def quadnls(cx, qs):
    E = cx.E
    n = cx.N("N", 1)
    m = cvmem(cx, None, n, quadr=1, quadr_sensi=qs, sensi=qs)
    if qs:
        famf(cx, m, "cv_yS")
    y, aq, yq, fq = vecf(cx, m, "cv_y"), vecf(cx, m, "cv_acorQ", m.NQ), vecf(cx, m, "cv_yQ", m.NQ), vecf(cx, m, "cv_ftempQ", m.NQ)
    ud, tn, h, rl1, nf = udata(cx, m), now(cx, m, "cv_tn"), now(cx, m, "cv_h"), now(cx, m, "cv_rl1"), now(cx, m, "cv_nfQe")
    got = {}
    def fQ(E, a):
        cx.ob("evaluated once", "r" not in got)
        cx.same("at the time of the step", zr(a[0]), tn); cx.same("at the corrected state", a[1], y); cx.same("with the user's data", a[3], ud)
        allof(cx, "at the corrected state, unchanged", y, n, lambda i: zr(cx.el(y, i)))
        f = E.ffun("fQ", 1, z3.RealSort())
        d = harness.v_data[a[2].rid]
        E.st.mem[(d, ())] = Arr(lambda c: f(zi(c[0])))
        got["f"] = f
        got["r"] = E.fint("fQ_returns")
        return got["r"]
    cx.set(m.p, "cv_fQ", user(cx, "user_fQ", fQ))
    cx.start()
    r = zi(cx.fn("cvQuadNls", [m.p], CVF))
    cx.ob("the right-hand side is evaluated", "r" in got)
    if "r" not in got:
        return
    fr, f = got["r"], got["f"]
    cx.same("the outcome", r, z3.If(fr < 0, zi(-31), z3.If(fr > 0, zi(11), zi(0))))
    cx.same("the evaluation is counted", now(cx, m, "cv_nfQe"), nf + 1)
    if E.prove(fr == 0, (), 3000)[0] is True:
        cor = lambda i: zr(rl1) * (zr(h) * f(i) - zr(cx.fel(m.znQ, (1, i))))
        allof(cx, "the correction solves the quadrature formula", aq, m.NQ, cor)
        allof(cx, "the quadratures are the prediction plus the correction", yq, m.NQ, lambda i: zr(cx.fel(m.znQ, (0, i))) + cor(i))
        if qs:
            allof(cx, "the rate is kept for the quadrature sensitivities", fq, m.NQ, lambda i: f(i))
    cvframe(cx, m, fields=("cv_nfQe",), scratch=[harness.v_data[v.rid] for v in (aq, yq)] + ([harness.v_data[fq.rid]] if qs else []))
unit("cvQuadNls", lambda cx: quadnls(cx, 0))
unit("cvQuadNls with quadrature sensitivities", lambda cx: quadnls(cx, 1))

def quadsensnls(cx):
    E = cx.E
    n = cx.N("N", 1)
    m = cvmem(cx, None, n, quadr=1, quadr_sensi=1, sensi=1)
    y, fq, tv, tq = vecf(cx, m, "cv_y"), vecf(cx, m, "cv_ftempQ", m.NQ), vecf(cx, m, "cv_tempv"), vecf(cx, m, "cv_tempvQ", m.NQ)
    yS, aq, yq = famf(cx, m, "cv_yS"), famf(cx, m, "cv_acorQS", m.NQ), famf(cx, m, "cv_yQS", m.NQ)
    udata(cx, m)
    ud, tn, h, rl1, nf = udata(cx, m, "cv_fQS_data"), now(cx, m, "cv_tn"), now(cx, m, "cv_h"), now(cx, m, "cv_rl1"), now(cx, m, "cv_nfQSe")
    got = {}
    def fQS(E, a):
        cx.ob("evaluated once", "r" not in got)
        cx.same("number of sensitivities", a[0], m.Ns); cx.same("at the time of the step", zr(a[1]), tn); cx.same("at the corrected state", a[2], y)
        cx.same("at the corrected sensitivities", a[3], yS); cx.same("with the rate of the quadratures", a[4], fq); cx.same("with the user's data", a[6], ud)
        cx.same("into the correction", a[5], aq)
        f = E.ffun("fQS", 2, z3.RealSort())
        d = harness.f_data[a[5].rid]
        E.st.mem[(d, ())] = Arr(lambda c: f(zi(c[0]), zi(c[1])))
        havv(cx, tv, tq)
        got["f"], got["r"] = f, E.fint("fQS_returns")
        return got["r"]
    cx.set(m.p, "cv_fQS", user(cx, "user_fQS", fQS))
    cx.start()
    r = zi(cx.fn("cvQuadSensNls", [m.p], CVF))
    cx.ob("the right-hand side is evaluated", "r" in got)
    if "r" not in got:
        return
    fr, f = got["r"], got["f"]
    cx.same("the outcome", r, z3.If(fr < 0, zi(-51), z3.If(fr > 0, zi(13), zi(0))))
    cx.same("the evaluation is counted", now(cx, m, "cv_nfQSe"), nf + 1)
    if E.prove(fr == 0, (), 3000)[0] is True:
        cor = lambda k, i: zr(rl1) * (zr(h) * f(k, i) - zr(cx.fel(m.znQS, (1, k, i))))
        allof(cx, "the corrections solve the quadrature formula", aq, m.NQ, cor, Ns=m.Ns)
        allof(cx, "the quadrature sensitivities are the prediction plus the correction", yq, m.NQ, lambda k, i: zr(cx.fel(m.znQS, (0, k, i))) + cor(k, i), Ns=m.Ns)
    cvframe(cx, m, fields=("cv_nfQSe",), scratch=[harness.f_data[v.rid] for v in (aq, yq)] + [harness.v_data[v.rid] for v in (tv, tq)])
unit("cvQuadSensNls", quadsensnls)

# ---------------------------------------------------------------- staggered sensitivities
def stgr(cx, one, lset):
    E = cx.E
    n = cx.N("N", 1)
    m = cvmem(cx, None, n, sensi=1)
    cx.set(m.p, "cv_ism", 3 if one else 2)
    y, ft = vecf(cx, m, "cv_y"), vecf(cx, m, "cv_ftemp")
    aS, yS, eS, fS = (famf(cx, m, f) for f in ("cv_acorS", "cv_yS", "cv_ewtS", "cv_ftempS"))
    is_ = z3.Int("is")
    E.assume(is_ >= 0); E.assume(is_ < m.Ns)
    cx.set(m.p, "cv_lsetup", FnVal("user_lsetup") if lset else NULL)
    tq4 = fa(cx, m, "cv_tq", 4)
    z0, ws = opaque(cx, "zn0Stg"), opaque(cx, "ewtStg")
    d_aS = harness.f_data[aS.rid]
    def cconst(E, a):
        cx.same("the corrections of all sensitivities start from one value", a[1], yc)
        v = zr(a[0])
        E.st.mem[(d_aS, ())] = Arr(lambda c: v)
    yc = opaque(cx, "ycorStg", user(cx, "sw_const", cconst))
    for f, v in (("ycorStg", yc), ("zn0Stg", z0), ("ewtStg", ws)):
        cx.set(m.p, f, v)
    its = z3.Int("iterations")
    done = dict(solve=0)
    K = [] if one else [z3.Int("k")]
    def which(fam, now_, i, k):
        return zr(cx.fel(fam, (is_ if one else k, i), not now_))
    def each(name, fam, want):
        if one:
            i = E.fint("i")
            cx.ob(name, z3.Implies(z3.And(i >= 0, i < n), zr(cx.fel(fam, (is_, i), False)) == want(is_, i)))
        else:
            allof(cx, name, fam, n, want, Ns=m.Ns)
    fld = "NLSstg1" if one else "NLSstg"
    def fsolve(E, a):
        s_, p, c, w, tol, cs, mem = a
        vat = lambda f: cx.read(cx.at(f, is_), 0)
        cx.same("the solver in use", s_, S)
        cx.same("from the prediction", p, cx.read(cx.at(cx.read(cx.fieldarr(m.p, "cv_znS"), 0), is_), 0) if one else z0)
        cx.same("the correction", c, vat(aS) if one else yc)
        cx.same("the weights", w, vat(eS) if one else ws)
        cx.same("the tolerance", zr(tol), tq4)
        cx.ob("no linear solver setup is asked for", zi(cs) == 0)
        cx.same("the integrator", mem, m.p)
        cx.ob("callbacks can see that sensitivities are solved", zi(now(cx, m, "sens_solve")) == 1)
        if not lset:
            cx.same("convergence rate", zr(now(cx, m, "cv_crateS")), 1)
        each("the correction starts at zero", aS, lambda k, i: zr(0))
        done["solve"] += 1
        if one:
            f = E.ffun("acorS", 1, z3.RealSort())
            t = E.fint("t")
            E.st.mem[(d_aS, ())] = E.arr(Ptr(d_aS, (), (is_, 0), "R", "double")).write(Layer((t,), z3.And(t >= 0, t < n), (is_, t), f(t)))
            for v in (yS, fS):
                d = harness.f_data[v.rid]
                g = E.ffun("other", 1, z3.RealSort())
                u = E.fint("t")
                E.st.mem[(d, ())] = E.arr(Ptr(d, (), (is_, 0), "R", "double")).write(Layer((u,), z3.And(u >= 0, u < n), (is_, u), g(u)))
        else:
            havv(cx, aS, yS, fS)
        hf(cx, m, "cv_acnrmS", "cv_jcur", "cv_crateS", "cv_crate", "cv_delp", "cv_gamrat", "cv_gammap", "cv_nstlp", "cv_nsetups", "cv_nsetupsS", "convfail", "cv_acnrmScur")
        done["r"] = E.fint("solve_returns")
        return done["r"]
    def fit(E, a):
        cx.same("iterations of the solver in use", a[0], S)
        E.store(a[1], its)
        return 0
    S = solver(cx, fld, dict(solve=user(cx, "nls_solve", fsolve), getnumiters=user(cx, "nls_iters", fit), setup=NULL))
    cx.set(m.p, fld, S)
    cx.set(m.p, "NLS", solver(cx, "NLS", dict(solve=FnVal("unused_solve"), setup=NULL, getnumiters=FnVal("unused_iters"))))
    if one:
        cnt = cx.intarr("nniS1", m.Ns)
        cx.set(m.p, "cv_nniS1", cnt)
    nn = now(cx, m, "cv_nniS")
    cx.start()
    r = zi(cx.fn("cvStgr1Nls" if one else "cvStgrNls", [m.p, is_] if one else [m.p], CVF))
    cx.ob("one solve", done["solve"] == 1)
    if not done["solve"]:
        return
    cx.same("the outcome of the solve", r, done["r"])
    cx.ob("the solve is over", zi(now(cx, m, "sens_solve")) == 0)
    if E.prove(done["r"] == 0, (), 3000)[0] is True:
        each("the sensitivity is the prediction plus the correction", yS, lambda k, i: zr(cx.fel(m.znS, (0, k, i))) + zr(cx.fel(aS, (k, i), False)))
        cx.same("the Jacobian data is not current any more", now(cx, m, "cv_jcur"), 0)
    data = {}
    if one:
        old = cx.snap
        data[cnt.rid] = lambda c: z3.If(c[0] == is_, cx.cell(cnt.rid, c) + its, cx.cell(cnt.rid, c))
        for v in (aS, yS, fS):
            d = harness.f_data[v.rid]
            cur = E.st.mem[(d, ())]
            data[d] = lambda c, d=d: z3.If(c[0] == is_, zr(cx.cell(d, c, False)), zr(cx.cell(d, c)))
    else:
        cx.same("the iterations are counted", now(cx, m, "cv_nniS"), nn + its)
    cvframe(cx, m, data, fields=("cv_acnrmS", "cv_jcur", "cv_crateS", "cv_crate", "cv_delp", "cv_gamrat", "cv_gammap", "cv_nstlp", "cv_nsetups", "cv_nsetupsS", "convfail", "cv_acnrmScur", "sens_solve") + (() if one else ("cv_nniS",)),
        scratch=([] if one else [harness.f_data[v.rid] for v in (aS, yS, fS)]) + [m.cvals.rid, m.X.rid])
for one in (0, 1):
    for lset in (0, 1):
        unit("%s, %s linear setup" % ("cvStgr1Nls" if one else "cvStgrNls", "with" if lset else "without"), lambda cx, o=one, l=lset: stgr(cx, o, l))

# ---------------------------------------------------------------- what the integrator gives the solver
SW = ("src/sundials/sundials_nvector_senswrapper.c",)
KINDS = ("", "SensSim", "SensStg", "SensStg1")
TITLE = {"": "state", "SensSim": "simultaneous", "SensStg": "staggered", "SensStg1": "one by one"}
class W:
    """a correction vector of one way of solving: get(i) of the state part, gets(k, i) of sensitivity part k"""
    def __init__(s, cx, m, kind, name):
        s.cx, s.m, s.kind = cx, m, kind
        s.plain = kind in ("", "SensStg1")
        if s.plain:
            s.v = cx.vec(name, m.N)
            s.rid = harness.v_data[s.v.rid]
            cx.cell(s.rid, (0,))
        else:
            s.nv = simp(zi(m.Ns) + 1) if kind == "SensSim" else m.Ns
            s.fam = cx.fam(name, [s.nv], m.N)
            s.rid = harness.f_data[s.fam.rid]
            c = cx.struct(name + "_wrap", "struct _N_VectorContent_SensWrapper", dict(vecs=s.fam, nvecs=s.nv, own_vecs=0))
            s.v = cx.struct(name + "_sw", "struct _generic_N_Vector", dict(content=c, ops=NULL if not hasattr(m, "swops") else m.swops, sunctx=NULL))
            cx.cell(s.rid, (0, 0))
        s.o = 1 if kind == "SensSim" else 0
    def get(s, i, snap=True):
        return zr(s.cx.cell(s.rid, (0, i) if s.kind == "SensSim" else (i,), snap))
    def gets(s, k, i, snap=True):
        return zr(s.cx.cell(s.rid, (i,) if s.plain else (simp(zi(k) + s.o), i), snap))
    def vec(s):
        """the state vector"""
        return s.v if s.plain else s.cx.read(s.fam, 0)
    def arr(s):
        """the array of sensitivity vectors"""
        return s.cx.at(s.fam, s.o) if s.o else s.fam

def block(cx, kind):
    E = cx.E
    n = cx.N("N", 1)
    m = cvmem(cx, None, n, sensi=1 if kind else 0)
    for f in ("cv_y", "cv_ftemp", "cv_ewt", "cv_vtemp1", "cv_vtemp2", "cv_vtemp3"):
        setattr(m, f[3:], vecf(cx, m, f))
    m.isx = None
    if kind:
        for f in ("cv_yS", "cv_ftempS", "cv_ewtS", "cv_acorS"):
            setattr(m, f[3:], famf(cx, m, f))
        if kind == "SensStg1":
            m.isx = z3.Int("is")
            E.assume(m.isx >= 0); E.assume(m.isx < m.Ns)
            cx.set(m.p, "sens_solve_idx", m.isx)
        else:
            cx.set(m.p, "sens_solve_idx", z3.Int("idx"))
    return m
st_part = lambda k: k in ("", "SensSim")
def zS(cx, m, j, k, i):
    return zr(cx.fel(m.znS, (j, k, i)))
RHSF = dict(nls_f="nfe")
def rhs_user(cx, m, got, outs):
    """the user's right-hand side: outs are the vectors it may be given for its result"""
    E = cx.E
    ud = udata(cx, m)
    tn = now(cx, m, "cv_tn")
    want = got["y"]
    def f(E, a):
        cx.ob("the right-hand side is evaluated once", got["fe"] == 0)
        got["fe"] += 1
        cx.same("at the time of the step", zr(a[0]), tn); cx.same("at the current state", a[1], m.y); cx.same("with the user's data", a[3], ud)
        allof(cx, "at the prediction plus the current correction", m.y, m.N, want)
        F_ = E.ffun("f", 1, z3.RealSort())
        v = a[2]
        if v.rid in harness.v_data:
            d, pre = harness.v_data[v.rid], ()
        else:
            d, pre = got["famdata"](v)
        t = E.fint("t")
        E.st.mem[(d, ())] = E.arr(Ptr(d, (), pre + (0,), "R", "double")).write(Layer((t,), z3.And(t >= 0, t < m.N), pre + (t,), F_(t)))
        got["f"], got["fv"], got["fr"] = F_, v, E.fint("f_returns")
        return got["fr"]
    cx.set(m.p, "nls_f", user(cx, "user_f", f))
    cx.set(m.p, "cv_f", FnVal("another_f"))
def sens_rhs(cx, m, got, kind, fout, sout):
    """cvSensRhsWrapper / cvSensRhs1Wrapper: arbitrary result; what they are given is checked"""
    E = cx.E
    tn = now(cx, m, "cv_tn")
    one = kind == "SensStg1"
    def body(E, a):
        if one:
            p, t, y, fy, k, yS, fS, t1, t2 = a
            cx.same("the sensitivity being solved", k, m.isx)
            cx.same("its current value", yS, cx.read(cx.at(m.yS, m.isx), 0))
            d, pre = got["sdata"](fS)
        else:
            p, t, y, fy, yS, fS, t1, t2 = a
            cx.same("the current sensitivities", yS, m.yS)
            d, pre = got["sdata"](fS)
        cx.ob("the sensitivity right-hand side is evaluated once", got["se"] == 0)
        got["se"] += 1
        cx.same("of this integrator", p, m.p); cx.same("at the time of the step", zr(t), tn); cx.same("at the current state", y, m.y)
        got["fycur"] = fy
        if one:
            i = E.fint("i")
            cx.ob("sensitivity: prediction plus the current correction", z3.Implies(z3.And(i >= 0, i < m.N), zr(cx.fel(m.yS, (m.isx, i), False)) == got["yS"](m.isx, i)))
        else:
            allof(cx, "sensitivities: prediction plus the current correction", m.yS, m.N, got["yS"], Ns=m.Ns)
        if st_part(kind):
            i = E.fint("i")
            cx.ob("with the right-hand side at that state", z3.Implies(z3.And(i >= 0, i < m.N), vel(cx, got, fy, i) == got["f"](i)))
        else:
            cx.same("with the right-hand side at the accepted state", fy, m.ftemp)
        G_ = E.ffun("fS", 2, z3.RealSort())
        t_, k_ = E.fint("t"), E.fint("k")
        if one:
            val = G_(m.isx, t_)
            E.st.mem[(d, ())] = E.arr(Ptr(d, (), pre + (0,), "R", "double")).write(Layer((t_,), z3.And(t_ >= 0, t_ < m.N), pre + (t_,), val))
        else:
            E.st.mem[(d, ())] = E.arr(Ptr(d, (), (0, 0), "R", "double")).write(Layer((k_, t_), z3.And(t_ >= 0, t_ < m.N, k_ >= 0, k_ < m.Ns), (simp(k_ + pre[0]), t_), G_(k_, t_)))
        havv(cx, m.vtemp1, m.vtemp2)
        got["g"], got["sr"] = G_, E.fint("fS_returns")
        return got["sr"]
    stub(cx, "cvSensRhs1Wrapper" if one else "cvSensRhsWrapper", body, "the sensitivity right-hand side wrappers by their contract (proved below)")
def vel(cx, got, v, i):
    """element i of a vector that may be a member of a family"""
    if v.rid in harness.v_data:
        return zr(cx.el(v, i, False))
    d, pre = got["famdata"](v)
    return zr(cx.cell(d, pre + (i,), False))
def system(cx, kind, fp):
    """residual F(c) = rl1 zn1 + c - gamma f(tn, zn0 + c); fixed point map G(c) = rl1 (h f(tn, zn0 + c) - zn1)"""
    E = cx.E
    m = block(cx, kind)
    yc, rs = W(cx, m, kind, "ycor"), W(cx, m, kind, "res")
    got = dict(fe=0, se=0, y=lambda i: znel(cx, m.zn, (0, i)) + yc.get(i), yS=lambda k, i: zS(cx, m, 0, k, i) + yc.gets(k, i))
    fams = {}
    def famdata(v):
        # member of a wrapper: the vector region of the family and its index
        vecs = {cx.read(w.fam, 0).rid: w.rid for w in (yc, rs) if not w.plain}
        if v.rid in vecs:
            return vecs[v.rid], tuple(v.coords)
        raise Unsupported("vector")
    got["famdata"] = famdata
    def sdata(v):
        if kind == "SensStg1":
            vecs = {cx.read(m.ftempS, 0).rid: harness.f_data[m.ftempS.rid]}
            if v.rid in harness.v_data:
                return harness.v_data[v.rid], ()
            if v.rid in vecs:
                return vecs[v.rid], tuple(v.coords)
            raise Unsupported("vector")
        if v.rid in harness.f_data:
            d = harness.f_data[v.rid]
            return d, (v.coords[-1],)
        raise Unsupported("vectors")
    got["sdata"] = sdata
    if st_part(kind):
        rhs_user(cx, m, got, None)
    if kind:
        sens_rhs(cx, m, got, kind, None, None)
    rl1, gam, h = now(cx, m, "cv_rl1"), now(cx, m, "cv_gamma"), now(cx, m, "cv_h")
    nfe = now(cx, m, "cv_nfe")
    ftold = lambda i: zr(cx.el(m.ftemp, i))
    if kind:
        cx.fel(m.ftempS, (0, 0))
    cx.el(m.ftemp, 0)
    cx.start()
    fn = "cvNls%s%s" % ("FPFunction" if fp else "Residual", kind)
    r = zi(cx.fn(fn, [yc.v, rs.v, m.p], NF[kind]))
    want = zi(0)
    if kind:
        sr = got.get("sr")
        if sr is not None:
            want = z3.If(sr < 0, zi(-41), z3.If(sr > 0, zi(12), zi(0)))
    if st_part(kind):
        fr = got.get("fr")
        cx.ob("the right-hand side is evaluated", fr is not None)
        if fr is None:
            return
        cx.same("the evaluation is counted", now(cx, m, "cv_nfe"), nfe + 1)
        if kind:
            cx.ob("sensitivities are evaluated if and only if the state could be", zb(got["se"] == 1) == (fr == 0))
        want = z3.If(fr < 0, zi(-8), z3.If(fr > 0, zi(9), want))
    else:
        cx.ob("the sensitivity right-hand side is evaluated", got["se"] == 1)
    cx.same("the outcome", r, want)
    if E.prove(r == 0, (), 3000)[0] is True:
        z1 = lambda i: znel(cx, m.zn, (1, i))
        S1 = lambda k, i: zS(cx, m, 1, k, i)
        def out(c, z, f):
            return rl1 * (h * f - z) if fp else rl1 * z + c - gam * f
        i = E.fint("i")
        k = m.isx if m.isx is not None else E.fint("k")
        R = z3.And(i >= 0, i < m.N)
        if st_part(kind):
            cx.ob("the fixed point map of the state" if fp else "the residual of the state", z3.Implies(R, rs.get(i, False) == out(yc.get(i), z1(i), got["f"](i))))
            if not fp:
                cx.ob("the right-hand side is left for the linear solver", z3.Implies(R, zr(cx.el(m.ftemp, i, False)) == got["f"](i)))
        if kind:
            cx.ob("the fixed point map of the sensitivities" if fp else "the residual of the sensitivities",
                z3.Implies(z3.And(R, k >= 0, k < m.Ns), rs.gets(k, i, False) == out(yc.gets(k, i), S1(k, i), got["g"](k, i))))
    sc = [rs.rid]
    if kind:
        sc += [harness.f_data[m.yS.rid], harness.f_data[m.ftempS.rid]]
    if st_part(kind):
        sc += [harness.v_data[v.rid] for v in (m.y, m.ftemp)]
    if kind:
        sc += [harness.v_data[v.rid] for v in (m.vtemp1, m.vtemp2)]
    cvframe(cx, m, fields=("cv_nfe",) if st_part(kind) else (), scratch=sc + [m.cvals.rid, m.X.rid])
for kind in KINDS:
    for fp in (0, 1):
        unit("%s (%s)" % ("fixed point map" if fp else "residual", TITLE[kind]), lambda cx, k=kind, f=fp: system(cx, k, f), (NF[kind],) + SW)

def lsetup(cx, kind):
    E = cx.E
    m = block(cx, kind)
    cf = now(cx, m, "convfail")
    jb = z3.Int("jbad")
    E.assume(z3.Or(jb == 0, jb == 1))
    jc = cx.intarr("jcur", 1)
    got = dict(n=0)
    def ls(E, a):
        got["n"] += 1
        cx.same("the linear solver of this integrator", a[0], m.p)
        cx.same("told that the Jacobian is bad, or what is known about the last attempt", a[1], z3.If(jb == 1, zi(1), cf))
        cx.same("at the current state", a[2], m.y); cx.same("with the right-hand side there", a[3], m.ftemp)
        got["j"] = E.fint("jcur_now")
        E.store(a[4], got["j"])
        for q, v in zip(a[5:8], (m.vtemp1, m.vtemp2, m.vtemp3)):
            cx.same("work space", q, v)
        got["r"] = E.fint("lsetup_returns")
        return got["r"]
    cx.set(m.p, "cv_lsetup", user(cx, "user_lsetup", ls))
    n0, n1, gamma, nst, fs = (now(cx, m, f) for f in ("cv_nsetups", "cv_nsetupsS", "cv_gamma", "cv_nst", "cv_forceSetup"))
    cx.start()
    r = zi(cx.fn("cvNlsLSetup" + kind, [jb, jc, m.p], NF[kind]))
    cx.ob("one setup", got["n"] == 1)
    if not got["n"]:
        return
    sr = got["r"]
    cx.same("the outcome", r, z3.If(sr < 0, zi(-6), z3.If(sr > 0, zi(902), zi(0))))
    cx.same("whether the Jacobian is current", cx.read(jc, 0), got["j"])
    w = dict(cv_gamrat=1, cv_gammap=gamma, cv_crate=1, cv_crateS=1, cv_nstlp=nst, cv_nsetups=n0 + 1, cv_nsetupsS=n1 + (0 if st_part(kind) else 1), convfail=z3.If(jb == 1, zi(1), cf), cv_jcur=got["j"])
    if st_part(kind):
        w["cv_forceSetup"] = 0
    scalars(cx, m, w)
    cvframe(cx, m, fields=list(w), scratch=[jc.rid])
def lsolve(cx, kind):
    E = cx.E
    m = block(cx, kind)
    d = W(cx, m, kind, "delta")
    R_ = E.ffun("lsolve_returns", 1, z3.IntSort())
    X_ = E.ffun("solution", 2, z3.RealSort())
    def ls(E, a):
        # which system: 0 for the state, 1 + k for sensitivity k
        cx.same("the linear solver of this integrator", a[0], m.p)
        cx.same("at the current state", a[3], m.y); cx.same("with the right-hand side there", a[4], m.ftemp)
        if kind == "":
            cx.same("the right-hand side of the system", a[1], d.v); cx.same("with the weights of the state", a[2], m.ewt)
            key, pre = zi(0), ()
        elif kind == "SensStg1":
            cx.same("the right-hand side of the system", a[1], d.v); cx.same("with the weights of that sensitivity", a[2], cx.read(cx.at(m.ewtS, m.isx), 0))
            key, pre = zi(m.isx) + 1, ()
        else:
            if a[1].rid != cx.read(d.fam, 0).rid:
                raise Unsupported("another vector")
            c = zi(a[1].coords[-1])
            pre = (a[1].coords[-1],)
            key = simp(c + (1 - d.o))
            if a[2].rid == m.ewt.rid:
                cx.ob("the state is solved with its weights", key == 0)
            else:
                cx.same("a sensitivity is solved with its weights", a[2], cx.read(cx.at(m.ewtS, simp(key - 1)), 0))
        t = E.fint("t")
        E.st.mem[(d.rid, ())] = E.arr(Ptr(d.rid, (), pre + (0,), "R", "double")).write(Layer((t,), z3.And(t >= 0, t < m.N), pre + (t,), X_(key, t)))
        if E.st.wlog is not None:
            E.st.wlog.append((Ptr(d.rid, (), pre + (t,), "R", "double"),))
        return R_(key)
    cx.set(m.p, "cv_lsolve", user(cx, "user_lsolve", ls))
    code = lambda x: z3.If(x < 0, zi(-7), z3.If(x > 0, zi(902), zi(0)))
    cx.start()
    r = zi(cx.fn("cvNlsLSolve" + kind, [d.v, m.p], NF[kind]))
    i = index(cx, m.N)
    if kind == "":
        cx.same("the outcome", r, code(R_(0)))
        cx.ob("the correction is the solution", d.get(i, False) == X_(0, i))
    elif kind == "SensStg1":
        cx.same("the outcome", r, code(R_(m.isx + 1)))
        cx.ob("the correction is the solution", d.gets(0, i, False) == X_(m.isx + 1, i))
    else:
        k = E.fint("k")
        K = z3.And(k >= 0, k < m.Ns)
        # success means every system was solved; failure that one was not
        lo = 0 if kind == "SensSim" else 1
        j = E.fint("j")
        cx.ob("success means that every system was solved", z3.Implies(z3.And(r == 0, j >= lo, j <= m.Ns), R_(j) == 0))
        if E.prove(r == 0, (), 3000)[0] is True:
            cx.ob("every sensitivity correction is the solution", z3.Implies(K, d.gets(k, i, False) == X_(k + 1, i)))
            if lo == 0:
                cx.ob("the state correction is the solution", d.get(i, False) == X_(0, i))
        else:
            cx.ob("the outcome is a failure of the linear solver", z3.Or(r == -7, r == 902))
    cvframe(cx, m, scratch=[d.rid])
for kind in KINDS:
    unit("linear setup (%s)" % TITLE[kind], lambda cx, k=kind: lsetup(cx, k), (NF[kind],) + SW)
    unit("linear solve (%s)" % TITLE[kind], lambda cx, k=kind: lsolve(cx, k), (NF[kind],) + SW)

def convtest(cx, kind):
    E = cx.E
    m = block(cx, kind)
    yc, de, ew = W(cx, m, kind, "ycor"), W(cx, m, kind, "delta"), W(cx, m, kind, "weights")
    tol, mm = cx.real("tol"), z3.Int("m")
    E.assume(mm >= 0); E.assume(tol > 0)
    S = solver(cx, "theNLS", dict(getcuriter=user(cx, "nls_curiter", lambda E, a: (cx.same("the iteration of this solver", a[0], S), E.store(a[1], mm), zi(0))[2])))
    stg = kind in ("SensStg", "SensStg1")
    crf = "cv_crateS" if stg else "cv_crate"
    cr, dp = now(cx, m, crf), now(cx, m, "cv_delp")
    E.assume(dp > 0)
    errS = flag(cx, m, "cv_errconS") if kind else None
    an, anc, aS, aSc = (now(cx, m, f) for f in ("cv_acnrm", "cv_acnrmcur", "cv_acnrmS", "cv_acnrmScur"))
    wn = lambda v, w: norm2(cx, lambda t: v.get(t), lambda t: w.get(t), m.N)
    DS, CS, CALL = cx.real("sens_norm_delta"), cx.real("sens_norm_ycor"), cx.real("combined_norm_ycor")
    if kind in ("SensSim", "SensStg"):
        def sn(E, a):
            cx.same("norm of the sensitivities", a[0], m.p)
            cx.same("with the weights of the sensitivities", a[2], ew.arr())
            if isinstance(a[1], Ptr) and a[1].rid == de.arr().rid:
                cx.same("of all sensitivity corrections", a[1], de.arr())
                return DS
            cx.same("of all sensitivity corrections", a[1], yc.arr())
            return CS
        stub(cx, "cvSensNorm", sn, "cvSensNorm by its contract (proved below)")
    if kind == "SensSim":
        # the norm of the wrapper
        def wr_(E, a):
            cx.same("norm of all corrections", a[0], yc.v); cx.same("with all weights", a[1], ew.v)
            return CALL
        o = cx.struct("sw_ops", "struct _generic_N_Vector_Ops", dict(nvwrmsnorm=user(cx, "sw_wrms", wr_)))
        for w in (yc, de, ew):
            cx.set(w.v, "ops", o)
    cx.start()
    r = zi(cx.fn("cvNlsConvTest" + kind, [S, yc.v, de.v, tol, ew.v, m.p], NF[kind]))
    if kind == "":
        dl = wn(de, ew)
    elif kind == "SensStg1":
        dl = norm2(cx, lambda t: de.gets(0, t), lambda t: ew.gets(0, t), m.N)
    elif kind == "SensStg":
        dl = DS
    else:
        dl = rmax(wn(de, ew), DS)
    c1 = z3.If(mm > 0, rmax(D(.3) * cr, dl / dp), cr)
    dcon = dl * rmin(zr(1), c1) / tol
    conv, div = dcon <= 1, z3.And(mm >= 1, dl > 2 * dp)
    cx.same("converged, diverging, or another iteration", r, z3.If(conv, zi(0), z3.If(div, zi(902), zi(901))))
    w = {crf: c1, "cv_delp": z3.If(r == 901, dl, dp)}
    if kind == "":
        w["cv_acnrm"] = z3.If(conv, z3.If(mm == 0, dl, wn(yc, ew)), an)
        w["cv_acnrmcur"] = z3.If(conv, zi(1), anc)
    elif kind == "SensSim":
        w["cv_acnrm"] = z3.If(conv, z3.If(mm == 0, z3.If(errS != 0, dl, wn(de, ew)), z3.If(errS != 0, CALL, wn(yc, ew))), an)
        w["cv_acnrmcur"] = z3.If(conv, zi(1), anc)
    elif kind == "SensStg":
        w["cv_acnrmS"] = z3.If(z3.And(conv, errS != 0), z3.If(mm == 0, DS, CS), aS)
        w["cv_acnrmScur"] = z3.If(z3.And(conv, errS != 0), zi(1), aSc)
    scalars(cx, m, w)
    cvframe(cx, m, fields=list(w))
def norm2(cx, f, w, n):
    from . import contracts as C
    fn, t = C.dsum(cx.E, 0, n, lambda t: (f(t) * w(t)) * (f(t) * w(t)))
    return C.sq_root(fn(zi(n)) / zr(n))
for kind in KINDS:
    unit("convergence test (%s)" % TITLE[kind], lambda cx, k=kind: convtest(cx, k), (NF[kind],) + SW)

# ---------------------------------------------------------------- attaching the functions
FLD = {"": "NLS", "SensSim": "NLSsim", "SensStg": "NLSstg", "SensStg1": "NLSstg1"}
def fname(cx, n, kind):
    if cx.E.P.find_any(n) is None:
        raise Unsupported("function %s does not exist" % n)
    return FnVal(n)
def nlsinit(cx, kind, ls, sv):
    E = cx.E
    m = block(cx, kind)
    got = {}
    def rec(what):
        def f(E, a):
            cx.same("%s of the solver in use" % what, a[0], S)
            cx.ob("%s once" % what, what not in got)
            got[what] = (a[1] if len(a) > 1 else None, E.fint(what + "_returns"), len(got))
            return got[what][1]
        return user(cx, "op_" + what, f)
    S = solver(cx, FLD[kind], dict(setlsetupfn=rec("lsetup"), setlsolvefn=rec("lsolve"), initialize=rec("initialize")))
    cx.set(m.p, FLD[kind], S)
    cx.set(m.p, "cv_lsetup", FnVal("user_lsetup") if ls else NULL)
    cx.set(m.p, "cv_lsolve", FnVal("user_lsolve") if sv else NULL)
    cx.start()
    r = zi(cx.fn("cvNlsInit" + kind, [m.p], NF[kind]))
    ok = z3.And(*[(got[w][1] if w in got else zi(1)) == 0 for w in ("lsetup", "lsolve", "initialize")])
    cx.same("success if and only if every part succeeded", r, z3.If(ok, zi(0), zi(-13)))
    if E.prove(r == 0, (), 3000)[0] is True:
        for w, on, nm in (("lsetup", ls, "cvNlsLSetup"), ("lsolve", sv, "cvNlsLSolve")):
            v = got[w][0]
            cx.same("the %s function of this way of solving is attached if there is a linear solver" % w, v, fname(cx, nm + kind, kind) if on else NULL)
        cx.ob("the solver is initialised last", got["initialize"][2] == 2)
    cvframe(cx, m, fields=("nnip",) if kind == "SensStg1" else ())
for kind in KINDS:
    for ls in (0, 1):
        unit("cvNlsInit%s, %s linear solver" % (kind, "with" if ls else "without"), lambda cx, k=kind, l=ls: nlsinit(cx, k, l, l), (NF[kind],) + SW)
unit("cvNlsInit, linear solver without setup", lambda cx: nlsinit(cx, "", 0, 1), (NF[""],) + SW)

def attach(cx, kind, old, fnull=0):
    """old: 0 no solver yet, 1 one the integrator owns, 2 one of the user"""
    E = cx.E
    m = block(cx, kind)
    eng.MALLOC_MAY_FAIL[0] = False
    fld = FLD[kind]
    got = {}
    order = []
    def rec(what):
        def f(E, a):
            cx.same("%s: the new solver" % what, a[0], S)
            cx.ob("%s once" % what, what not in got)
            got[what] = (a[1:], E.fint(what + "_returns"))
            return got[what][1]
        return user(cx, "op_" + what, f)
    ty = z3.Int("type")
    S = solver(cx, "new", dict(gettype=user(cx, "op_type", lambda E, a: ty), solve=FnVal("op_solve"), setsysfn=rec("sysfn"), setctestfn=rec("ctest"), setmaxiters=rec("maxiters")))
    freed = []
    O = solver(cx, "old", dict(free=user(cx, "op_free", lambda E, a: (freed.append(1), cx.same("the old solver is freed", a[0], O), zi(0))[2])))
    cx.set(m.p, fld, O if old else NULL)
    cx.set(m.p, "own" + fld, 1 if old == 1 else 0)
    if kind:
        cx.set(m.p, "cv_ism", dict(SensSim=1, SensStg=2, SensStg1=3)[kind])
    cx.set(m.p, "cv_f", NULL if fnull else FnVal("user_f"))
    wr_ = kind in ("SensSim", "SensStg")
    sfx = kind[4:]
    if wr_:
        cx.set(m.p, "simMallocDone" if kind == "SensSim" else "stgMallocDone", 0)
        vecf(cx, m, "cv_acor")
        stub(cx, "N_VNewEmpty", lambda E, a: newempty(cx), "N_VNewEmpty returns a vector with an empty table of operations")
    cx.start()
    r = zi(cx.fn("CVodeSetNonlinearSolver" + kind, [m.p, S], NF[kind]))
    ok3 = z3.And(*[(got[w][1] if w in got else zi(1)) == 0 for w in ("sysfn", "ctest", "maxiters")])
    good = z3.And(z3.Or(ty == 0, ty == 1), ok3, z3.BoolVal(not fnull))
    cx.ob("success if and only if the solver is of a known type and every part was attached", (r == 0) == good)
    cx.ob("an owned solver is freed, one of the user is not", len(freed) == (1 if old == 1 else 0))
    if E.prove(r == 0, (), 3000)[0] is not True:
        return
    f0, f1 = fname(cx, "cvNlsResidual" + kind, kind), fname(cx, "cvNlsFPFunction" + kind, kind)
    g = got["sysfn"][0][0]
    if E.branch(ty == 0):
        cx.same("root finding solvers get the residual", g, f0)
    else:
        cx.same("fixed point solvers get the fixed point map", g, f1)
    cx.same("the convergence test", got["ctest"][0][0], fname(cx, "cvNlsConvTest" + kind, kind))
    cx.same("its data is the integrator", got["ctest"][0][1], m.p)
    cx.same("at most three iterations by default", got["maxiters"][0][0], 3)
    cx.same("the solver is in place", now(cx, m, fld), S)
    cx.same("it belongs to the user", now(cx, m, "own" + fld), 0)
    if kind in ("", "SensSim"):
        cx.same("no norm is left from another solver", now(cx, m, "cv_acnrmcur"), 0)
    if kind == "":
        cx.same("the right-hand side in the nonlinear system", now(cx, m, "nls_f"), FnVal("user_f"))
    if wr_:
        k = index(cx, m.Ns, "k")
        for f, w, p in (("zn0", None, 0), ("ycor", m.acorS, 1), ("ewt", m.ewtS, 2)):
            v = now(cx, m, f + sfx)
            c = cx.get(v, "content")
            c = Ptr(c.rid, c.field, c.coords, c.dim, "struct _N_VectorContent_SensWrapper")
            o = 1 if kind == "SensSim" else 0
            cx.same("%s%s holds one vector per system" % (f, sfx), cx.get(c, "nvecs"), m.Ns + o)
            vs = cx.get(c, "vecs")
            src = cx.at(cx.read(cx.fieldarr(m.p, "cv_znS"), 0), k) if w is None else cx.at(w, k)
            cx.same("%s%s holds the sensitivities" % (f, sfx), cx.read(cx.at(vs, simp(k + o)), 0), cx.read(src, 0))
            if o:
                s0 = cx.read(cx.fieldarr(m.p, "cv_zn"), 0) if p == 0 else now(cx, m, "cv_acor" if p == 1 else "cv_ewt")
                cx.same("%s%s holds the state" % (f, sfx), cx.read(vs, 0), s0)
def newempty(cx):
    E = cx.E
    o = E.region("newops", 1, 1, "struct _generic_N_Vector_Ops", "heap")
    v = E.region("newvec", 1, 1, "struct _generic_N_Vector", "heap")
    p = Ptr(v, (), (0,), "R", "struct _generic_N_Vector")
    cx.set(p, "ops", Ptr(o, (), (0,), "R", "struct _generic_N_Vector_Ops"))
    return p
for kind in KINDS:
    for old in (0, 1, 2):
        unit("CVodeSetNonlinearSolver%s, %s" % (kind, ("no solver yet", "replacing its own", "replacing the user's")[old]), lambda cx, k=kind, o=old: attach(cx, k, o), (NF[kind],) + SW)

# ---------------------------------------------------------------- norms over sensitivities, right-hand side wrappers
def maxof(cx, quad):
    """the largest entry: what the loop computes is the running maximum"""
    E = cx.E
    n = cx.N("N", 1)
    m = cvmem(cx, None, n, sensi=1, quadr_sensi=quad)
    g = z3.Function("norms", z3.IntSort(), z3.RealSort())
    x, w = cx.fam("x", [m.Ns], m.NQ if quad else m.N), cx.fam("w", [m.Ns], m.NQ if quad else m.N)
    def nva(E, a):
        cx.same("all sensitivities", a[0], m.Ns); cx.same("the vectors", a[1], x); cx.same("the weights", a[2], w)
        d = a[3]
        t = E.fint("t")
        E.st.mem[(d.rid, d.field)] = E.arr(d).write(Layer((t,), z3.And(t >= 0, t < m.Ns), d.coords[:-1] + (add(d.coords[-1], t),), g(t)))
        return zi(0)
    stub(cx, "N_VWrmsNormVectorArray", nva, "N_VWrmsNormVectorArray by its contract (proved with the fused operations)")
    cx.start()
    G_ = Ghost([("m", "real")], 1, (g(0),), lambda t, gg: (z3.If(g(t) > gg[0], g(t), gg[0]),))
    E.ghosts = [G_]
    E.assume(G_.initfact())
    r = cx.fn("cvQuadSensNorm" if quad else "cvSensNorm", [m.p, x, w], CVF)
    cx.same("the largest norm", zr(r), G_.at(m.Ns)[0])
    cvframe(cx, m, scratch=[m.cvals.rid, m.X.rid])
unit("cvSensNorm is the largest norm", lambda cx: maxof(cx, 0))
unit("cvQuadSensNorm is the largest norm", lambda cx: maxof(cx, 1))
def update(cx, which):
    E = cx.E
    n = cx.N("N", 1)
    m = cvmem(cx, None, n, quadr=1, sensi=1, quadr_sensi=1)
    E.assume(m.NQ >= 1)
    old = cx.real("old_norm")
    if which == "Quad":
        x, w = cx.vec("x", m.NQ), cx.vec("w", m.NQ)
        cx.el(x, 0); cx.el(w, 0)
        nn = norm2(cx, lambda t: zr(cx.el(x, t)), lambda t: zr(cx.el(w, t)), m.NQ)
    else:
        nq = m.NQ if which == "QuadSens" else m.N
        x, w = cx.fam("x", [m.Ns], nq), cx.fam("w", [m.Ns], nq)
        nn = cx.real("new_norm")
        def sn(E, a):
            cx.same("norm of these", a[1], x); cx.same("with these weights", a[2], w)
            return nn
        stub(cx, "cv%sNorm" % which, sn, "cv%sNorm by its contract" % which)
    cx.start()
    r = zr(cx.fn("cv%sUpdateNorm" % which, [m.p, old, x, w], CVF))
    cx.same("the larger norm", r, rmax(old, nn))
    cvframe(cx, m, scratch=[m.cvals.rid])
for which in ("Quad", "Sens", "QuadSens"):
    unit("cv%sUpdateNorm" % which, lambda cx, w=which: update(cx, w))

def rhswrap(cx, how):
    """how: all, one: cvSensRhsWrapper with fS or fS1; single: cvSensRhs1Wrapper"""
    E = cx.E
    n = cx.N("N", 1)
    m = cvmem(cx, None, n, sensi=1)
    cx.set(m.p, "cv_ifS", 2 if how == "all" else 1)
    ud = udata(cx, m, "cv_fS_data")
    udata(cx, m)
    t, y, fy, t1, t2 = cx.real("t"), cx.vec("y", n), cx.vec("fy", n), cx.vec("temp1", n), cx.vec("temp2", n)
    yS, fS = cx.fam("yS", [m.Ns], n), cx.fam("fS", [m.Ns], n)
    cx.fel(fS, (0, 0))
    d = harness.f_data[fS.rid]
    R_ = E.ffun("fS_returns", 1, z3.IntSort())
    X_ = E.ffun("fS", 2, z3.RealSort())
    def common(ns, tt, yy, ff, ud_, a1, a2):
        cx.same("number of sensitivities", ns, m.Ns); cx.same("time", zr(tt), t); cx.same("state", yy, y); cx.same("right-hand side", ff, fy)
        cx.same("the data of the sensitivity right-hand side", ud_, ud); cx.same("work space", a1, t1); cx.same("work space", a2, t2)
    def fall(E, a):
        common(a[0], a[1], a[2], a[3], a[6], a[7], a[8])
        cx.same("all sensitivities", a[4], yS); cx.same("results", a[5], fS)
        k_, t_ = E.fint("k"), E.fint("t")
        E.st.mem[(d, ())] = E.arr(Ptr(d, (), (0, 0), "R", "double")).write(Layer((k_, t_), z3.And(t_ >= 0, t_ < n, k_ >= 0, k_ < m.Ns), (k_, t_), X_(k_, t_)))
        return R_(0)
    def fone(E, a):
        common(a[0], a[1], a[2], a[3], a[7], a[8], a[9])
        k = a[4]
        cx.same("value of that sensitivity", a[5], cx.read(cx.at(yS, k), 0)); cx.same("result of that sensitivity", a[6], cx.read(cx.at(fS, k), 0))
        t_ = E.fint("t")
        E.st.mem[(d, ())] = E.arr(Ptr(d, (), (k, 0), "R", "double")).write(Layer((t_,), z3.And(t_ >= 0, t_ < n), (k, t_), X_(zi(k), t_)))
        if E.st.wlog is not None:
            E.st.wlog.append((Ptr(d, (), (k, t_), "R", "double"),))
        return R_(zi(k))
    cx.set(m.p, "cv_fS", user(cx, "user_fS", fall) if how == "all" else NULL)
    cx.set(m.p, "cv_fS1", NULL if how == "all" else user(cx, "user_fS1", fone))
    c0 = now(cx, m, "cv_nfSe")
    is_ = z3.Int("is")
    E.assume(is_ >= 0); E.assume(is_ < m.Ns)
    cx.start()
    k = E.fint("k")
    i = index(cx, n)
    if how == "single":
        r = zi(cx.fn("cvSensRhs1Wrapper", [m.p, t, y, fy, is_, cx.read(cx.at(yS, is_), 0), cx.read(cx.at(fS, is_), 0), t1, t2], CVF))
        cx.same("the outcome", r, R_(is_))
        cx.ob("the result", zr(cx.fel(fS, (is_, i), False)) == X_(is_, i))
        cx.same("counted", now(cx, m, "cv_nfSe"), c0 + 1)
    else:
        r = zi(cx.fn("cvSensRhsWrapper", [m.p, t, y, fy, yS, fS, t1, t2], CVF))
        if how == "all":
            cx.same("the outcome", r, R_(0))
            cx.same("counted", now(cx, m, "cv_nfSe"), c0 + 1)
        else:
            cx.ob("success means that every sensitivity was evaluated", z3.Implies(z3.And(r == 0, k >= 0, k < m.Ns), R_(k) == 0))
            cx.ob("counted", z3.Implies(r == 0, zi(now(cx, m, "cv_nfSe")) == c0 + m.Ns))
        cx.ob("the results", z3.Implies(z3.And(r == 0, k >= 0, k < m.Ns), zr(cx.fel(fS, (k, i), False)) == X_(k, i)))
    cvframe(cx, m, fields=("cv_nfSe",), scratch=[d])
for how in ("all", "one", "single"):
    unit("sensitivity right-hand side wrapper (%s)" % how, lambda cx, h=how: rhswrap(cx, h))

# ---------------------------------------------------------------- vectors of vectors
def sw(cx, op, nargs, scal, f, alias):
    """an elementwise operation acts on every vector the wrapper holds"""
    E = cx.E
    n = cx.N("N", 1)
    cnt = cx.N("count", 1)
    names = "xyz"[3 - nargs:] if nargs < 3 else "xyz"
    names = dict(zip(range(nargs), ("x", "y", "z")[-nargs:] if nargs != 2 else ("x", "z")))
    objs = []
    cx.template()
    for i in range(nargs):
        if alias[i] != i:
            objs.append(objs[alias[i]])
            continue
        fam = cx.fam(names[i], [cnt], n)
        cx.fel(fam, (0, 0))
        c = cx.struct(names[i] + "_wrap", "struct _N_VectorContent_SensWrapper", dict(vecs=fam, nvecs=cnt, own_vecs=0))
        objs.append((cx.struct(names[i] + "_sw", "struct _generic_N_Vector", dict(content=c, ops=NULL, sunctx=NULL)), harness.f_data[fam.rid]))
    sc = [cx.real("c%d" % i) for i in range(scal)]
    if op in ("Div", "Inv"):
        q, p = z3.Ints("q p")
        o = objs[-2][1]
        E.assume(z3.ForAll([p, q], zr(cx.cell(o, (p, q))) != 0))
    args = dict(LinearSum=lambda: [sc[0], objs[0][0], sc[1], objs[1][0], objs[2][0]], Const=lambda: [sc[0], objs[0][0]], Scale=lambda: [sc[0], objs[0][0], objs[1][0]],
        AddConst=lambda: [objs[0][0], sc[0], objs[1][0]]).get(op, lambda: [o[0] for o in objs])()
    cx.start()
    cx.fn("N_V%s_SensWrapper" % op, args)
    out = objs[-1][1]
    cx.frame({out: lambda c: f(sc, [zr(cx.cell(o[1], c)) for o in objs])})
def swmax(cx):
    E = cx.E
    n = cx.N("N", 1)
    cnt = cx.N("count", 1)
    cx.template()
    vs = []
    for nm in "xw":
        fam = cx.fam(nm, [cnt], n)
        c = cx.struct(nm + "_wrap", "struct _N_VectorContent_SensWrapper", dict(vecs=fam, nvecs=cnt, own_vecs=0))
        vs.append((cx.struct(nm + "_sw", "struct _generic_N_Vector", dict(content=c, ops=NULL, sunctx=NULL)), fam))
    g = z3.Function("norms", z3.IntSort(), z3.RealSort())
    q = z3.Int("q")
    E.assume(z3.ForAll([q], g(q) >= 0))
    def wn(E, a):
        k = a[0].coords[-1]
        cx.same("vectors of the first wrapper", a[0], cx.read(cx.at(vs[0][1], k), 0)); cx.same("with the weights at the same place", a[1], cx.read(cx.at(vs[1][1], k), 0))
        return g(zi(k))
    stub(cx, "N_VWrmsNorm", wn, "N_VWrmsNorm by its contract (proved with the vector operations); it is not negative")
    cx.start()
    G_ = Ghost([("m", "real")], 0, (zr(0),), lambda t, gg: (z3.If(g(t) > gg[0], g(t), gg[0]),))
    E.ghosts = [G_]
    E.assume(G_.initfact())
    r = cx.fn("N_VWrmsNorm_SensWrapper", [vs[0][0], vs[1][0]])
    cx.same("the largest norm", zr(r), G_.at(cnt)[0])
    cx.frame()
SWU = []
for op, nargs, scal, f in (("LinearSum", 3, 2, lambda c, v: c[0] * v[0] + c[1] * v[1]), ("Const", 1, 1, lambda c, v: c[0]), ("Scale", 2, 1, lambda c, v: c[0] * v[0]),
        ("Prod", 3, 0, lambda c, v: v[0] * v[1]), ("Div", 3, 0, lambda c, v: v[0] / v[1]), ("Abs", 2, 0, lambda c, v: z3.If(v[0] >= 0, v[0], -v[0])),
        ("Inv", 2, 0, lambda c, v: 1 / v[0]), ("AddConst", 2, 1, lambda c, v: v[0] + c[0])):
    pats = {1: [(0,)], 2: [(0, 1), (0, 0)], 3: [(0, 1, 2), (0, 1, 0), (0, 1, 1), (0, 0, 2), (0, 0, 0)]}[nargs]
    for al in pats:
        unit("N_V%s_SensWrapper, arguments %s" % (op, al), lambda cx, o=op, n=nargs, s=scal, g=f, a=al: sw(cx, o, n, s, g, a), SW)
unit("N_VWrmsNorm_SensWrapper", swmax, SW)
