"""The linear solver interface of the integrator: when the Jacobian is evaluated again, the matrix I - gamma J, the difference quotient Jacobian
and Jacobian-vector product, the solve and what its result means.  The user's functions and the linear solver object are arbitrary."""
import z3
from . import eng, harness, loops, sunmat
from .eng import *
from .run import Unit
from .cv import *
from .ctrl import norm, flag, D, rabs, rmax, rmin
from .nls import havoc, havv, udata, allof, index
from . import contracts as C
from .sunmat import isnull
from .nlsol import eachi, GV, Gh

UNITS = []
LSF = "src/cvodes/cvodes_ls.c"
FS = tuple(dict.fromkeys(("src/cvodes/cvodes_ls.c",) + tuple(f for f in FILES if f != "src/cvodes/cvodes.c") + ("src/sunmatrix/dense/sunmatrix_dense.c", "src/sundials/sundials_matrix.c", "src/sundials/sundials_linearsolver.c", "src/sundials/sundials_nonlinearsolver.c")))
def unit(id, body, **k):
    UNITS.append(Unit(id, FS, body, contracts=CT, **k))
LM, LSO = "struct CVLsMemRec", "struct _generic_SUNLinearSolver"
DIRECT, ITER, MITER, EMB = 0, 1, 2, 3

def block(cx, n, ops=None, kind=DIRECT, sensi=0, **over):
    """integrator block, interface block, linear solver object of a kind"""
    m = cvmem(cx, None, n, sensi=sensi)
    o = dict(gettype=user(cx, "ls_type", lambda E, a: kind))
    o.update(ops or {})
    S = cx.struct("LS", LSO, dict(ops=cx.struct("LS_ops", "struct _generic_SUNLinearSolver_Ops", o), content=NULL, sunctx=NULL))
    d = dict(LS=S)
    d.update(over)
    l = cx.struct("ls", LM, d)
    cx.set(m.p, "cv_lmem", l)
    return m, l, S
def lf(cx, l, f):
    v = cx.get(l, f)
    return v
def vf(cx, n, *names):
    r = []
    for f in names:
        v = cx.vec(f, n)
        cx.el(v, 0)
        r.append(v)
    return r
def isv(cx, name, a, v):
    cx.ob(name, z3.BoolVal(isinstance(a, Ptr) and a.rid == v.rid))
def keys(cx, m, l, mf=(), lff=()):
    return {**{(m.rid, (f,)): None for f in mf}, **{(l.rid, (f,)): None for f in lff}}
CNT = ("nje", "nfeDQ", "nstlj", "npe", "nli", "nps", "ncfl", "njtsetup", "njtimes")

# ---------------------------------------------------------------- I - gamma J
def linsys(cx, jok, kind):
    E = cx.E
    n = cx.N("N", 1)
    A, J = sunmat.mat(cx, "A", n, n), sunmat.mat(cx, "savedJ", n, n)
    m, l, S = block(cx, n, kind=kind, A=A.p, savedJ=J.p)
    y, fy, t1, t2, t3 = vf(cx, n, "y", "fy", "vt1", "vt2", "vt3")
    jd = cx.realarr("jacobian_data", 1)
    cx.set(l, "J_data", jd)
    g, t = cx.real("gamma"), cx.real("t")
    jc = cx.out("int", "jcur")
    done = dict(n=0, r=None)
    nj = E.ffun("new_jacobian", 2, z3.RealSort())
    ael = lambda X, j, i, snap=False: zr(cx.cell(X.data, (j, i), snap))
    def jac(E, a):
        done["n"] += 1
        cx.same("time", zr(a[0]), t)
        isv(cx, "state", a[1], y); isv(cx, "derivative", a[2], fy)
        cx.same("the matrix to fill", a[3], A.p)
        cx.same("data of the Jacobian function", a[4], jd)
        for k, w in ((5, t1), (6, t2), (7, t3)):
            isv(cx, "work vector", a[k], w)
        if kind == DIRECT:
            i, j = index(cx, n, "i"), index(cx, n, "j")
            cx.ob("a direct solver's matrix is cleared for the Jacobian function", ael(A, j, i) == 0)
        E.st.mem[(A.data, ())] = Arr(lambda c: nj(zi(c[0]), zi(c[1])))
        done["r"] = E.fint("jac_returns")
        return done["r"]
    cx.set(l, "jac", user(cx, "user_jac", jac))
    def zero(E, a):
        X, = [x for x in (A, J) if isinstance(a[0], Ptr) and a[0].rid == x.p.rid]
        E.st.mem[(X.data, ())] = Arr(lambda c: Fraction(0))
        return 0
    stub(cx, "SUNMatZero_Dense", zero, "SUNMatZero sets every entry of its matrix to zero (proved by the unit SUNMatZero of the dense matrix)")
    lf0 = zi(cx.get(l, "last_flag"))
    cx.start()
    r = zi(cx.fn("cvLsLinSys", [t, y, fy, A.p, 1 if jok else 0, jc, g, m.p, t1, t2, t3], LSF))
    cx.ob("the Jacobian function is called once exactly when the saved Jacobian may not be used", z3.BoolVal(done["n"] == (0 if jok else 1)))
    cx.ob("the Jacobian is current exactly when it was evaluated", (zi(cx.read(jc)) != 0) == z3.BoolVal(not jok))
    jr = zi(done["r"]) if done["r"] is not None else zi(0)
    cx.ob("result: -1 or 1 for a Jacobian that fails, else success", r == z3.If(jr < 0, z3.IntVal(-1), z3.If(jr > 0, z3.IntVal(1), z3.IntVal(0))))
    cx.ob("the failure is remembered", zi(cx.get(l, "last_flag")) == z3.If(jr < 0, z3.IntVal(-6), z3.If(jr > 0, z3.IntVal(-7), lf0)))
    want = (lambda j, i: ael(J, j, i, True)) if jok else (lambda j, i: nj(zi(j), zi(i)))
    i, j = index(cx, n, "i"), index(cx, n, "j")
    cx.ob("the matrix is I - gamma J", z3.Implies(jr == 0, ael(A, j, i) == z3.If(i == j, z3.RealVal(1), z3.RealVal(0)) - g * want(j, i)))
    if jok:
        cx.ob("the saved Jacobian stays", ael(J, j, i) == ael(J, j, i, True))
    else:
        cx.ob("the Jacobian is saved", z3.Implies(jr == 0, ael(J, j, i) == want(j, i)))
    cx.frame({**keys(cx, m, l, lff=("last_flag",)), A.data: None, J.data: None, jc.rid: None})
for kind, nm in ((DIRECT, "direct"), (MITER, "matrix iterative")):
    for jok in (0, 1):
        unit("cvLsLinSys: %s, %s Jacobian" % (nm, "saved" if jok else "new"), lambda cx, j=jok, k=kind: linsys(cx, j, k))

# ---------------------------------------------------------------- setup
def setup(cx, mat, kind, userls):
    E = cx.E
    n = cx.N("N", 1)
    A = sunmat.mat(cx, "A", n, n).p if mat else NULL
    done = dict(l=0, s=0, r=None, sr=None, jb=None)
    def lsetup(E, a):
        done["s"] += 1
        cx.same("the linear solver", a[0], S); cx.same("its matrix", a[1], A)
        if not mat:
            E.store(Ptr(jc.rid, (), (0,), "R", jc.ety), done["p"])
        done["sr"] = E.fint("setup_returns")
        return done["sr"]
    m, l, S = block(cx, n, dict(setup=user(cx, "ls_setup", lsetup)), kind, A=A)
    y, fy, t1, t2, t3 = vf(cx, n, "ypred", "fpred", "vt1", "vt2", "vt3")
    cf = z3.Int("convfail")
    E.assume(z3.And(cf >= 0, cf <= 2))
    jc = cx.out("int", "jcur")
    done["p"] = E.fint("jcur_by_setup")
    E.assume(z3.Or(done["p"] == 0, done["p"] == 1))
    adata = cx.realarr("system_data", 1)
    cx.set(l, "A_data", adata)
    cx.set(l, "user_linsys", 1 if userls else 0)
    nst, ga, gp, tn = (now(cx, m, f) for f in ("cv_nst", "cv_gamma", "cv_gammap", "cv_tn"))
    E.assume(zr(gp) != 0)
    nl, msbj, nje, npe, lf0 = (zi(cx.get(l, f)) for f in ("nstlj", "msbj", "nje", "npe", "last_flag"))
    bad = z3.Or(zi(nst) == 0, zi(nst) >= nl + msbj, z3.And(cf == 1, rabs(zr(ga) / zr(gp) - 1) < D(.2)), cf == 2)
    def lin(E, a):
        done["l"] += 1
        cx.same("time", zr(a[0]), zr(tn))
        isv(cx, "predicted state", a[1], y); isv(cx, "its derivative", a[2], fy)
        cx.same("matrix", a[3], A)
        cx.ob("the saved Jacobian may be used unless it is the first step, the data are old, or a failure calls for new ones", (zi(a[4]) != 0) == z3.Not(bad))
        cx.same("where to say whether it is current", a[5], jc)
        cx.same("gamma", zr(a[6]), zr(ga))
        cx.same("data of the system function", a[7], adata)
        for k, w in ((8, t1), (9, t2), (10, t3)):
            isv(cx, "work vector", a[k], w)
        E.store(a[5], done["p"])
        if not userls:
            f_ = E.fint("flag_by_system")
            cx.set(l, "last_flag", f_)
            done["lf"] = f_
        done["r"] = E.fint("system_returns")
        return done["r"]
    cx.set(l, "linsys", user(cx, "user_linsys", lin) if mat else NULL)
    cx.start()
    r = zi(cx.fn("cvLsSetup", [m.p, cf, y, fy, jc, t1, t2, t3], LSF))
    if kind == EMB:
        cx.same("nothing to set up", r, 0)
        cx.same("success is remembered", zi(cx.get(l, "last_flag")), 0)
        cx.frame(keys(cx, m, l, lff=("last_flag",)))
        return
    cur = zi(cx.read(jc))
    cx.ob("system function called once if there is a matrix", z3.BoolVal(done["l"] == (1 if mat else 0)))
    cx.same("state of the linear solver's functions", lf(cx, l, "ycur"), y); cx.same("and its derivative", lf(cx, l, "fcur"), fy)
    cx.ob("what is suggested to a preconditioner", (zi(cx.get(l, "jbad")) != 0) == bad)
    lr = zi(done["r"]) if done["r"] is not None else zi(0)
    sr = zi(done["sr"]) if done["sr"] is not None else zi(0)
    cx.ob("the linear solver is set up exactly when the system is there", z3.BoolVal(done["s"] == 1) == (lr == 0))
    p = done["p"]
    if mat:
        cx.ob("evaluations of the Jacobian are counted", zi(cx.get(l, "nje")) == nje + p)
        cx.same("preconditioner setups", zi(cx.get(l, "npe")), npe)
        cx.ob("whether the Jacobian is current", cur == p)
        u = (lambda a, b: z3.If(lr < 0, a, b))
        cx.ob("result", r == z3.If(lr == 0, sr, u(z3.IntVal(-1), z3.IntVal(1)) if userls else lr))
        cx.ob("the result is remembered", zi(cx.get(l, "last_flag")) == z3.If(lr == 0, sr, u(z3.IntVal(-6), z3.IntVal(-7)) if userls else zi(done.get("lf", 0))))
    else:
        cx.ob("preconditioner setups are counted", zi(cx.get(l, "npe")) == npe + p)
        cx.same("evaluations of the Jacobian", zi(cx.get(l, "nje")), nje)
        cx.ob("the data are current if they were updated or an update was suggested", (cur != 0) == z3.Or(p != 0, bad))
        cx.ob("result", r == sr); cx.ob("the result is remembered", zi(cx.get(l, "last_flag")) == sr)
    cx.ob("the step of the last update", zi(cx.get(l, "nstlj")) == z3.If(p != 0, zi(nst), nl))
    cx.frame({**keys(cx, m, l, lff=("last_flag", "nje", "npe", "nstlj", "jbad", "ycur", "fcur")), jc.rid: None})
unit("cvLsSetup: matrix", lambda cx: setup(cx, 1, DIRECT, 0))
unit("cvLsSetup: matrix, user's system function", lambda cx: setup(cx, 1, DIRECT, 1))
unit("cvLsSetup: no matrix", lambda cx: setup(cx, 0, ITER, 0))
unit("cvLsSetup: embedded", lambda cx: setup(cx, 0, EMB, 0))
def nolmem(cx):
    n = cx.N("N", 1)
    m, l, S = block(cx, n)
    cx.set(m.p, "cv_lmem", NULL)
    y, = vf(cx, n, "y")
    cx.start()
    jc = cx.out("int", "jcur")
    cx.same("setup", zi(cx.fn("cvLsSetup", [m.p, 0, y, y, jc, y, y, y], LSF)), -2)
    cx.same("solve", zi(cx.fn("cvLsSolve", [m.p, y, y, y, y], LSF)), -2)
    cx.same("initialisation", zi(cx.fn("cvLsInitialize", [m.p], LSF)), -2)
    cx.frame()
unit("no linear solver attached", nolmem)

# ---------------------------------------------------------------- solve
RECOV = (802, 803, 804, 805, 806, 807, 808)
def solve(cx, iterative, scalevec, scalesol, jts, ism, stg):
    E = cx.E
    n = cx.N("N", 1)
    done = dict(n=0, sc=0, zg=0, jt=0)
    b, w, y, fy = vf(cx, n, "b", "weight", "ynow", "fnow")
    A = sunmat.mat(cx, "A", n, n).p
    x, = vf(cx, n, "x")
    def fsc(E, a):
        done["sc"] += 1
        cx.same("the linear solver", a[0], S)
        isv(cx, "scaling", a[1], w); isv(cx, "scaling", a[2], w)
        done["scr"] = E.fint("scaling_returns")
        return done["scr"]
    def fzg(E, a):
        done["zg"] += 1
        cx.same("the linear solver", a[0], S)
        cx.ob("the initial guess is zero", zi(a[1]) != 0)
        done["zgr"] = E.fint("zeroguess_returns")
        return done["zgr"]
    sol = E.ffun("solution", 1, z3.RealSort())
    def fsolve(E, a):
        done["n"] += 1
        cx.same("the linear solver", a[0], S); cx.same("the matrix", a[1], A)
        isv(cx, "the solution", a[2], x); isv(cx, "the right-hand side", a[3], b)
        done["tol"] = zr(a[4])
        i = index(cx, n)
        cx.ob("the initial guess is zero", zr(cx.el(x, i, False)) == 0)
        cx.ob("the right-hand side is the one given", zr(cx.el(b, i, False)) == zr(cx.el(b, i)))
        cx.same("state for the solver's functions", lf(cx, l, "ycur"), y); cx.same("derivative", lf(cx, l, "fcur"), fy)
        E.st.mem[(harness.v_data[x.rid], ())] = Arr(lambda c: sol(zi(c[0])))
        havoc(cx, harness.v_data[b.rid])
        done["r"] = E.fint("solve_returns")
        return done["r"]
    its = z3.Int("linear_iterations")
    ops = dict(solve=user(cx, "ls_solve", fsolve), setzeroguess=user(cx, "ls_zeroguess", fzg), setscalingvectors=user(cx, "ls_scaling", fsc) if scalevec else NULL, numiters=user(cx, "ls_iters", lambda E, a: its))
    m, l, S = block(cx, n, ops, ITER if iterative else DIRECT, sensi=1 if ism else 0, A=A, x=x)
    cx.set(l, "iterative", 1 if iterative else 0)
    cx.set(l, "scalesol", 1 if scalesol else 0)
    if ism:
        cx.set(m.p, "cv_ism", ism)
        cx.set(m.p, "sens_solve", 1 if stg else 0)
    cur = z3.Int("iteration")
    def cit(E, a):
        cx.same("the nonlinear solver in use", a[0], NS)
        E.store(a[1], cur)
        return 0
    NS = cx.struct("NLS_in_use", "struct _generic_SUNNonlinearSolver", dict(ops=cx.struct("NLS_ops", "struct _generic_SUNNonlinearSolver_Ops", dict(getcuriter=user(cx, "nls_cur", cit))), content=NULL, sunctx=NULL))
    used = {1: "NLSsim", 2: "NLSstg", 3: "NLSstg1"}.get(ism) if ism == 1 or stg else "NLS"
    for f in ("NLS", "NLSsim", "NLSstg", "NLSstg1"):
        cx.set(m.p, f, NS if f == used else cx.struct(f + "_other", "struct _generic_SUNNonlinearSolver", dict(ops=cx.struct(f + "_oops", "struct _generic_SUNNonlinearSolver_Ops", dict(getcuriter=user(cx, "other_cur", lambda E, a: (cx.ob("the nonlinear solver in use is asked", z3.BoolVal(False)), 0)[1]))), content=NULL, sunctx=NULL)))
    jtd = cx.realarr("jt_data_object", 1)
    cx.set(l, "jt_data", jtd)
    def fj(E, a):
        done["jt"] += 1
        cx.same("time", zr(a[0]), zr(now(cx, m, "cv_tn"))); isv(cx, "state", a[1], y); isv(cx, "derivative", a[2], fy); cx.same("data", a[3], jtd)
        done["jr"] = E.fint("jtsetup_returns")
        return done["jr"]
    cx.set(l, "jtsetup", user(cx, "user_jtsetup", fj) if jts else NULL)
    epl, tq4, nrm, gr, nli, ncfl, njt = zr(cx.get(l, "eplifac")), fa(cx, m, "cv_tq", 4), zr(cx.get(l, "nrmfac")), zr(now(cx, m, "cv_gamrat")), zi(cx.get(l, "nli")), zi(cx.get(l, "ncfl")), zi(cx.get(l, "njtsetup"))
    E.assume(gr != -1)
    if iterative and not scalevec:
        pass
    fn_, _ = C.dsum(E, 0, n, lambda t: zr(cx.el(w, t)) * zr(cx.el(w, t)))
    wm = C.sq_root(fn_(zi(n)) / z3.ToReal(n))
    nb = norm(cx, lambda i: zr(cx.el(b, i)), w, n) if iterative else None
    cx.start()
    r = zi(cx.fn("cvLsSolve", [m.p, b, w, y, fy], LSF))
    i = index(cx, n)
    B_ = lambda: zr(cx.el(b, i, False))
    dv = lambda v: harness.v_data[v.rid]
    fr = {**keys(cx, m, l, lff=("last_flag", "nli", "ncfl", "njtsetup", "ycur", "fcur")), dv(b): None, dv(x): None}
    fl = zi(cx.get(l, "last_flag"))
    small = z3.BoolVal(False)
    if iterative:
        small = nb <= epl * tq4
    early = z3.BoolVal(False)
    if done["n"] == 0:
        if done["sc"] == 0 and done["zg"] == 0:
            cx.ob("no solve only for a right-hand side that is small enough for an iterative solver", small)
            cx.same("then success", r, 0); cx.same("and it is remembered", fl, 0)
            cx.ob("the correction is then the right-hand side itself, or zero after the first iteration", B_() == z3.If(cur > 0, z3.RealVal(0), zr(cx.el(b, i))))
        elif done["jt"]:
            cx.ob("the setup for products failed", zi(done["jr"]) != 0)
            cx.ob("its failure is returned and remembered", z3.And(r == zi(done["jr"]), fl == r))
            cx.ob("it is counted", zi(cx.get(l, "njtsetup")) == njt + 1)
        elif done["zg"]:
            cx.ob("the zero guess was refused", zi(done["zgr"]) != 0)
            cx.same("failure", r, -1)
        else:
            cx.ob("the scaling vectors were refused", zi(done["scr"]) != 0)
            cx.same("failure", r, -9); cx.same("it is remembered", fl, -9)
        cx.frame(fr)
        return
    cx.ob("a right-hand side that is small enough is not solved for", z3.Not(small))
    cx.ob("one solve, prepared once", z3.BoolVal(done["n"] == 1 and done["zg"] == 1 and done["sc"] == (1 if scalevec else 0) and done["jt"] == (1 if jts else 0)))
    cx.ob("setups for products are counted", zi(cx.get(l, "njtsetup")) == njt + (1 if jts else 0))
    if not iterative:
        cx.ob("a direct solver gets no tolerance", done["tol"] == 0)
    elif scalevec:
        cx.ob("the tolerance of an iterative solver", done["tol"] == epl * tq4 * nrm)
    else:
        cx.ob("the tolerance of an iterative solver that does not scale", done["tol"] == epl * tq4 * nrm / wm)
    s = zi(done["r"])
    sc = z3.If(gr == 1, z3.RealVal(1), 2 / (1 + gr)) if scalesol else z3.RealVal(1)
    cx.ob("the correction is the solution, scaled for a gamma that has changed", B_() == sc * sol(i))
    cx.ob("failures are counted", zi(cx.get(l, "ncfl")) == ncfl + z3.If(s == 0, 0, 1))
    cx.ob("linear iterations are counted", zi(cx.get(l, "nli")) == nli + (its if iterative else 0))
    cx.ob("the solver's code is remembered", fl == s)
    for c_ in (0, 801) + RECOV + tuple(range(-812, -800)):
        want = z3.IntVal(0) if c_ == 0 else (z3.If(cur == 0, z3.IntVal(0), z3.IntVal(1)) if c_ == 801 else z3.IntVal(1) if c_ > 0 else z3.IntVal(-1))
        cx.ob("meaning of the solver's code %d" % c_, z3.Implies(s == c_, r == want))
    cx.frame(fr)
unit("cvLsSolve: direct, scaled", lambda cx: solve(cx, 0, 0, 1, 0, 0, 0))
unit("cvLsSolve: direct, not scaled", lambda cx: solve(cx, 0, 0, 0, 0, 0, 0))
unit("cvLsSolve: iterative", lambda cx: solve(cx, 1, 1, 0, 1, 0, 0))
unit("cvLsSolve: iterative, scaled, no scaling vectors", lambda cx: solve(cx, 1, 0, 1, 0, 0, 0))
for ism, stg in ((1, 0), (2, 0), (2, 1), (3, 0), (3, 1)):
    unit("cvLsSolve: direct, sensitivities %d%s" % (ism, " being solved" if stg else ""), lambda cx, i=ism, s=stg: solve(cx, 0, 0, 1, 0, i, s))

# ---------------------------------------------------------------- difference quotients
def dqjac(cx, cons):
    E = cx.E
    n = cx.N("N", 1)
    A = sunmat.mat(cx, "A", n, n)
    m, l, S = block(cx, n, A=A.p)
    ew, = vf(cx, n, "ewt_")
    cx.set(m.p, "cv_ewt", ew)
    y, fy, t1, t2, t3 = vf(cx, n, "y", "fy", "tmp1", "tmp2", "tmp3")
    cx.set(m.p, "cv_tempv", t2)
    cv = None
    if cons:
        cv, = vf(cx, n, "cons")
        cx.set(m.p, "cv_constraints", cv)
    cx.set(m.p, "cv_constraintsSet", 1 if cons else 0)
    ud = udata(cx, m)
    t, u, h = cx.real("t"), zr(now(cx, m, "cv_uround")), zr(now(cx, m, "cv_h"))
    Y0, W, C0, F0 = (lambda v: (lambda i: zr(cx.el(v, i))))(y), (lambda i: zr(cx.el(ew, i))), (lambda i: zr(cx.el(cv, i))), (lambda i: zr(cx.el(fy, i)))
    nf0 = zi(cx.get(l, "nfeDQ"))
    F = E.ffun("right_hand_side", 2, z3.RealSort())     # value in call k, component i
    DEL = E.ffun("increment", 1, z3.RealSort())
    g = Gh(cx, ["CALLS", "LAST"])
    Y = lambda i: zr(cx.el(y, i, False))
    fn_ = norm(cx, F0, ew, n)
    mi = z3.If(fn_ != 0, 1000 * rabs(h) * u * z3.ToReal(n) * fn_, z3.RealVal(1))
    cx.root = C.sq_root(u)
    def inc(j):
        d = cx.root * rabs(Y0(j))
        v = mi / W(j)
        r = z3.If(d > v, d, v)
        if cons:
            p = (Y0(j) + r) * C0(j)
            r = z3.If(z3.Or(z3.And(rabs(C0(j)) == 1, p < 0), z3.And(rabs(C0(j)) == 2, p <= 0)), -r, r)
        return r
    def f(E, a):
        j = g["CALLS"]
        cx.same("time", zr(a[0]), t)
        isv(cx, "the perturbed state", a[1], y); isv(cx, "work vector", a[2], t1); cx.same("user data", a[3], ud)
        cx.ob("one evaluation for each column", z3.And(j < n, g["LAST"] == 0))
        i = index(cx, n)
        cx.ob("only component j is perturbed, by its increment", Y(i) == z3.If(i == j, Y0(i) + inc(i), Y0(i)))
        E.st.mem[(harness.v_data[t1.rid], ())] = Arr(lambda c: F(j, zi(c[0])))
        E.assume(DEL(j) == Y(j) - Y0(j))            # the definition of DEL: each j occurs once
        r = E.fint("f_returns")
        g["LAST"], g["CALLS"] = r, j + 1
        return r
    cx.set(m.p, "cv_f", user(cx, "user_f", f))
    cell = lambda j, i: zr(cx.cell(A.data, (j, i), False))
    def inv(E):
        k, i = z3.Int("q_k"), z3.Int("q_r")
        c = g["CALLS"]
        loc = lambda rid: zi(E.read_arr(E.st.mem[(rid, ())], (0,), False))
        ctr = [("the loop counter", loc(E.loop_counter) == c)] if E.loop_counter is not None else []
        ctr += [("the last result", loc(r) == 0) for r in E.loop_ints]
        return ctr + [("evaluations so far", z3.And(c >= 0, c <= n, g["LAST"] == 0, zi(cx.get(l, "nfeDQ")) == nf0 + c)), ("the state is restored", eachi(n, lambda i: Y(i) == Y0(i))),
            ("columns so far", z3.ForAll([k, i], z3.Implies(z3.And(k >= 0, k < c, i >= 0, i < n), cell(k, i) == (F(k, i) - F0(i)) * (1 / DEL(k))))), ("increments so far", z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < c), DEL(k) == inc(k))))]
    mod = [(g.p.rid, ()), (A.data, ()), (harness.v_data[t1.rid], ()), (harness.v_data[y.rid], ()), (l.rid, ("nfeDQ",))]
    E.loopspecs["cvLsDenseDQJac"] = loops.LoopSpec(inv, mod, scratch=lambda E: [k for k in E.st.mem if k[1] == ("data",) and k[0].startswith("malloc")])
    cx.start()
    r = zi(cx.fn("cvLsDQJac", [t, y, fy, A.p, m.p, t1, t2, t3], LSF))
    cx.ob("the result is that of the last evaluation", r == g["LAST"])
    cx.ob("one evaluation for each column unless one fails", z3.Implies(r == 0, g["CALLS"] == n))
    cx.ob("evaluations are counted", zi(cx.get(l, "nfeDQ")) == nf0 + g["CALLS"])
    i, j = index(cx, n, "i"), index(cx, n, "j")
    cx.ob("column j is the difference quotient in direction j", z3.Implies(r == 0, cell(j, i) == (F(j, i) - F0(i)) * (1 / DEL(j))))
    cx.ob("the divisor is the increment of component j", z3.Implies(r == 0, DEL(j) == inc(j)))
    cx.ob("the state is restored", z3.Implies(r == 0, Y(i) == Y0(i)))
    cx.frame({**keys(cx, m, l, lff=("nfeDQ",)), A.data: None, harness.v_data[t1.rid]: None, harness.v_data[y.rid]: None, g.p.rid: None}, ignore=[rid for rid in E.regions if rid.startswith("malloc")])
unit("cvLsDenseDQJac", lambda cx: dqjac(cx, 0))
unit("cvLsDenseDQJac with constraints", lambda cx: dqjac(cx, 1))

def jtimes(cx):
    E = cx.E
    n = cx.N("N", 1)
    m, l, S = block(cx, n)
    ew, v, Jv, y, fy, wk = vf(cx, n, "ewt_", "v", "Jv", "y", "fy", "work")
    cx.set(m.p, "cv_ewt", ew)
    ud = udata(cx, m)
    t = cx.real("t")
    V, W, Y0, F0 = ((lambda u: (lambda i: zr(cx.el(u, i))))(u) for u in (v, ew, y, fy))
    nv = norm(cx, V, ew, n)
    E.assume(nv != 0)
    nf0 = zi(cx.get(l, "nfeDQ"))
    calls = []
    def f(E, a):
        k = len(calls)
        cx.ob("again only after a failure it can recover from, three times at most", z3.And(z3.BoolVal(k < 3), *([calls[-1][0] > 0] if k else [])))
        cx.same("time", zr(a[0]), t)
        i = index(cx, n)
        cx.ob("where it is evaluated", zr(cx.el(a[1], i, False)) == Y0(i) + z3.Q(1, 4 ** k) * (1 / nv) * V(i))
        isv(cx, "where the result goes", a[2], Jv); cx.same("user data", a[3], ud)
        u = E.ffun("f_value", 1, z3.RealSort())
        E.st.mem[(harness.v_data[Jv.rid], ())] = Arr(lambda c, u=u: u(zi(c[0])))
        r = E.fint("f_returns")
        calls.append((r, u))
        return r
    cx.set(l, "jt_f", user(cx, "user_jt_f", f))
    cx.start()
    r = zi(cx.fn("cvLsDQJtimes", [v, Jv, t, y, fy, m.p, wk], LSF))
    last, u = calls[-1]
    cx.ob("result", r == z3.If(last < 0, z3.IntVal(-1), z3.If(last > 0, z3.IntVal(1), z3.IntVal(0))))
    cx.ob("it gives up only after three evaluations", z3.Or(last <= 0, z3.BoolVal(len(calls) == 3)))
    cx.ob("evaluations are counted", zi(cx.get(l, "nfeDQ")) == nf0 + len(calls))
    i = index(cx, n, "i")
    cx.ob("the product is the difference quotient in the direction of v", z3.Implies(last == 0, zr(cx.el(Jv, i, False)) == (u(i) - F0(i)) * (4 ** (len(calls) - 1)) * nv))
    cx.frame({**keys(cx, m, l, lff=("nfeDQ",)), harness.v_data[Jv.rid]: None, harness.v_data[wk.rid]: None})
unit("cvLsDQJtimes", jtimes)

def curstate(cx, m, l, n):
    yc, fc, yt = vf(cx, n, "ycur", "fcur", "ytemp")
    for f, v in (("ycur", yc), ("fcur", fc), ("ytemp", yt)):
        cx.set(l, f, v)
    return yc, fc, yt
def atimes(cx):
    E = cx.E
    n = cx.N("N", 1)
    m, l, S = block(cx, n)
    v, z = vf(cx, n, "v", "z")
    yc, fc, yt = curstate(cx, m, l, n)
    jd = cx.realarr("jt_data_", 1)
    cx.set(l, "jt_data", jd)
    V = lambda i: zr(cx.el(v, i))
    tn, ga, nt = zr(now(cx, m, "cv_tn")), zr(now(cx, m, "cv_gamma")), zi(cx.get(l, "njtimes"))
    s = {}
    def f(E, a):
        cx.ob("called once", z3.BoolVal(not s))
        isv(cx, "direction", a[0], v); isv(cx, "where the result goes", a[1], z); cx.same("time", zr(a[2]), tn)
        isv(cx, "state", a[3], yc); isv(cx, "its derivative", a[4], fc); cx.same("data", a[5], jd); isv(cx, "work vector", a[6], yt)
        s["u"] = E.ffun("Jv", 1, z3.RealSort())
        E.st.mem[(harness.v_data[z.rid], ())] = Arr(lambda c: s["u"](zi(c[0])))
        s["r"] = E.fint("jtimes_returns")
        return s["r"]
    cx.set(l, "jtimes", user(cx, "user_jtimes", f))
    cx.start()
    r = zi(cx.fn("cvLsATimes", [m.p, v, z], LSF))
    cx.ob("the product was asked for", z3.BoolVal("r" in s))
    cx.ob("result", r == zi(s["r"]))
    cx.ob("products are counted", zi(cx.get(l, "njtimes")) == nt + 1)
    i = index(cx, n, "i")
    cx.ob("the product is v - gamma J v", z3.Implies(r == 0, zr(cx.el(z, i, False)) == V(i) - ga * s["u"](i)))
    cx.frame({**keys(cx, m, l, lff=("njtimes",)), harness.v_data[z.rid]: None})
unit("cvLsATimes", atimes)

def precond(cx):
    E = cx.E
    n = cx.N("N", 1)
    m, l, S = block(cx, n)
    yc, fc, yt = curstate(cx, m, l, n)
    rv, z = vf(cx, n, "r", "z")
    pd = cx.realarr("P_data_", 1)
    cx.set(l, "P_data", pd)
    tn, ga, np_ = zr(now(cx, m, "cv_tn")), zr(now(cx, m, "cv_gamma")), zi(cx.get(l, "nps"))
    jb = zi(cx.get(l, "jbad"))
    tol, lr = cx.real("tol"), z3.Int("lr")
    s = {}
    def com(a, k):
        cx.same("time", zr(a[0]), tn); isv(cx, "state", a[1], yc); isv(cx, "its derivative", a[2], fc)
    def pset(E, a):
        com(a, "s")
        cx.ob("the saved data may be used unless they are bad", (zi(a[3]) != 0) == (jb == 0))
        cx.ob("where to say whether they are current", z3.BoolVal(isinstance(a[4], Ptr) and a[4].rid == m.p.rid and a[4].field == ("cv_jcur",)))
        cx.same("gamma", zr(a[5]), ga); cx.same("data", a[6], pd)
        s["j"] = E.fint("jcur_by_user")
        E.store(a[4], s["j"])
        s["p"] = E.fint("pset_returns")
        return s["p"]
    def psol(E, a):
        com(a, "v")
        isv(cx, "right-hand side", a[3], rv); isv(cx, "where the result goes", a[4], z)
        cx.same("gamma", zr(a[5]), ga); cx.same("tolerance", zr(a[6]), tol); cx.same("side", zi(a[7]), lr); cx.same("data", a[8], pd)
        havv(cx, z)
        s["v"] = E.fint("psolve_returns")
        return s["v"]
    cx.set(l, "pset", user(cx, "user_pset", pset))
    cx.set(l, "psolve", user(cx, "user_psolve", psol))
    cx.start()
    r = zi(cx.fn("cvLsPSetup", [m.p], LSF))
    cx.ob("the user's setup was called", z3.BoolVal("p" in s))
    cx.ob("its result is passed on", r == zi(s["p"]))
    cx.ob("whether the data are current is what it said", zi(cx.get(m.p, "cv_jcur")) == zi(s["j"]))
    r = zi(cx.fn("cvLsPSolve", [m.p, rv, z, tol, lr], LSF))
    cx.ob("the user's solve was called", z3.BoolVal("v" in s))
    cx.ob("its result is passed on", r == zi(s["v"]))
    cx.ob("solves are counted", zi(cx.get(l, "nps")) == np_ + 1)
    cx.frame({**keys(cx, m, l, mf=("cv_jcur",), lff=("nps",)), harness.v_data[z.rid]: None})
unit("cvLsPSetup, cvLsPSolve", precond)

# ---------------------------------------------------------------- start of an integration
def init(cx, mat, kind, jdq, jtdq, uls, saved, pset):
    E = cx.E
    n = cx.N("N", 1)
    s = {}
    def ini(E, a):
        cx.ob("initialised once", z3.BoolVal("r" not in s))
        cx.same("the linear solver", a[0], S)
        s["r"] = E.fint("initialize_returns")
        return s["r"]
    A, J = sunmat.mat(cx, "A", n, n) if mat else None, None
    m, l, S = block(cx, n, dict(initialize=user(cx, "ls_initialize", ini)), kind, A=A.p if mat else NULL)
    if saved:
        J = sunmat.mat(cx, "savedJ", n, n)
    cx.set(l, "savedJ", J.p if saved else NULL)
    ud = udata(cx, m)
    ujac, uls_, ujt, ujs, ups, lset = (user(cx, k, lambda E, a: E.fint("r")) for k in ("user_jac", "user_linsys", "user_jtimes", "user_jtsetup", "user_pset", "user_lsetup"))
    cx.set(l, "user_linsys", uls); cx.set(l, "linsys", uls_); cx.set(l, "jacDQ", jdq); cx.set(l, "jac", ujac)
    cx.set(l, "jtimesDQ", jtdq); cx.set(l, "jtimes", ujt); cx.set(l, "jtsetup", ujs); cx.set(l, "pset", ups if pset else NULL)
    cx.set(m.p, "cv_lsetup", lset)
    sc = zi(cx.get(l, "scalesol"))
    cx.start()
    r = zi(cx.fn("cvLsInitialize", [m.p], LSF))
    cx.same("the result is remembered", zi(cx.get(l, "last_flag")), r)
    if "r" not in s:
        # the only other outcome: no room for the saved Jacobian
        cx.ob("a failure before the linear solver is initialised is that of the saved Jacobian", z3.BoolVal(bool(mat and not uls and not saved)))
        cx.same("and says so", r, -4)
        return
    cx.ob("result of the linear solver's own initialisation", r == zi(s["r"]))
    for f in CNT:
        cx.same("%s starts from zero" % f, zi(cx.get(l, f)), 0)
    me = lambda f: cx.same("%s is the integrator" % f, cx.get(l, f), m.p)
    usr = lambda f: cx.same("%s is the user's data" % f, cx.get(l, f), ud)
    if mat and uls:
        cx.same("the user's system function", cx.get(l, "linsys"), uls_); usr("A_data")
    elif mat:
        cx.same("the internal system function", cx.get(l, "linsys"), FnVal("cvLsLinSys")); me("A_data")
        if jdq:
            cx.same("the difference quotient", cx.get(l, "jac"), FnVal("cvLsDQJac")); me("J_data")
        else:
            cx.same("the user's Jacobian", cx.get(l, "jac"), ujac); usr("J_data")
        if saved:
            cx.same("the saved Jacobian is kept", cx.get(l, "savedJ"), J.p)
        else:
            q = cx.get(l, "savedJ")
            cx.ob("there is a saved Jacobian", z3.BoolVal(isinstance(q, Ptr) and not q.null if hasattr(q, "null") else isinstance(q, Ptr)))
            cx.ob("of its own", z3.BoolVal(isinstance(q, Ptr) and q.rid != A.p.rid))
    else:
        for f in ("jac", "J_data", "linsys", "A_data"):
            cx.ob("%s is not there" % f, E.compare("==", cx.get(l, f), NULL))
        cx.same("no difference quotient Jacobian", zi(cx.get(l, "jacDQ")), 0); cx.same("no user system function", zi(cx.get(l, "user_linsys")), 0)
    if jtdq:
        cx.ob("no setup for the internal product", E.compare("==", cx.get(l, "jtsetup"), NULL))
        cx.same("the internal product", cx.get(l, "jtimes"), FnVal("cvLsDQJtimes")); me("jt_data")
    else:
        cx.same("the user's product", cx.get(l, "jtimes"), ujt); cx.same("and its setup", cx.get(l, "jtsetup"), ujs); usr("jt_data")
    if kind == EMB or (not mat and not pset):
        cx.ob("no setup of the linear solver", E.compare("==", cx.get(m.p, "cv_lsetup"), NULL))
    else:
        cx.same("setup of the linear solver", cx.get(m.p, "cv_lsetup"), lset)
    cx.same("scaling of the solution", zi(cx.get(l, "scalesol")), 0 if kind == EMB else sc)
for a in ((1, DIRECT, 1, 1, 0, 0, 0), (1, DIRECT, 0, 1, 0, 1, 0), (1, DIRECT, 1, 1, 1, 1, 0), (0, ITER, 0, 1, 0, 0, 1), (0, ITER, 1, 0, 0, 0, 0), (0, EMB, 0, 1, 0, 0, 1), (1, MITER, 0, 0, 0, 1, 1)):
    unit("cvLsInitialize: matrix %d kind %d difference quotient %d %d system function %d saved %d preconditioner %d" % a, lambda cx, a=a: init(cx, *a))

# ---------------------------------------------------------------- what the user sets
def setters(cx, mat):
    E = cx.E
    n = cx.N("N", 1)
    A = sunmat.mat(cx, "A", n, n) if mat else None
    m, l, S = block(cx, n, A=A.p if mat else NULL)
    ud = udata(cx, m)
    ujac, uls = (user(cx, k, lambda E, a: E.fint("r")) for k in ("user_jac", "user_linsys"))
    j0, l0 = (user(cx, k, lambda E, a: E.fint("r")) for k in ("old_jac", "old_linsys"))
    cx.set(l, "jac", j0); cx.set(l, "linsys", l0)
    lmm, mb, sc = zi(now(cx, m, "cv_lmm")), zi(cx.get(l, "matrixbased")), zi(cx.get(l, "scalesol"))
    ep, ms, on = cx.real("eplifac_"), z3.Int("msbj_"), z3.Int("onoff")
    ep0, ms0 = zr(cx.get(l, "eplifac")), zi(cx.get(l, "msbj"))
    cx.start()
    G = lambda f: cx.get(l, f)
    r = zi(cx.fn("CVodeSetEpsLin", [m.p, ep], LSF))
    cx.ob("tolerance factor: result", r == z3.If(ep < 0, z3.IntVal(-3), z3.IntVal(0)))
    cx.ob("tolerance factor", zr(G("eplifac")) == z3.If(ep < 0, ep0, z3.If(ep == 0, D(.05), ep)))
    r = zi(cx.fn("CVodeSetJacEvalFrequency", [m.p, ms], LSF))
    cx.ob("steps between Jacobians: result", r == z3.If(ms < 0, z3.IntVal(-3), z3.IntVal(0)))
    cx.ob("steps between Jacobians", zi(G("msbj")) == z3.If(ms < 0, ms0, z3.If(ms == 0, z3.IntVal(51), ms)))
    r = zi(cx.fn("CVodeSetLinearSolutionScaling", [m.p, on], LSF))
    ok = z3.And(mb != 0, lmm == 2)
    cx.ob("scaling: result", r == z3.If(ok, z3.IntVal(0), z3.IntVal(-3)))
    cx.ob("scaling", zi(G("scalesol")) == z3.If(ok, on, sc))
    def internal():
        cx.same("the internal system function", G("linsys"), FnVal("cvLsLinSys")); cx.same("its data", G("A_data"), m.p)
        cx.same("no user system function", zi(G("user_linsys")), 0)
    r = zi(cx.fn("CVodeSetLinSysFn", [m.p, uls], LSF))
    cx.same("system function: result", r, 0 if mat else -3)
    if mat:
        cx.same("system function", G("linsys"), uls); cx.same("its data", G("A_data"), ud); cx.ob("it is the user's", zi(G("user_linsys")) != 0)
    else:
        cx.same("system function stays", G("linsys"), l0)
    r = zi(cx.fn("CVodeSetJacFn", [m.p, ujac], LSF))
    cx.same("Jacobian: result", r, 0 if mat else -3)
    if mat:
        cx.same("Jacobian", G("jac"), ujac); cx.same("its data", G("J_data"), ud); cx.same("no difference quotient", zi(G("jacDQ")), 0)
        internal()
    else:
        cx.same("Jacobian stays", G("jac"), j0)
    cx.same("default system function: result", zi(cx.fn("CVodeSetLinSysFn", [m.p, NULL], LSF)), 0)
    internal()
    if mat:
        cx.fn("CVodeSetLinSysFn", [m.p, uls], LSF)
    cx.same("default Jacobian: result", zi(cx.fn("CVodeSetJacFn", [m.p, NULL], LSF)), 0)
    cx.same("default Jacobian", G("jac"), FnVal("cvLsDQJac")); cx.same("its data", G("J_data"), m.p); cx.ob("difference quotient", zi(G("jacDQ")) != 0)
    internal()
    cx.frame(keys(cx, m, l, lff=("eplifac", "msbj", "scalesol", "jac", "J_data", "jacDQ", "linsys", "A_data", "user_linsys")))
unit("what the user sets", lambda cx: setters(cx, 1))
unit("what the user sets, no matrix", lambda cx: setters(cx, 0))
def nrmfac(cx):
    E = cx.E
    n = cx.N("N", 1)
    m, l, S = block(cx, n)
    yt, = vf(cx, n, "ytemp")
    cx.set(l, "ytemp", yt)
    f = cx.real("nrmfac_")
    ones, _ = C.dsum(E, 0, n, lambda t: z3.RealVal(1))
    cx.start()
    r = zi(cx.fn("CVodeSetLSNormFactor", [m.p, f], LSF))
    cx.same("result", r, 0)
    cx.ob("factor between the norms", zr(cx.get(l, "nrmfac")) == z3.If(f > 0, f, z3.If(f < 0, C.sq_root(ones(zi(n))), C.sq_root(z3.ToReal(n)))))
    cx.frame({**keys(cx, m, l, lff=("nrmfac",)), harness.v_data[yt.rid]: None})
unit("CVodeSetLSNormFactor", nrmfac)
def nolmem2(cx):
    n = cx.N("N", 1)
    m, l, S = block(cx, n)
    cx.set(m.p, "cv_lmem", NULL)
    y, = vf(cx, n, "y")
    none = bool(cx.choice("no integrator")) if hasattr(cx, "choice") else False
    cx.start()
    for who, want in ((m.p, -2), (NULL, -1)):
        for fn, a in (("CVodeSetEpsLin", [z3.Real("e")]), ("CVodeSetJacEvalFrequency", [z3.Int("k")]), ("CVodeSetLinearSolutionScaling", [1]), ("CVodeSetLSNormFactor", [z3.Real("x")]), ("CVodeSetLinSysFn", [NULL]), ("CVodeSetJacFn", [NULL])):
            cx.same("%s without one" % fn, zi(cx.fn(fn, [who] + a, LSF)), want)
        cx.same("cvLsPSetup without one", zi(cx.fn("cvLsPSetup", [who], LSF)), want)
        cx.same("cvLsATimes without one", zi(cx.fn("cvLsATimes", [who, y, y], LSF)), want)
        cx.same("cvLsPSolve without one", zi(cx.fn("cvLsPSolve", [who, y, y, z3.Real("tol"), 1], LSF)), want)
    cx.frame()
unit("the functions above without a linear solver or an integrator", nolmem2)

# ---------------------------------------------------------------- attaching a linear solver
def attach(cx, kind, mat, old, fail, missing=None):
    """kind of the solver, a matrix given or not, a previous interface block or not, which of its operations fails"""
    E = cx.E
    n = cx.N("N", 1)
    A = sunmat.mat(cx, "A", n, n) if mat else None
    s = dict(at=0, pc=0)
    def sat(E, a):
        s["at"] += 1
        cx.same("the integrator", a[1], m.p); cx.same("its product", a[2], FnVal("cvLsATimes"))
        s["atr"] = E.fint("setatimes_returns")
        return s["atr"]
    def spc(E, a):
        s["pc"] += 1
        cx.same("the integrator", a[1], m.p)
        cx.ob("no preconditioner yet", E.compare("==", a[2], NULL))
        s["pcr"] = E.fint("setpreconditioner_returns")
        return s["pcr"]
    m, l, S = block(cx, n)
    o = dict(setatimes=NULL, setpreconditioner=NULL, gettype=user(cx, "ls_type", lambda E, a: kind), solve=user(cx, "ls_solve", lambda E, a: E.fint("r")))
    if kind in (ITER,):
        o.update(setatimes=user(cx, "ls_setatimes", sat), setpreconditioner=user(cx, "ls_setprec", spc))
    if missing:
        o[missing] = NULL
    S = cx.struct("LS_new", LSO, dict(ops=cx.struct("LSn_ops", "struct _generic_SUNLinearSolver_Ops", o), content=NULL, sunctx=NULL))
    tv, = vf(cx, n, "tempv_")
    cx.set(m.p, "cv_tempv", tv)
    f = user(cx, "rhs", lambda E, a: E.fint("r"))
    cx.set(m.p, "cv_f", f)
    ud = udata(cx, m)
    lmm = zi(now(cx, m, "cv_lmm"))
    old_l = cx.get(m.p, "cv_lmem")
    if old:
        for k in ("ytemp", "x", "savedJ", "pfree", "A"):
            cx.set(l, k, NULL)
        cx.set(m.p, "cv_lfree", FnVal("cvLsFree"))
    else:
        cx.set(m.p, "cv_lfree", NULL); cx.set(m.p, "cv_lmem", NULL)
        old_l = NULL
    cx.start()
    r = zi(cx.fn("CVodeSetLinearSolver", [m.p, S, A.p if mat else NULL], LSF))
    bad = missing in ("solve", "gettype") or (kind == EMB and mat) or (kind == ITER and missing == "setatimes") or (kind in (MITER, DIRECT) and not mat)
    if bad:
        cx.same("an unusable combination is refused", r, -3)
        cx.frame()
        return
    cx.ob("a previous linear solver is released", z3.BoolVal((l.rid in E.st.dead) == bool(old)))
    if E.prove(r != 0)[0] is True:
        c = cx.get(m.p, "cv_lmem")
        cx.ob("a failure leaves no released block attached", z3.BoolVal(isnull(cx, c) or c.rid not in E.st.dead))
        return
    g = cx.get(m.p, "cv_lmem")
    cx.ob("there is a block of its own", z3.BoolVal(isinstance(g, Ptr) and g.rid != l.rid))
    g = Ptr(g.rid, g.field, g.coords, g.dim, LM)
    G = lambda f: cx.get(g, f)
    cx.same("solver", G("LS"), S)
    cx.same("iterative", zi(G("iterative")), 0 if kind == DIRECT else 1); cx.same("with a matrix", zi(G("matrixbased")), 1 if kind in (DIRECT, MITER) else 0)
    if mat:
        cx.same("matrix", G("A"), A.p); cx.same("Jacobian", G("jac"), FnVal("cvLsDQJac")); cx.same("its data", G("J_data"), m.p); cx.same("by difference quotients", zi(G("jacDQ")), 1)
    else:
        for k in ("A", "jac", "J_data"):
            cx.ob("no %s" % k, E.compare("==", G(k), NULL))
        cx.same("no difference quotients", zi(G("jacDQ")), 0)
    cx.ob("no saved Jacobian yet", E.compare("==", G("savedJ"), NULL))
    cx.same("product", G("jtimes"), FnVal("cvLsDQJtimes")); cx.same("its data", G("jt_data"), m.p); cx.same("its right-hand side", G("jt_f"), f); cx.ob("the internal one", zi(G("jtimesDQ")) != 0)
    cx.same("system function", G("linsys"), FnVal("cvLsLinSys")); cx.same("its data", G("A_data"), m.p); cx.same("the internal one", zi(G("user_linsys")), 0)
    for k in ("jtsetup", "pset", "psolve", "pfree"):
        cx.ob("no %s" % k, E.compare("==", G(k), NULL))
    cx.same("data of the preconditioner", G("P_data"), ud)
    for k in CNT:
        cx.same("%s starts from zero" % k, zi(G(k)), 0)
    cx.same("steps between Jacobians", zi(G("msbj")), 51); cx.same("tolerance factor", zr(G("eplifac")), D(.05)); cx.same("last result", zi(G("last_flag")), 0); cx.ob("no Jacobian to keep yet", zi(G("jbad")) != 0)
    cx.ob("the solution is scaled with BDF and a matrix", (zi(G("scalesol")) != 0) == (lmm == 2 if kind in (DIRECT, MITER) else z3.BoolVal(False)))
    if kind != DIRECT:
        cx.ob("factor between the norms", zr(G("nrmfac")) == C.sq_root(z3.ToReal(n)))
    for k, fn in (("cv_linit", "cvLsInitialize"), ("cv_lsetup", "cvLsSetup"), ("cv_lsolve", "cvLsSolve"), ("cv_lfree", "cvLsFree")):
        cx.same(k, cx.get(m.p, k), FnVal(fn))
    a_, b_ = G("ytemp"), G("x")
    cx.ob("work vectors of its own", z3.BoolVal(isinstance(a_, Ptr) and isinstance(b_, Ptr) and a_.rid != b_.rid and tv.rid not in (a_.rid, b_.rid)))
for kind, nm in ((DIRECT, "direct"), (ITER, "iterative"), (MITER, "matrix iterative"), (EMB, "embedded")):
    for mat in (0, 1):
        unit("CVodeSetLinearSolver: %s, %s matrix" % (nm, "a" if mat else "no"), lambda cx, k=kind, a=mat: attach(cx, k, a, k in (DIRECT, ITER), 0))
for miss, kind, mat in (("solve", DIRECT, 1), ("gettype", DIRECT, 1), ("setatimes", ITER, 0)):
    unit("CVodeSetLinearSolver without %s" % miss, lambda cx, a=miss, k=kind, mt=mat: attach(cx, k, mt, 1, 0, a))
