"""The corrector iterations themselves: Newton with its retry after a stale Jacobian, and the fixed point iteration.
The functions of the integrator are arbitrary; what they are given, in which order and how often is recorded by ghost state."""
import z3
from . import eng, harness, loops
from .eng import *
from .run import Unit
from .cv import *
from .nls import solver, havoc, index, allof
from .step import B, wr

UNITS = []
NW = "src/sunnonlinsol/newton/sunnonlinsol_newton.c"
FP = "src/sunnonlinsol/fixedpoint/sunnonlinsol_fixedpoint.c"
VF = ("src/nvector/serial/nvector_serial.c", "src/sundials/sundials_nvector.c", "src/sundials/sundials_math.c", "src/sundials/sundials_nonlinearsolver.c")
CONTINUE, RECVR, MEMNULL, ILL = 901, 902, -901, -903
def unit(id, file, body, **k):
    UNITS.append(Unit(id, VF + (file,), body, contracts=CT, **k))

class Gh:
    def __init__(s, cx, names):
        s.cx, s.names = cx, names
        s.p = cx.intarr("ghost", len(names))
        for n in names:
            s[n] = 0
    def q(s, n):
        return Ptr(s.p.rid, (), (s.names.index(n),), "R", s.p.ety)
    def __getitem__(s, n):
        return zi(s.cx.read(s.p, s.names.index(n)))
    def __setitem__(s, n, v):
        wr(s.cx.E, s.q(n), v if isz(v) else z3.IntVal(v))
class GV:
    """a ghost vector"""
    def __init__(s, cx, name, n):
        s.cx, s.n = cx, n
        s.p = cx.realarr(name, n)
        cx.cell(s.p.rid, (0,))
    def __call__(s, i):
        return zr(s.cx.cell(s.p.rid, (i,), False))
    def set(s, f):
        E = s.cx.E
        u = E.fint("u")
        a = E.arr(s.p)
        E.st.mem[(s.p.rid, ())] = a.write(Layer((u,), z3.And(u >= 0, u < zi(s.n)), (u,), zr(f(u))))
def eachi(n, f):
    i = z3.Int("q_i")
    return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zi(n)), f(i)))
def retval(E, name):
    return E.fint(name)

def make(cx, kind, ops=None, **over):
    E = cx.E
    tag = "struct _SUNNonlinearSolverContent_" + kind
    n = cx.N("N", 1)
    cx.template()
    vs = {}
    for f in (["delta"] if kind == "Newton" else ["delta", "yprev", "gy"]):
        vs[f] = cx.vec(f, n)
    d = dict(vs)
    d.update(over)
    c = cx.struct("content", tag, d)
    S = cx.struct("solver", "struct _generic_SUNNonlinearSolver", dict(content=c, ops=cx.struct("solver_ops", "struct _generic_SUNNonlinearSolver_Ops", ops or {}), sunctx=NULL))
    return n, S, c, vs
def same_vec(cx, name, a, v):
    cx.ob(name, z3.BoolVal(isinstance(a, Ptr) and a.rid == v.rid))

# ---------------------------------------------------------------- Newton
def newton(cx, lset, call):
    E = cx.E
    n, S, c, vs = make(cx, "Newton", info_file=NULL)
    cx.set(c, "print_level", 0)
    delta = vs["delta"]
    ycor, y0, w = cx.vec("ycor", n), cx.vec("y0", n), cx.vec("w", n)
    for v in (delta, ycor, y0, w):
        cx.el(v, 0)
    D = lambda i: zr(cx.el(delta, i, False))
    Y = lambda i: zr(cx.el(ycor, i, False))
    mem, data = cx.realarr("integrator", 1), cx.realarr("ctest_data_object", 1)
    cx.set(c, "ctest_data", data)
    g = Gh(cx, ["PH", "LAST", "IT", "SOLVES", "ATT", "SETUPS", "JC"])
    YC, RES, UPD = GV(cx, "expected_correction", n), GV(cx, "residual", n), GV(cx, "update", n)
    YC.set(Y)
    g["JC"] = zi(cx.get(c, "jcur"))
    jc0 = g["JC"]
    E.assume(z3.Or(jc0 == 0, jc0 == 1))
    mx = zi(cx.get(c, "maxiters"))
    tol = cx.real("tol")
    cont = lambda: z3.And(g["PH"] == 3, g["LAST"] == CONTINUE, g["IT"] < mx)
    eff = lambda: z3.If(z3.And(g["PH"] == 3, g["LAST"] == CONTINUE), z3.IntVal(RECVR), g["LAST"])
    # the first residual and the setup of an attempt fail for good; everything after them may be helped by current Jacobian data
    retry = lambda: z3.And(z3.Or(g["PH"] == 2, g["PH"] == 3, z3.And(g["PH"] == 1, g["IT"] > 0)), z3.Not(cont()), eff() > 0, g["JC"] == 0, z3.BoolVal(bool(lset)))
    hv = lambda: havoc(cx, harness.v_data[delta.rid])
    def sys(E, a):
        same_vec(cx, "the residual is evaluated at the correction", a[0], ycor)
        same_vec(cx, "the residual is stored in the work vector", a[1], delta)
        cx.same("the integrator's block", a[2], mem)
        again = z3.And(g["PH"] != 0, z3.Not(cont()))
        cx.ob("a new attempt only after a recoverable failure with Jacobian data that are not current and can be set up", z3.Implies(again, retry()))
        ag = E.branch(again)
        if ag:
            YC.set(lambda i: z3.RealVal(0))
            g["ATT"] = g["ATT"] + 1
            g["IT"] = 0
        i = index(cx, n)
        cx.ob("a new attempt starts from zero, an iteration from the correction before it", Y(i) == YC(i))
        hv()
        RES.set(D)
        r = retval(E, "sys")
        g["LAST"], g["PH"] = r, 1
        return r
    def lsetup(E, a):
        cx.ob("the linear solver is set up once, at the start of an attempt that asks for it", z3.And(g["PH"] == 1, g["LAST"] == 0, g["IT"] == 0, z3.Or(z3.BoolVal(bool(call)), g["ATT"] > 0)))
        cx.ob("the Jacobian is called bad exactly after a failed attempt", (zi(a[0]) != 0) == (g["ATT"] > 0))
        cx.same("the integrator's block", a[2], mem)
        j = E.fint("jcur")
        E.assume(z3.Or(j == 0, j == 1))
        wr(E, a[1], j)
        if E.st.wlog is not None:
            E.st.wlog.append((a[1],))
        r = retval(E, "lsetup")
        g["JC"], g["LAST"], g["PH"], g["SETUPS"] = zi(cx.get(c, "jcur")), r, 4, g["SETUPS"] + 1
        cx.ob("the Jacobian status is the solver's own", zi(cx.get(c, "jcur")) == j)
        return r
    def lsolve(E, a):
        same_vec(cx, "the linear system is solved in the work vector", a[0], delta)
        cx.same("the integrator's block", a[1], mem)
        need = z3.And(g["IT"] == 0, z3.Or(z3.BoolVal(bool(call)), g["ATT"] > 0))
        cx.ob("a linear solve follows the residual of this iteration and the setup that was asked for", z3.And(g["LAST"] == 0, z3.If(need, g["PH"] == 4, g["PH"] == 1)))
        i = index(cx, n)
        cx.ob("the linear system is solved for minus the residual", D(i) == -RES(i))
        cx.ob("the correction is the one the residual belongs to", Y(i) == YC(i))
        hv()
        UPD.set(D)
        r = retval(E, "lsolve")
        g["SOLVES"], g["LAST"], g["PH"] = g["SOLVES"] + 1, r, 2
        return r
    def ctest(E, a):
        cx.same("the solver itself", a[0], S)
        same_vec(cx, "convergence is tested at the correction", a[1], ycor)
        same_vec(cx, "convergence is tested with the update", a[2], delta)
        cx.same("tolerance", zr(a[3]), tol)
        same_vec(cx, "weights", a[4], w)
        cx.same("data of the test", a[5], data)
        cx.ob("convergence is tested after a linear solve", z3.And(g["PH"] == 2, g["LAST"] == 0))
        i = index(cx, n)
        cx.ob("convergence is tested with the update of this iteration", D(i) == UPD(i))
        cx.ob("the correction moves by the update", Y(i) == YC(i) + UPD(i))
        cx.ob("the iteration count seen by the test", zi(cx.get(c, "curiter")) == g["IT"])
        YC.set(Y)
        r = retval(E, "ctest")
        g["LAST"], g["PH"], g["IT"] = r, 3, z3.If(r == CONTINUE, g["IT"] + 1, g["IT"])
        return r
    cx.set(c, "Sys", user(cx, "user_sys", sys))
    cx.set(c, "LSetup", user(cx, "user_lsetup_", lsetup) if lset else NULL)
    cx.set(c, "LSolve", user(cx, "user_lsolve_", lsolve))
    cx.set(c, "CTest", user(cx, "user_ctest", ctest))
    cf = lambda f: zi(cx.get(c, f))
    flags = {}
    def switches(E, tag):
        """the two switches of the attempt loop: those of its integer variables that have a value when it is entered"""
        fr = E.frames[-1]
        if tag not in flags:
            flags[tag] = []
            for did, rid in fr["vars"].items():
                a = E.st.mem.get((rid, ()))
                if a is not None and E.P.kind(E.regions[rid].ety) == "int":
                    try:
                        v = E.read_arr(a, (0,), False)
                    except Unsupported:
                        continue
                    if isnum(v) and not isz(v) and v in (0, 1) or isnum(v) and isz(v) and z3.is_int_value(v):
                        flags[tag].append((did, v))
        return [(zi(E.read_arr(E.st.mem[(fr["vars"][did], ())], (0,), False)), zi(v)) for did, v in flags[tag] if did in fr["vars"]]
    depth = [0]
    def concrete(E, v):
        v = z3.simplify(zi(v))
        return v.as_long() if z3.is_int_value(v) else None
    def outer(E):
        st0 = z3.And(g["PH"] == 0, g["ATT"] == 0, g["SOLVES"] == 0, g["SETUPS"] == 0, g["IT"] == 0, g["JC"] == jc0)
        out = [("nothing done yet, or an attempt that may be repeated", z3.Or(st0, retry())), ("attempts that failed", cf("nconvfails") == z3.If(g["PH"] == 0, z3.IntVal(0), g["ATT"] + 1)),
            ("iterations", cf("niters") == g["SOLVES"]), ("Jacobian status", z3.And(cf("jcur") == g["JC"], z3.Or(g["JC"] == 0, g["JC"] == 1))), ("counts", z3.And(g["ATT"] >= 0, g["IT"] >= 0)),
            ("the correction to start from", eachi(n, lambda i: Y(i) == z3.If(g["PH"] == 0, YC(i), 0)))]
        for v, v0 in switches(E, "outer"):
            out.append(("switches of the attempt", v == z3.If(g["PH"] == 0, v0, z3.IntVal(1))))
        return out
    def inner(E):
        need = z3.And(g["IT"] == 0, z3.Or(z3.BoolVal(bool(call)), g["ATT"] > 0))
        return [("a residual is there", z3.And(g["LAST"] == 0, z3.If(need, g["PH"] == 4, g["PH"] == 1))), ("it belongs to this correction", eachi(n, lambda i: z3.And(D(i) == RES(i), Y(i) == YC(i)))),
            ("iterations of this attempt", z3.And(cf("curiter") == g["IT"], g["IT"] >= 0, z3.Or(g["IT"] == 0, g["IT"] < mx))), ("iterations", cf("niters") == g["SOLVES"]),
            ("attempts that failed", z3.And(cf("nconvfails") == g["ATT"], g["ATT"] >= 0)), ("Jacobian status", z3.And(cf("jcur") == g["JC"], z3.Or(g["JC"] == 0, g["JC"] == 1)))]
    dd = lambda v: (harness.v_data[v.rid], ())
    ghosts = [(g.p.rid, ()), (YC.p.rid, ()), (RES.p.rid, ()), (UPD.p.rid, ())]
    both = ghosts + [dd(ycor), dd(delta)] + [(c.rid, (f,)) for f in ("curiter", "niters", "nconvfails", "jcur")]
    def entered(E):
        return concrete(E, g["PH"]) == 0
    E.loopspecs["*"] = [loops.LoopSpec(outer, both, lambda E, c_, n_: c_ is None and entered(E)),
                        loops.LoopSpec(inner, both, lambda E, c_, n_: (c_ is None or c_.kind == "IntegerLiteral") and not entered(E))]
    E.loopspecs["*"][0].applies = lambda E, c_, n_: (c_ is None or c_.kind == "IntegerLiteral") and entered(E)
    cx.start()
    r = zi(cx.fn("SUNNonlinSolSolve_Newton", [S, y0, ycor, w, tol, 1 if call else 0, mem], NW))
    if call and not lset:
        cx.same("a setup that is asked for but does not exist is refused", r, MEMNULL)
        cx.frame()
        return
    cx.ob("success exactly when the convergence test says so", (r == 0) == z3.And(g["PH"] == 3, g["LAST"] == 0))
    cx.ob("a failure is that of the function that failed, or too many iterations", z3.Implies(r != 0, r == eff()))
    cx.ob("too many iterations only after all of them", z3.Implies(z3.And(r != 0, g["PH"] == 3, g["LAST"] == CONTINUE), g["IT"] >= mx))
    cx.ob("failed attempts are repeated while that can help", z3.Implies(r != 0, z3.Not(retry())))
    i = index(cx, n)
    cx.ob("the correction accepted is the one that was tested", z3.Implies(r == 0, Y(i) == YC(i)))
    cx.ob("after success the Jacobian data are not current any more", z3.Implies(r == 0, cf("jcur") == 0))
    cx.ob("failed attempts are counted", cf("nconvfails") == g["ATT"] + z3.If(r == 0, 0, 1))
    cx.ob("iterations are counted", cf("niters") == g["SOLVES"])
    cx.frame({k_: None for k_ in {(c.rid, (f,)) for f in ("curiter", "niters", "nconvfails", "jcur")} | {dd(ycor), dd(delta)} | set(ghosts)})
for lset, call in ((1, 1), (1, 0), (0, 0), (0, 1)):
    unit("SUNNonlinSolSolve_Newton: %s linear setup, %s" % ("with" if lset else "without", "asked for" if call else "not asked for"), NW, lambda cx, l=lset, k=call: newton(cx, l, k))

# ---------------------------------------------------------------- fixed point
def fixedpoint(cx, acc):
    E = cx.E
    n, S, c, vs = make(cx, "FixedPoint", info_file=NULL)
    cx.set(c, "print_level", 0)
    delta, yprev, gy = vs["delta"], vs["yprev"], vs["gy"]
    ycor, y0, w = cx.vec("ycor", n), cx.vec("y0", n), cx.vec("w", n)
    for v in (delta, yprev, gy, ycor, y0, w):
        cx.el(v, 0)
    el = lambda v: (lambda i: zr(cx.el(v, i, False)))
    D, Y, GY, YP = el(delta), el(ycor), el(gy), el(yprev)
    mem, data = cx.realarr("integrator", 1), cx.realarr("ctest_data_object", 1)
    cx.set(c, "ctest_data", data)
    mm = z3.Int("m")
    if acc:
        E.assume(mm >= 1)
        cx.set(c, "m", mm)
    else:
        cx.set(c, "m", 0)
    g = Gh(cx, ["PH", "LAST", "IT", "CALLS"])
    YC, NEW = GV(cx, "expected_correction", n), GV(cx, "next_correction", n)
    YC.set(Y)
    mx = zi(cx.get(c, "maxiters"))
    E.assume(mx >= 1)
    tol = cx.real("tol")
    def sys(E, a):
        same_vec(cx, "the map is evaluated at the correction", a[0], ycor)
        same_vec(cx, "the map is stored in its work vector", a[1], gy)
        cx.same("the integrator's block", a[2], mem)
        cx.ob("an iteration follows a test that asks for it, within the limit", z3.And(z3.Or(g["PH"] == 0, z3.And(g["PH"] == 3, g["LAST"] == CONTINUE)), g["IT"] < mx))
        i = index(cx, n)
        cx.ob("an iteration starts from the correction before it", Y(i) == YC(i))
        havoc(cx, harness.v_data[gy.rid])
        NEW.set(GY)
        r = retval(E, "sys")
        g["LAST"], g["PH"], g["CALLS"] = r, 1, g["CALLS"] + 1
        return r
    def anderson(E, a):
        cx.same("the solver itself", a[0], S)
        same_vec(cx, "the value of the map", a[1], gy)
        same_vec(cx, "the correction", a[2], ycor)
        same_vec(cx, "the correction before", a[3], yprev)
        cx.ob("the iteration number", zi(a[4]) == g["IT"])
        i = index(cx, n)
        cx.ob("the correction before is the one the map was evaluated at", z3.And(YP(i) == YC(i), GY(i) == NEW(i)))
        cx.ob("acceleration follows the map", z3.And(g["PH"] == 1, g["LAST"] == 0))
        havoc(cx, harness.v_data[ycor.rid]); havoc(cx, harness.v_data[delta.rid])
        NEW.set(Y)
        return 0
    if acc:
        stub(cx, "AndersonAccelerate", anderson, "AndersonAccelerate leaves some next correction (its least squares problem is not under contract)")
    def ctest(E, a):
        cx.same("the solver itself", a[0], S)
        same_vec(cx, "convergence is tested at the correction", a[1], ycor)
        same_vec(cx, "convergence is tested with the change", a[2], delta)
        cx.same("tolerance", zr(a[3]), tol)
        same_vec(cx, "weights", a[4], w)
        cx.same("data of the test", a[5], data)
        cx.ob("convergence is tested after the map was evaluated", z3.And(g["PH"] == 1, g["LAST"] == 0))
        i = index(cx, n)
        cx.ob("the correction is the value of the map", Y(i) == NEW(i))
        cx.ob("convergence is tested with the change of the correction", D(i) == NEW(i) - YC(i))
        cx.ob("the iteration count seen by the test", zi(cx.get(c, "curiter")) == g["IT"])
        YC.set(Y)
        r = retval(E, "ctest")
        g["LAST"], g["PH"], g["IT"] = r, 3, z3.If(r == CONTINUE, g["IT"] + 1, g["IT"])
        return r
    cx.set(c, "Sys", user(cx, "user_sys", sys))
    cx.set(c, "CTest", user(cx, "user_ctest", ctest))
    cf = lambda f: zi(cx.get(c, f))
    def inv(E):
        return [("the last test asks for another iteration", z3.Or(z3.And(g["PH"] == 0, g["IT"] == 0, g["CALLS"] == 0), z3.And(g["PH"] == 3, g["LAST"] == CONTINUE))),
            ("iterations", z3.And(cf("curiter") == g["IT"], cf("niters") == g["IT"], g["CALLS"] == g["IT"], g["IT"] >= 0, g["IT"] <= mx)), ("no failure", cf("nconvfails") == 0),
            ("the correction", eachi(n, lambda i: Y(i) == YC(i)))]
    dd = lambda v: (harness.v_data[v.rid], ())
    ghosts = [(g.p.rid, ()), (YC.p.rid, ()), (NEW.p.rid, ())]
    both = ghosts + [dd(v) for v in (ycor, delta, yprev, gy)] + [(c.rid, (f,)) for f in ("curiter", "niters", "nconvfails")]
    E.loopspecs["*"] = loops.LoopSpec(inv, both, lambda E, c_, n_: True)
    cx.start()
    r = zi(cx.fn("SUNNonlinSolSolve_FixedPoint", [S, y0, ycor, w, tol, z3.Int("callSetup"), mem], FP))
    full = z3.And(g["PH"] == 3, g["LAST"] == CONTINUE)
    cx.ob("success exactly when the convergence test says so", (r == 0) == z3.And(g["PH"] == 3, g["LAST"] == 0))
    cx.ob("a failure is that of the function that failed, or too many iterations", z3.Implies(r != 0, r == z3.If(full, z3.IntVal(RECVR), g["LAST"])))
    cx.ob("too many iterations only after all of them", z3.Implies(full, g["IT"] == mx))
    i = index(cx, n)
    cx.ob("the correction accepted is the one that was tested", z3.Implies(r == 0, Y(i) == YC(i)))
    cx.ob("a failure is counted", cf("nconvfails") == z3.If(r == 0, 0, 1))
    cx.ob("iterations are counted", cf("niters") == z3.If(g["PH"] == 3, g["CALLS"], g["CALLS"] - 1))
    cx.frame({k_: None for k_ in {(c.rid, (f,)) for f in ("curiter", "niters", "nconvfails")} | {dd(v) for v in (ycor, delta, yprev, gy)} | set(ghosts)})
unit("SUNNonlinSolSolve_FixedPoint", FP, lambda cx: fixedpoint(cx, 0))
unit("SUNNonlinSolSolve_FixedPoint with acceleration", FP, lambda cx: fixedpoint(cx, 1))

# ---------------------------------------------------------------- setting up and asking
KINDS = {"Newton": NW, "FixedPoint": FP}
def access(cx, kind, null):
    """initialise, set, get: through the generic functions"""
    E = cx.E
    fnv = lambda f: FnVal("SUNNonlinSol%s_%s" % (f, kind))
    names = dict(setsysfn="SetSysFn", setctestfn="SetConvTestFn", setmaxiters="SetMaxIters", getnumiters="GetNumIters", getcuriter="GetCurIter", getnumconvfails="GetNumConvFails", initialize="Initialize", gettype="GetType")
    if kind == "Newton":
        names.update(setlsetupfn="SetLSetupFn", setlsolvefn="SetLSolveFn")
    for f in names.values():
        if E.P.find_any("SUNNonlinSol%s_%s" % (f, kind)) is None:
            raise Unsupported("SUNNonlinSol%s_%s does not exist" % (f, kind))
    file = KINDS[kind]
    if null:
        cx.template()
        cx.start()
        out = cx.out("int")
        for f, args in (("Initialize", []), ("SetSysFn", [FnVal("user_sys")]), ("SetConvTestFn", [FnVal("user_ctest"), NULL]), ("SetMaxIters", [3]), ("GetNumIters", [out]), ("GetCurIter", [out]), ("GetNumConvFails", [out])) + ((("SetLSetupFn", [NULL]), ("SetLSolveFn", [FnVal("user_lsolve_")])) if kind == "Newton" else ()):
            cx.same("SUNNonlinSol%s refuses a missing solver" % f, zi(cx.fn("SUNNonlinSol%s_%s" % (f, kind), [NULL] + args, file)), MEMNULL)
        cx.frame()
        return
    fs = {f: FnVal("user_" + f) for f in ("Sys", "LSetup", "LSolve", "CTest")}
    have = {f: (E.fbool("has " + f)) for f in fs}
    n, S, c, vs = make(cx, kind, ops={k: fnv(v) for k, v in names.items()})
    miss = False
    for f in (("Sys", "LSolve", "CTest") if kind == "Newton" else ("Sys", "CTest")):
        b = E.branch(have[f])
        cx.set(c, f, fs[f] if b else NULL)
        miss = miss or not b
    data = cx.realarr("ctest_data_object", 1)
    cx.start()
    G_ = "src/sundials/sundials_nonlinearsolver.c"
    cf = lambda f: cx.get(c, f)
    r = zi(cx.fn("SUNNonlinSolInitialize", [S], G_))
    cx.same("ready exactly with every function it needs", r, MEMNULL if miss else 0)
    if not miss:
        for f in ["niters", "nconvfails"] + (["jcur"] if kind == "Newton" else []):
            cx.same("%s starts at zero" % f, zi(cf(f)), 0)
    cx.same("kind of solver", zi(cx.fn("SUNNonlinSolGetType", [S], G_)), 0 if kind == "Newton" else 1)
    for f, call in (("Sys", "SetSysFn"),) + ((("LSolve", "SetLSolveFn"),) if kind == "Newton" else ()):
        old = cf(f)
        cx.same("a missing function is refused", zi(cx.fn("SUNNonlinSol" + call, [S, NULL], G_)), ILL)
        cx.same("nothing changes then", cf(f), old)
        nf = FnVal("another_" + f)
        cx.same("a function is accepted", zi(cx.fn("SUNNonlinSol" + call, [S, nf], G_)), 0)
        cx.same("and used", cf(f), nf)
    if kind == "Newton":
        nf = FnVal("another_LSetup")
        cx.same("a linear setup is accepted", zi(cx.fn("SUNNonlinSolSetLSetupFn", [S, nf], G_)), 0)
        cx.same("and used", cf("LSetup"), nf)
        cx.same("or none", zi(cx.fn("SUNNonlinSolSetLSetupFn", [S, NULL], G_)), 0)
        cx.same("which is remembered", cf("LSetup"), NULL)
    cx.same("a missing test is refused", zi(cx.fn("SUNNonlinSolSetConvTestFn", [S, NULL, data], G_)), ILL)
    nf = FnVal("another_CTest")
    cx.same("a test is accepted", zi(cx.fn("SUNNonlinSolSetConvTestFn", [S, nf, data], G_)), 0)
    cx.same("and used", cf("CTest"), nf)
    cx.same("with its data", cf("ctest_data"), data)
    k = z3.Int("limit")
    old = zi(cf("maxiters"))
    r = zi(cx.fn("SUNNonlinSolSetMaxIters", [S, k], G_))
    cx.ob("the limit of the iterations is at least one", r == z3.If(k < 1, z3.IntVal(ILL), z3.IntVal(0)))
    cx.same("the limit", zi(cf("maxiters")), z3.If(k < 1, old, k))
    for f, field, ety in (("GetNumIters", "niters", "long"), ("GetCurIter", "curiter", "int"), ("GetNumConvFails", "nconvfails", "long")):
        out = cx.out(ety, "out_" + f)
        cx.same("asked", zi(cx.fn("SUNNonlinSol" + f, [S, out], G_)), 0)
        cx.same("the answer of " + f, zi(cx.read(out, 0)), zi(cf(field)))
    outs = {(R, ()) for R in [r_ for r_ in E.regions if E.regions[r_].name.startswith("out")]}
    cx.frame({**{(c.rid, (f,)): None for f in ("niters", "nconvfails", "jcur", "Sys", "LSolve", "LSetup", "CTest", "ctest_data", "maxiters")}, **{k_: None for k_ in outs}})
for kind in KINDS:
    unit("%s solver: initialise, set, get" % kind, KINDS[kind], lambda cx, k=kind: access(cx, k, False))
    unit("%s solver: no solver" % kind, KINDS[kind], lambda cx, k=kind: access(cx, k, True))
def damping(cx):
    E = cx.E
    n, S, c, vs = make(cx, "FixedPoint")
    if E.P.find_any("SUNNonlinSolSetDamping_FixedPoint") is None:
        raise Unsupported("no damping")
    b = cx.real("beta")
    b0, d0 = zr(cx.get(c, "beta")), zi(cx.get(c, "damping"))
    cx.start()
    r = zi(cx.fn("SUNNonlinSolSetDamping_FixedPoint", [S, b], FP))
    cx.ob("the damping factor is positive", r == z3.If(b <= 0, z3.IntVal(ILL), z3.IntVal(0)))
    cx.same("the factor used", zr(cx.get(c, "beta")), z3.If(b <= 0, b0, z3.If(b < 1, b, z3.RealVal(1))))
    cx.ob("damping below one only", z3.If(b <= 0, zi(cx.get(c, "damping")) == d0, (zi(cx.get(c, "damping")) != 0) == (b < 1)))
    cx.frame({(c.rid, (f,)): None for f in ("beta", "damping")})
unit("SUNNonlinSolSetDamping_FixedPoint", FP, damping)
def create(cx, kind):
    E = cx.E
    n = cx.N("N", 1)
    eng.MALLOC_MAY_FAIL[0] = False
    y = cx.vec("y", n)
    cx.el(y, 0)
    cx.start()
    args = [y, cx.sunctx()] if kind == "Newton" else [y, 0, cx.sunctx()]
    S = cx.fn("SUNNonlinSol_" + kind, args, KINDS[kind])
    c = cx.get(S, "content")
    ops = cx.get(S, "ops")
    for f, v in dict(maxiters=3, niters=0, nconvfails=0, curiter=0, **(dict(jcur=0) if kind == "Newton" else dict(m=0, damping=0))).items():
        cx.same("%s of a new solver" % f, zi(cx.get(c, f)), v)
    for f in ("Sys", "CTest", "ctest_data") + (("LSetup", "LSolve") if kind == "Newton" else ()):
        cx.same("%s of a new solver" % f, cx.get(c, f), NULL)
    for o, f in dict(gettype="GetType", initialize="Initialize", solve="Solve", free="Free", setsysfn="SetSysFn", setctestfn="SetConvTestFn", setmaxiters="SetMaxIters", getnumiters="GetNumIters", getcuriter="GetCurIter", getnumconvfails="GetNumConvFails").items():
        cx.same("operation %s" % o, cx.get(ops, o), FnVal("SUNNonlinSol%s_%s" % (f, kind)))
    seen = []
    for f in (["delta"] if kind == "Newton" else ["delta", "yprev", "gy"]):
        v = cx.get(c, f)
        cx.ob("%s has the length of the vectors" % f, zi(cx.get(cx.get(v, "content"), "length")) == n)
        seen.append(cx.get(cx.get(v, "content"), "data").rid)
    cx.ob("work vectors of their own", z3.BoolVal(len(set(seen)) == len(seen) and harness.v_data[y.rid] not in seen))
    cx.frame()
for kind in KINDS:
    unit("SUNNonlinSol_%s" % kind, KINDS[kind], lambda cx, k=kind: create(cx, k))
