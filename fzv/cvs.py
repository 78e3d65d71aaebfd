"""The CVODES callbacks and the ODE solution functions: specifications.

N_Vectors, vector arrays and c_ptr values are ghost objects that stand for real arrays; the accessors of the
Fortran interface of SUNDIALS (FN_VGetArrayPointer and the like) are external procedures with assumed contracts."""
import z3
from .core import *
from .interp import *
from . import interp, intrin
from .harness import *
from .state import *
from .state import Block, CallContract, scope_contracts, cat
from .scene import *

class NV:
    """an N_Vector: its data is what the reference denotes"""
    vt = ("type", "n_vector", 0)
    def __init__(s, data, n):
        s.data, s.n = data, n
class NVArr:
    """an array of N_Vectors: column k+1 of a matrix is vector k"""
    vt = ("type", "c_ptr", 0)
    def __init__(s, root, n, ns):
        s.root, s.n, s.ns = root, n, ns
class CPtr:
    vt = ("type", "c_ptr", 0)
    def __init__(s, ref, n=None):
        s.ref, s.n = ref, n
class First(tuple):
    """the section of size 1 that a vector's data pointer has; n elements follow it in memory"""

def opaque(a, what, cls):
    v = a.val()
    if isinstance(v, Ref):
        v = a.ip.deref(v)
    if not isinstance(v, cls):
        raise Unsupported("%s of %r" % (what, v))
    return v

def column(A, k):
    return Ref(A.root, (("s", (("r", iv(1), A.n, iv(1)), ("i", norm(k + 1)))),))

def resolve(ip, ref):
    """follows pointers and rebasing at the end of a reference"""
    while True:
        sels = ref.sels
        while sels and sels[-1] == ("rebase",):
            sels = sels[:-1]
        ref = Ref(ref.root, sels)
        v = ip.read(ref)
        if not isinstance(v, Ref):
            return ref
        ref = v

def install(ip):
    e = ip.e
    def arrptr(ip, pos, kw):
        # as in the Fortran interface: the shape is always [1]
        v = opaque(pos[0], "data", NV)
        f = First(("s", (("r", iv(1), iv(1), iv(1)),)))
        f.n = v.n
        return Ref(v.data.root, v.data.sels + (f,))
    def cloc(ip, pos, kw):
        ref = pos[0].ref
        s = ref.sels
        while s and s[-1] == ("rebase",):
            s = s[:-1]
        if s and s[-1][0] == "i":
            for x in s[-1][1]:
                e.oblige(norm(x) == 1, "the address of a vector's data is that of its first element", "bounds")
            s = s[:-1]
        elif not (s and isinstance(s[-1], First)):
            ref = resolve(ip, ref)
            s = ref.sels
        if s and isinstance(s[-1], First):
            return CPtr(Ref(ref.root, s[:-1]), s[-1].n)
        return CPtr(Ref(ref.root, s))
    ip.ext["c_loc"] = cloc
    def length(ip, pos, kw):
        return Sc("integer", opaque(pos[0], "length", NV).n)
    def vecat(ip, pos, kw):
        A = opaque(pos[0], "element", NVArr)
        k = pos[1].val().t
        e.oblige(z3.And(k >= 0, k < A.ns), "index of a vector array", "bounds")
        return Ref(e.cell(NV(column(A, k), A.n)))
    ip.ext["fn_vgetarraypointer"] = arrptr
    ip.ext["fn_vgetlength"] = length
    ip.ext["fn_vgetvecatindexvectorarray"] = vecat
    def cfp(ip, args):
        ip.ext_used.add("c_f_pointer")
        p = opaque(ip.actual(args[0]), "target", CPtr)
        ref = p.ref
        if len(args) > 2:
            sh = ip.ev(args[2])
            n = [p.n] if p.n is not None else ip.read(ref).extents()
            if len(n) != 1:
                raise Unsupported("c_f_pointer to an array of rank %d" % len(n))
            k = sh.get((iv(1),)).t
            e.oblige(k <= n[0], "c_f_pointer: no more elements than the target has", "bounds")
            if not e.entails(k == n[0]):
                ref = Ref(ref.root, ref.sels + (("s", (("r", iv(1), k, iv(1)),)),))
        ip.ptr_write(args[1], ref)
    intrin.SUBS["c_f_pointer"] = cfp

def real_arr(e, nm, dims):
    f = z3.Function(nm, *([I] * len(dims)), R)
    return Arr.base(e, ("real", None), list(dims), lambda idx: Sc("real", f(*[norm(i) for i in idx]))), f

class UserRhs:
    """f(t, y, f [, p]) of its arguments only: records on top of the tape; each result is a variable of the scope"""
    def __init__(s, r, sc, n, m, y, pv, t, par):
        s.sc, s.e, s.n, s.m, s.y, s.pv, s.t, s.par = sc, r.e, n, m, y, pv, t, par
        s.calls = 0
    def handler(s, ip, pos, kw):
        e, sc = s.e, s.sc
        s.calls += 1
        if s.calls > 1:
            raise Unsupported("the right-hand side is evaluated more than once")
        c0 = CAT[0]
        st = dict(e.store)
        names = ["t", "y", "f"] + (["p"] if s.par else [])
        b = dict(zip(names, pos))
        b.update(kw)
        H1 = norm(sc.head(st))
        cat(e, "value")
        e.goal(b["t"].val().t == s.t, "[value] the right-hand side is evaluated at the integrator's time")
        arrs = [("y", b["y"].val(), s.n, s.y)] + ([("p", b["p"].val(), s.m, s.pv)] if s.par else [])
        for nm, xs, cnt, f in arrs + [("f", b["f"].val(), s.n, None)]:
            e.goal(xs.extents()[0] == cnt, "[value] size of argument %s of the right-hand side" % nm)
        def arg(nm, xs, cnt, f):
            def g():
                cat(e, "value")
                i = e.fresh_index(cnt, "i")
                if e.infeasible():
                    return
                m = vi_of(xs.get((i,)))
                e.goal(z3.And(m >= sc.H, m < H1), "[value] argument %s consists of variables of the scope opened for it" % nm)
                arr = sc.storage(st)
                L = norm(sc.nloc(m, st))
                e.goal(arr.real_at(L) == f(i), "[value] argument %s has the values it was given" % nm)
                e.goal(arr.real_at(norm(L + 2)) == 0, "[value] argument %s starts with zero adjoints" % nm)
                for nm2, xs2, cnt2, f2 in arrs:
                    j = e.fresh_index(cnt2, "j")
                    def g2():
                        cat(e, "value")
                        if nm2 == nm:
                            e.add(j != i)
                        if e.infeasible():
                            return
                        e.goal(vi_of(xs2.get((j,))) != m, "[value] the variables given to the right-hand side are distinct")
                    e.sub(g2)
            e.sub(g)
        for a in arrs:
            arg(*a)
        def g3():
            cat(e, "scope")
            e.goal(sc.view(sc.lvl, st).t == sc.nl + 1, "[scope] the right-hand side is evaluated in a scope of its own")
            k = norm(sc.nl + 1)
            e.goal(z3.And(st[sc.nvr.root].get((k,)).t == sc.H, st[sc.ntr.root].get((k,)).t == sc.h), "[scope] that scope starts where the caller's record ends")
        e.sub(g3)
        CAT[0] = c0
        s.st1 = st
        s.ys, s.ps = b["y"].val(), b["p"].val() if s.par else None
        s.blk = Block(sc, "F", last=True)
        s.H2 = s.blk.hi
        s.zf = z3.Function("zf", I, I)
        def elem(idx):
            i = norm(idx[0])
            e.add(z3.Implies(z3.And(i >= 1, i <= s.n), z3.And(s.zf(i) >= sc.H, s.zf(i) < s.H2)))
            return var_struct(s.zf(i))
        ip.write(b["f"].ref, Arr.base(e, ("type", "var"), [s.n], elem))
        return None

def restored(sc, e, ip, st0, st, alloc):
    """the caller's tape is as it was"""
    cat(e, "restore")
    e.goal(sc.head(st) == sc.H, "[restore] the recorded variables are those before the call")
    e.goal(sc.thead(st) == sc.h, "[restore] the free space is that before the call")
    e.goal(sc.view(sc.lvl, st).t == sc.nl, "[restore] no scope stays open")
    q = e.fresh("q")
    e.add(q >= 1, q <= sc.nmax)
    for ref in (sc.nvr, sc.ntr):
        e.goal(value_eq(e, st[ref.root].get((q,)), st0[ref.root].get((q,))), "[restore] the caller's scopes stay as they were")
    def g3():
        cat(e, "restore")
        s1 = sc.storage(st)
        if not isinstance(s1, Arr):
            return
        q = e.fresh("q")
        S = sc.view(sc.tp.f("storage_size"), st).t
        e.add(q >= 1, q <= S)
        if e.decide(q < sc.h):
            e.goal(value_eq(e, s1.get((q,)), BaseCell(sc.base, q)), "[restore] every value, adjoint and operand recorded before is as it was")
        else:
            e.goal(value_eq(e, s1.get((q,)), Sc("integer", iv(0))), "[restore] the free space reads as zero")
    e.sub(g3)
    def g4():
        cat(e, "restore")
        old_nodes(sc, st, e)
    if alloc:
        e.sub(g4)
    for key, rt in ip.globals.items():
        if st[rt] is not st0[rt] and rt not in (sc.cs.root, sc.lvl.root, sc.nvr.root, sc.ntr.root):
            e.fail("[restore] no other global changes", str(key))

FORMS = ("y0", "par", "both")
def verify_sens(P, form, contracts=None, deadline=None):
    runs = []
    for alloc in (True, False):
        r = Run(P, contracts, deadline)
        runs.append(r)
        e, ip = r.e, r.ip
        sc = r.scene(alloc=alloc)
        e.add(sc.nl < sc.nmax)
        sc.scope(sc.nl, sc.nvh)
        install(ip)
        n, m = z3.Int("n"), z3.Int("m")
        e.add(n >= 0, m >= 0)
        par = form != "y0"
        if form == "both":
            e.add(m >= 1)
        ns = {"y0": n, "par": m, "both": norm(n + m)}[form]
        mm = m if par else iv(0)
        ya, y = real_arr(e, "yv", [n])
        fa, _ = real_arr(e, "fv", [n])
        pa, pv = real_arr(e, "pv", [mm])
        Sa, S = real_arr(e, "S", [n, ns])
        Da, D0 = real_arr(e, "Sdot0", [n, ns])
        t = z3.Real("t")
        cy, cf, cp, cS, cD = [e.cell(v) for v in (ya, fa, pa, Sa, Da)]
        uf = UserRhs(r, sc, n, mm, y, pv, t, par)
        D = z3.Function("D", I, I, R)
        for q, c in scope_contracts(sc, uf, D).items():
            if P.find_proc(q.split()[-1]) is not None:
                ip.contracts[q] = c
        fp = AbsProc("user right-hand side", uf.handler)
        other = AbsProc("another right-hand side", lambda ip, pos, kw: (_ for _ in ()).throw(Unsupported("a right-hand side that is not set")))
        ode = Struct("cvs_rhs", {"f": UNDEF, "f_yvar": UNDEF if par else fp, "f_pvar": fp if par else UNDEF, "cvs_f": UNDEF, "cvs_sens": UNDEF,
            "ys": Sc("logical", z3.BoolVal(form != "par")), "ns": Sc("integer", ns), "pval": Ref(cp) if par else NULL})
        co = e.cell(ode)
        name = "CVSensRhsFn (%s)" % form + ("" if alloc else " on a fresh library")
        def run():
            e.where.append(name)
            uf.calls = 0
            st0 = dict(e.store)
            cat(e, "safety")
            p = P.find_proc("fazang_cvodes_model_mod::cvsensrhsfn")
            if p is None:
                raise Unsupported("CVSensRhsFn does not exist")
            vec = lambda c: Actual(ip, v=NV(Ref(c), n))
            acts = [Actual(ip, v=Sc("integer", ns)), Actual(ip, v=Sc("real", t)), vec(cy), vec(cf), Actual(ip, v=NVArr(cS, n, ns)), Actual(ip, v=NVArr(cD, n, ns)),
                Actual(ip, v=CPtr(Ref(co))), Actual(ip, v=NV(Ref(e.cell(fa)), n)), Actual(ip, v=NV(Ref(e.cell(fa)), n))]
            res = ip.in_frame(r.user_frame(), lambda: ip.call_proc(p, acts, {}))
            st = dict(e.store)
            cat(e, "value")
            e.goal(res.t == 0, "[value] success is reported")
            if uf.calls != 1:
                e.fail("[value] the right-hand side is evaluated once", str(uf.calls))
                return
            def g():
                cat(e, "value")
                i = e.fresh_index(n, "i")
                j = e.fresh_index(ns, "j")
                if e.infeasible():
                    return
                got = st[cD].get((i, j)).t
                yloc = lambda k: sc.nloc(vi_of(uf.ys.get((norm(k),))), uf.st1)
                want = e.mksum(n, lambda k: D(uf.zf(i), yloc(k)) * S(norm(k), j))
                if par:
                    off = norm(ns - m)
                    if e.decide(j > off):
                        want = want + D(uf.zf(i), sc.nloc(vi_of(uf.ps.get((norm(j - off),))), uf.st1))
                e.goal(got == want, "[value] the sensitivity right-hand side is J*S plus the parameter Jacobian")
            e.sub(g)
            def g1():
                cat(e, "frame")
                for c, v, what in ((cy, ya, "state"), (cf, fa, "right-hand side"), (cp, pa, "parameters"), (cS, Sa, "sensitivities"), (co, ode, "problem description")):
                    if st[c] is not v:
                        e.fail("[frame] the integrator's %s stays as it was" % what, "")
            e.sub(g1)
            restored(sc, e, ip, st0, st, alloc)
        explore(r, run, name)
    return runs

# ------------------------------------------------------------------ the right-hand side callback
def verify_rhs(P, contracts=None, deadline=None):
    r = Run(P, contracts, deadline)
    e, ip = r.e, r.ip
    sc = r.scene()
    install(ip)
    n = z3.Int("n")
    e.add(n >= 0)
    t = z3.Real("t")
    ya, y = real_arr(e, "yv", [n])
    fa, _ = real_arr(e, "fv", [n])
    Fn = z3.Function("Frhs", I, R)
    cy, cf = e.cell(ya), e.cell(fa)
    calls = [0]
    def user(ip, pos, kw):
        calls[0] += 1
        b = dict(zip(("t", "y", "fy"), pos))
        b.update(kw)
        c0 = CAT[0]
        cat(e, "value")
        e.goal(b["t"].val().t == t, "[value] the right-hand side is evaluated at the integrator's time")
        yv, fv = b["y"].val(), b["fy"].val()
        e.goal(z3.And(yv.extents()[0] == n, fv.extents()[0] == n), "[value] size of the arguments of the right-hand side")
        def g():
            cat(e, "value")
            i = e.fresh_index(n, "i")
            if not e.infeasible():
                e.goal(yv.get((i,)).t == y(i), "[value] the right-hand side is evaluated at the integrator's state")
        e.sub(g)
        CAT[0] = c0
        ip.write(b["fy"].ref, Arr.base(e, ("real", None), [n], lambda idx: Sc("real", Fn(norm(idx[0])))))
    co = e.cell(Struct("cvs_rhs", {"f": AbsProc("user right-hand side", user), "f_yvar": UNDEF, "f_pvar": UNDEF, "cvs_f": UNDEF, "cvs_sens": UNDEF,
        "ys": Sc("logical", z3.Bool("ys")), "ns": Sc("integer", z3.Int("nsens")), "pval": NULL}))
    def run():
        e.where.append("RhsFn")
        calls[0] = 0
        st0 = dict(e.store)
        cat(e, "safety")
        p = P.find_proc("fazang_cvodes_model_mod::rhsfn")
        if p is None:
            raise Unsupported("RhsFn does not exist")
        acts = [Actual(ip, v=Sc("real", t)), Actual(ip, v=NV(Ref(cy), n)), Actual(ip, v=NV(Ref(cf), n)), Actual(ip, v=CPtr(Ref(co)))]
        res = ip.in_frame(r.user_frame(), lambda: ip.call_proc(p, acts, {}))
        st = dict(e.store)
        cat(e, "value")
        e.goal(res.t == 0, "[value] success is reported")
        if calls[0] != 1:
            e.fail("[value] the right-hand side is evaluated once", str(calls[0]))
        def g():
            cat(e, "value")
            i = e.fresh_index(n, "i")
            if not e.infeasible():
                e.goal(st[cf].get((i,)).t == Fn(i), "[value] the integrator gets the values of the right-hand side")
        e.sub(g)
        cat(e, "frame")
        for c in st0:
            if c != cf and st[c] is not st0[c]:
                e.fail("[frame] only the right-hand side vector changes", str(c))
    explore(r, run, "RhsFn")
    return [r]

# ------------------------------------------------------------------ the solution functions
class Tok:
    vt = ("type", "c_ptr", 0)
    def __init__(s, what):
        s.what = what

MEM = dict(ctx=None, rhs=None, t0=None, y=None, user=None, ls=None, ns=None, sens=None, yS=None, ee=None, tol=None, maxn=None, init=False)

class Solver:
    """CVODES by its documented contract, over ghost state"""
    def __init__(s, r, sc, n, form, W):
        s.r, s.sc, s.e, s.n, s.form, s.W = r, sc, r.e, n, form, W
        e, ip = r.e, r.ip
        s.Y = z3.Function("Yat", R, I, R)            # state at a time
        s.S = z3.Function("Sat", R, I, I, R)         # sensitivity k, component i
        ip.ext.update({"fsuncontext_create": s.ctx, "fn_vmake_serial": s.make, "fsundensematrix": s.tok("matrix"), "fsunlinsol_dense": s.tok("solver"),
            "fcvodecreate": s.create, "fcvodeinit": s.init, "fcvodesetuserdata": s.setter("user", 1), "fcvodesetlinearsolver": s.setter("ls", 1),
            "fn_vclonevectorarray": s.clone, "fn_vconst": s.const, "fcvodesensinit": s.sensinit, "fcvodesenseetolerances": s.ee, "fcvode": s.cvode,
            "fcvodegetsens": s.getsens, "c_associated": s.assoc, "c_funloc": lambda ip, pos, kw: s.procv(pos[0]), "associated": s.assoc,
            "fcvodesstolerances": s.tol, "fcvodesetmaxnumsteps": s.maxn})
        intrin.NAMED.update({"cv_normal": Sc("integer", iv(1)), "cv_one_step": Sc("integer", iv(2)), "cv_staggered": Sc("integer", iv(2)), "cv_simultaneous": Sc("integer", iv(1)),
            "cv_staggered1": Sc("integer", iv(3)), "cv_adams": Sc("integer", iv(1)), "cv_bdf": Sc("integer", iv(2)), "cv_success": Sc("integer", iv(0))})
    def procv(s, a):
        v = a.val()
        if isinstance(v, Ref):
            v = s.r.ip.deref(v)
        if not isinstance(v, (ProcV, AbsProc)):
            raise Unsupported("c_funloc of %r" % (v,))
        return v
    def ok(s, what, must=True):
        """a return code: zero when it worked"""
        ierr = s.e.fresh("ierr")
        return Sc("integer", ierr), s.e.decide(ierr == 0)
    def ctx(s, ip, pos, kw):
        ip.write(pos[1].ref, Tok("context"))
        return Sc("integer", iv(0))
    def make(s, ip, pos, kw):
        v = pos[1].val()
        s.goal(z3.And(pos[0].val().t == v.extents()[0], pos[0].val().t == s.n), "[value] the integrator's state has the size of the initial state")
        v = NV(resolve(s.r.ip, pos[1].ref), pos[0].val().t)
        return s.maybe(v)
    def maybe(s, v):
        if s.e.decide(s.e.fresh("allocated", B)):
            return Ref(s.e.cell(v))
        return NULL
    def tok(s, what):
        def f(ip, pos, kw):
            return Ref(s.e.cell(Tok(what)))
        return f
    def create(s, ip, pos, kw):
        s.goal(pos[0].val().t == s.method, "[value] the method asked for is used")
        if s.e.decide(s.e.fresh("created", B)):
            return CPtr(Ref(s.e.cell(Struct("cvmem", dict(MEM)))))
        return CPtr(NULL)
    def assoc(s, ip, pos, kw):
        v = pos[0].val()
        if isinstance(v, CPtr):
            v = v.ref
        if isinstance(v, Undef):
            s.e.fail("associated() of an undefined pointer", "", "bounds")
            raise Infeasible()
        return Sc("logical", z3.BoolVal(not isinstance(v, Null)))
    def goal(s, c, what):
        c0 = CAT[0]
        cat(s.e, "value")
        s.e.oblige(c, what, "pre")
        CAT[0] = c0
    def fails(s, what):
        c0 = CAT[0]
        cat(s.e, "value")
        s.e.fail(what, "")
        CAT[0] = c0
    def mem(s, a):
        p = opaque(a, "solver memory", CPtr)
        if isinstance(p.ref, Null):
            s.fails("[value] a solver that could not be created is not used")
            raise Infeasible()
        return p.ref
    def put(s, m, **kw):
        v = s.e.store[m.root]
        for k, x in kw.items():
            v = v.with_(k, x)
        s.e.store[m.root] = v
    def init(s, ip, pos, kw):
        m = s.mem(pos[0])
        ierr, ok = s.ok("init")
        if ok:
            s.put(m, rhs=s.procv(pos[1]), t0=pos[2].val().t, y=opaque(pos[3], "state", NV), init=True)
            s.goal(pos[2].val().t == s.t0, "[value] integration starts at the initial time")
            s.initial(m)
        return ierr
    def initial(s, m):
        e = s.e
        yv = e.store[m.root].f["y"]
        def g():
            cat(e, "value")
            i = e.fresh_index(s.n, "i")
            if not e.infeasible():
                e.goal(s.r.ip.read(yv.data).get((i,)).t == s.y0(i), "[value] integration starts at the initial state")
        if not e.silent:
            e.sub(g)
    def setter(s, f, i):
        def h(ip, pos, kw):
            s.put(s.mem(pos[0]), **{f: pos[i].val()})
            return Sc("integer", iv(0))
        return h
    def clone(s, ip, pos, kw):
        k = pos[0].val().t
        w = opaque(pos[1], "vector", NV)
        f = s.e.freshfn("clone", I, I, R)
        c = s.e.cell(Arr.base(s.e, ("real", None), [w.n, k], lambda idx: Sc("real", f(*[norm(i) for i in idx]))))
        return NVArr(c, w.n, k)
    def const(s, ip, pos, kw):
        v = opaque(pos[1], "vector", NV)
        ip.write(v.data, Sc("real", intrin.as_real(pos[0].val())))
    def sensinit(s, ip, pos, kw):
        e = s.e
        m = s.mem(pos[0])
        k = pos[1].val().t
        yS = opaque(pos[4], "sensitivities", NVArr)
        s.put(m, ns=k, sens=s.procv(pos[3]), yS=yS)
        s.goal(k == s.ns, "[value] one sensitivity for each variable differentiated against")
        def g():
            cat(e, "value")
            i = e.fresh_index(s.n, "i")
            j = e.fresh_index(s.ns, "j")
            if e.infeasible():
                return
            v = e.store[yS.root].get((i, j)).t
            e.goal(v == (z3.If(i == j, rv(1), rv(0)) if s.form == "y0" else rv(0)), "[value] sensitivities start at the identity (initial state) or at zero (parameters)")
        if not e.silent:
            e.sub(g)
        return Sc("integer", iv(0))
    def ee(s, ip, pos, kw):
        s.put(s.mem(pos[0]), ee=True)
        return Sc("integer", iv(0))
    def tol(s, ip, pos, kw):
        s.goal(z3.And(pos[1].val().t == s.rtol, pos[2].val().t == s.atol), "[value] the tolerances asked for are used")
        s.put(s.mem(pos[0]), tol=True)
        return Sc("integer", iv(0))
    def maxn(s, ip, pos, kw):
        s.goal(pos[1].val().t == s.maxns, "[value] the step limit asked for is used")
        s.put(s.mem(pos[0]), maxn=True)
        return Sc("integer", iv(0))
    def target(s, m):
        """what the integrator will call"""
        f = s.e.store[m.root].f
        if not isinstance(f["rhs"], ProcV) or f["rhs"].p.name != "rhsfn":
            s.fails("[value] the integrator calls the right-hand side callback")
        u = f["user"]
        if not isinstance(u, CPtr):
            s.fails("[value] the callbacks get the problem description")
            raise Infeasible()
        ode = s.r.ip.read(u.ref)
        if ode.f["f"] is not s.user["f"]:
            s.fails("[value] the callback evaluates the user's right-hand side")
        for k in ("ls", "tol", "maxn"):
            if f[k] is None:
                s.fails("[value] the integrator is set up before it is used: %s" % k)
        if s.form == "data":
            return
        if not isinstance(f["sens"], ProcV) or f["sens"].p.name != "cvsensrhsfn" or f["ee"] is not True:
            s.fails("[value] the integrator computes sensitivities with the sensitivity callback")
        which = "f_yvar" if s.form == "y0" else "f_pvar"
        if ode.f[which] is not s.user[which]:
            s.fails("[value] the sensitivity callback evaluates the user's function of vars")
        s.goal(z3.And(ode.f["ns"].t == s.ns, ode.f["ys"].t == z3.BoolVal(s.form == "y0")), "[value] the sensitivity callback is told what to differentiate against")
        if s.form == "par":
            pv = ode.f["pval"]
            if not isinstance(pv, Ref):
                s.fails("[value] the sensitivity callback is given the parameters")
                return
            a = s.r.ip.read(pv)
            s.goal(a.extents()[0] == s.ns, "[value] the sensitivity callback is given all parameters")
            e = s.e
            def g():
                cat(e, "value")
                i = e.fresh_index(s.ns, "i")
                if not e.infeasible():
                    e.goal(a.get((i,)).t == s.pval(i), "[value] the sensitivity callback is given the parameter values")
            if not e.silent:
                e.sub(g)
    def cvode(s, ip, pos, kw):
        e = s.e
        m = s.mem(pos[0])
        if e.store[m.root].f["init"] is not True:
            s.fails("[value] the integrator is initialised before it is used")
            raise Infeasible()
        s.target(m)
        tout = pos[1].val().t
        s.goal(pos[4].val().t == 1, "[value] the integrator is asked for the state at the output time")
        yv = opaque(pos[2], "state", NV)
        ierr, ok = s.ok("cvode")
        if ok:
            f = lambda idx: Sc("real", s.Y(tout, norm(idx[0])))
        else:
            h = e.freshfn("yerr", I, R)
            f = lambda idx: Sc("real", h(norm(idx[0])))
        ip.write(yv.data, Arr.base(e, ("real", None), [s.n], f))
        ip.write(pos[3].ref, Arr.base(e, ("real", None), [iv(1)], lambda idx: Sc("real", tout)))
        s.put(m, t0=Sc("real", tout) if ok else UNDEF)
        return ierr
    def getsens(s, ip, pos, kw):
        e = s.e
        m = s.mem(pos[0])
        t = e.store[m.root].f["t0"]
        if not isinstance(t, Sc):
            s.fails("[value] sensitivities are asked for after a successful step")
            raise Infeasible()
        yS = opaque(pos[2], "sensitivities", NVArr)
        e.store[yS.root] = Arr.base(e, ("real", None), [s.n, s.ns], lambda idx: Sc("real", s.S(t.t, norm(idx[0]), norm(idx[1]))))
        return Sc("integer", iv(0))

def verify_sol(P, form, contracts=None, deadline=None):
    r = Run(P, contracts, deadline)
    e, ip = r.e, r.ip
    sc = r.scene()
    install(ip)
    n, m, K = z3.Int("n"), z3.Int("m"), z3.Int("nout")
    e.add(n >= 0, m >= 0, K >= 0)
    t0, rt, at = z3.Reals("t0 rtol atol")
    W = None
    s = Solver(r, sc, n, form, W)
    s.method, s.rtol, s.atol, s.maxns, s.t0 = z3.Int("method"), rt, at, z3.Int("maxns"), t0
    s.ns = {"data": iv(0), "y0": n, "par": m}[form]
    if form != "data":
        e.add(s.ns >= 1)
    if form == "par":
        e.add(n >= 1)
    op = Ctor("cvodes_sol", "", [("y", "va" if form == "y0" else "da"), ("ts", "da")] + ([("p", "va")] if form == "par" else []), None, None, None)
    op.dims = {"y": ("n",), "ts": ("k",), "p": ("m",)}
    E = setup_args(r, sc, op)
    e.add(E.len["y"][0] == n, E.len["ts"][0] == K)
    s.y0 = E.x["y"]
    if form == "par":
        e.add(E.len["p"][0] == m)
        s.pval = E.x["p"]
    fr = r.user_frame(**E.vs)
    bad = lambda nm: AbsProc(nm, lambda ip, pos, kw: (_ for _ in ()).throw(Unsupported("%s is called outside the integrator" % nm)))
    s.user = {"f": bad("user rhs"), "f_yvar": bad("user rhs of vars"), "f_pvar": bad("user rhs of vars and parameters")}
    s.user["f"].iface, s.user["f_yvar"].iface, s.user["f_pvar"].iface = "cvs_rhs_func", "cvs_rhs_func_yvar", "cvs_rhs_func_pvar"
    opt = Struct("cvodes_tol", {"cv_method": Sc("integer", s.method), "rtol": Sc("real", rt), "atol": Sc("real", at), "max_nstep": Sc("integer", s.maxns)})
    def partials(ip, p, bound):
        val, ops, g = [bound[x].val() for x in p.args]
        s.goal(ops.extents()[0] == g.extents()[0], "[value] one partial for each variable")
        return Struct("var", {"vi": Sc("integer", e.fresh("vi")), "#val": val, "#ops": ops, "#g": g})
    ip.contracts["fazang_eager_adj_mod::var_with_partials"] = CallContract(partials, "C17")
    name = "cvodes_sol (%s)" % form
    pn = {"data": "cvodes_sol_data", "y0": "cvodes_sol_y0_sens", "par": "cvodes_sol_par_sens"}[form]
    def run():
        e.where.append(name)
        st0 = dict(e.store)
        cat(e, "safety")
        p = P.find_proc("fazang_cvodes_mod::" + pn)
        if p is None:
            raise Unsupported(pn + " does not exist")
        v = lambda nm: Actual(ip, ref=fr.vars[nm].ref)
        acts = [Actual(ip, v=Sc("real", t0)), v("y"), v("ts")] + ([v("p")] if form == "par" else []) + [Actual(ip, proc=s.user["f"])]
        if form != "data":
            acts.append(Actual(ip, proc=s.user["f_yvar" if form == "y0" else "f_pvar"]))
        acts.append(Actual(ip, v=opt))
        res = ip.in_frame(fr, lambda: ip.call_proc(p, acts, {}))
        st = dict(e.store)
        cat(e, "value")
        ext = res.extents()
        e.goal(z3.And(ext[0] == n, ext[1] == K), "[value] one result for each state component and output time")
        def g():
            cat(e, "value")
            i = e.fresh_index(n, "i")
            k = e.fresh_index(K, "k")
            if e.infeasible():
                return
            tk = E.x["ts"](k)
            y = res.get((i, k))
            if isinstance(y, Undef) or (isinstance(y, Struct) and isinstance(y.f.get("#val"), Undef)):
                e.fail("[value] each result is set", repr(y)[:200])
                return
            if form == "data":
                e.goal(y.t == s.Y(tk, i), "[value] each result is the integrator's state at that time")
                return
            if not (isinstance(y, Struct) and "#val" in y.f):
                e.fail("[value] each result is created from a value and partials", repr(y)[:200])
                return
            e.goal(y.f["#val"].t == s.Y(tk, i), "[value] each result has the value of the integrator's state at that time")
            ops, gr = y.f["#ops"], y.f["#g"]
            e.goal(ops.extents()[0] == s.ns, "[value] each result depends on every variable differentiated against")
            def g2():
                cat(e, "value")
                j = e.fresh_index(s.ns, "j")
                if e.infeasible():
                    return
                if isinstance(gr.get((j,)), Undef) or isinstance(ops.get((j,)), Undef):
                    e.fail("[value] each partial is set")
                    return
                e.goal(vi_of(ops.get((j,))) == E.m["y" if form == "y0" else "p"](j), "[value] the partials belong to the caller's variables, in order")
                e.goal(gr.get((j,)).t == s.S(tk, i, j), "[value] partial j is the integrator's sensitivity j at that time")
            e.sub(g2)
        e.sub(g)
        cat(e, "frame")
        for key, rt_ in ip.globals.items():
            if st[rt_] is not st0.get(rt_, st[rt_]):
                e.fail("[frame] the library's state only changes by recording the results", str(key))
    explore(r, run, name, stop_ok=True)
    return [r]
