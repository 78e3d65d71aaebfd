"""Units about the state of the library: construction, assignment, scopes, resetting, sweeps."""
import z3
from .core import *
from .interp import *
from .scene import *
from .harness import *
from . import harness, loops

def close_runs(e, outs, name, stops=None):
    """every path ends normally, or stops where the specification allows it"""
    cat(e, "safety")
    live = [o for o in outs if o["stop"] is None]
    for o in outs:
        if o["stop"] is not None:
            e.obs.append(Ob("[safety] no error stop", "post", False, "error stop at line %s" % o["stop"], name, "-", 0))
    if not live:
        e.obs.append(Ob("[safety] some path completes", "post", False, "no path", name, "-", 0))

def call_h(r, name, acts):
    p = r.P.find_proc("fzv_user::" + name)
    return r.ip.call_proc(p, acts, {})

def wf_new(sc, st, e, a):
    """every new record, for any number of them"""
    def g():
        cat(e, "wf")
        s1 = sc.storage(st)
        m = e.fresh("newm")
        e.add(m >= sc.H, m < a.H)
        L = sc.nloc(m, st)
        e.goal(z3.And(L >= sc.h, L + 6 <= a.h), "[wf] new record lies in the appended part of the tape")
        m2 = e.fresh("newm2")
        e.add(m2 > m, m2 < a.H)
        e.goal(sc.nloc(m2, st) >= L + 6, "[wf] new records are disjoint and in order")
    e.sub(g)
    def g2():
        cat(e, "clean")
        s1 = sc.storage(st)
        m = e.fresh("newm")
        e.add(m >= sc.H, m < a.H)
        e.goal(s1.real_at(norm(sc.nloc(m, st) + 2)) == 0, "[clean] new variable starts with a zero adjoint")
    e.sub(g2)

def inert(sc, st, e, m, what="[clean] an independent variable propagates nothing"):
    """the derivative rule of node m, run with an arbitrary adjoint, changes nothing"""
    def g():
        cat(e, "clean")
        ip = sc.ip
        e.store = dict(st)
        node = sc.vnode(m, st)
        c = node.f["chain"]
        if not isinstance(c, (ProcV, AbsProc)):
            e.fail(what, "chain is %r" % (c,))
            return
        L = sc.nloc(m, st)
        arr = sc.storage(st)
        y = e.fresh("anyadj", R)
        pos = norm(L + 2)
        e.store[sc.cs.root] = e.store[sc.cs.root].with_("stack", e.store[sc.cs.root].f["stack"].with_("storage",
            arr.layer(("rng", pos, iv(2), lambda o: Bits(cint(o) - 1, y) if cint(o) is not None else (Bits(0, y) if e.decide(o == 1) else Bits(1, y)), lambda k: y))))
        st2 = dict(e.store)
        me = Actual(ip, ref=Ref(sc.cs.root, sc.cs.sels + (("f", "varis"), ("i", (m,)))))
        ip.call_procval(c, [me], {})
        for k, rt in ip.globals.items():
            if e.store[rt] is not st2[rt]:
                if rt != sc.cs.root:
                    e.fail(what, "writes %s" % (k,))
                    continue
                x, z = st2[rt], e.store[rt]
                for leaf, u, w in loops.diff(x, z):
                    if leaf == (("f", "stack"), ("f", "storage")) and isinstance(w, Arr):
                        q = e.fresh("q")
                        e.add(q >= 1, q <= u.dims[0][1])
                        e.goal(z3.And(u.dims[0][1] == w.dims[0][1], value_eq(e, u.get((q,)), w.get((q,)))), what)
                    else:
                        e.goal(value_eq(e, u, w), what)
        e.store = dict(st)
    e.sub(g)

class Ctor:
    def __init__(s, id, expr, args, shape, val, new, dims=None, inert=True):
        s.id, s.expr, s.args, s.shape, s.val, s.new, s.dims, s.inert = id, expr, args, shape, val, new, dims or {}, inert

def verify_ctor(P, op, contracts=None, deadline=None):
    runs = []
    for alloc in (True, False):
        if not alloc and any(k in ("v", "va", "vm") for _, k in op.args):
            continue
        r = Run(P, contracts, deadline)
        runs.append(r)
        e, ip = r.e, r.ip
        sc = r.scene(alloc=alloc)
        E = setup_args(r, sc, op)
        for n, k in op.args:
            if k == "i":
                e.add(E.x[n] >= 0)
        fr = r.user_frame(**E.vs)
        ex = parse_expr(op.expr)
        def run():
            e.where.append(op.id)
            st0 = dict(e.store)
            cat(e, "safety")
            res = ip.in_frame(fr, lambda: ip.ev(ex))
            st = dict(e.store)
            a = After(sc, st)
            ext = op.shape(E) if op.shape else []
            cat(e, "value")
            if not ext:
                if not (isinstance(res, Struct) and res.tn == "var"):
                    e.fail("[value] the result is a variable", repr(res))
                    return
            else:
                if not (isinstance(res, Arr) and res.rank == len(ext)):
                    e.fail("[value] the result is an array of variables", repr(res))
                    return
                e.goal(z3.And([x == y for x, y in zip(res.extents(), ext)]), "[value] shape of the result")
            e.goal(a.H == sc.H + op.new(E), "[value] number of new variables")
            def elem(idx):
                x = res.get(tuple(idx)) if ext else res
                return vi_of(x)
            def idxs(nm):
                return [e.fresh_index(n, nm) for n in ext]
            def g1():
                cat(e, "value")
                ix = idxs("i")
                if ext and e.infeasible():
                    return
                m = elem(ix)
                e.goal(z3.And(m >= sc.H, m < a.H), "[value] each element is a new variable")
                e.goal(sc.storage(st).real_at(sc.nloc(m, st)) == op.val(E, *ix), "[value] value of each element")
                cat(e, "clean")
                e.goal(sc.storage(st).real_at(norm(sc.nloc(m, st) + 2)) == 0, "[clean] zero adjoint")
                inert(sc, st, e, m)
            e.sub(g1)
            if ext:
                def g2():
                    cat(e, "value")
                    ix, iy = idxs("i"), idxs("j")
                    e.add(z3.Or([x != y for x, y in zip(ix, iy)]))
                    e.goal(elem(ix) != elem(iy), "[value] elements are distinct variables")
                e.sub(g2)
            if alloc:
                check_frame(sc, st0, e)
            else:
                cat(e, "frame")
                check_scopes(sc, st0, e)
            check_wf(sc, st, e, a, records=False)
            wf_new(sc, st, e, a)
        close_runs(e, e.explore(run, op.id), op.id)
    return runs

def ctors():
    Z = lambda E, *i: rv(0)
    one = lambda E: iv(1)
    X = lambda E, *i: E.x["x"](*i)
    L = lambda E: [E.n["n"]]
    out = [Ctor("new var()", "var()", [], None, Z, one),
           Ctor("new var(real)", "var(x)", [("x", "d")], None, lambda E: E.x["x"], one),
           Ctor("new var(real vector)", "var(x)", [("x", "da")], L, X, lambda E: E.n["n"]),
           Ctor("new var(real matrix)", "var(x)", [("x", "dm")], lambda E: [E.n["n"], E.n["m"]], X, lambda E: E.n["n"] * E.n["m"]),
           Ctor("new var(n)", "var(n)", [("n", "i")], lambda E: [E.x["n"]], Z, lambda E: E.x["n"]),
           Ctor("new var(m,n)", "var(m, n)", [("m", "i"), ("n", "i")], lambda E: [E.x["m"], E.x["n"]], Z, lambda E: E.x["m"] * E.x["n"]),
           Ctor("new var(real, operands)", "var(x, a)", [("x", "d"), ("a", "va")], None, lambda E: E.x["x"], one),
           Ctor("new var(real, data)", "var(x, p)", [("x", "d"), ("p", "da")], None, lambda E: E.x["x"], one),
           Ctor("new var(real, operands, data)", "var(x, a, p)", [("x", "d"), ("a", "va"), ("p", "da")], None, lambda E: E.x["x"], one, dims={"p": ("q",)})]
    return out

def bounded_ctors():
    Z = lambda E, *i: rv(0)
    X = lambda E, *i: E.x["x"](*i)
    out = []
    for m, n in SHAPES:
        out.append(Ctor("new var(real matrix %dx%d)" % (m, n), "var(x)", [("x", "dm")], lambda E, m=m, n=n: [iv(m), iv(n)], X, lambda E, c=m * n: iv(c), dims={"x": (m, n)}))
        out.append(Ctor("new var(%d,%d)" % (m, n), "var(%d, %d)" % (m, n), [], lambda E, m=m, n=n: [iv(m), iv(n)], Z, lambda E, c=m * n: iv(c)))
    return out
SHAPES = [(0, 0), (1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2)]

# ------------------------------------------------------------------ helpers about the whole state
def adj_cell_excluded(sc, e, q):
    e.add(z3.Not(sc.ISN(norm(q - 2))), z3.Not(sc.ISN(norm(q - 3))))

def same_rest(sc, e, st0, st, skip, c, what):
    """library state equal to st0 except the listed (callstack) leaves"""
    cat(e, c)
    ip = sc.ip
    for k, rt in ip.globals.items():
        if st[rt] is st0[rt]:
            continue
        if rt == sc.cs.root:
            x, y = st0[rt], st[rt]
            for n in ("head", "n_varis"):
                if n not in skip and x.f[n] is not y.f[n]:
                    e.goal(value_eq(e, x.f[n], y.f[n]), "[%s] %s: call stack %s unchanged" % (c, what, n))
            if "varis" not in skip and x.f["varis"] is not y.f["varis"]:
                def g(x=x, y=y):
                    m = e.fresh("m")
                    e.add(m >= 1, m <= x.f["varis"].dims[0][1])
                    e.goal(x.f["varis"].dims[0][1] == y.f["varis"].dims[0][1], "[%s] %s: number of slots unchanged" % (c, what))
                    e.goal(value_eq(e, y.f["varis"].get((m,)), x.f["varis"].get((m,))), "[%s] %s: records and derivative rules unchanged" % (c, what))
                e.sub(g)
            for n in ("head", "storage_size"):
                a, b = x.f["stack"].f[n], y.f["stack"].f[n]
                if "tape " + n not in skip and a is not b:
                    e.goal(value_eq(e, a, b), "[%s] %s: tape %s unchanged" % (c, what, n))
        elif rt in (sc.lvl.root, sc.nvr.root, sc.ntr.root):
            if "scopes" not in skip:
                check_scopes(sc, st0, e)
        else:
            e.fail("[%s] %s: no other global changes" % (c, what), str(k))

def cells_except(sc, e, st, allowed, c, what):
    """every tape cell outside `allowed` keeps its content"""
    cat(e, c)
    s1, s0 = sc.storage(st), sc.storage(sc.s0)
    if s1 is s0:
        return
    def g():
        q = e.fresh("q")
        e.add(q >= 1, q <= sc.SZ)
        for a in allowed(q):
            e.add(a)
        e.goal(s1.dims[0][1] == sc.SZ, "[%s] %s: tape size unchanged" % (c, what))
        e.goal(value_eq(e, s1.get((q,)), s0.get((q,))), "[%s] %s: tape cells that are not touched keep their content" % (c, what))
    e.sub(g)

def explore(r, fn, name, stop_ok=False):
    e = r.e
    outs = e.explore(fn, name)
    live = [o for o in outs if o["stop"] is None]
    for o in outs:
        if o["stop"] is not None and not stop_ok:
            e.obs.append(Ob("[safety] no error stop", "post", False, "error stop at line %s" % o["stop"], name, "-", 0))
    if not live:
        e.obs.append(Ob("[safety] some path completes", "post", False, "no path", name, "-", 0))

# ------------------------------------------------------------------ assignment
def verify_assign(P, kind, contracts=None, deadline=None, shape=None):
    r = Run(P, contracts, deadline)
    e, ip = r.e, r.ip
    sc = r.scene()
    args = {"0d": [("v", "v"), ("x", "d")], "1d": [("v", "va"), ("x", "da")], "1d0": [("v", "va"), ("x", "d")],
            "2d": [("v", "vm"), ("x", "dm")], "2d0": [("v", "vm"), ("x", "d")]}[kind]
    op = Ctor("assign", "", args, None, None, None, dims={n: shape for n, k in args if len(k) == 2} if shape else {})
    op.inj = ("v",)
    E = setup_args(r, sc, op)
    fr = r.user_frame(**E.vs)
    ext = E.len["v"] if kind != "0d" else []
    name = "assign " + kind + (" %dx%d" % shape if shape else "")
    def run():
        e.where.append(name)
        st0 = dict(e.store)
        cat(e, "safety")
        p = P.find_proc("fzv_user::h_assign_" + kind)
        ip.in_frame(fr, lambda: ip.call_proc(p, [Actual(ip, ref=fr.vars["v"].ref), Actual(ip, ref=fr.vars["x"].ref)], {}))
        st = dict(e.store)
        same_rest(sc, e, st0, st, (), "frame", "assignment")
        s1 = sc.storage(st)
        def hyp(ix):
            """the target's elements are distinct variables"""
            return E.m["v"](*ix) if ext else E.m["v"]
        def g1():
            cat(e, "value")
            ix = [e.fresh_index(n, "i") for n in ext]
            if ext and e.infeasible():
                return
            m = hyp(ix)
            x = E.x["x"]
            want = x if kind in ("0d", "1d0", "2d0") else x(*ix)
            e.goal(s1.real_at(sc.loc(m)) == want, "[value] each assigned variable has the value given")
        def g2():
            cat(e, "frame")
            m = sc.new_node("m")
            L = sc.loc(m)
            e.goal(s1.real_at(norm(L + 2)) == sc.base.real_at(norm(L + 2)), "[frame] no adjoint changes")
            if not ext:
                e.add(m != E.m["v"])
                e.goal(s1.real_at(L) == sc.base.real_at(L), "[frame] no other value changes")
        e.sub(g1)
        e.sub(g2)
        cells_except(sc, e, st, lambda q: [z3.Not(sc.ISN(q)), z3.Not(sc.ISN(norm(q - 1)))], "frame", "assignment")
    explore(r, run, name)
    return [r]

# ------------------------------------------------------------------ scopes
def call_lib(ip, q, acts=()):
    p = ip.P.find_proc(q)
    if p is None:
        raise Unsupported("procedure %s does not exist" % q)
    return ip.call_proc(p, list(acts), {})

def verify_begin(P, contracts=None, deadline=None):
    runs = []
    for alloc in (True, False):
        r = Run(P, contracts, deadline)
        runs.append(r)
        e, ip = r.e, r.ip
        sc = r.scene(alloc=alloc)
        def run():
            e.where.append("begin_nested")
            st0 = dict(e.store)
            cat(e, "safety")
            call_lib(ip, "fazang_nested_tape_mod::begin_nested")
            st = dict(e.store)
            cat(e, "scope")
            e.goal(sc.nl < sc.nmax, "[scope] more levels than the library accepts are refused")
            e.goal(sc.view(sc.lvl, st).t == sc.nl + 1, "[scope] one more level is open")
            k = e.fresh("k")
            e.add(k >= 1, k <= sc.nmax)
            for ref, top, nm in ((sc.nvr, sc.H, "variables"), (sc.ntr, sc.h, "tape")):
                x, y = st0[ref.root].get((k,)), st[ref.root].get((k,))
                e.goal(z3.If(k == sc.nl + 1, y.t == top, y.t == x.t), "[scope] the new scope starts at the next free place (%s) and outer scopes stay" % nm)
            same_rest(sc, e, st0, st, ("scopes",), "frame", "begin_nested")
            cells_except(sc, e, st, lambda q: [], "frame", "begin_nested")
        explore(r, run, "begin_nested", stop_ok=True)
        def full():
            # a level is always available below the limit
            e.where.append("begin_nested below the limit")
            e.add(sc.nl < sc.nmax)
            cat(e, "safety")
            call_lib(ip, "fazang_nested_tape_mod::begin_nested")
        explore(r, full, "begin_nested below the limit")
    return runs

def verify_end(P, contracts=None, deadline=None):
    runs = []
    for sco, alloc in ((1, True), (0, True), (0, False), (1, False)):
        r = Run(P, contracts, deadline)
        runs.append(r)
        e, ip = r.e, r.ip
        sc = r.scene(alloc=alloc, scopes=sco)
        name = "end_nested" + ("" if sco else " with no scope open") + ("" if alloc else " on a fresh library")
        def run():
            e.where.append(name)
            st0 = dict(e.store)
            cat(e, "safety")
            T, V = sc.scope(sc.nl, sc.nth), sc.scope(sc.nl, sc.nvh)
            call_lib(ip, "fazang_nested_tape_mod::end_nested")
            st = dict(e.store)
            if not sco:
                same_rest(sc, e, st0, st, (), "scope", "unmatched end_nested")
                cells_except(sc, e, st, lambda q: [], "scope", "unmatched end_nested")
                return
            cat(e, "scope")
            e.goal(sc.head(st) == V, "[scope] the variables are those at begin_nested")
            e.goal(sc.thead(st) == T, "[scope] the free space is that at begin_nested")
            e.goal(sc.view(sc.lvl, st).t == sc.nl - 1, "[scope] one level fewer is open")
            k = e.fresh("k")
            e.add(k >= 1, k <= sc.nmax)
            for ref in (sc.nvr, sc.ntr):
                x, y = st0[ref.root].get((k,)), st[ref.root].get((k,))
                e.goal(z3.If(k == sc.nl, y.t == 0, y.t == x.t), "[scope] outer scopes stay, the closed one is forgotten")
            same_rest(sc, e, st0, st, ("scopes", "head", "tape head"), "scope", "end_nested")
            if alloc:
                s1 = sc.storage(st)
                def g():
                    cat(e, "scope")
                    q = e.fresh("q")
                    e.add(q >= T, q <= sc.SZ)
                    e.goal(value_eq(e, s1.get((q,)), Sc("integer", iv(0))), "[scope] everything freed reads as zero")
                e.sub(g)
                cells_except(sc, e, st, lambda q: [q < T], "scope", "end_nested")
                def g2():
                    cat(e, "scope")
                    m = sc.new_node("m")
                    e.add(m < V)
                    L = sc.loc(m)
                    e.goal(L + sc.len(m) <= sc.thead(st), "[scope] the record of an outer variable is not freed")
                    e.goal(s1.real_at(L) == sc.base.real_at(L), "[scope] outer variables keep their value")
                    e.goal(s1.real_at(norm(L + 2)) == sc.base.real_at(norm(L + 2)), "[scope] outer variables keep their adjoint")
                e.sub(g2)
        explore(r, run, name)
    return runs

# ------------------------------------------------------------------ resetting adjoints
def verify_zero(P, nested, contracts=None, deadline=None):
    runs = []
    cases = [(1, True), (0, True), (0, False), (1, False)] if nested else [(None, True), (None, False)]
    for sco, alloc in cases:
        r = Run(P, contracts, deadline)
        runs.append(r)
        e, ip = r.e, r.ip
        sc = r.scene(alloc=alloc, scopes=sco)
        name = ("set_zero_nested_adj" if nested else "set_zero_all_adj") + ("" if alloc else " on a fresh library") + (" with no scope open" if nested and not sco else "")
        def run():
            e.where.append(name)
            st0 = dict(e.store)
            cat(e, "safety")
            V = sc.scope(sc.nl, sc.nvh) if sco else iv(1)
            call_lib(ip, "fazang_nested_tape_mod::set_zero_nested_adj" if nested else "fazang_grad_mod::set_zero_all_adj")
            st = dict(e.store)
            same_rest(sc, e, st0, st, (), "zero", name)
            if not alloc:
                return
            s1 = sc.storage(st)
            def g1():
                cat(e, "zero")
                m = sc.new_node("m")
                L = sc.loc(m)
                e.add(m >= V)
                e.goal(s1.real_at(norm(L + 2)) == 0, "[zero] the adjoint is zero afterwards")
            e.sub(g1)
            def g2():
                cat(e, "zero")
                m = sc.new_node("m")
                L = sc.loc(m)
                e.goal(s1.real_at(L) == sc.base.real_at(L), "[zero] values are untouched")
                if nested and sco:
                    e.add(m < V)
                    e.goal(s1.real_at(norm(L + 2)) == sc.base.real_at(norm(L + 2)), "[zero] adjoints outside the scope are left alone")
            e.sub(g2)
            cells_except(sc, e, st, lambda q: [z3.Not(sc.ISN(norm(q - 2))), z3.Not(sc.ISN(norm(q - 3)))], "zero", name)
        explore(r, run, name)
    return runs

# ------------------------------------------------------------------ records and operands
def node_ref(sc, m):
    return Ref(sc.cs.root, sc.cs.sels + (("f", "varis"), ("i", (m,))))

def setup_record(P, args, expr, contracts, deadline, dims=None, extra=()):
    r = Run(P, contracts, deadline)
    sc = r.scene()
    op = Ctor("record", expr, list(args) + list(extra), None, None, None, dims=dims)
    E = setup_args(r, sc, op)
    return r, r.e, r.ip, sc, E, r.user_frame(**E.vs), parse_expr(expr)

def verify_operand_adj(P, by_id, contracts=None, deadline=None):
    """set_operand_adj on a node with any number of operands, repeated ones included"""
    r, e, ip, sc, E, fr, ex = setup_record(P, [("x", "d"), ("a", "va"), ("p", "da")], "var(x, a, p)", contracts, deadline, dims={"p": ("q",)},
        extra=[("d", "da")] + ([("t", "va")] if by_id else []))
    if by_id:
        pass
    name = "set_operand_adj" + (" by index" if by_id else "")
    def run():
        e.where.append(name)
        st0 = dict(e.store)
        cat(e, "safety")
        res = ip.in_frame(fr, lambda: ip.ev(ex))
        a = After(sc, dict(e.store))
        lt = Later(sc, a, vi_of(res))
        cat(e, "adj")
        fr.vars["w"] = VarB(Ref(e.cell(res)), udecl(VAR))
        if by_id:
            call_h(r, "h_operand_adj_id", [Actual(ip, ref=fr.vars[n].ref) for n in ("w", "t", "d")])
        else:
            call_h(r, "h_operand_adj", [Actual(ip, ref=fr.vars[n].ref) for n in ("w", "d")])
        tgt = E.m["t"] if by_id else E.m["a"]
        lt.check(lambda m: e.mksum(E.len["d"][0], lambda j: z3.If(m == tgt(j), E.x["d"](j), rv(0))), None)
    explore(r, run, name)
    return [r]

def verify_record(P, form, contracts=None, deadline=None):
    """what was pushed is read back at any later moment"""
    args, expr = {"plain": ([("x", "d")], "var(x)"), "op": ([("x", "d"), ("a", "va")], "var(x, a)"), "data": ([("x", "d"), ("p", "da")], "var(x, p)"),
                  "both": ([("x", "d"), ("a", "va"), ("p", "da")], "var(x, a, p)")}[form]
    r, e, ip, sc, E, fr, ex = setup_record(P, args, expr, contracts, deadline, dims={"p": ("q",)})
    name = "record " + form
    def run():
        e.where.append(name)
        cat(e, "safety")
        res = ip.in_frame(fr, lambda: ip.ev(ex))
        st = dict(e.store)
        a = After(sc, st)
        m = vi_of(res)
        cat(e, "record")
        e.goal(sc.storage(st).real_at(norm(a.loc(0) + 2)) == 0, "[record] zero initial adjoint")
        lt = Later(sc, a, m)
        fr.vars["w"] = VarB(Ref(e.cell(res)), udecl(VAR))
        w = [Actual(ip, ref=fr.vars["w"].ref)]
        def ask(h, n=None):
            return call_h(r, h, w if n is None else w + [Actual(ip, v=Sc("integer", n))])
        na = E.len["a"][0] if "a" in E.len else iv(0)
        np_ = E.len["p"][0] if "p" in E.len else iv(0)
        cat(e, "record")
        e.goal(ask("h_val").t == E.x["x"], "[record] the value is read back")
        e.goal(ask("h_adj").t == lt.A(a.loc(0)), "[record] the adjoint is read where it is stored")
        e.goal(ask("h_n_operand").t == na, "[record] number of operands")
        e.goal(ask("h_n_data").t == np_, "[record] number of data operands")
        e.goal(ask("h_record_len").t == 6 + na + 2 * np_, "[record] length of the record")
        if "a" in E.len:
            def g():
                cat(e, "record")
                j = e.fresh_index(na, "j")
                if e.infeasible():
                    return
                e.goal(ask("h_operand_index", na).get((j,)).t == sc.loc(E.m["a"](j)), "[record] operand index")
                e.goal(ask("h_operand_val", na).get((j,)).t == E.x["a"](j), "[record] operand value")
                e.goal(ask("h_operand_adj_of", na).get((j,)).t == lt.A(sc.loc(E.m["a"](j))), "[record] operand adjoint")
            e.sub(g)
        if "p" in E.len:
            def g():
                cat(e, "record")
                j = e.fresh_index(np_, "j")
                if e.infeasible():
                    return
                e.goal(ask("h_data", np_).get((j,)).t == E.x["p"](j), "[record] data operand")
            e.sub(g)
    explore(r, run, name)
    return [r]

# ------------------------------------------------------------------ matrix products
def verify_matmul(P, kinds, m, k, n, contracts=None, deadline=None):
    """matmul(a, b) for a of shape (m, k) and b of shape (k, n), any entries (repeated variables included)"""
    r = Run(P, contracts, deadline)
    e, ip = r.e, r.ip
    sc = r.scene()
    op = Ctor("matmul", "matmul(a, b)", [("a", kinds[0] + "m"), ("b", kinds[1] + "m")], None, None, None, dims={"a": (m, k), "b": (k, n)})
    E = setup_args(r, sc, op)
    fr = r.user_frame(**E.vs)
    name = "matmul %s %dx%s times %sx%d" % (kinds, m, k, k, n)
    ex = parse_expr(op.expr)
    A, B = E.x["a"], E.x["b"]
    K = E.len["a"][1]
    def tot(f):
        if isinstance(k, str):
            return e.mksum(K, f)
        t = rv(0)
        for q in range(1, k + 1):
            t = t + f(iv(q))
        return t
    def run():
        e.where.append(name)
        st0 = dict(e.store)
        cat(e, "safety")
        res = ip.in_frame(fr, lambda: ip.ev(ex))
        st = dict(e.store)
        a = After(sc, st)
        cat(e, "value")
        if not (isinstance(res, Arr) and res.rank == 2):
            e.fail("[value] the result is a matrix of variables", repr(res))
            return
        e.goal(z3.And([x == y for x, y in zip(res.extents(), (m, n))]), "[value] shape of the result")
        check_frame(sc, st0, e)
        check_wf(sc, st, e, a)
        if a.n is None:
            raise Unsupported("number of new variables is not constant")
        seen = []
        for i in range(1, m + 1):
            for j in range(1, n + 1):
                vi = vi_of(res.get((iv(i), iv(j))))
                c = cint(norm(vi - sc.H))
                cat(e, "value")
                if c is None or not 0 <= c < a.n or c in seen:
                    e.fail("[value] entry (%d,%d) is a new variable of its own" % (i, j), str(vi))
                    return
                seen.append(c)
                def g(i=i, j=j, c=c):
                    cat(e, "value")
                    e.goal(sc.storage(st).real_at(a.loc(c)) == tot(lambda q: A(iv(i), q) * B(q, iv(j))), "[value] entry (%d,%d) is the inner product" % (i, j))
                e.sub(g)
        if not chain_defined(sc, st, e, a) or not wanted("adj", "chainframe"):
            return
        for t, c in enumerate(seen):
            i, j = t // n + 1, t % n + 1
            def g(i=i, j=j, c=c):
                e.store = dict(st)
                lt = Later(sc, a, norm(sc.H + c), fresh=True)
                cat(e, "adj")
                node = sc.vnode(norm(sc.H + c), e.store)
                me = Actual(ip, ref=Ref(sc.cs.root, sc.cs.sels + (("f", "varis"), ("i", (norm(sc.H + c),)))))
                ip.call_procval(node.f["chain"], [me], {})
                G = lt.A(lt.locs[c])
                def contrib(v):
                    s = rv(0)
                    if kinds[0] == "v":
                        s = s + tot(lambda q: z3.If(v == E.m["a"](iv(i), q), G * B(q, iv(j)), rv(0)))
                    if kinds[1] == "v":
                        s = s + tot(lambda q: z3.If(v == E.m["b"](q, iv(j)), G * A(iv(i), q), rv(0)))
                    return s
                lt.check(contrib)
                cat(e, "adj")
                s3 = sc.storage(e.store)
                for d in range(a.n):
                    if d != c:
                        e.goal(s3.real_at(norm(a.loc(d) + 2)) == lt.A(a.loc(d)), "[adj] adjoints of the other entries are unchanged")
                e.store = dict(st)
            e.sub(g)
    close_runs(e, e.explore(run, name), name)
    return [r]
MM_ANY = [(m, "k", n) for m in (1, 2, 3) for n in (1, 2, 3)]
MM_SHAPES = [(1, 1, 1), (1, 2, 1), (2, 1, 2), (1, 3, 2), (2, 2, 2), (3, 2, 1), (2, 3, 2), (3, 1, 3), (3, 2, 3), (2, 0, 2), (0, 2, 1), (2, 2, 0)]

# ------------------------------------------------------------------ sweeps
class Sweep:
    """ghost record of the derivative rules applied; the rule of variable m leaves adjoints (of the scope's variables,
    when lo is given) as an arbitrary function OUT(m, .) and changes nothing else"""
    def __init__(s, sc, z=None, lo=None):
        s.sc, s.e, s.z, s.lo = sc, sc.e, z, lo
        s.cell = sc.e.cell(loops.Trace())
        s.OUT = z3.Function("OUT", I, I, R)
        s.g = sc.new_node("g")
        sc.ip.globals[("ghost", "trace")] = s.cell
        sc.dispatch = s.rule
    def rule(s, ip, pv, pos):
        e, sc = s.e, s.sc
        ref = pos[0].ref
        sel = ref.sels[-1] if ref is not None and ref.sels else None
        m = norm(sel[1][0]) if sel is not None and sel[0] == "i" else None
        if m is None:
            raise Unsupported("a derivative rule is called with something else than a recorded variable")
        ag = sc.adj(s.g, e.store)
        e.store[s.cell] = e.store[s.cell].ev((m, pv, ag))
        arr = sc.storage(e.store)
        e.store[sc.cs.root] = e.store[sc.cs.root].with_("stack", e.store[sc.cs.root].f["stack"].with_("storage", arr.layer(("adj", AdjH(sc, lambda L, m=m: s.OUT(m, L), s.lo)))))
        return None
    def after(s, m):
        """adjoint of g after the rule of variable m, when it was a before"""
        return lambda a: s.OUT(m, s.sc.loc(s.g)) if s.lo is None else z3.If(s.sc.loc(s.g) >= s.lo, s.OUT(m, s.sc.loc(s.g)), a)
    def events(s, st):
        """[(count, fn(k) -> list of events)]"""
        out = []
        for g in st[s.cell].segs:
            if g[0] == "ev":
                out.append((iv(1), lambda k, x=g[1]: [x]))
            else:
                out.append((g[1], g[2]))
        return out

def verify_sweep(P, nested, contracts=None, deadline=None, restricted=False):
    runs = []
    for sco in ((1,) if restricted else (1, 0) if nested else (None,)):
        r = Run(P, contracts, deadline)
        runs.append(r)
        e, ip = r.e, r.ip
        sc = r.scene(scopes=sco)
        name = ("grad_nested" if nested else "grad") + (" with no scope open" if nested and not sco else "") + (" when rules stay in the scope" if restricted else "")
        z = sc.new_node("z")
        V = sc.scope(sc.nl, sc.nvh) if sco and nested else iv(1)
        lo = sc.scope(sc.nl, sc.nth) if restricted else None
        if sco and nested:
            e.add(V < sc.H)
        if restricted:
            e.add(z >= V)
        sw = Sweep(sc, z, lo)
        fr = r.user_frame(z=(var_struct(z), udecl(VAR)))
        def run():
            e.where.append(name)
            st0 = dict(e.store)
            cat(e, "safety")
            call_h(r, "h_grad_nested" if nested else "h_grad", [Actual(ip, ref=fr.vars["z"].ref)])
            st = dict(e.store)
            cat(e, "sweep")
            segs = [x for x in sw.events(st)]
            total = norm(sum([c for c, f in segs], iv(0)))
            def event(f, k):
                ev = f(k)
                if len(ev) != 1:
                    raise Unsupported("%d rules applied in one iteration" % len(ev))
                return ev[0]
            g0 = sc.base.real_at(norm(sc.loc(sw.g) + 2))
            seeded = z3.If(sw.g == z, rv(1), g0)
            def outer(a):
                # adjoints outside the scope of restricted rules
                return a if lo is None else z3.If(sc.loc(sw.g) >= lo, a, g0)
            base = iv(0)
            for c, f in segs:
                def one(c=c, f=f, base=base):
                    cat(e, "sweep")
                    k = e.fresh_index(c, "k")
                    if e.infeasible():
                        return
                    m, pv, ag = event(f, k)
                    t = norm(base + k)
                    e.goal(m == sc.H - t, "[sweep] rules are applied from the newest variable to the oldest, once each")
                    e.goal(pv.t == sc.ch(m), "[sweep] the rule applied to a variable is its own")
                e.sub(one)
                def chain(c=c, f=f, base=base):
                    cat(e, "sweep")
                    k = e.fresh_index(c, "k")
                    if e.infeasible():
                        return
                    if not e.decide(norm(base + k) >= 2):
                        return
                    m, pv, ag = event(f, k)
                    e.goal(ag == outer(sw.OUT(norm(m + 1), sc.loc(sw.g))), "[sweep] each rule starts from the adjoints the previous one left")
                e.sub(chain)
                def start(c=c, f=f):
                    cat(e, "sweep")
                    e.add(c >= 1)
                    if e.infeasible():
                        return
                    m, pv, ag = event(f, iv(1))
                    e.goal(ag == seeded, "[sweep] the sweep starts from the adjoints at the call, with 1 at the variable differentiated")
                if cint(base) == 0:
                    e.sub(start)
                base = norm(base + c)
            e.goal(total == sc.H - V, "[sweep] every variable of the scope is visited")
            def last():
                cat(e, "sweep")
                fin = sc.adj(sw.g, st)
                if e.decide(total >= 1):
                    e.goal(fin == outer(sw.OUT(V, sc.loc(sw.g))), "[sweep] the adjoints are those the last rule left")
                else:
                    e.goal(fin == seeded, "[sweep] with nothing to visit only the seed is set")
            e.sub(last)
            ip.globals.pop(("ghost", "trace"), None)
            same_rest(sc, e, st0, st, (), "sweep", name)
            cells_except(sc, e, st, lambda q: [z3.Not(sc.ISN(norm(q - 2))), z3.Not(sc.ISN(norm(q - 3)))], "sweep", name)
            ip.globals[("ghost", "trace")] = sw.cell
            def g2():
                cat(e, "sweep")
                m = sc.new_node("m")
                L = sc.loc(m)
                e.goal(sc.storage(st).real_at(L) == sc.base.real_at(L), "[sweep] no value changes")
            e.sub(g2)
        explore(r, run, name)
    return runs

# ------------------------------------------------------------------ gradient and jacobian of an unknown function
class Block:
    """variables lo .. hi-1, recorded one after the other in the tape cells a .. b-1, at places that are not known"""
    def __init__(s, sc, what, val=None, last=False):
        s.sc, s.e, s.val, s.last = sc, sc.e, val, last
        e = s.e
        st = dict(e.store)
        s.lo, s.a = norm(sc.head(st)), norm(sc.thead(st))
        s.hi, s.b = e.fresh("H" + what), e.fresh("h" + what)
        S2, N2 = e.fresh("S" + what), e.fresh("N" + what)
        e.add(s.hi >= s.lo, s.b >= s.a, S2 >= sc.view(sc.tp.f("storage_size"), st).t, N2 >= sc.view(sc.cs.f("n_varis"), st).t,
              S2 >= 1, N2 >= 1, s.b <= S2 + 1, s.hi <= N2 + 1)
        s.F = F = TapeBase(e, what, zero_from=s.b)
        a0 = s.a
        def cells(idx, real=False):
            if ge(e, idx[0], a0):
                return F.real_at(idx[0]) if real else BaseCell(F, idx[0])
            return None
        def nodes(idx, real=False):
            m = norm(idx[0])
            if ge(e, m, s.lo):
                s.facts(m)
                return Struct("vari", {"i": Sc("integer", sc.loc(m)), "chain": SymProc(sc.ch(m))})
            return None
        cur = st[sc.cs.root]
        s1, va = sc.storage(st), sc.view(sc.cs.f("varis"), st)
        if not isinstance(s1, Arr):
            e.add(s.lo == 1, s.a == 1)
            s1 = Arr.base(e, ("integer", None), [S2], lambda idx: BaseCell(F, idx[0]))
            layers = s1.layers
        else:
            layers = s1.layers + (("frame", cells),)
        if not isinstance(va, Arr):
            va = Arr.base(e, ("type", "vari"), [N2], lambda idx: nodes(idx))
            vl = va.layers
        else:
            vl = va.layers + (("frame", nodes),)
        s2 = Arr(e, s1.elem, [(s1.dims[0][0], S2)], layers, s1.src)
        v2 = Arr(e, va.elem, [(va.dims[0][0], N2)], vl, va.src)
        tp = cur.f["stack"].with_("head", Sc("integer", s.b)).with_("storage_size", Sc("integer", S2)).with_("storage", s2)
        e.store = dict(st)
        e.store[sc.cs.root] = cur.with_("head", Sc("integer", s.hi)).with_("n_varis", Sc("integer", N2)).with_("varis", v2).with_("stack", tp)
        sc.isn_facts.append(s.isn)
    def facts(s, m):
        """every new variable is clean (C12) and its record lies in the new part"""
        e, sc = s.e, s.sc
        m = norm(m)
        key = ("block", s.a.sexpr(), m.sexpr())
        if key in sc.memo:
            return
        sc.memo.add(key)
        L = sc.loc(m)
        v = z3.And(m >= s.lo, m < s.hi)
        e.add(z3.Implies(v, z3.And(L >= s.a, L + 6 <= s.b, sc.ISN(L), sc.NODEAT(L) == m,
                                   *[z3.Not(sc.ISN(L + c)) for c in (-5, -4, -3, -2, -1, 1, 2, 3, 4, 5)])))
        e.add(z3.Implies(v, s.F.R(norm(L + 2)) == 0))
        if s.val is not None:
            e.add(z3.Implies(v, s.F.R(L) == s.val(norm(m - s.lo + 1))))
    def isn(s, p):
        e, sc = s.e, s.sc
        key = ("isnb", s.a.sexpr(), norm(p).sexpr())
        if key in sc.memo:
            return
        sc.memo.add(key)
        e.add(z3.Implies(sc.ISN(p), p >= 1), z3.Implies(z3.And(sc.ISN(p), p < sc.h), p + 6 <= sc.h),
              z3.Implies(sc.ISN(p) if s.last else z3.And(sc.ISN(p), p >= s.a, p < s.b), p + 6 <= s.b))

class UserFun:
    """f of its argument array only: it records any number of new variables on top of the tape and returns one of
    the variables recorded since the scope was opened (one of its arguments or a new one)"""
    def __init__(s, r, sc, n, jac=None):
        s.r, s.sc, s.e, s.n, s.jac = r, sc, r.e, n, jac
        s.calls, s.args = 0, None
    def handler(s, ip, pos, kw):
        e, sc = s.e, s.sc
        s.calls += 1
        if s.calls > 1:
            raise Unsupported("the function is evaluated more than once")
        c0 = CAT[0]
        st = dict(e.store)
        xs = pos[0].val()
        H1 = norm(sc.head(st))
        def g():
            cat(e, "value")
            e.goal(xs.extents()[0] == s.n, "[value] f is called with as many variables as there are arguments")
            if s.jac is not None:
                e.goal(pos[1].val().t == s.jac, "[value] f is asked for the number of outputs wanted")
            i = e.fresh_index(s.n, "i")
            if e.infeasible():
                return
            m = vi_of(xs.get((i,)))
            e.goal(m == sc.H + i - 1, "[value] the arguments of f are new variables")
            arr = sc.storage(st)
            e.goal(arr.real_at(sc.nloc(m, st)) == s.x(i), "[value] f is evaluated at x")
            e.goal(arr.real_at(norm(sc.nloc(m, st) + 2)) == 0, "[value] the arguments start with a zero adjoint")
            if s.args is None:
                inert(sc, st, e, m)
        e.sub(g)
        def g2():
            cat(e, "scope")
            e.goal(sc.view(sc.lvl, st).t == sc.nl + 1, "[scope] f is evaluated in a scope of its own")
            k = norm(sc.nl + 1)
            e.goal(z3.And(st[sc.nvr.root].get((k,)).t == sc.H, st[sc.ntr.root].get((k,)).t == sc.h), "[scope] that scope starts where the caller's record ends")
            e.goal(H1 == sc.H + s.n, "[scope] only the arguments have been recorded")
        e.sub(g2)
        CAT[0] = c0
        s.st1 = st
        s.blk = Block(sc, "F", last=True)
        s.H1, s.H2 = s.blk.lo, s.blk.hi
        if s.jac is None:
            s.z = e.fresh("zf")
            s.result(s.z)
            return var_struct(s.z)
        s.zf = z3.Function("zf", I, I)
        def elem(idx):
            i = norm(idx[0])
            s.result(s.zf(i), z3.And(i >= 1, i <= s.jac))
            return var_struct(s.zf(i))
        return Arr.base(e, ("type", "var"), [s.jac], elem)
    def result(s, z, cond=None):
        e, sc = s.e, s.sc
        f = z3.And(z >= sc.H, z < s.H2)
        e.add(f if cond is None else z3.Implies(cond, f))

class CallContract:
    """a contract assumed at a call, proved by the unit named"""
    def __init__(s, apply, text, when=None):
        s.apply, s.text, s.when = apply, text, when
    def applicable(s, ip, p, bound):
        return s.when is None or s.when(ip, p, bound)

def scope_contracts(sc, uf, D):
    """grad_nested and set_zero_nested_adj as proved by their own units, rules of the scope staying in the scope"""
    e = sc.e
    def bounds(st):
        k = sc.view(sc.lvl, st).t
        e.oblige(k >= 1, "[sweep] a scope is open where its variables are swept", "pre")
        return norm(st[sc.nvr.root].get((norm(k),)).t), norm(st[sc.ntr.root].get((norm(k),)).t)
    def havoc(fn, lo):
        arr = sc.storage(e.store)
        e.store[sc.cs.root] = e.store[sc.cs.root].with_("stack", e.store[sc.cs.root].f["stack"].with_("storage", arr.layer(("adj", AdjH(sc, fn, lo)))))
    def sweep(ip, p, bound):
        c0 = CAT[0]
        cat(e, "sweep")
        st = dict(e.store)
        z = vi_of(bound[p.args[0]].val())
        V, T = bounds(st)
        e.oblige(z3.And(z >= V, z < sc.head(st)), "[sweep] the variable differentiated belongs to the scope", "pre")
        def g():
            cat(e, "sweep")
            m = e.fresh("m")
            e.add(m >= V, m < sc.head(st))
            e.goal(sc.storage(st).real_at(norm(sc.nloc(m, st) + 2)) == 0, "[sweep] every adjoint of the scope is zero before its sweep")
        if not e.silent:
            e.sub(g)
        havoc(lambda L, z=z: D(z, L), T)
        CAT[0] = c0
    def zero(ip, p, bound):
        st = dict(e.store)
        V, T = bounds(st)
        havoc(lambda L: rv(0), T)
    def make(ip, p, bound):
        x = bound[p.args[0]].val()
        n = x.extents()[0]
        st = dict(e.store)
        uf.args = b = Block(sc, "X", lambda i: x.get((i,)).t)
        e.add(b.hi == b.lo + n)
        return Arr.base(e, ("type", "var"), [n], lambda idx: var_struct(norm(b.lo + idx[0] - 1)))
    return {"elemental fazang_var_mod::new_var_val": CallContract(make, "C15", lambda ip, p, bound: len(bound) == 1 and isinstance(bound[p.args[0]].val(), Arr) and bound[p.args[0]].val().rank == 1),
        "fazang_var_mod::grad_nested": CallContract(sweep, "C09"), "fazang_nested_tape_mod::set_zero_nested_adj": CallContract(zero, "C10")}

def verify_gradient(P, jac, contracts=None, deadline=None):
    runs = []
    for alloc in (True, False):
        r = Run(P, contracts, deadline)
        runs.append(r)
        e, ip = r.e, r.ip
        sc = r.scene(alloc=alloc)
        e.add(sc.nl < sc.nmax)
        sc.scope(sc.nl, sc.nvh)
        op = Ctor("gradient", "", [("x", "da")] + ([("k", "i")] if jac else []), None, None, None)
        E = setup_args(r, sc, op)
        n = E.len["x"][0]
        if jac:
            e.add(E.x["k"] >= 0)
        uf = UserFun(r, sc, n, E.x["k"] if jac else None)
        uf.x = E.x["x"]
        D = z3.Function("D", I, I, R)
        for q, c in scope_contracts(sc, uf, D).items():
            if P.find_proc(q.split()[-1]) is not None:
                ip.contracts[q] = c
        fr = r.user_frame(**E.vs)
        fv = AbsProc("user function", uf.handler)
        fv.iface = "jac_dependent_function" if jac else "dependent_function"
        name = ("jacobian" if jac else "gradient") + ("" if alloc else " on a fresh library")
        def run():
            e.where.append(name)
            uf.calls, uf.args = 0, None
            st0 = dict(e.store)
            cat(e, "safety")
            p = P.find_proc("fazang_grad_mod::" + ("jacobian" if jac else "gradient"))
            acts = [Actual(ip, proc=fv)] + ([Actual(ip, ref=fr.vars["k"].ref)] if jac else []) + [Actual(ip, ref=fr.vars["x"].ref)]
            res = ip.in_frame(fr, lambda: ip.call_proc(p, acts, {}))
            st = dict(e.store)
            cat(e, "value")
            if uf.calls != 1:
                e.fail("[value] f is evaluated once", str(uf.calls))
                return
            ext = res.extents()
            xloc = lambda i: sc.nloc(norm(sc.H + i - 1), uf.st1)
            def val(z, out, what):
                def g():
                    cat(e, "value")
                    if e.decide(z < uf.H1):
                        e.goal(out == uf.x(norm(z - sc.H + 1)), what)
                    else:
                        e.goal(out == uf.blk.F.R(sc.loc(z)), what)
                e.sub(g)
            if not jac:
                e.goal(ext[0] == 1 + n, "[value] shape of the result")
                val(uf.z, res.get((iv(1),)).t, "[value] the first element is the value of f")
                def g():
                    cat(e, "value")
                    i = e.fresh_index(n, "i")
                    if e.infeasible():
                        return
                    e.goal(res.get((norm(i + 1),)).t == D(uf.z, xloc(i)), "[value] then the derivatives of f with respect to each argument, in order")
                e.sub(g)
            else:
                k = E.x["k"]
                e.goal(z3.And(ext[0] == k, ext[1] == 1 + n), "[value] shape of the result")
                def g():
                    cat(e, "value")
                    i = e.fresh_index(k, "i")
                    if e.infeasible():
                        return
                    uf.result(uf.zf(i))
                    val(uf.zf(i), res.get((i, iv(1))).t, "[value] the first column is the values of f")
                    j = e.fresh_index(n, "j")
                    if e.infeasible():
                        return
                    e.goal(res.get((i, norm(j + 1))).t == D(uf.zf(i), xloc(j)), "[value] then the derivatives of each output with respect to each argument, in order")
                e.sub(g)
            # the caller's tape
            cat(e, "restore")
            e.goal(sc.head(st) == sc.H, "[restore] the recorded variables are those before the call")
            e.goal(sc.thead(st) == sc.h, "[restore] the free space is that before the call")
            e.goal(sc.view(sc.lvl, st).t == sc.nl, "[restore] no scope stays open")
            q = e.fresh("q")
            e.add(q >= 1, q <= sc.nmax)
            for ref in (sc.nvr, sc.ntr):
                e.goal(value_eq(e, st[ref.root].get((q,)), st0[ref.root].get((q,))), "[restore] the caller's scopes stay as they were")
            def g3():
                cat(e, "restore")
                s1 = sc.storage(st)
                if not isinstance(s1, Arr):
                    return
                q = e.fresh("q")
                S = sc.view(sc.tp.f("storage_size"), st).t
                e.goal(s1.dims[0][1] == S, "[restore] tape size is recorded")
                e.add(q >= 1, q <= S)
                if e.decide(q < sc.h):
                    e.goal(value_eq(e, s1.get((q,)), BaseCell(sc.base, q)), "[restore] every value, adjoint and operand recorded before is as it was")
                else:
                    e.goal(value_eq(e, s1.get((q,)), Sc("integer", iv(0))), "[restore] the free space reads as zero")
            e.sub(g3)
            def g4():
                cat(e, "restore")
                old_nodes(sc, st, e)
            if alloc:
                e.sub(g4)
            for key, rt in ip.globals.items():
                if st[rt] is not st0[rt] and rt not in (sc.cs.root, sc.lvl.root, sc.nvr.root, sc.ntr.root):
                    e.fail("[restore] no other global changes", str(key))
        explore(r, run, name)
    return runs
