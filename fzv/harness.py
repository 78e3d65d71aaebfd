"""Verification harnesses: one public procedure at a time, on an arbitrary well-formed state."""
import z3, time
from .core import *
from .fparse import *
from .interp import *
from .scene import *
from . import specs, loops

def parse_expr(s):
    t = Toks(s.lower())
    e = expr(t)
    return e

class Run:
    """engine + interpreter + the contracts that hold on the current source"""
    def __init__(self, P, contracts=None, deadline=None):
        self.P = P
        self.e = Engine()
        self.e.deadline = deadline
        self.ip = Interp(P, self.e)
        if contracts is None:
            contracts = specs.CONTRACTS
        self.ip.contracts = dict(contracts)

    def scene(self, **kw):
        self.sc = Scene(self.ip, **kw)
        return self.sc

    def user_frame(self, **vars):
        fr = Frame(None, self.P.modules["fzv_user"])
        for n, (v, d) in vars.items():
            fr.vars[n] = VarB(Ref(self.e.cell(v)), d)
        return fr

def udecl(ts, dims=None):
    return Decl("u", ts, dims, set(), None, False, 0)

VAR = ("type", "var", False)

def var_struct(m):
    return Struct("var", {"vi": Sc("integer", m)})

def vi_of(v):
    return norm(v.f["vi"].t)

def cat(e, c):
    CAT[0] = c

# ------------------------------------------------------------------ facts about the state after the call
class After:
    def __init__(self, sc, st):
        self.sc, self.e, self.st = sc, sc.e, st
        self.H, self.h = norm(sc.head(st)), norm(sc.thead(st))
        self.n = cint(norm(self.H - sc.H))

    def loc(self, j):
        """location of the j-th new node (0-based)"""
        return norm(self.sc.nloc(norm(self.sc.H + j), self.st))

def check_frame(sc, st0, e):
    """C03: nothing recorded before changes"""
    cat(e, "frame")
    st = e.store
    s1 = sc.storage(st)
    if isinstance(s1, Arr) and sc.alloc:
        def g1():
            q = e.fresh("q")
            e.add(q >= 1, q < sc.h)
            e.goal(value_eq(e, s1.get((q,)), BaseCell(sc.base, q)), "[frame] tape cells recorded before are unchanged")
        e.sub(g1)
        e.sub(lambda: old_nodes(sc, st, e))
    check_scopes(sc, st0, e)

def old_nodes(sc, st, e):
        k = e.fresh("k")
        e.add(k >= 1, k < sc.H)
        old = sc.node(k)
        new = sc.vnode(k, st)
        e.goal(value_eq(e, new.f["i"], old.f["i"]), "[frame] records of existing variables stay where they are")
        e.goal(value_eq(e, new.f["chain"], old.f["chain"]), "[frame] chain procedures of existing variables are unchanged")

def check_scopes(sc, st0, e):
    st = e.store
    e.goal(sc.view(sc.lvl, st).t == sc.nl, "[frame] nesting level unchanged")
    for r, nm in ((sc.nvr, "nested_vari_head"), (sc.ntr, "nested_tape_head")):
        if st[r.root] is not st0[r.root]:
            k = e.fresh("k")
            e.add(k >= 1, k <= sc.nmax)
            e.goal(value_eq(e, st[r.root].get((k,)), st0[r.root].get((k,))), "[frame] %s unchanged" % nm)

value_eq = specs.value_eq

def check_wf(sc, st, e, a, records=True):
    """the state after the call is well formed again; the new records are clean (C12)"""
    cat(e, "wf")
    s1 = sc.storage(st)
    va = sc.view(sc.cs.f("varis"), st)
    e.goal(z3.And(a.H >= sc.H, a.h >= sc.h), "[wf] heads only advance")
    if isinstance(s1, Arr):
        S = sc.view(sc.tp.f("storage_size"), st).t
        e.goal(z3.And(s1.dims[0][1] == S, s1.dims[0][0] == 1, a.h <= S + 1), "[wf] tape size is recorded and covers the head")
        def g1():
            q = e.fresh("q")
            e.add(q >= a.h, q <= S)
            e.goal(value_eq(e, s1.get((q,)), Sc("integer", iv(0))), "[wf] tape is zero from the head on")
        e.sub(g1)
    if isinstance(va, Arr):
        N = sc.view(sc.cs.f("n_varis"), st).t
        e.goal(z3.And(va.dims[0][1] == N, va.dims[0][0] == 1, a.H <= N + 1), "[wf] varis size is recorded and covers the head")
    if a.n is None or not records:
        return
    prev = None
    for j in range(a.n):
        L = a.loc(j)
        cat(e, "wf")
        e.goal(z3.And(L >= sc.h, L + 6 <= a.h), "[wf] new record lies in the appended part of the tape")
        if prev is not None:
            e.goal(L >= prev + 6, "[wf] new records are disjoint and in order")
        cat(e, "clean")
        e.sub(lambda: e.goal(s1.real_at(norm(L + 2)) == 0, "[clean] new variable starts with a zero adjoint"))
        prev = L

def chain_defined(sc, st, e, a):
    cat(e, "clean")
    for j in range(a.n):
        c = sc.vnode(norm(sc.H + j), st).f["chain"]
        if not isinstance(c, (ProcV, AbsProc)):
            e.fail("[clean] new variable has a chain procedure of its own", "chain is %r" % (c,))
            return False
    return True

# ------------------------------------------------------------------ a later moment, before the reverse sweep reaches the new nodes
class Later:
    """All records made by the call are still there, every adjoint has an arbitrary value (those of
    intermediate results: the sweep reaches them after the result, so they start from zero plus what the
    result's chain adds), and everything appended later is arbitrary."""
    def __init__(self, sc, a, root, fresh=False):
        """fresh: other new variables may have any adjoint"""
        e = self.e = sc.e
        self.sc, self.a, self.root = sc, a, root
        st = dict(a.st)
        self.H2, self.h2 = e.fresh("H2"), e.fresh("h2")
        e.add(self.H2 >= a.H, self.h2 >= a.h)
        self.A = e.freshfn("ADJ", I, R)
        self.locs = [a.loc(j) for j in range(a.n)]
        sc.isn_facts.append(self.isn)
        for j, L in enumerate(self.locs):
            if not fresh and not (root is not None and same(norm(sc.H + j), root)):
                e.add(self.A(L) == 0)
        after = TapeBase(e, "L")
        h1 = a.h
        def beyond(idx, real=False):
            if ge(e, idx[0], h1):
                return after.real_at(idx[0]) if real else BaseCell(after, idx[0])
            return None
        S2, N2 = e.fresh("S2"), e.fresh("N2")
        e.add(S2 >= sc.view(sc.tp.f("storage_size"), st).t, N2 >= sc.view(sc.cs.f("n_varis"), st).t, self.h2 <= S2 + 1, self.H2 <= N2 + 1)
        cur = st[sc.cs.root]
        s1, va = sc.storage(st), sc.view(sc.cs.f("varis"), st)
        s2 = Arr(e, s1.elem, [(s1.dims[0][0], S2)], s1.layers + (("frame", beyond), ("adj", AdjH(sc, self.A))), s1.src)
        v2 = Arr(e, va.elem, [(va.dims[0][0], N2)], va.layers, va.src)
        tp = cur.f["stack"].with_("head", Sc("integer", self.h2)).with_("storage_size", Sc("integer", S2)).with_("storage", s2)
        st[sc.cs.root] = cur.with_("head", Sc("integer", self.H2)).with_("n_varis", Sc("integer", N2)).with_("varis", v2).with_("stack", tp)
        e.store = st
        self.s2 = s2
        self.st2 = dict(st)

    def isn(self, p):
        e, sc, a = self.e, self.sc, self.a
        key = ("isn", norm(p).sexpr())
        if key in sc.memo:
            return
        sc.memo.add(key)
        e.add(z3.Implies(z3.And(sc.ISN(p), p < sc.h), p + 6 <= sc.h))
        e.add(z3.Implies(z3.And(p >= sc.h, p < a.h), sc.ISN(p) == z3.Or([p == L for L in self.locs] + [FALSE])))
        e.add(z3.Implies(z3.And(sc.ISN(p), p >= a.h), p + 6 <= self.h2))
        e.add(z3.Implies(sc.ISN(p), p >= 1))

    def run_chains(self):
        """execute the chain procedures of the new nodes, newest first, as the sweep does"""
        sc, e, ip = self.sc, self.e, self.sc.ip
        for j in range(self.a.n - 1, -1, -1):
            m = norm(sc.H + j)
            node = sc.vnode(m, e.store)
            me = Actual(ip, ref=Ref(sc.cs.root, sc.cs.sels + (("f", "varis"), ("i", (m,)))))
            ip.call_procval(node.f["chain"], [me], {})

    def check(self, contrib, tol=None):
        """contrib(m) -> expected growth of the adjoint of node m (m < H or the result itself)"""
        sc, e = self.sc, self.e
        cat(e, "adj")
        s3 = sc.storage(e.store)
        def g1():
            m = sc.new_node("m")
            L = sc.loc(m)
            c = contrib(m)
            e.goal(close(s3.real_at(norm(L + 2)) - self.A(L), c, tol) if tol is not None else s3.real_at(norm(L + 2)) == self.A(L) + c, "[adj] the reverse pass adds result adjoint * partial derivative, once per operand")
        e.sub(g1)
        if self.root is not None and any(same(self.root, norm(sc.H + j)) for j in range(self.a.n)):
            LR = self.a.loc(cint(norm(self.root - sc.H)))
            e.goal(s3.real_at(norm(LR + 2)) == self.A(LR), "[adj] the adjoint of the result itself is unchanged")
        cat(e, "chainframe")
        def g2():
            q = e.fresh("q")
            e.add(q >= 1, q < self.h2)
            for f in (self.isn,):
                f(norm(q - 2)); f(norm(q - 3))
            e.add(z3.Not(sc.ISN(norm(q - 2))), z3.Not(sc.ISN(norm(q - 3))))
            e.goal(value_eq(e, s3.get((q,)), self.s2.get((q,))), "[chainframe] the reverse pass writes adjoints only")
        e.sub(g2)
        for n in ("head", "n_varis", "varis"):
            x, y = sc.view(sc.cs.f(n), self.st2), sc.view(sc.cs.f(n), e.store)
            if x is not y:
                e.goal(value_eq(e, x, y), "[chainframe] %s unchanged by the reverse pass" % n)
        x, y = self.st2[sc.cs.root].f["stack"], e.store[sc.cs.root].f["stack"]
        for n in ("head", "storage_size"):
            if x.f[n] is not y.f[n]:
                e.goal(value_eq(e, x.f[n], y.f[n]), "[chainframe] tape %s unchanged by the reverse pass" % n)
        for r, v in self.st2.items():
            if r in sc.ip.globals.values() and r != sc.cs.root and e.store.get(r) is not v:
                e.fail("[chainframe] the reverse pass changes another global", str([k for k, c in sc.ip.globals.items() if c == r]))

def close(x, y, tol):
    if tol is None:
        return x == y
    ay = z3.If(y >= 0, y, -y)
    return z3.And(x - y <= tol * ay, y - x <= tol * ay)

# ------------------------------------------------------------------ operators and functions of scalars
class Op:
    def __init__(s, id, expr, args, val, partials, dom=None, pdom=None, props=("C01",), result="var", near=None):
        s.near = near
        s.id, s.expr, s.args, s.val, s.partials, s.dom, s.pdom, s.props, s.result = id, expr, args, val, partials, dom, pdom, props, result

def verify_op(P, op, contracts=None, deadline=None):
    runs = []
    for alloc in ((True, False) if all(k != "v" for _, k in op.args) else (True,)):
        r = Run(P, contracts, deadline)
        e, ip = r.e, r.ip
        sc = r.scene(alloc=alloc)
        e.reporter = op.id
        runs.append(r)
        vs, xs, nodes = {}, {}, {}
        for n, k in op.args:
            if k == "v":
                m = sc.new_node(n)
                nodes[n] = m
                vs[n] = (var_struct(m), udecl(VAR))
                xs[n] = sc.base.real_at(sc.loc(m))
            elif k == "d":
                t = z3.Real(n)
                vs[n] = (Sc("real", t), udecl(("real", "rk")))
                xs[n] = t
            elif k == "i":
                t = z3.Int(n)
                vs[n] = (Sc("integer", t), udecl(("integer", "ik")))
                xs[n] = t
        fr = r.user_frame(**vs)
        if op.dom is not None:
            e.add(op.dom(**xs))
        sc.s0 = dict(e.store)
        ex = parse_expr(op.expr)
        def run():
            e.where.append(op.id)
            st0 = dict(e.store)
            cat(e, "safety")
            res = ip.in_frame(fr, lambda: ip.ev(ex))
            st = dict(e.store)
            if op.result != "var":
                cat(e, "value")
                e.goal(res.t == op.val(**xs), "[value] result")
                check_frame(sc, st0, e)
                same_state(sc, st0, st, e)
                return
            a = After(sc, st)
            if a.n is None or a.n > 20:
                raise Unsupported("number of new variables is not constant")
            if not (isinstance(res, Struct) and res.tn == "var"):
                raise Unsupported("result is not a var")
            root = vi_of(res)
            cat(e, "value")
            e.goal(z3.And(root >= 1, root < a.H), "[value] result is a recorded variable")
            jn = cint(norm(root - sc.H))
            if jn is None:
                # result is one of the operands
                als = [n for n in nodes if e.entails(root == nodes[n])]
                if not als:
                    raise Unsupported("result is not a known variable")
                jn = None
            rv_ = sc.storage(st).real_at(sc.nloc(root, st))
            tol = None
            if op.near is not None and e.decide(op.near(**xs)):
                tol = 4 * TINY
            e.goal(close(rv_, op.val(**xs), tol), "[value] value of the result")
            check_frame(sc, st0, e)
            check_wf(sc, st, e, a)
            if not wanted("adj", "chainframe"):
                return
            if op.pdom is not None:
                if not e.decide(op.pdom(**xs)):
                    return
            if not chain_defined(sc, st, e, a):
                return
            part = {n: op.partials[n](**xs) for n in nodes}
            if jn is None:
                cat(e, "adj")
                alias = als[0]
                # the operand itself stands for the result: the reverse pass does nothing, correct iff its partial is 1
                e.goal(part[alias] == 1, "[adj] operand returned as the result: its partial derivative is 1")
                for n in nodes:
                    if n != alias:
                        e.goal(part[n] == 0, "[adj] operand returned as the result: other partial derivatives are 0")
                if a.n == 0:
                    return
            lt = Later(sc, a, root)
            cat(e, "adj")
            lt.run_chains()
            def contrib(m):
                if jn is None:
                    return rv(0)
                g = lt.A(lt.locs[jn])
                t = rv(0)
                for n, nd in nodes.items():
                    t = t + z3.If(m == nd, g * part[n], rv(0))
                return t
            lt.check(contrib, tol)
        outs = e.explore(run, op.id)
        for o in outs:
            if o["stop"] is not None:
                e.obs.append(Ob("[safety] no error stop", "post", False, "error stop at line %s" % o["stop"], op.id, "-", 0))
        e.vacuous = len([o for o in outs if o["stop"] is None]) == 0
        if e.vacuous:
            e.obs.append(Ob("[safety] some path completes", "post", False, "no path", op.id, "-", 0))
    return runs

def same_state(sc, st0, st, e):
    cat(e, "frame")
    for k, r in sc.ip.globals.items():
        if st[r] is not st0[r]:
            e.fail("[frame] no library state changes", str(k))

# ------------------------------------------------------------------ operators with array arguments (any length)
class Env:
    """what a specification may talk about"""

class AOp(Op):
    """args: (name, kind) with kind v, d, va (vars), da (reals), vm/dm (matrices); dims: name -> tuple of length names
    val(E) -> real term; part(E, name, j) -> partial derivative with respect to element j of argument name"""
    def __init__(s, id, expr, args, val, part, dims=None, dom=None, pdom=None, lens=None, check_val=None, hint=None, result="var"):
        s.id, s.expr, s.args, s.val, s.part, s.dims, s.dom, s.pdom, s.lens, s.check_val, s.hint = id, expr, args, val, part, dims or {}, dom, pdom, lens, check_val, hint
        s.result = result

def no_overflow(ip):
    e = ip.e
    def hook(t):
        c = CAT[0]
        CAT[0] = "noexp"
        e.oblige(t <= 0, "[noexp] only non-positive numbers are exponentiated", "post")
        CAT[0] = c
    ip.exp_hook = hook

def setup_args(r, sc, op):
    e = r.e
    if getattr(op, "noexp", False):
        no_overflow(r.ip)
    E = Env()
    E.e, E.sc = e, sc
    E.n, E.x, E.m = {}, {}, {}
    E.len = {}
    vs = {}
    def length(nm):
        if isinstance(nm, int):
            return iv(nm)
        if nm not in E.n:
            E.n[nm] = z3.Int("n_" + nm)
            e.add(E.n[nm] >= 0)
        return E.n[nm]
    for n, k in op.args:
        if k == "v":
            m = sc.new_node(n)
            vs[n] = (var_struct(m), udecl(VAR))
            E.m[n], E.x[n] = m, sc.base.real_at(sc.loc(m))
        elif k in ("d", "i"):
            t = z3.Real(n) if k == "d" else z3.Int(n)
            ty = "real" if k == "d" else "integer"
            vs[n] = (Sc(ty, t), udecl((ty, "rk")))
            E.x[n] = t
        else:
            dn = op.dims.get(n, ("n",) if len(k) == 2 and k[1] == "a" else ("n", "m"))
            ext = [length(d) for d in dn]
            E.len[n] = ext
            dd = [("a", None)] * len(ext)
            if k[0] == "v":
                fn = z3.Function("id_" + n, *([I] * len(ext)), I)
                inj = [z3.Function("pos%d_%s" % (q, n), I, I) for q in range(len(ext))] if n in getattr(op, "inj", ()) else []
                def mk(*idx, fn=fn, ext=ext, inj=inj):
                    idx = [norm(i) for i in idx]
                    m = fn(*idx)
                    key = ("arg", m.sexpr())
                    if key not in sc.memo:
                        sc.memo.add(key)
                        e.add(z3.Implies(z3.And([z3.And(i >= 1, i <= q) for i, q in zip(idx, ext)]), sc.valid(m)))
                        sc.reg(m)
                        for f, i in zip(inj, idx):
                            # distinct elements: the position is a function of the variable
                            e.add(z3.Implies(z3.And([z3.And(i >= 1, i <= q) for i, q in zip(idx, ext)]), f(m) == i))
                    return m
                E.m[n] = mk
                E.x[n] = lambda *idx, mk=mk: sc.base.real_at(sc.loc(mk(*idx)))
                vs[n] = (Arr.base(e, ("type", "var"), ext, lambda idx, mk=mk: var_struct(mk(*idx))), udecl(VAR, arr_dims(len(ext))))
            else:
                fn = z3.Function("x_" + n, *([I] * len(ext)), R)
                E.x[n] = lambda *idx, fn=fn: fn(*[norm(i) for i in idx])
                vs[n] = (Arr.base(e, ("real", None), ext, lambda idx, fn=fn: Sc("real", fn(*idx))), udecl(("real", "rk"), arr_dims(len(ext))))
    E.vs = vs
    return E

def arr_dims(k):
    return [(None, None)] * k

def verify_aop(P, op, contracts=None, deadline=None):
    r = Run(P, contracts, deadline)
    e, ip = r.e, r.ip
    sc = r.scene()
    E = setup_args(r, sc, op)
    fr = r.user_frame(**E.vs)
    if op.lens is not None:
        e.add(op.lens(E))
    if op.dom is not None:
        op.dom(E)
    ex = parse_expr(op.expr)
    def run():
        e.where.append(op.id)
        st0 = dict(e.store)
        cat(e, "safety")
        res = ip.in_frame(fr, lambda: ip.ev(ex))
        st = dict(e.store)
        if op.result == "real":
            cat(e, "value")
            def gr():
                if op.check_val is not None:
                    op.check_val(E, res.t)
                else:
                    e.goal(res.t == op.val(E), "[value] value of the result")
            e.sub(gr)
            check_frame(sc, st0, e)
            same_state(sc, st0, st, e)
            return
        a = After(sc, st)
        check_frame(sc, st0, e)
        if a.n is None or a.n > 20:
            raise Unsupported("number of new variables is not constant")
        if not (isinstance(res, Struct) and res.tn == "var"):
            raise Unsupported("result is not a var")
        root = vi_of(res)
        cat(e, "value")
        jn = cint(norm(root - sc.H))
        if jn is None or not 0 <= jn < a.n:
            if wanted("value", "adj"):
                raise Unsupported("result is not a new variable: %s" % root)
            check_wf(sc, st, e, a)
            return
        rv_ = sc.storage(st).real_at(a.loc(jn))
        def gv():
            if not wanted("value"):
                return
            if op.check_val is not None:
                op.check_val(E, rv_)
            else:
                e.goal(rv_ == op.val(E), "[value] value of the result")
        e.sub(gv)
        check_wf(sc, st, e, a)
        if not chain_defined(sc, st, e, a):
            return
        if not wanted("adj", "chainframe"):
            return
        E.res = rv_
        if op.pdom is not None:
            op.pdom(E)
        lt = Later(sc, a, root)
        cat(e, "adj")
        lt.run_chains()
        g = lt.A(lt.locs[jn])
        def contrib(m):
            t = rv(0)
            for n, k in op.args:
                if k == "v":
                    t = t + z3.If(m == E.m[n], g * op.part(E, n), rv(0))
                elif k == "va":
                    t = t + e.mksum(E.len[n][0], lambda j, n=n: z3.If(m == E.m[n](j), g * op.part(E, n, j), rv(0)))
            return t
        lt.check(contrib, None)
    outs = e.explore(run, op.id)
    for o in outs:
        if o["stop"] is not None:
            e.obs.append(Ob("[safety] no error stop", "post", False, "error stop at line %s" % o["stop"], op.id, "-", 0))
    if not [o for o in outs if o["stop"] is None]:
        e.obs.append(Ob("[safety] some path completes", "post", False, "no path", op.id, "-", 0))
    return [r]
