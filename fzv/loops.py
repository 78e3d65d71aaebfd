"""Summaries of loops with an unbounded number of iterations.

The effect of the loop after m iterations is described by one carrier per changed location (the loop
invariant); it is found by running the body at a generic iteration k from the state the invariant
gives after k-1 iterations, and proved by checking that the state after the body is what the
invariant says for k."""
import z3
from .core import *
from . import core

def names_in(t):
    return {x.decl().name() for x in subterms([t]) if x.decl().kind() == z3.Z3_OP_UNINTERPRETED}

def newer(names, base):
    """does a set of symbol names contain one created after fresh-counter base"""
    for n in names:
        if "!" in n:
            try:
                if int(n.rsplit("!", 1)[1]) > base:
                    return True
            except ValueError:
                pass
    return False

def subst(t, k, v):
    return z3.substitute(t, (k, v))

# ------------------------------------------------------------------ differences between stores
def diff(a, b, path=()):
    """yield (path, old, new) leaves where value b differs from value a"""
    if a is b:
        return
    if isinstance(a, Struct) and isinstance(b, Struct) and a.tn == b.tn:
        for f in b.f:
            yield from diff(a.f.get(f), b.f[f], path + (("f", f),))
        return
    if isinstance(a, Sc) and isinstance(b, Sc) and a.typ == b.typ:
        if a.typ == "character":
            if a.t == b.t:
                return
        elif a.t.get_id() == b.t.get_id() or (a.typ == "integer" and same(a.t, b.t)):
            return
    if isinstance(a, Arr) and isinstance(b, Arr):
        if a.layers == b.layers and all(same(x[1], y[1]) for x, y in zip(a.dims, b.dims)):
            return
    if isinstance(a, ProcV) and isinstance(b, ProcV) and a.p is b.p:
        return
    if isinstance(a, Ref) and isinstance(b, Ref) and a.root == b.root and repr(a.sels) == repr(b.sels):
        return
    if a is NULL and b is NULL:
        return
    if isinstance(a, Undef) and isinstance(b, Undef):
        return
    if isinstance(a, Unalloc) and isinstance(b, Unalloc) and type(a) is type(b):
        return
    yield (path, a, b)

def store_diff(s0, s1):
    for r, v in s1.items():
        if r in s0:
            for p, a, b in diff(s0[r], v):
                yield (r, p), a, b

def put_path(v, path, val):
    if not path:
        return val
    return v.with_(path[0][1], put_path(v.f[path[0][1]], path[1:], val))

def get_path(v, path):
    for p in path:
        v = v.f[p[1]]
    return v

class Trace:
    """ghost: sequence of derivative rules applied"""
    def __init__(s, segs=()):
        s.segs = tuple(segs)
    def ev(s, x):
        return Trace(s.segs + (("ev", x),))

# ------------------------------------------------------------------ carriers
class Peel(Exception):
    """the first iteration allocates: execute it on its own"""

def summarize(ip, n, body):
    e = ip.e
    st = dict(e.store)
    try:
        LoopSum(ip, n, body).summarize()
        return
    except Peel:
        e.store = st
    body(iv(1))
    if not e.decide(n >= 2):
        return
    LoopSum(ip, norm(n - 1), lambda k: body(norm(k + 1))).summarize()

class LoopSum:
    count = 0
    def __init__(self, ip, n, body):
        self.ip, self.e, self.n, self.body = ip, ip.e, n, body
        self.S0 = dict(ip.e.store)
        self.car = {}
        self.stop = False
        self.frames = list(ip.frames)
        self.where = list(ip.e.where)
        self.depth = ip.depth
        LoopSum.count += 1
        self.id = LoopSum.count

    # state after m iterations
    def state_at(self, m, probe=None):
        st = dict(self.S0)
        for (root, path), c in self.car.items():
            st[root] = put_path(st[root], path, c.at(m, probe))
        return st

    def run(self, k, probe=None):
        """execute iteration k from the invariant state; returns (start store, final store)"""
        e, ip = self.e, self.ip
        st = self.state_at(norm(k - 1), probe)
        saved = (e.store, ip.frames, ip.depth, list(e.where))
        e.store = dict(st)
        ip.frames = list(self.frames)
        ip.depth = self.depth
        for inv in self.invs:
            e.add(inv(norm(k - 1)))
        fvars = [(f, dict(f.vars)) for f in ip.frames]
        try:
            self.body(k)
            return st, e.store
        finally:
            for f, v in fvars:
                f.vars = v
            e.store, ip.frames, ip.depth = saved[0], saved[1], saved[2]
            e.where[:] = saved[3]

    def iter_store(self, k, probe=None):
        """memoised silent re-run, used when something written by iteration k is read"""
        e = self.e
        k = norm(k)
        key = ("iter", self.id, k.get_id(), probe is not None)
        if key in e.memo:
            return e.memo[key]
        e.silent += 1
        try:
            r = self.run(k, probe)
        except StopExec:
            raise Infeasible()
        finally:
            e.silent -= 1
        core._keep[k.get_id()] = k
        e.memo[key] = r
        return r

    def not_final(self, why):
        """a loop inside a loop whose invariant is still being looked for may fail its check; the real one comes later"""
        if not self.e.silent:
            raise Unsupported(why)
        self.e.silent_failed = True

    # ---- discovery
    def summarize(self):
        e = self.e
        self.invs = []
        base = e.nfresh
        self.base = base
        for rnd in range(12):
            outs = self.generic_runs()
            if not self.classify(outs):
                break
        else:
            raise Unsupported("loop invariant not found")
        self.houdini()
        # the check proper: obligations of the body at a generic iteration
        outs = self.generic_runs(silent=False)
        live = [o for o in outs if o["stop"] is None]
        if any(o["stop"] is not None for o in outs):
            self.may_stop = [o["stop"] for o in outs if o["stop"] is not None]
        else:
            self.may_stop = None
        changed = self.classify(outs, check=True)
        if changed:
            self.not_final("loop invariant not inductive: %s" % (changed,))
        if self.may_stop is not None:
            b = e.fresh("stops", B)
            if e.decide(b):
                raise StopExec(self.may_stop[0])
        e.store = self.state_at(self.n)
        for inv in self.invs:
            e.add(inv(self.n))

    def generic_runs(self, silent=True):
        e = self.e
        def gen():
            k = e.fresh("it")
            e.add(k >= 1, k <= self.n)
            e.reg_index(k)
            self.gk = k
            s0, s1 = self.run(k)
            return k, s0, s1, list(self.e.pc)
        if silent:
            e.silent += 1
        sf = getattr(e, "silent_failed", False)
        try:
            return e.explore(gen, "loop body")
        finally:
            if silent:
                e.silent -= 1
                e.silent_failed = sf

    def classify(self, outs, check=False):
        """extends the carriers; returns a description of what changed (falsy: nothing)"""
        e = self.e
        self.final = check
        per = {}
        for o in outs:
            if o["result"] is None:
                continue
            k, s0, s1, pc = o["result"]
            for leaf, a, b in store_diff(s0, s1):
                per.setdefault(leaf, []).append((k, a, b, pc))
        # a scalar that some path leaves alone
        for leaf, obs in per.items():
            if isinstance(obs[0][2], Sc):
                for o in outs:
                    if o["result"] is None:
                        continue
                    k, s0, s1, pc = o["result"]
                    if not any(pc is x[3] for x in obs):
                        a = get_path(s0[leaf[0]], leaf[1])
                        obs.append((k, a, a, pc))
        ch = []
        nres = len([o for o in outs if o["result"] is not None])
        # arrays are looked at once the scalars (positions) are settled
        order = sorted(per.items(), key=lambda x: isinstance(get_path(self.S0[x[0][0]], x[0][1]), Arr))
        for leaf, obs in order:
            c = self.car.get(leaf)
            if c is None:
                if ch and not check and isinstance(get_path(self.S0[leaf[0]], leaf[1]), Arr):
                    continue
                self.car[leaf] = self.first(leaf, obs)
                ch.append((leaf, "new"))
            else:
                nc = c.step(obs, nres)
                if nc is not c:
                    self.car[leaf] = nc
                    ch.append((leaf, type(nc).__name__))
        for leaf, c in list(self.car.items()):
            if leaf not in per and hasattr(c, "unchanged"):
                nc = c.unchanged()
                if nc is not c:
                    self.car[leaf] = nc
                    ch.append((leaf, "unchanged"))
        return ch

    def first(self, leaf, obs):
        v0 = get_path(self.S0[leaf[0]], leaf[1])
        a, b = obs[0][1], obs[0][2]
        if isinstance(v0, Trace):
            return TraceC(self, leaf, v0)
        if isinstance(v0, (Sc, Undef)) and isinstance(b, (Sc,)) and b.typ != "character":
            return ScalarX(self, leaf, v0, b.typ)
        if isinstance(v0, Arr) and isinstance(b, Arr):
            return ArrC(self, leaf, v0).step(obs, None, first=True)
        if type(v0) is Unalloc and isinstance(b, Arr) and leaf[0] in self.ip.globals.values():
            raise Peel()
        if isinstance(v0, Unalloc) and isinstance(b, (Arr, Unalloc)):
            return Private(self, leaf, Junk(v0.elem, v0.rank))
        return Private(self, leaf, b)

    # ---- invariants over capacities
    def houdini(self):
        e = self.e
        hv = []      # (function m -> term, initial term)
        lin = []
        for leaf, c in self.car.items():
            if isinstance(c, HavocInt):
                hv.append((c.term, c.v0.t if isinstance(c.v0, Sc) else None))
            elif isinstance(c, Linear):
                lin.append((lambda m, c=c: c.at(m).t, c.v0.t))
            elif isinstance(c, ArrC) and c.dimsv is not None:
                for q, (f, (l, n0)) in enumerate(zip(c.dimsv, c.v0.dims)):
                    if f is not None:
                        hv.append((f, n0))
        if not hv:
            return
        cands = []
        for i, (f, t0) in enumerate(hv):
            if t0 is None:
                continue
            cands.append(lambda m, f=f, t0=t0: f(m) >= t0)
            for g, u0 in hv[:i]:
                if u0 is not None and (same(t0, u0) or e.entails(t0 == u0)):
                    cands.append(lambda m, f=f, g=g: f(m) == g(m))
            for g, u0 in lin:
                if e.entails(u0 <= t0 + 1):
                    cands.append(lambda m, f=f, g=g: g(m) <= f(m) + 1)
        cands = [c for c in cands if e.entails(c(iv(0)))]
        while cands:
            self.invs = list(cands)
            bad = set()
            def gen():
                k = e.fresh("it")
                e.add(k >= 1, k <= self.n)
                e.reg_index(k)
                s0, s1 = self.run(k)
                # equate the havocked values after the body with their names at m = k
                fs = []
                for leaf, c in self.car.items():
                    v1 = get_path(s1[leaf[0]], leaf[1])
                    if isinstance(c, HavocInt):
                        fs.append(c.term(k) == v1.t)
                    elif isinstance(c, ArrC) and c.dimsv is not None:
                        for f, (l, n1) in zip(c.dimsv, v1.dims):
                            if f is not None:
                                fs.append(f(k) == n1)
                e.add(*fs)
                for i, c in enumerate(cands):
                    if not e.entails(c(k)):
                        bad.add(i)
            e.silent += 1
            try:
                e.explore(gen, "loop invariant")
            finally:
                e.silent -= 1
            if not bad:
                break
            cands = [c for i, c in enumerate(cands) if i not in bad]
        self.invs = cands

def entails_at(e, pc, c):
    mark = e.push()
    try:
        e.add(*pc)
        return e.entails(c)
    finally:
        e.pop(mark)

class Carrier:
    def __init__(self, loop, leaf, v0):
        self.L, self.leaf, self.v0 = loop, leaf, v0
    def step(self, obs, nres):
        return self

class Private(Carrier):
    """overwritten in every iteration before it is used; unknown afterwards"""
    def __init__(self, loop, leaf, sample):
        self.L, self.leaf, self.sample = loop, leaf, sample
        self.v0 = get_path(loop.S0[leaf[0]], leaf[1])
    def at(self, m, probe=None):
        if cint(m) == 0:
            return self.v0
        return junk_like(self.L, self.sample, self.v0)

def junk_like(L, v, v0):
    e = L.e
    if isinstance(v, Sc) and v.typ in ("integer", "real", "logical"):
        return Sc(v.typ, e.fresh("havoc_p", {"integer": I, "real": R, "logical": B}[v.typ]))
    if isinstance(v, Unalloc):
        return Junk(v.elem, v.rank)
    if isinstance(v, Arr):
        return Arr.base(e, v.elem, v.extents(), lambda idx: junk_cell(L, v), [l for l, _ in v.dims])
    if isinstance(v, Struct):
        return Struct(v.tn, {k: junk_like(L, x, None) for k, x in v.f.items()})
    return Undef(None)

def junk_cell(L, v):
    t = v.elem[0]
    if t in ("integer", "real", "logical"):
        return Sc(t, L.e.fresh("havoc_p", {"integer": I, "real": R, "logical": B}[t]))
    return Undef(t)

class TraceC(Carrier):
    def at(self, m, probe=None):
        if cint(m) == 0:
            return self.v0
        loop, leaf, n0 = self.L, self.leaf, len(self.v0.segs)
        def evs(k):
            s0, s1 = loop.iter_store(k)
            return [x[1] if x[0] == "ev" else x for x in get_path(s1[leaf[0]], leaf[1]).segs[len(get_path(s0[leaf[0]], leaf[1]).segs):]]
        return Trace(self.v0.segs + (("loop", m, evs),))

SORT = {"integer": I, "real": R, "logical": B}

class ScalarX(Carrier):
    """first look: the value is an unknown X at the start of the iteration"""
    def __init__(self, loop, leaf, v0, typ):
        super().__init__(loop, leaf, v0)
        self.typ = typ
        self.X = loop.e.fresh("X", SORT[typ])
    def at(self, m, probe=None):
        return Sc(self.typ, self.X)
    def unchanged(self):
        return Linear(self.L, self.leaf, self.v0, iv(0)) if self.typ == "integer" and isinstance(self.v0, Sc) else self
    def step(self, obs, nres):
        ds, dep = [], False
        for k, a, b, pc in obs:
            if not isinstance(b, Sc):
                return Private(self.L, self.leaf, b)
            nm = names_in(b.t)
            if self.X.decl().name() in nm:
                dep = True
            ds.append(b.t)
        if not dep and len(obs) == nres:
            if self.typ == "integer" and isinstance(self.v0, Sc) and any(newer(names_in(t), self.L.base) and t.get_id() != k.get_id() for (k, a, b, pc), t in zip(obs, ds)) \
               and not any(k.decl().name() in names_in(t) for (k, a, b, pc), t in zip(obs, ds)):
                return HavocInt(self.L, self.leaf, self.v0)
            return Private(self.L, self.leaf, obs[0][2])
        if self.typ == "integer":
            first = None
            ok = len(obs) == nres
            dl = []
            for (k, a, b, pc), t in zip(obs, ds):
                d = unpoly(pdiff(t, self.X))
                nm = names_in(d)
                if k.decl().name() in nm or self.X.decl().name() in nm or newer(nm, self.L.base):
                    ok = False
                    break
                dl.append((d, pc))
            if ok:
                first = next((d for d, pc in dl if cint(d) is None), dl[0][0])
                ok = all(same(d, first) or entails_at(self.L.e, pc, d == first) for d, pc in dl)
            if ok and isinstance(self.v0, Sc):
                return Linear(self.L, self.leaf, self.v0, first)
            return HavocInt(self.L, self.leaf, self.v0)
        if self.typ == "real" and isinstance(self.v0, Sc) and len(obs) == nres:
            for (k, a, b, pc), t in zip(obs, ds):
                d = z3.simplify(t - self.X, som=True)
                if self.X.decl().name() in names_in(d):
                    return Private(self.L, self.leaf, obs[0][2]) if not dep else HavocReal(self.L, self.leaf, obs[0][2])
            return SumC(self.L, self.leaf, self.v0, self.X)
        return HavocReal(self.L, self.leaf, obs[0][2])

class HavocReal(Private):
    pass

class Linear(Carrier):
    def __init__(self, loop, leaf, v0, d):
        super().__init__(loop, leaf, v0)
        self.d = d
    def at(self, m, probe=None):
        return Sc("integer", norm(self.v0.t + m * self.d))
    def step(self, obs, nres):
        for k, a, b, pc in obs:
            if not isinstance(b, Sc) or not (same(b.t, a.t + self.d) or entails_at(self.L.e, pc, b.t == a.t + self.d)):
                return HavocInt(self.L, self.leaf, self.v0)
        return self

class HavocInt(Carrier):
    def __init__(self, loop, leaf, v0):
        super().__init__(loop, leaf, v0)
        self.f = loop.e.freshfn("hv", I, I)
    def term(self, m):
        m = norm(m)
        if cint(m) == 0 and isinstance(self.v0, Sc):
            return self.v0.t
        return self.f(m)
    def at(self, m, probe=None):
        return Sc("integer", self.term(m))

class SumC(Carrier):
    """real accumulator: v0 + sum of increments"""
    def __init__(self, loop, leaf, v0, X):
        super().__init__(loop, leaf, v0)
        self.X = X
    def inc(self, k):
        s0, s1 = self.L.iter_store(k)
        a = get_path(s0[self.leaf[0]], self.leaf[1]).t
        b = get_path(s1[self.leaf[0]], self.leaf[1]).t
        return z3.simplify(b - a, som=True)
    def at(self, m, probe=None):
        if cint(m) == 0:
            return self.v0
        if cint(m - self.L.n) == 0:
            return Sc("real", self.v0.t + self.L.e.mksum(self.L.n, self.inc))
        return Sc("real", self.X)

# ------------------------------------------------------------------ arrays
class ArrC(Carrier):
    """array changed by the loop: write window linear in k / scattered accumulation / scattered setting / adjoints havocked"""
    def __init__(self, loop, leaf, v0):
        super().__init__(loop, leaf, v0)
        self.kind = None
        self.dimsv = None
        self.win = None
        self.zf = False

    def layers_of(self, a, b):
        """layers added to b with respect to a, or None when b is a new array"""
        n = len(a.layers)
        if len(b.layers) >= n and all(x is y for x, y in zip(a.layers, b.layers[:n])):
            return b.layers[n:]
        return None

    def at(self, m, probe=None):
        v = self.v0
        if cint(m) == 0:
            return v
        dims = v.dims
        if self.dimsv is not None:
            dims = [(l, f(m) if f is not None else n) for (l, n), f in zip(v.dims, self.dimsv)]
        layers = v.layers
        if self.zf:
            # cells added by growing are zero until written
            layers = layers + (("zerofrom", norm(v.dims[0][1] + 1)),)
        if self.kind is None:
            pass
        elif self.kind == "window":
            layers = layers + (("obj", WindowLayer(self, m)),)
        elif self.kind == "acc":
            if cint(m - self.L.n) == 0 and probe is None:
                layers = layers + (("adj", AccLayer(self, m)),)
            else:
                layers = layers + (("adj", ProbeLayer(self, m)),)
        elif self.kind == "set":
            layers = layers + (("obj", SetLayer(self, m)),)
        elif self.kind == "adjh":
            layers = layers + (("adj", self.adjh_layer(m)),)
        elif self.kind == "private":
            return junk_like(self.L, v, v)
        return Arr(v.eng, v.elem, dims, layers, v.src)

    def adjh_layer(self, m):
        from .scene import AdjH
        e = self.L.e
        f = self.hf
        return AdjH(self.L.ip.scene, lambda L: f(m, L), self.hlo)

    def new(self, **kw):
        c = ArrC(self.L, self.leaf, self.v0)
        c.kind, c.dimsv, c.win, c.zf = self.kind, self.dimsv, self.win, self.zf
        c.__dict__.update({k: v for k, v in self.__dict__.items() if k not in c.__dict__ or k in ("kind", "dimsv", "win", "zf")})
        for k, v in kw.items():
            setattr(c, k, v)
        return c

    def step(self, obs, nres, first=False):
        e = self.L.e
        c = self
        # dimensions
        for k, a, b, pc in obs:
            if not isinstance(b, Arr):
                return Private(self.L, self.leaf, Junk(self.v0.elem, self.v0.rank))
            for q, ((l1, n1), (l2, n2)) in enumerate(zip(a.dims, b.dims)):
                if not same(n1, n2):
                    dv = list(c.dimsv or [None] * self.v0.rank)
                    if dv[q] is None:
                        f = e.freshfn("ext", I, I)
                        n0 = self.v0.dims[q][1]
                        dv[q] = lambda m, f=f, n0=n0: n0 if cint(m) == 0 else f(norm(m))
                        c = c.new(dimsv=dv)
        # content
        news = []
        for k, a, b, pc in obs:
            ls = self.layers_of(a, b)
            if ls is None:
                return c if c.kind == "private" else c.new(kind="private")
            zs = [l for l in ls if l[0] == "zerofrom"]
            if zs:
                if self.v0.rank != 1:
                    raise Unsupported("growing a matrix in a loop")
                mark = e.push()
                try:
                    e.add(*pc)
                    for l in zs:
                        if self.L.final and not e.entails(l[1] >= a.dims[0][1] + 1):
                            self.L.not_final("zeroing in a loop")
                finally:
                    e.pop(mark)
                if not c.zf:
                    c = c.new(zf=True)
                ls = tuple(l for l in ls if l[0] != "zerofrom")
            news.append((k, ls, pc))
        if all(not ls for k, ls, pc in news):
            return c
        if c.kind == "private":
            return c
        want = self.pattern(news)
        if c.kind is None:
            return c.new(kind=want[0], **want[1])
        if c.kind == want[0]:
            if want[0] == "window" and not all(x is y or same(x, y) for x, y in zip((c.win[1], c.win[2]), (want[1]["win"][1], want[1]["win"][2]))):
                raise Unsupported("unstable write window")
            if want[0] == "window":
                fx = {q: x for q, x in c.win[3].items() if q in want[1]["win"][3] and same(x, want[1]["win"][3][q])}
                if len(fx) != len(c.win[3]):
                    return c.new(win=c.win[:3] + (fx,))
            if want[0] == "adjh":
                if (c.hlo is None) != (want[1]["hlo"] is None) or (c.hlo is not None and not same(c.hlo, want[1]["hlo"])):
                    raise Unsupported("adjoints of different scopes change in a loop")
                if c.hx is not None and (want[1]["hx"] is None or not want[1]["hx"].eq(c.hx)):
                    return c.new(hf=e.freshfn("adjh", I, I, R), hx=None)
            return c
        if (c.kind, want[0]) in (("set", "acc"), ("acc", "set")):
            # an iteration that does not read what it overwrites sets it
            return c if c.kind == "set" else c.new(kind="set")
        raise Unsupported("mixed writes in a loop: %s then %s" % (c.kind, want[0]))

    def pattern(self, news):
        e = self.L.e
        # adjoint havoc only
        if all(all(l[0] == "adj" and type(l[1]).__name__ == "AdjH" for l in ls) for k, ls, pc in news):
            return "adjh", self.adjh(news)
        allw = []
        for k, ls, pc in news:
            ws = []
            for l in ls:
                if l[0] == "pt":
                    ws.append((l[1], iv(1), l))
                elif l[0] == "rng":
                    ws.append(((l[1],), l[2], l))
                elif l[0] == "obj" and isinstance(l[1], WindowLayer):
                    ws.append((l[1].lo_idx(), l[1].total(), l))
                elif l[0] == "sec":
                    w = sec_window(l[3])
                    if w is None:
                        raise Unsupported("section write in a loop")
                    ws.append((w[0], w[1], l))
                else:
                    raise Unsupported("writes in a loop (%s)" % l[0])
            allw.append((k, ws))
            self.wpc = dict(getattr(self, 'wpc', {}))
            self.wpc[id(ws)] = pc
        # window linear in k along one dimension
        rank = self.v0.rank
        for d in range(rank):
            w = self.window(allw, d)
            if w is not None:
                return "window", dict(win=w + (self.fixed(allw, d),))
        # scattered: a single two-cell write of a real at an opaque position
        if rank == 1:
            for k, ws in allw:
                if len(ws) == 1 and ws[0][2][0] == "rng" and cint(ws[0][1]) == 2 and ws[0][2][4] is not None:
                    continue
                if not ws:
                    continue
                raise Unsupported("scattered writes in a loop: %s" % [(str(w[0]), str(w[1]), w[2][0]) for _, ws in allw for w in ws][:4])
            k, ws = [x for x in allw if x[1]][0]
            if len([1 for x in allw if x[1]]) != len(allw):
                raise Unsupported("conditional scattered writes")
            acc = False
            for k, ws in allw:
                v = ws[0][2][4](iv(1))
                if "probe" in " ".join(names_in(v)):
                    acc = True
            if self.kind is None:
                return "acc", {}
            return ("acc" if acc else "set"), {}
        raise Unsupported("write pattern in a loop: %s" % [[(str(w[0]), str(w[1]), w[2][0]) for w in ws] for _, ws in allw][:3])

    def adjh(self, news):
        """what the last iteration left behind, when that is a function of the iteration alone; else anything"""
        e = self.L.e
        hs = [l[1] for k, ls, pc in news for l in ls]
        lo = hs[0].lo
        if any((h.lo is None) != (lo is None) or (lo is not None and not same(h.lo, lo)) for h in hs):
            raise Unsupported("adjoints of different scopes change in a loop")
        if lo is not None and newer(names_in(lo), self.L.base):
            raise Unsupported("the scope whose adjoints change moves in a loop")
        Lv = z3.Int("adjh?L")
        exact = None
        if all(ls for k, ls, pc in news):
            for k, ls, pc in news:
                t = ls[-1][1].fn(Lv)
                if newer(names_in(t) - {k.decl().name()}, self.L.base):
                    exact = None
                    break
                t = z3.substitute(t, (k, z3.Int("adjh?k")))
                if exact is not None and not t.eq(exact):
                    exact = None
                    break
                exact = t
        if exact is not None:
            kv = z3.Int("adjh?k")
            def hf(m, L):
                m, L = norm(m), norm(L)
                x = z3.substitute(exact, (kv, m), (Lv, L))
                if e.entails(m >= 1) or e.decide(m >= 1):
                    return x
                return self.v0.real_at(norm(L + 2))       # before the first iteration
            return dict(hf=hf, hlo=lo, hx=exact)
        return dict(hf=e.freshfn("adjh", I, I, R), hlo=lo, hx=None)

    def window(self, allw, d):
        e = self.L.e
        res = None
        for k, ws in allw:
            if not ws:
                continue
            kn = k.decl().name()
            los = []
            stride = None
            for idx, n, l in ws:
                x = idx[d]
                if x is None:
                    return None
                b = norm(subst(x, k, k + 1) - x)
                nb = names_in(b)
                if kn in nb or newer(nb, self.L.base) or cint(b) == 0:
                    return None
                if newer(names_in(x) - {kn}, self.L.base):
                    return None
                if stride is None:
                    stride = b
                elif not same(stride, b):
                    return None
                if l[0] == "obj":
                    wd = n if d == l[1].d else iv(1)
                else:
                    wd = n if (l[0] != "pt" and self.v0.rank == 1) or l[0] == "sec" else iv(1)
                los.append((x, wd))
            mark = e.push()
            e.add(*self.wpc[id(ws)])
            try:
                # start of the window
                neg = cint(stride) is not None and cint(stride) < 0
                if not neg and not e.entails(stride >= 1):
                    return None
                wid = norm(-stride) if neg else stride
                lo = None
                k_in = z3.And(k >= 1, k <= self.L.n)
                for x, n in los:
                    if all(e.entails(z3.Implies(k_in, y >= x)) for y, _ in los):
                        lo = x
                        break
                if lo is None:
                    return None
                for x, n in los:
                    if not e.entails(z3.Implies(k_in, x + n <= lo + wid)):
                        return None
            finally:
                e.pop(mark)
            W1 = norm(subst(lo, k, iv(1)))
            if res is None:
                res = (d, W1, stride)
            elif not (same(res[1], W1) and same(res[2], stride)):
                # a different start in another path: take the smaller one when it fits
                dd = cint(norm(W1 - res[1]))
                if dd is None or not same(res[2], stride):
                    return None
                if dd < 0:
                    res = (d, W1, stride)
        return res

    def fixed(self, allw, d):
        """the other coordinates, where every write of every iteration has the same one"""
        out = {}
        for q in range(self.v0.rank):
            xs = [(k, idx[q]) for k, ws in allw for idx, n, l in ws]
            if q == d or not xs or any(x is None or (l[0] == "obj" and l[1].d == q) for (k, x), l in zip(xs, [l for k, ws in allw for idx, n, l in ws])):
                continue
            x0 = xs[0][1]
            if all(same(x, x0) and k.decl().name() not in names_in(x) for k, x in xs) and not newer(names_in(x0), self.L.base):
                out[q] = x0
        return out

    # what iteration k writes
    def iter_arr(self, k, probe=None):
        s0, s1 = self.L.iter_store(k, probe)
        return get_path(s0[self.leaf[0]], self.leaf[1]), get_path(s1[self.leaf[0]], self.leaf[1])

def sec_window(specs):
    idx, n = [], None
    for s in specs:
        if s[0] == "i":
            idx.append(s[1])
        elif s[0] == "r" and cint(s[3]) == 1:
            idx.append(s[1] if False else None)
        else:
            return None
    return tuple(idx), iv(1)

class WindowLayer:
    def __init__(self, c, m):
        self.c, self.m = c, norm(m)
        self.d, self.W1, self.b, self.fix = c.win
        self.neg = cint(self.b) is not None and cint(self.b) < 0
        self.wid = norm(-self.b) if self.neg else self.b
    def lo_idx(self):
        x = norm(self.W1 + (self.m - 1) * self.b) if self.neg else self.W1
        return tuple(x if q == self.d else self.fix.get(q) for q in range(self.c.v0.rank))
    def total(self):
        return norm(self.m * self.wid)
    def locate(self, x):
        e = self.c.L.e
        key = ("loc", id(self), x.get_id())
        if key in e.memo:
            return e.memo[key]
        r = self._locate(x)
        e.memo[key] = r
        return r
    def _locate(self, x):
        from .interp import poly_div_hint
        e = self.c.L.e
        m = self.m
        if self.neg:
            off = norm(self.W1 + self.wid - 1 - x)
        else:
            off = norm(x - self.W1)
        if cint(m) is not None and cint(m) <= 0:
            return None
        if e.entails(z3.Or(off < 0, off >= m * self.wid)):
            return None
        for q in poly_div_hint(off, self.wid):
            r = norm(off - q * self.wid)
            if e.entails(z3.And(r >= 0, r < self.wid)):
                k = norm(q + 1)
                if e.decide(z3.And(k >= 1, k <= m)):
                    e.reg_index(k)
                    return k
                return None
        if not e.decide(z3.And(off >= 0, off < m * self.wid)):
            return None
        k = e.fresh("it")
        e.add(k >= 1, k <= m, (k - 1) * self.wid <= off, off < k * self.wid)
        e.reg_index(k)
        return k
    def cell(self, arr, idx, top):
        k = self.locate(idx[self.d])
        if k is None:
            return None
        a0, a1 = self.c.iter_arr(k)
        return a1.get(idx)
    def real(self, arr, p, top):
        k = self.locate(p)
        k2 = self.locate(norm(p + 1))
        if k is None and k2 is None:
            return None
        if k is not None and k2 is not None and (same(k, k2) or arr.eng.entails(k == k2)):
            a0, a1 = self.c.iter_arr(k)
            return a1.real_at(p)
        return join_cells(arr.eng, arr._get((p,), top), arr._get((norm(p + 1),), top))

class ProbeLayer:
    """content of scattered locations at the start of an iteration: unknown"""
    def __init__(self, c, m):
        self.c, self.m = c, m
        self.f = c.probe_fn()
    def real(self, arr, p, top):
        s = self.c.L.ip.scene
        if s.is_node_loc(norm(p - 2)):
            return self.f(norm(p - 2))
        return None
    def cell(self, arr, p, top):
        s = self.c.L.ip.scene
        if s.is_node_loc(norm(p - 2)):
            return Bits(0, self.f(norm(p - 2)))
        if s.is_node_loc(norm(p - 3)):
            return Bits(1, self.f(norm(p - 3)))
        return None

def _probe_fn(self):
    if not hasattr(self, "_pf"):
        self._pf = self.L.e.freshfn("probe", I, R)
    return self._pf
ArrC.probe_fn = _probe_fn

class AccLayer:
    """adjoint of the node at pos(k)-2 grows by d(k), k = 1..m"""
    def __init__(self, c, m):
        self.c, self.m = c, norm(m)
        self.checked = False
    def write(self, k):
        a0, a1 = self.c.iter_arr(k, probe=True)
        ls = self.c.layers_of(a0, a1)
        pos = ls[0][1]
        v = ls[0][4](iv(1))
        return pos, v, a0
    def pos_d(self, k):
        e = self.c.L.e
        pos, v, a0 = self.write(k)
        pf = self.c.probe_fn()
        L = norm(pos - 2)
        d = z3.simplify(v - pf(L), som=True)
        if pf.name() in names_in(d):
            # equal but syntactically different position
            old = [x for x in subterms([d]) if x.decl().name() == pf.name()]
            w = z3.substitute(v, *[(x, pf(L)) for x in old if not same(x.arg(0), L) and e.entails(x.arg(0) == L)])
            d = z3.simplify(w - pf(L), som=True)
            if pf.name() in names_in(d):
                raise Unsupported("scattered update is not an accumulation")
        return L, d
    def amount(self, L):
        e = self.c.L.e
        def f(j):
            P, d = self.pos_d(j)
            return z3.If(P == L, d, rv(0))
        # no iteration can hit L
        res = []
        def probe():
            k = e.fresh_index(self.m, "it")
            P, d = self.pos_d(k)
            res.append(e.entails(P != L))
        e.silent += 1
        try:
            e.explore(probe, "scatter miss")
        finally:
            e.silent -= 1
        if all(res):
            return rv(0)
        return e.mksum(self.m, f)
    def check(self):
        if self.checked:
            return
        self.checked = True
        e, s = self.c.L.e, self.c.L.ip.scene
        def f():
            k = e.fresh_index(self.m, "it")
            P, d = self.pos_d(k)
            for fn in s.isn_facts:
                fn(P)
            e.oblige(s.ISN(P), "accumulation goes to the adjoint of a recorded variable", "requires")
        e.explore(f, "scatter targets")
    def cell(self, arr, p, top):
        s = self.c.L.ip.scene
        self.check()
        if s.is_node_loc(norm(p - 2)):
            return Bits(0, arr.real_at(p, top - 1) + self.amount(norm(p - 2)))
        if s.is_node_loc(norm(p - 3)):
            return Bits(1, arr.real_at(norm(p - 1), top - 1) + self.amount(norm(p - 3)))
        return None
    def real(self, arr, p, top):
        s = self.c.L.ip.scene
        self.check()
        if s.is_node_loc(norm(p - 2)):
            return arr.real_at(p, top - 1) + self.amount(norm(p - 2))
        for q in (norm(p - 3), norm(p - 1)):
            if s.is_node_loc(q):
                return join_cells(arr.eng, arr._get((p,), top), arr._get((norm(p + 1),), top))
        return None

class SetLayer:
    """real at pos(k) set to v(k), k = 1..m, where pos(k) = node location + off"""
    def __init__(self, c, m):
        self.c, self.m = c, norm(m)
    def write(self, k):
        a0, a1 = self.c.iter_arr(k)
        ls = self.c.layers_of(a0, a1)
        return norm(ls[0][1]), ls[0][4](iv(1))
    def offset(self):
        """pos(k) = X(k) + off with X(k) the location of a recorded variable"""
        c = self.c
        if hasattr(c, "_off"):
            return c._off
        e, s = c.L.e, c.L.ip.scene
        res = []
        def f():
            k = e.fresh_index(self.m, "it")
            pos, v = self.write(k)
            for off in (2, 0):
                P = norm(pos - off)
                for fn in s.isn_facts:
                    fn(P)
                if e.entails(s.ISN(P)):
                    res.append(off)
                    return
            e.fail("a scattered write goes to the value or adjoint of a recorded variable", str(pos), "requires")
            res.append(None)
        e.explore(f, "scatter targets")
        if None in res or len(set(res)) != 1:
            raise Unsupported("scattered writes to unclassified positions")
        c._off = res[0]
        return c._off
    def find(self, L):
        """iteration that last wrote the node at location L, or None"""
        e, s = self.c.L.e, self.c.L.ip.scene
        off = self.offset()
        key = ("set", id(self.c), self.m.get_id(), L.get_id())
        if key in e.memo:
            return e.memo[key]
        # structural inverse
        k0 = e.fresh("kk")
        r = "?"
        inv = self.inverse(L, off)
        if inv is not None:
            r = inv if e.decide(z3.And(inv >= 1, inv <= self.m)) else None
        else:
            b = e.fresh("hit", B)
            inr = lambda t: e.entails(z3.And(t >= 1, t <= self.m))
            if e.decide(b):
                k = e.fresh_index(self.m, "hitk")
                e.add(self.write(k)[0] == L + off)
                e.add_forall(lambda t: None if not inr(t) or same(t, k) else z3.Implies(t > k, self.write(t)[0] != L + off))
                r = k
            else:
                e.add_forall(lambda t: None if not inr(t) else self.write(t)[0] != L + off)
                r = None
        e.memo[key] = r
        return r
    def inverse(self, L, off):
        """pos(k) = loc(c0 + c1*k) + off and L = loc(m'): k = (m' - c0)/c1"""
        e, s = self.c.L.e, self.c.L.ip.scene
        if not (L.decl().name() == s.loc.name()):
            return None
        mm = L.arg(0)
        key = ("setinv", id(self.c))
        if not hasattr(self.c, "_lin"):
            box = []
            def f():
                k = e.fresh_index(self.m, "it")
                pos, v = self.write(k)
                P = norm(pos - off)
                if P.decl().name() == s.loc.name():
                    a = P.arg(0)
                    d = cint(norm(subst(a, k, k + 1) - a))
                    if d in (1, -1) and not newer(names_in(a) - {k.decl().name()}, self.c.L.base):
                        box.append((d, norm(a - d * k)))
                        return
                box.append(None)
            e.silent += 1
            try:
                e.explore(f, "inverse")
            finally:
                e.silent -= 1
            self.c._lin = box[0] if box and None not in box and len(set(map(str, box))) == 1 else None
        if self.c._lin is None:
            return None
        d, c0 = self.c._lin
        k = norm((mm - c0) * d)
        # injectivity of loc on recorded variables: both indices must be recorded
        if not e.entails(s.valid(mm)):
            return None
        return k
    def cell(self, arr, idx, top):
        s = self.c.L.ip.scene
        p = idx[0]
        off = self.offset()
        for h in (0, 1):
            L = norm(p - off - h)
            if s.is_node_loc(L):
                k = self.find(L)
                if k is not None:
                    return Bits(h, self.write(k)[1])
        return None
    def real(self, arr, p, top):
        s = self.c.L.ip.scene
        off = self.offset()
        L = norm(p - off)
        if s.is_node_loc(L):
            k = self.find(L)
            return None if k is None else self.write(k)[1]
        for q in (norm(L - 1), norm(L + 1)):
            if s.is_node_loc(q):
                return join_cells(arr.eng, arr._get((p,), top), arr._get((norm(p + 1),), top))
        return None

# ------------------------------------------------------------------ entry points
def run_loop(ip, n, body):
    """execute body(1), ..., body(n)"""
    e = ip.e
    c = e.small(n)
    if c is not None:
        for q in range(max(c, 0)):
            body(iv(q + 1))
        return
    if not e.entails(n >= 1):
        if not e.decide(n >= 1):
            return
    summarize(ip, n, body)

def sym_do(ip, s, ref, lo, step, n):
    e = ip.e
    if not e.entails(n >= 1):
        if not e.decide(n >= 1):
            ip.write(ref, Sc("integer", lo))
            return
    def body(k):
        ip.write(ref, Sc("integer", norm(lo + (k - 1) * step)))
        if not ip.run_iter(s):
            raise Unsupported("exit from a loop with an unbounded number of iterations")
    summarize(ip, n, body)
    ip.write(ref, Sc("integer", norm(lo + n * step)))

def elemental_seq(ip, p, base, actuals, elem):
    e = ip.e
    ext = base.extents()
    from .interp import Actual
    res = None
    if elem is not None:
        dv = Undef(elem[0])
        res = Ref(e.cell(Arr.base(e, elem, ext, lambda idx: dv)))
    def one(idx):
        v = ip.call_proc_b(p, actuals(idx))
        if res is not None:
            arr = e.store[res.root]
            e.store[res.root] = arr.put(idx, v)
    if len(ext) == 1:
        run_loop(ip, ext[0], lambda k: one((k,)))
    elif len(ext) == 2:
        run_loop(ip, ext[1], lambda j: run_loop(ip, ext[0], lambda i: one((i, j))))
    else:
        raise Unsupported("elemental over rank > 2")
    if res is not None:
        return e.store[res.root]
    return None

def sym_while(ip, s):
    e = ip.e
    # a few concrete iterations first
    for q in range(3):
        v = ip.ev(s.cond)
        c = z3.simplify(v.t)
        if z3.is_false(c) or e.entails(z3.Not(c)):
            return
        if not (z3.is_true(c) or e.entails(c)):
            break
        if not ip.run_iter(s):
            return
    if not e.decide(ip.ev(s.cond).t):
        return
    WhileSum(ip, s).run()

class WhileSum:
    """while loop that grows arrays: contents kept, new cells constant; sizes are havocked under invariants found by elimination"""
    def __init__(self, ip, s):
        self.ip, self.e, self.s = ip, ip.e, s
        self.S0 = dict(ip.e.store)
        self.hv = {}
        self.cands = []

    def havoc_state(self):
        e = self.e
        st = dict(self.S0)
        self.sym = {}
        for leaf, kind in self.hv.items():
            v0 = get_path(self.S0[leaf[0]], leaf[1])
            if kind == "int":
                x = e.fresh("w")
                v = Sc("integer", x)
                self.sym[leaf] = x
            elif kind == "junk":
                v = Junk(v0.elem, v0.rank)
            elif kind[0] == "arr":
                x = e.fresh("w")
                self.sym[leaf] = x
                n0 = v0.dims[0][1]
                tail = kind[1]
                v = Arr(e, v0.elem, [(v0.dims[0][0], x)], v0.layers + (("sec", lambda idx, n0=n0: idx if ge(e, idx[0], norm(n0 + 1)) else None, lambda idx, t=tail: t, None),), v0.src)
            else:
                raise Unsupported("while loop")
            st[leaf[0]] = put_path(st[leaf[0]], leaf[1], v)
        return st

    def terms(self, st):
        out = {}
        for leaf, kind in self.hv.items():
            v = get_path(st[leaf[0]], leaf[1])
            if kind == "int":
                out[leaf] = v.t
            elif kind != "junk" and isinstance(v, Arr):
                out[leaf] = v.dims[0][1]
        return out

    def one(self, collect):
        """one iteration from the havocked state under the candidate invariants"""
        e, ip = self.e, self.ip
        def gen():
            e.store = self.havoc_state()
            t0 = self.terms(self.S0)
            t = self.terms(e.store)
            for c in self.cands:
                e.add(c(t, t0))
            if not e.decide(ip.ev(self.s.cond).t):
                raise Infeasible()
            s0 = dict(e.store)
            if not ip.run_iter(self.s):
                raise Unsupported("exit from while loop")
            collect(s0, e.store)
        fr = list(ip.frames)
        e.explore(gen, "while body")
        ip.frames = fr

    def run(self):
        e, ip = self.e, self.ip
        # first iteration from the real state tells what changes
        tails = {}
        for rnd in range(6):
            found = []
            def col(s0, s1):
                for leaf, a, b in store_diff(s0, s1):
                    if leaf not in self.hv:
                        found.append((leaf, a, b))
            e.silent += 1
            try:
                self.one(col)
            finally:
                e.silent -= 1
            if not found:
                break
            for leaf, a, b in found:
                v0 = get_path(self.S0[leaf[0]], leaf[1])
                if isinstance(v0, Sc) and v0.typ == "integer":
                    self.hv[leaf] = "int"
                elif isinstance(v0, Unalloc):
                    self.hv[leaf] = "junk"
                elif isinstance(v0, Arr) and isinstance(b, Arr) and v0.rank == 1:
                    # value of the cells beyond the old extent
                    box = []
                    def probe(s0, s1):
                        a1 = get_path(s1[leaf[0]], leaf[1])
                        n0 = get_path(s0[leaf[0]], leaf[1]).dims[0][1]
                        p = e.fresh("p")
                        e.add(p > n0, p <= a1.dims[0][1])
                        box.append(a1.get((p,)))
                    e.silent += 1
                    try:
                        self.one(probe)
                    finally:
                        e.silent -= 1
                    if not box:
                        raise Unsupported("while loop: grown cells")
                    self.hv[leaf] = ("arr", box[0])
                else:
                    raise Unsupported("while loop changes %r" % (leaf,))
        else:
            raise Unsupported("while loop: no invariant")
        # candidate invariants
        leaves = [l for l, k in self.hv.items() if k != "junk"]
        t0 = self.terms(self.S0)
        def mk(f, l, g=None):
            return lambda t, t0: f(t[l], t0[l]) if g is None else f(t[l], t[g])
        c = []
        for i, l in enumerate(leaves):
            c.append(mk(lambda x, x0: x >= x0, l))
            for g in leaves[:i]:
                if e.entails(t0[l] == t0[g]):
                    c.append(mk(lambda x, y: x == y, l, g))
        self.cands = c
        while True:
            bad = set()
            def chk(s0, s1):
                t1, t0 = self.terms(s1), self.terms(self.S0)
                for i, c in enumerate(self.cands):
                    if not e.entails(c(t1, t0)):
                        bad.add(i)
            e.silent += 1
            try:
                self.one(chk)
            finally:
                e.silent -= 1
            if not bad:
                break
            self.cands = [c for i, c in enumerate(self.cands) if i not in bad]
        # inductive check of contents, with obligations
        def fin(s0, s1):
            for leaf, kind in self.hv.items():
                if kind == "int" or kind == "junk":
                    continue
                v0 = get_path(self.S0[leaf[0]], leaf[1])
                b = get_path(s1[leaf[0]], leaf[1])
                a = get_path(s0[leaf[0]], leaf[1])
                n0 = v0.dims[0][1]
                p = e.fresh("p")
                e.add(p >= 1, p <= b.dims[0][1])
                x = b.get((p,))
                y = v0.get((p,)) if e.decide(p <= n0) else kind[1]
                e.goal(value_equal(e, x, y), "loop invariant: growing keeps the content and fills with the initial value", "invariant")
        self.one(fin)
        e.store = self.havoc_state()
        t0, t = self.terms(self.S0), self.terms(e.store)
        for c in self.cands:
            e.add(c(t, t0))
        cond = ip.ev(self.s.cond)
        e.add(z3.Not(cond.t))
        e.notes.add("termination of while loops is not proved")

def value_equal(e, x, y):
    """z3 formula: two values are the same"""
    if x is y:
        return TRUE
    if isinstance(x, Struct) and isinstance(y, Struct):
        if set(x.f) != set(y.f):
            return FALSE
        return z3.And([value_equal(e, x.f[k], y.f[k]) for k in x.f] + [TRUE])
    if isinstance(x, ProcV) or isinstance(y, ProcV) or isinstance(x, SymProc) or isinstance(y, SymProc):
        if isinstance(x, ProcV) and isinstance(y, ProcV):
            return z3.BoolVal(x.p is y.p)
        if isinstance(x, SymProc) and isinstance(y, SymProc):
            return x.t == y.t
        return FALSE
    if isinstance(x, (Bits, BaseCell)) or isinstance(y, (Bits, BaseCell)):
        return cells_equal(e, x, y)
    if isinstance(x, Sc) and isinstance(y, Sc) and x.typ == y.typ:
        return x.t == y.t
    if isinstance(x, Undef) and isinstance(y, Undef):
        return TRUE
    if isinstance(x, (Null,)) or isinstance(y, Null):
        return z3.BoolVal(isinstance(x, Null) and isinstance(y, Null))
    if isinstance(x, Ref) and isinstance(y, Ref):
        return z3.BoolVal(x.root == y.root and repr(x.sels) == repr(y.sels))
    return FALSE
