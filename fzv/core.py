"""Symbolic values, path exploration, obligations.

Mathematical integers and reals.  A storage cell (int32) holds either an integer or one half of
a real64 (`Bits`); reading a real back needs both halves of the same real, so torn reads are seen.
"""
import z3, time, hashlib, os, subprocess, sys
from fractions import Fraction

sys.setrecursionlimit(100000)

I = z3.IntSort()
R = z3.RealSort()
B = z3.BoolSort()
def iv(n):
    return z3.IntVal(n)
def rv(n):
    return z3.RealVal(str(n)) if not isinstance(n, Fraction) else z3.Q(n.numerator, n.denominator)
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)

class Unsupported(Exception):
    pass
class Infeasible(Exception):
    pass
class StopExec(Exception):
    """error stop / stop"""
    def __init__(s, line):
        s.line = line

# ------------------------------------------------------------------ linear / polynomial normal form of ints
_keep = {}
_polycache = {}
def _atom(e):
    k = e.get_id()
    _keep[k] = e
    return k

def poly(e):
    """int term -> {monomial(tuple of atom ids): coeff}"""
    k = e.get_id()
    r = _polycache.get(k)
    if r is not None:
        return r
    _keep[k] = e
    r = _poly(e)
    _polycache[k] = r
    return r

def _poly(e):
    if z3.is_int_value(e):
        v = e.as_long()
        return {(): v} if v else {}
    d = e.decl().kind()
    if d == z3.Z3_OP_ADD:
        out = {}
        for c in e.children():
            for m, v in poly(c).items():
                out[m] = out.get(m, 0) + v
        return {m: v for m, v in out.items() if v}
    if d == z3.Z3_OP_SUB:
        ch = e.children()
        out = dict(poly(ch[0]))
        for c in ch[1:]:
            for m, v in poly(c).items():
                out[m] = out.get(m, 0) - v
        return {m: v for m, v in out.items() if v}
    if d == z3.Z3_OP_UMINUS:
        return {m: -v for m, v in poly(e.children()[0]).items()}
    if d == z3.Z3_OP_MUL:
        out = {(): 1}
        for c in e.children():
            p = poly(c)
            new = {}
            for m1, v1 in out.items():
                for m2, v2 in p.items():
                    m = tuple(sorted(m1 + m2))
                    new[m] = new.get(m, 0) + v1 * v2
            out = new
        return {m: v for m, v in out.items() if v}
    return {(_atom(e),): 1}

def unpoly(p):
    ts = []
    for m, v in sorted(p.items()):
        t = None
        for a in m:
            t = _keep[a] if t is None else t * _keep[a]
        if t is None:
            ts.append(iv(v))
        elif v == 1:
            ts.append(t)
        else:
            ts.append(v * t)
    if not ts:
        return iv(0)
    r = ts[0]
    for x in ts[1:]:
        r = r + x
    return r

def norm(e):
    return unpoly(poly(e))
def pdiff(a, b):
    out = dict(poly(a))
    for m, v in poly(b).items():
        out[m] = out.get(m, 0) - v
    return {m: v for m, v in out.items() if v}
def const_of(p):
    """int if polynomial is constant else None"""
    if not p:
        return 0
    if len(p) == 1 and () in p:
        return p[()]
    return None
def cint(e):
    """concrete int value of a term or None"""
    return const_of(poly(e))
def same(a, b):
    return a.get_id() == b.get_id() or not pdiff(a, b)

def divstruct(e, r):
    """e = r*q + c with integer constant r>0 and 0<=c<r, syntactically; None if not possible"""
    p = poly(e)
    q, c = {}, 0
    for m, v in p.items():
        if m == ():
            c = v
        elif v % r == 0:
            q[m] = v // r
        else:
            return None
    q0 = c // r
    c = c - q0 * r
    if q0:
        q[()] = q0
    return unpoly(q), c

_hr = {}
def has_real(e):
    k = e.get_id()
    if k in _hr:
        return _hr[k]
    st = [e]
    seen = set()
    res = False
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if i in _hr:
            if _hr[i]:
                res = True
                break
            continue
        if z3.is_real(x):
            res = True
            break
        st.extend(x.children())
    _keep[k] = e
    _hr[k] = res
    return res

# ------------------------------------------------------------------ products of integers as opaque symbols
_lin = {}
MONO = {}       # tuple of atom ids -> symbol
def mono(m):
    if m not in MONO:
        MONO[m] = z3.Int("mono:" + "*".join(_keep[a].sexpr() for a in m))
    return MONO[m]

def is_prod(x):
    return x.decl().kind() == z3.Z3_OP_MUL and z3.is_int(x) and sum(not z3.is_int_value(c) for c in x.children()) >= 2

def linpoly(p):
    ms = set()
    ts = []
    for m, v in sorted(p.items()):
        if m == ():
            ts.append(iv(v))
            continue
        if len(m) == 1:
            t = _keep[m[0]]
        else:
            t = mono(m)
            ms.add(m)
        ts.append(t if v == 1 else v * t)
    r = ts[0] if ts else iv(0)
    for x in ts[1:]:
        r = r + x
    return r, ms

def linearize(f):
    """(formula without products of integers, the products it mentions)"""
    k = f.get_id()
    if k in _lin:
        return _lin[k]
    _keep[k] = f
    prods = []
    if z3.is_app(f):
        st, seen = [f], set()
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if is_prod(x):
                prods.append(x)
            st.extend(x.children())
    if not prods:
        _lin[k] = (f, frozenset())
        return _lin[k]
    ms, pairs = set(), []
    # innermost first
    prods.sort(key=lambda x: len(x.sexpr()))
    g = f
    for x in prods:
        t, m = linpoly(poly(x))
        ms |= m
        pairs.append((x, t))
    for x, t in reversed(pairs):
        g = z3.substitute(g, (x, t))
    for q in range(3):
        rest = [x for x in subterms([g]) if is_prod(x)]
        if not rest:
            break
        for x in sorted(rest, key=lambda x: -len(x.sexpr())):
            t, m = linpoly(poly(x))
            ms |= m
            g = z3.substitute(g, (x, t))
    _lin[k] = (g, frozenset(ms))
    return _lin[k]

def _fac(m):
    out = set()
    for i, a in enumerate(m):
        out.add((m[:i] + m[i + 1:], a))
    return out

def mterm(m):
    return _keep[m[0]] if len(m) == 1 else mono(m)

def mono_facts(new, old):
    fs = []
    done = list(old)
    for m in sorted(new):
        M = mono(m)
        for c, a in _fac(m):
            C, A = mterm(c), _keep[a]
            fs += [z3.Implies(A == 0, M == 0), z3.Implies(A == 1, M == C), z3.Implies(A == 2, M == 2 * C), z3.Implies(z3.And(C >= 0, A >= 0), M >= 0),
                   z3.Implies(z3.And(C >= 0, A >= 1), M >= C), z3.Implies(z3.And(C >= 1, A >= 0), M >= A), z3.Implies(C == 0, M == 0)]
            for o in done:
                if o == m:
                    continue
                for c2, b in _fac(o):
                    if c2 != c or a == b:
                        continue
                    O, Bt = mono(o), _keep[b]
                    fs += [z3.Implies(z3.And(C >= 0, A <= Bt), M <= O), z3.Implies(z3.And(C >= 0, A >= Bt), M >= O),
                           z3.Implies(z3.And(C >= 0, A < Bt), M + C <= O), z3.Implies(z3.And(C >= 0, A > Bt), O + C <= M),
                           z3.Implies(A == Bt + 1, M == O + C), z3.Implies(Bt == A + 1, O == M + C),
                           z3.Implies(z3.And(C >= 0, A + 1 < Bt), M + 2 * C <= O), z3.Implies(z3.And(C >= 0, A > Bt + 1), O + 2 * C <= M)]
        done.append(m)
    return fs

# ------------------------------------------------------------------ functions over the reals (uninterpreted + axioms)
FUN = {}
def rfun(name, n=1):
    key = "f_%s" % name
    if key not in FUN:
        FUN[key] = z3.Function(key, *([R] * n + [R]))
    return FUN[key]
def app(name, *args):
    return rfun(name, len(args))(*args)
PI = z3.Real("c_pi")
HUGE = z3.Real("c_huge")
TINY = z3.Real("c_tiny")
NAN = z3.Real("c_nan")

def subterms(es):
    seen, st, out = set(), list(es), []
    while st:
        x = st.pop()
        k = x.get_id()
        if k in seen:
            continue
        seen.add(k)
        out.append(x)
        st.extend(x.children())
    return out

# ------------------------------------------------------------------ the engine
CAT = ["safety"]
WANT = [None]       # categories of obligations the present property uses; None: all.  Others are neither proved nor assumed
def wanted(*cs):
    return WANT[0] is None or any(c in WANT[0] for c in cs)
class Ob:
    __slots__ = ("name", "kind", "ok", "detail", "where", "backend", "t", "cat", "imprecise")
    def __init__(s, name, kind, ok, detail, where, backend, t):
        s.name, s.kind, s.ok, s.detail, s.where, s.backend, s.t = name, kind, ok, detail, where, backend, t
        s.cat = CAT[0]
        s.imprecise = False

class Trail:
    def __init__(s, prefix, work):
        s.prefix, s.work, s.dec = prefix, work, []

class Engine:
    def __init__(self, timeout=4000, goal_timeout=20000):
        self.si = z3.Solver()
        self.sf = z3.Solver()
        for s in (self.si, self.sf):
            s.set("timeout", timeout)
        self.goal_timeout = goal_timeout
        self.base_timeout = timeout
        self.pc = []
        self.monos = []
        self.mono_marks = []
        self.trails = []
        self.obs = []
        self.silent = 0
        self.where = []
        self.store = {}
        self.nfresh = 0
        self.ncell = 0
        self.stats = dict(queries=0, solver_s=0.0, paths=0)
        self.sums = {}
        self.facts_hooks = []
        self.deadline = None
        self.notes = set()
        self.foralls = []       # functions index term -> fact (instantiated at every registered index term)
        self.idx_terms = []
        self.maxes = {}
        self.memo = {}
        self.imprecise = []
        self.axcache = {}
        self.add(PI > rv("3.1415926535897932384626"), PI < rv("3.1415926535897932384627"))
        self.add(TINY > 0, TINY < rv("0.000000001"), HUGE > rv("1000000000000000000"))
        self.max_paths = 4000

    # --- names and cells
    def fresh(self, base, sort=I):
        self.nfresh += 1
        return z3.Const("%s!%d" % (base, self.nfresh), sort)
    def freshfn(self, base, *sorts):
        self.nfresh += 1
        return z3.Function("%s!%d" % (base, self.nfresh), *sorts)
    def cell(self, v=None):
        self.ncell += 1
        self.store[self.ncell] = v
        return self.ncell

    # --- assumptions
    def add(self, *fs):
        for f in fs:
            if z3.is_true(f):
                continue
            self.pc.append(f)
            g, ms = linearize(f)
            if ms:
                self.add_monos(ms)
            self.sf.add(g)
            if not has_real(f):
                self.si.add(g)
    assume = add
    def add_monos(self, ms):
        new = [m for m in ms if m not in self.monos]
        if not new:
            return
        for h in mono_facts(new, self.monos):
            h2, more = linearize(h)
            self.sf.add(h2)
            self.si.add(h2)
        self.monos += new
    def push(self):
        self.si.push()
        self.sf.push()
        self.mono_marks.append(len(self.monos))
        return len(self.pc)
    def pop(self, n):
        self.si.pop()
        self.sf.pop()
        del self.monos[self.mono_marks.pop():]
        del self.pc[n:]

    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time limit reached")

    def check(self, *extra):
        self.tick()
        s = self.sf if any(has_real(x) for x in extra) else self.si
        t = time.time()
        ex = []
        for x in extra:
            g, ms = linearize(x)
            ex.append(g)
            if ms:
                # facts about products stay: they are valid formulas
                self.add_monos(ms)
        r = s.check(*ex)
        self.stats["queries"] += 1
        self.stats["solver_s"] += time.time() - t
        return r

    def entails(self, c):
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return self.check() == z3.unsat
        return self.check(z3.Not(c)) == z3.unsat

    def decide(self, c):
        """True/False; forks the current path when neither is entailed"""
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        tr = self.trails[-1]
        pos = len(tr.dec)
        if pos < len(tr.prefix):
            forced, val = tr.prefix[pos]
        else:
            if self.entails(c):
                forced, val = True, True
            elif self.entails(z3.Not(c)):
                forced, val = True, False
            else:
                forced, val = False, True
                tr.work.append(tr.dec + [(False, False)])
                if len(tr.work) > 600:
                    raise Unsupported("too many paths")
        tr.dec.append((forced, val))
        self.add(c if val else z3.Not(c))
        return val

    def explore(self, fn, name=""):
        """run fn on every path from the present state; returns list of dicts(state, facts, result, stop)"""
        snap = dict(self.store)
        base_fresh, base_cell = self.nfresh, self.ncell
        hooks = list(self.facts_hooks)
        n_fa, n_ix = len(self.foralls), len(self.idx_terms)
        memo0 = self.memo
        hookstate = [h.snapshot() for h in hooks]
        work, out = [[]], []
        n = 0
        while work:
            prefix = work.pop()
            n += 1
            self.stats["paths"] += 1
            if n > self.max_paths:
                raise Unsupported("too many paths in %s" % name)
            self.store = dict(snap)
            self.nfresh, self.ncell = base_fresh, base_cell
            for h, hs in zip(hooks, hookstate):
                h.restore(hs)
            del self.foralls[n_fa:]
            del self.idx_terms[n_ix:]
            self.memo = dict(memo0)
            mark = self.push()
            wl = len(self.where)
            tl = len(self.trails)
            self.trails.append(Trail(prefix, work))
            try:
                try:
                    r = fn()
                    out.append(dict(state=self.store, facts=self.pc[mark:], result=r, stop=None, nfresh=self.nfresh, ncell=self.ncell))
                except Infeasible:
                    pass
                except (Unsupported, AttributeError, KeyError, TypeError, IndexError, z3.Z3Exception):
                    if not self.infeasible():
                        raise
                except StopExec as e:
                    out.append(dict(state=self.store, facts=self.pc[mark:], result=None, stop=e.line, nfresh=self.nfresh, ncell=self.ncell))
            finally:
                del self.trails[tl:]
                del self.where[wl:]
                self.pop(mark)
        self.store = snap
        self.memo = memo0
        del self.foralls[n_fa:]
        del self.idx_terms[n_ix:]
        for h, hs in zip(hooks, hookstate):
            h.restore(hs)
        self.nfresh = max([base_fresh] + [o["nfresh"] for o in out])
        self.ncell = max([base_cell] + [o["ncell"] for o in out])
        return out

    def infeasible(self):
        return self.si.check() == z3.unsat or self.sf.check() == z3.unsat

    def sub(self, fn, name="sub-goal"):
        """prove something on its own: its case splits do not multiply with the rest of the path"""
        return self.explore(fn, name)

    # --- universally quantified facts, instantiated at registered index terms
    def add_forall(self, fn):
        self.foralls.append(fn)
        for t in list(self.idx_terms):
            f = fn(t)
            if f is not None:
                self.add(f)
    def reg_index(self, t):
        t = norm(t)
        if any(same(t, u) for u in self.idx_terms):
            return
        self.idx_terms.append(t)
        for fn in list(self.foralls):
            f = fn(t)
            if f is not None:
                self.add(f)
    def fresh_index(self, n, base="k"):
        k = self.fresh(base)
        self.add(k >= 1, k <= n)
        self.reg_index(k)
        return k

    # --- sums and maxima over index ranges
    def small(self, n, lim=20):
        c = cint(n)
        if c is None:
            for q in (0, 1, 2):
                if self.entails(n <= 0 if q == 0 else n == q):
                    return q
            return None
        return c if c <= lim else None

    def mksum(self, n, fn, kind="sum", nonneg=False):
        c = self.small(n)
        if c is not None:
            r = rv(0)
            for q in range(c):
                r = fn(iv(q + 1)) if q == 0 else r + fn(iv(q + 1))
            return r
        S = self.fresh("SUM", R)
        self.sums[S.decl().name()] = (S, norm(n), fn)
        self.add(z3.Implies(n <= 0, S == 0))
        if nonneg:
            self.add(S >= 0)
        self.generic(n, fn)
        return S

    def generic(self, n, fn):
        """evaluate fn at an arbitrary index so that its obligations are generated"""
        if getattr(self, "in_generic", 0) > 3:
            return
        self.in_generic = getattr(self, "in_generic", 0) + 1
        try:
            self.explore(lambda: fn(self.fresh_index(n, "g")), "generic element")
        finally:
            self.in_generic -= 1

    def mkmax(self, n, fn, kind):
        c = self.small(n)
        if c is not None and c >= 1:
            r = fn(iv(1))
            for q in range(2, c + 1):
                y = fn(iv(q))
                r = z3.If(y > r if kind == "max" else y < r, y, r)
            return r
        M = self.fresh("MAX" if kind == "max" else "MIN", R)
        w = self.fresh("argmax")
        self.maxes[M.decl().name()] = (M, norm(n), fn, kind, w)
        self.add(z3.Implies(n <= 0, M == (-HUGE if kind == "max" else HUGE)))
        self.add(z3.Implies(n >= 1, z3.And(w >= 1, w <= n)))
        self.reg_index(w)
        if self.entails(n >= 1):
            self.add(M == fn(w))
            self.generic(n, fn)
        self.add_forall(lambda t: None if not self.entails(z3.And(t >= 1, t <= n)) else (fn(t) <= M if kind == "max" else fn(t) >= M))
        return M

    def mkquant(self, kind, n, fn):
        """any/all of fn over 1..n as a decided constant"""
        b = self.fresh("q", B)
        v = self.decide(b)
        e = self
        inr = lambda t: e.entails(z3.And(t >= 1, t <= n))
        if v == (kind == "all"):
            self.add_forall(lambda t: None if not inr(t) else (fn(t) if kind == "all" else z3.Not(fn(t))))
        else:
            w = self.fresh_index(n, "w")
            self.add(z3.Not(fn(w)) if kind == "all" else fn(w))
        return z3.BoolVal(v)

    def note_div(self, y):
        pass

    # --- obligations
    def loc(self):
        return " < ".join(reversed(self.where[-4:]))

    def oblige(self, goal, name, kind="bounds"):
        """an obligation that is then assumed"""
        g = z3.simplify(goal)
        ok = z3.is_true(g)
        be, det = "simplify", ""
        t = time.time()
        if not ok:
            if kind in ("bounds", "shape", "requires") and not has_real(g):
                ok = self.entails(g)
                be = "z3"
                if not ok:
                    det = self.model_text(z3.Not(g))
            else:
                ok, be, det = self.prove_real(g)
        if not self.silent:
            self.obs.append(Ob(name, kind, ok, det if not ok else "", self.loc(), be, time.time() - t))
        if not ok:
            if self.silent:
                self.silent_failed = True
            self.add(g)
        return ok

    def goal(self, g, name, kind="post"):
        if not self.silent and not wanted(CAT[0]):
            return True
        g = z3.simplify(g) if not z3.is_true(g) else g
        t = time.time()
        ok, be, det = self.prove_real(g)
        if not self.silent:
            self.obs.append(Ob(name, kind, ok, "" if ok else det, self.loc(), be, time.time() - t))
        elif not ok:
            self.silent_failed = True
        return ok

    def fail(self, name, detail, kind="post"):
        if not self.silent and not wanted(CAT[0]):
            return True
        # reaching this point is only a failure when the path is feasible
        if self.check() == z3.unsat or self.sf_check_unsat():
            if not self.silent:
                self.obs.append(Ob(name, kind, True, "", self.loc(), "z3", 0.0))
            return True
        if not self.silent:
            self.obs.append(Ob(name, kind, False, detail, self.loc(), "-", 0.0))
        else:
            self.silent_failed = True
        return False

    def sf_check_unsat(self):
        t = time.time()
        r = self.sf.check()
        self.stats["queries"] += 1
        self.stats["solver_s"] += time.time() - t
        return r == z3.unsat

    def model_text(self, neg):
        try:
            s = self.sf if has_real(neg) else self.si
            r = s.check(neg)
            if r == z3.sat:
                m = s.model()
                return "goal not valid; countermodel: " + ", ".join("%s=%s" % (d.name(), m[d]) for d in list(m.decls())[:30] if d.arity() == 0)
            return "solver answer: %s" % r
        except z3.Z3Exception as e:
            return str(e)

    # real goals: full context + axioms + sum lemmas
    def prove_real(self, g):
        if z3.is_true(g):
            return True, "simplify", ""
        if z3.is_and(g):
            be = "z3"
            for c in g.children():
                ok, be, det = self.prove_real(c)
                if not ok:
                    return ok, be, det
            return True, be, ""
        if not has_real(g):
            if self.entails(g):
                return True, "z3", ""
        from . import realproof
        return realproof.prove(self, g)

# ------------------------------------------------------------------ values
class Sc:
    """scalar"""
    __slots__ = ("typ", "t")
    def __init__(s, typ, t):
        s.typ, s.t = typ, t
    def __repr__(s):
        return "%s:%s" % (s.typ, s.t)

class Bits:
    """half h (0/1) of the bit pattern of real d"""
    __slots__ = ("h", "d")
    typ = "integer"
    def __init__(s, h, d):
        s.h, s.d = h, d

class BaseCell:
    """cell p of an arbitrary initial storage"""
    __slots__ = ("b", "p")
    typ = "integer"
    def __init__(s, b, p):
        s.b, s.p = b, p
    @property
    def t(s):
        return s.b.int_at(s.p)

class Struct:
    __slots__ = ("tn", "f")
    def __init__(s, tn, f):
        s.tn, s.f = tn, f
    def with_(s, k, v):
        f = dict(s.f)
        f[k] = v
        return Struct(s.tn, f)

class Ref:
    __slots__ = ("root", "sels")
    def __init__(s, root, sels=()):
        s.root, s.sels = root, tuple(sels)
    def f(s, n):
        return Ref(s.root, s.sels + (("f", n),))
    def __repr__(s):
        return "Ref(%s,%s)" % (s.root, s.sels)

class Null:
    def __repr__(s):
        return "NULL"
NULL = Null()

class Undef:
    __slots__ = ("typ",)
    def __init__(s, typ=None):
        s.typ = typ
UNDEF = Undef()

class Unalloc:
    def __init__(s, elem, rank):
        s.elem, s.rank = elem, rank

class Junk(Unalloc):
    """allocatable array whose allocation status and content are not tracked"""

class ProcV:
    __slots__ = ("p",)
    def __init__(s, p):
        s.p = p
    def key(s):
        return s.p.qual

class SymProc:
    """unknown procedure pointer, identified by an integer term"""
    __slots__ = ("t",)
    def __init__(s, t):
        s.t = t

class AbsProc:
    """abstract procedure given by a contract: handler(interp, args) """
    def __init__(s, name, handler):
        s.name, s.handler = name, handler
    def key(s):
        return "abstract:" + s.name

class TapeBase:
    """arbitrary initial content of an integer storage"""
    def __init__(self, eng, tag, zero_from=None, size=None):
        self.eng = eng
        self.I = z3.Function("I_" + tag, I, I)
        self.R = z3.Function("R_" + tag, I, R)
        self.zero_from = zero_from
        self.hook = None
        self.tag = tag
    def int_at(self, p):
        p = norm(p)
        if self.zero_from is not None:
            self.eng.add(z3.Implies(p >= self.zero_from, self.I(p) == 0))
        if self.hook:
            self.hook(p)
        return self.I(p)
    def real_at(self, p):
        p = norm(p)
        if self.zero_from is not None:
            if self.eng.entails(p >= self.zero_from):
                return rv(0)
            self.eng.add(z3.Implies(p >= self.zero_from, self.R(p) == 0))
        if self.hook:
            self.hook(p)
        return self.R(p)

def is_scalar(v):
    return not isinstance(v, (Arr, Unalloc))

class Arr:
    """immutable array; indices are normalised to start at 1 in every dimension"""
    __slots__ = ("eng", "elem", "dims", "layers", "src")
    def __init__(s, eng, elem, dims, layers, src=None):
        s.eng, s.elem, s.dims, s.layers, s.src = eng, elem, tuple(dims), tuple(layers), src
    @property
    def rank(s):
        return len(s.dims)
    def size(s):
        n = iv(1)
        for lb, k in s.dims:
            n = n * k
        return norm(n)
    def extents(s):
        return [k for lb, k in s.dims]
    def withlb(s, lbs):
        return Arr(s.eng, s.elem, [(l, n) for l, (_, n) in zip(lbs, s.dims)], s.layers, s.src)
    @staticmethod
    def base(eng, elem, extents, getter, lbs=None, src=None):
        lbs = lbs or [iv(1)] * len(extents)
        return Arr(eng, elem, list(zip(lbs, extents)), [("base", getter)], src)

    # ---- reading
    def get(s, idx):
        idx = tuple(norm(i) for i in idx)
        return s._get(idx, len(s.layers) - 1)

    def _get(s, idx, top):
        eng = s.eng
        while top >= 0:
            L = s.layers[top]
            k = L[0]
            if k == "base":
                return L[1](idx)
            if k == "pt":
                if match_idx(eng, idx, L[1]):
                    return L[2]
            elif k == "rng":  # 1-d contiguous
                o = in_range(eng, idx[0], L[1], L[2])
                if o is not None:
                    return L[3](o)
            elif k == "sec":
                o = L[1](idx)
                if o is not None:
                    return L[2](o)
            elif k == "zerofrom":
                if ge(eng, idx[0], L[1]):
                    return Sc("integer", iv(0))
            elif k == "frame":  # everything at or above bound is unknown: fresh base
                o = L[1](idx)
                if o is not None:
                    return o
            elif k == "adj":
                r = L[1].cell(s, idx[0], top)
                if r is not None:
                    return r
            elif k == "obj":
                r = L[1].cell(s, idx, top)
                if r is not None:
                    return r
            else:
                raise Unsupported("layer " + k)
            top -= 1
        raise Unsupported("array without base layer")

    def real_at(s, p, top=None):
        """the real64 whose two halves are cells p and p+1"""
        eng = s.eng
        p = norm(p)
        top = len(s.layers) - 1 if top is None else top
        while top >= 0:
            L = s.layers[top]
            k = L[0]
            if k == "base":
                break
            if k == "pt":
                q = L[1][0]
                d = const_of(pdiff(p, q))
                if d is not None and d not in (0, -1):
                    top -= 1
                    continue
                if d is None and not eng.decide(z3.Or(p == q, p + 1 == q)):
                    top -= 1
                    continue
                break
            if k == "rng":
                lo, n, g = L[1], L[2], L[3]
                w = pair_range(eng, p, lo, n)
                if w == "out":
                    top -= 1
                    continue
                if w == "in":
                    o = norm(p - lo + 1)
                    if len(L) > 4 and L[4] is not None:  # real array content: getter of reals
                        ds = divstruct(o - 1, 2)
                        if ds is not None and ds[1] == 0:
                            return L[4](norm(ds[0] + 1))
                    if len(L) > 5 and L[5] is not None:  # copied from another storage
                        srcarr, off = L[5]
                        return srcarr.real_at(norm(p - off))
                    c1, c2 = g(o), g(norm(o + 1))
                    return join_cells(eng, c1, c2)
                break
            if k == "zerofrom":
                if ge(eng, p, L[1]):
                    return rv(0)
                if ge(eng, norm(p + 1), L[1]):
                    break
                top -= 1
                continue
            if k == "frame":
                o = L[1]((p,), True)
                if o is not None:
                    return o
                top -= 1
                continue
            if k in ("adj", "obj"):
                r = L[1].real(s, p, top)
                if r is not None:
                    return r
                top -= 1
                continue
            break
        c1 = s._get((p,), top)
        c2 = s._get((norm(p + 1),), top)
        return join_cells(eng, c1, c2)

    # ---- writing
    def put(s, idx, v):
        idx = tuple(norm(i) for i in idx)
        return Arr(s.eng, s.elem, s.dims, s.layers + (("pt", idx, v),), s.src)
    def layer(s, L):
        return Arr(s.eng, s.elem, s.dims, s.layers + (L,), s.src)

def join_cells(eng, c1, c2):
    if isinstance(c1, Bits) and isinstance(c2, Bits) and c1.h == 0 and c2.h == 1:
        if c1.d.get_id() == c2.d.get_id() or eng.entails(c1.d == c2.d):
            return c1.d
    if isinstance(c1, BaseCell) and isinstance(c2, BaseCell) and c1.b is c2.b and same(c1.p + 1, c2.p):
        return c1.b.real_at(c1.p)
    if isinstance(c1, Sc) and isinstance(c2, Sc):
        if eng.entails(z3.And(c1.t == 0, c2.t == 0)):
            return rv(0)
    # an int zero next to a base cell known to be zero, etc.
    if isinstance(c1, Undef) or isinstance(c2, Undef):
        # storage that was never given a value: the reading is arbitrary
        if not eng.silent:
            eng.notes.add("read of storage without a value at " + eng.loc())
        return eng.fresh("unset", R)
    def zero(c):
        if isinstance(c, Bits):
            return eng.entails(c.d == 0)
        return eng.entails(c.t == 0)
    if zero(c1) and zero(c2):
        return rv(0)
    eng.notes.add("torn real read at " + eng.loc())
    if not eng.silent:
        eng.fail("real read from cells that do not hold one real", "torn read: %s / %s" % (cell_text(c1), cell_text(c2)), "bounds")
    return eng.fresh("torn", R)

def cell_text(c):
    if isinstance(c, Bits):
        return "half %d of %s" % (c.h, c.d)
    if isinstance(c, BaseCell):
        return "initial cell %s" % c.p
    return str(c)

def ge(eng, p, q):
    d = const_of(pdiff(p, q))
    if d is not None:
        return d >= 0
    return eng.decide(p >= q)

def in_range(eng, p, lo, n):
    """offset 1..n if p in [lo, lo+n), decided"""
    d = const_of(pdiff(p, lo))
    if d is not None:
        if d < 0:
            return None
        nc = cint(n)
        if nc is not None:
            return iv(d + 1) if d < nc else None
        return iv(d + 1) if eng.decide(iv(d) < n) else None
    if eng.decide(z3.And(p >= lo, p < lo + n)):
        return norm(p - lo + 1)
    return None

def pair_range(eng, p, lo, n):
    d = const_of(pdiff(p, lo))
    nc = cint(n)
    if d is not None and nc is not None:
        if d + 1 < 0 or d >= nc:
            return "out"
        if d >= 0 and d + 1 < nc:
            return "in"
        return "part"
    e = const_of(pdiff(p, lo + n))
    if e is not None and e >= 0:
        # p >= lo+n (n >= 0)
        return "out"
    if d is not None and d <= -2:
        return "out"
    if eng.decide(z3.Or(p + 1 < lo, p >= lo + n, n <= 0)):
        return "out"
    if eng.decide(z3.And(p >= lo, p + 1 < lo + n)):
        return "in"
    return "part"

def match_idx(eng, a, b):
    cs = []
    for x, y in zip(a, b):
        d = const_of(pdiff(x, y))
        if d is not None:
            if d != 0:
                return False
            continue
        cs.append(x == y)
    if not cs:
        return True
    return eng.decide(z3.And(cs) if len(cs) > 1 else cs[0])

def cells_equal(eng, a, b):
    """z3 goal stating that two cells hold the same content"""
    if isinstance(a, Undef) or isinstance(b, Undef):
        return z3.BoolVal(isinstance(a, Undef) and isinstance(b, Undef))
    if isinstance(a, Bits) and isinstance(b, Bits):
        return a.d == b.d if a.h == b.h else FALSE
    if isinstance(a, BaseCell) and isinstance(b, BaseCell) and a.b is b.b:
        return a.p == b.p
    if isinstance(a, Bits) and isinstance(b, BaseCell):
        a, b = b, a
    if isinstance(a, BaseCell) and isinstance(b, Bits):
        return a.b.real_at(norm(a.p - b.h)) == b.d
    if isinstance(a, Bits):
        a, b = b, a
    if isinstance(b, Bits):  # int vs half of a real: only zero is known
        return z3.And(a.t == 0, b.d == 0)
    return a.t == b.t
