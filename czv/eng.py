"""Verification-condition generator for C: symbolic execution of clang's AST with loop summaries.

Integers are mathematical, double is real.  Memory is a set of regions; a pointer is a region, a field
path and index coordinates.  The content of a region is a base function of the coordinates plus guarded
write layers.  Loops with a symbolic trip count are never unrolled: the body is executed once at a
symbolic iteration and its effect turned into closed form (see loops.py).
"""
import re, time, os
from fractions import Fraction
import z3
from . import cast

class Unsupported(Exception):
    pass
class PathEnd(Exception):
    pass
class NeedFork(Exception):
    pass
class Brk(Exception):
    pass
class Cont(Exception):
    pass
class Ret(Exception):
    def __init__(s, v):
        s.v = v
class Goto(Exception):
    def __init__(s, l):
        s.label = l
class Deadline(Exception):
    pass

# ------------------------------------------------------------------ values
class Null:
    def __repr__(s):
        return "NULL"
NULL = Null()
class FnVal:
    def __init__(s, name):
        s.name = name
    def __repr__(s):
        return "&" + s.name
class Poison:
    def __init__(s, why):
        s.why = why
    def __repr__(s):
        return "poison(%s)" % s.why
class Size:
    """n * sizeof(T)"""
    def __init__(s, n, ty):
        s.n, s.ty = n, ty
class Str:
    def __init__(s, v):
        s.v = v
class Ptr:
    __slots__ = ("rid", "field", "coords", "dim", "ety")
    def __init__(s, rid, field, coords, dim, ety):
        s.rid, s.field, s.coords, s.dim, s.ety = rid, field, coords, dim, ety
    def __repr__(s):
        return "%s%s%r" % (s.rid, "." + ".".join(s.field) if s.field else "", s.coords)

def isz(v):
    return isinstance(v, z3.ExprRef)
def isnum(v):
    return isinstance(v, (int, Fraction)) or isz(v)
def zi(v):
    return v if isz(v) else z3.IntVal(int(v))
def zr(v):
    if isz(v):
        return z3.ToReal(v) if v.sort() == z3.IntSort() else v
    v = Fraction(v)
    return z3.RealVal("%d/%d" % (v.numerator, v.denominator))
def simp(e):
    if not isz(e):
        return e
    r = z3.simplify(e)
    if z3.is_int_value(r):
        return r.as_long()
    if z3.is_rational_value(r):
        return Fraction(r.numerator_as_long(), r.denominator_as_long())
    return r
def zb(b):
    return z3.BoolVal(b) if isinstance(b, bool) else b
def bsimp(b):
    if isinstance(b, bool):
        return b
    r = z3.simplify(b)
    if z3.is_true(r):
        return True
    if z3.is_false(r):
        return False
    return r
def band(*a):
    l = []
    for x in a:
        if x is True:
            continue
        if x is False:
            return False
        l.append(x)
    if not l:
        return True
    return l[0] if len(l) == 1 else z3.And(*l)
def bor(*a):
    l = []
    for x in a:
        if x is False:
            continue
        if x is True:
            return True
        l.append(x)
    if not l:
        return False
    return l[0] if len(l) == 1 else z3.Or(*l)
def bnot(a):
    return (not a) if isinstance(a, bool) else z3.Not(a)
def b2i(b):
    if isinstance(b, bool):
        return int(b)
    return z3.If(b, z3.IntVal(1), z3.IntVal(0))
def i2b(e):
    if isinstance(e, (int, Fraction)):
        return e != 0
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        c, a, b = e.children()
        if z3.is_int_value(a) and z3.is_int_value(b):
            x, y = a.as_long() != 0, b.as_long() != 0
            if x and not y:
                return c
            if y and not x:
                return z3.Not(c)
            return x
    return e != 0
def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)) and a == b and type(a) == type(b):
        return a
    if isz(a) and isz(b) and a.eq(b):
        return a
    if (isz(a) and a.sort() == z3.RealSort()) or (isz(b) and b.sort() == z3.RealSort()) or isinstance(a, Fraction) or isinstance(b, Fraction):
        return z3.If(c, zr(a), zr(b))
    return z3.If(c, zi(a), zi(b))
def isreal(v):
    return isinstance(v, Fraction) or (isz(v) and v.sort() == z3.RealSort())
def eqv(a, b):
    """equality of two numbers"""
    if not isz(a) and not isz(b):
        return a == b
    if isreal(a) or isreal(b):
        a, b = zr(a), zr(b)
    else:
        a, b = zi(a), zi(b)
    if a.eq(b):
        return True
    return bsimp(a == b)
def add(a, b):
    if not isz(a) and not isz(b):
        return a + b
    return simp(zi(a) + zi(b))
def sub(a, b):
    if not isz(a) and not isz(b):
        return a - b
    return simp(zi(a) - zi(b))

def subst(v, pairs):
    if isinstance(v, Ptr):
        return Ptr(v.rid, v.field, tuple(subst(c, pairs) for c in v.coords), v.dim, v.ety)
    if not isz(v) or not pairs:
        return v
    return simp(z3.substitute(v, *pairs))

def consts_of(e, acc=None):
    """names of uninterpreted constants and functions in a term"""
    acc = set() if acc is None else acc
    if isinstance(e, Ptr):
        for c in e.coords:
            consts_of(c, acc)
        return acc
    if not isz(e):
        return acc
    seen, stack = set(), [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc.add(x.decl().name())
            stack.extend(x.children())
        elif z3.is_quantifier(x):
            stack.append(x.body())
    return acc

# ------------------------------------------------------------------ memory
_OI = {}
def onlyint(e):
    """no real-valued subterm"""
    if not isz(e):
        return True
    i = e.get_id()
    r = _OI.get(i)
    if r is None or not r[0].eq(e):
        if z3.is_quantifier(e) or e.sort() == z3.RealSort():
            v = False
        else:
            v = all(onlyint(c) for c in e.children())
        _OI[i] = r = (e, v)
    return r[1]

class Layer:
    """cells coords(params) hold value(params) where cond(params)"""
    __slots__ = ("params", "cond", "coords", "value")
    def __init__(s, params, cond, coords, value):
        s.params, s.cond, s.coords, s.value = params, cond, coords, value
    def match(s, r):
        """(condition, substitution) under which the cell r is this layer's, or None"""
        if not s.params:
            c = s.cond
            for a, b in zip(s.coords, r):
                c = band(c, eqv(a, b))
                if c is False:
                    return None
            return c, []
        left = list(s.params)
        sub_ = []
        done = [False] * len(r)
        progress = True
        while left and progress:
            progress = False
            for i, a in enumerate(s.coords):
                if done[i] or not isz(a):
                    continue
                a2 = subst(a, sub_)
                ps = [p for p in left if p.decl().name() in consts_of(a2)]
                if len(ps) != 1:
                    continue
                p = ps[0]
                a0 = simp(z3.substitute(a2, (p, z3.IntVal(0))) if isz(a2) else a2)
                a1 = simp(z3.substitute(a2, (p, z3.IntVal(1))))
                d = simp(zi(a1) - zi(a0))
                if d in (1, -1) and p.decl().name() not in consts_of(simp(a2 - zi(d) * p)):
                    pv = sub(r[i], a0) if d == 1 else sub(a0, r[i])
                    sub_.append((p, zi(pv)))
                    left.remove(p)
                    done[i] = True
                    progress = True
        if left:
            raise Unsupported("write set of a loop cannot be inverted")
        c = subst_b(s.cond, sub_)
        for i, a in enumerate(s.coords):
            if not done[i]:
                c = band(c, eqv(subst(a, sub_), r[i]))
        if c is False:
            return None
        return c, sub_

def subst_b(b, pairs):
    if isinstance(b, bool) or not pairs:
        return b
    return bsimp(z3.substitute(b, *pairs))

class Arr:
    __slots__ = ("base", "layers")
    def __init__(s, base, layers=()):
        s.base, s.layers = base, layers
    def write(s, l):
        return Arr(s.base, s.layers + (l,))

class Region:
    def __init__(s, rid, name, ncoord, length, ety, kind, birth):
        s.rid, s.name, s.ncoord, s.length, s.ety, s.kind, s.birth = rid, name, ncoord, length, ety, kind, birth
        s.dims = None

class State:
    def __init__(s):
        s.mem = {}
        s.pc = []
        s.dead = {}
        s.wlog = None
        s.sizes = {}
    def copy(s):
        t = State()
        t.mem = dict(s.mem)
        t.pc = list(s.pc)
        t.dead = dict(s.dead)
        t.wlog = list(s.wlog) if s.wlog is not None else None
        t.sizes = dict(s.sizes)
        return t

class Ob:
    def __init__(s, name, cat, ok, detail, where, imprecise, backend):
        s.name, s.cat, s.ok, s.detail, s.where, s.imprecise, s.backend = name, cat, ok, detail, where, imprecise, backend

class SumDef:
    def __init__(s, fn, tvar, pvars, body, lo):
        s.fn, s.tvar, s.pvars, s.body, s.lo = fn, tvar, pvars, body, lo

INTT = {"int", "long", "unsigned int", "unsigned long", "char", "short", "long long", "unsigned char", "_Bool", "long int", "unsigned", "size_t", "signed char", "unsigned short", "unsigned long long"}

_RID = [0]
def fresh_id():
    _RID[0] += 1
    return _RID[0]

class Program:
    def __init__(s, files, sun=cast.SUN):
        s.funcs, s.records, s.typedefs, s.enums, s.globals, s.static = {}, {}, {}, {}, {}, {}
        s.sun = sun
        s.errors = []
        for f in files:
            try:
                tu = cast.load(os.path.join(sun, f), sun)
            except Exception as x:
                s.errors.append("%s: %s" % (f, x))
                continue
            own = {}
            for n, d in tu.funcs.items():
                if d.extra.get("storageClass") == "static":
                    own[n] = d
                else:
                    s.funcs.setdefault(n, (d, f))
            s.static[f] = own
            s.records.update(tu.records)
            s.typedefs.update(tu.typedefs)
            s.enums.update(tu.enums)
            for n, d in tu.globals.items():
                s.globals.setdefault((f, n), d)
                s.globals.setdefault(n, d)
    def find(s, name, file):
        if file in s.static and name in s.static[file]:
            return s.static[file][name], file
        if name in s.funcs:
            return s.funcs[name]
        return None
    def find_any(s, name):
        if name in s.funcs:
            return s.funcs[name]
        for f, o in s.static.items():
            if name in o:
                return o[name], f
        return None
    def resolve(s, t):
        """canonical type string"""
        t = t.replace("const ", "").replace("volatile ", "").replace(" const", "").replace("restrict", "").strip()
        if "(*)" in t or "(" in t:
            return "fn *"
        m = re.match(r"^(.*?)((?:\s*\*)*)((?:\[\d*\])*)$", t)
        base, stars, arr = m.group(1).strip(), m.group(2).replace(" ", ""), m.group(3)
        k = 0
        while base in s.typedefs and k < 20:
            k += 1
            u = s.resolve(s.typedefs[base]) if s.typedefs[base] != base else base
            if u == base:
                break
            m2 = re.match(r"^(.*?)(\**)((?:\[\d*\])*)$", u.replace(" *", "*"))
            base, stars, arr = m2.group(1).strip(), m2.group(2) + stars, arr + m2.group(3)
        if base.startswith("enum "):
            base = "int"
        return base + ((" " + stars) if stars else "") + arr
    def kind(s, t):
        t = s.resolve(t)
        if t.endswith("]"):
            return "array"
        if t.endswith("*"):
            return "ptr"
        if t in ("double", "float", "long double"):
            return "real"
        if t in INTT:
            return "int"
        if t.startswith("struct ") or t.startswith("union "):
            return "struct"
        if t == "void":
            return "void"
        return "other"
    def elem(s, t):
        """element type and length of an array type"""
        t = s.resolve(t)
        m = re.match(r"^(.*?)\[(\d*)\]((?:\[\d*\])*)$", t)
        return m.group(1) + m.group(3), (int(m.group(2)) if m.group(2) else None)
    def pointee(s, t):
        t = s.resolve(t)
        if t == "fn *":
            return "fn"
        return t[:-1].strip()

class Engine:
    def __init__(s, P, deadline=None, budget=5000):
        s.P = P
        s.st = State()
        s.regions = {}
        s.dec, s.pos, s.pending = [], 0, []
        s.obs = []
        s.stats = dict(queries=0, solver_s=0.0, paths=0)
        s.inlined = set()
        s.ext = set()
        s.contracts_used = set()
        s.deadline = deadline
        s.budget = budget
        s.sums = {}
        s.ghosts = []
        s.ninputs = {}
        s.frames = []
        s.nofork = False
        s.collect = True      # record obligations
        s.imprecise = 0
        s.contracts = {}
        s.unroll = 80
        s.funsig = {}
        s.where = ""
        s.fold_consts = set()
        s.abstract = {}
        s.loopspecs = {}
        s.notes = set()
        s.loopdepth = 0

    # -------------------------------------------------------------- fresh symbols
    def fint(s, n):
        return z3.Int("%s!%d" % (n, fresh_id()))
    def freal(s, n):
        return z3.Real("%s!%d" % (n, fresh_id()))
    def fbool(s, n):
        return z3.Bool("%s!%d" % (n, fresh_id()))
    def ffun(s, n, k, sort):
        return z3.Function("%s!%d" % (n, fresh_id()), *([z3.IntSort()] * k + [sort]))

    # -------------------------------------------------------------- solving
    def tick(s):
        if s.deadline and time.time() > s.deadline:
            raise Deadline()
    def check(s, extra, timeout=1000, pc=None):
        """sat / unsat / unknown of the path condition with extra"""
        s.tick()
        S = z3.Solver()
        S.set("timeout", timeout)
        for f in (s.st.pc if pc is None else pc):
            S.add(zb(f))
        for f in extra:
            S.add(zb(f))
        t = time.time()
        r = S.check()
        s.stats["queries"] += 1
        s.stats["solver_s"] += time.time() - t
        s.last = S
        return r
    def decide(s, c, timeout=400):
        c = bsimp(c)
        if isinstance(c, bool):
            return c
        if onlyint(c):
            # the facts about integers alone decide most index conditions
            pc = [f for f in s.st.pc if onlyint(f)]
            if len(pc) < len(s.st.pc):
                if s.check([z3.Not(c)], timeout, pc) == z3.unsat:
                    return True
                if s.check([c], timeout, pc) == z3.unsat:
                    return False
        if s.check([z3.Not(c)], timeout) == z3.unsat:
            return True
        if s.check([c], timeout) == z3.unsat:
            return False
        return None
    def assume(s, c):
        c = bsimp(c)
        if c is True:
            return
        if c is False:
            raise PathEnd()
        s.st.pc.append(c)
    def branch(s, c):
        c = bsimp(c)
        if isinstance(c, bool):
            return c
        if s.nofork:
            d = s.decide(c)
            if d is None:
                raise NeedFork()
            return d
        if s.pos < len(s.dec):
            d = s.dec[s.pos]
        else:
            f = s.check([z3.Not(c)]) != z3.unsat
            t = s.check([c]) != z3.unsat
            if not t and not f:
                raise PathEnd()
            d = t
            if t and f:
                s.pending.append(s.dec[:s.pos] + [False])
            s.dec.append(d)
        s.pos += 1
        s.st.pc.append(c if d else z3.Not(c))
        return d
    def explore(s, body, limit=400):
        """all paths of body() from the current state: [(state, result)]"""
        st0, dec0, pos0, pend0, nf0 = s.st, s.dec, s.pos, s.pending, s.nofork
        out, stack = [], [[]]
        s.nofork = False
        try:
            while stack:
                s.tick()
                s.st = st0.copy()
                s.dec = stack.pop()
                s.pos = 0
                s.pending = []
                try:
                    r = body()
                    out.append((s.st, r))
                except PathEnd:
                    pass
                stack.extend(s.pending)
                s.stats["paths"] += 1
                if len(out) > limit:
                    raise Unsupported("more than %d paths" % limit)
        finally:
            s.st, s.dec, s.pos, s.pending, s.nofork = st0, dec0, pos0, pend0, nf0
        return out

    # -------------------------------------------------------------- sums
    def newsum(s, tvar, pvars, body, lo, name="sum"):
        """function of (params, hi): sum of body over lo <= t < hi"""
        body = zr(body)
        fn = z3.Function("%s!%d" % (name, fresh_id()), *([z3.IntSort()] * (len(pvars) + 1) + [z3.RealSort()]))
        s.sums[fn.name()] = SumDef(fn, tvar, list(pvars), body, lo)
        return fn
    def sumof(s, f, lo, hi):
        """spec helper: sum of f(t) over lo <= t < hi"""
        t = s.fint("t")
        fn = s.newsum(t, [], zr(f(t)), lo, "spec_sum")
        return fn(zi(hi))
    def sum_apps(s, e):
        out, seen, stack = [], set(), [e]
        while stack:
            x = stack.pop()
            if not isz(x) or x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x):
                if x.decl().name() in s.sums:
                    out.append(x)
                stack.extend(x.children())
            elif z3.is_quantifier(x):
                stack.append(x.body())
        return out
    def aug(s, es, facts, depth=0):
        """facts about the sums in es: empty sums, equal sums"""
        apps, ids = [], set()
        for e in list(es) + list(facts):
            for a in s.sum_apps(e) if isz(e) else []:
                if a.get_id() not in ids:
                    ids.add(a.get_id())
                    apps.append(a)
        out = []
        inst = []
        for a in apps:
            d = s.sums[a.decl().name()]
            sb = [(p, a.arg(i)) for i, p in enumerate(d.pvars)]
            lo, hi = subst(d.lo, sb), a.arg(a.num_args() - 1)
            body = subst(d.body, sb)
            out.append(z3.Implies(hi <= zi(lo), a == 0))
            inst.append((a, lo, hi, d, body))
        for a, lo, hi, d, body in inst:
            acc = zr(0)
            for c in range(2):
                acc = acc + zr(simp(z3.substitute(zr(body), (d.tvar, zi(lo) + c))))
                out.append(z3.Implies(hi == zi(lo) + c + 1, a == acc))
        if depth < 3:
            def same_terms(i, j, x0, y0):
                """bodies agree term by term, counted from the positions x0 and y0"""
                a, lo, hi, d, body = inst[i]
                b, lo2, hi2, d2, body2 = inst[j]
                t = s.fint("t")
                x = simp(z3.substitute(zr(body), (d.tvar, t + zi(x0))))
                y = simp(z3.substitute(zr(body2), (d2.tvar, t + zi(y0))))
                if isz(x) and isz(y) and x.eq(y):
                    return True
                fs = list(facts) + [t >= 0, t < zi(hi) - zi(x0)]
                return s.prove1(zr(x) == zr(y), fs, 1500, depth + 1)[0] is True
            for i in range(len(inst)):
                for j in range(i):
                    a, lo, hi, d, body = inst[i]
                    b, lo2, hi2, d2, body2 = inst[j]
                    if a.eq(b):
                        continue
                    la, lb = zi(hi) - zi(lo), zi(hi2) - zi(lo2)
                    if s.prove0(la == lb, facts, 500)[0] is True:
                        if same_terms(i, j, lo, lo2):
                            out.append(a == b)
                        continue
                    for x, y, dd in ((i, j, la - lb), (j, i, lb - la)):
                        for c in (1, 2):
                            if s.prove0(dd == c, facts, 500)[0] is not True:
                                continue
                            A, B = inst[x], inst[y]
                            # leading terms, or trailing ones
                            if same_terms(x, y, add(A[1], c), B[1]):
                                e = B[0]
                                for q in range(c):
                                    e = e + zr(simp(z3.substitute(zr(A[4]), (A[3].tvar, zi(A[1]) + q))))
                                out.append(z3.Implies(zi(A[2]) >= zi(A[1]) + c, A[0] == e))
                            elif same_terms(y, x, B[1], A[1]):
                                e = B[0]
                                for q in range(c):
                                    e = e + zr(simp(z3.substitute(zr(A[4]), (A[3].tvar, zi(A[2]) - 1 - q))))
                                out.append(z3.Implies(zi(A[2]) >= zi(A[1]) + c, A[0] == e))
        return out

    # -------------------------------------------------------------- proving
    def prove0(s, goal, facts, timeout):
        goal = bsimp(goal)
        if goal is True:
            return True, "simplify", ""
        s.tick()
        S = z3.Solver()
        S.set("timeout", int(timeout * SCALE[0]))
        for f in facts:
            S.add(zb(f))
        S.add(z3.Not(zb(goal)))
        t = time.time()
        r = S.check()
        s.stats["queries"] += 1
        s.stats["solver_s"] += time.time() - t
        if r == z3.unsat:
            return True, "z3", ""
        if r == z3.sat:
            m = S.model()
            return False, "z3", "countermodel: " + ", ".join("%s = %s" % (d, str(m[d])[:120]) for d in m.decls()[:40])
        # a different strategy for nonlinear goals
        S2 = z3.Tactic("qfnra-nlsat").solver() if False else None
        return None, "z3", "unknown (%s)" % S.reason_unknown()
    def prove1(s, goal, facts, timeout, depth=0):
        goal = bsimp(goal)
        if goal is True:
            return True, "simplify", ""
        if depth < 3 and s.sums:
            facts = list(facts) + s.aug([goal], facts, depth)
        facts = list(facts) + s.roots([goal] + list(facts))
        if isz(goal) and z3.is_eq(goal) and goal.arg(0).sort() == z3.RealSort() and depth == 0:
            r = s.prove0(goal, facts, min(timeout, 500))
            if r[0] is None:
                from . import polyp
                def nz(e):
                    return s.prove0(e != 0, facts, 2000)[0] is True
                def nn(e):
                    return s.prove0(e >= 0, facts, 2000)[0] is True
                t = time.time()
                def cd(e):
                    if s.prove0(e, facts, 1000)[0] is True:
                        return True
                    if s.prove0(z3.Not(e), facts, 1000)[0] is True:
                        return False
                    return None
                if polyp.prove_eq(goal, nz, nn, SQRT, cond=cd):
                    s.stats["solver_s"] += time.time() - t
                    return True, "polynomial normal form", ""
                r = s.prove0(goal, facts, timeout)
            return r
        return s.prove0(goal, facts, timeout)
    def roots(s, es):
        """axioms of the square roots that occur"""
        if not hasattr(s, "_rm"):
            s._rm = {}
        memo = s._rm
        def go(e):
            i = e.get_id()
            if i in memo:
                return memo[i][1]
            r = []
            if z3.is_quantifier(e):
                pass
            else:
                for c in e.children():
                    for x in go(c):
                        if not any(z3.eq(x, y) for y in r):
                            r.append(x)
                if z3.is_app(e) and e.decl().eq(SQRT):
                    r.append(e)
            memo[i] = (e, r)
            return r
        out, seen = [], set()
        for e in es:
            if not isz(e):
                continue
            for x in go(e):
                if x.get_id() not in seen:
                    seen.add(x.get_id())
                    v = x.arg(0)
                    out.append(z3.Implies(v >= 0, z3.And(x >= 0, x * x == v)))
        return out
    def prove(s, goal, facts=(), timeout=8000):
        return s.prove1(goal, list(s.st.pc) + list(facts), timeout)
    def ob(s, name, cat, goal, facts=(), timeout=8000):
        """proof obligation on the current path; assumed afterwards"""
        if not s.collect:
            return True
        goal = bsimp(goal)
        ok, be, detail = s.prove(goal, facts, timeout)
        imp = False
        if ok is not True:
            names = set()
            for e in [goal]:
                consts_of(e, names) if isz(e) else None
            imp = any(n in s.sums or n in s.fold_consts for n in names) or s.imprecise > 0
        s.obs.append(Ob(name, cat, ok is True, detail, s.where, imp or ok is None, be))
        return ok is True

    # -------------------------------------------------------------- regions
    def region(s, name, ncoord, length, ety, kind):
        rid = "%s#%d" % (name, fresh_id())
        s.regions[rid] = Region(rid, name, ncoord, length if callable(length) else (lambda pre, L=length: L), ety, kind, _RID[0])
        return rid
    def base_of(s, rid, field, ety):
        """lazy content of a cell never written"""
        R = s.regions[rid]
        k = s.P.kind(ety)
        nm = R.name + ("." + ".".join(field) if field else "")
        if R.kind == "local":
            return lambda c, nm=nm: Poison("uninitialised " + nm)
        if R.kind == "heap0":
            return lambda c, k=k: (0 if k == "int" else Fraction(0) if k == "real" else NULL)
        if R.kind == "heap" and k == "ptr":
            return lambda c, nm=nm: Poison("uninitialised " + nm)
        if k in ("int", "real"):
            return None
        return lambda c, nm=nm: Poison("not modelled: " + nm)
    def arr(s, p):
        key = (p.rid, p.field)
        a = s.st.mem.get(key)
        if a is None:
            b = s.base_of(p.rid, p.field, p.ety)
            if b is None:
                # named after the region, so that it is older than any loop the region is older than
                f = z3.Function("%s!%d" % ((s.regions[p.rid].name + "." + ".".join(p.field)).rstrip("."), s.regions[p.rid].birth), *([z3.IntSort()] * len(p.coords) + [z3.IntSort() if s.P.kind(p.ety) == "int" else z3.RealSort()]))
                s.ninputs[f.name()] = f
                b = lambda c, f=f: f(*[zi(x) for x in c])
            a = Arr(b)
            s.st.mem[key] = a
        return a
    def setbase(s, rid, field, fn):
        s.st.mem[(rid, field)] = Arr(fn)
    def read_arr(s, a, coords, ptr):
        """value of a cell"""
        acc = []
        for l in reversed(a.layers):
            m = l.match(coords)
            if m is None:
                continue
            c, sb = m
            c = bsimp(c)
            if isz(c):
                d = s.decide(c)
                if d is not None:
                    c = d
            if c is False:
                continue
            v = subst(l.value, sb)
            if c is True:
                return s.fold(acc, v)
            if ptr or not isnum(v):
                if s.branch(c):
                    return s.fold(acc, v)
                continue
            acc.append((c, v))
        v = a.base(coords)
        if acc and not isnum(v):
            for i, (c, w) in enumerate(acc):
                if s.branch(c):
                    return s.fold(acc[:i], w)
            return v
        return s.fold(acc, v)
    def fold(s, acc, v):
        for c, w in reversed(acc):
            v = ite(c, w, v)
        return v
    def check_access(s, p, what):
        if p is NULL:
            s.ob("%s: not through a null pointer" % what, "safety", False)
            raise PathEnd()
        if isinstance(p, Poison):
            if p.why.startswith("uninit"):
                s.ob("%s: pointer is initialised" % what, "safety", False)
                raise PathEnd()
            raise Unsupported("pointer: " + p.why)
        if not isinstance(p, Ptr):
            raise Unsupported("access through %r" % (p,))
        if p.rid in s.st.dead:
            dd = s.st.dead[p.rid]
            if dd is True:
                s.ob("%s: not after free" % what, "safety", False)
                raise PathEnd()
            # part of a family: cells where dd(coords) holds are freed
            s.ob("%s: not after free" % what, "safety", bnot(dd(p.coords)))
        R = s.regions[p.rid]
        if p.dim == "F":
            return
        L = R.length(p.coords[:R.ncoord - 1]) if p.dim == "R" else p.dim
        if p.dim == "R":
            i = p.coords[R.ncoord - 1]
        else:
            i = p.coords[-1]
        if L is None:
            return
        g = band(bsimp(zi(i) >= 0) if isz(i) else i >= 0, bsimp(zi(i) < zi(L)) if isz(i) or isz(L) else i < L)
        if g is True:
            return
        if s.ob("%s: index within bounds of %s" % (what, R.name), "safety", g) is not True:
            s.assume(g)
    def load(s, p, what="read"):
        s.check_access(p, what)
        k = s.P.kind(p.ety)
        if k in ("struct", "array"):
            raise Unsupported("load of an aggregate")
        v = s.read_arr(s.arr(p), p.coords, k == "ptr")
        if isinstance(v, Poison) and v.why.startswith("uninit") and k != "ptr":
            s.ob("read of %s: initialised" % v.why, "safety", False)
            raise PathEnd()
        return v
    def store(s, p, v, what="write"):
        s.check_access(p, what)
        k = s.P.kind(p.ety)
        if k in ("struct", "array"):
            raise Unsupported("store of an aggregate")
        if k == "real" and isinstance(v, int):
            v = Fraction(v)
        if k == "real" and isz(v) and v.sort() == z3.IntSort():
            v = z3.ToReal(v)
        a = s.arr(p)
        # a constant cell that is overwritten again needs no history
        ls = a.layers
        if ls and not ls[-1].params and ls[-1].cond is True and all(eqv(x, y) is True for x, y in zip(ls[-1].coords, p.coords)):
            ls = ls[:-1]
        s.st.mem[(p.rid, p.field)] = Arr(a.base, ls + (Layer((), True, p.coords, v),))
        if s.st.wlog is not None:
            s.st.wlog.append((p, ))

    # -------------------------------------------------------------- locals
    def newlocal(s, name, ty):
        ty = s.P.resolve(ty)
        k = s.P.kind(ty)
        if k == "array":
            ety, n = s.P.elem(ty)
            if s.P.kind(ety) == "array":
                raise Unsupported("multi-dimensional local array")
            rid = s.region(name, 1, n, ety, "local")
        else:
            rid = s.region(name, 1, 1, ty, "local")
        return rid
    def local_ptr(s, rid):
        R = s.regions[rid]
        return Ptr(rid, (), (0,), "R", R.ety)

    # -------------------------------------------------------------- expressions
    def var(s, n):
        """location of a DeclRefExpr"""
        fr = s.frames[-1]
        if n.rid in fr["vars"]:
            return s.local_ptr(fr["vars"][n.rid])
        return s.globalvar(n, fr["file"])
    def globalvar(s, n, file):
        key = (file, n.ref)
        if key in s.abstract:
            return s.abstract[key]
        d = s.P.globals.get(key) or s.P.globals.get(n.ref)
        if d is None:
            raise Unsupported("global variable " + n.ref)
        ty = s.P.resolve(d.type)
        if s.P.kind(ty) == "array":
            ety, ln = s.P.elem(ty)
            rid = s.region(n.ref, 1, ln, ety, "global")
            init = [x for x in d.inner if x is not None and x.kind == "InitListExpr"]
            if not init:
                raise Unsupported("global array " + n.ref)
            vals = []
            s.frames.append(dict(vars={}, file=file, fn="<init>"))
            try:
                for x in init[0].inner:
                    vals.append(s.ev(x))
            finally:
                s.frames.pop()
            def base(c, vals=vals):
                i = c[0]
                if isinstance(i, int):
                    return vals[i] if i < len(vals) else 0
                v = vals[-1]
                for q in range(len(vals) - 1, -1, -1):
                    v = ite(zi(i) == q, vals[q], v)
                return v
            s.st.mem[(rid, ())] = Arr(base)
        else:
            rid = s.region(n.ref, 1, 1, ty, "global")
            init = [x for x in d.inner if x is not None]
            if init:
                s.frames.append(dict(vars={}, file=file, fn="<init>"))
                try:
                    v = s.ev(init[-1])
                finally:
                    s.frames.pop()
                s.st.mem[(rid, ())] = Arr(lambda c, v=v: v)
        p = s.local_ptr(rid)
        s.abstract[key] = p
        return p
    def lval(s, n):
        k = n.kind
        if k == "DeclRefExpr":
            return s.var(n)
        if k == "ParenExpr":
            return s.lval(n.inner[0])
        if k == "UnaryOperator" and n.op == "*":
            p = s.ev(n.inner[0])
            return s.aslv(p, n)
        if k == "ArraySubscriptExpr":
            a, b = s.ev(n.inner[0]), s.ev(n.inner[1])
            if isnum(a) and not isnum(b):
                a, b = b, a
            p = s.padd(a, b)
            return s.aslv(p, n)
        if k == "MemberExpr":
            if n.arrow:
                p = s.ev(n.inner[0])
                s.check_access(p, "%s->%s" % ("p", n.name))
            else:
                p = s.lval(n.inner[0])
            return s.member(p, n.name, n.type)
        if k in ("ImplicitCastExpr", "CStyleCastExpr"):
            return s.lval(n.inner[0])
        raise Unsupported("lvalue " + k)
    def aslv(s, p, n):
        if isinstance(p, Ptr):
            return p
        s.check_access(p, "line %s: dereference" % n.line)
        raise PathEnd()
    def member(s, p, name, ty):
        return Ptr(p.rid, p.field + (name,), p.coords, "F", s.P.resolve(ty))
    def padd(s, a, i):
        if isinstance(a, Poison):
            s.check_access(a, "pointer arithmetic")
        if a is NULL:
            s.ob("pointer arithmetic on null", "safety", False)
            raise PathEnd()
        if not isinstance(a, Ptr):
            raise Unsupported("pointer arithmetic on %r" % (a,))
        if not isz(i) and i == 0:
            return a
        if a.dim == "F":
            raise Unsupported("arithmetic on the address of a field")
        if a.dim == "R":
            n = s.regions[a.rid].ncoord
            c = a.coords[:n - 1] + (add(a.coords[n - 1], i),) + a.coords[n:]
        else:
            c = a.coords[:-1] + (add(a.coords[-1], i),)
        return Ptr(a.rid, a.field, c, a.dim, a.ety)
    def cond(s, n):
        """boolean value of an expression"""
        return s.truth(s.ev(n))
    def truth(s, v):
        if isinstance(v, (Ptr, FnVal, Str)):
            return True
        if v is NULL:
            return False
        if isinstance(v, Poison):
            raise Unsupported("condition on " + v.why)
        if isinstance(v, Size):
            raise Unsupported("condition on a size")
        if isreal(v):
            return bsimp(zr(v) != 0) if isz(v) else v != 0
        return bsimp(i2b(v)) if isz(v) else v != 0
    PURE = {"DeclRefExpr", "ParenExpr", "ImplicitCastExpr", "CStyleCastExpr", "IntegerLiteral", "FloatingLiteral", "BinaryOperator", "UnaryOperator", "MemberExpr", "ArraySubscriptExpr", "ConditionalOperator", "CharacterLiteral", "ConstantExpr"}
    def pure(s, n):
        if n.kind == "CallExpr":
            c = n.inner[0]
            while c.kind in ("ImplicitCastExpr", "ParenExpr"):
                c = c.inner[0]
            return c.kind == "DeclRefExpr" and c.ref in ("fabs", "sqrt") and all(s.pure(x) for x in n.inner[1:])
        if n.kind not in s.PURE:
            return False
        if n.kind == "BinaryOperator" and n.op in ("=", ","):
            return False
        if n.kind == "UnaryOperator" and n.op in ("++", "--"):
            return False
        return all(s.pure(x) for x in n.inner if x is not None)
    def under(s, c, n):
        """value of a pure expression evaluated under condition c, or NeedFork"""
        st = s.st
        s.st = st.copy()
        nf = s.nofork
        s.nofork = True
        try:
            s.st.pc.append(zb(c))
            return s.ev(n)
        finally:
            mem = s.st.mem
            s.st = st
            for k, v in mem.items():
                st.mem.setdefault(k, v)
            s.nofork = nf
    def ev(s, n):
        k = n.kind
        f = getattr(s, "ev_" + k, None)
        if f is None:
            raise Unsupported("expression %s at line %s" % (k, n.line))
        return f(n)
    def ev_ParenExpr(s, n):
        return s.ev(n.inner[0])
    def ev_ConstantExpr(s, n):
        return s.ev(n.inner[0])
    def ev_IntegerLiteral(s, n):
        return int(n.value)
    def ev_CharacterLiteral(s, n):
        return int(n.value)
    def ev_FloatingLiteral(s, n):
        return Fraction(float(n.value))
    def ev_StringLiteral(s, n):
        return Str(n.value)
    def ev_PredefinedExpr(s, n):
        return Str("func")
    def ev_DeclRefExpr(s, n):
        if n.refkind == "FunctionDecl":
            return FnVal(n.ref)
        if n.refkind == "EnumConstantDecl":
            return s.P.enums[n.ref]
        return s.load(s.var(n), "line %s: read of %s" % (n.line, n.ref))
    def ev_MemberExpr(s, n):
        return s.load(s.lval(n), "line %s: read of %s" % (n.line, n.name))
    def ev_ArraySubscriptExpr(s, n):
        return s.load(s.lval(n), "line %s: array read" % n.line)
    def ev_UnaryExprOrTypeTraitExpr(s, n):
        at = n.extra.get("argType")
        t = (at.get("desugaredQualType") or at.get("qualType")) if at else n.inner[0].type
        return Size(1, s.P.resolve(t))
    def ev_CStyleCastExpr(s, n):
        return s.ev_ImplicitCastExpr(n)
    def ev_ImplicitCastExpr(s, n):
        c, x = n.cast, n.inner[0]
        if c == "ToVoid":
            y = x
            while y.kind in ("ImplicitCastExpr", "ParenExpr"):
                y = y.inner[0]
            if y.kind == "DeclRefExpr":
                return None    # (void) v: names v, uses nothing
        if c == "LValueToRValue":
            return s.load(s.lval(x), "line %s: read" % n.line)
        if c == "NullToPointer":
            return NULL
        if c == "ArrayToPointerDecay":
            if x.kind == "StringLiteral" or x.kind == "PredefinedExpr":
                return Str(x.value)
            p = s.lval(x)
            if not p.field and p.dim == "R":
                return p            # a local or global array: already at its first element
            ety, ln = s.P.elem(x.type)
            return Ptr(p.rid, p.field, p.coords + (0,), ln, ety)
        if c == "FunctionToPointerDecay":
            return s.ev(x)
        v = s.ev(x)
        if c == "ToVoid":
            return None
        if c in ("BitCast", "NoOp"):
            if isinstance(v, Ptr):
                return s.retype(v, n.type)
            return v
        if c == "IntegralToFloating":
            if isinstance(v, Size):
                raise Unsupported("size as a number")
            return Fraction(v) if not isz(v) else z3.ToReal(v)
        if c == "FloatingCast":
            return v
        if c == "FloatingToIntegral":
            if not isz(v):
                return int(v)
            s.notes.add("conversion from double to integer truncates toward zero")
            return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        if c in ("IntegralCast", "IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean"):
            if c.endswith("ToBoolean"):
                return b2i(s.truth(v))
            return v
        if c == "BuiltinFnToFnPtr":
            return v
        if c in ("PointerToIntegral", "IntegralToPointer"):
            raise Unsupported("pointer/integer conversion")
        raise Unsupported("cast " + str(c))
    def retype(s, v, ty):
        """pointer cast: only between views of the same object"""
        t = s.P.pointee(ty)
        R = s.regions[v.rid]
        if R.ety is None and t != "void" and v.dim == "R" and not v.field:
            # malloc'ed storage takes the type of its first cast
            R.ety = t
            n = s.st.sizes.get(v.rid)
            return Ptr(v.rid, v.field, v.coords, v.dim, t)
        if v.dim == "R" and not v.field and R.ety is not None:
            return Ptr(v.rid, v.field, v.coords, v.dim, R.ety)
        return v
    def num2(s, a, b):
        if isinstance(a, (Ptr, Null, FnVal, Poison, Str)) or isinstance(b, (Ptr, Null, FnVal, Poison, Str)):
            raise Unsupported("arithmetic on %r, %r" % (a, b))
        if isreal(a) or isreal(b):
            if isz(a) or isz(b):
                return zr(a), zr(b), True
            return Fraction(a), Fraction(b), True
        if isz(a) or isz(b):
            return zi(a), zi(b), False
        return a, b, False
    def arith(s, op, a, b, n):
        if isinstance(a, Size) or isinstance(b, Size):
            if op == "*":
                if isinstance(b, Size):
                    a, b = b, a
                if isinstance(b, Size):
                    raise Unsupported("product of sizes")
                x, y, _ = s.num2(a.n, b)
                return Size(simp(x * y) if isz(x) else x * y, a.ty)
            raise Unsupported("arithmetic on sizes")
        if op in ("+", "-") and (isinstance(a, Ptr) or isinstance(b, Ptr)):
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if op == "-" and a.rid == b.rid and a.field == b.field and len(a.coords) == len(b.coords):
                    i = s.regions[a.rid].ncoord - 1 if a.dim == "R" else len(a.coords) - 1
                    if all(eqv(x, y) is True for j, (x, y) in enumerate(zip(a.coords, b.coords)) if j != i):
                        return sub(a.coords[i], b.coords[i])
                raise Unsupported("pointer difference")
            if isinstance(b, Ptr):
                a, b = b, a
            return s.padd(a, b if op == "+" else (-b if not isz(b) else simp(-b)))
        x, y, real = s.num2(a, b)
        if op == "+":
            r = x + y
        elif op == "-":
            r = x - y
        elif op == "*":
            r = x * y
        elif op == "/":
            if real:
                if not isz(y) and not isz(x):
                    if y == 0:
                        raise Unsupported("constant division by zero")
                    return x / y
                return zr(x) / zr(y)
            s.ob("line %s: integer division by nonzero" % n.line, "safety", bsimp(zi(y) != 0))
            if not isz(x) and not isz(y):
                q = abs(x) // abs(y)
                return q if (x < 0) == (y < 0) else -q
            x, y = zi(x), zi(y)
            q = x / y
            return z3.If(z3.And(x < 0, q * y != x), z3.If(y > 0, q + 1, q - 1), q)
        elif op == "%":
            s.ob("line %s: integer remainder by nonzero" % n.line, "safety", bsimp(zi(y) != 0))
            if not isz(x) and not isz(y):
                q = abs(x) % abs(y)
                return q if x >= 0 else -q
            x, y = zi(x), zi(y)
            m = x % y
            return z3.If(z3.And(x < 0, m != 0), z3.If(y > 0, m - y, m + y), m)
        else:
            raise Unsupported("operator " + op)
        return simp(r) if isz(r) and not real else r
    def compare(s, op, a, b):
        pt = (Ptr, Null, FnVal, Str)
        if isinstance(a, pt) or isinstance(b, pt):
            if isinstance(a, int) and a == 0:
                a = NULL
            if isinstance(b, int) and b == 0:
                b = NULL
            if isinstance(a, Poison) or isinstance(b, Poison):
                raise Unsupported("comparison of a poison pointer")
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.rid == b.rid and a.field == b.field and len(a.coords) == len(b.coords):
                    e = True
                    for x, y in zip(a.coords, b.coords):
                        e = band(e, eqv(x, y))
                else:
                    e = False
            elif isinstance(a, FnVal) and isinstance(b, FnVal):
                e = a.name == b.name
            else:
                e = a is b
            if op == "==":
                return e
            if op == "!=":
                return bnot(e)
            raise Unsupported("pointer order")
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported("comparison of %r" % (a if isinstance(a, Poison) else b))
        x, y, real = s.num2(a, b)
        if not isz(x):
            return {"==": x == y, "!=": x != y, "<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]
        r = {"==": lambda: x == y, "!=": lambda: x != y, "<": lambda: x < y, "<=": lambda: x <= y, ">": lambda: x > y, ">=": lambda: x >= y}[op]()
        return bsimp(r)
    def ev_BinaryOperator(s, n):
        op = n.op
        if op == "=":
            r = n.inner[1]
            if s.P.kind(n.type) == "struct":
                return s.copy_struct(s.lval(n.inner[0]), s.lval(r), n.type)
            p = s.lval(n.inner[0])
            v = s.ev(r)
            s.store(p, v, "line %s: write" % n.line)
            return v
        if op == ",":
            s.ev(n.inner[0])
            return s.ev(n.inner[1])
        if op in ("&&", "||"):
            a = s.cond(n.inner[0])
            if isinstance(a, bool):
                if op == "&&":
                    return b2i(s.cond(n.inner[1])) if a else 0
                return 1 if a else b2i(s.cond(n.inner[1]))
            if s.pure(n.inner[1]):
                try:
                    b = s.truth(s.under(a if op == "&&" else z3.Not(a), n.inner[1]))
                    return b2i(bsimp(z3.And(a, zb(b)) if op == "&&" else z3.Or(a, zb(b))))
                except NeedFork:
                    if s.nofork:
                        raise
            t = s.branch(a)
            if op == "&&":
                return b2i(s.cond(n.inner[1])) if t else 0
            return 1 if t else b2i(s.cond(n.inner[1]))
        a, b = s.ev(n.inner[0]), s.ev(n.inner[1])
        if op in ("==", "!=", "<", "<=", ">", ">="):
            return b2i(s.compare(op, a, b))
        return s.arith(op, a, b, n)
    def ev_CompoundAssignOperator(s, n):
        p = s.lval(n.inner[0])
        old = s.load(p, "line %s: read" % n.line)
        v = s.arith(n.op[:-1], old, s.ev(n.inner[1]), n)
        s.store(p, v, "line %s: write" % n.line)
        return v
    def ev_UnaryOperator(s, n):
        op = n.op
        if op == "&":
            x = n.inner[0]
            while x.kind == "ParenExpr":
                x = x.inner[0]
            if x.kind == "DeclRefExpr" and x.refkind == "FunctionDecl":
                return FnVal(x.ref)
            return s.lval(x)
        if op == "*":
            if n.type and s.P.resolve(n.type).startswith("fn"):
                return s.ev(n.inner[0])
            v = s.ev(n.inner[0])
            if isinstance(v, FnVal):
                return v
            return s.load(s.aslv(v, n), "line %s: read" % n.line)
        if op in ("++", "--"):
            p = s.lval(n.inner[0])
            old = s.load(p, "line %s: read" % n.line)
            if isinstance(old, Ptr):
                new = s.padd(old, 1 if op == "++" else -1)
            else:
                new = s.arith("+" if op == "++" else "-", old, 1, n)
            s.store(p, new, "line %s: write" % n.line)
            return old if n.extra.get("isPostfix") else new
        v = s.ev(n.inner[0])
        if op == "-":
            return -v if isnum(v) else s.arith("-", 0, v, n)
        if op == "+":
            return v
        if op == "!":
            return b2i(bnot(s.truth(v)))
        if op == "__extension__":
            return v
        raise Unsupported("operator " + op)
    def ev_ConditionalOperator(s, n):
        c = s.cond(n.inner[0])
        if isinstance(c, bool):
            return s.ev(n.inner[1 if c else 2])
        if s.P.kind(n.type) in ("real", "int") and s.pure(n.inner[1]) and s.pure(n.inner[2]):
            try:
                return ite(c, s.under(c, n.inner[1]), s.under(z3.Not(c), n.inner[2]))
            except NeedFork:
                if s.nofork:
                    raise
        return s.ev(n.inner[1 if s.branch(c) else 2])
    def ev_StmtExpr(s, n):
        raise Unsupported("statement expression")

    def copy_struct(s, dst, src, ty):
        t = s.P.resolve(ty)
        for f, ft in s.P.records.get(t) or []:
            a, b = s.member(src, f, ft), s.member(dst, f, ft)
            k = s.P.kind(ft)
            if k == "struct":
                s.copy_struct(b, a, ft)
            elif k == "array":
                raise Unsupported("copy of a struct with an array")
            else:
                s.st.mem[(b.rid, b.field)] = s.arr(b).write(Layer((), True, b.coords, s.read_arr(s.arr(a), a.coords, k == "ptr")))
                if s.st.wlog is not None:
                    s.st.wlog.append((b,))
        return None

    # -------------------------------------------------------------- calls
    def ev_CallExpr(s, n):
        c = n.inner[0]
        f = s.ev(c)
        if isinstance(f, Null):
            s.ob("line %s: call through a null function pointer" % n.line, "safety", False)
            raise PathEnd()
        if not isinstance(f, FnVal):
            raise Unsupported("call through %r" % (f,))
        args = None
        if f.name in s.lazy:
            return s.lazy[f.name](s, n)
        args = [s.ev(x) for x in n.inner[1:]]
        return s.call(f.name, args, n.line)
    lazy = {}
    def call(s, name, args, line=None):
        s.tick()
        if name in s.contracts:
            s.contracts_used.add(name)
            return s.contracts[name](s, args)
        b = BUILTIN.get(name)
        if b is not None:
            return b(s, args, line)
        fr = s.frames[-1] if s.frames else None
        d = s.P.find(name, fr["file"] if fr else None) or (s.P.find_any(name) if fr is None else None)
        if d is None:
            raise Unsupported("call of %s (no body)" % name)
        return s.enter(d, args)
    def enter(s, d, args):
        n, file = d
        if len(s.frames) > 40:
            raise Unsupported("call depth")
        if any(f["fn"] == n.name for f in s.frames):
            raise Unsupported("recursion in " + n.name)
        s.inlined.add("%s (%s)" % (n.name, file))
        fr = dict(vars={}, file=file, fn=n.name)
        ps = [x for x in n.inner if x.kind == "ParmVarDecl"]
        if len(ps) != len(args):
            raise Unsupported("argument count of " + n.name)
        body = [x for x in n.inner if x.kind == "CompoundStmt"][0]
        for p, v in zip(ps, args):
            rid = s.region(p.name or "_", 1, 1, s.P.resolve(p.type) if s.P.kind(p.type) != "array" else s.P.elem(p.type)[0] + " *", "local")
            fr["vars"][p.did] = rid
            if s.P.kind(p.type) == "real" and isnum(v) and not isreal(v):
                v = Fraction(v) if not isz(v) else z3.ToReal(v)
            s.st.mem[(rid, ())] = Arr(lambda c: Poison("param"), (Layer((), True, (0,), v),))
        s.frames.append(fr)
        w = s.where
        s.where = n.name
        try:
            s.ex(body)
            r = None
        except Ret as x:
            r = x.v
        finally:
            s.frames.pop()
            s.where = w
        return r

    # -------------------------------------------------------------- statements
    def ex(s, n):
        if n is None:
            return
        f = getattr(s, "ex_" + n.kind, None)
        if f is not None:
            return f(n)
        s.ev(n)
    def ex_CompoundStmt(s, n):
        i, items = 0, n.inner
        while i < len(items):
            try:
                s.ex(items[i])
                i += 1
            except Goto as g:
                j = s.find_label(items, g.label)
                if j is None:
                    raise
                if j <= i:
                    raise Unsupported("backward goto")
                i = j
    def find_label(s, items, l):
        for j, x in enumerate(items):
            y = x
            while y is not None and y.kind == "LabelStmt":
                if y.extra.get("declId") == l or y.name == l:
                    return j
                y = y.inner[0] if y.inner else None
        return None
    def ex_LabelStmt(s, n):
        for x in n.inner:
            s.ex(x)
    def ex_GotoStmt(s, n):
        raise Goto(n.extra.get("targetLabelDeclId"))
    def ex_NullStmt(s, n):
        pass
    def ex_DeclStmt(s, n):
        for d in n.inner:
            if d.kind != "VarDecl":
                continue
            if d.extra.get("storageClass") == "static":
                raise Unsupported("static local")
            rid = s.newlocal(d.name, d.type)
            s.frames[-1]["vars"][d.did] = rid
            init = [x for x in d.inner if x is not None]
            if init:
                x = init[-1]
                if x.kind == "InitListExpr":
                    for i, y in enumerate(x.inner):
                        p = s.local_ptr(rid)
                        s.store(Ptr(p.rid, p.field, (i,), p.dim, p.ety), s.ev(y))
                elif s.P.kind(d.type) == "struct":
                    s.copy_struct(s.local_ptr(rid), s.lval(x.inner[0]), d.type)
                else:
                    s.store(s.local_ptr(rid), s.ev(x))
    def ex_IfStmt(s, n):
        c = s.branch(zb(s.cond(n.inner[0])))
        if c:
            s.ex(n.inner[1])
        elif len(n.inner) > 2:
            s.ex(n.inner[2])
    def ex_ReturnStmt(s, n):
        raise Ret(s.ev(n.inner[0]) if n.inner else None)
    def ex_BreakStmt(s, n):
        raise Brk()
    def ex_ContinueStmt(s, n):
        raise Cont()
    def ex_SwitchStmt(s, n):
        v = s.ev(n.inner[0])
        body = n.inner[-1]
        # flatten case labels
        flat = []
        def put(x):
            if x.kind == "CaseStmt":
                flat.append(("case", x.inner[0]))
                put(x.inner[-1])
            elif x.kind == "DefaultStmt":
                flat.append(("default", None))
                put(x.inner[-1])
            else:
                flat.append(("stmt", x))
        for x in body.inner:
            put(x)
        start = None
        for i, (k, x) in enumerate(flat):
            if k == "case":
                w = s.ev(x)
                if s.branch(zb(s.compare("==", v, w))):
                    start = i
                    break
        if start is None:
            for i, (k, x) in enumerate(flat):
                if k == "default":
                    start = i
        if start is None:
            return
        try:
            for k, x in flat[start:]:
                if k == "stmt":
                    s.ex(x)
        except Brk:
            pass
    def ex_ForStmt(s, n):
        init, _, c, inc, body = n.inner[0], n.inner[1], n.inner[2], n.inner[3], n.inner[4]
        if init is not None and init.kind:
            s.ex(init)
        s.loop(c if c is not None and c.kind else None, inc if inc is not None and inc.kind else None, body, False, n)
    def ex_WhileStmt(s, n):
        s.loop(n.inner[0], None, n.inner[-1], False, n)
    def ex_DoStmt(s, n):
        s.loop(n.inner[1], None, n.inner[0], True, n)
    def loop(s, c, inc, body, isdo, n):
        from . import loops
        spec = (s.loopspecs.get(s.frames[-1]["fn"]) or s.loopspecs.get("*")) if s.frames else None
        if spec is not None and not isdo:
            for sp in (spec if isinstance(spec, list) else [spec]):
                if sp.applies(s, c, n):
                    return loops.contract(s, sp, c, inc, body, n)
        k = 0
        first = isdo
        while True:
            if not first:
                if c is not None:
                    st = s.st
                    # evaluated on a copy first: a symbolic condition is left to the summary
                    s.st = st.copy()
                    try:
                        v = s.cond(c)
                    except NeedFork:
                        raise
                    s1 = s.st
                    s.st = st
                    v = bsimp(v)
                    if isz(v) and k > 0 and False:
                        pass
                    if isz(v):
                        d = None
                        if k < 3:
                            pass
                        return loops.summarize(s, c, inc, body, isdo and False, n)
                    s.st = s1
                    if not v:
                        return
                elif k > s.unroll:
                    return loops.summarize(s, c, inc, body, False, n)
            first = False
            try:
                s.ex(body)
            except Brk:
                return
            except Cont:
                pass
            if inc is not None:
                s.ev(inc)
            k += 1
            if k > s.unroll:
                raise Unsupported("loop unrolled more than %d times at line %s" % (s.unroll, n.line))

# ------------------------------------------------------------------ library functions
def _fabs(s, a, line):
    v = a[0]
    if not isz(v):
        return abs(Fraction(v))
    v = zr(v)
    return z3.If(v >= 0, v, -v)
SQRT = z3.Function("sqrt", z3.RealSort(), z3.RealSort())
POW = z3.Function("pow", z3.RealSort(), z3.RealSort(), z3.RealSort())
EXP = z3.Function("exp", z3.RealSort(), z3.RealSort())
LOG = z3.Function("log", z3.RealSort(), z3.RealSort())
CEIL = z3.Function("ceil", z3.RealSort(), z3.RealSort())
def _sqrt(s, a, line):
    v = zr(a[0])
    r = SQRT(v)
    if not s.nofork:
        s.assume(z3.Implies(v >= 0, z3.And(r >= 0, r * r == v)))
    return r
def _pow(s, a, line):
    return POW(zr(a[0]), zr(a[1]))
def alloc(s, name, n, ety, kind):
    rid = s.region(name, 1, n, ety, kind)
    return Ptr(rid, (), (0,), "R", ety)
SCALE = [1.0]
MALLOC_MAY_FAIL = [True]
def _malloc(s, a, line):
    z = a[0]
    if not isinstance(z, Size):
        raise Unsupported("malloc of %r" % (z,))
    s.ob("line %s: allocation size is not negative" % line, "safety", bsimp(zi(z.n) >= 0) if isz(z.n) else z.n >= 0)
    if MALLOC_MAY_FAIL[0] and s.branch(s.fbool("malloc_fails")):
        return NULL
    return alloc(s, "malloc", z.n, z.ty, "heap")
def _calloc(s, a, line):
    n, z = a
    if not isinstance(z, Size):
        n, z = z, n
    x, y, _ = s.num2(n, z.n)
    if MALLOC_MAY_FAIL[0] and s.branch(s.fbool("calloc_fails")):
        return NULL
    return alloc(s, "calloc", x * y if not isz(x) else simp(x * y), z.ty, "heap0")
def _free(s, a, line):
    p = a[0]
    if p is NULL:
        return None
    if not isinstance(p, Ptr):
        s.check_access(p, "line %s: free" % line)
        raise Unsupported("free of %r" % (p,))
    R = s.regions[p.rid]
    if p.rid in s.st.dead:
        s.ob("line %s: not freed twice" % line, "safety", False if s.st.dead[p.rid] is True else bnot(s.st.dead[p.rid](p.coords)))
    ok = p.dim == "R" and not p.field and R.kind in ("heap", "heap0", "ext")
    s.ob("line %s: freed pointer came from an allocation" % line, "safety", band(ok, eqv(p.coords[R.ncoord - 1], 0) if R.ncoord == 1 else True))
    if R.ncoord == 1:
        s.st.dead[p.rid] = True
    else:
        raise Unsupported("free of a family member")
    s.freed(p)
    return None
def _freed(s, p):
    pass
Engine.freed = _freed
def _memset(s, a, line):
    p, v, z = a
    if not isinstance(z, Size) or v != 0 or not isinstance(p, Ptr):
        raise Unsupported("memset")
    k = s.P.kind(p.ety)
    if s.P.resolve(p.ety) != s.P.resolve(z.ty):
        raise Unsupported("memset over a different type")
    if k == "struct":
        if z.n != 1:
            raise Unsupported("memset of struct array")
        def go(q, ty):
            for f, ft in s.P.records[s.P.resolve(ty)]:
                m = s.member(q, f, ft)
                kk = s.P.kind(ft)
                if kk == "struct":
                    go(m, ft)
                elif kk == "array":
                    et, ln = s.P.elem(ft)
                    ke = s.P.kind(et)
                    t = s.fint("z")
                    zero = 0 if ke == "int" else Fraction(0) if ke == "real" else NULL
                    m2 = Ptr(m.rid, m.field, m.coords, "F", et)
                    key = (m.rid, m.field)
                    if key not in s.st.mem:
                        s.st.mem[key] = Arr(lambda c, zero=zero: zero)
                    else:
                        s.st.mem[key] = s.st.mem[key].write(Layer((t,), z3.And(t >= 0, t < ln), m.coords + (t,), zero))
                else:
                    zero = 0 if kk == "int" else Fraction(0) if kk == "real" else NULL
                    s.store(m, zero)
        go(p, p.ety)
        return p
    t = s.fint("z")
    last = add(p.coords[-1], z.n)
    s.range_access(p, z.n, "line %s: memset" % line)
    zero = 0 if k == "int" else Fraction(0) if k == "real" else NULL
    s.st.mem[(p.rid, p.field)] = s.arr(p).write(Layer((t,), z3.And(t >= zi(p.coords[-1]), t < zi(last)), p.coords[:-1] + (t,), zero))
    if s.st.wlog is not None:
        s.st.wlog.append((p,))
    return p
def range_access(s, p, n, what):
    s.check_access(p, what) if s.decide(zi(n) > 0) is not False else None
    R = s.regions[p.rid]
    L = R.length(p.coords[:R.ncoord - 1]) if p.dim == "R" else p.dim
    s.ob("%s: range within bounds of %s" % (what, R.name), "safety", bsimp(z3.Or(zi(n) <= 0, z3.And(zi(p.coords[-1]) >= 0, zi(p.coords[-1]) + zi(n) <= zi(L)))))
Engine.range_access = range_access
def _memcpy(s, a, line):
    d, q, z = a
    if not isinstance(z, Size) or not isinstance(d, Ptr) or not isinstance(q, Ptr):
        raise Unsupported("memcpy")
    if s.P.resolve(z.ty) != s.P.resolve(d.ety) or s.P.resolve(z.ty) != s.P.resolve(q.ety):
        raise Unsupported("memcpy over a different type")
    if s.P.kind(d.ety) == "struct":
        if z.n != 1:
            raise Unsupported("memcpy of struct array")
        s.copy_struct(d, q, d.ety)
        return d
    s.range_access(d, z.n, "line %s: memcpy to" % line)
    s.range_access(q, z.n, "line %s: memcpy from" % line)
    t = s.fint("z")
    v = s.read_arr(s.arr(q), q.coords[:-1] + (add(q.coords[-1], t),), False)
    s.st.mem[(d.rid, d.field)] = s.arr(d).write(Layer((t,), z3.And(t >= 0, t < zi(z.n)), d.coords[:-1] + (add(d.coords[-1], t),), v))
    if s.st.wlog is not None:
        s.st.wlog.append((d,))
    return d
def _nop(s, a, line):
    return 0
def _abs(s, a, line):
    v = a[0]
    return abs(v) if not isz(v) else z3.If(v >= 0, v, -v)
BUILTIN = dict(fabs=_fabs, sqrt=_sqrt, pow=_pow, malloc=_malloc, calloc=_calloc, free=_free, memset=_memset, memcpy=_memcpy, abs=_abs,
    fprintf=_nop, printf=_nop, snprintf=_nop, sprintf=_nop, fflush=_nop,
    exp=lambda s, a, l: EXP(zr(a[0])), log=lambda s, a, l: LOG(zr(a[0])), ceil=lambda s, a, l: CEIL(zr(a[0])))
BUILTIN["__builtin_expect"] = lambda s, a, l: a[0]
