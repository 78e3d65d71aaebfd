"""Discharging goals over the reals: ground axioms for the elementary functions, rules for sums,
z3 (SMT core, then nlsat on the purified goal) and cvc5 as a second back end."""
import z3, time, subprocess, os, tempfile
from .core import *

SCALE = [1.0]    # solver budgets; the second attempt at a failed unit gets more

def sums_in(eng, es):
    out, mx = [], []
    for x in subterms(es):
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = x.decl().name()
            if n in eng.sums:
                out.append(eng.sums[n])
            if n in eng.maxes:
                mx.append(eng.maxes[n])
    return out, mx

def is_fun(x, name=None):
    if x.decl().kind() != z3.Z3_OP_UNINTERPRETED or x.num_args() == 0:
        return False
    n = x.decl().name()
    return n.startswith("f_") and (name is None or n == "f_" + name)

def args_zero(a, b):
    """a + b = 0 by simplification"""
    r = z3.simplify(a + b, som=True)
    return z3.is_rational_value(r) and r.numerator_as_long() == 0

def iszero(e):
    r = z3.simplify(e, som=True)
    return z3.is_rational_value(r) and r.numerator_as_long() == 0

def axioms(terms, rounds=2):
    """ground instances of axioms of the elementary functions for the terms given"""
    out = []
    seen = set()
    todo = [x for x in subterms(terms) if is_fun(x)]
    for _ in range(rounds):
        new = []
        for x in todo:
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            n = x.decl().name()[2:]
            a = x.arg(0)
            F = lambda nm, *ar: app(nm, *ar)
            if n == "sqrt":
                out += [z3.Implies(a >= 0, z3.And(x >= 0, x * x == a)), z3.Implies(a > 0, x > 0)]
            elif n == "exp":
                out += [x > 0, z3.Implies(a <= 0, x <= 1), z3.Implies(a >= 0, x >= 1), z3.Implies(a < 0, x < 1), z3.Implies(a == 0, x == 1)]
                y = F("exp", -a) if not (z3.is_app(a) and a.decl().kind() == z3.Z3_OP_UMINUS) else F("exp", a.arg(0))
                out += [x * y == 1]
                new.append(y)
                if z3.is_app(a) and is_fun(a, "log"):
                    out += [z3.Implies(a.arg(0) > 0, x == a.arg(0))]
            elif n == "log":
                y = F("exp", x)
                out += [z3.Implies(a > 0, y == a), z3.Implies(a > 1, x > 0), z3.Implies(z3.And(a > 0, a < 1), x < 0), z3.Implies(a == 1, x == 0)]
                if is_fun(a, "exp"):
                    out += [x == a.arg(0)]
                else:
                    new.append(y)
            elif n == "tan":
                s, c = F("sin", a), F("cos", a)
                out += [z3.Implies(c != 0, x * c == s)]
                new += [s, c]
            elif n in ("sin", "cos"):
                s, c = F("sin", a), F("cos", a)
                out += [s * s + c * c == 1, s <= 1, s >= -1, c <= 1, c >= -1]
            elif n in ("sinh", "cosh", "tanh"):
                s, c = F("sinh", a), F("cosh", a)
                out += [c * c - s * s == 1, c >= 1]
                e1, e2 = F("exp", a), F("exp", -a)
                out += [2 * s == e1 - e2, 2 * c == e1 + e2, e1 * e2 == 1, e1 > 0, e2 > 0]
                if n == "tanh":
                    out += [x * c == s, x < 1, x > -1]
            elif n == "pow":
                b = x.arg(1)
                l = F("log", a)
                y = F("exp", b * l)
                out += [z3.Implies(a > 0, z3.And(x > 0, x == y)), z3.Implies(b == 1, x == a), z3.Implies(b == 2, x == a * a),
                        z3.Implies(z3.And(b == 0), x == 1), z3.Implies(z3.And(b == -1), x == 1 / a), z3.Implies(b == -2, x == 1 / (a * a)),
                        z3.Implies(b == rv("0.5"), x == F("sqrt", a)), z3.Implies(b == rv("-0.5"), x == 1 / F("sqrt", a))]
                out += [z3.Implies(a == 1, x == 1)]
                new += [F("sqrt", a)]
            elif n == "erfc":
                y = F("erf", a)
                out += [x == 1 - y]
            elif n == "asin":
                out += [F("sin", x) == a] if False else []
        todo = [y for z in new for y in subterms([z]) if is_fun(y)]
    # pairwise: exponentials and logarithms
    allf = [x for x in subterms(terms + out) if is_fun(x)]
    ex = {x.get_id(): x for x in allf if is_fun(x, "exp")}
    lg = {x.get_id(): x for x in allf if is_fun(x, "log")}
    exl, lgl = list(ex.values())[:14], list(lg.values())[:10]
    for i, x in enumerate(exl):
        for y in exl[:i]:
            if iszero(x.arg(0) + y.arg(0)):
                out.append(x * y == 1)
            if iszero(x.arg(0) - y.arg(0)):
                out.append(x == y)
            else:
                out.append((x.arg(0) < y.arg(0)) == (x < y))
            for z in exl:
                if z is not x and z is not y and iszero(x.arg(0) + y.arg(0) - z.arg(0)):
                    out.append(x * y == z)
    for i, x in enumerate(lgl):
        for y in lgl[:i]:
            out.append(z3.Implies(z3.And(x.arg(0) > 0, y.arg(0) > 0), (x.arg(0) < y.arg(0)) == (x < y)))
            for z in lgl:
                if z is not x and z is not y:
                    for p, q, r in ((x, y, z), (x, z, y), (y, z, x)):
                        if iszero(p.arg(0) * q.arg(0) - r.arg(0)):
                            out.append(z3.Implies(z3.And(p.arg(0) > 0, q.arg(0) > 0), r == p + q))
            if iszero(x.arg(0) * y.arg(0) - 1):
                out.append(z3.Implies(x.arg(0) > 0, x == -y))
    sq = {x.get_id(): x for x in allf if is_fun(x, "sqrt")}
    sq = list(sq.values())[:8]
    for i, x in enumerate(sq):
        for y in sq[:i]:
            if iszero(x.arg(0) - y.arg(0)):
                out.append(x == y)
            if iszero(x.arg(0) * y.arg(0) - 1):
                out.append(z3.Implies(x.arg(0) > 0, x * y == 1))
    return out

def purify(es):
    """replace function applications by variables; returns new expressions and congruence facts"""
    apps = [x for x in subterms(es) if x.num_args() > 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED]
    apps.sort(key=lambda x: len(str(x)) if False else depth(x))
    sub, facts = [], []
    groups = {}
    for x in apps:
        srt = x.sort()
        v = z3.FreshConst(srt, "p")
        xa = [z3.substitute(c, *sub) if sub else c for c in x.children()]
        for (ya, w) in groups.get(x.decl().name(), []):
            facts.append(z3.Implies(z3.And([p == q for p, q in zip(xa, ya)]), v == w))
        groups.setdefault(x.decl().name(), []).append((xa, v))
        sub.append((x, v))
    out = [z3.substitute(e, *list(reversed(sub))) if sub else e for e in es]
    return out, facts

_depth = {}
def depth(x):
    k = x.get_id()
    if k in _depth:
        return _depth[k]
    d = 1 + max([depth(c) for c in x.children()] or [0])
    _keepd.append(x)
    _depth[k] = d
    return d
_keepd = []

_syms = {}
def symbols(e):
    k = e.get_id()
    r = _syms.get(k)
    if r is None:
        _keepd.append(e)
        r = _syms[k] = frozenset(x.decl().name() for x in subterms([e]) if x.decl().kind() == z3.Z3_OP_UNINTERPRETED)
    return r

def cone(facts, goal):
    need = set(symbols(goal))
    rest = [(f, symbols(f)) for f in facts]
    out = []
    ch = True
    while ch:
        ch = False
        nr = []
        for f, s in rest:
            if s <= need or (s & need and len(s - need) <= 1 and has_real(f)):
                out.append(f)
                if not s <= need:
                    need |= s
                    ch = True
            else:
                nr.append((f, s))
        rest = nr
    return out

def solve(eng, facts, goal, ms):
    """unsat(facts & not goal)?"""
    t = time.time()
    s = z3.Solver()
    s.set("timeout", int(ms * SCALE[0]))
    for f in facts:
        s.add(f)
    s.add(z3.Not(goal))
    r = s.check()
    eng.stats["queries"] += 1
    eng.stats["solver_s"] += time.time() - t
    if r == z3.unsat:
        return True, "z3", ""
    if r == z3.sat:
        return False, "z3", model_str(s.model())
    return None, "z3", "unknown"

def model_str(m):
    return "countermodel: " + ", ".join("%s=%s" % (d.name(), m[d]) for d in m.decls() if d.arity() == 0)[:1500]

def solve_nl(eng, facts, goal, ms):
    t = time.time()
    es, cong = purify(facts + [goal])
    g = z3.Not(es[-1])
    try:
        tac = z3.TryFor(z3.Then("simplify", "solve-eqs", "purify-arith", "elim-term-ite", "solve-eqs", "simplify", "smt" if False else "qfnra-nlsat"), int(ms * SCALE[0]))
        s = tac.solver()
        for f in es[:-1] + cong:
            s.add(f)
        s.add(g)
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    eng.stats["queries"] += 1
    eng.stats["solver_s"] += time.time() - t
    return r == z3.unsat

def solve_cvc5(eng, facts, goal, ms):
    t = time.time()
    ms = int(ms * SCALE[0])
    s = z3.Solver()
    for f in facts:
        s.add(f)
    s.add(z3.Not(goal))
    txt = "(set-logic ALL)\n" + s.to_smt2().replace("(set-info :status unknown)", "")
    txt = "\n".join(l for l in txt.splitlines() if not l.startswith("; "))
    fn = None
    ok = False
    try:
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write(txt)
            fn = f.name
        r = subprocess.run(["cvc5", "--nl-ext-tplanes", "--tlimit=%d" % ms, fn], capture_output=True, text=True, timeout=ms / 1000 + 5)
        ok = r.stdout.strip().splitlines()[:1] == ["unsat"]
    except Exception:
        ok = False
    finally:
        if fn:
            os.unlink(fn)
    eng.stats["queries"] += 1
    eng.stats["solver_s"] += time.time() - t
    return ok

def real_facts(eng, goal):
    fs = []
    seen = set()
    for f in eng.pc:
        k = f.get_id()
        if k not in seen:
            seen.add(k)
            fs.append(f)
    return fs

def core_prove(eng, goal, extra=(), ms=None):
    ms = ms or eng.goal_timeout
    if not extra:
        t = time.time()
        eng.sf.set("timeout", int(300 * SCALE[0]))
        r = eng.sf.check(z3.Not(goal))
        eng.sf.set("timeout", eng.base_timeout)
        eng.stats["queries"] += 1
        eng.stats["solver_s"] += time.time() - t
        if r == z3.unsat:
            return True, "z3", ""
    facts = real_facts(eng, goal)
    near = cone([f for f in facts], goal)
    near = near + list(extra)
    ax = axioms([goal] + [f for f in near if has_real(f)])
    detail = ""
    # 1. relevant facts
    ok, be, d = solve(eng, near + ax, goal, min(ms, 4000))
    if ok:
        return True, be, ""
    detail = d
    if ok is None or has_real(goal):
        if solve_nl(eng, [f for f in near + ax if has_real(f)], goal, min(ms, 8000)):
            return True, "z3-nlsat", ""
    # 2. everything
    ok, be, d = solve(eng, facts + list(extra) + ax, goal, min(ms, 5000))
    if ok:
        return True, be, ""
    if ok is False:
        return False, be, d
    if solve_cvc5(eng, near + ax, goal, min(ms, 8000)):
        return True, "cvc5", ""
    return False, be, "%s" % (d or detail)

def prove(eng, goal):
    g = z3.simplify(goal)
    if z3.is_true(g):
        return True, "simplify", ""
    ss, mx = sums_in(eng, [goal] )
    if not ss:
        # sums can hide behind definitions of constants; only direct occurrences matter
        return core_prove(eng, goal)
    return prove_sums(eng, goal, ss)

def split_cases(goal):
    if z3.is_and(goal):
        return goal.children()
    return [goal]

def exp_log(eng, goal):
    """exp(... + log(t) + ...) = t * exp(...) for t > 0"""
    for x in subterms([goal]):
        if not is_fun(x, "exp"):
            continue
        a = x.arg(0)
        parts = a.children() if z3.is_add(a) else [a]
        for q, p in enumerate(parts):
            if is_fun(p, "log"):
                t = p.arg(0)
                ok = prove(eng, t > 0)[0]
                if ok:
                    rest = [c for i, c in enumerate(parts) if i != q]
                    y = t
                    for c in rest:
                        y = y * app("exp", c)
                    return exp_log(eng, z3.substitute(goal, (x, y)))
    return goal

def prove_sums(eng, goal, ss):
    g2 = exp_log(eng, goal)
    if g2 is not goal:
        return prove(eng, g2)
    ok, be, det = core_quick(eng, goal)
    if ok:
        return True, be, ""
    if z3.is_implies(goal):
        n = eng.push()
        try:
            eng.add(goal.arg(0))
            return prove(eng, goal.arg(1))
        finally:
            eng.pop(n)
    if z3.is_eq(goal) and z3.is_real(goal.arg(0)):
        r = linear_rule(eng, goal.arg(0), goal.arg(1), ss)
        if r[0]:
            return r
        # f(SUM) = f(SUM'): congruence by pointwise equality
    lem = []
    for i, (S, n, f) in enumerate(ss):
        for (T, m, g) in ss[:i]:
            if eng.entails(n == m) and pointwise(eng, n, lambda j, f=f, g=g: f(j) == g(j)):
                lem.append(S == T)
        lem += bounds(eng, S, n, f)
    if lem:
        k = eng.push()
        try:
            eng.add(*lem)
            r = core_prove(eng, goal)
            if r[0]:
                return r
        finally:
            eng.pop(k)
    return False, be, det or "sum goal not established"

def core_quick(eng, goal):
    facts = real_facts(eng, goal)
    near = cone(facts, goal)
    ax = axioms([goal])
    return solve(eng, near + ax, goal, 2000)

def pointwise(eng, n, fn):
    """for all j in 1..n: fn(j)"""
    res = []
    def run():
        j = eng.fresh_index(n, "pw")
        res.append(core_prove(eng, fn(j), ms=6000)[0])
    eng.silent += 1
    try:
        eng.explore(run, "pointwise")
    finally:
        eng.silent -= 1
    return all(res)

def bounds(eng, S, n, f):
    out = []
    if pointwise(eng, n, lambda j: f(j) >= 0):
        out.append(S >= 0)
        for t in list(eng.idx_terms)[:8]:
            if eng.entails(z3.And(t >= 1, t <= n)):
                v = f(t)
                out.append(S >= v)
        if pointwise(eng, n, lambda j: f(j) > 0):
            out.append(z3.Implies(n >= 1, S > 0))
    if pointwise(eng, n, lambda j: f(j) <= 1):
        out.append(z3.Implies(n >= 0, S <= z3.ToReal(n)))
    return out

def linear_rule(eng, a, b, ss):
    """a - b = sum_s c_s*S_s + sum_n c_n*n + rest, pointwise zero"""
    E = a - b
    names = [S for S, n, f in ss]
    nt = {}
    for S, n, f in ss:
        nt[norm(n).get_id()] = norm(n)
    nvars = []
    for n in nt.values():
        v = z3.FreshConst(R, "N")
        nvars.append((n, v))
    E2 = z3.substitute(E, *[(z3.ToReal(n), v) for n, v in nvars])
    zero = [(S, rv(0)) for S in names] + [(v, rv(0)) for n, v in nvars]
    rest = z3.substitute(E2, *zero)
    coef = []
    for S, n, f in ss:
        one = [(x, rv(1) if x.eq(S) else y) for x, y in zero]
        coef.append(z3.simplify(z3.substitute(E2, *one) - rest))
    ncoef = []
    for n, v in nvars:
        one = [(x, rv(1) if x.eq(v) else y) for x, y in zero]
        ncoef.append(z3.simplify(z3.substitute(E2, *one) - rest))
    # E2 must be affine in the sums
    lin = rest
    for (S, n, f), c in zip(ss, coef):
        lin = lin + c * S
    for (n, v), c in zip(nvars, ncoef):
        lin = lin + c * v
    ok, be, d = core_prove(eng, E2 == lin, ms=4000)
    if not ok:
        return False, be, "not affine in the sums"
    ok, be, d = core_prove(eng, rest == 0, ms=6000)
    if not ok:
        return False, be, "constant part: " + d
    # group by length
    done = []
    for (n, v), cn in zip(nvars, ncoef):
        grp = [(S, f, c) for (S, m, f), c in zip(ss, coef) if same(m, n) or eng.entails(m == n)]
        if any(n is x for x in done):
            continue
        for S, f, c in grp:
            done.append(n)
        def fn(j):
            r = cn
            for S, f, c in grp:
                r = r + c * f(j)
            return r == 0
        if not pointwise(eng, n, fn):
            return False, "z3", "summands differ"
    return True, "z3+sum", ""
