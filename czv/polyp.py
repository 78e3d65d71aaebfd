"""Identities between rational functions (with square roots): exact normal forms modulo the defining relations of the quotients and roots.
A quotient n/d is a fresh symbol q with q*d = n (only after d != 0 is proved), a root is a fresh symbol r with r*r = v (after v >= 0 is proved).
The leading monomials of these relations are pairwise coprime in the order used, so reduction to zero is sound and complete for the ideal they span."""
import z3
from fractions import Fraction

class NotPoly(Exception):
    pass

LIMIT = 40000

def padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + k * c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r
def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for v, e in n:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))
def pmul(p, q):
    if len(p) * len(q) > 4 * LIMIT:
        raise NotPoly()
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v == 0:
                r.pop(k, None)
            else:
                r[k] = v
    return r
def const(f):
    return {(): f} if f != 0 else {}
def ppow(p, n):
    r = const(Fraction(1))
    for _ in range(n):
        r = pmul(r, p)
    return r
def split(p, v):
    """coefficients by the power of v"""
    out = {}
    for m, c in p.items():
        e = 0
        rest = m
        for w, k in m:
            if w == v:
                e = k
                rest = tuple(x for x in m if x[0] != v)
                break
        out.setdefault(e, {})[rest] = c
    return out

def prove_eq(goal, nonzero, nonneg, sqrt_decl, limit=400, cond=None):
    """goal: z3 equality between reals; nonzero(e), nonneg(e): provers for side conditions"""
    if not (z3.is_eq(goal) and z3.is_arith(goal.arg(0))):
        return None
    atoms, quots, memo = {}, [], {}
    nzm, qmemo = {}, {}
    nv = [0]
    def fresh():
        nv[0] += 1
        return nv[0]
    def var(v):
        return {((v, 1),): Fraction(1)}
    def nz(e):
        """factor by factor first"""
        i = e.get_id()
        if i not in nzm:
            k = e.decl().kind() if z3.is_app(e) else None
            if z3.is_rational_value(e) or z3.is_int_value(e):
                r = not z3.is_true(z3.simplify(e == 0))
            elif k in (z3.Z3_OP_MUL, z3.Z3_OP_DIV) and all(nz(c) for c in e.children()):
                r = True
            elif k == z3.Z3_OP_UMINUS:
                r = nz(e.arg(0))
            else:
                r = nonzero(e)
            nzm[i] = (e, r)
        v = nzm[i]
        return v[1]
    def go(e):
        i = e.get_id()
        if i not in memo:
            r = go1(e)
            if len(r) > LIMIT:
                raise NotPoly()
            memo[i] = (e, r)
        return memo[i][1]
    def sym(e):
        i = e.get_id()
        if i not in atoms:
            atoms[i] = (e, var(fresh()))
        return atoms[i][1]
    def go1(e):
        if z3.is_rational_value(e) or z3.is_int_value(e):
            return const(Fraction(e.as_fraction()) if z3.is_rational_value(e) else Fraction(e.as_long()))
        k = e.decl().kind()
        ch = e.children()
        if k == z3.Z3_OP_ADD:
            r = go(ch[0])
            for c in ch[1:]:
                r = padd(r, go(c))
            return r
        if k == z3.Z3_OP_MUL:
            r = go(ch[0])
            for c in ch[1:]:
                r = pmul(r, go(c))
            return r
        if k == z3.Z3_OP_SUB:
            r = go(ch[0])
            for c in ch[1:]:
                r = padd(r, go(c), -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            return padd({}, go(ch[0]), -1)
        if k == z3.Z3_OP_POWER and z3.is_int_value(ch[1]) and 0 <= ch[1].as_long() <= 12:
            return ppow(go(ch[0]), ch[1].as_long())
        if k == z3.Z3_OP_DIV:
            n, d = go(ch[0]), go(ch[1])
            if list(d) == [()]:
                return {m: c / d[()] for m, c in n.items()}
            if not nz(ch[1]):
                raise NotPoly()
            if not n:
                return {}
            key = (frozenset(n.items()), frozenset(d.items()))
            if key in qmemo:
                return qmemo[key]
            q = fresh()
            quots.append((q, d, n, "q"))
            if len(quots) > 40:
                raise NotPoly()
            qmemo[key] = var(q)
            return var(q)
        if e.decl().eq(sqrt_decl):
            if not nonneg(ch[0]):
                raise NotPoly()
            q = fresh()
            quots.append((q, go(ch[0]), None, "r"))
            return var(q)
        if k == z3.Z3_OP_ITE:
            d = cond(ch[0]) if cond else None
            if d is None:
                raise NotPoly()
            return go(ch[1 if d else 2])
        return sym(e)
    def reduce_root(g, q, d):
        out = {}
        for k, c in split(g, q).items():
            t = pmul(c, ppow(d, k // 2))
            if k % 2:
                t = pmul(t, var(q))
            out = padd(out, t)
        return out
    try:
        g = padd(go(goal.arg(0)), go(goal.arg(1)), -1)
        # rewrite with the relations, latest symbols first
        for q, d, n, kind in reversed(quots):
            if not g:
                return True
            if kind == "r":
                g = reduce_root(g, q, d)
                continue
            # multiply through by d^k: exact because d is not zero
            P = split(g, q)
            k = max(P)
            if k <= 0:
                continue
            out = {}
            for e, c in P.items():
                out = padd(out, pmul(c, pmul(ppow(n, e), ppow(d, k - e))))
            g = out
            if len(g) > LIMIT:
                raise NotPoly()
        if not g:
            return True
        # roots that came back through numerators
        for q, d, n, kind in reversed(quots):
            if kind == "r":
                g = reduce_root(g, q, d)
        return True if not g else None
    except NotPoly:
        return None
