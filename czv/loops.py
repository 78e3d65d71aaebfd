"""Loop summaries: a loop with a symbolic trip count is replaced by its closed-form effect.

The body is executed once, at a symbolic iteration k, from a state in which everything the loop changes
is unknown.  Induction variables get v0 + c*k, accumulators a sum over the iterations, arrays written at
k-dependent cells a write layer over all iterations; a read of a cell that the loop changes is accepted
only if it is proved that no earlier iteration writes that cell.  What fits none of these is reported
as outside reach, unless a ghost recurrence given by the specification is proved to be an invariant.
"""
import z3
from . import eng
from .eng import *

def cellval(E, st, key, coords, ety):
    sv = E.st
    E.st = st
    try:
        a = st.mem.get(key)
        if a is None:
            a = E.arr(Ptr(key[0], key[1], coords, "F", ety))
        return E.read_arr(a, coords, E.P.kind(ety) == "ptr")
    finally:
        E.st = sv

def names_in(v):
    return consts_of(v) if isz(v) or isinstance(v, Ptr) else set()

def idof(name):
    if "!" in name:
        t = name.rsplit("!", 1)[1]
        if t.isdigit():
            return int(t)
    return 0

class Rewriter:
    """rewrites terms, descending into the bodies of sums"""
    def __init__(s, E, fn, addparam=None):
        s.E, s.fn, s.add = E, fn, addparam
        s.memo, s.defs = {}, {}
    def __call__(s, e):
        if isinstance(e, Ptr):
            return Ptr(e.rid, e.field, tuple(s(c) for c in e.coords), e.dim, e.ety)
        if not isz(e):
            return e
        return simp(s.go(e))
    def b(s, e):
        if isinstance(e, bool):
            return e
        return bsimp(s.go(e))
    def go(s, e):
        i = e.get_id()
        if i in s.memo:
            return s.memo[i][1]
        if z3.is_quantifier(e) or z3.is_var(e):
            if z3.is_quantifier(e):
                nm = set()
                consts_of(e, nm)
                if any(s.fn is not None and s.fn.touches(x) for x in nm):
                    raise Unsupported("quantified fact about a changing cell")
            r = e
        else:
            ch = [s.go(c) for c in e.children()]
            d = e.decl()
            if d.name() in s.E.sums:
                r = s.sum(d, ch)
            else:
                r = s.fn(e, d, ch) if s.fn is not None else None
                if r is None:
                    r = d(*ch) if ch and any(not x.eq(y) for x, y in zip(ch, e.children())) else e
        s.memo[i] = (e, r)
        return r
    def sum(s, d, ch):
        nm = d.name()
        if nm not in s.defs:
            D = s.E.sums[nm]
            lo = s.go(zi(D.lo))
            fs = getattr(s.fn, "facts", None)
            if fs is not None:
                s.fn.facts = list(fs) + [D.tvar >= zi(D.lo)]
            try:
                body = s.go(D.body)
            finally:
                if fs is not None:
                    s.fn.facts = fs
            extra = [p for p in (s.add or []) if p.decl().name() in consts_of(body) | consts_of(lo)]
            if body.eq(D.body) and lo.eq(zi(D.lo)) and not extra:
                s.defs[nm] = (D.fn, [])
            else:
                ps = [s.E.fint("p") for _ in extra]
                sb = list(zip(extra, ps))
                fn = s.E.newsum(D.tvar, ps + list(D.pvars), z3.substitute(zr(body), *sb) if sb else body, simp(z3.substitute(lo, *sb)) if sb else simp(lo))
                s.defs[nm] = (fn, extra)
        fn, extra = s.defs[nm]
        return fn(*(list(extra) + ch))

def linear(cnd, k):
    """(d0, d1) with cnd <=> d0 + d1*k > 0, or ('ne', e0, e1)"""
    if z3.is_not(cnd):
        c = cnd.arg(0)
        if z3.is_le(c):
            d = c.arg(0) - c.arg(1)
        elif z3.is_ge(c):
            d = c.arg(1) - c.arg(0)
        elif z3.is_lt(c):
            d = c.arg(0) - c.arg(1) + 1
        elif z3.is_gt(c):
            d = c.arg(1) - c.arg(0) + 1
        elif z3.is_eq(c):
            d = c.arg(0) - c.arg(1)
            if d.sort() != z3.IntSort():
                return None
            e0, e1 = lin(d, k)
            return ("ne", e0, e1) if e1 is not None else None
        else:
            return None
    elif z3.is_le(cnd):
        d = cnd.arg(1) - cnd.arg(0) + 1
    elif z3.is_ge(cnd):
        d = cnd.arg(0) - cnd.arg(1) + 1
    elif z3.is_lt(cnd):
        d = cnd.arg(1) - cnd.arg(0)
    elif z3.is_gt(cnd):
        d = cnd.arg(0) - cnd.arg(1)
    elif z3.is_distinct(cnd):
        d = cnd.arg(0) - cnd.arg(1)
        e0, e1 = lin(d, k)
        return ("ne", e0, e1) if e1 is not None else None
    else:
        return None
    if d.sort() != z3.IntSort():
        return None
    d0, d1 = lin(d, k)
    return (d0, d1) if d1 is not None else None

def lin(d, k):
    d0 = simp(z3.substitute(d, (k, z3.IntVal(0))))
    d1 = simp(z3.substitute(d, (k, z3.IntVal(1))) - zi(d0))
    if not isinstance(d1, int):
        return None, None
    if k.decl().name() in consts_of(simp(d - d1 * k)):
        return None, None
    return d0, d1

def delta(e, acc):
    """e - acc, pushed into conditionals"""
    if isz(e) and z3.is_app_of(e, z3.Z3_OP_ITE):
        c, a, b = e.children()
        return z3.If(c, delta(a, acc), delta(b, acc))
    e = zr(e) if acc.sort() == z3.RealSort() else zi(e)
    if e.eq(acc):
        return zr(0) if acc.sort() == z3.RealSort() else zi(0)
    return z3.simplify(e - acc, som=True)

def hasacc(e, acc):
    if not isz(e):
        return False
    if z3.is_const(acc):
        return acc.decl().name() in consts_of(e)
    seen, st = set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(acc):
            return True
        st.extend(x.children())
    return False

def nest(E, pairs):
    """value selected by exclusive path conditions"""
    v0 = pairs[0][1]
    if all((isz(v) and isz(v0) and v.eq(v0)) or (not isz(v) and not isz(v0) and not isinstance(v, (Ptr, Poison)) and v == v0) for _, v in pairs):
        return v0
    if any(not isnum(v) for _, v in pairs):
        if all(isinstance(v, Ptr) and repr(v) == repr(v0) for _, v in pairs):
            return v0
        return Poison("differs between paths of a loop body")
    r = pairs[-1][1]
    for c, v in reversed(pairs[:-1]):
        r = ite(bsimp(c), v, r)
    return r

def summarize(E, c, inc, body, isdo, n):
    from .eng import _RID
    E.tick()
    S0 = E.st
    mark = eng.fresh_id()
    line = n.line
    def iterate(H, collect):
        st, co = E.st, E.collect
        E.st = H.copy()
        E.st.wlog = []
        E.collect = co and collect
        E.loopdepth += 1
        def run():
            if c is not None:
                E.assume(E.cond(c))
            try:
                try:
                    E.ex(body)
                except Unsupported as x:
                    # while the changed cells are being found, a path on unknown pointers is left;
                    # the final pass checks that it changes no cell not found here
                    if not collect and str(x).startswith("pointer:"):
                        raise PathEnd()
                    raise
            except Brk:
                return ("break",)
            except Cont:
                pass
            except Ret as r:
                return ("ret", r.v)
            except Goto as g:
                return ("goto", g.label)
            if inc is not None:
                E.ev(inc)
            return ("next",)
        try:
            return E.explore(run)
        finally:
            E.st, E.collect = st, co
            E.loopdepth -= 1
    # ---------------------------------------------------------- what the loop changes
    cells, arrays = {}, {}
    mode = {}                       # cell -> 'sym' | 'poison'
    def havoc(closed=None):
        H = S0.copy()
        syms, accs = {}, {}
        for key, ety in arrays.items():
            k_ = E.P.kind(ety)
            nm = key[0] + "." + ".".join(key[1])
            if k_ in ("int", "real"):
                f = E.ffun("acc:" + nm, ncoords[key], z3.IntSort() if k_ == "int" else z3.RealSort())
                accs[f.name()] = key
                H.mem[key] = Arr(lambda cc, f=f: f(*[zi(x) for x in cc]))
            else:
                H.mem[key] = Arr(lambda cc: Poison("pointer cell changed by the loop"))
        for cell, ety in cells.items():
            key, co = cell
            k_ = E.P.kind(ety)
            if closed and cell in closed:
                v = closed[cell]
            elif k_ == "int":
                v = E.fint("cur")
                syms[cell] = v
            elif k_ == "real":
                v = E.freal("cur")
                syms[cell] = v
            elif mode.get(cell) == "poison":
                v = Poison("pointer changed by the loop")
            else:
                v0 = cellval(E, S0, key, co, ety)
                if isinstance(v0, Ptr) and v0.dim != "F":
                    d = E.fint("off")
                    v = E.padd(v0, d)
                    syms[cell] = d
                else:
                    mode[cell] = "poison"
                    v = Poison("pointer changed by the loop")
            a = H.mem.get(key) or E.arr(Ptr(key[0], key[1], co, "F", ety))
            H.mem[key] = a.write(Layer((), True, co, v))
        return H, syms, accs
    ncoords = {}
    for rnd in range(12):
        H, syms, accs = havoc()
        res = iterate(H, False)
        changed = False
        for st, out in res:
            for (p,) in st.wlog:
                R = E.regions[p.rid]
                if R.birth >= mark:
                    continue
                key = (p.rid, p.field)
                const = all(isinstance(x, int) for x in p.coords)
                if key in arrays:
                    continue
                if const:
                    cell = (key, p.coords)
                    if cell not in cells:
                        cells[cell] = p.ety
                        changed = True
                else:
                    arrays[key] = p.ety
                    ncoords[key] = len(p.coords)
                    for cell in [x for x in cells if x[0] == key]:
                        del cells[cell]
                    changed = True
        if changed:
            continue
        # pointers that do not advance by a constant are local to an iteration
        again = False
        for cell, ety in cells.items():
            if E.P.kind(ety) == "ptr" and mode.get(cell) != "poison":
                v0 = cellval(E, H, cell[0], cell[1], ety)
                ok = True
                for st, out in res:
                    if out[0] != "next":
                        continue
                    v1 = cellval(E, st, cell[0], cell[1], ety)
                    if not isinstance(v1, Ptr) or v1.rid != v0.rid or v1.field != v0.field or len(v1.coords) != len(v0.coords):
                        ok = False
                        break
                    df = [sub(x, y) for x, y in zip(v1.coords, v0.coords)]
                    i = E.regions[v0.rid].ncoord - 1 if v0.dim == "R" else len(v0.coords) - 1
                    if any(isz(d) or d != 0 for j, d in enumerate(df) if j != i) or not isinstance(df[i], int):
                        ok = False
                        break
                if not ok:
                    mode[cell] = "poison"
                    again = True
        if not again:
            break
    else:
        raise Unsupported("line %s: no stable set of changed cells" % line)
    modnames = {v.decl().name() for v in syms.values()} | set(accs)
    nexts = [(st, out) for st, out in res if out[0] == "next"]
    # ---------------------------------------------------------- induction variables
    k = E.fint("k")
    closed, steps = {}, {}
    for cell, ety in cells.items():
        kd = E.P.kind(ety)
        if cell not in syms or kd == "real":
            continue
        step = None
        ok = bool(nexts)
        for st, out in nexts:
            v1 = cellval(E, st, cell[0], cell[1], ety)
            if kd == "ptr":
                v0 = cellval(E, H, cell[0], cell[1], ety)
                i = E.regions[v0.rid].ncoord - 1 if v0.dim == "R" else len(v0.coords) - 1
                d = sub(v1.coords[i], v0.coords[i])
            else:
                if not isnum(v1):
                    ok = False
                    break
                d = sub(v1, syms[cell])
            if (isz(d) and (consts_of(d) & modnames or any(idof(x) > mark for x in consts_of(d)))) or (step is not None and eqv(d, step) is not True):
                ok = False
                break
            step = d
        if ok:
            v0 = cellval(E, S0, cell[0], cell[1], ety)
            if kd == "ptr":
                closed[cell] = E.padd(v0, simp(zi(step) * k))
            else:
                if isinstance(v0, Poison):
                    continue
                closed[cell] = simp(zi(v0) + zi(step) * k)
            steps[cell] = step
    # ---------------------------------------------------------- trip count
    H, syms, accs = havoc(closed)
    H.pc.append(k >= 0)
    if c is None:
        raise Unsupported("line %s: loop without a condition" % line)
    sv = E.st
    E.st = H.copy()
    nf = E.nofork
    E.nofork = True
    try:
        cnd = E.cond(c)
    except NeedFork:
        raise Unsupported("line %s: loop condition forks" % line)
    finally:
        E.st = sv
        E.nofork = nf
    if isinstance(cnd, bool):
        raise Unsupported("line %s: loop condition is constant" % line)
    lf = linear(cnd, k)
    if lf is None or k.decl().name() not in consts_of(cnd) or any(isz(x) and (consts_of(x) & (modnames | {v.decl().name() for v in syms.values()} | set(accs))) for x in lf[-2:]):
        return generic(E, c, inc, body, n, S0, cells, arrays, syms, mark)
    if isinstance(lf[0], str):
        if lf[2] not in (1, -1):
            raise Unsupported("line %s: trip count" % line)
        N = simp(-zi(lf[1]) if lf[2] == 1 else zi(lf[1]))
        if E.prove(zi(N) >= 0)[0] is not True:
            raise Unsupported("line %s: loop may not terminate" % line)
    else:
        d0, d1 = lf
        if d1 >= 0:
            raise Unsupported("line %s: loop condition does not become false" % line)
        N = d0 if d1 == -1 else simp((zi(d0) + (-d1) - 1) / zi(-d1))
    if not E.branch(zi(N) > 0):
        return
    S0 = E.st
    H, syms, accs = havoc(closed)
    H.pc.append(k >= 0)
    H.pc.append(k < zi(N))
    res = iterate(H, True)
    nH = len(H.pc)
    symnames = {v.decl().name(): cell for cell, v in syms.items()}
    # ---------------------------------------------------------- symbols born in an iteration
    sk = {}
    class Sk:
        def touches(s, nm):
            return idof(nm) > mark and nm != k.decl().name() and nm not in symnames and nm not in accs
        def __call__(s, e, d, ch):
            nm = d.name()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and s.touches(nm) and nm not in E.sums and nm not in tvars:
                if nm not in sk:
                    sk[nm] = z3.Function("%s@!%d" % (nm.replace("!", "_"), eng.fresh_id()), *([z3.IntSort()] + [d.domain(i) for i in range(d.arity())] + [d.range()]))
                return sk[nm](k, *ch)
            return None
    tvars = set()
    for D in E.sums.values():
        tvars.add(D.tvar.decl().name())
        for p in D.pvars:
            tvars.add(p.decl().name())
    paths = []
    for st, out in res:
        for key in st.mem:
            a = st.mem[key]
            for l in a.layers:
                for p in l.params:
                    tvars.add(p.decl().name())
    rw = Rewriter(E, Sk(), [k])
    for st, out in res:
        pc = []
        for x in st.pc[nH:]:
            if not qq(x) and E.prove0(zb(x), S0.pc + [k >= 0, k < zi(N)], 300)[0] is True:
                continue
            pc.append(x)
        P_ = dict(out=out, st=st)
        P_["facts"] = [rw.b(x) if not qq(x) else x for x in pc]
        P_["pc"] = band(*[x for x in P_["facts"] if not qq(x)])
        P_["cells"] = {}
        for cell, ety in cells.items():
            v = cellval(E, st, cell[0], cell[1], ety)
            chkborn(E, v, mark, line)
            P_["cells"][cell] = rw(v)
        P_["layers"] = {}
        for key in arrays:
            ls = []
            for l in st.mem[key].layers:
                chkborn(E, l.value, mark, line)
                ls.append(Layer(l.params, rw.b(l.cond), tuple(rw(x) for x in l.coords), rw(l.value)))
            P_["layers"][key] = ls
        if out[0] == "ret":
            chkborn(E, out[1], mark, line)
            P_["out"] = ("ret", rw(out[1]))
        # released on the way out of the loop; what any other iteration releases is not supported
        P_["dead"] = [r_ for r_ in st.dead if r_ not in S0.dead and E.regions[r_].birth < mark]
        paths.append(P_)
    for st, out in res:
        if len(st.dead) != len(S0.dead):
            for r_ in st.dead:
                if r_ not in S0.dead and E.regions[r_].birth < mark and (out[0] == "next" or st.dead[r_] is not True):
                    raise Unsupported("line %s: free in a loop" % line)
    for st, out in res:
        for (p,) in st.wlog:
            if E.regions[p.rid].birth < mark and (p.rid, p.field) not in arrays and ((p.rid, p.field), p.coords) not in cells:
                raise Unsupported("line %s: changed cells" % line)
    nx = [p for p in paths if p["out"][0] == "next"]
    exits = [p for p in paths if p["out"][0] != "next"]
    # ---------------------------------------------------------- reads of cells changed by the loop
    kn = k.decl().name()
    kind = {}
    for key in arrays:
        ls = [l for p in nx for l in p["layers"][key]]
        dep = [any(kn in names_in(x) for x in l.coords) for l in ls]
        if not ls:
            kind[key] = "none"
        elif E.P.kind(arrays[key]) == "ptr" and not all(dep):
            kind[key] = "scratch"
        elif all(dep):
            kind[key] = "map"
        elif not any(dep):
            kind[key] = "acc"
        else:
            raise Unsupported("line %s: mixed write pattern" % line)
    t = E.fint("t")
    def notwritten(key, r, facts):
        """no earlier iteration writes the cell r"""
        for p in nx:
            for l in p["layers"][key]:
                ps = [E.fint("q") for _ in l.params]
                sb = list(zip(l.params, ps)) + [(k, t)]
                co = [subst(x, sb) for x in l.coords]
                cond = band(subst_b(l.cond, sb), subst_b(p["pc"], sb))
                hit = band(*[eqv(x, y) for x, y in zip(co, r)])
                if hit is False:
                    continue
                if E.prove0(z3.Not(zb(hit)), S0.pc + [k >= 0, k < zi(N), t >= 0, t < k, zb(cond)] + list(facts), 1500)[0] is not True:
                    return False
        return True
    def initial(key, r, facts=()):
        sv = E.st
        E.st = S0.copy()
        E.st.pc += [k >= 0, k < zi(N)] + [zb(x) for x in facts if not qq(x)]
        nf = E.nofork
        E.nofork = True
        try:
            a = S0.mem.get(key)
            if a is None:
                a = E.arr(Ptr(key[0], key[1], tuple(r), "F", arrays[key]))
            return E.read_arr(a, tuple(r), False)
        except NeedFork:
            raise Unsupported("read of the initial content forks")
        finally:
            E.st = sv
            E.nofork = nf
    left = set()
    class Res:
        def __init__(s, facts):
            s.facts = [f for f in facts if not isinstance(f, bool)]
        def touches(s, nm):
            return nm in accs
        def __call__(s, e, d, ch):
            if d.name() not in accs:
                return None
            key = accs[d.name()]
            if kind[key] == "none":
                return z3_of(initial(key, ch, s.facts), e)
            if notwritten(key, ch, s.facts):
                return z3_of(initial(key, ch, s.facts), e)
            if kind[key] == "acc":
                left.add(key)
                return d(*ch)
            raise Unsupported("line %s: an iteration reads a cell of %s that an earlier one may have written (%s)" % (line, key[0], ch))
    for p in paths:
        r = Rewriter(E, Res(p["facts"]))
        p["pc"] = r.b(p["pc"])
        p["cells"] = {cc: r(v) for cc, v in p["cells"].items()}
        for key in arrays:
            nl = []
            for l in p["layers"][key]:
                r2 = Rewriter(E, Res(list(p["facts"]) + [l.cond]))
                nl.append(Layer(l.params, r2.b(l.cond), tuple(r2(x) for x in l.coords), r2(l.value)))
            p["layers"][key] = nl
        if p["out"][0] == "ret":
            p["out"] = ("ret", r(p["out"][1]))
    # ---------------------------------------------------------- carriers
    carriers = []
    for cell, ety in cells.items():
        if cell in closed or cell not in syms:
            continue
        if not nx:
            continue
        e = nest(E, [(p["pc"], p["cells"][cell]) for p in nx])
        carriers.append(dict(kind="cell", cell=cell, A=syms[cell], ps=[], cond=True, e=e, init=cellval(E, S0, cell[0], cell[1], ety)))
    for key in arrays:
        if kind[key] != "acc":
            continue
        f = [n_ for n_, kk in accs.items() if kk == key][0]
        shapes = []
        for p in nx:
            for l in p["layers"][key]:
                if not any(same_shape(E, l, q) for q in shapes):
                    shapes.append(l)
        fdecl = None
        for i, l in enumerate(shapes):
            if isz(l.cond) and kn in consts_of(l.cond):
                raise Unsupported("line %s: cells accumulated by some iterations only" % line)
            for m in shapes[:i]:
                ps = [E.fint("q") for _ in m.params]
                sb = list(zip(m.params, ps))
                hit = band(*[eqv(x, subst(y, sb)) for x, y in zip(l.coords, m.coords)])
                if hit is False:
                    continue
                if E.prove0(z3.Not(zb(hit)), S0.pc + [zb(l.cond), zb(subst_b(m.cond, sb))], 800)[0] is not True:
                    raise Unsupported("line %s: accumulators may overlap" % line)
        for l in shapes:
            sort = z3.IntSort() if E.P.kind(arrays[key]) == "int" else z3.RealSort()
            fdecl = z3.Function(f, *([z3.IntSort()] * ncoords[key] + [sort]))
            pairs = []
            for p in nx:
                sv = E.st
                E.st = S0.copy()
                E.st.pc += [k >= 0, k < zi(N), zb(l.cond)] + [zb(x) for x in [p["pc"]]]
                nf = E.nofork
                E.nofork = True
                try:
                    a = Arr(lambda cc, fd=fdecl: fd(*[zi(x) for x in cc]), tuple(p["layers"][key]))
                    v = E.read_arr(a, l.coords, False)
                except NeedFork:
                    raise Unsupported("line %s: accumulator content forks" % line)
                finally:
                    E.st = sv
                    E.nofork = nf
                pairs.append((p["pc"], v))
            e = decided(E, nest(E, pairs), S0.pc + [k >= 0, k < zi(N), zb(l.cond)], fdecl.name())
            carriers.append(dict(kind="arr", key=key, A=fdecl(*[zi(x) for x in l.coords]), ps=list(l.params), cond=l.cond, shape=l, e=e, init=None, fd=fdecl))
    allA = lambda todo: [cr for cr in todo]
    def mentions(e, todo):
        if not isz(e):
            return False
        nm = consts_of(e)
        for cr in todo:
            if cr["A"].decl().name() in nm:
                return True
        return False
    def start_sub(cr):
        """replacement of the carrier by its value at the start of iteration k, in all terms"""
        if cr["kind"] == "cell":
            pairs = [(cr["A"], cr["start"] if isz(cr["start"]) else (zr(cr["start"]) if cr["A"].sort() == z3.RealSort() else zi(cr["start"])))]
            class F:
                def touches(s, nm):
                    return nm == cr["A"].decl().name()
                def __call__(s, e, d, ch):
                    return pairs[0][1] if e.eq(cr["A"]) else None
        else:
            class F:
                facts = []
                def touches(s, nm):
                    return nm == cr["fd"].name()
                def __call__(s, e, d, ch):
                    if d.name() != cr["fd"].name():
                        return None
                    m = cr["shape"].match(tuple(ch))
                    if m is None:
                        return None
                    cc, sb = m
                    if cc is not True and E.prove0(zb(cc), S0.pc + [k >= 0, k < zi(N)] + s.facts, 800)[0] is not True:
                        raise Unsupported("line %s: read of another accumulator" % line)
                    v = cr["start"]
                    return z3_of(subst(v, sb), e)
        def mkr(facts):
            f = F()
            f.facts = [zb(x) for x in facts if x is not True]
            return Rewriter(E, f)
        r = mkr([])
        for q in carriers:
            rq = mkr([q["cond"]])
            if q is not cr and isz(q["e"]):
                q["e"] = rq(q["e"])
            for x in ("start", "end"):
                if q is not cr and x in q and isz(q[x]):
                    q[x] = rq(q[x])
        for p in paths:
            p["pc"] = r.b(p["pc"])
            p["cells"] = {cc: (r(v) if cc != cr.get("cell") else v) for cc, v in p["cells"].items()}
            for key in arrays:
                nl = []
                for l in p["layers"][key]:
                    rl = mkr(list(p["facts"]) + [l.cond])
                    nl.append(Layer(l.params, r.b(l.cond), tuple(r(x) for x in l.coords), rl(l.value)))
                p["layers"][key] = nl
            if p["out"][0] == "ret":
                p["out"] = ("ret", r(p["out"][1]))
    todo = list(carriers)
    if DEBUG: print("CARR", [(cr.get("cell"), cr["A"], cr["e"]) for cr in carriers], "closed", closed, "kind", kind, "cells", list(cells))
    # pointer or poison cells keep no value across iterations
    while todo:
        prog = False
        for cr in list(todo):
            e = cr["e"]
            if not isnum(e):
                cr["start"] = cr["end"] = Poison("loop-local value")
                todo.remove(cr)
                cr["dead"] = True
                continue
            init = cr["init"] if cr["kind"] == "cell" else initial(cr["key"], cr["shape"].coords)
            if not mentions(e, todo):
                km1 = (k, k - 1)
                prev = deepsub(E, e, k, k - 1)
                cr["start"] = ite(bsimp(k > 0), prev, init) if isnum(init) else prev
                if not isnum(init):
                    cr["start"] = Poison("value of the first iteration")
                    # only usable if never read at the start of an iteration
                    cr["undef"] = True
                cr["end"] = deepsub(E, e, k, zi(N) - 1)
                cr["how"] = "last"
            else:
                if not isnum(init):
                    continue
                d = delta(e, cr["A"])
                if mentions(d, todo) or cr["A"].sort() != z3.RealSort() and not True:
                    continue
                if cr["A"].sort() == z3.IntSort():
                    # integer accumulators: as a sum over the reals cast back is not supported, constants only
                    continue
                d = simp(d)
                # the sum of the per-iteration contributions, with k generalised
                fn = E.newsum(k, cr["ps"], zr(d), 0)
                cr["start"] = simp(zr(init) + fn(*(cr["ps"] + [k])))
                cr["end"] = simp(zr(init) + fn(*(cr["ps"] + [zi(N)])))
                # the definition must not capture this loop's k as a free symbol
                gk = E.fint("k")
                D = E.sums[fn.name()]
                D.body = deepsub(E, D.body, k, gk)
                D.body = zr(D.body)
                D.tvar = gk
                cr["how"] = "sum"
            todo.remove(cr)
            prog = True
            if not cr.get("undef"):
                start_sub(cr)
            else:
                used = cr["A"].decl().name()
                if any(used in names_in(q["e"]) for q in carriers if q is not cr):
                    raise Unsupported("line %s: value undefined in the first iteration" % line)
        if not prog:
            break
    todo = [cr for cr in todo if not cr.get("dead")]
    # a local that an iteration only sets before using it: its value after the loop is left open
    for cr in list(todo):
        A = cr["A"]
        if cr["kind"] == "cell" and selects(cr["e"], A) and not any(hasacc(q["e"], A) for q in carriers if q is not cr) and not any(
                hasacc(p["pc"], A) or any(hasacc(l.cond, A) or hasacc(l.value, A) or any(hasacc(x, A) for x in l.coords) for key in arrays for l in p["layers"][key])
                or any(hasacc(v, A) for cc, v in p["cells"].items() if cc != cr["cell"]) or (p["out"][0] == "ret" and hasacc(p["out"][1], A)) for p in paths):
            v = E.freal("left") if A.sort() == z3.RealSort() else E.fint("left")
            E.fold_consts.add(v.decl().name())
            cr["open"] = v
    opened = [cr for cr in todo if "open" in cr]
    if opened and opened != todo or (opened and not E.ghosts):
        for cr in opened:
            cr["how"] = "open"
            cr["start"] = cr["end"] = cr["open"]
            todo.remove(cr)
    if todo:
        ghosts(E, todo, carriers, paths, nx, exits, S0, k, N, closed, line, arrays, start_sub)
    # ---------------------------------------------------------- effect
    gen = {cr["A"].decl().name() for cr in carriers if cr.get("how") == "ghost"}
    def closedform(v, kk):
        r = deepsub(E, v, k, kk)
        return r
    def apply(upto, facts_at=None):
        """effect of iterations 0 .. upto-1 on E.st"""
        for cell, ety in cells.items():
            key, co = cell
            if cell in closed:
                v = subst(closed[cell], [(k, zi(upto))])
            else:
                cr = [x for x in carriers if x.get("cell") == cell]
                if cr:
                    v = at_end(cr[0], upto)
                else:
                    v = Poison("pointer left by a loop")
            a = E.st.mem.get(key) or E.arr(Ptr(key[0], key[1], co, "F", ety))
            E.st.mem[key] = a.write(Layer((), True, co, v))
            log(E, key, co, ety)
        for key, ety in arrays.items():
            a = S0.mem.get(key) or E.arr(Ptr(key[0], key[1], (0,) * ncoords[key], "F", ety))
            if kind[key] == "map":
                checkmap(key)
                for p in nx:
                    for l in p["layers"][key]:
                        nm = names_in(l.value) | (consts_of(l.cond) if isz(l.cond) else set()) | (consts_of(p["pc"]) if isz(p["pc"]) else set())
                        if nm & gen or nm & set(symnames):
                            raise Unsupported("line %s: stored value depends on a carrier without closed form" % line)
                        kk = E.fint("k")
                        ps = [E.fint("p") for _ in l.params]
                        sb = list(zip(l.params, ps))
                        cond = band(kk >= 0, kk < zi(upto), dsb(E, subst_b(l.cond, sb), k, kk), dsb(E, p["pc"], k, kk))
                        a = a.write(Layer(tuple(ps) + (kk,), cond, tuple(deepsub(E, dsub(E, x, sb), k, kk) for x in l.coords), deepsub(E, dsub(E, l.value, sb), k, kk)))
                        log(E, key, a.layers[-1].coords, ety)
            elif kind[key] == "acc":
                for cr in carriers:
                    if cr["kind"] == "arr" and cr["key"] == key:
                        l = cr["shape"]
                        v = at_end(cr, upto)
                        a = a.write(Layer(l.params, band(l.cond, zi(upto) > 0), l.coords, v))
                        log(E, key, l.coords, ety)
            elif kind[key] == "scratch":
                a = Arr(lambda c: Poison("pointer: left by a loop"))
                log(E, key, (E.fint("any"),) * ncoords[key], ety)
            E.st.mem[key] = a
    def at_end(cr, upto):
        if cr.get("how") == "ghost":
            return cr["endat"](upto)
        if cr.get("how") == "open":
            v = E.freal("left") if cr["A"].sort() == z3.RealSort() else E.fint("left")
            E.fold_consts.add(v.decl().name())
            return v
        if isz(upto) and isz(N) and upto.eq(N) or (not isz(upto) and not isz(N) and upto == N):
            return cr["end"]
        if cr.get("dead") or cr.get("undef"):
            return Poison("loop-local value")
        return deepsub(E, cr["start"], k, zi(upto))
    def checkmap(key):
        ls = [(p, l) for p in nx for l in p["layers"][key]]
        t2 = E.fint("t")
        for i, (p, l) in enumerate(ls):
            for j, (q, m) in enumerate(ls):
                if j < i:
                    continue
                ps = [E.fint("q") for _ in l.params]
                qs = [E.fint("q") for _ in m.params]
                s1 = list(zip(l.params, ps)) + [(k, t)]
                s2 = list(zip(m.params, qs)) + [(k, t2)]
                hit = band(*[eqv(subst(x, s1), subst(y, s2)) for x, y in zip(l.coords, m.coords)])
                if hit is False:
                    continue
                fs = S0.pc + [t >= 0, t < zi(N), t2 >= 0, t2 < zi(N), t != t2, zb(subst_b(l.cond, s1)), zb(subst_b(p["pc"], s1)), zb(subst_b(m.cond, s2)), zb(subst_b(q["pc"], s2))]
                if E.prove0(z3.Not(zb(hit)), fs, 1500)[0] is not True:
                    raise Unsupported("line %s: iterations write the same cell" % line)
    if not exits:
        E.st = S0
        apply(N)
        return
    # which exit is taken, if any
    bad = bor(*[p["pc"] for p in exits])
    choice = None
    for p in exits:
        # on the path that first takes this exit
        if E.branch(E.fbool("exit")):
            choice = p
            break
    S0 = E.st
    tt = E.fint("t")
    if choice is None:
        E.assume(z3.ForAll([tt], z3.Implies(z3.And(tt >= 0, tt < zi(N)), z3.Not(zb(dsb(E, bad, k, tt))))))
        S0 = E.st
        apply(N)
        return
    kx = E.fint("kx")
    E.assume(z3.And(kx >= 0, kx < zi(N)))
    E.assume(z3.ForAll([tt], z3.Implies(z3.And(tt >= 0, tt < kx), z3.Not(zb(dsb(E, bad, k, tt))))))
    E.assume(dsb(E, choice["pc"], k, kx))
    for f in choice["facts"]:
        pass
    if E.check([]) == z3.unsat:
        raise PathEnd()
    S0 = E.st
    apply(kx)
    # what the exiting iteration itself did
    for cell, ety in cells.items():
        key, co = cell
        v = choice["cells"][cell]
        v = deepsub(E, v, k, kx) if isnum(v) or isinstance(v, Ptr) else v
        if isnum(v) and consts_of(v) & set(symnames) if isz(v) else False:
            cr = [x for x in carriers if x.get("cell") == cell][0]
            raise Unsupported("line %s: value at an early exit" % line)
        E.st.mem[key] = E.st.mem[key].write(Layer((), True, co, v))
    for key, ety in arrays.items():
        a = E.st.mem[key]
        for l in choice["layers"][key]:
            a = a.write(Layer(l.params, dsb(E, l.cond, k, kx), tuple(deepsub(E, x, k, kx) for x in l.coords), deepsub(E, l.value, k, kx)))
            log(E, key, l.coords, ety)
        E.st.mem[key] = a
    for r_ in choice["dead"]:
        E.st.dead[r_] = True
    o = choice["out"]
    if o[0] == "break":
        return
    if o[0] == "ret":
        raise Ret(deepsub(E, o[1], k, kx) if isnum(o[1]) or isinstance(o[1], Ptr) else o[1])
    raise Goto(o[1])

DEBUG = False
def qq(x):
    return isz(x) and z3.is_quantifier(x)
def z3_of(v, like):
    if not isnum(v):
        raise Unsupported("value %r in a term" % (v,))
    if like.sort() == z3.RealSort():
        return zr(v)
    return zi(v)
def log(E, key, co, ety):
    if E.st.wlog is not None:
        E.st.wlog.append((Ptr(key[0], key[1], tuple(co), "F", ety),))
def chkborn(E, v, mark, line):
    if isinstance(v, Ptr) and E.regions[v.rid].birth >= mark:
        raise Unsupported("line %s: pointer to storage created in the loop" % line)
def selects(e, A):
    """e is A or a value without A, chosen by conditions without A"""
    if isz(e) and e.eq(A):
        return True
    if not hasacc(e, A):
        return True
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        c, a, b = e.children()
        return not hasacc(c, A) and selects(a, A) and selects(b, A)
    return False
def same_shape(E, a, b):
    if len(a.params) != len(b.params) or len(a.coords) != len(b.coords):
        return False
    sb = list(zip(a.params, b.params))
    if any(eqv(subst(x, sb), y) is not True for x, y in zip(a.coords, b.coords)):
        return False
    ca = subst_b(a.cond, sb)
    return (isinstance(ca, bool) and isinstance(b.cond, bool) and ca == b.cond) or (isz(ca) and isz(b.cond) and bsimp(ca == b.cond) is True)
def dsub(E, v, pairs):
    """substitution that also reaches into sum definitions"""
    if not pairs or not (isz(v) or isinstance(v, Ptr)):
        return v
    for p, q in pairs:
        v = deepsub(E, v, p, q)
    return v
def deepsub(E, v, old, new):
    if isinstance(v, Ptr):
        return Ptr(v.rid, v.field, tuple(deepsub(E, x, old, new) for x in v.coords), v.dim, v.ety)
    if not isz(v):
        return v
    new = zi(new)
    # sums whose definition mentions the symbol get it as a parameter first
    if any(old.decl().name() in consts_of(E.sums[a.decl().name()].body) | consts_of(zi(E.sums[a.decl().name()].lo)) and not E.sums[a.decl().name()].tvar.eq(old) for a in E.sum_apps(v)):
        v = Rewriter(E, None, [old])(v)
        if not isz(v):
            return v
    return simp(z3.substitute(v, (old, new)))
def dsb(E, b, old, new):
    if isinstance(b, bool):
        return b
    if any(old.decl().name() in consts_of(E.sums[a.decl().name()].body) for a in E.sum_apps(b)):
        b = Rewriter(E, None, [old]).b(b)
        if isinstance(b, bool):
            return b
    return bsimp(z3.substitute(b, (old, zi(new))))

def decided(E, e, facts, name):
    """drop the branches of conditionals that cannot be taken where the facts hold, as far as they mention a carrier"""
    if not isz(e) or name not in consts_of(e):
        return e
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = e.children()
        if E.prove0(c, facts, 500)[0] is True:
            return decided(E, a, facts, name)
        if E.prove0(z3.Not(c), facts, 500)[0] is True:
            return decided(E, b, facts, name)
    if z3.is_quantifier(e) or not z3.is_app(e) or not e.children():
        return e
    ch = [decided(E, x, facts, name) for x in e.children()]
    if all(x.eq(y) for x, y in zip(ch, e.children())):
        return e
    return simp(z3.substitute(e, *[(x, y) for x, y in zip(e.children(), ch) if not x.eq(y)]))

# ------------------------------------------------------------------ ghost recurrences
class Ghost:
    """g(t0) = init, g(t+1) = step(t, g(t)); components may depend on each other"""
    def __init__(s, comps, t0, init, step, rels=None):
        # comps: list of (name, 'int'|'real'|'bool'); init: tuple; step(t, tuple) -> tuple
        s.comps, s.t0, s.init, s.step = comps, t0, init, step
        s.rels = rels
        srt = {"int": z3.IntSort(), "real": z3.RealSort(), "bool": z3.BoolSort()}
        s.fns = [z3.Function("ghost:%s!%d" % (n, fresh_id()), z3.IntSort(), srt[k]) for n, k in comps]
    def at(s, t):
        return [f(zi(t)) for f in s.fns]
    def initfact(s):
        return band(*[g == (zb(v) if k == "bool" else zr(v) if k == "real" else zi(v)) for g, v, (n, k) in zip(s.at(s.t0), s.init, s.comps)])
    def stepfact(s, t):
        now = s.at(t)
        nxt = s.step(zi(t), now)
        return band(*[g == (zb(v) if k == "bool" else zr(v) if k == "real" else zi(v)) for g, v, (n, k) in zip(s.at(zi(t) + 1), nxt, s.comps)])

def ghosts(E, todo, carriers, paths, nx, exits, S0, k, N, closed, line, arrays, start_sub):
    """carriers without closed form: relations to the specification's ghosts, proved inductive"""
    if exits:
        raise Unsupported("line %s: carrier without closed form in a loop with early exit" % line)
    if any(cr["kind"] != "cell" for cr in todo):
        raise Unsupported("line %s: accumulator without closed form" % line)
    # the ghost's clock is an induction variable of step 1 (or the iteration number)
    clocks = [k]
    for cell, v in closed.items():
        if isz(v) and k.decl().name() in consts_of(v) and sub(subst(v, [(k, k + 1)]), v) == 1:
            clocks.append(v)
    best = None
    cur = {id(cr): cr["A"] for cr in todo}
    nxt = {id(cr): cr["e"] for cr in todo}
    for cr in carriers:
        if cr not in todo and isz(cr["e"]):
            if any(cr2["A"].decl().name() in consts_of(cr["e"]) for cr2 in todo):
                raise Unsupported("line %s: carrier depends on one without closed form" % line)
    for g in E.ghosts:
        for ck in clocks:
            if any(isz(x) and False for x in [ck]):
                continue
            t_at = lambda kk: subst(ck, [(k, zi(kk))]) if isz(ck) else ck
            now, then = g.at(ck), g.at(simp(zi(ck) + 1))
            # base: the ghost at the loop's start is known if its clock starts where the ghost does
            facts0 = [g.initfact()]
            cands = []
            for cr in todo:
                A = cr["A"]
                for i, (nm, kd) in enumerate(g.comps):
                    if kd == "bool":
                        if A.sort() == z3.IntSort():
                            cands.append((cr, lambda a, gs, i=i: (a != 0) == gs[i]))
                            cands.append((cr, lambda a, gs, i=i: (a != 0) == z3.Not(gs[i])))
                            cands.append((cr, lambda a, gs, i=i: z3.Or(a == 0, a == 1)))
                        else:
                            cands.append((cr, lambda a, gs, i=i: a == z3.If(gs[i], zr(1), zr(0))))
                            cands.append((cr, lambda a, gs, i=i: a == z3.If(gs[i], zr(0), zr(1))))
                    elif (kd == "int") == (A.sort() == z3.IntSort()):
                        cands.append((cr, lambda a, gs, i=i: a == gs[i]))
                        for j, (n2, k2) in enumerate(g.comps):
                            if k2 == "bool":
                                cands.append((cr, lambda a, gs, i=i, j=j: z3.Implies(gs[j], a == gs[i])))
            for r in (g.rels or []):
                cands.append((None, lambda a, gs, r=r: r(gs)))
            val0 = {id(cr): (zr(cr["init"]) if cr["A"].sort() == z3.RealSort() else zi(cr["init"])) if isnum(cr["init"]) else cr["A"] for cr in todo}
            # base
            k0 = zi(0)
            g0 = g.at(subst(ck, [(k, k0)]))
            keep = []
            for cr, f in cands:
                if E.prove0(zb(bsimp(f(val0[id(cr)] if cr else None, g0))), S0.pc + facts0, 800)[0] is True:
                    keep.append((cr, f))
            # step
            while keep:
                hyp = [zb(f(cur[id(cr)] if cr else None, now)) for cr, f in keep]
                sf = g.stepfact(ck)
                bad = []
                for cr, f in keep:
                    e = nxt[id(cr)] if cr else None
                    if cr:
                        e = zr(e) if cr["A"].sort() == z3.RealSort() else zi(e)
                    goal = f(e, then)
                    if E.prove0(zb(goal), S0.pc + [k >= 0, k < zi(N), sf] + hyp, 3000)[0] is not True:
                        bad.append((cr, f))
                if not bad:
                    break
                keep = [x for x in keep if x not in bad]
            cover = {id(cr) for cr, f in keep if cr}
            if best is None or len(cover) > best[0]:
                best = (len(cover), g, ck, keep)
    if best is None or best[0] == 0:
        raise Unsupported("line %s: no invariant for %s" % (line, ", ".join(E.regions[cr["cell"][0][0]].name for cr in todo)))
    _, g, ck, keep = best
    E.st.pc.append(g.initfact())
    memo = {}
    for cr in todo:
        cr["how"] = "ghost"
        cr["start"] = cr["A"]
        cr["endat"] = (lambda upto, cr=cr: _end(E, g, ck, k, keep, todo, memo, upto, cr))

def _end(E, g, ck, k, keep, todo, memo, upto, cr):
    kx = str(upto)
    if kx not in memo:
        gs = g.at(subst(ck, [(k, zi(upto))]))
        vals = {id(c2): (E.freal("end") if c2["A"].sort() == z3.RealSort() else E.fint("end")) for c2 in todo}
        for c2, f in keep:
            E.st.pc.append(zb(f(vals[id(c2)] if c2 else None, gs)))
        for v in vals.values():
            E.fold_consts.add(v.decl().name())
        memo[kx] = vals
    return memo[kx][id(cr)]

def generic(E, c, inc, body, n, S0, cells, arrays, syms, mark):
    raise Unsupported("line %s: loop without a recognised trip count" % n.line)


# ---------------------------------------------------------------- loop contracts
class LoopSpec:
    """an invariant and a frame stated by the specification (not inferred):
    modifies: {(rid, field)} the loop may change besides the locals it assigns; inv(E) -> [(name, formula)]"""
    def __init__(s, inv, modifies=(), applies=None, havoc=None, scratch=None):
        s.scratch = scratch or (lambda E: [])      # fields whose value is not kept from one iteration to the next
        s.inv, s.modifies = inv, set(modifies)
        s.applies = applies or (lambda E, c, n: True)
        s.havoc = havoc or (lambda E, key: False)

def assigned(n, out):
    """declarations whose value the statement can change"""
    if n is None:
        return
    t = None
    if n.kind in ("BinaryOperator", "CompoundAssignOperator") and n.op and n.op.endswith("=") and n.op not in ("==", "<=", ">=", "!="):
        t = n.inner[0]
    elif n.kind == "UnaryOperator" and n.op in ("++", "--", "&"):
        t = n.inner[0]
    while t is not None and t.kind == "ParenExpr":
        t = t.inner[0]
    if t is not None and t.kind == "DeclRefExpr":
        out.add(t.rid)
    for c in n.inner:
        assigned(c, out)

def refs(n, out):
    if n is None:
        return
    if n.kind == "DeclRefExpr":
        out.add(n.rid)
    for c in n.inner:
        refs(c, out)

def contract(E, spec, c, inc, body, n):
    from .eng import Layer, Arr, PathEnd
    E.loop_counter, E.loop_ints = None, []
    used, ids = set(), set()
    refs(c, used)
    for x in (c, inc, body):
        assigned(x, ids)
    for did, rid in E.frames[-1]["vars"].items():
        if did in ids and E.P.kind(E.regions[rid].ety) == "int":
            if did in used:
                E.loop_counter = rid
            else:
                E.loop_ints.append(rid)
    E.notes.add("loop contract of %s: the invariant is established, preserved by an arbitrary iteration, and is all that is known after it" % E.frames[-1]["fn"])
    for nm, f in spec.inv(E):
        E.ob("line %s: loop invariant on entry: %s" % (n.line, nm), "inv", f)
    ids = set()
    for x in (c, inc, body):
        assigned(x, ids)
    changed = set(spec.modifies)
    for did, rid in E.frames[-1]["vars"].items():
        if did not in ids:
            continue
        key = (rid, ())
        changed.add(key)
        ety = E.regions[rid].ety
        k = E.P.kind(ety)
        nm = E.regions[rid].name
        if k not in ("int", "real"):
            raise Unsupported("loop contract: %s changes" % nm)
        v = E.fint(nm) if k == "int" else E.freal(nm)
        E.st.mem[key] = Arr(lambda co: Poison("local"), (Layer((), True, (0,), v),))
    for key in spec.scratch(E):
        changed.add(key)
        E.st.mem[key] = Arr(lambda co: Poison("not kept by the loop contract"))
    for key in spec.modifies:
        if spec.havoc(E, key):
            continue
        rid, field = key
        R = E.regions[rid]
        a = E.st.mem.get(key)
        ncell = max([len(l.coords) for l in a.layers] + [R.ncoord + 0]) if a is not None and a.layers else None
        ety = R.ety
        for f in field:
            fl = dict(E.P.records[E.P.resolve(ety)])
            ety = fl[f]
        k = E.P.kind(ety)
        nc = R.ncoord
        if k == "array":
            ety = E.P.elem(ety)[0]
            k = E.P.kind(ety)
            nc += 1
        if k not in ("int", "real"):
            raise Unsupported("loop contract: cell kind of %s" % (key,))
        f = E.ffun(R.name + "." + ".".join(field), nc, z3.IntSort() if k == "int" else z3.RealSort())
        E.st.mem[key] = Arr(lambda co, f=f: f(*[x if isz(x) else z3.IntVal(x) for x in co]))
    for nm, f in spec.inv(E):
        E.assume(f)
    if c is not None:
        v = E.cond(c)
        if not E.branch(v):
            return
    m0 = dict(E.st.mem)
    dead0 = dict(E.st.dead)
    try:
        E.ex(body)
    except Brk:
        return
    except Cont:
        pass
    if inc is not None:
        E.ev(inc)
    for key, a in E.st.mem.items():
        o = m0.get(key)
        if o is None or key in changed:
            continue
        if a is not o and a.layers != o.layers:
            if E.regions[key[0]].kind == "local" and key[0] not in E.frames[-1]["vars"].values():
                continue
            raise Unsupported("loop contract: %s%s changes in the loop" % (E.regions[key[0]].name, "." + ".".join(key[1]) if key[1] else ""))
    if set(E.st.dead) != set(dead0):
        raise Unsupported("loop contract: the loop frees an object")
    for nm, f in spec.inv(E):
        E.ob("line %s: loop invariant preserved: %s" % (n.line, nm), "inv", f)
    raise PathEnd()
