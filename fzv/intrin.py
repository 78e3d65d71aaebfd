"""Intrinsic procedures and operators, over exact integers and reals."""
import z3
from fractions import Fraction
from .core import *

def sc_int(n):
    return Sc("integer", iv(n))

NAMED = {}
for n, v in dict(real64=8, int32=4, int64=8, real32=4, c_double=8, c_int=4, c_long=8, c_float=4, int8=1, int16=2,
                 c_size_t=8, c_bool=1, c_char=1, real128=16, output_unit=6, error_unit=0, input_unit=5).items():
    NAMED[n] = sc_int(v)
NAMED["c_null_ptr"] = Struct("c_ptr", {"addr": NULL})

def as_real(v):
    if isinstance(v, Bits) or isinstance(v, BaseCell):
        return z3.ToReal(v.t)
    if not isinstance(v, Sc):
        raise Unsupported("real value expected, got %r" % (v,))
    if v.typ == "integer":
        c = cint(v.t)
        return rv(c) if c is not None else z3.ToReal(v.t)
    if v.typ != "real":
        raise Unsupported("real value expected")
    return v.t

def as_int(v):
    if isinstance(v, BaseCell):
        return v.t
    if isinstance(v, Bits):
        raise Unsupported("half of a real used as an integer")
    if isinstance(v, Sc) and v.typ == "integer":
        return v.t
    raise Unsupported("integer value expected, got %r" % (v,))

def tnum(v):
    if isinstance(v, BaseCell):
        return Sc("integer", v.t)
    return v

# ------------------------------------------------------------------ element-wise lifting
def elementwise(ip, fn, vals, rtyp=None):
    arrs = [v for v in vals if isinstance(v, Arr)]
    vals = [ip.as_value(v) if not isinstance(v, Arr) else v for v in vals]
    if not arrs:
        return fn(*vals)
    b = arrs[0]
    for a in arrs[1:]:
        if a.rank != b.rank:
            raise Unsupported("rank mismatch in expression")
        for n1, n2 in zip(b.extents(), a.extents()):
            if not same(n1, n2):
                ip.e.oblige(n1 == n2, "conformable arrays in expression", "shape")
    def get(idx):
        return fn(*[ip.as_value(v.get(idx)) if isinstance(v, Arr) else v for v in vals])
    el = rtyp
    if el is None:
        el = guess_type(vals, fn)
    return Arr.base(ip.e, (el, None), b.extents(), get)

def guess_type(vals, fn):
    t = getattr(fn, "rtyp", None)
    if t:
        return t
    r = "integer"
    for v in vals:
        x = v.elem[0] if isinstance(v, Arr) else getattr(v, "typ", None)
        if x == "real":
            r = "real"
        elif x == "logical" and r == "integer":
            r = "logical"
    return r

def unop(ip, op, a):
    if op == "-":
        return Sc(a.typ, -as_real(a)) if a.typ == "real" else Sc("integer", norm(-as_int(a)))
    if op == "+":
        return a
    if op == ".not.":
        return Sc("logical", z3.Not(a.t))
    raise Unsupported("unary " + op)

CMP = {"==": lambda a, b: a == b, "/=": lambda a, b: a != b, "<": lambda a, b: a < b,
       "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b}

def int_div(ip, a, b):
    """truncating integer division"""
    bc, ac = cint(b), cint(a)
    if bc == 0:
        ip.e.fail("integer division by zero", "", "bounds")
        raise Infeasible()
    if ac is not None and bc is not None:
        q = abs(ac) // abs(bc)
        return iv(q if (ac < 0) == (bc < 0) else -q)
    if bc is not None and bc > 0:
        ds = divstruct(a, bc)
        if ds is not None and ds[1] == 0:
            return ds[0]
        if ip.e.entails(a >= 0):
            if ds is not None:
                return ds[0]
            return a / iv(bc)
        return z3.If(a >= 0, a / iv(bc), -((-a) / iv(bc)))
    ip.e.oblige(b != 0, "integer division by zero", "bounds")
    return z3.If(z3.And(a >= 0, b > 0), a / b, ip.e.fresh("havoc_div"))

def pow_int(x, n):
    r = None
    for _ in range(abs(n)):
        r = x if r is None else r * x
    if r is None:
        return rv(1)
    return r if n > 0 else rv(1) / r

def rpow(x, y):
    """real ** real"""
    y = z3.simplify(y)
    if z3.is_rational_value(y):
        f = Fraction(y.numerator_as_long(), y.denominator_as_long())
        if f.denominator == 1 and abs(f.numerator) <= 8:
            return pow_int(x, f.numerator)
        if f == Fraction(1, 2):
            return app("sqrt", x)
        if f == Fraction(-1, 2):
            return rv(1) / app("sqrt", x)
    return app("pow", x, y)

def binop(ip, op, a, b):
    if op in (".and.", ".or.", ".eqv.", ".neqv."):
        f = {".and.": z3.And, ".or.": z3.Or, ".eqv.": lambda x, y: x == y, ".neqv.": lambda x, y: x != y}[op]
        return Sc("logical", f(a.t, b.t))
    if op == "//":
        return Sc("character", "?")
    if getattr(a, "typ", None) == "character" or getattr(b, "typ", None) == "character":
        raise Unsupported("character operation")
    if getattr(a, "typ", None) == "logical" or getattr(b, "typ", None) == "logical":
        raise Unsupported("operator %s on logicals" % op)
    real = "real" in (getattr(a, "typ", None), getattr(b, "typ", None))
    if op in CMP:
        if real:
            return Sc("logical", CMP[op](as_real(a), as_real(b)))
        return Sc("logical", CMP[op](as_int(a), as_int(b)))
    if real:
        if op == "**" and getattr(b, "typ", None) == "integer":
            n = cint(as_int(b))
            if n is not None and abs(n) <= 8:
                return Sc("real", pow_int(as_real(a), n))
            return Sc("real", app("pow", as_real(a), as_real(b)))
        x, y = as_real(a), as_real(b)
        if op == "+":
            return Sc("real", x + y)
        if op == "-":
            return Sc("real", x - y)
        if op == "*":
            return Sc("real", x * y)
        if op == "/":
            ip.e.note_div(y)
            return Sc("real", x / y)
        if op == "**":
            return Sc("real", rpow(x, y))
    x, y = as_int(a), as_int(b)
    if op == "+":
        return Sc("integer", norm(x + y))
    if op == "-":
        return Sc("integer", norm(x - y))
    if op == "*":
        return Sc("integer", norm(x * y))
    if op == "/":
        return Sc("integer", norm(int_div(ip, x, y)))
    if op == "**":
        n, m = cint(y), cint(x)
        if n is not None and 0 <= n <= 6:
            r = iv(1)
            for _ in range(n):
                r = r * x
            return Sc("integer", norm(r))
    raise Unsupported("operator " + op)

for _o in CMP:
    pass

# ------------------------------------------------------------------ helpers
def scal(v):
    return v
def vals(ip, acts):
    return [a.val() if hasattr(a, "val") else a for a in acts]

def real1(name, special=None):
    def f(ip, pos, kw):
        (v,) = vals(ip, pos)
        def g(x):
            t = as_real(x)
            if special is not None:
                s = special(ip, t)
                if s is not None:
                    return Sc("real", s)
            return Sc("real", app(name, t))
        g.rtyp = "real"
        return elementwise(ip, g, [v])
    return f

def num(t):
    t = z3.simplify(t)
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    return None

def sp_atan(ip, t):
    c = num(t)
    if c == 1:
        return PI / 4
    if c == 0:
        return rv(0)
def sp_exp(ip, t):
    if ip.exp_hook:
        ip.exp_hook(t)
    c = num(t)
    if c == 0:
        return rv(1)
def sp_log(ip, t):
    if num(t) == 1:
        return rv(0)
def sp_sqrt(ip, t):
    c = num(t)
    if c == 1:
        return rv(1)
    if c == 0:
        return rv(0)

TABLE = {}
for n in ("sin", "cos", "tan", "asin", "acos", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "erf", "erfc"):
    TABLE[n] = real1(n)
TABLE["gamma"] = real1("gamma")
TABLE["log_gamma"] = real1("lgamma")
TABLE["atan"] = real1("atan", sp_atan)
TABLE["exp"] = real1("exp", sp_exp)
TABLE["log"] = real1("log", sp_log)
TABLE["sqrt"] = real1("sqrt", sp_sqrt)
for n in list(TABLE):
    TABLE["d" + n] = TABLE[n]

def t(name):
    def deco(f):
        TABLE[name] = f
        return f
    return deco

def lift(fn, rtyp=None):
    if rtyp:
        fn.rtyp = rtyp
    def f(ip, pos, kw):
        return elementwise(ip, lambda *a: fn(ip, *a), vals(ip, pos), rtyp)
    return f

def f_abs(ip, x):
    if x.typ == "real":
        return Sc("real", z3.If(x.t >= 0, x.t, -x.t))
    x = tnum(x)
    return Sc("integer", z3.If(x.t >= 0, x.t, -x.t))
TABLE["abs"] = TABLE["dabs"] = lift(f_abs)

def f_sign(ip, a, b):
    if a.typ == "real":
        y = as_real(b)
        m = z3.If(a.t >= 0, a.t, -a.t)
        return Sc("real", z3.If(y >= 0, m, -m))
    m = z3.If(a.t >= 0, a.t, -a.t)
    return Sc("integer", z3.If(b.t >= 0, m, -m))
TABLE["sign"] = lift(f_sign)

def minmax(lt):
    def g(ip, *a):
        if any(getattr(x, "typ", "") == "real" for x in a):
            r = as_real(a[0])
            for x in a[1:]:
                y = as_real(x)
                r = z3.If(y < r if lt else y > r, y, r)
            return Sc("real", r)
        r = as_int(a[0])
        for x in a[1:]:
            y = as_int(x)
            cc = cint(y - r)
            if cc is not None:
                r = y if (cc < 0) == lt else r
                continue
            if ip.e.entails(y >= r):
                r = r if lt else y
            elif ip.e.entails(y <= r):
                r = y if lt else r
            else:
                r = z3.If(y < r if lt else y > r, y, r)
        return Sc("integer", r)
    return lift(g)
TABLE["max"] = minmax(False)
TABLE["min"] = minmax(True)

def trunc(x):
    return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
TABLE["int"] = lambda ip, pos, kw: elementwise(ip, lambda x: Sc("integer", trunc(x.t)) if x.typ == "real" else tnum(x), vals(ip, pos[:1]), "integer")
TABLE["nint"] = lambda ip, pos, kw: elementwise(ip, lambda x: Sc("integer", z3.If(as_real(x) >= 0, z3.ToInt(as_real(x) + rv("0.5")), -z3.ToInt(-as_real(x) + rv("0.5")))), vals(ip, pos[:1]), "integer")
TABLE["floor"] = lambda ip, pos, kw: elementwise(ip, lambda x: Sc("integer", z3.ToInt(as_real(x))), vals(ip, pos[:1]), "integer")
TABLE["ceiling"] = lambda ip, pos, kw: elementwise(ip, lambda x: Sc("integer", -z3.ToInt(-as_real(x))), vals(ip, pos[:1]), "integer")
TABLE["real"] = TABLE["dble"] = lambda ip, pos, kw: elementwise(ip, lambda x: Sc("real", as_real(x)), vals(ip, pos[:1]), "real")
TABLE["aint"] = lambda ip, pos, kw: elementwise(ip, lambda x: Sc("real", z3.ToReal(trunc(as_real(x)))), vals(ip, pos[:1]), "real")

def f_mod(ip, a, b):
    if a.typ == "real":
        raise Unsupported("real mod")
    q = int_div(ip, as_int(a), as_int(b))
    return Sc("integer", norm(as_int(a) - q * as_int(b)))
TABLE["mod"] = lift(f_mod)

def f_hypot(ip, a, b):
    x, y = as_real(a), as_real(b)
    return Sc("real", app("sqrt", x * x + y * y))
TABLE["hypot"] = lift(f_hypot, "real")

@t("merge")
def _(ip, pos, kw):
    a, b, m = vals(ip, pos)
    if isinstance(m, Sc) and not isinstance(a, Arr) and not isinstance(b, Arr):
        mm = z3.simplify(m.t)
        if z3.is_true(mm) or ip.e.entails(mm):
            return a
        if z3.is_false(mm) or ip.e.entails(z3.Not(mm)):
            return b
        if isinstance(a, Struct):
            return a if ip.e.decide(mm) else b
    return elementwise(ip, lambda x, y, c: Sc(x.typ, z3.If(c.t, x.t, y.t)), [a, b, m], a.elem[0] if isinstance(a, Arr) else None if not isinstance(b, Arr) else b.elem[0])

# ------------------------------------------------------------------ inquiry
def get_arr(ip, a):
    v = a.val()
    if isinstance(v, Unalloc):
        return v
    if not isinstance(v, Arr):
        raise Unsupported("array expected")
    return v

@t("size")
def _(ip, pos, kw):
    v = get_arr(ip, pos[0])
    d = pos[1].val() if len(pos) > 1 else kw["dim"].val() if "dim" in kw else None
    if isinstance(v, Unalloc):
        ip.e.fail("size of an unallocated array", "", "bounds")
        raise Infeasible()
    if d is None:
        return Sc("integer", v.size())
    return Sc("integer", v.extents()[cint(d.t) - 1])

@t("shape")
def _(ip, pos, kw):
    v = get_arr(ip, pos[0])
    ext = v.extents()
    def get(idx):
        c = cint(idx[0])
        if c is None:
            for q in range(1, len(ext) + 1):
                if q == len(ext) or ip.e.decide(idx[0] == q):
                    c = q
                    break
        return Sc("integer", ext[c - 1])
    return Arr.base(ip.e, ("integer", None), [iv(len(ext))], get)

@t("lbound")
def _(ip, pos, kw):
    v = get_arr(ip, pos[0])
    d = pos[1].val() if len(pos) > 1 else kw.get("dim") and kw["dim"].val()
    if d is None:
        if v.rank != 1:
            raise Unsupported("lbound without dim")
        return Arr.base(ip.e, ("integer", None), [iv(1)], lambda i: Sc("integer", v.dims[0][0]))
    return Sc("integer", v.dims[cint(d.t) - 1][0])

@t("ubound")
def _(ip, pos, kw):
    v = get_arr(ip, pos[0])
    d = pos[1].val() if len(pos) > 1 else kw.get("dim") and kw["dim"].val()
    if d is None:
        if v.rank != 1:
            raise Unsupported("ubound without dim")
        return Arr.base(ip.e, ("integer", None), [iv(1)], lambda i: Sc("integer", norm(v.dims[0][0] + v.dims[0][1] - 1)))
    l, n = v.dims[cint(d.t) - 1]
    return Sc("integer", norm(l + n - 1))

@t("allocated")
def _(ip, pos, kw):
    return Sc("logical", z3.BoolVal(not isinstance(pos[0].val(), Unalloc)))
@t("present")
def _(ip, pos, kw):
    v = ip.read(pos[0].ref) if pos[0].ref is not None else pos[0].val()
    return Sc("logical", z3.BoolVal(not isinstance(v, Null)))
@t("associated")
def _(ip, pos, kw):
    v = ip.read(pos[0].ref) if pos[0].ref is not None else pos[0].val()
    if isinstance(v, Undef):
        ip.e.fail("associated() of an undefined pointer", "", "bounds")
        raise Infeasible()
    return Sc("logical", z3.BoolVal(not isinstance(v, Null)))
@t("c_associated")
def _(ip, pos, kw):
    v = pos[0].val()
    return Sc("logical", z3.BoolVal(not (isinstance(v, Struct) and isinstance(v.f.get("addr"), Null))))
TABLE["huge"] = lambda ip, pos, kw: Sc("real", HUGE) if vt(pos[0]) == "real" else sc_int(2147483647)
TABLE["tiny"] = lambda ip, pos, kw: Sc("real", TINY)
TABLE["epsilon"] = lambda ip, pos, kw: Sc("real", z3.Q(1, 2 ** 52))
TABLE["kind"] = lambda ip, pos, kw: sc_int(8)
def vt(a):
    v = a.val()
    return v.elem[0] if isinstance(v, Arr) else v.typ
@t("c_loc")
def _(ip, pos, kw):
    return Struct("c_ptr", {"addr": pos[0].ref})
@t("c_funloc")
def _(ip, pos, kw):
    v = pos[0].val()
    return Struct("c_funptr", {"addr": v})
@t("int64")
def _(ip, pos, kw):
    return tnum(pos[0].val())

# ------------------------------------------------------------------ transfer
def int_real_at(v, p):
    if isinstance(v.src, tuple) and v.src and isinstance(v.src[0], Arr) and len(v.layers) == 1:
        return v.src[0].real_at(norm(p + v.src[1]))
    return v.real_at(p)

def halves(ip, rget, n):
    e = ip.e
    def get(idx):
        off = norm(idx[0] - 1)
        ds = divstruct(off, 2)
        if ds is not None:
            return Bits(ds[1], rget(norm(ds[0] + 1)))
        q = e.fresh("half")
        e.add(q >= 0, q < n)
        if e.decide(off == 2 * q):
            return Bits(0, rget(norm(q + 1)))
        e.add(off == 2 * q + 1)
        return Bits(1, rget(norm(q + 1)))
    return Arr.base(e, ("integer", None), [norm(2 * n)], get, None, ("realbits", rget))

@t("transfer")
def _(ip, pos, kw):
    src, mold = pos[0].val(), pos[1].val()
    e = ip.e
    size = pos[2].val().t if len(pos) > 2 else None
    st = src.elem[0] if isinstance(src, Arr) else src.typ
    mt = mold.elem[0] if isinstance(mold, (Arr, Unalloc)) else mold.typ
    if st == "real" and mt == "integer":
        if isinstance(src, Arr):
            from .interp import flatten
            fl = flatten(e, src)
            return halves(ip, lambda j: fl.get((j,)).t, fl.extents()[0])
        d = as_real(src)
        if not isinstance(mold, (Arr, Unalloc)) and size is None:
            raise Unsupported("transfer of a real to one integer")
        return halves(ip, lambda j: d, iv(1))
    if st == "integer" and mt == "real":
        if isinstance(src, Arr):
            n2 = src.extents()[0]
            if not isinstance(mold, Arr) and size is None:
                e.oblige(n2 >= 2, "transfer source holds a real", "bounds")
                return Sc("real", int_real_at(src, iv(1)))
            ds = divstruct(n2, 2)
            if ds is None or ds[1] != 0:
                n = e.fresh("n")
                e.oblige(z3.Or(n2 == 2 * (n2 / 2)), "transfer source holds whole reals", "bounds")
                e.add(n2 == 2 * n)
            else:
                n = ds[0]
            if size is not None:
                e.oblige(size <= n, "transfer size", "bounds")
                n = size
            return Arr.base(e, ("real", None), [n], lambda idx: Sc("real", int_real_at(src, norm(2 * (idx[0] - 1) + 1))))
        e.notes.add("transfer of an integer constant to a real taken as an unspecified (NaN) constant")
        return Sc("real", NAN)
    if st == mt:
        return src
    raise Unsupported("transfer %s to %s" % (st, mt))

# ------------------------------------------------------------------ reductions
@t("sum")
def _(ip, pos, kw):
    v = pos[0].val()
    if len(pos) > 1 or kw:
        raise Unsupported("sum with dim/mask")
    from .interp import flatten
    v = flatten(ip.e, v)
    n = v.extents()[0]
    if v.elem[0] == "integer":
        c = cint(n)
        if c is None:
            raise Unsupported("integer sum of symbolic length")
        r = iv(0)
        for q in range(c):
            r = r + as_int(v.get((iv(q + 1),)))
        return Sc("integer", norm(r))
    return Sc("real", ip.e.mksum(n, lambda j: as_real(ip.as_value(v.get((j,)))), "sum"))

@t("product")
def _(ip, pos, kw):
    v = pos[0].val()
    c = cint(v.size())
    if c is None or v.rank != 1:
        raise Unsupported("product of symbolic length")
    r = rv(1) if v.elem[0] == "real" else iv(1)
    for q in range(c):
        x = v.get((iv(q + 1),))
        r = r * (as_real(x) if v.elem[0] == "real" else as_int(x))
    return Sc(v.elem[0], r)

@t("norm2")
def _(ip, pos, kw):
    v = pos[0].val()
    from .interp import flatten
    v = flatten(ip.e, v)
    def g(j):
        x = as_real(ip.as_value(v.get((j,))))
        return x * x
    return Sc("real", app("sqrt", ip.e.mksum(v.extents()[0], g, "sum", nonneg=True)))

@t("dot_product")
def _(ip, pos, kw):
    a, b = vals(ip, pos)
    ip.e.oblige(a.extents()[0] == b.extents()[0], "dot_product shapes", "shape")
    return Sc("real", ip.e.mksum(a.extents()[0], lambda j: as_real(ip.as_value(a.get((j,)))) * as_real(ip.as_value(b.get((j,)))), "sum"))

@t("matmul")
def _(ip, pos, kw):
    a, b = vals(ip, pos)
    e = ip.e
    if a.rank == 2 and b.rank == 2:
        e.oblige(a.extents()[1] == b.extents()[0], "matmul shapes", "shape")
        def get(idx):
            i, j = idx
            return Sc("real", e.mksum(a.extents()[1], lambda k: as_real(a.get((i, k))) * as_real(b.get((k, j))), "sum"))
        return Arr.base(e, ("real", None), [a.extents()[0], b.extents()[1]], get)
    if a.rank == 2 and b.rank == 1:
        e.oblige(a.extents()[1] == b.extents()[0], "matmul shapes", "shape")
        return Arr.base(e, ("real", None), [a.extents()[0]], lambda idx: Sc("real", e.mksum(a.extents()[1], lambda k: as_real(a.get((idx[0], k))) * as_real(b.get((k,))), "sum")))
    if a.rank == 1 and b.rank == 2:
        e.oblige(a.extents()[0] == b.extents()[0], "matmul shapes", "shape")
        return Arr.base(e, ("real", None), [b.extents()[1]], lambda idx: Sc("real", e.mksum(a.extents()[0], lambda k: as_real(a.get((k,))) * as_real(b.get((k, idx[0]))), "sum")))
    raise Unsupported("matmul ranks")

@t("transpose")
def _(ip, pos, kw):
    a = pos[0].val()
    return Arr.base(ip.e, a.elem, [a.extents()[1], a.extents()[0]], lambda idx: a.get((idx[1], idx[0])))

def maxmin(kind):
    def f(ip, pos, kw):
        v = pos[0].val()
        if len(pos) > 1 or kw:
            raise Unsupported("maxval with dim/mask")
        from .interp import flatten
        v = flatten(ip.e, v)
        if v.elem[0] != "real":
            c = cint(v.extents()[0])
            if c is None or c < 1:
                raise Unsupported("integer maxval")
            r = as_int(v.get((iv(1),)))
            for q in range(2, c + 1):
                y = as_int(v.get((iv(q),)))
                r = z3.If(y > r if kind == "max" else y < r, y, r)
            return Sc("integer", r)
        return Sc("real", ip.e.mkmax(v.extents()[0], lambda j: as_real(ip.as_value(v.get((j,)))), kind))
    return f
TABLE["maxval"] = maxmin("max")
TABLE["minval"] = maxmin("min")

def anyall(kind):
    def f(ip, pos, kw):
        v = pos[0].val()
        n = cint(v.size())
        if v.rank == 1 and n is not None and n <= 40:
            cs = [v.get((iv(q + 1),)).t for q in range(n)]
            return Sc("logical", z3.And(cs) if kind == "all" else z3.Or(cs))
        from .interp import flatten
        v = flatten(ip.e, v)
        return Sc("logical", ip.e.mkquant(kind, v.extents()[0], lambda j: v.get((j,)).t))
    return f
TABLE["any"] = anyall("any")
TABLE["all"] = anyall("all")

@t("spread")
def _(ip, pos, kw):
    src = pos[0].val()
    d = (pos[1] if len(pos) > 1 else kw["dim"]).val()
    nc = (pos[2] if len(pos) > 2 else kw["ncopies"]).val().t
    dc = cint(d.t)
    if isinstance(src, Arr) and src.rank == 1:
        n = src.extents()[0]
        ext = [nc, n] if dc == 1 else [n, nc]
        return Arr.base(ip.e, src.elem, ext, lambda idx: src.get((idx[1] if dc == 1 else idx[0],)))
    if not isinstance(src, Arr):
        from .interp import elem_type
        return Arr.base(ip.e, elem_type(src), [nc], lambda idx: src)
    raise Unsupported("spread")

@t("reshape")
def _(ip, pos, kw):
    src, shp = pos[0].val(), pos[1].val()
    c = cint(shp.extents()[0])
    ext = [as_int(shp.get((iv(q + 1),))) for q in range(c)]
    from .interp import flatten
    fl = flatten(ip.e, src)
    tot = iv(1)
    for x in ext:
        tot = tot * x
    ip.e.oblige(norm(tot) <= fl.extents()[0], "reshape size", "shape")
    if c == 1:
        return Arr.base(ip.e, src.elem, ext, lambda idx: fl.get(idx))
    if c == 2:
        return Arr.base(ip.e, src.elem, ext, lambda idx: fl.get((norm(idx[0] + (idx[1] - 1) * ext[0]),)))
    raise Unsupported("reshape rank")

# ------------------------------------------------------------------ intrinsic subroutines
def s_move_alloc(ip, args):
    if len(args) != 2:
        raise Unsupported("move_alloc")
    fr, to = ip.lval(args[0]), ip.lval(args[1])
    v = ip.read(fr)
    if isinstance(v, Unalloc):
        old = ip.read(to)
        ip.write(to, Unalloc(v.elem, v.rank))
        return
    ip.write(to, v)
    ip.write(fr, Unalloc(v.elem, v.rank))

def s_c_f_pointer(ip, args):
    v = ip.ev(args[0])
    tgt = v.f.get("addr") if isinstance(v, Struct) else None
    if not isinstance(tgt, Ref):
        raise Unsupported("c_f_pointer of an unknown address")
    ip.ptr_write(args[1], tgt)

SUBS = {"move_alloc": s_move_alloc, "c_f_pointer": s_c_f_pointer}
