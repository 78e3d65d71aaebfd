"""Specification tables: value and partial derivatives of every operator, as mathematics (independent of the code)."""
import z3
from .core import *
from .harness import Op

F = app
HALF = rv("0.5")
def sq(x):
    return x * x
def zabs(x):
    return z3.If(x >= 0, x, -x)
def sig(x):
    return 1 / (1 + F("exp", -x))

# name: (value, derivative, domain where differentiable)
UNARY = {
    "sin": (lambda a: F("sin", a), lambda a: F("cos", a), None),
    "cos": (lambda a: F("cos", a), lambda a: -F("sin", a), None),
    "tan": (lambda a: F("tan", a), lambda a: 1 / sq(F("cos", a)), lambda a: F("cos", a) != 0),
    "asin": (lambda a: F("asin", a), lambda a: 1 / F("sqrt", 1 - a * a), lambda a: z3.And(a > -1, a < 1)),
    "acos": (lambda a: F("acos", a), lambda a: -1 / F("sqrt", 1 - a * a), lambda a: z3.And(a > -1, a < 1)),
    "atan": (lambda a: F("atan", a), lambda a: 1 / (1 + a * a), None),
    "sinh": (lambda a: F("sinh", a), lambda a: F("cosh", a), None),
    "cosh": (lambda a: F("cosh", a), lambda a: F("sinh", a), None),
    "tanh": (lambda a: F("tanh", a), lambda a: 1 / sq(F("cosh", a)), None),
    "asinh": (lambda a: F("asinh", a), lambda a: 1 / F("sqrt", a * a + 1), None),
    "acosh": (lambda a: F("acosh", a), lambda a: 1 / F("sqrt", a * a - 1), lambda a: a > 1),
    "atanh": (lambda a: F("atanh", a), lambda a: 1 / (1 - a * a), lambda a: z3.And(a > -1, a < 1)),
    "exp": (lambda a: F("exp", a), lambda a: F("exp", a), None),
    "log": (lambda a: F("log", a), lambda a: 1 / a, lambda a: a > 0),
    "sqrt": (lambda a: F("sqrt", a), lambda a: 1 / (2 * F("sqrt", a)), lambda a: a > 0),
    "square": (lambda a: a * a, lambda a: 2 * a, None),
    "inv": (lambda a: 1 / a, lambda a: -1 / (a * a), lambda a: a != 0),
    "inv_square": (lambda a: 1 / (a * a), lambda a: -2 / (a * a * a), lambda a: a != 0),
    "inv_sqrt": (lambda a: 1 / F("sqrt", a), lambda a: -1 / (2 * a * F("sqrt", a)), lambda a: a > 0),
    "logit": (lambda a: F("log", a / (1 - a)), lambda a: 1 / (a * (1 - a)), lambda a: z3.And(a > 0, a < 1)),
    "inv_logit": (lambda a: sig(a), lambda a: sig(a) * (1 - sig(a)), None),
    "erf": (lambda a: F("erf", a), lambda a: 2 / F("sqrt", PI) * F("exp", -(a * a)), None),
    "erfc": (lambda a: F("erfc", a), lambda a: -2 / F("sqrt", PI) * F("exp", -(a * a)), None),
    "abs": (lambda a: zabs(a), lambda a: z3.If(a > 0, rv(1), rv(-1)), lambda a: a != 0),
}

# where the library deliberately returns an approximation: the result may differ by a relative error of 4*tiny(1d0) < 1e-307
NEAR = {"inv_logit": lambda a: a < F("log", TINY)}

def unary_ops():
    return [Op(n, "%s(a)" % n, [("a", "v")], v, {"a": d}, dom, near=NEAR.get(n)) for n, (v, d, dom) in UNARY.items()]

def binop(sym):
    return "a %s b" % sym

BINARY = {
    "add": ("a + b", lambda a, b: a + b, lambda a, b: rv(1), lambda a, b: rv(1), None, None),
    "sub": ("a - b", lambda a, b: a - b, lambda a, b: rv(1), lambda a, b: rv(-1), None, None),
    "mul": ("a * b", lambda a, b: a * b, lambda a, b: b, lambda a, b: a, None, None),
    "div": ("a / b", lambda a, b: a / b, lambda a, b: 1 / b, lambda a, b: -a / (b * b), lambda a, b: b != 0, None),
    "pow": ("a ** b", lambda a, b: F("pow", a, b), lambda a, b: b * F("pow", a, b) / a, lambda a, b: F("log", a) * F("pow", a, b),
            lambda a, b: a > 0, None),
    "hypot": ("hypot(a, b)", lambda a, b: F("sqrt", a * a + b * b), lambda a, b: a / F("sqrt", a * a + b * b),
              lambda a, b: b / F("sqrt", a * a + b * b), None, lambda a, b: z3.Or(a != 0, b != 0)),
}

def binary_ops():
    out = []
    for n, (ex, v, da, db, dom, pdom) in BINARY.items():
        for ka, kb in (("v", "v"), ("v", "d"), ("d", "v")):
            out.append(Op("%s_%s%s" % (n, ka, kb), ex, [("a", ka), ("b", kb)], v, {"a": da, "b": db}, dom, pdom))
        # both operands the same variable
        out.append(Op("%s_same" % n, ex.replace("b", "a") if n != "abs" else ex, [("a", "v")],
                      (lambda v: lambda a: v(a, a))(v), {"a": (lambda da, db: lambda a: da(a, a) + db(a, a))(da, db)},
                      (lambda d: (lambda a: d(a, a)) if d else None)(dom), (lambda d: (lambda a: d(a, a)) if d else None)(pdom)))
    out.append(Op("neg", "-a", [("a", "v")], lambda a: -a, {"a": lambda a: rv(-1)}))
    out.append(Op("pos", "+a", [("a", "v")], lambda a: a, {"a": lambda a: rv(1)}))
    return out

CMP = {"==": lambda a, b: a == b, "/=": lambda a, b: a != b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b}
CMPN = {"==": "eq", "/=": "ne", "<": "lt", "<=": "le", ">": "gt", ">=": "ge"}

def cmp_ops():
    out = []
    for s, f in CMP.items():
        for ka, kb in (("v", "v"), ("v", "d"), ("d", "v")):
            out.append(Op("cmp_%s_%s%s" % (CMPN[s], ka, kb), "a %s b" % s, [("a", ka), ("b", kb)], f, {}, result="logical"))
        out.append(Op("cmp_%s_same" % CMPN[s], "a %s a" % s, [("a", "v")], (lambda f: lambda a: f(a, a))(f), {}, result="logical"))
    return out

from .harness import AOp
def red_ops():
    S = lambda E, f: E.e.mksum(E.n["n"], f)
    n1 = lambda E: E.n["n"] >= 1
    out = []
    out.append(AOp("sum", "sum(a)", [("a", "va")], lambda E: S(E, lambda j: E.x["a"](j)), lambda E, n, j: rv(1)))
    def norm(E):
        return F("sqrt", S(E, lambda j: E.x["a"](j) * E.x["a"](j)))
    out.append(AOp("norm2", "norm2(a)", [("a", "va")], norm, lambda E, n, j: E.x["a"](j) / E.res, pdom=lambda E: E.e.add(E.res != 0)))
    out.append(AOp("dot_vv", "dot_product(a, b)", [("a", "va"), ("b", "va")], lambda E: S(E, lambda j: E.x["a"](j) * E.x["b"](j)),
                   lambda E, n, j: E.x["b" if n == "a" else "a"](j)))
    out.append(AOp("dot_vd", "dot_product(a, b)", [("a", "va"), ("b", "da")], lambda E: S(E, lambda j: E.x["a"](j) * E.x["b"](j)),
                   lambda E, n, j: E.x["b"](j)))
    out.append(AOp("dot_dv", "dot_product(a, b)", [("a", "da"), ("b", "va")], lambda E: S(E, lambda j: E.x["a"](j) * E.x["b"](j)),
                   lambda E, n, j: E.x["a"](j)))
    def lse(E, r):
        E.e.goal(F("exp", r) == S(E, lambda j: F("exp", E.x["a"](j))), "[value] exp(log_sum_exp(x)) is the sum of exp(x)")
    out.append(AOp("log_sum_exp", "log_sum_exp(a)", [("a", "va")], None, lambda E, n, j: F("exp", E.x["a"](j) - E.res), lens=n1, check_val=lse,
                   dom=lambda E: E.e.add_forall(lambda t: z3.And(E.x["a"](t) <= HUGE, E.x["a"](t) >= -HUGE))))
    return out

def part_ops():
    return [AOp("var_with_partials", "var_with_partials(v, a, p)", [("v", "d"), ("a", "va"), ("p", "da")], lambda E: E.x["v"], lambda E, n, j: E.x["p"](j))]

def lpdf_ops():
    out = []
    for nm in ("normal", "lognormal"):
        T = (lambda E, j: E.x["y"](j)) if nm == "normal" else (lambda E, j: F("log", E.x["y"](j)))
        def z(E, j, T=T):
            return (T(E, j) - E.x["mu"]) / E.x["sigma"]
        def val(E, z=z, T=T, nm=nm):
            return E.e.mksum(E.n["n"], lambda j: -HALF * z(E, j) * z(E, j) - F("log", E.x["sigma"]) - HALF * F("log", 2 * PI) - (T(E, j) if nm == "lognormal" else 0))
        def part(E, n, j=None, z=z):
            if n == "mu":
                return E.e.mksum(E.n["n"], lambda j: z(E, j) / E.x["sigma"])
            return E.e.mksum(E.n["n"], lambda j: z(E, j) * z(E, j) / E.x["sigma"] - 1 / E.x["sigma"])
        def dom(E, nm=nm):
            E.e.add(E.x["sigma"] > 0)
            if nm == "lognormal":
                E.e.add_forall(lambda t: E.x["y"](t) > 0)
        for km in "vd":
            for ks in "vd":
                out.append(AOp("%s_lpdf_%s%s" % (nm, km, ks), "%s_lpdf(y, mu, sigma)" % nm, [("y", "da"), ("mu", km), ("sigma", ks)], val, part, dom=dom,
                               result="var" if "v" in km + ks else "real"))
        out.append(AOp("%s_lpdf_same" % nm, "%s_lpdf(y, mu, mu)" % nm, [("y", "da"), ("mu", "v")],
            (lambda val: lambda E: (E.x.__setitem__("sigma", E.x["mu"]), val(E))[1])(val),
            (lambda part: lambda E, n, j=None: part(E, "mu") + part(E, "sigma"))(part),
            dom=(lambda nm: lambda E: (E.e.add(E.x["mu"] > 0), E.e.add_forall(lambda t: E.x["y"](t) > 0)) )(nm)))
    return out
def real_ops():
    """real-argument versions"""
    def lse(E, r):
        E.e.goal(F("exp", r) == E.e.mksum(E.n["n"], lambda j: F("exp", E.x["a"](j))), "[value] exp(log_sum_exp(x)) is the sum of exp(x)")
    return [AOp("log_sum_exp_d", "log_sum_exp(a)", [("a", "da")], None, None, lens=lambda E: E.n["n"] >= 1, check_val=lse, result="real",
                dom=lambda E: E.e.add_forall(lambda t: z3.And(E.x["a"](t) <= HUGE, E.x["a"](t) >= -HUGE)))]

def overflow_ops():
    out = []
    def bounds(E, r):
        e, x, n = E.e, E.x["a"], E.n["n"]
        j = e.fresh_index(n, "any")
        S = e.mksum(n, lambda j: F("exp", x(j)))
        e.goal(F("exp", r) == S, "[value] exp(log_sum_exp(x)) is the sum of exp(x)")
        e.goal(S >= F("exp", x(j)), "[value] the sum of exp(x) is at least exp(x_j): the result is at least the maximum")
        M = e.fresh("bound", R)
        e.add_forall(lambda t: x(t) <= M)
        def g():
            T = e.mksum(n, lambda j: F("exp", M) - F("exp", x(j)))
            e.goal(T >= 0, "[value] the sum of exp(x) is at most n exp(m) for every bound m of x: the result is at most m + log n")
        e.sub(g)
    fin = lambda E: E.e.add_forall(lambda t: z3.And(E.x["a"](t) <= HUGE, E.x["a"](t) >= -HUGE))
    one = lambda E: E.n["n"] >= 1
    out.append(AOp("log_sum_exp real", "log_sum_exp(a)", [("a", "da")], None, None, lens=one, check_val=bounds, result="real", dom=fin))
    out.append(AOp("log_sum_exp var", "log_sum_exp(a)", [("a", "va")], None, lambda E, n, j: F("exp", E.x["a"](j) - E.res), lens=one, check_val=bounds, dom=fin))
    def il(E, r):
        e, a = E.e, E.x["a"]
        e.goal(z3.And(r >= 0, r <= 1), "[value] inv_logit lies between 0 and 1")
        if e.decide(NEAR["inv_logit"](a)):
            e.goal(z3.And(r - sig(a) <= 4 * TINY * sig(a), sig(a) - r <= 4 * TINY * sig(a)), "[value] inv_logit up to a relative error of 4*tiny")
        else:
            e.goal(r == sig(a), "[value] inv_logit is 1/(1+exp(-x))")
    out.append(AOp("inv_logit real", "inv_logit(a)", [("a", "d")], None, None, check_val=il, result="real"))
    o = AOp("inv_logit var", "inv_logit(a)", [("a", "v")], None, lambda E, n, j=None: E.res * (1 - E.res), check_val=il)
    out.append(o)
    for o in out:
        o.noexp = True
    return out
