"""digamma: specification (Cody, Strecok, Thacher; netlib specfun/psi) and harness."""
import z3
from .core import *
from .interp import *
from .harness import Run, cat, Ob
from . import core

P1 = ["4.5104681245762934160E-03", "5.4932855833000385356E+00", "3.7646693175929276856E+02", "7.9525490849151998065E+03", "7.1451595818951933210E+04",
      "3.0655976301987365674E+05", "6.3606997788964458797E+05", "5.8041312783537569993E+05", "1.6585695029761022321E+05"]
Q1 = ["9.6141654774222358525E+01", "2.6287715790581193330E+03", "2.9862497022250277920E+04", "1.6206566091533671639E+05", "4.3487880712768329037E+05",
      "5.4256384537269993733E+05", "2.4242185002017985252E+05", "6.4155223783576225996E-08"]
P2 = ["-2.7103228277757834192E+00", "-1.5166271776896121383E+01", "-1.9784554148719218667E+01", "-8.8100958828312219821E+00", "-1.4479614616899842986E+00",
      "-7.3689600332394549911E-02", "-6.5135387732718171306E-21"]
Q2 = ["4.4992760373789365846E+01", "2.0240955312679931159E+02", "2.4736979003315290057E+02", "1.0742543875702278326E+02", "1.7463965060678569906E+01", "8.8427520398873480342E-01"]
XMAX1, XMIN1, XSMALL, XLARGE, XINF = rv("3.60E+16"), rv("5.89E-39"), rv("2.05E-09"), rv("2.04E+15"), rv("1.70E+38")

def poly(cs, x, monic=False):
    r = rv(1) if monic else rv(cs[0])
    for c in (cs if monic else cs[1:]):
        r = r * x + rv(c)
    return r

def psi_pos(y):
    """the published approximations for arguments from 1/2 on"""
    w = 1 / (y * y)
    low = (y - rv(187) / 128 - rv("6.9464496836234126266E-04")) * poly(P1, y) / poly(Q1, y, True)
    high = app("log", y) - 1 / (2 * y) + poly(P2, w) / poly(Q2, w, True)
    return low, high, app("log", y)

def spec_pos(e, y, got, aug):
    low, high, huge = psi_pos(y)
    for q in (low,):
        pass
    if e.decide(y <= 3):
        rhs = low
    elif e.decide(y < XLARGE):
        rhs = high
    else:
        rhs = huge
    equal(e, got, rhs + aug, "[value] digamma follows its definition")

def equal(e, a, b, name):
    """equality, first by rational normalisation"""
    e.goal(a == b, name)

CASES = [("x >= 1/2", None), ("error arguments", None), ("small |x|", None)]
for sg in (1, -1):
    for q in range(4 if sg < 0 else 2):
        CASES.append(("x < 1/2, %s, quarter %d" % ("positive" if sg > 0 else "negative", q), (sg, q)))

def verify(P, case, contracts=None, deadline=None):
    name, par = case
    r = Run(P, {}, deadline)
    e, ip = r.e, r.ip
    p = P.find_proc("fazang_digamma_mod::digamma")
    if p is None:
        raise Unsupported("digamma not found")
    ip.init_globals()
    def call(x):
        return ip.call_proc(p, [Actual(ip, v=Sc("real", x))], {}).t
    def run():
        e.where.append("digamma")
        cat(e, "safety")
        if par is None and name == "x >= 1/2":
            x = e.fresh("x", R)
            e.add(x >= rv("0.5"))
            got = call(x)
            cat(e, "value")
            spec_pos(e, x, got, rv(0))
        elif name == "error arguments":
            x = e.fresh("x", R)
            e.add(z3.Or(-x >= XMAX1, z3.And(x < XMIN1, -x < XMIN1)))
            got = call(x)
            cat(e, "value")
            e.goal(got == z3.If(x > 0, -XINF, XINF), "[value] out of range arguments")
        elif name == "small |x|":
            x = e.fresh("x", R)
            e.add(z3.Or(z3.And(x >= XMIN1, x <= XSMALL), z3.And(-x >= XMIN1, -x <= XSMALL)))
            got = call(x)
            cat(e, "value")
            spec_pos(e, 1 - x, got, -1 / x)
        else:
            sg, q = par
            k, t = e.fresh("k"), e.fresh("t", R)
            e.add(k >= 0, t >= 0, t < 1)
            u = (q + t) / 4
            ax = z3.ToReal(k) + u
            x = ax if sg > 0 else -ax
            e.add(x < rv("0.5"), ax > XSMALL, ax >= XMIN1)
            if sg > 0:
                e.add(k == 0)
            else:
                e.add(ax < XMAX1)
            if q == 0:
                e.add(t != 0)      # not a (negative) integer
            for z in (PI / 4 * t, PI / 4 * (1 - t)):
                e.add(z3.Implies(z3.And(z > 0, z < PI / 2), app("tan", z) > 0))     # lemma tan_pos
            got = call(x)
            cat(e, "value")
            # cot(pi u), u = (q+t)/4 in the first quadrant (lemma cot_quarters)
            c = PI / 4
            cot = [1 / app("tan", c * t), app("tan", c * (1 - t)), -app("tan", c * t), -1 / app("tan", c * (1 - t))][q]
            aug = -sg * PI * cot
            spec_pos(e, 1 - x, got, aug)
    outs = e.explore(run, "digamma")
    for o in outs:
        if o["stop"] is not None:
            e.obs.append(Ob("[safety] no error stop", "post", False, "error stop", "digamma", "-", 0))
    if not outs:
        e.obs.append(Ob("[safety] some path completes", "post", False, "no path", "digamma", "-", 0))
    return [r]

from .specs import Contract
from .harness import Op, verify_op
DIG = Contract("fazang_digamma_mod::digamma", lambda ip, p, b: True,
    lambda ip, p, b: Sc("real", app("digamma", list(b.values())[0].val().t)), None, "the value of digamma is a function of its argument (its body is verified in the digamma units)")
LG = Op("log_gamma", "log_gamma(a)", [("a", "v")], lambda a: app("lgamma", a), {"a": lambda a: app("digamma", a)})
def verify_lg(P, contracts, dl):
    ct = dict(contracts)
    ct[DIG.qual] = DIG
    return verify_op(P, LG, ct, dl)
