"""Which harnesses (units) decide which property."""
import os
from . import ops, harness, digam, state, cvs

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

class Unit:
    def __init__(s, id, run, bounded=""):
        s.id, s.run, s.bounded = id, run, bounded

UNITS = {}
def unit(id, run, bounded=""):
    UNITS[id] = Unit(id, run, bounded)
    return id
def get(id):
    return UNITS[id]

class Prop:
    def __init__(s, units, cats, assumptions=(), lemmas=None, level="proof"):
        s.level = level
        s.units, s.cats, s.assumptions, s.lemmas = units, cats, list(assumptions), lemmas
    def catset(s, u):
        return s.cats(u) if callable(s.cats) else s.cats
    def wants(s, u, c):
        cs = s.catset(u)
        return cs is None or c in cs

COMMON_ASSUMPTIONS = [
    "machine arithmetic treated as mathematical: real64 as reals, int32 as integers (no rounding, overflow, NaN or infinity)",
    "elementwise application to arrays: an elemental procedure proved for scalars on every well-formed state is applied element by element, each call starting in a well-formed state (induction over the elements)",
    "the compiler gives the Fortran constructs used the meaning the front end gives them",
]
TRUSTED = ["fzv front end and verification-condition generator (/verif/fzv)", "z3 (python bindings)", "cvc5", "axioms of elementary functions in fzv/realproof.py", "gfortran-11 -E for preprocessing"]

def known_findings(pid):
    out = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % pid):
                out.append(l.split(" ", 2)[2])
    return out

def op_unit(o):
    return unit("op " + o.id, lambda P, ct, dl: harness.verify_op(P, o, ct, dl))

U1 = [op_unit(o) for o in ops.unary_ops()]
U2 = [op_unit(o) for o in ops.binary_ops()]
U6 = [op_unit(o) for o in ops.cmp_ops()]
def aop_unit(o):
    return unit("op " + o.id, lambda P, ct, dl: harness.verify_aop(P, o, ct, dl))
U4 = [aop_unit(o) for o in ops.red_ops()]
U17 = [aop_unit(o) for o in ops.part_ops()]
U16 = [aop_unit(o) for o in sorted(ops.lpdf_ops(), key=lambda o: 0 if o.id.endswith(("vv", "same")) else 1)]
U20 = [aop_unit(o) for o in ops.overflow_ops()]
U21 = [unit("digamma " + c[0], lambda P, ct, dl, c=c: digam.verify(P, c, ct, dl)) for c in digam.CASES] + [unit("op log_gamma", digam.verify_lg)]

UC = [unit(o.id, lambda P, ct, dl, o=o: state.verify_ctor(P, o, ct, dl)) for o in state.ctors() if o.id not in ("new var(real matrix)", "new var(m,n)")]
UCB = [unit(o.id, lambda P, ct, dl, o=o: state.verify_ctor(P, o, ct, dl), bounded="fixed shape, any values") for o in state.bounded_ctors()]
UA = [unit("assign " + k, lambda P, ct, dl, k=k: state.verify_assign(P, k, ct, dl)) for k in ("0d", "1d", "1d0")]
UAB = [unit("assign %s %dx%d" % ((k,) + s), lambda P, ct, dl, k=k, s=s: state.verify_assign(P, k, ct, dl, shape=s), bounded="fixed shape, any values") for k in ("2d", "2d0") for s in state.SHAPES]
USC = [unit("begin_nested", lambda P, ct, dl: state.verify_begin(P, ct, dl)), unit("end_nested", lambda P, ct, dl: state.verify_end(P, ct, dl))]
UZ = [unit("set_zero_all_adj", lambda P, ct, dl: state.verify_zero(P, False, ct, dl)), unit("set_zero_nested_adj", lambda P, ct, dl: state.verify_zero(P, True, ct, dl))]
UOA = [unit("set_operand_adj" + n, lambda P, ct, dl, b=b: state.verify_operand_adj(P, b, ct, dl)) for n, b in (("", False), (" by index", True))]
UR = [unit("record " + k, lambda P, ct, dl, k=k: state.verify_record(P, k, ct, dl)) for k in ("plain", "op", "data", "both")]
USW = [unit("grad", lambda P, ct, dl: state.verify_sweep(P, False, ct, dl)), unit("grad_nested", lambda P, ct, dl: state.verify_sweep(P, True, ct, dl))]

USR = [unit("grad_nested when rules stay in the scope", lambda P, ct, dl: state.verify_sweep(P, True, ct, dl, restricted=True))]
UG = [unit("gradient", lambda P, ct, dl: state.verify_gradient(P, False, ct, dl))]
UJ = [unit("jacobian", lambda P, ct, dl: state.verify_gradient(P, True, ct, dl))]
URV = ["new var(real vector)"]
FUN_ASS = [
    "the user's function is represented by a contract: called with the scope levels it was given and room for one more, it records only on top of the tape, leaves everything below as it was, closes every scope it opens, and returns results that are recorded variables; how its values depend on its argument is arbitrary",
    "reverse accumulation is the chain rule: that visiting every recorded operation once, newest first, each adding adjoint times partial (C01-C06, C16, C17), yields the total derivative is the textbook argument over those proved facts, made on paper",
]

MM = {"vv": [(1, "k", 1), (1, "k", 2), (2, "k", 1), (2, "k", 2), (1, "k", 3), (3, "k", 1), (0, 2, 1), (2, 2, 0), (2, 0, 2)],
      "vd": [(1, "k", 1), (2, "k", 2), (2, "k", 3), (3, "k", 2), (0, 2, 1), (2, 2, 0), (2, 0, 2)]}
MM["dv"] = MM["vd"]
UMM = [unit("matmul %s %sx%s times %sx%s" % (k, a, b, b, c), lambda P, ct, dl, k=k, a=a, b=b, c=c: state.verify_matmul(P, k, a, b, c, ct, dl),
    bounded="fixed shape of the result" + (", any inner dimension" if b == "k" else "") + ", any entries") for k in MM for a, b, c in MM[k]]

USE = [unit("CVSensRhsFn " + f, lambda P, ct, dl, f=f: cvs.verify_sens(P, f, ct, dl)) for f in cvs.FORMS]
URH = [unit("RhsFn", lambda P, ct, dl: cvs.verify_rhs(P, ct, dl))]
USO = [unit("cvodes_sol " + f, lambda P, ct, dl, f=f: cvs.verify_sol(P, f, ct, dl)) for f in ("data", "y0", "par")]
SUN_ASS = [
    "the Fortran interface of SUNDIALS is represented by contracts from its documentation and text: FN_VGetArrayPointer gives the first element of a vector's data with shape [1], FN_VGetLength its length, FN_VGetVecAtIndexVectorArray an element of a vector array (obligation: the index is in range); c_f_pointer, c_loc and c_funloc as in the Fortran standard",
]
CV_ASS = SUN_ASS + [
    "CVODES is represented by ghost contracts of the functions called, from its documentation: FCVode with CV_NORMAL and return value 0 leaves the state of the integrated problem at the output time in the vector it is given, FCVodeGetSens the sensitivities at that time; the creation and setting calls succeed. What the C code behind FCVode does is the subject of C22 to C32",
    "the accuracy of the state and sensitivities with respect to the exact solution is not decided",
    "finalization (cvodes_service) is not modelled",
    "var_with_partials by its contract, proved in C17",
]

UALL = U1 + U2 + U6 + U4 + U17 + U16 + ["op log_gamma"]
SEM = {"safety", "value", "adj", "chainframe"}
PROPS = {
    "C01": Prop(U1, SEM),
    "C02": Prop(U2, SEM),
    "C03": Prop(UALL, {"frame", "safety"}),
    "C04": Prop(U4, SEM),
    "C05": Prop(UMM, SEM | {"frame", "wf", "clean"}, level="other"),
    "C16": Prop(U16, SEM),
    "C17": Prop(U17, SEM),
    "C20": Prop(U20, {"safety", "value", "noexp"}),
    "C21": Prop(U21, SEM),
    "C07": Prop(UR + UC + UCB, {"safety", "record", "frame", "wf"}),
    "C08": Prop(UOA, {"safety", "adj", "chainframe"}),
    "C09": Prop(USW + USR, {"safety", "sweep"}, FUN_ASS[1:]),
    "C13": Prop(UG + USR + URV + USC, {"safety", "value", "scope", "sweep", "restore", "zero", "clean", "frame"}, FUN_ASS),
    "C14": Prop(UJ + USR + URV + USC + UZ, {"safety", "value", "scope", "sweep", "restore", "zero", "clean", "frame"}, FUN_ASS),
    "C10": Prop(UZ, {"safety", "zero"}),
    "C11": Prop(USC + UC + UCB, {"safety", "scope", "frame", "wf"}),
    "C12": Prop(UC + UCB + USC + UALL, lambda u: {"safety", "value", "clean", "wf", "scope"} if u in UC + UCB + USC else {"clean", "wf"}),
    "C15": Prop(UC + UCB + UA + UAB, {"safety", "value", "frame"}),
    "C18": Prop(USE + USR + URV + USC, {"safety", "value", "scope", "sweep", "restore", "zero", "clean", "frame"}, FUN_ASS + SUN_ASS),
    "C19": Prop(URH + USO + U17, {"safety", "value", "frame", "adj"}, CV_ASS),
    "C06": Prop(U6, SEM | {"frame"}),
}

NOTE = ("Every obligation generated from the current source text is discharged for all states and inputs; reals and integers are mathematical. "
        "The concrete executions run beside the proof are a replay search for failing inputs and are never counted as proved.")
NOTES = {
    "C05": "Deductive, on the real code, but bounded in the shape of the result: the obligations are discharged for results of 1x1, 1x2, 2x1, 2x2 (and 1x3, 3x1, 2x3, 3x2 for some combinations) and empty ones, for every inner dimension and all entries, "
        "repeated variables included. Not counted as proved for all shapes; sampled shapes up to 4x4 run beside it.",
}
NA = {
}
