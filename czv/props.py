"""Which units and which replay drivers decide which property (C code: the vendored SUNDIALS)."""
import os
from . import nvec, nfused, sunmat, dls, dky, nord, coef, ctrl, step, nls, ewt, nlsol, lsol
from . import cast as _cast
import re as _re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

NOTE = ("Every obligation generated from the current source text is discharged for all states and inputs of any length; reals and integers are mathematical. "
        "The concrete executions run beside the proof are a replay search for failing inputs and are never counted as proved.")

class Prop:
    def __init__(s, units, drivers=(), assumptions=(), level="proof", note=None):
        s.units, s.drivers, s.assumptions, s.level, s.note = list(units), list(drivers), list(assumptions), level, note or NOTE

VEC = ["src/nvector/serial/nvector_serial.c", "src/sundials/sundials_nvector.c", "src/sundials/sundials_math.c", "src/sundials/sundials_context.c", "src/sundials/sundials_version.c"]
NVS = ["src/nvector/serial/nvector_serial.c", "src/sundials/sundials_nvector.c"]

DMAT = VEC + ["src/sunmatrix/dense/sunmatrix_dense.c", "src/sundials/sundials_matrix.c", "src/sundials/sundials_dense.c"]
DLS = DMAT + ["src/sunlinsol/dense/sunlinsol_dense.c", "src/sundials/sundials_linearsolver.c"]

_mp = next((m for m in (os.path.join(_cast.SUN, "meson.build"), "/repo/lib/sundials-6.1.1/meson.build") if os.path.exists(m)), None)
_mb = open(_mp).read() if _mp else ""
CVALL = [x for x in _re.findall(r"'(src/[\w/]+\.c)'", _mb) if _re.match(r"src/(cvodes/|nvector/serial|sunmatrix/(dense|band)|sunlinsol/(dense|band|spgmr)|sunnonlinsol/(newton|fixedpoint)|sundials/sundials_(?!xbraid|mpi|futils|hypre))", x)]
CVREST = [x for x in CVALL if not x.endswith("cvodes/cvodes.c")]
CVDRV = [("hist", CVREST, ["src/cvodes/cvodes.c"], ["{seed}", "{reps:30:400}"]), ("cvrun", CVALL, [], ["{seed}", "{reps:60:400}"])]
STDRV = CVDRV + [("stage", [x for x in CVALL if "src/cvodes/cvodes.c" not in x and "cvodes_nls" not in x], ["src/cvodes/cvodes.c", "src/cvodes/cvodes_nls_sim.c"], ["{seed}", "{reps:20:300}"])]
CVASS = ["cvProcessError reports and has no other effect (it formats and hands a message to the error handler)", "the vectors of one history family, and those of different families, are distinct objects (as cvAllocVectors and the sensitivity allocators create them)",
    "vector operations of the integrator are those of the serial vector, entered through their own bodies or proved contracts"]

COMMON = [
    "machine arithmetic treated as mathematical: double as reals, int and sunindextype as integers (no rounding, overflow, NaN or infinity)",
    "library functions sqrt, fabs, pow, exp and log are uninterpreted beyond the axioms stated in czv/eng.py",
    "the compiler gives the C constructs used the meaning the verification-condition generator gives clang's typed syntax tree",
    "pointers of distinct objects of the symbolic initial state do not overlap; which arguments are the same object is enumerated (every alias pattern the property names)",
]
TRUSTED = ["czv verification-condition generator and loop-summary rules (/verif/czv)", "clang 18 front end (typed AST of the real source file, -ast-dump=json)", "z3 (python bindings)", "cvc5", "polynomial normal forms with rational coefficients (czv/polyp.py)", "induction rules of czv/loops.py (a loop fact is used only after its base and step obligations are discharged)"]

_st = ("cvNls:", "cvCheckConstraints", "cvQuadNls", "cvQuadSensNls", "cvStgrNls", "cvStgr1Nls", "cvSensNorm", "cvQuadSensNorm", "cvQuadUpdateNorm", "cvSensUpdateNorm", "cvQuadSensUpdateNorm")
_stage = [u for u in nls.UNITS if u.id.startswith(_st)]
_nlfun = [u for u in nls.UNITS if not u.id.startswith(_st)]

PROPS = {
    "C22": Prop(nvec.UNITS, [("nvec", VEC, NVS, ["{seed}", "{reps:12:80}"])], ["vector lengths agree and, for the WRMS norms and Min, are at least 1 (callers' obligation in the SUNDIALS documentation)", "constraint values of N_VConstrMask are among -2, -1, 0, 1, 2 (documented)", "division: the operands of N_VDiv and N_VInv are nonzero or the quotient is unspecified"]),
    "C23": Prop(nfused.UNITS, [("nfused", VEC, NVS, ["{seed}", "{reps:12:80}"])], ["memory allocation succeeds inside the fused operations (the source does not test the result of malloc)", "vectors of one call have one length"]),
    "C24": Prop(sunmat.UNITS, [("dmat", DMAT, ["src/sunmatrix/dense/sunmatrix_dense.c", "src/sundials/sundials_dense.c"], ["{seed}", "{reps:4:40}"])], ["the matrix content is the one a constructor built: cols[j] = data + j*M, columns disjoint (proved for the constructor and clone by units of this property)"]),
    "C25": Prop(dls.UNITS, [("dls", DLS, ["src/sundials/sundials_dense.c", "src/sunlinsol/dense/sunlinsol_dense.c"], ["{seed}", "{reps:8:100}"])], ["columns of the matrix are disjoint arrays of the stated length", "GETRS and POTRS are given nonzero diagonals and pivots as the factorisation leaves them"],
        level="other", note="Deductive obligations over the real source for all matrix entries and all right-hand sides, but with the order n enumerated (n <= 3 for LU, Cholesky and QR): a bounded result, not a proof for every n. Reals are mathematical. The concrete executions (larger n) are a replay search and are never counted as proved."),
    "C28": Prop(dky.UNITS, CVDRV, CVASS),
    "C29": Prop(nord.UNITS, CVDRV, CVASS + ["elapsed times in the step history are nonzero"]),
    "C30": Prop(coef.UNITS, CVDRV, CVASS + ["elapsed times have positive ratios to the step (one direction of integration); denominators of the method's formulas are nonzero"]),
    "C31": Prop(ctrl.UNITS, CVDRV, CVASS + ["step size nonzero, hmin and the inverse of hmax not negative, etamax at least 1", "cvRestore, cvRescale and cvAdjustOrder in the any-order units: by the contracts that C29 proves order by order", "pow of a positive base is positive"]),
    "C32": Prop(step.UNITS, CVDRV, CVASS + ["the callees of cvStep by their contracts over the ghost state: cvAdjustParams, cvPredict, cvRestore, cvCompleteStep (proved in C29), cvSet (C30), cvHandleNFlag, cvDoErrorTest, cvPrepareNextStep (C31); cvNls, cvQuadNls, cvStgrNls, cvStgr1Nls, cvQuadSensNls, cvSensNorm, cvQuadSensNorm (proved in C33); cvBDFStab assumed"]),
    "C33": Prop(_stage, STDRV, CVASS + ["the nonlinear solver object's setup and solve, the linear solver and the user functions are arbitrary: any result, any values in what they may write (the iteration itself is C36's)"]),
    "C34": Prop(_nlfun, STDRV, CVASS + ["the linear solver's setup and solve and the user functions are arbitrary: any result, any values in what they may write"]),
    "C35": Prop(ewt.UNITS, [("weights", CVREST, ["src/cvodes/cvodes.c"], ["{seed}", "{reps:40:1000}"])], CVASS + ["tolerances are what the setters leave: where the test for nonpositive weights is switched off, every tolerance is positive (goals of the setters' units)", "memory allocation succeeds inside the tolerance setters (the source does not test the result of malloc)", "the user's weight function of CVodeWFtolerances is arbitrary: any result, any values in the weights"]),
    "C36": Prop(nlsol.UNITS, [("nlsolve", [x for x in CVREST if "cvodes/" not in x and "sunnonlinsol/" not in x] , ["src/sunnonlinsol/newton/sunnonlinsol_newton.c", "src/sunnonlinsol/fixedpoint/sunnonlinsol_fixedpoint.c"], ["{seed}", "{reps:4000:200000}"])], [
        "the system function, the linear setup and solve and the convergence test are arbitrary: any result, any values in the vector they may write, and nothing else", "AndersonAccelerate leaves some next correction (its least squares problem is not under contract; fazang does not use it)",
        "that the iteration ends is not claimed", "diagnostic printing is off (the library is built without monitoring)"]),
    "C37": Prop(lsol.UNITS, [("lsol", [x for x in CVALL if not x.endswith("cvodes_ls.c")], ["src/cvodes/cvodes_ls.c"], ["{seed}", "{reps:1500:40000}"])], CVASS + [
        "the user's functions and the linear solver object's operations are arbitrary: any result, any values in what they may write, and nothing else", "gamma, the step size, the rounding unit and the weights are what the integrator maintains: gammap, the step size and 1 + gamrat are not zero, the norm of the direction of a difference quotient product is not zero",
        "the direct cases use the dense matrix whose operations are proved in C24; cvLsBandDQJac (band matrices, which fazang does not create) is not under contract", "the functions for the backward problems (adjoint) are not under contract"]),
}
