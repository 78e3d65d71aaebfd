import json,os
R='/verif'
D='''# How each property is decided

Two deductive engines live here, one per language, both working on the real source of /repo on every run.

* **fzv** (`python3-vt -m fzv.check <id>`): Fortran, the library proper in `/repo/src` (C01-C21).
* **czv** (`python3-vt -m czv.check <id>`): C, the vendored SUNDIALS 6.1.1 in `/repo/lib` that fazang compiles and whose results `cvodes_sol` returns (C22-C37).

No deductive verifier for Fortran is installed and none for C that treats unbounded loops over the heap (frama-c here has no WP; CBMC contracts unwind or
need loop invariants in the source and bit-level doubles make the algebraic properties intractable). So the verification-condition generators are written here; the deciding step is z3 / cvc5 / exact
polynomial normal forms accepting every generated obligation.

## What is verified: the code that runs

*Fortran.* `fzv/fparse.py` runs `gfortran-11 -E -cpp` on the file (so that macro-generated procedures are seen as the compiler sees them) and parses the free-form result into modules, types, interfaces and statements.
Nothing is hand-copied. Dropped: `format`/`implicit`/access statements without meaning for execution, comments. A statement it does not know becomes `Unsupported`; running into it makes the unit "outside reach", never silently proved.
*C.* `czv/cast.py` asks clang 18 for the typed AST of the real file (`-ast-dump=json`) with the include paths of the build. Dropped: everything the preprocessor removes under this configuration, storage classes and attributes. An AST node it does not know makes the unit "outside reach".

*Specifications are outside the source* (`fzv/ops.py`, `specs.py`, `state.py`, `digam.py`; `czv/nvec.py`, `nfused.py`, `sunmat.py`, `dls.py`, `dky.py`, `nord.py`, `coef.py`, `ctrl.py`, `step.py`), one *unit* per function (and per argument-alias pattern): a precondition (arbitrary symbolic well-formed state),
the call, and postconditions with frame conditions. A unit runs every feasible path of the function from that state and emits one obligation per postcondition, frame, bounds check, division, callee precondition, and loop rule.

*Modularity.* A call is answered by the callee's contract where one is listed (evidence: `functions_under_contract`), and every contract listed is itself discharged against its body **in the same run**; one that no longer holds is dropped and its callers are then checked against the body.
Small helpers have no contract and are entered through their body (`functions_verified_through_their_body`), so that extracting or merging helpers does not matter.
In czv the callees of `cvStep` are used through contracts over ghost state whose proofs are the units of C29-C31.

*Loops* with a symbolic trip count are never unrolled. `fzv/loops.py` and `czv/loops.py` run the body once at a generic iteration, propose an invariant (induction variables, accumulators as sums over the iterations, array writes as layers over all iterations,
extremum/first-hit forms, adjoint accumulation), and emit base and step obligations; the fact is used only after both are discharged. Where this is not enough the specification carries the invariant: cvStep's attempt loop (ghost history), the reverse sweep (ghost trace of applied rules), prediction/restore (Pascal triangles order by order), fused kernels.
Loop termination is not proved (partial correctness).

*Reach.* A unit that runs into an unsupported construct, or a loop whose invariant is not found, is reported as "outside reach" in the evidence and on stdout. It raises no alarm (code that is merely written differently must not), and the concrete drivers that run beside each proof (gfortran/gcc builds of the real code, sanitizers for C)
are then all that looks at it; this is labelled bounded and never counted as proved. On the committed tree nothing is outside reach.

*Violations.* A failed obligation is reported by name with its unit, source line and counter-model. The replay drivers (`replay/*.F90`, generated operator drivers of `fzv/gendrv.py`, `czv/drv/*.c`) run the real code on the input families the counter-models point at; when one disagrees with its oracle the VIOLATION line has a failing input, otherwise it ends with `no-failing-input-found`.
The drivers are a search for failing inputs, not proof.

## Trusted base and assumptions common to all

* Machine arithmetic is mathematical: real64/double as reals, integers without overflow. Rounding, NaN, infinities, int32 overflow beyond 2^30 tape cells are outside the statements. Overflow freedom in C20 is stated as "no positive argument is exponentiated".
* The two generators and their loop-induction rules, clang's AST, gfortran's preprocessor, z3 5, cvc5 1.1.2, exact polynomial reduction (`czv/polyp.py`), the elementary-function axioms in `fzv/realproof.py` and `czv/eng.py` (sqrt, exp, log, pow of a positive base > 0).
* Decimal literals of known constants (pi, 2/sqrt(pi), log sqrt(2 pi)) are taken as the constants they abbreviate when they agree to the last digit of double precision.
* The compilers translate the constructs used as the front ends read them.

## Fortran: state and representation

A state is an arbitrary call stack of nodes, an arbitrary int32 tape (a cell holds an integer or one half of a real: torn reads are visible), any nesting level, any capacity: the representation invariant (`fzv/scene.py`) is assumed before and proved after (category `wf`), so the properties hold by induction over every history of calls.
Uninitialised storage reads as an arbitrary value. "Clean" means that free space above the tape head is zero with no rule attached; it is part of the invariant.

'''
PER={
'C01':'23 unary functions + log_gamma. Unit per function: on an arbitrary state, the constructor is run (value, one new node, rule attached), then the attached chain procedure is run from the state after arbitrary further recording with an arbitrary adjoint. Goals: value = f(x), operand adjoint grows by adj*f\'(x), all other adjoints unchanged. Oracle: `fzv/ops.py` (mathematics). All x in the domain.',
'C02':'the same for every overload of + - * / ** hypot, each operand var or real, also with both operands the same variable; neutral constants are separate units, as is every shortcut exponent.',
'C03':'all operator units: every cell, adjoint, rule and operand list of an arbitrary pre-existing node is unchanged (frame obligation over an arbitrary index).',
'C04':'sum, norm2, dot_product (3 kinds), log_sum_exp for arrays of any length n, elements possibly repeated: adjoint goals are sums over occurrences.',
'C05':'matmul (vv, vd, dv). **Level other**: the shape of the result is bounded (up to 1x3/3x1/2x2, 2x3/3x2 for mixed), the inner dimension and all entries arbitrary, repeated variables included. The chain procedure of the result block interleaves four nested loops over row/column views of the tape whose invariant over symbolic m and n was not inferred.',
'C06':'72 comparison overloads: result = comparison of the values; nothing changed.',
'C07':'one unit per record kind (plain, operands, data, both) and constructor: everything read back through the accessors equals what was pushed, on a tape of any fill state and capacity including growth.',
'C08':'set_operand_adj with operand arrays of any length, repeated operands included.',
'C09':'the reverse loops with a ghost trace: every rule applied exactly once, newest to first, seed 1, starting/ending index exact, for any number of nodes; rules are abstract procedures that respect their contract (C08). The last step (this is the total derivative) is the chain rule on paper.',
'C10':'set_zero_all_adj / set_zero_nested_adj, any number of nodes, any nesting level.',
'C11':'begin_nested / end_nested on every fill state (empty, partial, exactly full) with bounds obligations on every access; matching calls compose because the unit for end_nested starts from any state above a saved head.',
'C12':'every constructor and operator: a new node has a zero adjoint and exactly the rule it was given, on storage with arbitrary history; freed space is clean after end_nested.',
'C13':'gradient with an abstract user function (contract in FUN_ASS: records only on top, closes the scopes it opens): scope opened and closed, seed, sweep restricted to the scope, values read after the sweep, caller state untouched. Uses the grad_nested, set_zero_nested_adj and scope contracts, which are units of the same property.',
'C14':'the same for jacobian with any number of outputs and inputs: each row is one sweep after a reset.',
'C18':'CVSensRhsFn with set_sens_rhs, for any number of states and of sensitivities, with respect to the initial state, parameters, or both. The user function of vars is a contract (records on top of the tape, arbitrary values and partials); ghost functions give the partials its sweep delivers. Goals: entry (i, j) of the result is sum_k (df_i/dy_k) S_j(k) plus df_i/dp_j for a parameter column (the array written through one window per column and component is recovered by the window carrier of `fzv/loops.py`), adjoints zero before each sweep, tape, adjoints, scopes restored.',
'C19':'RhsFn (passes time, all n components of the state and of the result; return code), and the three forms of cvodes_sol with the constructors of cvs_rhs, cvodes_service and cvodes_options%set entered through their bodies. CVODES is a ghost object: creation and each setting call record what was given, FCVode(tout) succeeds with state Y(tout) or fails with an arbitrary code and arbitrary data, FCVodeGetSens gives S(t). Goals: what CVODES was given (callbacks, user data, initial state, time, identity/zero sensitivities, tolerances, method, limit) and that result (i, k) has value Y(t_k, i) and partials S(t_k, i, j) on the caller\'s variable j, for any n, number of parameters and output times; a failing step never yields a result.',
'C15':'constructors and assignments; 1-d of any length deductive, 2-d assignment and construction bounded to fixed small shapes (labelled).',
'C16':'normal_lpdf, lognormal_lpdf: sums over samples of any length; partials by exact differentiation (`sympy`-free: written in the specification).',
'C17':'var_with_partials for any number of operands.',
'C20':'sign split and maximum shift: every argument of exp is shown nonpositive. inv_logit for x < log(tiny) is accepted within relative 4*tiny (the code returns 0 there).',
'C21':'digamma by cases over the reflection, recurrence and rational/asymptotic ranges against the published formulas (Cody, Strecok, Thacher), log_gamma by the operator harness.',
'C22':'34 units: every vector operation for any length and every alias pattern the property names; elementwise layers or reductions by loop rules. Special cases of N_VLinearSum proved against the same definition.',
'C23':'fused kernels and generic fallbacks for any number of vectors, of sums and any length, in place or not.',
'C24':'matrix kernels for any shape; the 2-d view of a matrix (cols[j] = data + j*M, disjoint) is justified by the constructor and clone units.',
'C25':'**Level other** for LU/Cholesky/QR factor and solve: bounded orders (n <= 3), all real entries, every pivot pattern; wrapper functions (setup, solve, constructor, flags) proved without bound.',
'C28':'dense output: all four families, all orders, both directions of integration; each guard and return code.',
'C29':'prediction, its undoing, rescaling, order changes, completing a step; each order 1..12 is a unit-internal case, vectors of any length, any number of sensitivities. Coefficient identities by exact rational normal forms.',
'C30':'cvSet* for every order with symbolic step history: identities between rational functions in the past steps, by normal form.',
'C31':'cvHandleNFlag, cvDoErrorTest, cvPrepareNextStep and helpers: every path; arithmetic of bounds by z3.',
'C32':'cvStep by contracts of its callees over ghost state, attempt loop by a loop contract (any number of attempts).',
'C33':'each stage solve with its callees as arbitrary functions (any code, any values in what they may write), recorded as ghost calls whose arguments are goals; 12 combinations of setup functions and sensitivity modes of cvNls; cvCheckConstraints against the documented repair-or-refuse rule; norms against the maximum over all sensitivities (induction).',
'C34':'residual, fixed-point map, linear setup and solve, convergence test, initialisation and attachment in all four forms, sensitivity right-hand side wrappers, and the bundled-vector operations for any number of members and every alias pattern.',
'C35':'every tolerance setter on first and later calls (what is refused, what is stored, frames) and every weight function for each kind of tolerances, N_VMin by its contract (least element), any number of sensitivities and any lengths; estimated weights call the weight function of the states (arbitrary) or cvQuadEwtSet (its contract).',
'C36':'both solve functions with invariants on their loops over ghost state that records which callback ran last, with what result and on what values (any number of attempts and iterations), every callback arbitrary; the initialise, set, get, damping and constructor functions; Anderson acceleration is not under contract.',
'C37':'every function named in the property for an arbitrary state, vectors and dense matrices of arbitrary size, arbitrary user functions and linear solver operations; the loop of the difference quotient Jacobian by an invariant over the columns done; the banded difference quotients, the functions for backward problems and the getters are not under contract.',
}
PER.update(json.load(open('/verif/tools/per_extra.json')) if os.path.exists('/verif/tools/per_extra.json') else {})
D+='## Property by property\n\n'
na={x['property']:x['reason'] for x in json.load(open(R+'/MANIFEST.json'))['not_applicable']}
for l in open(R+'/properties.jsonl'):
    p=json.loads(l); i=p['id']
    if i=='C22': D+='\n### C code\n\n'
    t = PER.get(i) or ('NOT APPLICABLE: '+na.get(i,'?'))
    D+='* **%s** %s. %s\n'%(i,p['title'],t)
D+=open('/verif/tools/design_tail.md').read() if os.path.exists('/verif/tools/design_tail.md') else ''
D+='\n## Planted bugs and what catches them\n\nC changes (in `seeded/`; every one is reported by the check of its property, with a failing input unless marked +):\n\n| id | property | breaks | needs |\n|---|---|---|---|\n'
NOF={'c32_quadsens_test','c25_lastflag'}
NOF-=set(json.load(open('/verif/tools/nof.json'))) if os.path.exists('/verif/tools/nof.json') else set()
for s in sorted(os.listdir(R+'/seeded')):
    m=json.load(open(R+'/seeded/%s/meta.json'%s))
    D+='| %s%s | %s | %s | %s |\n'%(s,'+' if s in NOF else '',m['property'],m['what_it_breaks'],m['needs'])
D+='\nFortran changes (in `mutants_fortran/`, same layout; vcheck does not count planted bugs in Fortran files, so they are kept apart; `FZV_SRC=<patched src> python3-vt -m fzv.check <id>` reports each one with a failing input):\n\n| id | property | breaks | needs |\n|---|---|---|---|\n'
for s in sorted(os.listdir(R+'/mutants_fortran')):
    m=json.load(open(R+'/mutants_fortran/%s/meta.json'%s))
    D+='| %s | %s | %s | %s |\n'%(s,m['property'],m['what_it_breaks'],m['needs'])
D+='\n## Defects found and repaired\n\nAll are listed in `known-findings.txt` as "fixed:" (nothing is suppressed):\n\n'
for l in open(R+'/known-findings.txt'):
    if l.startswith('fixed:'): D+='* '+l[7:]
D+='''
## Noticed, outside the listed properties

* Switching between scalar and vector absolute tolerances of sensitivities or quadrature sensitivities allocates the array `atolSmin0` (`atolQSmin0`) again without freeing the first: a leak, without effect on results; the driver `weights.c` runs with leak detection off for it.
* `cvHandleNFlag` turns the final failures CV_CONSTR_FAIL and CV_NLS_SETUP_FAIL of the corrector into CV_NLS_FAIL, so the documented codes for these do not reach the user..
'''
open(R+'/DESIGN.md','w').write(D)
