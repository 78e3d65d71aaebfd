NEW.append(prop("C24", "Dense matrix operations compute their definitions",
 "Dense matrices (SUNDenseMatrix and the SUNDlsMat column kernels) of every shape behave as matrices: zero, copy, scale-and-add (A := cA + B), scale-and-add-identity (A := cA + I), matrix-vector product, scaling and adding the identity give exactly the defined element for every row and column, also for a non-square matrix and when A and B are the same matrix. They change only their target, return success, and refuse (nonzero result, nothing changed) operands whose shapes differ and a product whose input and output vector are one. A constructed matrix has the requested shape, starts at zero, refuses non-positive shapes and a missing context; a clone has the shape of the original and its own storage; failed construction and destruction release everything.",
 ["inputs", "faults"], "all shapes, contents and scalars; every pattern of allocation failures in construction and cloning", "The tests build only 2 x 2 Jacobians inside CVODES.",
 ["src/sunmatrix/dense/sunmatrix_dense.c", "src/sundials/sundials_matrix.c", "src/sundials/sundials_dense.c"], [("SUNMat*_Dense", "sunmatrix_dense.c"), ("SUNDlsMat_dense* kernels", "sundials_dense.c")], ["SUNDenseMatrix_Data", "return codes"]))
NEW.append(prop("C25", "Dense direct solvers solve the system they are given",
 "For a square dense matrix, SUNDlsMat_denseGETRF either returns 0 with row exchanges, a unit lower factor with multipliers of magnitude at most one (partial pivoting) and an upper factor with nonzero diagonal such that PA = LU, or returns the 1-based number of the first column without a nonzero pivot; denseGETRS with those factors yields x with Ax = b. SUNLinSol_Dense set up on A and solved for b gives Ax = b, leaves b unchanged when x is another vector, reports a singular A as a positive (recoverable) setup result with the column in its last flag, and is created only for a square matrix that matches the vector. densePOTRF/densePOTRS do the same for a symmetric positive definite matrix (C C^T = A, only the lower triangle is accessed, a non-positive pivot is reported by its 1-based number), and denseGEQRF/denseORMQR give an orthogonal Q and upper R with QR = A and apply Q to a vector.",
 ["inputs"], "every size, all matrix entries and right-hand sides, row exchanges of every kind, singular matrices", "Tests solve two-dimensional systems without row exchanges; no singular matrix, no Cholesky, no QR.",
 ["src/sundials/sundials_dense.c", "src/sunlinsol/dense/sunlinsol_dense.c", "src/sundials/sundials_linearsolver.c"], [("LU with partial pivoting", "sundials_dense.c SUNDlsMat_denseGETRF/GETRS"), ("Cholesky", "SUNDlsMat_densePOTRF/POTRS"), ("Householder QR", "SUNDlsMat_denseGEQRF/ORMQR"), ("solver object", "sunlinsol_dense.c")], ["factors and pivots", "solution vector", "return codes and last flag"]))
CV = "src/cvodes/cvodes.c"
NEW.append(prop("C28", "Dense output is the interpolating polynomial",
 "Between the last two internal times CVodeGetDky(t, k) returns exactly the k-th derivative at t of the polynomial that the history array represents (sum over j of j!/(j-k)! ((t-tn)/h)^(j-k) zn[j] / h^k), and CVodeGetQuadDky, CVodeGetSensDky1 and CVodeGetQuadSensDky1 do the same for quadratures, each sensitivity and each quadrature sensitivity; CVodeGetSens, CVodeGetSens1 and CVodeGetQuad return that value at the time the integrator last returned, and that time. A time outside the last step (beyond the documented slack), a derivative order below 0 or above the current order, a sensitivity index out of range, a missing block or output vector, or a feature that is not enabled is refused with its own error code. None of them changes the integrator, and the computed state is the prediction plus the correction.",
 ["inputs"], "all histories, orders 1 to 12, derivative orders, times in and outside the last step, vectors of any length, any sensitivity index", "The tests ask for values at output times on three ODEs; no test looks at derivatives, intermediate times or refused requests.",
 [CV], [("dense output", "cvodes.c CVodeGetDky, CVodeGetQuadDky, CVodeGetSensDky1, CVodeGetQuadSensDky1"), ("values at the returned time", "CVodeGetSens, CVodeGetSens1, CVodeGetQuad"), ("computed state", "CVodeComputeState*")], ["output vector", "return code", "integrator block unchanged"]))
NEW.append(prop("C29", "The integrator's history keeps representing the same polynomial",
 "The history array of the state, the quadratures, the sensitivities and the quadrature sensitivities is handled alike and exactly: the prediction re-expands the same polynomial at tn + h (never beyond the stop time), undoing it restores every column and the saved time; changing the step size by eta scales column j by eta^j and resets h, hscale and next_h; lowering or raising the order changes the columns by the stated polynomial in the step history (BDF and Adams, all orders), with all four families treated alike; accepting a step adds l[j] times the correction to column j, shifts the step-size history, advances the counters and saves the correction and error coefficient exactly when an order increase may follow. Nothing else in the integrator changes.",
 ["inputs", "histories"], "every order 1 to 12 (BDF 1 to 5), every step-size history and ratio, vectors of any length, any number of sensitivities", "A wrong column shows only at the order and step change that uses it, and then as a slightly wrong or slow solution.",
 [CV], [("prediction and its undoing", "cvodes.c cvPredict, cvRestore"), ("step and order changes", "cvRescale, cvAdjustParams, cvAdjustOrder, cvAdjustAdams, cvIncreaseBDF, cvDecreaseBDF"), ("acceptance", "cvCompleteStep")], ["zn, znQ, znS, znQS", "tau, tn, h, hscale, counters"]))
NEW.append(prop("C30", "The multistep coefficients are those of the method",
 "For every order and every step-size history cvSet computes the coefficients of the variable-step method: for BDF the polynomial prod (1 + x/xi_i) with the fixed-leading-coefficient last root, for Adams the integral of prod (1 + x/xi_i) normalised to l[1]-consistency, the error constants tq[1] to tq[5] of the current order and (when an order change is considered) of the orders below and above, nlscoef/tq[2], and gamma, its reciprocal and its ratio to the previous one; alternating sums and the Adams start-up are exact; nothing else changes.",
 ["inputs", "histories"], "BDF orders 1 to 5 and Adams orders 1 to 12, all step-size histories with positive elapsed-time ratios", "A wrong coefficient at one order still integrates, with a silently wrong error estimate.",
 [CV], [("coefficients", "cvodes.c cvSet, cvSetBDF, cvSetTqBDF, cvSetAdams, cvAdamsStart, cvAdamsFinish, cvAltSum")], ["l", "tq", "gamma, rl1, gamrat, gammap"]))
NEW.append(prop("C31", "Failed attempts are undone and step control follows its documented rules",
 "After a failed solve the prediction is undone and the failure counted; an unrecoverable failure returns its own code, a recoverable one returns the code of its cause when the step is at its minimum or the limit of failures is reached, and otherwise the step is retried with ratio max(0.25, hmin/|h|) (unchanged ratio after a constraint failure) and no growth. The local error test accepts exactly when norm times tq[2] is at most 1, hands back that estimate, and otherwise undoes the prediction, counts, gives up at the minimum step or the limit, retries with the ratio of the estimate within its bounds, lowers the order from the fourth failure on, and at order 1 restarts from the right-hand side. After an accepted step the order and ratio with the largest permitted growth are chosen (ratio below the threshold 1.5 changes nothing), bounded by etamax and hmax, in the direction of integration, with the order within 1 to qmax and the saved correction stored for an increase.",
 ["inputs", "histories"], "every order, every cause of failure, every count of earlier failures, all estimates, steps and bounds", "Failures do not occur in the tests' smooth ODEs, so retry, restart and give-up paths are never run.",
 [CV], [("failed solves", "cvodes.c cvHandleNFlag"), ("error test", "cvDoErrorTest"), ("next step and order", "cvPrepareNextStep, cvSetEta, cvChooseEta, cvComputeEtaqm1, cvComputeEtaqp1")], ["return codes", "h, eta, q, qwait, counters", "history"]))
NEW.append(prop("C32", "A step is accepted only when everything it advances is solved and passes its error test",
 "Whatever the right-hand sides and solvers return and however many attempts are needed, cvStep reports success exactly when one attempt solved the states and every enabled extension (quadratures, sensitivities simultaneous, staggered or one by one, quadrature sensitivities), in that order, each on the results before it, and passed every error test that is switched on; every attempt starts from the history and time of the last accepted step with exactly one prediction and its own coefficients; a pending step-size change is made once, before the first attempt; the right-hand side is re-evaluated at the corrected state before extensions use it; after a failure that is returned as recoverable the history and time are those of the last accepted step; after success the next step is planned once with the largest of the error estimates, growth is limited to 10, and the corrections become the estimated local errors.",
 ["inputs", "faults", "histories"], "all outcomes of every solve and test in every attempt, any number of attempts, all error-control settings, any number of sensitivities", "Tests never make a right-hand side or a solve fail, and use one sensitivity mode.",
 [CV], [("attempt loop", "cvodes.c cvStep")], ["return code", "history and time", "acor*"]))
NLS = ["src/cvodes/cvodes_nls.c", "src/cvodes/cvodes_nls_sim.c", "src/cvodes/cvodes_nls_stg.c", "src/cvodes/cvodes_nls_stg1.c"]
NEW.append(prop("C33", "Each stage of a step attempt is solved from the current prediction with the data it depends on",
 "For any outcome of the user functions and solvers, the solve of the states (cvNls, alone or with simultaneous sensitivities), of the quadratures (cvQuadNls), of the sensitivities (cvStgrNls all at once, cvStgr1Nls one by one) and of the quadrature sensitivities (cvQuadSensNls) hand the nonlinear solver or the user function exactly the current time, states, sensitivities, weights, tolerance and their own user data; start the correction from zero; ask for a linear solver setup exactly under the documented conditions (first step, failed convergence, gamma changed by more than 0.3, setup overdue after msbp steps, forced) and record its kind; set up the nonlinear solver that is about to be used if it has a setup function; count exactly what they called; on success leave y (yS) = prediction + correction and the norm of the correction as the estimate for the error test, quadratures as prediction plus rl1*(h*fQ - znQ[1]), Jacobian data marked current, and an inequality constraint that the solution violates either repaired by a correction small enough, or the step refused with the ratio that avoids it; on failure return the solver's code (a recoverable user failure its own recoverable code), and leave the history alone. Norms over sensitivities are the largest over all of them, and update norms the larger of the old one and those.",
 ["inputs", "faults", "histories"], "all outcomes and failures of every user function and solver, with and without linear solver, every constraint pattern, vectors of any length, any number of sensitivities", "Tests never fail a solve, set no constraints, and use one sensitivity mode and one solver.",
 [CV], [("stage solves", "cvodes.c cvNls, cvQuadNls, cvStgrNls, cvStgr1Nls, cvQuadSensNls, cvCheckConstraints"), ("norms", "cvSensNorm, cvQuadSensNorm, cvQuadUpdateNorm, cvSensUpdateNorm, cvQuadSensUpdateNorm")], ["return codes", "y, yS, acor*, acnrm*, eta", "counters"]))
NEW.append(prop("C34", "The nonlinear solvers are given the equations of the method",
 "In each of the four forms (states alone, states with simultaneous sensitivities, staggered sensitivities, one sensitivity) the functions CVODES hands its nonlinear solver are those of the implicit formula: the residual is rl1*zn[1] + correction - gamma*f(tn, zn[0] + correction) and the fixed-point map rl1*(h*f(tn, zn[0] + correction) - zn[1]), for every sensitivity likewise with the sensitivity equations evaluated at the current time, states, f value and sensitivities; failures of the right-hand sides are mapped to their own recoverable or unrecoverable codes and every evaluation is counted; the linear setup passes on the convergence-failure kind, clears the setup flags, records step and gamma; the linear solve is done for each vector with its own weight; the convergence test accepts exactly when norm*min(1, rate)/tolerance is at most 1 with the rate max(0.3*rate, ratio of successive norms), reports divergence when the norm more than doubles, and records the norm. Attaching a solver frees one CVODES owns, leaves one of the user's alone, installs exactly these functions (linear setup and solve only for a solver of the root-finding type when a linear solver with a setup function exists), and refuses a missing memory block, solver, required operation or inconsistent sensitivity method with its own code. The operations on bundled vectors (SensWrapper) apply the vector operation to every member, and their norm is the largest member norm.",
 ["inputs", "faults"], "all states, histories, corrections, outcomes of the user functions, numbers of sensitivities and solver types", "Tests run one solver and one sensitivity method; a slightly wrong residual only slows convergence.",
 NLS + ["src/sundials/sundials_nvector_senswrapper.c", "src/nvector/serial/nvector_serial.c"][:1] + [CV], [("residual, fixed-point map, linear setup and solve, convergence test, attachment", "cvodes_nls.c, cvodes_nls_sim.c, cvodes_nls_stg.c, cvodes_nls_stg1.c"), ("sensitivity right-hand side wrappers", "cvodes.c cvSensRhsWrapper, cvSensRhs1Wrapper"), ("bundled vectors", "sundials_nvector_senswrapper.c")], ["residual vectors", "return codes", "counters", "installed functions"]))
NEW.append(prop("C35", "Error weights are those of the tolerances in force",
 "Whatever tolerances are set, in any order and any number of times, for the states, the quadratures, the sensitivities and the quadrature sensitivities: a tolerance call refuses a missing block, an integrator that does not exist (with the code of what is missing: no memory, no quadratures, no sensitivities, no quadrature sensitivities) and any negative relative or absolute tolerance, changing nothing then; otherwise it records the kind of tolerances, the relative tolerance and copies of its own of the absolute ones, of every sensitivity, and remembers for each vector whether an absolute tolerance is zero. Computing the weights gives, for every component of every vector, the inverse of relative tolerance times magnitude plus absolute tolerance of that vector and component, or fails exactly when one of these is not positive for a vector whose tolerances contain zero; estimated weights of a sensitivity are those of the sensitivity scaled by its parameter scale, scaled back; a user's weight function is used exactly after CVodeWFtolerances. The vectors, tolerances and every other part of the block stay as they were.",
 ["inputs", "histories"], "all values of tolerances and vectors, vectors of any length, any number of sensitivities, first and later calls", "Tests set one scalar tolerance once.",
 [CV], [("weights", "cvodes.c cvEwtSet, cvQuadEwtSet, cvSensEwtSet, cvQuadSensEwtSet and their SS, SV, EE forms"), ("tolerances", "CVode{,Quad,Sens,QuadSens}{SS,SV,EE}tolerances, CVodeWFtolerances")], ["return codes", "itol*, reltol*, Sabstol*, Vabstol*, atol*min0", "ewt*"]))
NEW.append(prop("C36", "The Newton and fixed point iterations do what the integrator relies on",
 "For every behaviour of the functions they are given, the nonlinear solvers follow one protocol. Newton: an attempt evaluates the residual at the correction, sets the linear solver up if that was asked for, and then repeats: solve the linear system for minus the residual, add the update to the correction, test convergence with that correction, that update, the tolerance, the weights and the number of the iteration. It goes on with a new residual while the test says so and the limit is not reached. If an attempt fails recoverably after its first residual and setup, while the Jacobian data are not current and a linear setup exists, a new attempt starts from a zero correction with a setup that is told the Jacobian is bad; else the solve ends with the code of the function that failed, or the recoverable convergence failure when the limit is reached. On success the correction is the one the test accepted and the Jacobian data are no longer current. Fixed point: each iteration evaluates the map at the correction, replaces the correction by it (or by what acceleration makes of it), and tests convergence with the change; a failure of the map or the test ends the solve with its own code. Iterations and failed attempts are counted, a missing function is refused, a limit below one or a damping factor not above zero is refused and changes nothing, and a new solver has empty functions, a limit of three and work vectors of its own.",
 ["inputs", "histories"], "all results of the callbacks, any number of iterations and attempts, vectors of any length", "Tests meet a handful of convergent iterations; retries and failure codes do not occur.",
 ["src/sunnonlinsol/newton/sunnonlinsol_newton.c", "src/sunnonlinsol/fixedpoint/sunnonlinsol_fixedpoint.c"], [("Newton", "SUNNonlinSolSolve_Newton and its initialise, set, get and constructor functions"), ("fixed point", "SUNNonlinSolSolve_FixedPoint and its initialise, set, get, damping and constructor functions")], ["return codes", "order and arguments of the callbacks", "correction", "niters, nconvfails, jcur, curiter"]))
NEW.append(prop("C37", "The linear systems are those of I - gamma J, with a Jacobian that is current when it has to be",
 "For every state of the integrator and every behaviour of the user's functions and of the linear solver object: the Jacobian is evaluated anew exactly in the first step, when the data are as old as the user's frequency allows, after a convergence failure with bad Jacobian data while gamma has changed by less than a fifth, or after another failure; otherwise the saved one is used, and what is saved is the one last evaluated. The matrix is I - gamma J for the current gamma, cleared before a direct solver's Jacobian is filled in. The step of the last update, the counts, the remembered code and the status that tells the nonlinear solver whether the data are current follow from what the functions did. The difference quotient Jacobian has in column j the difference of the right-hand side for component j alone perturbed by max(sqrt(u)|y_j|, minimum/weight), with the sign a constraint asks for, over that increment; the state is restored. The product with a vector is the difference quotient along it, retried with a quarter of the length at most twice; the operator of an iterative solver is v - gamma J v. The solve passes on the matrix, the right-hand side, a zero guess, the scaling vectors and the tolerance, scales the result by 2/(1+gamrat) when that is on, skips an iterative solve whose right-hand side is small enough, and every code of the solver other than success is a failure: recoverable if positive (accepted on the first iteration if the residual was at least reduced), unrecoverable if negative. Attaching a solver, the start of an integration and the user's settings leave the functions, data pointers and values the manual states, an unusable combination or value is refused and changes nothing, and a failed attachment leaves no released block behind.",
 ["inputs", "histories", "error paths"], "every state, result code and counter value, systems of any size", "Tests meet one dense direct solver that never fails.",
 ["src/cvodes/cvodes_ls.c"], [("setup and system", "cvLsSetup, cvLsLinSys, cvLsSolve, cvLsInitialize"), ("difference quotients", "cvLsDQJac, cvLsDenseDQJac, cvLsDQJtimes"), ("operators", "cvLsATimes, cvLsPSetup, cvLsPSolve"), ("settings", "CVodeSetLinearSolver, CVodeSetJacFn, CVodeSetLinSysFn, CVodeSetEpsLin, CVodeSetJacEvalFrequency, CVodeSetLinearSolutionScaling, CVodeSetLSNormFactor")], ["return codes and last_flag", "the matrix and the saved Jacobian", "arguments of the callbacks", "counters", "the correction"]))
