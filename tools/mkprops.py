import json, os
P=[]
def p(id,title,stmt,over,qt,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=state
    if obs: a["observe_at"]=obs
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})

IPM="src/Optimization/hiopAlgFilterIPM.cpp"; NLP="src/Optimization/hiopNlpFormulation.cpp"; IF="src/Interface/hiopInterface.hpp"
p("C01","A reported success is a true KKT point of the user's problem",
 "Whenever a solve returns Solve_Success, the primal-dual point HiOp hands back (solution, objective, bound multipliers, constraint multipliers) satisfies, when re-evaluated with the user's own functions, primal feasibility, dual feasibility (stationarity), sign and complementarity conditions of the user's problem to the requested tolerance (after the documented error scaling, gradient scaling and bound relaxation). The reported objective is the user's objective at the returned point. This holds for the dense (quasi-Newton) and the mixed dense-sparse (Newton) interfaces and for every supported combination of KKT linear system, dual update, dual initialisation, scaling and barrier options.",
 ["inputs","configurations"],"all problems (dimensions, bounds, equality/inequality structure, convex and nonconvex, scaling) x all solver option combinations",
 "the drivers compare the final objective of a dozen fixed problems with a stored number; no test evaluates the KKT conditions, or looks at the multipliers, for any other problem or option set",
 [IPM,NLP,"src/Optimization/hiopResidual.cpp",IF],
 [("termination test","hiopAlgFilterIPMBase::checkTermination, evalNlpAndLogErrors"),("residuals","hiopResidual::update"),("returned primal/dual point","getSolution/getDualSolutions/getObjective, hiopNlpFormulation::get_dual_solutions"),("user callback","hiopNlpFormulation::user_callback_solution")],
 obs="solve status, getSolution, getObjective, getDualSolutions, solution_callback")
p("C02","The optimum found does not depend on how the same problem is posed",
 "For a problem with a unique, well-conditioned solution, HiOp converges to that solution (same minimiser and objective to the tolerance) no matter how the same problem is posed: constraints and Jacobians evaluated in one call or in two, constraints listed in any order, equalities written as equal bounds, objective and constraints rescaled, starting point changed, through the dense or the mixed dense-sparse interface, and with any documented option that selects between equivalent algorithms.",
 ["inputs","configurations"],"all convex problems with known solution x equivalent formulations x option settings",
 "each driver runs one formulation of one problem; equivalence between formulations is never tested",
 [IPM,NLP,"src/Optimization/hiopNlpTransforms.hpp","src/Optimization/hiopKKTLinSysMDS.cpp","src/Optimization/hiopKKTLinSys.cpp"],
 [("constraint splitting","hiopNlpFormulation::process_constraints, eval_c_d, eval_Jac_c_d"),("scaling","hiopNLPObjGradScaling"),("KKT formulations","decideAndCreateLinearSystem")])
p("C03","User callbacks are evaluated as documented",
 "During a solve HiOp calls the user's functions only at points that respect the (relaxed) variable bounds (the starting point the user gave, at which scaling factors are computed, excepted), with new_x=false only if the point is the one most recently passed to a user function, with constraint subsets that are exactly the equalities or the inequalities (or all constraints when asked in one call), and with Hessian multipliers in the documented order and the documented objective factor. Arrays passed to the user have the documented sizes and nothing the user did not write is used.",
 ["histories","inputs","configurations"],"every sequence of user evaluations made in any solve of any problem with any options",
 "driver problems ignore new_x, do not record the evaluation history and never check the points at which they are evaluated",
 [NLP,IPM,IF],[("evaluation wrappers","hiopNlpFormulation::eval_*, hiopNlpMDS::eval_*, hiopNlpDenseConstraints::eval_*"),("call sites","hiopAlgFilterIPMBase::evalNlp*, line search, second-order correction, feasibility restoration")],
 obs="arguments of every user callback")
p("C04","Termination statuses are honest",
 "The status HiOp returns always describes what happened: infeasible problems never end in a success status, Max_Iter_Exceeded is returned exactly when the iteration limit stops the run, a false return from the iteration callback stops the run with User_Stopped at that iteration, and a user function that reports failure stops the run with Error_In_User_Function. In every case the process survives, the run terminates within its iteration limit, and getSolveStatus, the return value and the solution callback agree.",
 ["fault_sequences","inputs","configurations"],"every problem (feasible, infeasible, unbounded) x every point at which a user function fails or the user stops x iteration limits",
 "no test makes a user function fail or stops a run; infeasible and unbounded problems are not tested",
 [IPM,NLP],[("termination test","checkTermination, displayTerminationMsg"),("user evaluation failures","evalNlp_funcOnly/derivOnly/noHess and their callers"),("feasibility restoration","apply_feasibility_restoration, solve_feasibility_restoration")],
 obs="run() return value, getSolveStatus, solution_callback status")
p("C05","Callbacks and getters report the same, user-space state",
 "The values HiOp reports are mutually consistent and expressed in the user's original problem: the solution callback and getSolution/getObjective/getDualSolutions return the same point, multipliers and objective; the constraint values reported are the user's constraints at the reported x; each iterate callback reports an objective equal to the user's objective at the reported x and consecutive iteration numbers; and multipliers are ordered as the user's constraints. Gradient scaling, bound relaxation and the splitting into equalities and inequalities never show through.",
 ["histories","inputs","configurations"],"every iteration of every solve, with scaling active or not, any mix of equalities and inequalities",
 "drivers print or ignore the callback arguments; multipliers returned to the user are never compared with anything",
 [NLP,IPM,IF],[("solution callback","hiopNlpFormulation::user_callback_solution"),("iterate callback","hiopNlpFormulation::user_callback_iterate"),("getters","hiopAlgFilterIPMBase::getSolution/getDualSolutions/getObjective")],
 obs="solution_callback, iterate_callback, getters")
p("C06","Solves are deterministic and solver objects are reusable",
 "Running the same solve twice gives bit-identical iterates, status and solution; running the same solver object again (with the same or changed options, after success, after an iteration limit or after a user stop) gives the same result as a fresh solver object built with those options. No state leaks from one solve into the next.",
 ["histories","configurations"],"every sequence of option changes and re-runs on one solver object, and every pair of repeated runs",
 "one driver re-runs a solver once and only checks the objective; no test compares a re-run with a fresh run",
 [IPM,NLP,"src/Utils/hiopOptions.cpp"],[("re-initialisation","hiopAlgFilterIPM*::run, reload_options, finalizeInitialization, resetSolverStatus"),("stale state","filter, duals, perturbation, quasi-Newton memory, scaling")],
 obs="iterate callbacks and getters of successive runs")
p("C07","Results do not depend on the MPI distribution of the variables",
 "Every vector and dense-matrix operation, and every solve through the dense-constraints interface, gives the same result (up to floating-point reassociation) for any distribution of the variables over any number of MPI ranks, including ranks that own no variable, and all ranks agree on every scalar, status and iteration count.",
 ["configurations","inputs"],"all partitions of the variables over 1..4 ranks (uneven and empty parts included) x operations x problems",
 "the MPI tests use one even partition per test and mostly constant vectors; solves on several ranks are compared with a single stored objective",
 ["src/LinAlg/hiopVectorPar.cpp","src/LinAlg/hiopMatrixDenseRowMajor.cpp","src/Optimization/hiopHessianLowRank.cpp","src/Optimization/hiopIterate.cpp","src/Optimization/hiopResidual.cpp",NLP],
 [("reductions","hiopVectorPar::*norm/dot/min/allPositive..., MPI_Allreduce call sites"),("distributed Gram products","hiopMatrixDenseRowMajor::timesMatTrans, hiopHessianLowRank::symMatTimesInverseTimesMatTrans")])
p("C08","Fixed, free, one-sided and infinite bounds are treated as declared",
 "Variables whose bounds coincide keep their declared value (to the relaxation tolerance) in the reported solution whether fixed variables are kept, relaxed or removed; bounds at or beyond 1e20 in magnitude act as absent; every other bound is respected. The solution, callbacks and multipliers always have the user's dimension and order, and choosing between the fixed-variable treatments does not change the optimum.",
 ["inputs","configurations"],"all mixes of fixed/free/one-sided/two-sided/infinite variable bounds and constraint bounds x fixed_var modes x bound relaxation",
 "one dense driver exercises removal with a stored objective; duals, callbacks and the MDS path are untested",
 [NLP,"src/Optimization/hiopNlpTransforms.cpp","src/Optimization/hiopNlpTransforms.hpp"],[("bounds processing","hiopNlpFormulation::process_bounds, finalizeInitialization"),("fixed variables","hiopFixedVarsRemover, hiopFixedVarsRelaxer"),("bound relaxation","hiopBoundsRelaxer")])
p("C09","The internal NLP is the user's NLP",
 "At every point, the objective, gradient, equality and inequality bodies, their Jacobians and the Lagrangian Hessian that the NLP formulation hands to the solver equal the user's functions after the documented transformations (split into equalities and inequalities, gradient-based scaling with one factor for the objective and one per constraint applied consistently to values, right-hand sides, bounds, Jacobian rows and Hessian multipliers). Dense and mixed dense-sparse formulations, and one-call and two-call constraint evaluation, give identical results.",
 ["inputs","configurations"],"all problems, points, multipliers and scaling options",
 "formulation wrappers are only exercised implicitly by drivers whose gradients are too small to activate scaling",
 [NLP,"src/Optimization/hiopNlpTransforms.cpp","src/Optimization/hiopNlpTransforms.hpp"],[("wrappers","eval_f, eval_grad_f, eval_c_d, eval_Jac_c_d, eval_Hess_Lagr"),("scaling","hiopNLPObjGradScaling")])
p("C10","Search directions solve the full primal-dual Newton system",
 "Given any strictly interior iterate, Hessian, Jacobians and residual, the direction computed by each KKT formulation (reduced compressed forms, low-rank dense, mixed dense-sparse) satisfies the complete linearised primal-dual KKT system, regularisation included, to the accuracy the solver claims. When a factorisation or solve fails, failure is reported instead of a wrong direction.",
 ["inputs","configurations"],"all iterates, Hessians (including indefinite), Jacobians, residuals, bound patterns and regularisations x KKT formulations",
 "no unit test touches the KKT classes",
 ["src/Optimization/hiopKKTLinSys.cpp","src/Optimization/hiopKKTLinSysMDS.cpp","src/Optimization/hiopKKTLinSysDense.hpp","src/Optimization/hiopHessianLowRank.cpp"],
 [("compression and back-substitution","hiopKKTLinSysCompressed*::computeDirections, hiopKKTLinSys::compute_directions_for_full_space"),("iterative refinement","compute_directions_w_IR")])
p("C11","Regularised factorisations have the inertia of a descent system",
 "When the KKT system is accepted for a step, the regularised matrix has exactly as many negative eigenvalues as there are equality-type rows and no zero ones; regularisation is added only when needed, grows monotonically within one iteration until accepted, respects its configured minimum and maximum, and failure is reported if the maximum is exceeded.",
 ["inputs","histories","configurations"],"all sequences of factorisation outcomes (right inertia, wrong inertia, singular) x perturbation options, and all matrices",
 "inertia correction is only reached indirectly by a few nonconvex drivers",
 ["src/Optimization/hiopPDPerturbation.cpp","src/Optimization/hiopPDPerturbation.hpp","src/Optimization/hiopFactAcceptor.cpp","src/Optimization/hiopKKTLinSys.cpp"],
 [("perturbation schedule","hiopPDPerturbation*::compute_initial_deltas/compute_perturb_wrong_inertia/compute_perturb_singularity"),("acceptance","hiopFactAcceptorIC::requireReFactorization")])
p("C12","The quasi-Newton Hessian is the limited-memory secant matrix",
 "After any sequence of iterates, the low-rank Hessian used by the dense interface equals the limited-memory BFGS matrix defined by the retained secant pairs and the documented initial scaling: it is symmetric positive definite, maps the latest accepted step to the latest gradient change, skips pairs with insufficient curvature, keeps at most the configured number of pairs, and its products and solves (including with the barrier diagonal) are consistent with that matrix.",
 ["histories","inputs","configurations"],"all sequences of iterates/gradients/Jacobians/multipliers x memory lengths x sigma0 strategies",
 "no unit test touches the quasi-Newton class",
 ["src/Optimization/hiopHessianLowRank.cpp","src/Optimization/hiopHessianLowRank.hpp"],[("update","hiopHessianLowRank::update, growL/growD/updateL/updateD"),("solve","hiopHessianLowRank::solve, symMatTimesInverseTimesMatTrans, timesVec")])
p("C13","Barrier, residual and complementarity quantities match their definitions",
 "For any iterate and problem data, the residual components and norms, infeasibility, log-barrier objective, its gradient and directional derivative, slacks and damping terms HiOp computes equal their mathematical definitions.",
 ["inputs","configurations"],"all iterates, bound patterns, multipliers and barrier parameters",
 "only the underlying vector kernels have tests, with constant data",
 ["src/Optimization/hiopResidual.cpp","src/Optimization/hiopLogBarProblem.hpp","src/Optimization/hiopIterate.cpp"],[("residual","hiopResidual::update, compute_nlp_infeasib_onenorm"),("barrier","hiopLogBarProblem, hiopIterate::evalLogBarrier/addLogBarGrad/linearDampingTerm")])
p("C14","Iterates stay strictly interior and steps are the longest allowed",
 "From any point, the start-point projection lands strictly inside the bounds and moves nothing that is already well inside; step lengths are the largest in (0,1] that keep the configured fraction of the distance to every bound, for primal and dual variables alike; slacks are recomputed exactly and stay positive; and bound multipliers are kept within the configured factor of mu/slack.",
 ["inputs","histories"],"all iterates, directions, bound patterns, mu, tau and kappa",
 "vector-kernel tests use constant vectors; no test covers the iterate class or the moving-limit options",
 ["src/Optimization/hiopIterate.cpp","src/LinAlg/hiopVectorPar.cpp","src/Optimization/hiopDualsUpdater.cpp"],[("step lengths","hiopIterate::fractionToTheBdry, takeStep_primals, takeStep_duals"),("projection","projectPrimalsXIntoBounds, projectPrimalsDIntoBounds"),("slacks","determineSlacks, compute_safe_slacks"),("dual safeguards","adjustDuals_primalLogHessian, dualsUpdater go")])
p("C15","The line search follows the filter acceptance rules",
 "A trial point is accepted exactly when the filter rules say so: it is not dominated by any entry recorded in the filter, and it yields sufficient decrease of infeasibility or barrier objective, or the Armijo decrease when the switching condition holds. The filter starts each barrier problem empty apart from the infeasibility ceiling, and never forgets an entry within a barrier problem; an accepted point enters it unless the switching condition and the Armijo decrease both hold, the quantities compared are those of the trial point itself, and the next iterate is the accepted point.",
 ["histories","inputs"],"all sequences of add/contains/clear operations, and all (infeasibility, barrier objective, step, slope) combinations",
 "no test covers the filter or the acceptance conditions",
 ["src/Optimization/hiopFilter.cpp","src/Optimization/hiopFilter.hpp",IPM],[("filter","hiopFilter::add, contains, initialize, reinitialize"),("acceptance","hiopAlgFilterIPMBase::accept_line_search_conditions")])
p("C16","Vector operations compute their documented results",
 "Every operation of HiOp's host vectors (real and integer) stores or returns exactly the elementwise or reduction result documented for it, for all sizes including zero, all offsets, index maps and selection patterns, and special values; it leaves every other entry and every operand unchanged.",
 ["inputs","programs"],"all operations and sequences of operations x sizes x contents x patterns",
 "the vector tests mostly use constant vectors and one or two sizes, so errors in indexing, offsets and patterns cancel",
 ["src/LinAlg/hiopVectorPar.cpp","src/LinAlg/hiopVectorIntSeq.cpp","src/LinAlg/hiopVector.hpp"],[("operations","hiopVectorPar::*"),("integer vectors","hiopVectorIntSeq::*")])
p("C17","Dense matrix operations compute their documented results",
 "Every operation of HiOp's dense row-major matrices (products with vectors and matrices, transposes, block and row copies, diagonal and sub-block additions, scaling, norms, row/column shifts, symmetry checks) equals the textbook dense result, for all shapes including empty ones, and for all alpha/beta including zero; entries outside the documented target are unchanged.",
 ["inputs","programs"],"all operations x shapes x contents x offsets x coefficients",
 "matrix tests use constant matrices of one shape",
 ["src/LinAlg/hiopMatrixDenseRowMajor.cpp","src/LinAlg/hiopMatrixDense.hpp"],[("operations","hiopMatrixDenseRowMajor::*")])
p("C18","Sparse triplet and mixed dense-sparse matrices agree with their dense expansion",
 "Every operation of HiOp's sparse triplet matrices (general and symmetric) and of the mixed dense-sparse block matrices built from them gives the same result as the same operation on the expanded dense matrix, for all shapes, sparsity patterns (empty rows, unsorted insertion where allowed, full), offsets and coefficients.",
 ["inputs","programs"],"all operations x shapes x sparsity patterns x values x offsets",
 "tests use one banded or full pattern with constant values",
 ["src/LinAlg/hiopMatrixSparseTriplet.cpp","src/LinAlg/hiopMatrixMDS.hpp"],[("triplet operations","hiopMatrixSparseTriplet::*, hiopMatrixSymSparseTriplet::*"),("block operations","hiopMatrixMDS::*, hiopMatrixSymBlockDiagMDS::*")])
p("C19","Compressed-row sparse kernels agree with dense algebra",
 "For any compressed-sparse-row matrices, symbolic and numeric phases of products, sums, transposes, format conversions and diagonal updates give matrices that are structurally valid (sorted, in range) and numerically equal to dense algebra; the numeric phase can be repeated with new values on the same pattern.",
 ["inputs","programs"],"all patterns and values x operation sequences (symbolic once, numeric many times)",
 "the CSR class has no unit test in the repository's default build",
 ["src/LinAlg/hiopMatrixSparseCSRSeq.cpp","src/LinAlg/hiopMatrixSparseCSR.hpp"],[("kernels","times_mat_alloc/symbolic/numeric, add_matrix_*, form_transpose_from_*, form_from_*, times_diag_times_mat_*")])
p("C20","Complex matrices and Kron reduction agree with complex linear algebra",
 "Complex dense and sparse matrix operations equal textbook complex arithmetic, the sparse complex direct solver solves its system, and the Kron reduction of an admittance matrix equals the Schur complement onto the retained buses, with the recovered auxiliary voltages satisfying the eliminated equations.",
 ["inputs","programs"],"all matrices, patterns, right-hand sides and bus partitions",
 "two fixed examples are tested",
 ["src/LinAlg/hiopMatrixComplexDense.cpp","src/LinAlg/hiopMatrixComplexSparseTriplet.cpp","src/LinAlg/hiopLinSolverUMFPACKZ.cpp","src/Utils/hiopKronReduction.cpp"],[("reduction","hiopKronReduction::go, apply_nonaux_to_aux"),("complex kernels","hiopMatrixComplexDense::*, hiopMatrixComplexSparseTriplet::*")])
p("C21","Linear solvers are accurate and report inertia and failure truthfully",
 "The dense symmetric direct solver returns the exact number of negative eigenvalues of every well-conditioned symmetric matrix and reports singular ones, and its solves are backward stable, also when the same object is refactorised with new values or used for several right-hand sides. The Krylov solvers (PCG, BiCGStab; with or without preconditioners and starting points) report convergence only when the true residual meets the requested tolerance, report failure otherwise, converge on well-conditioned symmetric positive definite systems, and never return non-finite points.",
 ["inputs","histories"],"all symmetric matrices (definite, indefinite, singular, badly scaled), right-hand sides, tolerances, iteration limits, preconditioners and reuse sequences",
 "the tests solve one fixed system per solver and do not check inertia or failure reporting",
 ["src/LinAlg/hiopLinSolverSymDenseLapack.hpp","src/LinAlg/hiopKrylovSolver.cpp"],[("direct solver","hiopLinSolverSymDenseLapack::matrixChanged, solve"),("Krylov solvers","hiopPCGSolver::solve, hiopBiCGStabSolver::solve")])
p("C22","Options are validated, and files override code as documented",
 "For any sequence of option assignments through the API and any options file, an accepted value is the value later returned, values outside the documented range or choice set are rejected without changing the option, unknown options are rejected, a value given in the options file takes precedence over one set at run time, and defaults apply otherwise; options that depend on each other are reconciled the same way whatever the order of assignment, and is_user_defined tells exactly which options were given. Any options file, well formed or not, is read without crashing, and its valid lines still take effect.",
 ["inputs","histories"],"all option files (including malformed ones) and all sequences of API assignments",
 "options have no unit tests; drivers only use a few valid options",
 ["src/Utils/hiopOptions.cpp","src/Utils/hiopOptions.hpp"],[("assignment and precedence","hiopOptions::SetNumericValue/SetIntegerValue/SetStringValue"),("parser","hiopOptions::loadFromFile"),("consistency","ensureConsistence")])
p("C23","The C and Fortran interfaces are equivalent to the C++ interface",
 "Solving a problem through the C interface (dense or mixed dense-sparse) or the Fortran interface (dense) gives the same status, objective and solution as the same problem solved through the C++ interface with the same options; all callbacks receive the same arguments, and create/solve/destroy can be repeated in one process.",
 ["inputs","histories"],"all problems and option settings expressible in the C interface, and all create/solve/destroy sequences",
 "one C driver per interface is run on a fixed problem",
 ["src/Interface/chiopInterface.cpp","src/Interface/chiopInterface.hpp"],[("adapters","cppUserProblemMDS, cppUserProblemDense"),("entry points","hiop_mds_create_problem, hiop_mds_solve_problem, hiop_dense_*")])
p("C24","The primal decomposition solver finds the optimum on any schedule",
 "For two-stage problems with convex recourse, the primal decomposition solver reports success only at a point whose true objective is within tolerance of the optimum, and the reported objective and solution do not depend on the number of MPI ranks, on the order in which recourse evaluations complete, or on how long each takes. Every scenario requested is evaluated at the master solution it was requested for.",
 ["schedules","configurations","inputs"],"all assignments of recourse evaluations to ranks and completion orders x problems x number of scenarios",
 "driver runs use a fixed number of ranks and only print the result",
 ["src/Optimization/hiopAlgPrimalDecomp.cpp","src/Optimization/hiopAlgPrimalDecomp.hpp","src/Interface/hiopInterfacePrimalDecomp.cpp"],[("master/worker loop","hiopAlgPrimalDecomposition::run, run_single"),("recourse model","HessianApprox, RecourseApproxEvaluator")])
p("C25","Feasibility restoration returns only genuinely improved points",
 "The restoration problem posed when the line search fails is a correct NLP: its derivatives are those of its objective and constraints, its starting point is interior, and its slack variables make the elastic constraints hold. When restoration claims success the solver continues from a point with lower constraint violation (or, for the soft restoration, a lower primal-dual error) that is acceptable to the filter, and when it cannot reduce infeasibility the solve ends with a non-success status.",
 ["inputs","histories"],"all problems, reference points, multipliers, and all runs that enter restoration",
 "restoration is entered by two drivers whose outcome is one stored objective",
 ["src/Optimization/hiopFRProb.cpp","src/Optimization/hiopFRProb.hpp",IPM],[("restoration problems","hiopFRProbMDS, hiopFRProbDense"),("use of the result","solve_feasibility_restoration, reset_var_from_fr_sol")])
p("C26","Diagnostics are faithful and never change the result",
 "Verbosity, timing and KKT-dump options never change the iterates or the result; the evaluation counters HiOp reports equal the number of user evaluations made; a dumped linear system read back equals the system that was solved; and the iteration log lists every iteration in order.",
 ["configurations","histories"],"all verbosity and output options x problems",
 "no test reads back a dump or compares runs with different verbosity",
 ["src/Utils/hiopCSR_IO.hpp","src/Utils/hiopLogger.cpp","src/Utils/hiopRunStats.hpp",IPM],[("dump","hiopCSR_IO::writeMatToFile, writeRhsToFile, writeSolToFile"),("counters","hiopRunStats"),("log","outputIteration")])
p("C27","Starting points given by the user are used as given",
 "The first iterate a solve reports is the starting point the user provided: multipliers and inequality slacks of the user's own (unscaled) problem are taken over unchanged, primal values and slacks are only moved as far as needed to lie inside the bounds by the configured margins, and a warm start is not moved at all. What the user does not provide (or refuses to provide, including a refused warm start) gets the documented default and never an uninitialised value.",
 ["inputs","configurations"],"all starting modes x bound patterns x scaling and warm start options",
 "drivers start from one fixed primal point without scaling; no test provides multipliers with scaling or refuses a warm start",
 [IPM,"src/Optimization/hiopNlpFormulation.cpp","src/Optimization/hiopIterate.cpp","src/Interface/hiopInterface.hpp"],[("starting procedure","hiopAlgFilterIPMBase::startingProcedure"),("user's point","hiopNlpFormulation::get_starting_point, get_warmstart_point"),("projection","hiopIterate::projectPrimalsXIntoBounds, projectPrimalsDIntoBounds")])
p("C28","Every iteration is a step of the documented interior-point method",
 "For every problem and option setting, the barrier parameter starts at mu0 and is reduced by the documented rule (kappa_mu, theta_mu, tolerance floor) exactly when the current barrier problem is solved to kappa_eps*mu, and in elastic mode the bounds in use are the user's, relaxed by the configured amount for that barrier parameter. The first trial step is the longest one the fraction-to-the-boundary rule and the moving limits allow and each further trial halves it; the next iterate is the previous one plus the accepted step along the computed direction, with positive slacks recomputed from the bounds, bound multipliers moved by their own step length and kept within kappa_Sigma of mu/slack, and equality multipliers moved linearly or recomputed by least squares as configured. The error measures that decide about the barrier parameter and termination are those of that iterate.",
 ["inputs","histories","configurations"],"all problems, starting points and settings of the barrier, step, elastic-mode and dual-update options, over whole runs",
 "tests check final objectives of a few runs; wrong steps that still converge, or only in non-default modes, stay invisible",
 [IPM,"src/Optimization/hiopIterate.cpp","src/Optimization/hiopResidual.cpp","src/Optimization/hiopDualsUpdater.cpp"],[("barrier parameter and elastic bounds","hiopAlgFilterIPMBase::update_log_barrier_params, hiopNlpFormulation::reset_bounds"),("step","hiopIterate::fractionToTheBdry, takeStep_primals, ensure_moving_lims"),("multipliers","hiopDualsLsqUpdate, hiopDualsNewtonLinearUpdate, hiopIterate::adjustDuals_primalLogHessian"),("errors","hiopAlgFilterIPMBase::evalNlpAndLogErrors, hiopResidual::update")])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),"w") as f:
    for q in P:
        assert len(q["title"])<=80,(q["id"],len(q["title"]))
        assert q["statement"].count(". ")<=2,(q["id"],q["statement"].count(". "))
        f.write(json.dumps(q)+"\n")
print(len(P))
