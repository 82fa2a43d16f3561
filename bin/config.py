"""Builds, harnesses and targets of every property."""
ASAN = "-O1 -g1 -fsanitize=address -fno-omit-frame-pointer"
def coinhsl(root, bdir, run, die):
    """stand-in for MA57 (engine/ma57_dense.cpp), so that the sparse interface can be built and solved"""
    import os
    lib = os.path.join(bdir + "_hsl", "lib")
    inc = os.path.join(bdir + "_hsl", "include")
    os.makedirs(lib, exist_ok=True)
    os.makedirs(inc, exist_ok=True)
    open(os.path.join(inc, "CoinHslConfig.h"), "a").close()
    o = os.path.join(lib, "ma57.o")
    if run(["g++", "-O1", "-g1", "-c", os.path.join(root, "engine", "ma57_dense.cpp"), "-o", o]).returncode: die("building the MA57 stand-in failed")
    if not os.path.exists(os.path.join(lib, "libcoinhsl.a")) or os.path.getmtime(o) > os.path.getmtime(os.path.join(lib, "libcoinhsl.a")):
        if run(["ar", "rcs", os.path.join(lib, "libcoinhsl.a"), o]).returncode: die("archiving the MA57 stand-in failed")
BUILDS = {
    "sparse": {"flags": "-O1 -g1 -fsanitize=address -fno-omit-frame-pointer", "prepare": coinhsl, "cmake": ["-DHIOP_SPARSE=ON", "-DHIOP_USE_COINHSL=ON", "-DHIOP_COINHSL_DIR={bdir}_hsl"], "libs": ["{bdir}_hsl/lib/libcoinhsl.a"]},
    "plain": {"flags": "-O1 -g1", "cmake": ["-DHIOP_SPARSE=OFF"], "libs": []},
    "std": {"flags": ASAN, "cmake": ["-DHIOP_SPARSE=OFF"], "libs": []},
}
HARNESS = {
    "vec": {"src": ["harness/vec.cpp"]},
    "solver": {"src": ["harness/solver.cpp", "harness/solver_b.cpp", "harness/solver_c.cpp", "harness/solver_d.cpp", "harness/solver_e.cpp", "harness/solver_f.cpp", "harness/solver_g.cpp", "harness/solver_h.cpp", "harness/solver_m.cpp"]},
    "densemat": {"src": ["harness/densemat.cpp"]},
    "sparse": {"src": ["harness/sparse.cpp"]},
    "csr": {"src": ["harness/csr.cpp"]},
    "cplx": {"src": ["harness/cplx.cpp"]},
    "options": {"src": ["harness/options.cpp"]},
    "capi": {"src": ["harness/capi.cpp", "harness/capi_c.c", "repo:src/Interface/chiopInterface.cpp", "repo:src/Interface/hiopFortranInterface.c"]},
    "linsys": {"src": ["harness/linsys.cpp"]},
    "pridec": {"src": ["harness/pridec.cpp"]},
    "comp": {"src": ["harness/comp.cpp", "harness/comp_b.cpp", "harness/comp_c.cpp", "harness/comp_d.cpp", "harness/comp_e.cpp"]},
}
COMMON_ASSUMPTIONS = [
    "exploration by generated inputs: cases not generated are not covered",
    "IEEE double arithmetic, host memory backend, reference BLAS/LAPACK of this sandbox",
]
PROPS = {
    "C01": {
        "rule": "a case counts as non-trivial when the solve ends in Solve_Success on a problem with constraints or at least two variables; distinct = distinct choice sequences",
        "targets": [
            {"name": "kkt_dense", "harness": "solver", "quick": 20000, "thorough": 400000},
            {"name": "kkt_mds", "harness": "solver", "quick": 20000, "thorough": 400000},
            {"name": "kkt_sparse", "harness": "solver", "build": "sparse", "quick": 12000, "thorough": 300000},
            {"name": "kkt_spineq", "harness": "solver", "build": "sparse", "quick": 8000, "thorough": 200000},
            {"name": "kkt_spdiag", "harness": "solver", "build": "sparse", "quick": 6000, "thorough": 150000},
        ],
    },
    "C02": {
        "rule": "a case counts as non-trivial when at least one re-posed variant (other than the reference pose) of a problem with two or more variables ends in Solve_Success and is compared with the constructed minimiser",
        "targets": [
            {"name": "inv_dense", "harness": "solver", "quick": 12000, "thorough": 200000},
            {"name": "inv_mds", "harness": "solver", "quick": 12000, "thorough": 200000},
            {"name": "inv_sparse", "harness": "solver", "build": "sparse", "quick": 8000, "thorough": 150000},
        ],
    },
    "C03": {
        "rule": "a case counts as non-trivial when the run has more than three iterate callbacks on a constrained problem",
        "targets": [
            {"name": "cb_dense", "harness": "solver", "quick": 20000, "thorough": 400000},
            {"name": "cb_mds", "harness": "solver", "quick": 20000, "thorough": 400000},
            {"name": "cb_sparse", "harness": "solver", "build": "sparse", "quick": 8000, "thorough": 200000},
            {"name": "cb_spineq", "harness": "solver", "build": "sparse", "quick": 5000, "thorough": 100000},
            {"name": "cb_spdiag", "harness": "solver", "build": "sparse", "quick": 4000, "thorough": 80000},
        ],
    },
    "C04": {
        "rule": "a case counts as non-trivial when the injected failure or stop request really fired, the infeasible problem was iterated on, the iteration limit was smaller than the iterations needed, or (term_*) the run reached the acceptable level, the relative tolerance or the iteration limit",
        "targets": [
            {"name": "fault_dense", "harness": "solver", "quick": 10000, "thorough": 300000},
            {"name": "fault_mds", "harness": "solver", "quick": 10000, "thorough": 300000},
            {"name": "infeas_dense", "harness": "solver", "quick": 400, "thorough": 8000},
            {"name": "infeas_mds", "harness": "solver", "quick": 1000, "thorough": 30000},
            {"name": "maxiter_dense", "harness": "solver", "quick": 5000, "thorough": 100000},
            {"name": "maxiter_mds", "harness": "solver", "quick": 5000, "thorough": 100000},
            {"name": "term_dense", "harness": "solver", "quick": 8000, "thorough": 300000},
            {"name": "term_mds", "harness": "solver", "quick": 8000, "thorough": 300000},
            {"name": "fault_sparse", "harness": "solver", "build": "sparse", "quick": 8000, "thorough": 200000},
            {"name": "fault_spineq", "harness": "solver", "build": "sparse", "quick": 4000, "thorough": 80000},
            {"name": "infeas_sparse", "harness": "solver", "build": "sparse", "quick": 400, "thorough": 20000},
            {"name": "maxiter_sparse", "harness": "solver", "build": "sparse", "quick": 3000, "thorough": 80000},
            {"name": "maxiter_spineq", "harness": "solver", "build": "sparse", "quick": 2000, "thorough": 40000},
            {"name": "term_sparse", "harness": "solver", "build": "sparse", "quick": 4000, "thorough": 150000},
            {"name": "term_spineq", "harness": "solver", "build": "sparse", "quick": 3000, "thorough": 80000},
        ],
    },
    "C05": {
        "rule": "a case counts as non-trivial when the run has more than two iterate callbacks and the problem has constraints or non-unit scaling factors",
        "targets": [
            {"name": "cons_dense", "harness": "solver", "quick": 15000, "thorough": 300000},
            {"name": "cons_mds", "harness": "solver", "quick": 15000, "thorough": 300000},
            {"name": "cons_sparse", "harness": "solver", "build": "sparse", "quick": 8000, "thorough": 200000},
            {"name": "cons_spineq", "harness": "solver", "build": "sparse", "quick": 4000, "thorough": 80000},
        ],
    },
    "C06": {
        "rule": "a case counts as non-trivial when a second or later run of the same solver object performed iterations and was compared with a fresh object",
        "targets": [
            {"name": "reuse_dense", "harness": "solver", "quick": 5000, "thorough": 100000},
            {"name": "reuse_mds", "harness": "solver", "quick": 8000, "thorough": 150000},
            {"name": "reuse_sparse", "harness": "solver", "build": "sparse", "quick": 5000, "thorough": 100000},
            {"name": "reuse_spineq", "harness": "solver", "build": "sparse", "quick": 3000, "thorough": 60000},
            {"name": "reuse_spdiag", "harness": "solver", "build": "sparse", "quick": 3000, "thorough": 60000},
        ],
    },
    "C16": {
        "rule": "a case counts as non-trivial when it has a mixed selection pattern, an actual offset/index map, or a sequence of two or more operations on two or more elements; distinct = distinct choice sequences",
        "targets": [
            {"name": "vec_elementwise", "harness": "vec", "quick": 150000, "thorough": 6000000},
            {"name": "vec_copies", "harness": "vec", "quick": 100000, "thorough": 4000000},
        ],
    },
    "C17": {
        "rule": "a case counts as non-trivial when the matrix has at least two rows and two columns (or the operation has a real offset/shift); distinct = distinct choice sequences",
        "targets": [
            {"name": "dense_ops", "harness": "densemat", "quick": 60000, "thorough": 2000000},
        ],
    },
    "C18": {
        "rule": "a case counts as non-trivial when the matrices have at least two stored elements (or rows) or the operation has a real offset; distinct = distinct choice sequences",
        "targets": [
            {"name": "triplet_ops", "harness": "sparse", "quick": 100000, "thorough": 5000000},
            {"name": "symtriplet_ops", "harness": "sparse", "quick": 60000, "thorough": 3000000},
            {"name": "mds_ops", "harness": "sparse", "quick": 60000, "thorough": 2000000},
            {"name": "symmds_ops", "harness": "sparse", "quick": 40000, "thorough": 1500000},
        ],
    },
    "C19": {
        "rule": "a case counts as non-trivial when the operands have at least two stored elements and the result is not empty; distinct = distinct choice sequences",
        "targets": [
            {"name": "csr_convert", "harness": "csr", "quick": 60000, "thorough": 2000000},
            {"name": "csr_product", "harness": "csr", "quick": 60000, "thorough": 2000000},
            {"name": "csr_sum", "harness": "csr", "quick": 60000, "thorough": 2000000},
            {"name": "csr_inplace", "harness": "csr", "quick": 60000, "thorough": 2000000},
            {"name": "csr_condensed", "harness": "csr", "quick": 40000, "thorough": 1500000},
        ],
    },
    "C20": {
        "rule": "a case counts as non-trivial when the matrices have at least two rows, columns and stored elements (linear solves and Kron reductions: a system was solved or both bus sets are not empty); distinct = distinct choice sequences",
        "targets": [
            {"name": "cdense_ops", "harness": "cplx", "quick": 60000, "thorough": 3000000},
            {"name": "csparse_ops", "harness": "cplx", "quick": 60000, "thorough": 3000000},
            {"name": "umfpackz", "harness": "cplx", "quick": 60000, "thorough": 3000000},
            {"name": "kron", "harness": "cplx", "quick": 60000, "thorough": 3000000},
        ],
    },
    "C21": {
        "rule": "a case counts as non-trivial when the system has at least two rows and (Krylov) a nonzero right-hand side; distinct = distinct choice sequences",
        "targets": [
            {"name": "symdense", "harness": "linsys", "quick": 100000, "thorough": 4000000},
            {"name": "krylov_pcg", "harness": "linsys", "quick": 100000, "thorough": 4000000},
            {"name": "krylov_bicgstab", "harness": "linsys", "quick": 100000, "thorough": 4000000},
        ],
    },
    "C22": {
        "rule": "a case counts as non-trivial when at least two assignments (file lines or API calls) were accepted; distinct = distinct choice sequences",
        "targets": [
            {"name": "options_nlp", "harness": "options", "quick": 60000, "thorough": 2000000},
            {"name": "options_pridec", "harness": "options", "quick": 150000, "thorough": 6000000},
        ],
    },
    "C23": {
        "rule": "a case counts as non-trivial when at least one solve through the C or Fortran interface performed two or more iterations and was compared with the C++ interface; distinct = distinct choice sequences",
        "targets": [
            {"name": "capi_history", "harness": "capi", "quick": 6000, "thorough": 150000},
        ],
    },
    "C08": {
        "rule": "a case counts as non-trivial when at least two fixed-variable treatments of a problem with fixed variables or absent bounds ended in success and were compared with the known minimiser",
        "targets": [
            {"name": "bounds_dense", "harness": "solver", "quick": 4000, "thorough": 150000},
            {"name": "bounds_mds", "harness": "solver", "quick": 6000, "thorough": 200000},
            {"name": "bounds_sparse", "harness": "solver", "build": "sparse", "quick": 4000, "thorough": 80000},
        ],
    },
    "C09": {
        "rule": "a case counts as non-trivial when four or more evaluations or transformations were compared on a problem with constraints and at least two variables that is scaled, has fixed variables, or mixes equalities and inequalities",
        "targets": [
            {"name": "nlp_dense", "harness": "comp", "quick": 40000, "thorough": 1500000},
            {"name": "nlp_mds", "harness": "comp", "quick": 40000, "thorough": 1500000},
            {"name": "nlp_sparse", "harness": "comp", "quick": 40000, "thorough": 1500000},
        ],
    },
    "C27": {
        "rule": "a case counts as non-trivial when the problem has constraints and at least two variables and the user provided (or refused) a starting point; distinct = distinct choice sequences",
        "targets": [
            {"name": "start_dense", "harness": "solver", "quick": 40000, "thorough": 1000000},
            {"name": "start_mds", "harness": "solver", "quick": 40000, "thorough": 1000000},
            {"name": "start_sparse", "harness": "solver", "build": "sparse", "quick": 15000, "thorough": 400000},
        ],
    },
    "C28": {
        "rule": "a case counts as non-trivial when the problem has constraints and at least three steps and two reductions of the barrier parameter were compared with the method",
        "targets": [
            {"name": "ipm_dense", "harness": "solver", "quick": 14000, "thorough": 600000},
            {"name": "ipm_mds", "harness": "solver", "quick": 14000, "thorough": 600000},
            {"name": "ipm_sparse", "harness": "solver", "build": "sparse", "quick": 7000, "thorough": 250000},
            {"name": "ipm_spineq", "harness": "solver", "build": "sparse", "quick": 5000, "thorough": 120000},
            {"name": "ipm_spdiag", "harness": "solver", "build": "sparse", "quick": 3000, "thorough": 80000},
        ],
    },
    "C13": {
        "rule": "a case counts as non-trivial when the problem has constraints, a one-sided bound with damping switched on, and a two-sided bound or inequality",
        "targets": [
            {"name": "bar_dense", "harness": "comp", "quick": 40000, "thorough": 2000000},
            {"name": "bar_mds", "harness": "comp", "quick": 40000, "thorough": 1500000},
            {"name": "bar_sparse", "harness": "comp", "quick": 40000, "thorough": 1500000},
        ],
    },
    "C14": {
        "rule": "a case counts as non-trivial when the problem has both lower and upper bounds and a projection, a limited step, a slack adjustment or a multiplier correction took place",
        "targets": [
            {"name": "step", "harness": "comp", "quick": 60000, "thorough": 3000000},
        ],
    },
    "C12": {
        "rule": "a case counts as non-trivial when two or more secant pairs were stored and a solve with the barrier diagonal was compared (ill-conditioned systems are not compared)",
        "targets": [
            {"name": "lowrank", "harness": "comp", "quick": 60000, "thorough": 3000000},
        ],
    },
    "C10": {
        "rule": "a case counts as non-trivial when a direction was compared, component by component, with the full primal-dual system (ill-conditioned systems are not), or when a singular system or a curvature test was decided",
        "targets": [
            {"name": "kkt_xycyd", "harness": "comp", "quick": 10000, "thorough": 600000},
            {"name": "kkt_xdycyd", "harness": "comp", "quick": 10000, "thorough": 600000},
            {"name": "kkt_mds", "harness": "comp", "quick": 10000, "thorough": 600000},
            {"name": "kkt_lowrank", "harness": "comp", "quick": 10000, "thorough": 600000},
            {"name": "kkt_free", "harness": "comp", "quick": 10000, "thorough": 600000},
            {"name": "kkt_sp_xycyd", "harness": "comp", "build": "sparse", "quick": 10000, "thorough": 400000},
            {"name": "kkt_sp_xdycyd", "harness": "comp", "build": "sparse", "quick": 10000, "thorough": 400000},
            {"name": "kkt_sp_cond", "harness": "comp", "build": "sparse", "quick": 10000, "thorough": 400000},
            {"name": "kkt_sp_norm", "harness": "comp", "build": "sparse", "quick": 10000, "thorough": 400000},
        ],
    },
    "C11": {
        "rule": "a case counts as non-trivial when an iteration needed three or more refused factorisations, a restart with dual regularisation, or gave up at the maximum (schedules), or when a constrained system was accepted with primal regularisation and its eigenvalues were counted (matrices)",
        "targets": [
            {"name": "reg_primal", "harness": "comp", "quick": 40000, "thorough": 2000000},
            {"name": "reg_dual", "harness": "comp", "quick": 20000, "thorough": 1000000},
            {"name": "inertia", "harness": "comp", "quick": 20000, "thorough": 1000000},
        ],
    },
    "C15": {
        "rule": "a case counts as non-trivial when queries were answered both ways (filter_seq), when the Armijo or the filter rule decided (ls_rules), or when a watched solve had at least one rejected trial point, three points added to the filter and one restart of the filter (ls_dense, ls_mds)",
        "targets": [
            {"name": "filter_seq", "harness": "solver", "quick": 40000, "thorough": 4000000},
            {"name": "ls_rules", "harness": "solver", "quick": 40000, "thorough": 2000000},
            {"name": "ls_dense", "harness": "solver", "quick": 8000, "thorough": 400000, "min_nontrivial": 0.12},
            {"name": "ls_mds", "harness": "solver", "quick": 8000, "thorough": 400000, "min_nontrivial": 0.08},
            {"name": "ls_sparse", "harness": "solver", "build": "sparse", "quick": 6000, "thorough": 120000, "min_nontrivial": 0.1},
        ],
    },
    "C07": {
        "rule": "run on groups of 2 to 4 MPI processes; a case counts as non-trivial when at least two ranks own variables and, for solves, when at least four iterates of the distributed solve were compared with those of the solve on one rank; vector and matrix cases as for C16 and C17",
        "targets": [
            {"name": "vec_elementwise", "harness": "vec", "mode": "mpi", "quick": 20000, "thorough": 2000000},
            {"name": "dense_ops", "harness": "densemat", "mode": "mpi", "quick": 20000, "thorough": 2000000},
            {"name": "solve_dist", "harness": "solver", "mode": "mpi", "quick": 500, "thorough": 40000},
        ],
    },
    "C25": {
        "rule": "a case counts as non-trivial when the problem has equalities and inequalities and the reference point is infeasible (fr_dense, fr_mds, fr_sparse), or when a watched solve had at least one restoration that claimed success (fr_solve_*)",
        "targets": [
            {"name": "fr_dense", "harness": "comp", "quick": 15000, "thorough": 2000000},
            {"name": "fr_mds", "harness": "comp", "quick": 15000, "thorough": 2000000},
            {"name": "fr_sparse", "harness": "comp", "quick": 15000, "thorough": 2000000},
            {"name": "fr_solve_dense", "harness": "solver", "quick": 6000, "thorough": 300000},
            {"name": "fr_solve_mds", "harness": "solver", "quick": 12000, "thorough": 600000},
            {"name": "fr_solve_sparse", "harness": "solver", "build": "sparse", "quick": 6000, "thorough": 100000},
        ],
    },
    "C26": {
        "rule": "a case counts as non-trivial when more than three lines of the iteration log or more than three dumped right-hand sides and solutions were compared with what happened (diag_*), or when a dump of a system of more than one unknown was compared entry by entry with the independently assembled system and with the directions returned (dump_kkt)",
        "targets": [
            {"name": "diag_dense", "harness": "solver", "quick": 6000, "thorough": 400000},
            {"name": "diag_mds", "harness": "solver", "quick": 6000, "thorough": 400000},
            {"name": "dump_kkt", "harness": "comp", "quick": 20000, "thorough": 2000000},
            {"name": "diag_sparse", "harness": "solver", "build": "sparse", "quick": 4000, "thorough": 100000},
        ],
    },
    "C24": {
        "rule": "a case counts as non-trivial when a user function failed in it, or when at least four master problems were solved and (pridec_single) the bound on the distance to the optimum that follows from the stopping rule is smaller than the distance of the first solution, or (pridec_sched) at least two ranks took part",
        "targets": [
            {"name": "pridec_single", "harness": "pridec", "quick": 25000, "thorough": 2000000},
            {"name": "pridec_sched", "harness": "pridec", "mode": "mpi", "quick": 1500, "thorough": 100000},
        ],
    },
}
