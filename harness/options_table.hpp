// documented options of the NLP solver: default, range or choices (checkpoint options excluded: no AXOM in this build)
#pragma once
struct NumDef { const char* name; double def, lo, hi; };
struct IntDef { const char* name; int def, lo, hi; };
struct StrDef { const char* name; const char* def; const char* range; };
static const std::vector<NumDef> NLP_NUM = {
  {"acceptable_tolerance", 1.000e-06, 1e-14, 0.1},
  {"bound_relax_perturb", 1.000e-08, 0, 1e+20},
  {"comp_tol", 1.000e-04, 1e-16, 1e+10},
  {"cons_tol", 1.000e-04, 1e-16, 1e+10},
  {"delta_0_bar", 1.000e-04, 0, 1e+40},
  {"delta_c_bar", 1.000e-08, 1e-20, 1e+40},
  {"delta_w_max_bar", 1.000e+20, 1e-40, 1e+40},
  {"delta_w_min_bar", 1.000e-20, 0, 1000},
  {"dual_tol", 1.000e+00, 1e-16, 1e+10},
  {"duals_lsq_ini_max", 1.000e+03, 1e-16, 1e+10},
  {"elastic_mode_bound_relax_final", 1.000e-12, 1e-16, 0.1},
  {"elastic_mode_bound_relax_initial", 1.000e-02, 1e-08, 0.1},
  {"eq_relax_factor", 1.000e-08, 1e-15, 1},
  {"eta_phi", 1.000e-08, 0, 0.01},
  {"fixed_var_perturb", 1.000e-08, 1e-14, 0.1},
  {"fixed_var_tolerance", 1.000e-15, 1e-30, 0.01},
  {"ir_inner_tol", 1.000e-12, 1e-16, 0.1},
  {"ir_inner_tol_factor", 1.000e-02, 1e-20, 1},
  {"ir_inner_tol_min", 1.000e-06, 1e-16, 0.1},
  {"ir_outer_tol_factor", 1.000e-02, 1e-20, 1},
  {"ir_outer_tol_min", 1.000e-06, 1e-20, 1e+20},
  {"kappa1", 1.000e-02, 1e-16, 1},
  {"kappa2", 1.000e-02, 1e-16, 0.49999},
  {"kappa_c", 2.500e-01, 0, 1e+40},
  {"kappa_eps", 1.000e+01, 1e-06, 1000},
  {"kappa_mu", 2.000e-01, 1e-08, 0.999},
  {"kappa_resto", 9.000e-01, 0, 1},
  {"kappa_soc", 9.900e-01, 0, 1e+20},
  {"kappa_w_minus", 1./3, 1e-20, 1},
  {"kappa_w_plus", 8.000e+00, 1, 1e+40},
  {"kappa_w_plus_bar", 1.000e+02, 1, 1e+40},
  {"min_step_size", 1.000e-16, 0, 1e+06},
  {"moving_lim_abs", 0.000e+00, 0, 1e+08},
  {"moving_lim_rel", 0.000e+00, 0, 1},
  {"mu0", 1.000e+00, 1e-16, 1000},
  {"neg_curv_test_fact", 1.000e-11, 0, 1e+20},
  {"recalc_lsq_duals_tol", 1.000e-06, 0, 1e+10},
  {"rel_tolerance", 0.000e+00, 0, 0.1},
  {"scaling_max_con_grad", 0.000e+00, 0, 1e+20},
  {"scaling_max_grad", 1.000e+02, 1e-20, 1e+20},
  {"scaling_max_obj_grad", 0.000e+00, 0, 1e+20},
  {"scaling_min_grad", 1.000e-08, 0, 1e+20},
  {"sigma0", 1.000e+00, 0, 1e+07},
  {"smax", 1.000e+02, 1, 1e+07},
  {"tau_min", 9.900e-01, 0.9, 0.99999},
  {"theta_max_fact", 1.000e+04, 0, 1e+07},
  {"theta_min_fact", 1.000e-04, 0, 1e+07},
  {"theta_mu", 1.500e+00, 1, 2},
  {"tolerance", 1.000e-08, 1e-14, 0.1}
};
static const std::vector<IntDef> NLP_INT = {
  {"acceptable_iterations", 10, 1, 1000000},
  {"ir_inner_conv_cond", 0, 0, 2},
  {"ir_inner_maxit", 50, 0, 1000},
  {"ir_inner_restart", 20, 1, 100},
  {"ir_outer_maxit", 8, 0, 100},
  {"max_iter", 3000, 1, 1000000},
  {"max_soc_iter", 4, 0, 1000000},
  {"secant_memory_len", 6, 0, 256},
  {"verbosity_level", 3, 0, 12}
};
static const std::vector<StrDef> NLP_STR = {
  {"Hessian", "quasinewton_approx", "quasinewton_approx analytical_exact"},
  {"KKTLinsys", "auto", "auto xycyd xdycyd full condensed normaleqn"},
  {"accept_every_trial_step", "no", "no yes"},
  {"callback_mem_space", "default", "default"},
  {"compute_mode", "auto", "auto cpu hybrid gpu"},
  {"duals_init", "lsq", "lsq zero"},
  {"duals_init_linear_solver_sparse", "auto", "auto ma57 pardiso resolve strumpack ginkgo"},
  {"duals_update_type", "lsq", "lsq linear"},
  {"elastic_bound_strategy", "mu_projected", "mu_projected mu_scaled"},
  {"elastic_mode", "none", "none tighten_bound correct_it correct_it_adjust_bound"},
  {"exec_policies", "auto", "auto seq"},
  {"fact_acceptor", "inertia_correction", "inertia_correction inertia_free"},
  {"fixed_var", "none", "remove relax none"},
  {"force_resto", "no", "no yes"},
  {"ginkgo_exec", "reference", "cuda hip reference"},
  {"ginkgo_trisolve", "syncfree", "syncfree sparselib"},
  {"ir_inner_gs_scheme", "mgs", "mgs cgs2 mgs_two_synch mgs_pm"},
  {"linear_solver_sparse", "auto", "auto ma57 pardiso strumpack resolve ginkgo cusolver-chol"},
  {"linear_solver_sparse_ordering", "symamd-eigen", "metis symamd-cuda symamd-eigen symrcm amd-ssparse colamd-ssparse"},
  {"linsol_mode", "stable", "stable speculative forcequick"},
  {"mem_backend", "auto", "auto stdcpp"},
  {"mem_space", "default", "default"},
  {"normaleqn_regularization_priority", "dual_first", "primal_first dual_first"},
  {"options_file_fr_prob", "hiop_fr.options", ""},
  {"print_options", "no", "yes no short"},
  {"regularization_method", "scalar", "scalar randomized"},
  {"resolve_factorization", "klu", "klu"},
  {"resolve_refactorization", "glu", "glu rf"},
  {"scaling_type", "gradient", "none gradient"},
  {"sigma_update_strategy", "sty", "sigma0 sty sty_inv snrm_ynrm sty_srnm_ynrm"},
  {"time_kkt", "off", "on off"},
  {"warm_start", "no", "no yes"},
  {"write_kkt", "no", "no yes"}
};
