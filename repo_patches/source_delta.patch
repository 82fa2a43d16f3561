From 078d0439a22583526fd4f715f5f14e74514d53fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:48 +0000
Subject: [PATCH 01/81] fix: dense products with an empty inner dimension or an
 empty result

timesMat returned W unchanged instead of beta*W when the inner dimension
is zero, and transTimesMat passed a zero leading dimension to DGEMM (which
stops the process) when the result has no columns.
---
 src/LinAlg/hiopMatrixDenseRowMajor.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/LinAlg/hiopMatrixDenseRowMajor.cpp b/src/LinAlg/hiopMatrixDenseRowMajor.cpp
index 478ac89..c4bc6e7 100644
--- a/src/LinAlg/hiopMatrixDenseRowMajor.cpp
+++ b/src/LinAlg/hiopMatrixDenseRowMajor.cpp
@@ -546,7 +546,7 @@ void hiopMatrixDenseRowMajor::timesMat(double beta, hiopMatrix& W_, double alpha
   assert(X.m()==this->n());
   assert(W.n()==X.n());
 
-  if(W.m()==0 || X.m()==0 || W.n()==0) return;
+  if(W.m()==0 || W.n()==0) return;
 #ifdef HIOP_DEEPCHECKS  
   assert(W.isfinite());
   assert(X.isfinite());
@@ -587,6 +587,16 @@ void hiopMatrixDenseRowMajor::timesMat_local(double beta, hiopMatrix& W_, double
   assert(X.isfinite());
 #endif
   assert(W.n_local_==W.n_global_ && "requested multiplication is not supported, see timesMat");
+
+  if(W.m()==0 || W.n()==0) return;
+  if(X.m()==0) {
+    //empty inner dimension, only beta*W remains (leading dimensions of zero are not valid for DGEMM)
+    if(beta!=1.0) {
+      int one=1; int mn=W.m()*W.n();
+      DSCAL(&mn, &beta, W.M_[0], &one);
+    }
+    return;
+  }
   
   /* C = alpha*op(A)*op(B) + beta*C in our case is
      Wt= alpha* Xt  *Mt    + beta*Wt */
@@ -625,7 +635,7 @@ void hiopMatrixDenseRowMajor::transTimesMat(double beta, hiopMatrix& W_, double
   assert(W.isfinite());
   assert(X.isfinite());
 #endif
-  if(W.m()==0) return;
+  if(W.m()==0 || W.n_local_==0) return;
 
   assert(this->n_global_==this->n_local_ && "requested parallel multiplication is not supported");
   
-- 
2.43.0


From 289c6ad2864f4fd3ccb3f13b2b3888aedc2acf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:06 +0000
Subject: [PATCH 02/81] fix: report unscaled duals, slacks and constraint
 bodies to the user

With gradient scaling active getDualSolutions never read the constraint duals of
the iterate and multiplied (instead of divided) by the objective scaling; the
solution callback did the same and rescaled the iterate in place; the iterate
callback mixed the unscaled objective with scaled duals, slacks and bodies.
---
 src/Optimization/hiopNlpFormulation.cpp | 108 ++++++++++++++----------
 src/Optimization/hiopNlpFormulation.hpp |   6 ++
 2 files changed, 71 insertions(+), 43 deletions(-)

diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index 5204681..7909856 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -64,6 +64,7 @@
 
 #include <stdlib.h>     /* exit, EXIT_FAILURE */
 #include <cassert>
+#include <memory>
 
 using namespace std;
 namespace hiop
@@ -1051,31 +1052,55 @@ get_dual_solutions(const hiopIterate& it, double* zl_a, double* zu_a, double* la
     if(temp_x_ == nullptr) {
       temp_x_ = this->alloc_primal_vec();
     }
+    // z_unscaled = z_scaled/obj_scale
     temp_x_->copyFrom(*it.get_zl());
-    temp_x_->scale(obj_scale_ext_to_hiop);
+    temp_x_->scale(1./obj_scale_ext_to_hiop);
     temp_x_->copyTo(zl_a);
     temp_x_->copyFrom(*it.get_zu());
-    temp_x_->scale(obj_scale_ext_to_hiop);
+    temp_x_->scale(1./obj_scale_ext_to_hiop);
     temp_x_->copyTo(zu_a);
 
-    if(temp_eq_ == nullptr) {
-      temp_eq_ = this->alloc_dual_eq_vec();
-    }
-    if(temp_ineq_ == nullptr) {
-      temp_ineq_ = this->alloc_dual_ineq_vec();
-    }
     if(cons_lambdas_ == nullptr) {
       cons_lambdas_ = this->alloc_dual_vec();
     }
-    temp_eq_   = nlp_transformations_.apply_to_cons_eq(*temp_eq_, n_cons_eq_);
-    temp_ineq_ = nlp_transformations_.apply_to_cons_ineq(*temp_ineq_, n_cons_ineq_);
-    cons_lambdas_->copy_from_two_vec_w_pattern(*temp_eq_, *cons_eq_mapping_, *temp_ineq_, *cons_ineq_mapping_);
-    cons_lambdas_->scale(obj_scale_ext_to_hiop);
+    unscale_cons_duals(*it.get_yc(), *it.get_yd(), *cons_lambdas_);
     cons_lambdas_->copyTo(lambda_a);
   }
 
 }
 
+void hiopNlpFormulation::unscale_cons_duals(const hiopVector& y_c, const hiopVector& y_d, hiopVector& lambdas)
+{
+  if(temp_eq_ == nullptr) {
+    temp_eq_ = this->alloc_dual_eq_vec();
+  }
+  if(temp_ineq_ == nullptr) {
+    temp_ineq_ = this->alloc_dual_ineq_vec();
+  }
+  // y_unscaled = y_scale*y_scaled/obj_scale
+  temp_eq_->copyFrom(y_c);
+  temp_ineq_->copyFrom(y_d);
+  nlp_transformations_.apply_to_cons_eq(*temp_eq_, n_cons_eq_);
+  nlp_transformations_.apply_to_cons_ineq(*temp_ineq_, n_cons_ineq_);
+  lambdas.copy_from_two_vec_w_pattern(*temp_eq_, *cons_eq_mapping_, *temp_ineq_, *cons_ineq_mapping_);
+  lambdas.scale(1./this->get_obj_scale());
+}
+
+void hiopNlpFormulation::unscale_cons_body(const hiopVector& c, const hiopVector& d, hiopVector& body)
+{
+  if(temp_eq_ == nullptr) {
+    temp_eq_ = this->alloc_dual_eq_vec();
+  }
+  if(temp_ineq_ == nullptr) {
+    temp_ineq_ = this->alloc_dual_ineq_vec();
+  }
+  temp_eq_->copyFrom(c);
+  temp_ineq_->copyFrom(d);
+  nlp_transformations_.apply_inv_to_cons_eq(*temp_eq_, n_cons_eq_);
+  nlp_transformations_.apply_inv_to_cons_ineq(*temp_ineq_, n_cons_ineq_);
+  body.copy_from_two_vec_w_pattern(*temp_eq_, *cons_eq_mapping_, *temp_ineq_, *cons_ineq_mapping_);
+}
+
 void hiopNlpFormulation::user_callback_solution(hiopSolveStatus status,
                                                 const hiopVector& x,
                                                 hiopVector& z_L,
@@ -1094,29 +1119,18 @@ void hiopNlpFormulation::user_callback_solution(hiopSolveStatus status,
   if(cons_lambdas_ == nullptr) {
     cons_lambdas_ = this->alloc_dual_vec();
   }
-  if(nlp_scaling_) {
-    // return unscaled values. 
-    // it's safe to modify these values since this function is called in the end
-    // y_unscaled = y_scale*y_scaled/obj_scale, z_unscaled = z_scaled/obj_scale
-    y_c = *(nlp_transformations_.apply_to_cons_eq(y_c, n_cons_eq_));
-    y_d = *(nlp_transformations_.apply_to_cons_ineq(y_d, n_cons_ineq_));
-    y_c.scale(obj_scale_ext_to_hiop);
-    y_d.scale(obj_scale_ext_to_hiop);
-    z_L.scale(obj_scale_ext_to_hiop);
-    z_U.scale(obj_scale_ext_to_hiop);
-  }
-  cons_lambdas_->copy_from_two_vec_w_pattern(y_c, *cons_eq_mapping_, y_d, *cons_ineq_mapping_);
-
   //concatenate 'c' and 'd' into user's constraint body
   if(cons_body_ == nullptr) {
     cons_body_ = cons_lambdas_->alloc_clone();
   }
-  if(nlp_scaling_) {
-    // return unscaled values 
-    c = *(nlp_transformations_.apply_inv_to_cons_eq(c, n_cons_eq_));
-    d = *(nlp_transformations_.apply_inv_to_cons_ineq(d, n_cons_ineq_));
-  }
-  cons_body_->copy_from_two_vec_w_pattern(c, *cons_eq_mapping_, d, *cons_ineq_mapping_);
+  // return unscaled values; use copies since the iterate can be queried after this call
+  // z_unscaled = z_scaled/obj_scale
+  std::unique_ptr<hiopVector> zl(z_L.new_copy());
+  std::unique_ptr<hiopVector> zu(z_U.new_copy());
+  zl->scale(1./obj_scale_ext_to_hiop);
+  zu->scale(1./obj_scale_ext_to_hiop);
+  unscale_cons_duals(y_c, y_d, *cons_lambdas_);
+  unscale_cons_body(c, d, *cons_body_);
 
   //! todo -> test this when fixed variables are removed -> the internal
   //! zl and zu may have different sizes than what user expects since HiOp removes
@@ -1134,8 +1148,8 @@ void hiopNlpFormulation::user_callback_solution(hiopSolveStatus status,
     hiopVectorPar cons_lambdas_host(n_cons_);
 
     x.copy_to_vectorpar(x_host);
-    z_L.copy_to_vectorpar(zl_host);
-    z_U.copy_to_vectorpar(zu_host);
+    zl->copy_to_vectorpar(zl_host);
+    zu->copy_to_vectorpar(zu_host);
     cons_body_->copy_to_vectorpar(cons_body_host);
     cons_lambdas_->copy_to_vectorpar(cons_lambdas_host);
 
@@ -1152,8 +1166,8 @@ void hiopNlpFormulation::user_callback_solution(hiopSolveStatus status,
     interface_base.solution_callback(status,
                                     (int)n_vars_,
                                     x.local_data_const(),
-                                    z_L.local_data_const(),
-                                    z_U.local_data_const(),
+                                    zl->local_data_const(),
+                                    zu->local_data_const(),
                                     (int)n_cons_,
                                     cons_body_->local_data_const(),
                                     cons_lambdas_->local_data_const(),
@@ -1190,13 +1204,21 @@ bool hiopNlpFormulation::user_callback_iterate(int iter,
   if(cons_lambdas_ == NULL) {
     cons_lambdas_ = this->alloc_dual_vec();
   }
-  cons_lambdas_->copy_from_two_vec_w_pattern(y_c, *cons_eq_mapping_, y_d, *cons_ineq_mapping_);
+  unscale_cons_duals(y_c, y_d, *cons_lambdas_);
 
   //concatenate 'c' and 'd' into user's constrainty body
   if(cons_body_ == NULL) {
     cons_body_ = cons_lambdas_->alloc_clone();
   }
-  cons_body_->copy_from_two_vec_w_pattern(c, *cons_eq_mapping_, d, *cons_ineq_mapping_);
+  unscale_cons_body(c, d, *cons_body_);
+
+  // the user works with the unscaled problem
+  std::unique_ptr<hiopVector> zl(z_L.new_copy());
+  std::unique_ptr<hiopVector> zu(z_U.new_copy());
+  std::unique_ptr<hiopVector> sl(s.new_copy());
+  zl->scale(1./this->get_obj_scale());
+  zu->scale(1./this->get_obj_scale());
+  nlp_transformations_.apply_inv_to_cons_ineq(*sl, n_cons_ineq_);
 
   //! todo -> test this when fixed variables are removed -> the internal
   //! zl and zu may have different sizes than what user expects since HiOp removes
@@ -1214,13 +1236,13 @@ bool hiopNlpFormulation::user_callback_iterate(int iter,
     x.copy_to_vectorpar(x_host);
 
     hiopVectorPar s_host(n_cons_ineq_, vec_distrib_, comm_);
-    s.copy_to_vectorpar(s_host);
+    sl->copy_to_vectorpar(s_host);
     
     hiopVectorPar zl_host(n_vars_, vec_distrib_, comm_);
-    z_L.copy_to_vectorpar(zl_host);
+    zl->copy_to_vectorpar(zl_host);
     
     hiopVectorPar zu_host(n_vars_, vec_distrib_, comm_);
-    z_U.copy_to_vectorpar(zu_host);
+    zu->copy_to_vectorpar(zu_host);
     
     hiopVectorPar cons_body_host(n_cons_, vec_distrib_, comm_);
     cons_body_->copy_to_vectorpar(cons_body_host);
@@ -1253,10 +1275,10 @@ bool hiopNlpFormulation::user_callback_iterate(int iter,
                                            logbar_obj_value,
                                            (int)n_vars_,
                                            x.local_data_const(),
-                                           z_L.local_data_const(),
-                                           z_U.local_data_const(),
+                                           zl->local_data_const(),
+                                           zu->local_data_const(),
                                            (int)n_cons_ineq_,
-                                           s.local_data_const(),
+                                           sl->local_data_const(),
                                            (int)n_cons_,
                                            cons_body_->local_data_const(),
                                            cons_lambdas_->local_data_const(),
diff --git a/src/Optimization/hiopNlpFormulation.hpp b/src/Optimization/hiopNlpFormulation.hpp
index ed522f4..54f150f 100644
--- a/src/Optimization/hiopNlpFormulation.hpp
+++ b/src/Optimization/hiopNlpFormulation.hpp
@@ -272,6 +272,12 @@ public:
   /// @brief return the scaling fact for objective
   double get_obj_scale() const;
 
+  /// @brief unscale the constraints duals and assemble them in the user's order in `lambdas`
+  void unscale_cons_duals(const hiopVector& y_c, const hiopVector& y_d, hiopVector& lambdas);
+
+  /// @brief unscale the constraints bodies and assemble them in the user's order in `body`
+  void unscale_cons_body(const hiopVector& c, const hiopVector& d, hiopVector& body);
+
   /// @brief adjust variable/constraint bounds according to the given iteration.
   void adjust_bounds(const hiopIterate& it);
 
-- 
2.43.0


From 60ca745627663fe6a4dd44a90e6bc64051b62c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 03/81] fix: scale one-call dense Jacobians and MDS Hessian
 multipliers in the right direction and order

---
 src/Optimization/hiopNlpFormulation.cpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index 7909856..2d4e180 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -1555,8 +1555,8 @@ bool hiopNlpDenseConstraints::eval_Jac_c_d_interface_impl(hiopVector& x, bool ne
   Jac_dde->copyRowsFrom(*cons_Jac_, cons_ineq_mapping_->local_data_const(), n_cons_ineq_);
   
   // scale Jacobian matrices
-  Jac_c = *(nlp_transformations_.apply_inv_to_jacob_eq(Jac_c, n_cons_eq_));
-  Jac_d = *(nlp_transformations_.apply_inv_to_jacob_ineq(Jac_d, n_cons_ineq_));
+  Jac_c = *(nlp_transformations_.apply_to_jacob_eq(Jac_c, n_cons_eq_));
+  Jac_d = *(nlp_transformations_.apply_to_jacob_ineq(Jac_d, n_cons_ineq_));
 
   runStats.tmEvalJac_con.stop();
   runStats.nEvalJac_con_eq++;
@@ -1853,12 +1853,20 @@ bool hiopNlpMDS::eval_Hess_Lagr(const hiopVector& x,
       buf_lambda_ = this->alloc_dual_vec();
     }
     assert(buf_lambda_);
-    buf_lambda_->copyFromStarting(0,         lambda_eq.local_data_const(),   n_cons_eq_);
-    buf_lambda_->copyFromStarting(n_cons_eq_, lambda_ineq.local_data_const(), n_cons_ineq_);
-
-    // scale lambda before passing it to user interface to compute Hess
-    int n_cons_eq_ineq = n_cons_eq_ + n_cons_ineq_;
-    buf_lambda_ = nlp_transformations_.apply_to_cons(*buf_lambda_, n_cons_eq_ineq);
+    // scale lambda before passing it to user interface to compute Hess; the order of the multipliers
+    // is [lambda_eq, lambda_ineq], so equalities and inequalities are scaled separately
+    if(temp_eq_ == nullptr) {
+      temp_eq_ = this->alloc_dual_eq_vec();
+    }
+    if(temp_ineq_ == nullptr) {
+      temp_ineq_ = this->alloc_dual_ineq_vec();
+    }
+    temp_eq_->copyFrom(lambda_eq);
+    temp_ineq_->copyFrom(lambda_ineq);
+    nlp_transformations_.apply_to_cons_eq(*temp_eq_, n_cons_eq_);
+    nlp_transformations_.apply_to_cons_ineq(*temp_ineq_, n_cons_ineq_);
+    buf_lambda_->copyFromStarting(0,         temp_eq_->local_data_const(),   n_cons_eq_);
+    buf_lambda_->copyFromStarting(n_cons_eq_, temp_ineq_->local_data_const(), n_cons_ineq_);
 
     double obj_factor_with_scale = obj_factor*get_obj_scale();
 
-- 
2.43.0


From 4fea37b96f0b21e37f74b9d89ab537424c9be02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:56 +0000
Subject: [PATCH 04/81] fix: apply scaling_max_con_grad to each constraint and
 skip zero gradients

---
 src/Optimization/hiopNlpTransforms.cpp | 27 +++++++++++++-------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/Optimization/hiopNlpTransforms.cpp b/src/Optimization/hiopNlpTransforms.cpp
index d97696b..4de2cfd 100644
--- a/src/Optimization/hiopNlpTransforms.cpp
+++ b/src/Optimization/hiopNlpTransforms.cpp
@@ -458,18 +458,6 @@ hiopNLPObjGradScaling::hiopNLPObjGradScaling(hiopNlpFormulation* nlp,
   scale_factor_cd = LinearAlgebraFactory::create_vector(nlp_->options->GetString("mem_space"),
                                                         n_eq + n_ineq);
 
-  Jac_c.row_max_abs_value(*scale_factor_c);
-  scale_factor_c->scale(1./max_grad);
-  scale_factor_c->component_max(1.0);
-  scale_factor_c->invert();
-
-  Jac_d.row_max_abs_value(*scale_factor_d);
-  scale_factor_d->scale(1./max_grad);
-  scale_factor_d->component_max(1.0);
-  scale_factor_d->invert();
-
-  scale_factor_cd->copy_from_two_vec_w_pattern(*scale_factor_c, cons_eq_mapping, *scale_factor_d, cons_ineq_mapping);
-
   Jac_c.row_max_abs_value(*scale_factor_c);
   Jac_d.row_max_abs_value(*scale_factor_d);
   if(max_con_grad == 0.) {
@@ -489,13 +477,24 @@ hiopNLPObjGradScaling::hiopNLPObjGradScaling(hiopNlpFormulation* nlp,
       scale_factor_d->setToConstant(1.0);
     }
   } else {
-    scale_factor_c->setToConstant(max_con_grad / scale_factor_c->infnorm());
-    scale_factor_d->setToConstant(max_con_grad / scale_factor_d->infnorm());
+    // each constraint is scaled so that the norm of its gradient is max_con_grad; constraints with a zero
+    // gradient are not scaled
+    for(hiopVector* sf : {scale_factor_c, scale_factor_d}) {
+      hiopVector* is_zero = sf->new_copy();
+      is_zero->component_sgn();
+      is_zero->scale(-1.0);
+      is_zero->addConstant(1.0);
+      sf->scale(1./max_con_grad);
+      sf->axpy(1.0, *is_zero);
+      sf->invert();
+      delete is_zero;
+    }
   }
   if(min_grad > 0.0) {
     scale_factor_c->component_max(min_grad);
     scale_factor_d->component_max(min_grad);
   }
+  scale_factor_cd->copy_from_two_vec_w_pattern(*scale_factor_c, cons_eq_mapping, *scale_factor_d, cons_ineq_mapping);
 }
 
 hiopNLPObjGradScaling::~hiopNLPObjGradScaling()
-- 
2.43.0


From 220dacbc7e517f0ec88a0e6474049c51fec7107b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:39 +0000
Subject: [PATCH 05/81] fix: report failures of user functions as
 Error_In_User_Function instead of asserting or ignoring them

---
 src/Optimization/hiopAlgFilterIPM.cpp | 83 +++++++++++++++++++++------
 1 file changed, 64 insertions(+), 19 deletions(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 973c6d4..487a501 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -344,7 +344,6 @@ int hiopAlgFilterIPMBase::startingProcedure(hiopIterate& it_ini,
 
   if(!this->evalNlp_noHess(it_ini, f, c, d, gradf, Jac_c, Jac_d)) {
     nlp->log->printf(hovError, "Failure in evaluating user provided NLP functions.");
-    assert(false);
     return false;
   }
 
@@ -363,7 +362,6 @@ int hiopAlgFilterIPMBase::startingProcedure(hiopIterate& it_ini,
   // do function evaluation again after we adjust the primals and/or add scaling
   if(!this->evalNlp_noHess(it_ini, f, c, d, gradf, Jac_c, Jac_d)) {
     nlp->log->printf(hovError, "Failure in evaluating user provided NLP functions.");
-    assert(false);
     return false;
   }
 
@@ -425,7 +423,8 @@ int hiopAlgFilterIPMBase::startingProcedure(hiopIterate& it_ini,
 
   //we have the duals
   if(!this->evalNlp_HessOnly(it_ini, *_Hess_Lagr)) {
-    assert(false);
+    nlp->runStats.tmStartingPoint.stop();
+    nlp->runStats.tmSolverInternal.stop();
     return false;
   }
 
@@ -905,6 +904,13 @@ void hiopAlgFilterIPMBase::displayTerminationMsg()
                        strStatsReport.c_str());
       break;
     }
+  case Error_In_User_Function:
+    {
+      nlp->log->printf(hovSummary,
+                       "Error in the evaluation of a user provided function.\n%s\n",
+                       strStatsReport.c_str());
+      break;
+    }
   case Err_Step_Computation:
   {
       nlp->log->printf(hovSummary,
@@ -1000,7 +1006,11 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
   //
   if(nlp->options->GetString("checkpoint_load_on_start") != "yes" && !load_state_api_called_) {
     //this also evaluates the nlp
-    startingProcedure(*it_curr, _f_nlp, *_c, *_d, *_grad_f, *_Jac_c, *_Jac_d); 
+    if(!startingProcedure(*it_curr, _f_nlp, *_c, *_d, *_grad_f, *_Jac_c, *_Jac_d)) {
+      solver_status_ = Error_In_User_Function;
+      nlp->runStats.tmOptimizTotal.stop();
+      return Error_In_User_Function;
+    }
     _mu=mu0;
     iter_num_total_ = 0;
   } else {
@@ -1015,7 +1025,11 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
         nlp->log->printf(hovWarning, "Using default starting procedure (no checkpoint load!).\n");
         iter_num_total_ = 0;
         //fall back on the default starting procedure (it also evaluates the nlp)
-        startingProcedure(*it_curr, _f_nlp, *_c, *_d, *_grad_f, *_Jac_c, *_Jac_d); 
+        if(!startingProcedure(*it_curr, _f_nlp, *_c, *_d, *_grad_f, *_Jac_c, *_Jac_d)) {
+          solver_status_ = Error_In_User_Function;
+          nlp->runStats.tmOptimizTotal.stop();
+          return Error_In_User_Function;
+        }
         _mu=mu0;
         iter_num_total_ = 0;
       }
@@ -1028,6 +1042,8 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
     //additionally: need to evaluate the nlp
     if(!this->evalNlp_noHess(*it_curr, _f_nlp, *_c, *_d, *_grad_f, *_Jac_c, *_Jac_d)) {
       nlp->log->printf(hovError, "Failure in evaluating user NLP functions at loaded checkpoint.");
+      solver_status_ = Error_In_User_Function;
+      nlp->runStats.tmOptimizTotal.stop();
       return Error_In_User_Function;
     }
     solver_status_ = NlpSolve_SolveNotCalled;
@@ -1302,6 +1318,7 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
       if(!this->evalNlp_funcOnly(*it_trial, _f_nlp_trial, *_c_trial, *_d_trial)) {
         solver_status_ = Error_In_User_Function;
         nlp->runStats.tmOptimizTotal.stop();
+        delete kkt;
         return Error_In_User_Function;
       }
 
@@ -1349,6 +1366,12 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
                                                  grad_phi_dx_soc_computed,
                                                  grad_phi_dx_soc,
                                                  num_adjusted_slacks_soc);
+        if(Error_In_User_Function==solver_status_) {
+          nlp->runStats.tmSolverInternal.stop();
+          nlp->runStats.tmOptimizTotal.stop();
+          delete kkt;
+          return Error_In_User_Function;
+        }
         if(lsStatus>0) {
           num_adjusted_slacks = num_adjusted_slacks_soc;
           grad_phi_dx_computed = grad_phi_dx_soc_computed;
@@ -1389,8 +1412,8 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
       if(use_fr) {
         // continue iterations if FR is accepted
         solver_status_ = NlpSolve_Pending;
-        nlp->runStats.tmSolverInternal.stop();
       }
+      nlp->runStats.tmSolverInternal.stop();
     } else if(lsStatus==1) {
       //need to check switching cond and Armijo to decide if filter is augmented
       if(!grad_phi_dx_computed) {
@@ -2139,7 +2162,12 @@ hiopSolveStatus hiopAlgFilterIPMNewton::run()
 
   nlp->runStats.tmOptimizTotal.start();
 
-  startingProcedure(*it_curr, _f_nlp, *_c, *_d, *_grad_f, *_Jac_c, *_Jac_d); //this also evaluates the nlp
+  //this also evaluates the nlp
+  if(!startingProcedure(*it_curr, _f_nlp, *_c, *_d, *_grad_f, *_Jac_c, *_Jac_d)) {
+    solver_status_ = Error_In_User_Function;
+    nlp->runStats.tmOptimizTotal.stop();
+    return Error_In_User_Function;
+  }
   _mu=mu0;
 
   //update log bar
@@ -2568,6 +2596,12 @@ hiopSolveStatus hiopAlgFilterIPMNewton::run()
                                                    grad_phi_dx_soc_computed,
                                                    grad_phi_dx_soc,
                                                    num_adjusted_slacks_soc);
+          if(Error_In_User_Function==solver_status_) {
+            nlp->runStats.tmSolverInternal.stop();
+            nlp->runStats.tmOptimizTotal.stop();
+            delete kkt;
+            return Error_In_User_Function;
+          }
           if(lsStatus>0) {
             num_adjusted_slacks = num_adjusted_slacks_soc;
             grad_phi_dx_computed = grad_phi_dx_soc_computed;
@@ -2608,9 +2642,9 @@ hiopSolveStatus hiopAlgFilterIPMNewton::run()
         if(use_fr) {
           // continue iterations if FR is accepted
           solver_status_ = NlpSolve_Pending;
-          nlp->runStats.tmSolverInternal.stop();
-          break;
         }
+        nlp->runStats.tmSolverInternal.stop();
+        break;
       } else if(lsStatus==1) {
 
         //need to check switching cond and Armijo to decide if filter is augmented
@@ -3001,7 +3035,10 @@ int hiopAlgFilterIPMBase::apply_second_order_correction(hiopKKTLinSys* kkt,
 
     // solve for search directions
     bret = kkt->computeDirections(resid_trial, soc_dir); 
-    assert(bret);
+    if(!bret) {
+      //no correction is available, the line search continues with shorter steps
+      return 0;
+    }
 
     // Compute step size
     bret = it_curr->fractionToTheBdry(*soc_dir, _tau, alpha_primal_soc, alpha_dual_soc); 
@@ -3015,7 +3052,7 @@ int hiopAlgFilterIPMBase::apply_second_order_correction(hiopKKTLinSys* kkt,
     //evaluate the problem at the trial iterate (functions only)
     if(!this->evalNlp_funcOnly(*it_trial, _f_nlp_trial, *_c_trial, *_d_trial)) {
       solver_status_ = Error_In_User_Function;
-      return Error_In_User_Function;
+      return 0;
     }
 
     logbar->updateWithNlpInfo_trial_funcOnly(*it_trial, _f_nlp_trial, *_c_trial, *_d_trial);
@@ -3049,6 +3086,9 @@ bool hiopAlgFilterIPMBase::apply_feasibility_restoration(hiopKKTLinSys* kkt)
       // variables have already been updated inside the above function
       return true;
     }
+    if(Error_In_User_Function==solver_status_) {
+      return false;
+    }
   
     // continue robust FR
     hiopNlpFormulation* nlpFR{nullptr};
@@ -3067,7 +3107,7 @@ bool hiopAlgFilterIPMBase::apply_feasibility_restoration(hiopKKTLinSys* kkt)
           // FR succeeds, update it_trial->x and it_trial->d to the next search point
           it_trial->get_x()->copyFrom(nlp_fr_interface.get_fr_sol_x());
           it_trial->get_d()->copyFrom(nlp_fr_interface.get_fr_sol_d());
-          reset_var_from_fr_sol(kkt, reset_dual = true);
+          fr_solved = reset_var_from_fr_sol(kkt, reset_dual = true);
         }
       } else {
         // this is Sparse linear system
@@ -3079,7 +3119,7 @@ bool hiopAlgFilterIPMBase::apply_feasibility_restoration(hiopKKTLinSys* kkt)
           // FR succeeds, update it_trial->x and it_trial->d to the next search point
           it_trial->get_x()->copyFrom(nlp_fr_interface.get_fr_sol_x());
           it_trial->get_d()->copyFrom(nlp_fr_interface.get_fr_sol_d());
-          reset_var_from_fr_sol(kkt, reset_dual = true);
+          fr_solved = reset_var_from_fr_sol(kkt, reset_dual = true);
         } 
       }
     } else {
@@ -3092,7 +3132,7 @@ bool hiopAlgFilterIPMBase::apply_feasibility_restoration(hiopKKTLinSys* kkt)
         // FR succeeds, update it_trial->x and it_trial->d to the next search point
         it_trial->get_x()->copyFrom(nlp_fr_interface.get_fr_sol_x());
         it_trial->get_d()->copyFrom(nlp_fr_interface.get_fr_sol_d());
-        reset_var_from_fr_sol(kkt, reset_dual = true);
+        fr_solved = reset_var_from_fr_sol(kkt, reset_dual = true);
       }
     }
     delete nlpFR;
@@ -3116,7 +3156,7 @@ bool hiopAlgFilterIPMBase::apply_feasibility_restoration(hiopKKTLinSys* kkt)
       fr_solved = false;
     } else {
       nlp->log->printf(hovSummary, "FR problem converged! Now apply LSQ to reset duals.\n");
-      reset_var_from_fr_sol(kkt, reset_dual = false);
+      fr_solved = reset_var_from_fr_sol(kkt, reset_dual = false);
     }
   }
 
@@ -3159,6 +3199,9 @@ bool hiopAlgFilterIPMBase::solve_feasibility_restoration(hiopKKTLinSys* kkt, hio
   } else if(FR_status == Solve_Success || FR_status == Solve_Acceptable_Level) {
     solver_status_ = Infeasible_Problem;
     return false;
+  } else if(FR_status == Error_In_User_Function) {
+    solver_status_ = Error_In_User_Function;
+    return false;
   } else {
     solver_status_ = Error_In_FR;
     return false;
@@ -3170,7 +3213,7 @@ bool hiopAlgFilterIPMBase::reset_var_from_fr_sol(hiopKKTLinSys* kkt, bool reset_
   // FR succeeds, it_trial->x and it_trial->d have been updated. Now we update other values for the next iter
   if(!this->evalNlp_noHess(*it_trial, _f_nlp, *_c, *_d, *_grad_f, *_Jac_c, *_Jac_d)) {
     nlp->log->printf(hovError, "Failure in evaluating user provided NLP functions.");
-    assert(false);
+    solver_status_ = Error_In_User_Function;
     return false;
   } else {
     nlp->log->printf(hovScalars, "FR: Update slacks and duals from the modified primals.\n");
@@ -3275,13 +3318,15 @@ bool hiopAlgFilterIPMBase::solve_soft_feasibility_restoration(hiopKKTLinSys* kkt
       //evaluate the problem at the trial iterate (functions only)
       if(!this->evalNlp_funcOnly(*it_trial, _f_nlp_trial, *_c_trial, *_d_trial)) {
         solver_status_ = Error_In_User_Function;
-        return true;
+        return false;
       }
       // compute rhs for soft feasibility restoration. Use resid_trial since it hasn't been used
       resid_trial->update(*it_trial, _f_nlp_trial, *_c_trial, *_d_trial, *_grad_f,*_Jac_c,*_Jac_d, *logbar);      
       bret = kkt->compute_directions_w_IR(resid_trial, soft_dir); 
     }    
-    assert(bret);
+    if(!bret) {
+      return false;
+    }
 
     // Compute step size
     bret = it_curr->fractionToTheBdry(*soft_dir, _tau, alpha_primal_soft, alpha_dual_soft); 
@@ -3297,7 +3342,7 @@ bool hiopAlgFilterIPMBase::solve_soft_feasibility_restoration(hiopKKTLinSys* kkt
     //evaluate the problem at the trial iterate (functions only)
     if(!this->evalNlp_funcOnly(*it_trial, _f_nlp_trial, *_c_trial, *_d_trial)) {
       solver_status_ = Error_In_User_Function;
-      return true;
+      return false;
     }
 
     //update and adjust the duals
-- 
2.43.0


From 8a99299b11166862a274f9e0648630198fb504d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:32 +0000
Subject: [PATCH 06/81] fix: use function values and derivatives at the point
 found by feasibility restoration

---
 src/Optimization/hiopAlgFilterIPM.cpp | 35 ++++++++++++++-------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 487a501..c935030 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -1476,7 +1476,7 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
     iter_num_total_++;
     nlp->runStats.nIter = iter_num_;
 
-    // fr problem has already updated dual, slacks and NLP functions
+    // fr problem has already updated dual, slacks and NLP functions (but not the derivatives)
     if(!use_fr) {
       nlp->runStats.tmSolverInternal.start();
       // update and adjust the duals
@@ -1488,14 +1488,14 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
                              _alpha_primal, _alpha_dual, _mu, kappa_Sigma, infeas_nrm_trial);
       assert(bret);
       nlp->runStats.tmSolverInternal.stop();
+    }
 
-      //evaluate derivatives at the trial (and to be accepted) trial point
-      if(!this->evalNlp_derivOnly(*it_trial, *_grad_f, *_Jac_c, *_Jac_d, *_Hess_Lagr)) {
-        solver_status_ = Error_In_User_Function;
-        nlp->runStats.tmOptimizTotal.stop();
-        delete kkt;
-        return Error_In_User_Function;
-      }
+    //evaluate derivatives at the trial (and to be accepted) trial point
+    if(!this->evalNlp_derivOnly(*it_trial, *_grad_f, *_Jac_c, *_Jac_d, *_Hess_Lagr)) {
+      solver_status_ = Error_In_User_Function;
+      nlp->runStats.tmOptimizTotal.stop();
+      delete kkt;
+      return Error_In_User_Function;
     }
 
     nlp->runStats.tmSolverInternal.start(); //-----
@@ -2747,7 +2747,7 @@ hiopSolveStatus hiopAlgFilterIPMNewton::run()
     iter_num_total_++;
     nlp->runStats.nIter = iter_num_;
 
-    // fr problem has already updated dual, slacks and NLP functions
+    // fr problem has already updated dual, slacks and NLP functions (but not the derivatives)
     if(!use_fr) {
       nlp->runStats.tmSolverInternal.start();
       // update and adjust the duals
@@ -2759,14 +2759,14 @@ hiopSolveStatus hiopAlgFilterIPMNewton::run()
                              _alpha_primal, _alpha_dual, _mu, kappa_Sigma, infeas_nrm_trial);
       assert(bret);
       nlp->runStats.tmSolverInternal.stop();
+    }
 
-      //evaluate derivatives at the trial (and to be accepted) trial point
-      if(!this->evalNlp_derivOnly(*it_trial, *_grad_f, *_Jac_c, *_Jac_d, *_Hess_Lagr)) {
-        solver_status_ = Error_In_User_Function;
-        nlp->runStats.tmOptimizTotal.stop();
-        delete kkt;
-        return Error_In_User_Function;
-      }
+    //evaluate derivatives at the trial (and to be accepted) trial point
+    if(!this->evalNlp_derivOnly(*it_trial, *_grad_f, *_Jac_c, *_Jac_d, *_Hess_Lagr)) {
+      solver_status_ = Error_In_User_Function;
+      nlp->runStats.tmOptimizTotal.stop();
+      delete kkt;
+      return Error_In_User_Function;
     }
 
     nlp->runStats.tmSolverInternal.start(); //-----
@@ -3211,7 +3211,8 @@ bool hiopAlgFilterIPMBase::solve_feasibility_restoration(hiopKKTLinSys* kkt, hio
 bool hiopAlgFilterIPMBase::reset_var_from_fr_sol(hiopKKTLinSys* kkt, bool reset_dual)
 {
   // FR succeeds, it_trial->x and it_trial->d have been updated. Now we update other values for the next iter
-  if(!this->evalNlp_noHess(*it_trial, _f_nlp, *_c, *_d, *_grad_f, *_Jac_c, *_Jac_d)) {
+  // the function values go in the trial buffers, which become the current ones in the main loop
+  if(!this->evalNlp_noHess(*it_trial, _f_nlp_trial, *_c_trial, *_d_trial, *_grad_f, *_Jac_c, *_Jac_d)) {
     nlp->log->printf(hovError, "Failure in evaluating user provided NLP functions.");
     solver_status_ = Error_In_User_Function;
     return false;
-- 
2.43.0


From d3322a071cded01fc5595b3de1bdf95f0c1f2731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:55 +0000
Subject: [PATCH 07/81] fix: quasi-Newton solver continues after a successful
 feasibility restoration

---
 src/Optimization/hiopAlgFilterIPM.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index c935030..54328e1 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -1451,10 +1451,6 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
           // continue iterations if FR is accepted
           solver_status_ = NlpSolve_Pending;
         }
-
-        // exit the linear solve (compute_search_direction) loop
-        nlp->runStats.tmSolverInternal.stop();
-        break;
       } 
       nlp->runStats.tmSolverInternal.stop();
     } else {
-- 
2.43.0


From c89765740fc9126046935a3a3afcd47ca9b2f85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:20 +0000
Subject: [PATCH 08/81] fix: accept_every_trial_step takes the step instead of
 entering feasibility restoration

---
 src/Optimization/hiopAlgFilterIPM.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 54328e1..663e24b 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -1441,6 +1441,9 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
     } else if(lsStatus==3) {
       //Armijo (and switching condition) hold, nothing to do.
       nlp->runStats.tmSolverInternal.stop();
+    } else if(disableLS) {
+      //no line search was done and the step is taken
+      nlp->runStats.tmSolverInternal.stop();
     } else if(lsStatus==0) {
       //small step
       if(linsol_safe_mode_on) {
@@ -2677,6 +2680,12 @@ hiopSolveStatus hiopAlgFilterIPMNewton::run()
         nlp->runStats.tmSolverInternal.stop();
         break; //from the linear solve (compute_search_direction) loop
 
+      } else if(disableLS) {
+        //no line search was done and the step is taken
+
+        nlp->runStats.tmSolverInternal.stop();
+        break; //from the linear solve (compute_search_direction) loop
+
       } else if(lsStatus==0) {
 
         //
-- 
2.43.0


From c7715e14d623ef950dcfdae9f956ee0ef9190a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:44 +0000
Subject: [PATCH 09/81] fix: moving_lim_abs bounds the primal step by the
 requested length

---
 src/Optimization/hiopAlgFilterIPM.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 663e24b..836018d 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -2870,7 +2870,7 @@ bool hiopAlgFilterIPMBase::ensure_moving_lims(const hiopIterate& it, const hiopI
     auto x_nrm = dir.get_x()->infnorm();
     auto step_nrm = alpha_pr*x_nrm;
     if(step_nrm>moving_lim_abs) {
-      alpha_pr = moving_lim_abs / step_nrm;
+      alpha_pr = moving_lim_abs / x_nrm;
       nlp->log->printf(hovLinesearch,
                        "Moving lim (absolute, [%7.3e]): step reduced: %7.3e -> %7.3e.\n",
                        moving_lim_abs,
-- 
2.43.0


From 5b225f1d4276b684f05bd0954487f9dc70d074d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:08 +0000
Subject: [PATCH 10/81] fix: solver objects can be run again without carrying
 over state from the previous run

---
 src/Optimization/hiopAlgFilterIPM.cpp   | 30 ++++++++++-------------
 src/Optimization/hiopAlgFilterIPM.hpp   |  1 +
 src/Optimization/hiopNlpFormulation.cpp | 32 +++++++++++++++++++++++--
 src/Optimization/hiopNlpFormulation.hpp |  5 ++++
 4 files changed, 48 insertions(+), 20 deletions(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 836018d..3f1c2cb 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -95,6 +95,7 @@ hiopAlgFilterIPMBase::hiopAlgFilterIPMBase(hiopNlpFormulation* nlp_in, const boo
     c_soc(nullptr),
     d_soc(nullptr),
     within_FR_(within_FR),
+    run_called_(false),
     pd_perturb_(nullptr),
     fact_acceptor_(nullptr)
 {
@@ -189,22 +190,6 @@ void hiopAlgFilterIPMBase::reInitializeNlpObjects()
 
   alloc_alg_objects();
 
-  //0 LSQ (default), 1 linear update (more stable)
-  duals_update_type = nlp->options->GetString("duals_update_type")=="lsq"?0:1;
-  //0 LSQ (default), 1 set to zero
-  dualsInitializ = nlp->options->GetString("duals_init")=="lsq"?0:1;
-
-  if(duals_update_type==0) {
-    hiopNlpDenseConstraints* nlpd = dynamic_cast<hiopNlpDenseConstraints*>(nlp);
-    if(NULL==nlpd) {
-      duals_update_type = 1;
-      dualsInitializ = 1;
-      nlp->log->printf(hovWarning,
-                       "Option duals_update_type=lsq not compatible with the requested NLP formulation and will "
-                       "be set to duals_update_type=linear together with duals_init=zero\n");
-    }
-  }
-
   //parameter based initialization
   if(duals_update_type==0) {
     //lsq update
@@ -283,6 +268,7 @@ void hiopAlgFilterIPMBase::reload_options()
 void hiopAlgFilterIPMBase::resetSolverStatus()
 {
   n_accep_iters_ = 0;
+  onenorm_pr_curr_ = 0.0;
   solver_status_ = NlpSolve_IncompleteInit;
   filter.clear();
 }
@@ -967,12 +953,15 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
   reload_options();
 
   //if nlp changed internally, we need to reinitialize 'this'
+  //this is also needed when 'this' was used for a previous run, so that no state is carried over
   if(it_curr->get_x()->get_size()!=nlp->n() ||
      //Jac_c->get_local_size_n()!=nlpdc->n_local()) { <- this is prone to racing conditions
-     _Jac_c->n()!=nlpdc->n()) {
+     _Jac_c->n()!=nlpdc->n() ||
+     (run_called_ && !load_state_api_called_)) {
     //size of the nlp changed internally ->  reInitializeNlpObjects();
     reInitializeNlpObjects();
   }
+  run_called_ = true;
   resetSolverStatus();
 
   //types of linear algebra objects are known now
@@ -1067,6 +1056,7 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
   assert(kkt != nullptr);
 
   // assign an Null pd_perturb, i.e., all the deltas = 0.0
+  delete pd_perturb_;
   pd_perturb_ = new hiopPDPerturbationNull();
   if(!pd_perturb_->initialize(nlp)) {
     delete kkt;
@@ -2130,12 +2120,15 @@ hiopSolveStatus hiopAlgFilterIPMNewton::run()
   reload_options();
 
   //if nlp changed internally, we need to reinitialize `this`
+  //this is also needed when 'this' was used for a previous run, so that no state is carried over
   if(it_curr->get_x()->get_size()!=nlp->n() ||
      //Jac_c->get_local_size_n()!=nlpdc->n_local()) { <- this is prone to racing conditions
-     _Jac_c->n()!=nlp->n()) {
+     _Jac_c->n()!=nlp->n() ||
+     run_called_) {
     //size of the nlp changed internally ->  reInitializeNlpObjects();
     reInitializeNlpObjects();
   }
+  run_called_ = true;
   resetSolverStatus();
 
   nlp->runStats.initialize();
@@ -2188,6 +2181,7 @@ hiopSolveStatus hiopAlgFilterIPMNewton::run()
   hiopKKTLinSys* kkt = decideAndCreateLinearSystem(nlp);
   assert(kkt != NULL);
   
+  delete pd_perturb_;
   if(nlp->options->GetString("normaleqn_regularization_priority")=="dual_first" && nlp->options->GetString("KKTLinsys")=="normaleqn") {
     if(nlp->options->GetString("regularization_method")=="randomized") {
       pd_perturb_ = new hiopPDPerturbationDualFirstRand();
diff --git a/src/Optimization/hiopAlgFilterIPM.hpp b/src/Optimization/hiopAlgFilterIPM.hpp
index bf90fa9..4d878c5 100644
--- a/src/Optimization/hiopAlgFilterIPM.hpp
+++ b/src/Optimization/hiopAlgFilterIPM.hpp
@@ -341,6 +341,7 @@ protected:
   
   /* Flag to tell if this is a FR problem */
   bool within_FR_;
+  bool run_called_; // whether a run was already done with 'this'
 
   hiopPDPerturbation* pd_perturb_;
   hiopFactAcceptor* fact_acceptor_;
diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index 2d4e180..e44b635 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -82,6 +82,9 @@ hiopNlpFormulation::hiopNlpFormulation(hiopInterfaceBase& interface_, const char
 {
   strFixedVars_ = ""; //uninitialized
   dFixedVarsTol_ = -1.; //uninitialized
+  bound_relax_ = -1.; //uninitialized
+  fixed_var_perturb_ = -1.; //uninitialized
+  modified_by_run_ = false;
   bool bret;
 #ifdef HIOP_USE_MPI
   bret = interface_base.get_MPI_comm(comm_); assert(bret);
@@ -195,8 +198,25 @@ bool hiopNlpFormulation::finalizeInitialization()
     doinit=true;
   }
 
-  //more checks whether we should reinitialize go here (for example change in the rescaling option)
-  
+  //relaxation of the bounds
+  double bound_relax = options->GetNumeric("bound_relax_perturb");
+  double fixed_var_perturb = 0.0;
+  if(bound_relax > 0.0) {
+    if(options->GetString("elastic_mode") != "none") {
+      bound_relax = options->GetNumeric("elastic_mode_bound_relax_initial");
+    }
+  } else {
+    fixed_var_perturb = options->GetNumeric("fixed_var_perturb");
+  }
+  if(bound_relax_ != bound_relax || fixed_var_perturb_ != fixed_var_perturb) {
+    doinit=true;
+  }
+
+  //a previous run scaled the problem and/or changed its bounds
+  if(modified_by_run_) {
+    doinit=true;
+  }
+
   if(!doinit) {
     return true;
   }
@@ -210,6 +230,11 @@ bool hiopNlpFormulation::finalizeInitialization()
   ////////////////////////////////////////////////////////////////////////////
   bool bret = interface_base.get_prob_sizes(n_vars_, n_cons_); assert(bret);
   nlp_transformations_.clear();
+  nlp_scaling_ = nullptr;
+  relax_bounds_ = nullptr;
+  modified_by_run_ = false;
+  bound_relax_ = bound_relax;
+  fixed_var_perturb_ = fixed_var_perturb;
   nlp_transformations_.setUserNlpNumVars(n_vars_);
 
   delete xl_;
@@ -705,6 +730,7 @@ bool hiopNlpFormulation::apply_scaling(hiopVector& c, hiopVector& d, hiopVector&
                                            *cons_eq_mapping_,
                                            *cons_ineq_mapping_);
   
+  modified_by_run_ = true;
   c_rhs_ = nlp_scaling_->apply_to_cons_eq(*c_rhs_, n_cons_eq_);
   dl_ = nlp_scaling_->apply_to_cons_ineq(*dl_, n_cons_ineq_);
   du_ = nlp_scaling_->apply_to_cons_ineq(*du_, n_cons_ineq_);
@@ -1424,6 +1450,7 @@ double hiopNlpFormulation::get_obj_scale() const
 
 void hiopNlpFormulation::adjust_bounds(const hiopIterate& it)
 {  
+  modified_by_run_ = true;
   xl_->copy_from_w_pattern(*it.get_x(), *ixl_);
   xl_->axpy_w_pattern(-1.0, *it.get_sxl(), *ixl_);
 
@@ -1439,6 +1466,7 @@ void hiopNlpFormulation::adjust_bounds(const hiopIterate& it)
 
 void hiopNlpFormulation::reset_bounds(double bound_relax_perturb)
 {
+  modified_by_run_ = true;
   relax_bounds_->relax_from_ori(bound_relax_perturb, *xl_, *xu_, *dl_, *du_);
 }
 
diff --git a/src/Optimization/hiopNlpFormulation.hpp b/src/Optimization/hiopNlpFormulation.hpp
index 54f150f..b37b88f 100644
--- a/src/Optimization/hiopNlpFormulation.hpp
+++ b/src/Optimization/hiopNlpFormulation.hpp
@@ -363,6 +363,11 @@ protected:
   //options for which this class was setup
   std::string strFixedVars_; //"none", "fixed", "relax"
   double dFixedVarsTol_;
+  /// relaxation parameters 'this' was initialized with (used to detect changes in the options)
+  double bound_relax_;
+  double fixed_var_perturb_;
+  /// a solve scaled the problem or changed its bounds since the last initialization of 'this'
+  bool modified_by_run_;
 
   /**
    * @brief Internal NLP transformations that supports fixing and relaxing variables as well as
-- 
2.43.0


From 985af5da0d8ceb37b43a9217f25f35b2f03f55cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:49 +0000
Subject: [PATCH 11/81] fix: elastic mode keeps the scaling of the inequality
 bounds

---
 src/Optimization/hiopNlpFormulation.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index e44b635..a2023f7 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -1468,6 +1468,10 @@ void hiopNlpFormulation::reset_bounds(double bound_relax_perturb)
 {
   modified_by_run_ = true;
   relax_bounds_->relax_from_ori(bound_relax_perturb, *xl_, *xu_, *dl_, *du_);
+  if(nlp_scaling_) {
+    dl_ = nlp_scaling_->apply_to_cons_ineq(*dl_, n_cons_ineq_);
+    du_ = nlp_scaling_->apply_to_cons_ineq(*du_, n_cons_ineq_);
+  }
 }
 
 /* ***********************************************************************************
-- 
2.43.0


From 130486d15f6be7e8eeb1da7bf40d17e34d2be2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:12 +0000
Subject: [PATCH 12/81] fix: elastic mode works when bound_relax_perturb is
 zero

---
 src/Optimization/hiopNlpFormulation.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index a2023f7..f3829b8 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -201,13 +201,12 @@ bool hiopNlpFormulation::finalizeInitialization()
   //relaxation of the bounds
   double bound_relax = options->GetNumeric("bound_relax_perturb");
   double fixed_var_perturb = 0.0;
-  if(bound_relax > 0.0) {
-    if(options->GetString("elastic_mode") != "none") {
-      bound_relax = options->GetNumeric("elastic_mode_bound_relax_initial");
-    }
-  } else {
+  if(bound_relax == 0.0) {
     fixed_var_perturb = options->GetNumeric("fixed_var_perturb");
   }
+  if(options->GetString("elastic_mode") != "none") {
+    bound_relax = options->GetNumeric("elastic_mode_bound_relax_initial");
+  }
   if(bound_relax_ != bound_relax || fixed_var_perturb_ != fixed_var_perturb) {
     doinit=true;
   }
@@ -421,7 +420,7 @@ bool hiopNlpFormulation::finalizeInitialization()
   //
   // relax bounds for simple bounds and constraints)
   //
-  if(options->GetNumeric("bound_relax_perturb") > 0.0) {
+  if(options->GetNumeric("bound_relax_perturb") > 0.0 || options->GetString("elastic_mode") != "none") {
     relax_bounds_ = new hiopBoundsRelaxer(this, *xl_, *xu_, *dl_, *du_);
     relax_bounds_->setup();
     if(options->GetString("elastic_mode") == "none") {
-- 
2.43.0


From 470017c3344c94d15023509ab3ffd977d3710a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:42 +0000
Subject: [PATCH 13/81] fix: symmetry check of dense matrices accounts for
 round-off relative to the largest entry

---
 src/LinAlg/hiopMatrixDenseRowMajor.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/LinAlg/hiopMatrixDenseRowMajor.cpp b/src/LinAlg/hiopMatrixDenseRowMajor.cpp
index c4bc6e7..6dd7ef7 100644
--- a/src/LinAlg/hiopMatrixDenseRowMajor.cpp
+++ b/src/LinAlg/hiopMatrixDenseRowMajor.cpp
@@ -905,11 +905,16 @@ bool hiopMatrixDenseRowMajor::assertSymmetry(double tol) const
     return false;
   }
 
-  //symmetry
+  //symmetry; the round-off error in the entries is relative to the largest entry
+  double scale = 1.;
+  for(int i=0; i<n_local_; i++)
+    for(int j=0; j<n_local_; j++) {
+      scale = std::max(scale, 1+std::abs(M_[i][j]));
+    }
   for(int i=0; i<n_local_; i++)
     for(int j=0; j<n_local_; j++) {
       double ij=M_[i][j], ji=M_[j][i];
-      double relerr= std::abs(ij-ji)/(1+std::abs(ij));
+      double relerr= std::abs(ij-ji)/scale;
       assert(relerr<tol);
       if(relerr>=tol) {
 	return false;
-- 
2.43.0


From e3be119197c8e5563ae7d1fe139372944549668b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:27 +0000
Subject: [PATCH 14/81] fix: feasibility restoration weights when the reference
 point has zero entries

---
 src/Optimization/hiopFRProb.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/Optimization/hiopFRProb.cpp b/src/Optimization/hiopFRProb.cpp
index d9039cc..529c8ca 100644
--- a/src/Optimization/hiopFRProb.cpp
+++ b/src/Optimization/hiopFRProb.cpp
@@ -89,9 +89,10 @@ hiopFRProbSparse::hiopFRProbSparse(hiopAlgFilterIPMBase& solver_base)
 
   // build vector VR
   DR_ = x_ref_->new_copy();
+  // entries of DR are min(1, 1/|x_ref|)
   DR_->component_abs();
+  DR_->component_max(1.0);
   DR_->invert();
-  DR_->component_min(1.0);
 
   wrk_x_ = x_ref_->alloc_clone();
   wrk_c_ = LinearAlgebraFactory::create_vector(nlp_base_->options->GetString("mem_space"), m_eq_);
@@ -727,9 +728,10 @@ hiopFRProbMDS::hiopFRProbMDS(hiopAlgFilterIPMBase& solver_base)
 
   // build vector VR
   DR_ = x_ref_->new_copy();
+  // entries of DR are min(1, 1/|x_ref|)
   DR_->component_abs();
+  DR_->component_max(1.0);
   DR_->invert();
-  DR_->component_min(1.0);
 
   wrk_x_ = x_ref_->alloc_clone();
   wrk_c_ = LinearAlgebraFactory::create_vector(nlp_base_->options->GetString("mem_space"), m_eq_);
@@ -1423,9 +1425,10 @@ hiopFRProbDense::hiopFRProbDense(hiopAlgFilterIPMBase& solver_base)
 
   // build vector VR
   DR_ = x_ref_->new_copy();
+  // entries of DR are min(1, 1/|x_ref|)
   DR_->component_abs();
+  DR_->component_max(1.0);
   DR_->invert();
-  DR_->component_min(1.0);
 
   comm_ = MPI_COMM_WORLD;
   comm_size_ = 1;
-- 
2.43.0


From ea0efec1e5d74996e073d88e864fef74fe25f74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:27 +0000
Subject: [PATCH 15/81] fix: do not enter feasibility restoration for problems
 without constraints

---
 src/Optimization/hiopAlgFilterIPM.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 3f1c2cb..9bb3259 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -3079,6 +3079,11 @@ bool hiopAlgFilterIPMBase::apply_feasibility_restoration(hiopKKTLinSys* kkt)
   bool fr_solved = true;
   bool reset_dual = true;
   if(!within_FR_) {
+    if(0 == nlp->m()) {
+      // there are no constraints, hence no infeasibility to reduce
+      return false;
+    }
+
     // try soft FR first
     bool is_soft_fr = solve_soft_feasibility_restoration(kkt);
     if(is_soft_fr) {
-- 
2.43.0


From aac4b67d1b4de233bb009a87cfff29bb8942c1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:27 +0000
Subject: [PATCH 16/81] fix: keep J*inv(H)*J' of the low-rank Hessian symmetric

---
 src/Optimization/hiopHessianLowRank.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/Optimization/hiopHessianLowRank.cpp b/src/Optimization/hiopHessianLowRank.cpp
index cba17d0..d37919c 100644
--- a/src/Optimization/hiopHessianLowRank.cpp
+++ b/src/Optimization/hiopHessianLowRank.cpp
@@ -617,6 +617,16 @@ symMatTimesInverseTimesMatTrans(double beta,
   Y2.copyFromMatrixBlock(S2Y2, 0, l);
   Y1.timesMatTrans_local(1.0, W, alpha, Y2);
 
+  //6. W is symmetric; remove the round-off error introduced by the nonsymmetric updates above
+  double* Wv = W.local_data();
+  for(int i=0; i<k; i++) {
+    for(int j=0; j<i; j++) {
+      const double aver = 0.5*(Wv[i*k+j] + Wv[j*k+i]);
+      Wv[i*k+j] = aver;
+      Wv[j*k+i] = aver;
+    }
+  }
+
   //nlp->log->write("symMatTimesInverseTimesMatTrans: Y1 is : ", Y1, hovMatrices);
   //nlp->log->write("symMatTimesInverseTimesMatTrans: Y2 is : ", Y2, hovMatrices);
   //nlp->log->write("symMatTimesInverseTimesMatTrans: W is : ", W, hovMatrices);
-- 
2.43.0


From e0d709dcdf195d94b91470e142792fa5bfbb58a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:27 +0000
Subject: [PATCH 17/81] fix: low-rank KKT solve handles numerically indefinite
 matrices, keeps refined solutions and reports failures

---
 src/Optimization/hiopKKTLinSys.cpp | 120 +++++++++++++++++++++--------
 src/Optimization/hiopKKTLinSys.hpp |  14 +++-
 2 files changed, 100 insertions(+), 34 deletions(-)

diff --git a/src/Optimization/hiopKKTLinSys.cpp b/src/Optimization/hiopKKTLinSys.cpp
index d91a3d6..33560ba 100644
--- a/src/Optimization/hiopKKTLinSys.cpp
+++ b/src/Optimization/hiopKKTLinSys.cpp
@@ -944,10 +944,15 @@ bool hiopKKTLinSys::compute_directions_w_IR(const hiopResidual* resid, hiopItera
   bicgIR_->set_tol(tol);
   bicgIR_->set_x0(0.0);
 
+  prec_opr_->reset_failed();
   bool bret = bicgIR_->solve(dir, resid);
 
   nlp_->runStats.kkt.nIterRefinInner += bicgIR_->get_sol_num_iter();
-  if(!bret) {
+  if(prec_opr_->failed()) {
+    // the solve with the (compressed) linear system failed: there is no direction to accept
+    nlp_->log->printf(hovWarning, "%s", bicgIR_->get_convergence_info().c_str());
+    bret = false;
+  } else if(!bret) {
     nlp_->log->printf(hovWarning, "%s", bicgIR_->get_convergence_info().c_str());
 
     // accept the stpe since this is IR
@@ -1189,6 +1194,48 @@ solveCompressed(hiopVector& rx, hiopVector& ryc, hiopVector& ryd,
   return ierr==0;
 }
 
+/// Solves with a Cholesky factorization or, if `M` is not positive definite, with a symmetric indefinite one
+int hiopKKTLinSysLowRank::solve_with_symm_factorization(hiopMatrixDense& M, hiopVector& rhs, bool& use_indefinite_fact)
+{
+  int N = M.n();
+  int NRHS = 1;
+  int LDA = N;
+  int info = 0;
+  char UPLO = 'L';
+
+  if(!use_indefinite_fact) {
+    hiopMatrixDense* M_save = M.new_copy();
+    DPOTRF(&UPLO, &N, M.local_data(), &LDA, &info);
+    if(info == 0) {
+      DPOTRS(&UPLO, &N, &NRHS, M.local_data(), &LDA, rhs.local_data(), &LDA, &info);
+      delete M_save;
+      return info;
+    }
+    nlp_->log->printf(hovWarning,
+                      "hiopKKTLinSysLowRank: dpotrf (Chol fact) detected %d minor not being positive definite.\n",
+                      info);
+    M.copyFrom(*M_save);
+    delete M_save;
+    use_indefinite_fact = true;
+  }
+
+  int* ipiv = new int[N];
+  int lwork = -1;
+  double work_size = 1.;
+  DSYTRF(&UPLO, &N, M.local_data(), &LDA, ipiv, &work_size, &lwork, &info);
+  lwork = std::max(1, (int)work_size);
+  double* work = new double[lwork];
+  DSYTRF(&UPLO, &N, M.local_data(), &LDA, ipiv, work, &lwork, &info);
+  if(info == 0) {
+    DSYTRS(&UPLO, &N, &NRHS, M.local_data(), &LDA, ipiv, rhs.local_data(), &LDA, &info);
+  } else {
+    nlp_->log->printf(hovError, "hiopKKTLinSysLowRank: dsytrf returned error %d\n", info);
+  }
+  delete[] work;
+  delete[] ipiv;
+  return info;
+}
+
 int hiopKKTLinSysLowRank::solveWithRefin(hiopMatrixDense& M, hiopVector& rhs)
 {
   // 1. Solve dposvx (solve + equilibrating + iterative refinement + forward and backward error estimates)
@@ -1236,6 +1283,25 @@ int hiopKKTLinSysLowRank::solveWithRefin(hiopMatrixDense& M, hiopVector& rhs)
 	 WORK, IWORK,
 	 &INFO);
   //printf("INFO ===== %d  RCOND=%g  FERR=%g   BERR=%g  EQUED=%c\n", INFO, RCOND, FERR, BERR, EQUED);
+
+  // the matrix can be numerically indefinite, in which case dposvx does not compute a solution
+  bool use_indefinite_fact = false;
+  int info = 0;
+  if(INFO>0 && INFO<=N) {
+    nlp_->log->printf(hovWarning,
+                      "hiopKKTLinSysLowRank::solveWithRefin: dposvx detected %d minor not being positive definite. "
+                      "Will use a symmetric indefinite factorization.\n",
+                      INFO);
+    use_indefinite_fact = true;
+    M.copyFrom(*Aref);
+    rhs.copyFrom(*rhsref);
+    info = solve_with_symm_factorization(M, rhs, use_indefinite_fact);
+    rhs.copyTo(X);
+  } else if(INFO<0) {
+    nlp_->log->printf(hovError, "hiopKKTLinSysLowRank::solveWithRefin: dposvx returned error %d\n", INFO);
+    info = INFO;
+  }
+
   //
   // 2. check residual
   //
@@ -1243,10 +1309,9 @@ int hiopKKTLinSysLowRank::solveWithRefin(hiopMatrixDense& M, hiopVector& rhs)
   hiopVector* dx    = rhs.alloc_clone();
   hiopVector* resid = rhs.alloc_clone();
   int nIterRefin=0;double nrmResid;
-  int info;
   const int MAX_ITER_REFIN=3;
-  while(true) {
-    x->copyFrom(X);
+  x->copyFrom(X);
+  while(info == 0) {
     resid->copyFrom(*rhsref);
     Aref->timesVec(1.0, *resid, -1.0, *x);
 
@@ -1266,31 +1331,11 @@ int hiopKKTLinSysLowRank::solveWithRefin(hiopMatrixDense& M, hiopVector& rhs)
       break;
       //assert(false && "too many refinements");
     }
-    if(0) { //iter refin based on symmetric indefinite factorization+solve
-
-
-      int _V_ipiv_vec[1000]; double _V_work_vec[1000]; int lwork=1000;
-      M.copyFrom(*Aref);
-      DSYTRF(&UPLO, &N, M.local_data(), &LDA, _V_ipiv_vec, _V_work_vec, &lwork, &info);
-      assert(info==0);
-      DSYTRS(&UPLO, &N, &NRHS, M.local_data(), &LDA, _V_ipiv_vec, resid->local_data(), &LDB, &info);
-      assert(info==0);
-    } else { //iter refin based on symmetric positive definite factorization+solve
-      M.copyFrom(*Aref);
-      //for(int i=0; i<4; i++) M.local_data()[i][i] +=1e-8;
-      DPOTRF(&UPLO, &N, M.local_data(), &LDA, &info);
-      if(info>0)
-	nlp_->log->printf(hovError, "hiopKKTLinSysLowRank::factorizeMat: dpotrf (Chol fact) "
-			  "detected %d minor being indefinite.\n", info);
-      else
-	if(info<0)
-	  nlp_->log->printf(hovError, "hiopKKTLinSysLowRank::factorizeMat: dpotrf returned "
-			    "error %d\n", info);
-
-      DPOTRS(&UPLO,&N, &NRHS, M.local_data(), &LDA, resid->local_data(), &LDA, &info);
-      if(info<0)
-	nlp_->log->printf(hovError, "hiopKKTLinSysLowRank::solveWithFactors: dpotrs returned "
-			  "error %d\n", info);
+    //iter refin based on symmetric factorization+solve
+    M.copyFrom(*Aref);
+    if(0 != solve_with_symm_factorization(M, *resid, use_indefinite_fact)) {
+      //keep the solution computed so far
+      break;
     }
 
    // //FACT='F'; EQUED='Y'; //reuse the factorization and the equilibration
@@ -1314,7 +1359,12 @@ int hiopKKTLinSysLowRank::solveWithRefin(hiopMatrixDense& M, hiopVector& rhs)
     nIterRefin++;
   }
 
-  rhs.copyFrom(*x);
+  if(info == 0) {
+    rhs.copyFrom(*x);
+  } else {
+    nlp_->log->printf(hovError, "hiopKKTLinSysLowRank::solveWithRefin: the linear system could not be solved\n");
+    rhs.setToZero();
+  }
   delete[] AF;
   delete[] S;
   delete[] X;
@@ -1346,7 +1396,7 @@ int hiopKKTLinSysLowRank::solveWithRefin(hiopMatrixDense& M, hiopVector& rhs)
 //   nlp_->log->printf(hovLinAlgScalars, "hiopKKTLinSysLowRank::solveCompressed: Cholesky solve: relative error %g\n", relErr);
 //   delete r;
 // #endif
-  return 0;
+  return info;
 }
 
 int hiopKKTLinSysLowRank::solve(hiopMatrixDense& M, hiopVector& rhs)
@@ -1877,7 +1927,8 @@ hiopPrecondKKTOpr::hiopPrecondKKTOpr(hiopKKTLinSys* kkt,
   : kkt_(kkt),
     iter_(iter),
     resid_(nullptr),
-    dir_(nullptr)
+    dir_(nullptr),
+    failed_(false)
 {
   resid_ = new hiopResidual(kkt_->nlp_);
   dir_ = new hiopIterate(kkt_->nlp_);
@@ -1902,7 +1953,10 @@ bool hiopPrecondKKTOpr::times_vec(hiopVector& y, const hiopVector& x)
   res_cv_->copyFrom(x);
 
   const bool bret = kkt_->computeDirections(resid_, dir_); 
-  
+  if(!bret) {
+    failed_ = true;
+  }
+
   y.copyFrom(*dir_cv_);
 
   return bret;
diff --git a/src/Optimization/hiopKKTLinSys.hpp b/src/Optimization/hiopKKTLinSys.hpp
index 83334ba..ada9440 100644
--- a/src/Optimization/hiopKKTLinSys.hpp
+++ b/src/Optimization/hiopKKTLinSys.hpp
@@ -432,6 +432,12 @@ public:
   //LAPACK wrappers
   int solve(hiopMatrixDense& M, hiopVector& rhs);
   int solveWithRefin(hiopMatrixDense& M, hiopVector& rhs);
+
+  /**
+   * Solves with `M` (overwritten by its factors) using the Cholesky factorization, or the symmetric indefinite
+   * one if `M` is not positive definite or `use_indefinite_fact` is true on entry. Returns 0 on success.
+   */
+  int solve_with_symm_factorization(hiopMatrixDense& M, hiopVector& rhs, bool& use_indefinite_fact);
 #ifdef HIOP_DEEPCHECKS
   static double solveError(const hiopMatrixDense& M,  const hiopVector& x, hiopVector& rhs);
   double errorCompressedLinsys(const hiopVector& rx, const hiopVector& ryc, const hiopVector& ryd,
@@ -686,16 +692,22 @@ public:
   /** y = inv(Preconditioner)' * x = Preconditioner'/x */
   virtual bool trans_times_vec(hiopVector& y, const hiopVector& x);
 
+  /// returns true if a solve with the preconditioner failed since the last call to `reset_failed`
+  inline bool failed() const { return failed_; }
+  inline void reset_failed() { failed_ = false; }
+
 protected:
   hiopKKTLinSys* kkt_;
   const hiopIterate* iter_;
   hiopResidual* resid_;
   hiopIterate* dir_;
+  bool failed_;
 
   hiopPrecondKKTOpr()
     : kkt_(nullptr),
       resid_(nullptr),
-      dir_(nullptr)
+      dir_(nullptr),
+      failed_(false)
   {
     assert(false && "this constructor should not be used");
   }
-- 
2.43.0


From e9fc43bc97e57b4dcda15b0ad2bcd9bd45049c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:54 +0000
Subject: [PATCH 18/81] fix: MDS KKT sets the slack diagonal used by the
 inertia-free curvature test

---
 src/Optimization/hiopKKTLinSysMDS.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Optimization/hiopKKTLinSysMDS.cpp b/src/Optimization/hiopKKTLinSysMDS.cpp
index 40830c1..ec94163 100644
--- a/src/Optimization/hiopKKTLinSysMDS.cpp
+++ b/src/Optimization/hiopKKTLinSysMDS.cpp
@@ -157,6 +157,12 @@ namespace hiop
     Dx_->axdzpy_w_pattern(1.0, *iter->zu, *iter->sxu, nlp_->get_ixu());
     nlp_->log->write("Dx in KKT", *Dx_, hovMatrices);
 
+    // Dd=(Sdl)^{-1}Vl + (Sdu)^{-1}Vu (used by the curvature test)
+    Dd_->setToZero();
+    Dd_->axdzpy_w_pattern(1.0, *iter->vl, *iter->sdl, nlp_->get_idl());
+    Dd_->axdzpy_w_pattern(1.0, *iter->vu, *iter->sdu, nlp_->get_idu());
+    nlp_->log->write("Dd in KKT", *Dd_, hovMatrices);
+
     nlp_->runStats.kkt.tmUpdateInit.stop();
 
     //
-- 
2.43.0


From d8513bc4dc0cb5c479ffdc8b90bc6bac30dab155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:54 +0000
Subject: [PATCH 19/81] fix: low-rank Hessian product when s'*B*s vanishes up
 to round-off

---
 src/Optimization/hiopHessianLowRank.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Optimization/hiopHessianLowRank.cpp b/src/Optimization/hiopHessianLowRank.cpp
index d37919c..df898ec 100644
--- a/src/Optimization/hiopHessianLowRank.cpp
+++ b/src/Optimization/hiopHessianLowRank.cpp
@@ -1042,7 +1042,12 @@ timesVecCmn(double beta, hiopVector& y, double alpha, const hiopVector& x, bool
       a[k]->axpy(-aiTsk, *a[i]);
     }
     double skTak = a[k]->dotProductWith(*sk);
-    a[k]->scale(1/sqrt(skTak));
+    if(skTak > 0.) {
+      a[k]->scale(1/sqrt(skTak));
+    } else {
+      // s_k'*B_k*s_k vanishes up to round-off error
+      a[k]->setToZero();
+    }
   }
 
   //now we have B= B_0 + sum{ bk bk' - ak ak' : k=0,1,...,l_curr-1} 
-- 
2.43.0


From 3a9b209fa4a355473a238665b85f2ac6907eb46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:14 +0000
Subject: [PATCH 20/81] fix: soft feasibility restoration keeps the slacks of
 its trial points positive

---
 src/Optimization/hiopAlgFilterIPM.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 9bb3259..0541980 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -3308,6 +3308,7 @@ bool hiopAlgFilterIPMBase::solve_soft_feasibility_restoration(hiopKKTLinSys* kkt
   double alpha_primal_soft;
   double alpha_dual_soft;
   double infeas_nrm_soft=0;     // to avoid uninitialized use below
+  int num_adjusted_slacks = 0;
 
   bool bret = false;
 
@@ -3342,7 +3343,7 @@ bool hiopAlgFilterIPMBase::solve_soft_feasibility_restoration(hiopKKTLinSys* kkt
     // Compute trial point
     bret = it_trial->takeStep_primals(*it_curr, *soft_dir, alpha_primal_soft, alpha_dual_soft); 
     assert(bret);
-    it_trial->determineSlacks(); // TODO: adjust small slacks in soft FR?
+    num_adjusted_slacks = it_trial->compute_safe_slacks(*it_curr, _mu);
     
     //evaluate the problem at the trial iterate (functions only)
     if(!this->evalNlp_funcOnly(*it_trial, _f_nlp_trial, *_c_trial, *_d_trial)) {
@@ -3375,6 +3376,13 @@ bool hiopAlgFilterIPMBase::solve_soft_feasibility_restoration(hiopKKTLinSys* kkt
       num_soft_fr++;
     } else {
       // continue the regular iterate from the trial point  
+      // adjust small/negative slacks
+      if(num_adjusted_slacks > 0) {
+        nlp->log->printf(hovWarning,
+                         "%d slacks are too small. Adjust corresponding variable slacks!\n",
+                         num_adjusted_slacks);
+        nlp->adjust_bounds(*it_trial);
+      }
       bret = true;
       break;
     }
-- 
2.43.0


From 0776b1d9c22224bd0826cdb0238629757bd1bc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:44 +0000
Subject: [PATCH 21/81] fix: feasibility restoration evaluates the base
 objective at the iterate, not at the scaled displacement

---
 src/Optimization/hiopFRProb.cpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/Optimization/hiopFRProb.cpp b/src/Optimization/hiopFRProb.cpp
index 529c8ca..ce283b1 100644
--- a/src/Optimization/hiopFRProb.cpp
+++ b/src/Optimization/hiopFRProb.cpp
@@ -254,6 +254,11 @@ bool hiopFRProbSparse::eval_f(const size_type& n, const double* x, bool new_x, d
   // rho*sum(p+n)
   obj_value += rho_ * (wrk_primal_->sum_local() - wrk_x_->sum_local());
 
+  // keep a copy of the original objective value; 'wrk_x_' is overwritten below
+  if(!nlp_base_->eval_f(*wrk_x_, new_x, obj_base_)) {
+    return false;
+  }
+
   // zeta/2*[DR*(x-x_ref)]^2
   wrk_x_->axpy(-1.0, *x_ref_);
   wrk_x_->componentMult(*DR_);
@@ -261,9 +266,6 @@ bool hiopFRProbSparse::eval_f(const size_type& n, const double* x, bool new_x, d
 
   obj_value += 0.5 * zeta_ * wrk_db * wrk_db;
 
-  // keep a copy of the original objective value
-  nlp_base_->eval_f(*wrk_x_, new_x, obj_base_); 
-
   return true;
 }
 
@@ -904,6 +906,11 @@ bool hiopFRProbMDS::eval_f(const size_type& n, const double* x, bool new_x, doub
   // rho*sum(p+n)
   obj_value += rho_ * (wrk_primal_->sum_local() - wrk_x_->sum_local());
 
+  // keep a copy of the original objective value; 'wrk_x_' is overwritten below
+  if(!nlp_base_->eval_f(*wrk_x_, new_x, obj_base_)) {
+    return false;
+  }
+
   // zeta/2*[DR*(x-x_ref)]^2
   wrk_x_->axpy(-1.0, *x_ref_);
   wrk_x_->componentMult(*DR_);
@@ -911,8 +918,6 @@ bool hiopFRProbMDS::eval_f(const size_type& n, const double* x, bool new_x, doub
 
   obj_value += 0.5 * zeta_ * wrk_db * wrk_db;
 
-  nlp_base_->eval_f(*wrk_x_, new_x, obj_base_); 
-
   return true;
 }
 
@@ -1616,6 +1621,11 @@ bool hiopFRProbDense::eval_f(const size_type& n, const double* x, bool new_x, do
   obj_value = obj_global;
 #endif
 
+  // keep a copy of the original objective value; 'wrk_x_' is overwritten below
+  if(!nlp_base_->eval_f(*wrk_x_, new_x, obj_base_)) {
+    return false;
+  }
+
   // zeta/2*[DR*(x-x_ref)]^2
   wrk_x_->axpy(-1.0, *x_ref_);
   wrk_x_->componentMult(*DR_);
@@ -1623,9 +1633,6 @@ bool hiopFRProbDense::eval_f(const size_type& n, const double* x, bool new_x, do
 
   obj_value += 0.5 * zeta_ * wrk_db * wrk_db;
 
-  // keep a copy of the original objective value
-  nlp_base_->eval_f(*wrk_x_, new_x, obj_base_);
-
   return true;
 }
 
-- 
2.43.0


From f67185bf769889a236fce465b7ed2446419923f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:51 +0000
Subject: [PATCH 22/81] fix: failures of the user's functions during
 feasibility restoration are not ignored

---
 src/Optimization/hiopFRProb.cpp | 59 +++++++++++++++++++++++++++------
 src/Optimization/hiopFRProb.hpp |  9 +++++
 2 files changed, 57 insertions(+), 11 deletions(-)

diff --git a/src/Optimization/hiopFRProb.cpp b/src/Optimization/hiopFRProb.cpp
index ce283b1..d7eb564 100644
--- a/src/Optimization/hiopFRProb.cpp
+++ b/src/Optimization/hiopFRProb.cpp
@@ -247,6 +247,9 @@ bool hiopFRProbSparse::eval_f(const size_type& n, const double* x, bool new_x, d
 {
   assert(n == n_);
   obj_value = 0.;
+  if(user_error_) {
+    return false;
+  }
 
   wrk_primal_->copy_from_starting_at(x, 0, n_); // [x pe ne pi ni]
   wrk_x_->copy_from_starting_at(x, 0, n_x_);    // [x]
@@ -311,7 +314,9 @@ bool hiopFRProbSparse::eval_cons(const size_type& n,
 
   // evaluate c and d
   wrk_x_->copy_from_starting_at(x, 0, n_x_);
-  nlp_base_->eval_c_d(*wrk_x_, new_x, *wrk_c_, *wrk_d_);
+  if(!nlp_base_->eval_c_d(*wrk_x_, new_x, *wrk_c_, *wrk_d_)) {
+    return false;
+  }
 
   // compute FR equality constratint body c-pe+ne
   wrk_eq_->copy_from_starting_at(x, pe_st_, m_eq_);     //pe
@@ -371,7 +376,9 @@ bool hiopFRProbSparse::eval_Jac_cons(const size_type& n,
     wrk_x_->copy_from_starting_at(x, 0, n_x_);
 
     // get Jac_c and Jac_d for the x part --- use original Jac_c/Jac_d as buffers
-    nlp_base_->eval_Jac_c_d(*wrk_x_, new_x, Jac_c, Jac_d); 
+    if(!nlp_base_->eval_Jac_c_d(*wrk_x_, new_x, Jac_c, Jac_d)) {
+      return false;
+    }
   }
 
   Jac_cd_->set_Jac_FR(Jac_c, Jac_d, iJacS, jJacS, MJacS);
@@ -406,7 +413,9 @@ bool hiopFRProbSparse::eval_Hess_Lagr(const size_type& n,
 
     double obj_factor = 0.0;
     // get Hess for the x part --- use original Hess as buffers
-    nlp_base_->eval_Hess_Lagr(*wrk_x_, new_x, obj_factor, *wrk_eq_, *wrk_ineq_, new_lambda, Hess);
+    if(!nlp_base_->eval_Hess_Lagr(*wrk_x_, new_x, obj_factor, *wrk_eq_, *wrk_ineq_, new_lambda, Hess)) {
+      return false;
+    }
     
     // additional diag Hess for x:  zeta*DR^2
     wrk_x_->setToConstant(zeta_);
@@ -574,7 +583,11 @@ bool hiopFRProbSparse::iterate_callback(int iter,
   // evaluate c_body and d_body in base problem
   wrk_x_->copy_from_starting_at(x, 0, n_x_);
   wrk_d_->copy_from_starting_at(s, 0, m_ineq_);
-  nlp_base_->eval_c_d(*wrk_x_, true, *wrk_cbody_, *wrk_dbody_);
+  if(!nlp_base_->eval_c_d(*wrk_x_, true, *wrk_cbody_, *wrk_dbody_)) {
+    // returning false would mean that FR succeeded; the failure is reported by the next evaluation
+    user_error_ = true;
+    return true;
+  }
 
   // compute theta for base problem
   wrk_cbody_->axpy(-1.0, crhs);           // wrk_cbody_ = (c-crhs)
@@ -898,6 +911,9 @@ bool hiopFRProbMDS::eval_f(const size_type& n, const double* x, bool new_x, doub
 {
   assert(n == n_);
   obj_value = 0.;
+  if(user_error_) {
+    return false;
+  }
 
   wrk_primal_->copy_from_starting_at(x, 0, n_); // [xsp pe ne pi ni xde]
   wrk_primal_->startingAtCopyToStartingAt(x_sp_st_, *wrk_x_, 0, n_x_sp_);       // [xsp]
@@ -970,7 +986,9 @@ bool hiopFRProbMDS::eval_cons(const size_type& n,
   wrk_primal_->copy_from_starting_at(x, 0, n_); // [xsp pe ne pi ni xde]
   wrk_primal_->startingAtCopyToStartingAt(x_sp_st_, *wrk_x_, 0, n_x_sp_);       // x = [xsp xde]
   wrk_primal_->startingAtCopyToStartingAt(x_de_st_, *wrk_x_, n_x_sp_, n_x_de_); // x = [xsp xde]
-  nlp_base_->eval_c_d(*wrk_x_, new_x, *wrk_c_, *wrk_d_);
+  if(!nlp_base_->eval_c_d(*wrk_x_, new_x, *wrk_c_, *wrk_d_)) {
+    return false;
+  }
 
   // compute FR equality constratint body c-pe+ne
   wrk_eq_->copy_from_starting_at(x, pe_st_, m_eq_);     //pe
@@ -1041,7 +1059,9 @@ bool hiopFRProbMDS::eval_Jac_cons(const size_type& n,
      wrk_primal_->startingAtCopyToStartingAt(x_de_st_, *wrk_x_, n_x_sp_, n_x_de_); // x = [xsp xde]
 
     // get Jac_c and Jac_d for the x part --- use original Jac_c/Jac_d as buffers
-    nlp_base_->eval_Jac_c_d(*wrk_x_, new_x, *Jac_c, *Jac_d); 
+    if(!nlp_base_->eval_Jac_c_d(*wrk_x_, new_x, *Jac_c, *Jac_d)) {
+      return false;
+    }
   }
 
   Jac_cd_->set_Jac_FR(*Jac_c, *Jac_d, iJacS, jJacS, MJacS, JacD);
@@ -1210,7 +1230,11 @@ bool hiopFRProbMDS::iterate_callback(int iter,
   wrk_primal_->startingAtCopyToStartingAt(x_sp_st_, *wrk_x_, 0, n_x_sp_);       // x = [xsp xde]
   wrk_primal_->startingAtCopyToStartingAt(x_de_st_, *wrk_x_, n_x_sp_, n_x_de_); // x = [xsp xde]
   wrk_d_->copy_from_starting_at(s, 0, m_ineq_);
-  nlp_base_->eval_c_d(*wrk_x_, true, *wrk_cbody_, *wrk_dbody_);
+  if(!nlp_base_->eval_c_d(*wrk_x_, true, *wrk_cbody_, *wrk_dbody_)) {
+    // returning false would mean that FR succeeded; the failure is reported by the next evaluation
+    user_error_ = true;
+    return true;
+  }
 
   // compute theta for base problem
   wrk_cbody_->axpy(-1.0, crhs);           // wrk_cbody_ = (c-crhs)
@@ -1371,7 +1395,9 @@ bool hiopFRProbMDS::eval_Hess_Lagr(const size_type& n,
 
     double obj_factor = 0.0;
     // get Hess for the x part --- use original Hess as buffers
-    nlp_base_->eval_Hess_Lagr(*wrk_x_, new_x, obj_factor, *wrk_eq_, *wrk_ineq_, new_lambda, *Hess);
+    if(!nlp_base_->eval_Hess_Lagr(*wrk_x_, new_x, obj_factor, *wrk_eq_, *wrk_ineq_, new_lambda, *Hess)) {
+      return false;
+    }
     
     // additional diag Hess for x:  zeta*DR^2
     wrk_x_->setToConstant(zeta_);
@@ -1606,6 +1632,9 @@ bool hiopFRProbDense::eval_f(const size_type& n, const double* x, bool new_x, do
 {
   assert(n == n_);
   obj_value = 0.;
+  if(user_error_) {
+    return false;
+  }
 
   // FIXME; add global methed. now we only have local method, or sync mpi results here
   wrk_primal_->copy_from_starting_at(x, 0, n_); // [x pe ne pi ni]
@@ -1673,7 +1702,9 @@ bool hiopFRProbDense::eval_cons(const size_type& n,
   wrk_x_->copy_from_starting_at(x, 0, n_x_);
 
   // evaluate base case c and d
-  nlp_base_->eval_c_d(*wrk_x_, new_x, *wrk_c_, *wrk_d_);
+  if(!nlp_base_->eval_c_d(*wrk_x_, new_x, *wrk_c_, *wrk_d_)) {
+    return false;
+  }
 
 #ifdef HIOP_USE_MPI
   // p and n are only located in the last rank
@@ -1749,7 +1780,9 @@ bool hiopFRProbDense::eval_Jac_cons(const size_type& n,
   wrk_x_->copy_from_starting_at(x, 0, n_x_);
 
   // get Jac_c and Jac_d for the x part --- use original Jac_c/Jac_d as buffers
-  nlp_base_->eval_Jac_c_d(*wrk_x_, new_x, *Jac_c, *Jac_d); 
+  if(!nlp_base_->eval_Jac_c_d(*wrk_x_, new_x, *Jac_c, *Jac_d)) {
+    return false;
+  }
   
   // FIXME add set_Jac_FR in hiopMatrixDense
   Jac_cd_->set_Jac_FR(*Jac_c, *Jac_d);
@@ -1917,7 +1950,11 @@ bool hiopFRProbDense::iterate_callback(int iter,
   // FIXME; add global methed. now we only have local method
   wrk_x_->copy_from_starting_at(x, 0, n_x_);
   wrk_d_->copy_from_starting_at(s, 0, m_ineq_);
-  nlp_base_->eval_c_d(*wrk_x_, true, *wrk_cbody_, *wrk_dbody_);
+  if(!nlp_base_->eval_c_d(*wrk_x_, true, *wrk_cbody_, *wrk_dbody_)) {
+    // returning false would mean that FR succeeded; the failure is reported by the next evaluation
+    user_error_ = true;
+    return true;
+  }
 
   // compute theta for base problem
   wrk_cbody_->axpy(-1.0, crhs);           // wrk_cbody_ = (c-crhs)
diff --git a/src/Optimization/hiopFRProb.hpp b/src/Optimization/hiopFRProb.hpp
index 50e51e2..e3e7859 100644
--- a/src/Optimization/hiopFRProb.hpp
+++ b/src/Optimization/hiopFRProb.hpp
@@ -219,6 +219,9 @@ private:
   double rho_;
   double obj_base_;
 
+  /// true if the user's functions failed in the iterate callback
+  bool user_error_{false};
+
   int pe_st_; // the 1st index of pe in the full primal space
   int ne_st_; // the 1st index of ne in the full primal space
   int pi_st_; // the 1st index of pi in the full primal space
@@ -397,6 +400,9 @@ private:
   double rho_;
   double obj_base_;
 
+  /// true if the user's functions failed in the iterate callback
+  bool user_error_{false};
+
   int x_sp_st_; // the 1st index of x_sp in the full primal space
   int pe_st_; // the 1st index of pe in the full primal space
   int ne_st_; // the 1st index of ne in the full primal space
@@ -531,6 +537,9 @@ private:
   double rho_;
   double obj_base_;
 
+  /// true if the user's functions failed in the iterate callback
+  bool user_error_{false};
+
   index_type* col_partition_;
   MPI_Comm comm_;
   size_type rank_;
-- 
2.43.0


From 109743a690e3d8b772d2fc7fdf93b1dce5d9270e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:35 +0000
Subject: [PATCH 23/81] fix: a failed LSQ update of the duals falls back to the
 standard update instead of aborting

---
 src/Optimization/hiopDualsUpdater.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Optimization/hiopDualsUpdater.cpp b/src/Optimization/hiopDualsUpdater.cpp
index 510fae0..6a63d8c 100644
--- a/src/Optimization/hiopDualsUpdater.cpp
+++ b/src/Optimization/hiopDualsUpdater.cpp
@@ -146,7 +146,11 @@ bool hiopDualsLsqUpdate::go(const hiopIterate& iter,
     return true;
   }
 
-  return do_lsq_update(iter_plus, grad_f, jac_c, jac_d);
+  if(!do_lsq_update(iter_plus, grad_f, jac_c, jac_d)) {
+    // for example, the Jacobian is rank deficient; the duals updated along the search direction remain in use
+    nlp_->log->printf(hovWarning, "dual lsq update: LSQ problem not solved; will use the standard update of the duals\n");
+  }
+  return true;
 }
 
 hiopDualsLsqUpdateLinsysRedDense::hiopDualsLsqUpdateLinsysRedDense(hiopNlpFormulation* nlp)
-- 
2.43.0


From fef68257db8d3d1c03a3a68577e0187af123909c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:51 +0000
Subject: [PATCH 24/81] fix: a singular secant representation discards the
 pairs instead of aborting

---
 src/Optimization/hiopHessianLowRank.cpp | 19 +++++++++++++------
 src/Optimization/hiopHessianLowRank.hpp |  2 +-
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/Optimization/hiopHessianLowRank.cpp b/src/Optimization/hiopHessianLowRank.cpp
index df898ec..d4dc71a 100644
--- a/src/Optimization/hiopHessianLowRank.cpp
+++ b/src/Optimization/hiopHessianLowRank.cpp
@@ -479,7 +479,14 @@ void hiopHessianLowRank::updateInternalBFGSRepresentation()
 #endif
 
   //finally, factorize V
-  factorizeV();
+  if(!factorizeV()) {
+    //V is singular: discard the secant pairs and continue with B0+Dx
+    nlp->log->printf(hovWarning, "hiopHessianLowRank: discarding the secant memory since V is singular\n");
+    alloc_for_limited_mem(0);
+    l_curr = 0;
+    delete V_;
+    V_ = LinearAlgebraFactory::create_matrix_dense("DEFAULT", 0, 0);
+  }
 
   matrixChanged=false;
 }
@@ -640,13 +647,13 @@ symMatTimesInverseTimesMatTrans(double beta,
 }
 
 
-void hiopHessianLowRank::factorizeV()
+bool hiopHessianLowRank::factorizeV()
 {
   int N = V_->n();
   int lda = N;
   int info;
   if(N==0) {
-    return;
+    return true;
   }
 
 #ifdef HIOP_DEEPCHECKS
@@ -676,12 +683,12 @@ void hiopHessianLowRank::factorizeV()
   if(info<0)
     nlp->log->printf(hovError, "hiopHessianLowRank::factorizeV error: %d argument to dsytrf has an illegal value\n", -info);
   else if(info>0)
-    nlp->log->printf(hovError, "hiopHessianLowRank::factorizeV error: %d entry in the factorization's diagonal is exactly zero. Division by zero will occur if it a solve is attempted.\n", info);
-  assert(info==0);
+    nlp->log->printf(hovWarning, "hiopHessianLowRank::factorizeV error: %d entry in the factorization's diagonal is exactly zero. Division by zero will occur if it a solve is attempted.\n", info);
+  assert(info>=0);
 #ifdef HIOP_DEEPCHECKS
   nlp->log->write("factorizeV:  factors of V: ", *V_, hovMatrices);
 #endif
-
+  return info==0;
 }
 
 void hiopHessianLowRank::solveWithV(hiopVector& rhs_s, hiopVector& rhs_y)
diff --git a/src/Optimization/hiopHessianLowRank.hpp b/src/Optimization/hiopHessianLowRank.hpp
index 05457c1..97197b4 100644
--- a/src/Optimization/hiopHessianLowRank.hpp
+++ b/src/Optimization/hiopHessianLowRank.hpp
@@ -224,7 +224,7 @@ private:
   /* members and utilities related to V matrix: factorization and solve */
   hiopVector *_V_work_vec;
   int _V_ipiv_size; int* _V_ipiv_vec;
-  void factorizeV();
+  bool factorizeV();
   void solveWithV(hiopVector& rhs_s, hiopVector& rhs_y);
   void solveWithV(hiopMatrixDense& rhs);
 private:
-- 
2.43.0


From c7559986b263cc7a941cf7bbcd6f9146c8befda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:42 +0000
Subject: [PATCH 25/81] fix: sparse matrix products with beta==0 do not read
 the (possibly uninitialized) output

---
 src/LinAlg/hiopMatrixSparseTriplet.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/LinAlg/hiopMatrixSparseTriplet.cpp b/src/LinAlg/hiopMatrixSparseTriplet.cpp
index 6b81c4f..9eba282 100644
--- a/src/LinAlg/hiopMatrixSparseTriplet.cpp
+++ b/src/LinAlg/hiopMatrixSparseTriplet.cpp
@@ -75,9 +75,9 @@ void hiopMatrixSparseTriplet::timesVec(double beta,
                                        double alpha,
                                        const double* x) const
 {
-  // y= beta*y
+  // y= beta*y (beta==0 overwrites y, which may be uninitialized, as BLAS does)
   for (int i = 0; i < nrows_; i++) {
-    y[i] *= beta;
+    y[i] = (beta == 0.) ? 0. : beta * y[i];
   }
 
   // y += alpha*this*x
@@ -112,9 +112,9 @@ void hiopMatrixSparseTriplet::transTimesVec(double beta,
                                             double alpha,
                                             const double* x) const
 {
-  // y:= beta*y
+  // y:= beta*y (beta==0 overwrites y, which may be uninitialized, as BLAS does)
   for (int i = 0; i < ncols_; i++) {
-    y[i] *= beta;
+    y[i] = (beta == 0.) ? 0. : beta * y[i];
   }
 
   // y += alpha*this^T*x
@@ -196,7 +196,7 @@ void hiopMatrixSparseTriplet::timesMatTrans(double beta,
           }
         }
       } //end of while loop over ki and kj
-      WM[(i)*n_W + j] = beta*WM[(i)*n_W + j] + alpha*acc;
+      WM[(i)*n_W + j] = (beta == 0. ? 0. : beta*WM[(i)*n_W + j]) + alpha*acc;
     } //end j
   } // end i    
 }
@@ -942,9 +942,9 @@ void hiopMatrixSymSparseTriplet::timesVec(double beta,  double* y,
                                           double alpha, const double* x ) const
 {
   assert(ncols_ == nrows_);
-  // y:= beta*y
+  // y:= beta*y (beta==0 overwrites y, which may be uninitialized, as BLAS does)
   for (int i = 0; i < nrows_; i++) {
-    y[i] *= beta;
+    y[i] = (beta == 0.) ? 0. : beta * y[i];
   }
 
   // y += alpha*this*x
-- 
2.43.0


From f113a998f0723715d09c995f729856aa112f6c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:42 +0000
Subject: [PATCH 26/81] fix: hiopMatrixMDS::timesMatTrans applies alpha

---
 src/LinAlg/hiopMatrixMDS.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LinAlg/hiopMatrixMDS.hpp b/src/LinAlg/hiopMatrixMDS.hpp
index 9998bc8..f8c42b4 100644
--- a/src/LinAlg/hiopMatrixMDS.hpp
+++ b/src/LinAlg/hiopMatrixMDS.hpp
@@ -95,8 +95,8 @@ public:
   {
     const hiopMatrixMDS &X_mds = dynamic_cast<const hiopMatrixMDS&>(X);
     
-    mDe->timesMatTrans(beta, W, 1.0, *X_mds.de_mat());
-    mSp->timesMatTrans(1.0, W, 1.0, *X_mds.sp_mat());
+    mDe->timesMatTrans(beta, W, alpha, *X_mds.de_mat());
+    mSp->timesMatTrans(1.0, W, alpha, *X_mds.sp_mat());
   }
 
 
-- 
2.43.0


From c036680c80529c611ca002c2a3d3fafe2d4dbb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:42 +0000
Subject: [PATCH 27/81] fix: startingAtAddSubDiagonalToStartingAt honors
 nonzero start indexes

---
 src/LinAlg/hiopMatrixSparseTriplet.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/LinAlg/hiopMatrixSparseTriplet.cpp b/src/LinAlg/hiopMatrixSparseTriplet.cpp
index 9eba282..5ec92aa 100644
--- a/src/LinAlg/hiopMatrixSparseTriplet.cpp
+++ b/src/LinAlg/hiopMatrixSparseTriplet.cpp
@@ -1022,7 +1022,7 @@ void hiopMatrixSymSparseTriplet::startingAtAddSubDiagonalToStartingAt(int diag_s
                                                                       int num_elems/*=-1*/) const
 {
   hiopVectorPar& vd = dynamic_cast<hiopVectorPar&>(vec_dest);
-  if(num_elems<0) num_elems = vd.get_size();
+  if(num_elems<0) num_elems = vd.get_size()-vec_start;
   assert(num_elems<=vd.get_size());
 
   assert(diag_src_start>=0 && diag_src_start+num_elems<=this->nrows_);
@@ -1032,8 +1032,8 @@ void hiopMatrixSymSparseTriplet::startingAtAddSubDiagonalToStartingAt(int diag_s
     const int row = iRow_[itnz];
     if(row==jCol_[itnz]) {
       if(row>=diag_src_start && row<diag_src_start+num_elems) {
-        assert(row+vec_start<vd.get_size());
-        v[vec_start+row] += alpha * this->values_[itnz];
+        assert(row-diag_src_start+vec_start<vd.get_size());
+        v[vec_start+row-diag_src_start] += alpha * this->values_[itnz];
       }
     }
   }
-- 
2.43.0


From 1a7beb652a40c1f6b6e148a7a1381c1e9ac63a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 28/81] fix: convert_to_csr_arrays maps the extra diagonal
 elements to their sorted positions

---
 src/LinAlg/hiopMatrixSparseTriplet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/hiopMatrixSparseTriplet.cpp b/src/LinAlg/hiopMatrixSparseTriplet.cpp
index 5ec92aa..6f0e054 100644
--- a/src/LinAlg/hiopMatrixSparseTriplet.cpp
+++ b/src/LinAlg/hiopMatrixSparseTriplet.cpp
@@ -1302,7 +1302,7 @@ void hiopMatrixSparseTriplet::convert_to_csr_arrays(int &csr_nnz,
       
       int old_nnz_idx = index_convert_extra_Diag2CSR_temp[i];
       if(old_nnz_idx!=-1){
-        int old_nnz_in_row = ind_temp[old_nnz_idx - csr_kRowPtr[i]];
+        int old_nnz_in_row = old_nnz_idx - csr_kRowPtr[i];
         std::vector<int>::iterator p = std::find(ind_temp.begin(),ind_temp.end(),old_nnz_in_row);
         assert(p != ind_temp.end());        
         int new_nnz_idx = (int) std::distance (ind_temp.begin(), p) + csr_kRowPtr[i];
-- 
2.43.0


From 2e5a8f864021ef1bff60854c35397f8e7c385cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 29/81] fix: products with an empty dense matrix and beta==0
 overwrite the output

---
 src/LinAlg/hiopMatrixDenseRowMajor.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/LinAlg/hiopMatrixDenseRowMajor.cpp b/src/LinAlg/hiopMatrixDenseRowMajor.cpp
index 6dd7ef7..ff5b85f 100644
--- a/src/LinAlg/hiopMatrixDenseRowMajor.cpp
+++ b/src/LinAlg/hiopMatrixDenseRowMajor.cpp
@@ -472,7 +472,10 @@ timesVec(double beta, double* ya, double alpha, const double* xa) const
   } else {
     if( MM != 0 ) {
       //y.scale( beta );
-      if(beta != 1.) {
+      if(beta == 0.) {
+        //overwrite 'ya' (as DGEMV does), which may be uninitialized
+        std::fill(ya, ya+MM, 0.);
+      } else if(beta != 1.) {
 	int one=1; 
 	DSCAL(&MM, &beta, ya, &one);
       }
@@ -520,9 +523,14 @@ void hiopMatrixDenseRowMajor::transTimesVec(double beta, double* ya,
 	    xa, &incx_y, &beta, ya, &incx_y );
   } else {
     if( NN != 0 ) {
-      //y.scale( beta );
-      int one=1; 
-      DSCAL(&NN, &beta, ya, &one);
+      if(beta == 0.) {
+        //overwrite 'ya' (as DGEMV does), which may be uninitialized
+        std::fill(ya, ya+NN, 0.);
+      } else {
+        //y.scale( beta );
+        int one=1; 
+        DSCAL(&NN, &beta, ya, &one);
+      }
     }
   }
 }
-- 
2.43.0


From 688cc0d508328b221b4b0f54d1764e0d7d598ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:31 +0000
Subject: [PATCH 30/81] fix: CSR matrices without nonzeros have valid row
 pointers and can be transposed repeatedly

---
 src/LinAlg/hiopMatrixSparseCSRSeq.cpp | 35 ++++++++++++++++++---------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/LinAlg/hiopMatrixSparseCSRSeq.cpp b/src/LinAlg/hiopMatrixSparseCSRSeq.cpp
index e9d4373..3fca390 100644
--- a/src/LinAlg/hiopMatrixSparseCSRSeq.cpp
+++ b/src/LinAlg/hiopMatrixSparseCSRSeq.cpp
@@ -86,9 +86,8 @@ hiopMatrixSparseCSRSeq::hiopMatrixSparseCSRSeq(size_type rows, size_type cols, s
   if(rows==0 || cols==0) {
     assert(nnz_==0 && "number of nonzeros must be zero when any of the dimensions are 0");
     nnz_ = 0;
-  } else {
-    alloc();
   }
+  alloc();
 }
 
 hiopMatrixSparseCSRSeq::hiopMatrixSparseCSRSeq()
@@ -99,6 +98,7 @@ hiopMatrixSparseCSRSeq::hiopMatrixSparseCSRSeq()
     buf_col_(nullptr),
     row_starts_(nullptr)
 {
+  alloc();
 }
 
   
@@ -113,7 +113,8 @@ void hiopMatrixSparseCSRSeq::alloc()
   assert(jcolind_ == nullptr);
   assert(values_ == nullptr);
 
-  irowptr_ = new index_type[nrows_+1];
+  //zero row pointers, so that matrices without nonzeros are valid
+  irowptr_ = new index_type[nrows_+1]{};
   jcolind_ = new index_type[nnz_];
   values_ = new double[nnz_];
 
@@ -886,6 +887,10 @@ void hiopMatrixSparseCSRSeq::form_transpose_from_symbolic(const hiopMatrixSparse
     alloc();
   }
 
+  //any row starts of a previous symbolic phase are discarded
+  delete[] row_starts_;
+  row_starts_ = new index_type[nrows_]{};
+
   assert(nnz_>=0);
   if(nnz_<=0) {
     return;
@@ -898,8 +903,6 @@ void hiopMatrixSparseCSRSeq::form_transpose_from_symbolic(const hiopMatrixSparse
   const index_type* Mirow = M.i_row();
   const index_type* Mjcol = M.j_col();
 
-  assert(nullptr == row_starts_);
-  row_starts_ = new index_type[nrows_];
 
   //in this method we use the row_starts_ as working buffer to count nz on each row of `this`
   //at the end of this method row_starts_ keeps row starts, used by the numeric method to
@@ -950,7 +953,9 @@ void hiopMatrixSparseCSRSeq::form_transpose_from_symbolic(const hiopMatrixSparse
   for(int i=nrows_-1; i>=1; --i) {
     row_starts_[i] = row_starts_[i-1];
   }
-  row_starts_[0]=0;
+  if(nrows_>0) {
+    row_starts_[0]=0;
+  }
 #ifndef NDEBUG
   for(int i=0; i<nrows_; i++) {
     for(int itnz=irowptr_[i]+1; itnz<irowptr_[i+1]; ++itnz) {
@@ -1001,7 +1006,9 @@ void hiopMatrixSparseCSRSeq::form_transpose_from_numeric(const hiopMatrixSparseT
   for(int i=nrows_-1; i>=1; --i) {
     row_starts_[i] = row_starts_[i-1];
   }
-  row_starts_[0]=0;
+  if(nrows_>0) {
+    row_starts_[0]=0;
+  }
 }
 
 void hiopMatrixSparseCSRSeq::form_transpose_from_symbolic(const hiopMatrixSparseCSR& M_in)
@@ -1017,6 +1024,10 @@ void hiopMatrixSparseCSRSeq::form_transpose_from_symbolic(const hiopMatrixSparse
     alloc();
   }
 
+  //any row starts of a previous symbolic phase are discarded
+  delete[] row_starts_;
+  row_starts_ = new index_type[nrows_]{};
+
   assert(nnz_>=0);
   if(nnz_<=0) {
     return;
@@ -1029,8 +1040,6 @@ void hiopMatrixSparseCSRSeq::form_transpose_from_symbolic(const hiopMatrixSparse
   const index_type* Mirow = M.i_row();
   const index_type* Mjcol = M.j_col();
 
-  assert(nullptr == row_starts_);
-  row_starts_ = new index_type[nrows_];
 
   //in this method we use the row_starts_ as working buffer to count nz on each row of `this`
   //at the end of this method row_starts_ keeps row starts, used by the numeric method to
@@ -1083,7 +1092,9 @@ void hiopMatrixSparseCSRSeq::form_transpose_from_symbolic(const hiopMatrixSparse
   for(int i=nrows_-1; i>=1; --i) {
     row_starts_[i] = row_starts_[i-1];
   }
-  row_starts_[0]=0;
+  if(nrows_>0) {
+    row_starts_[0]=0;
+  }
 #ifndef NDEBUG
   for(int i=0; i<nrows_; i++) {
     for(int itnz=irowptr_[i]+1; itnz<irowptr_[i+1]; ++itnz) {
@@ -1138,7 +1149,9 @@ void hiopMatrixSparseCSRSeq::form_transpose_from_numeric(const hiopMatrixSparseC
   for(int i=nrows_-1; i>=1; --i) {
     row_starts_[i] = row_starts_[i-1];
   }
-  row_starts_[0]=0;
+  if(nrows_>0) {
+    row_starts_[0]=0;
+  }
 }
 
 
-- 
2.43.0


From 029d397e41216ac3314093e45fbcd7eaf2d0ffec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:04 +0000
Subject: [PATCH 31/81] fix: complex timesVec with an empty matrix scales all
 elements of the output

---
 src/LinAlg/hiopMatrixComplexDense.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/LinAlg/hiopMatrixComplexDense.cpp b/src/LinAlg/hiopMatrixComplexDense.cpp
index ec3dbea..eedc851 100644
--- a/src/LinAlg/hiopMatrixComplexDense.cpp
+++ b/src/LinAlg/hiopMatrixComplexDense.cpp
@@ -160,8 +160,10 @@ namespace hiop
 	     xa, &incx_y, &beta, ya, &incx_y );
     } else {
       if( MM != 0 ) {
-        int one=1; 
-        ZSCAL(&NN, &beta, ya, &one);
+        // no columns: y = beta*y, where y is overwritten (not read) when beta is zero, as ZGEMV does
+        for(int i=0; i<MM; i++) {
+          ya_[i] = (beta_in==0.) ? std::complex<double>(0.) : beta_in*ya_[i];
+        }
       } else {
         assert(MM==0);
         return;
-- 
2.43.0


From 0f8db72c402637af53de7d8065c90f2080855d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:04 +0000
Subject: [PATCH 32/81] fix: new_sliceFromSym populates all the columns of the
 slice

---
 src/LinAlg/hiopMatrixComplexSparseTriplet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/hiopMatrixComplexSparseTriplet.cpp b/src/LinAlg/hiopMatrixComplexSparseTriplet.cpp
index ec322a3..0c828d3 100644
--- a/src/LinAlg/hiopMatrixComplexSparseTriplet.cpp
+++ b/src/LinAlg/hiopMatrixComplexSparseTriplet.cpp
@@ -330,7 +330,7 @@ namespace hiop
       while(src_itnz<src_nnz && src_i[src_itnz]<row) 
 	src_itnz++;
 
-      for(int kj=ki; kj<ncols; kj++) {
+      for(int kj=0; kj<ncols; kj++) {
 	const int& col= col_idxs[kj];
 
 	if(col<row) continue;
-- 
2.43.0


From c2225c4d30dbc54a01928b0c61a9c22d4ce0e71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:04 +0000
Subject: [PATCH 33/81] fix: UMFPACK factorization reports singular matrices
 and releases previous factors

---
 src/LinAlg/hiopLinSolverUMFPACKZ.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/LinAlg/hiopLinSolverUMFPACKZ.cpp b/src/LinAlg/hiopLinSolverUMFPACKZ.cpp
index 8ef8c94..7b6f884 100644
--- a/src/LinAlg/hiopLinSolverUMFPACKZ.cpp
+++ b/src/LinAlg/hiopLinSolverUMFPACKZ.cpp
@@ -38,12 +38,12 @@ namespace hiop
   hiopLinSolverUMFPACKZ::~hiopLinSolverUMFPACKZ()
   {
     if(m_symbolic) {
-      umfpack_di_free_symbolic(&m_symbolic);
+      umfpack_zi_free_symbolic(&m_symbolic);
       m_symbolic = NULL;
     }
 
     if(m_numeric) {
-      umfpack_di_free_numeric(&m_numeric) ;
+      umfpack_zi_free_numeric(&m_numeric) ;
       m_numeric = NULL;
     }
     
@@ -60,6 +60,16 @@ namespace hiop
     //UMFPACK does not handle zero-dimensioned arrays
     if(n==0) return 0;
     int status;
+
+    // release the factors of a previous factorization
+    if(m_symbolic) {
+      umfpack_zi_free_symbolic(&m_symbolic);
+      m_symbolic = NULL;
+    }
+    if(m_numeric) {
+      umfpack_zi_free_numeric(&m_numeric);
+      m_numeric = NULL;
+    }
     
     //
     // copy from sys_mat triplets to UMFPACK's column form sparse format
@@ -120,7 +130,8 @@ namespace hiop
 
     status = umfpack_zi_numeric(m_colptr, m_rowidx, m_vals, (double*) NULL,
 				m_symbolic, &m_numeric, m_control, m_info);
-    if(status<0) {
+    // a singular matrix is reported by UMFPACK as a (positive) warning
+    if(status<0 || status==UMFPACK_WARNING_singular_matrix) {
       umfpack_zi_report_info (m_control, m_info) ;
       umfpack_zi_report_status (m_control, status) ;
       printf("[%d] UMFPACK: error in the numeric factorization: status=%d\n",
-- 
2.43.0


From 02721ff0040b18e42e502959fb821418e5975bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:04 +0000
Subject: [PATCH 34/81] fix: Kron reduction can be repeated with the same
 object and reports failed solves

---
 src/Utils/hiopKronReduction.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/Utils/hiopKronReduction.cpp b/src/Utils/hiopKronReduction.cpp
index 05e6a46..f3b88cb 100644
--- a/src/Utils/hiopKronReduction.cpp
+++ b/src/Utils/hiopKronReduction.cpp
@@ -61,10 +61,19 @@ namespace hiop
 
       //Ybb\Yba
       //hiopMatrixComplexDense Ybbinv_Yba(Yba_->m(), Yba_->n());
-      assert(map_nonaux_to_aux_==NULL);
       delete map_nonaux_to_aux_;
       map_nonaux_to_aux_ = new hiopMatrixComplexDense(Yba->m(), Yba->n());
-      linsolver_->solve(*Yba, *map_nonaux_to_aux_);
+      if(!linsolver_->solve(*Yba, *map_nonaux_to_aux_)) {
+        printf("Error occured while performing the Kron reduction (solve issue)\n");
+        delete linsolver_;
+        linsolver_ = NULL;
+        delete map_nonaux_to_aux_;
+        map_nonaux_to_aux_ = NULL;
+        delete Yaa;
+        delete Ybb;
+        delete Yba;
+        return false;
+      }
 
       map_nonaux_to_aux_->negate();
       //Ybbinv_Yba.print();
-- 
2.43.0


From 58696f8ceb62e6a0ebdddde61cd0bd6921ae8c53 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:16:57 +0000
Subject: [PATCH 35/81] fix: BiCGStab does not apply the right preconditioner
 in place

---
 src/LinAlg/hiopKrylovSolver.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/LinAlg/hiopKrylovSolver.cpp b/src/LinAlg/hiopKrylovSolver.cpp
index 25f8fe2..233f95b 100644
--- a/src/LinAlg/hiopKrylovSolver.cpp
+++ b/src/LinAlg/hiopKrylovSolver.cpp
@@ -506,7 +506,8 @@ bool hiopBiCGStabSolver::solve(hiopVector* b)
       ph_->copyFrom(*pk_);
     }
     if(MR_opr_) {
-      MR_opr_->times_vec(*ph_, *ph_);
+      t_->copyFrom(*ph_);
+      MR_opr_->times_vec(*ph_, *t_);
     }
 
     A_opr_->times_vec(*v_, *ph_);
@@ -586,7 +587,8 @@ bool hiopBiCGStabSolver::solve(hiopVector* b)
       ph_->copyFrom(*sk_);
     }
     if(MR_opr_) {
-      MR_opr_->times_vec(*ph_, *ph_);
+      t_->copyFrom(*ph_);
+      MR_opr_->times_vec(*ph_, *t_);
     }
 
     A_opr_->times_vec(*t_, *ph_);
-- 
2.43.0


From 615d11942d9f3f2f24628112676dbf03c14dc8b9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:16:57 +0000
Subject: [PATCH 36/81] fix: BiCGStab keeps the right-hand side until the
 returned iterate is selected

---
 src/LinAlg/hiopKrylovSolver.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/LinAlg/hiopKrylovSolver.cpp b/src/LinAlg/hiopKrylovSolver.cpp
index 233f95b..e7f2415 100644
--- a/src/LinAlg/hiopKrylovSolver.cpp
+++ b/src/LinAlg/hiopKrylovSolver.cpp
@@ -562,7 +562,6 @@ bool hiopBiCGStabSolver::solve(hiopVector* b)
         moresteps++;
         if(moresteps >= maxmsteps) {
           // tol is too small
-          b->copyFrom(*xk_);
           flag_ = 3;
           iter_ = ii + 1 - 0.5;
           break;
@@ -642,7 +641,6 @@ bool hiopBiCGStabSolver::solve(hiopVector* b)
         moresteps++;
         if(moresteps >= maxmsteps) {
           // tol is too small
-          b->copyFrom(*xk_);
           flag_ = 3;
           iter_ = ii + 1;
           break;
-- 
2.43.0


From 99ddb770034121b9203e274f2609f3d8e097e0b4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:17:20 +0000
Subject: [PATCH 37/81] fix: Krylov solvers stop at non-finite iterates and do
 not keep them for the next solve

---
 src/LinAlg/hiopKrylovSolver.cpp | 70 +++++++++++++++++++++++++++------
 1 file changed, 58 insertions(+), 12 deletions(-)

diff --git a/src/LinAlg/hiopKrylovSolver.cpp b/src/LinAlg/hiopKrylovSolver.cpp
index e7f2415..46055f8 100644
--- a/src/LinAlg/hiopKrylovSolver.cpp
+++ b/src/LinAlg/hiopKrylovSolver.cpp
@@ -231,7 +231,7 @@ bool hiopPCGSolver::solve(hiopVector* b)
     rho = res_->dotProductWith(*zk_);
 
     //check for stagnation
-    if((rho == 0) || std::abs(rho) > 1E+20) {
+    if((rho == 0) || !(std::abs(rho) <= 1E+20)) {
       flag_ = 4;
       iter_ = ii + 1;
       break;
@@ -241,7 +241,7 @@ bool hiopPCGSolver::solve(hiopVector* b)
       pk_->copyFrom(*zk_);
     } else {
       double beta = rho / rho1;
-      if(beta == 0 || std::abs(beta) > 1E+20) {
+      if(beta == 0 || !(std::abs(beta) <= 1E+20)) {
         flag_ = 4;
         iter_ = ii + 1;
         break;
@@ -250,17 +250,24 @@ bool hiopPCGSolver::solve(hiopVector* b)
       pk_->axpy(1.0, *zk_);      
     }
 
+    // the recurrences broke down (overflow)
+    if(!std::isfinite(pk_->twonorm())) {
+      flag_ = 4;
+      iter_ = ii + 1;
+      break;
+    }
+
     A_opr_->times_vec(*qk_, *pk_);
     pq = pk_->dotProductWith(*qk_);
     
-    if(pq <= 0.0 || std::abs(pq) > 1E+20) {
+    if(pq <= 0.0 || !(std::abs(pq) <= 1E+20)) {
       flag_ = 4;
       iter_ = ii + 1;
       break;
     } else {
       alpha = rho / pq;
     }
-    if(std::abs(alpha) > 1E+20) {
+    if(!(std::abs(alpha) <= 1E+20)) {
       flag_ = 4;
       iter_ = ii + 1;
       break;
@@ -280,6 +287,13 @@ bool hiopPCGSolver::solve(hiopVector* b)
     normr = res_->twonorm();
     abs_resid_ = normr;
 
+    // the recurrences broke down (overflow)
+    if(!std::isfinite(normr) || !std::isfinite(xk_->twonorm())) {
+      flag_ = 4;
+      iter_ = ii + 1;
+      break;
+    }
+
     // check for convergence
     if(normr <= tolb || stagsteps >= maxstagsteps || moresteps) {
       // update residual: b-KKT*xk
@@ -332,7 +346,7 @@ bool hiopPCGSolver::solve(hiopVector* b)
     res_->scale(-1.0);        
     double normr_comp = res_->twonorm();
     
-    if(normr_comp <= abs_resid_) {
+    if(normr_comp <= abs_resid_ || !std::isfinite(abs_resid_) || !std::isfinite(xk_->twonorm())) {
       b->copyFrom(*xmin_);
       iter_ = imin + 1;
       abs_resid_ = normr_comp;
@@ -343,6 +357,8 @@ bool hiopPCGSolver::solve(hiopVector* b)
       imin = iter_;
       rel_resid_ = abs_resid_ / n2b;
     }
+    // a subsequent solve starts from the returned iterate
+    xk_->copyFrom(*b);
 
     ss_info_ << "PCG did NOT converged after " << ii+1 << " iters. The solution from iter " 
              << imin << " was returned." << std::endl;
@@ -480,7 +496,7 @@ bool hiopBiCGStabSolver::solve(hiopVector* b)
     rho = rt_->dotProductWith(*res_);
 
     //check for stagnation
-    if((rho == 0) || std::abs(rho) > 1E+40) {
+    if((rho == 0) || !(std::abs(rho) <= 1E+40)) {
       flag_ = 4;
       iter_ = ii + 1 - 0.5;
       break;
@@ -490,7 +506,7 @@ bool hiopBiCGStabSolver::solve(hiopVector* b)
       pk_->copyFrom(*res_);
     } else {
       double beta = rho / rho1 * (alpha / omega);
-      if(beta == 0 || std::abs(beta) > 1E+40) {
+      if(beta == 0 || !(std::abs(beta) <= 1E+40)) {
         flag_ = 4;
         iter_ = ii + 1 - 0.5;
         break;
@@ -510,11 +526,18 @@ bool hiopBiCGStabSolver::solve(hiopVector* b)
       MR_opr_->times_vec(*ph_, *t_);
     }
 
+    // the recurrences broke down (overflow)
+    if(!std::isfinite(ph_->twonorm())) {
+      flag_ = 4;
+      iter_ = ii + 1 - 0.5;
+      break;
+    }
+
     A_opr_->times_vec(*v_, *ph_);
     
     double rtv = rt_->dotProductWith(*v_);
     
-    if(rtv == 0.0 || std::abs(rtv) > 1E+40) {
+    if(rtv == 0.0 || !(std::abs(rtv) <= 1E+40)) {
       flag_ = 4;
       iter_ = ii + 1 - 0.5;
       break;
@@ -522,7 +545,7 @@ bool hiopBiCGStabSolver::solve(hiopVector* b)
 
     alpha = rho / rtv;
 
-    if(std::abs(alpha) > 1E+20) {
+    if(!(std::abs(alpha) <= 1E+20)) {
       flag_ = 4;
       iter_ = ii + 1 - 0.5;
       break;
@@ -543,6 +566,13 @@ bool hiopBiCGStabSolver::solve(hiopVector* b)
     normr = sk_->twonorm();
     abs_resid_ = normr;
 
+    // the recurrences broke down (overflow)
+    if(!std::isfinite(normr) || !std::isfinite(xk_->twonorm())) {
+      flag_ = 4;
+      iter_ = ii + 1 - 0.5;
+      break;
+    }
+
     // check for convergence
     if(normr <= tolb || stagsteps >= maxstagsteps || moresteps) {
       // update residual: b-KKT*xk
@@ -590,11 +620,18 @@ bool hiopBiCGStabSolver::solve(hiopVector* b)
       MR_opr_->times_vec(*ph_, *t_);
     }
 
+    // the recurrences broke down (overflow)
+    if(!std::isfinite(ph_->twonorm())) {
+      flag_ = 4;
+      iter_ = ii + 1;
+      break;
+    }
+
     A_opr_->times_vec(*t_, *ph_);
 
     double tt = t_->dotProductWith(*t_);
     
-    if(tt == 0.0 || std::abs(tt) > 1E+20) {
+    if(tt == 0.0 || !(std::abs(tt) <= 1E+20)) {
       iter_ = ii + 1;
       flag_ = 4;
       break;
@@ -602,7 +639,7 @@ bool hiopBiCGStabSolver::solve(hiopVector* b)
 
     omega = t_->dotProductWith(*sk_) / tt;
 
-    if(std::abs(omega) > 1E+20) {
+    if(!(std::abs(omega) <= 1E+20)) {
       iter_ = ii + 1;
       flag_ = 4;
       break;
@@ -622,6 +659,13 @@ bool hiopBiCGStabSolver::solve(hiopVector* b)
     normr = res_->twonorm();
     abs_resid_ = normr;
 
+    // the recurrences broke down (overflow)
+    if(!std::isfinite(normr) || !std::isfinite(xk_->twonorm())) {
+      flag_ = 4;
+      iter_ = ii + 1;
+      break;
+    }
+
     // check for convergence
     if(normr <= tolb || stagsteps >= maxstagsteps || moresteps) {
       // update residual: b-KKT*xk
@@ -676,7 +720,7 @@ bool hiopBiCGStabSolver::solve(hiopVector* b)
     res_->scale(-1.0);        
     double normr_comp = res_->twonorm();
     
-    if(normr_comp <= abs_resid_) {
+    if(normr_comp <= abs_resid_ || !std::isfinite(abs_resid_) || !std::isfinite(xk_->twonorm())) {
       b->copyFrom(*xmin_);
       iter_ = imin + 1;
       abs_resid_ = normr_comp;
@@ -687,6 +731,8 @@ bool hiopBiCGStabSolver::solve(hiopVector* b)
       imin = iter_;
       rel_resid_ = abs_resid_ / n2b;
     }
+    // a subsequent solve starts from the returned iterate
+    xk_->copyFrom(*b);
 
     ss_info_ << "BiCGStab did NOT converged after " << ii+1 << " iters. The solution from iter " 
              << imin << " was returned." << std::endl;
-- 
2.43.0


From 17f548e5a68fb19cb273da9b3b27197690f63df1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:26:39 +0000
Subject: [PATCH 38/81] fix: option names and values are not used as printf
 formats

---
 src/Utils/hiopOptions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Utils/hiopOptions.cpp b/src/Utils/hiopOptions.cpp
index 7ce51f9..9e35991 100644
--- a/src/Utils/hiopOptions.cpp
+++ b/src/Utils/hiopOptions.cpp
@@ -480,9 +480,9 @@ void hiopOptions::log_printf(hiopOutVerbosity v, const char* format, ...)
   va_start (args, format);
   vsnprintf(buff,1024,format, args);
   if(log_) {
-    log_->printf(v,buff);
+    log_->printf(v, "%s", buff);
   } else {
-    hiopLogger::printf_error(v,buff);
+    hiopLogger::printf_error(v, "%s", buff);
   }
   //fprintf(stderr,buff);
   va_end (args);
-- 
2.43.0


From 6ff4f61881fd480795bdd2807bcd15910685716d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:26:39 +0000
Subject: [PATCH 39/81] fix: options are marked as user defined exactly when a
 value is accepted, and NaN is out of range

---
 src/Utils/hiopOptions.cpp | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/Utils/hiopOptions.cpp b/src/Utils/hiopOptions.cpp
index 9e35991..380094f 100644
--- a/src/Utils/hiopOptions.cpp
+++ b/src/Utils/hiopOptions.cpp
@@ -290,13 +290,8 @@ bool hiopOptions::SetNumericValue (const char* name, const double& value, const
         }
       }
       
-      if(setFromFile) {
-        option->specifiedInFile=true;
-      } else {
-        option->specifiedAtRuntime=true;
-      }
-      
-      if(value<option->lb || value>option->ub) {
+      // the negated form also rejects NaN
+      if(!(value>=option->lb && value<=option->ub)) {
         log_printf(hovWarning,
                    "Hiop: option '%s' must be in [%g,%g]. Default value %g will be used.\n",
                    name, option->lb,
@@ -304,6 +299,11 @@ bool hiopOptions::SetNumericValue (const char* name, const double& value, const
                    option->val);
       } else {
         option->val = value;
+        if(setFromFile) {
+          option->specifiedInFile = true;
+        } else {
+          option->specifiedAtRuntime = true;
+        }
       }
     }
   } else {
@@ -361,9 +361,6 @@ bool hiopOptions::SetIntegerValue(const char* name, const int& value, const bool
         }
       }
       
-      if(setFromFile) {
-        option->specifiedInFile=true;
-      }
       if(value<option->lb || value>option->ub) {
         log_printf(hovWarning,
                    "Hiop: option '%s' must be in [%d, %d]. Default value %d will be used.\n",
@@ -373,6 +370,11 @@ bool hiopOptions::SetIntegerValue(const char* name, const int& value, const bool
                    option->val);
       } else {
         option->val = value;
+        if(setFromFile) {
+          option->specifiedInFile = true;
+        } else {
+          option->specifiedAtRuntime = true;
+        }
       }
     }
   } else {
@@ -435,9 +437,6 @@ bool hiopOptions::SetStringValue (const char* name,  const char* value, const bo
         }
       }
       
-      if(setFromFile) {
-        option->specifiedInFile = true;
-      }
       string strValue(value);
       transform(strValue.begin(), strValue.end(), strValue.begin(), ::tolower);
       //see if it is in the range (of supported values)
@@ -461,6 +460,11 @@ bool hiopOptions::SetStringValue (const char* name,  const char* value, const bo
                    option->val.c_str());
       } else {
         option->val = strValue;
+        if(setFromFile) {
+          option->specifiedInFile = true;
+        } else {
+          option->specifiedAtRuntime = true;
+        }
       }
     }
   } else {
-- 
2.43.0


From cea4833b3fc485587bc47ccf64dafa27fa9fe15d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:26:39 +0000
Subject: [PATCH 40/81] fix: options that can take any string keep the case of
 the value

---
 src/Utils/hiopOptions.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/Utils/hiopOptions.cpp b/src/Utils/hiopOptions.cpp
index 380094f..9069581 100644
--- a/src/Utils/hiopOptions.cpp
+++ b/src/Utils/hiopOptions.cpp
@@ -396,7 +396,9 @@ bool hiopOptions::set_val(const char* name, const char* value_in)
       assert(false && "mismatch between name and type happened in internal 'set_val'");
     } else {
       string value(value_in);
-      transform(value.begin(), value.end(), value.begin(), ::tolower);
+      if(!option->range.empty()) {
+        transform(value.begin(), value.end(), value.begin(), ::tolower);
+      }
       //see if it is in the range (of supported values)
       bool inrange=false;
       for(int it=0; it<static_cast<int>(option->range.size()) && !inrange; it++) {
@@ -438,7 +440,10 @@ bool hiopOptions::SetStringValue (const char* name,  const char* value, const bo
       }
       
       string strValue(value);
-      transform(strValue.begin(), strValue.end(), strValue.begin(), ::tolower);
+      if(!option->range.empty()) {
+        // options that can take any value (for example, file names) are case sensitive
+        transform(strValue.begin(), strValue.end(), strValue.begin(), ::tolower);
+      }
       //see if it is in the range (of supported values)
       bool inrange=false;
       for(int it=0; it<static_cast<int>(option->range.size()) && !inrange; it++) {
-- 
2.43.0


From 6a7fee540325c278becb3734ea5fdd63058dfe2f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:26:39 +0000
Subject: [PATCH 41/81] fix: numbers in the options file are parsed as a whole

---
 src/Utils/hiopOptions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Utils/hiopOptions.cpp b/src/Utils/hiopOptions.cpp
index 9069581..d75a795 100644
--- a/src/Utils/hiopOptions.cpp
+++ b/src/Utils/hiopOptions.cpp
@@ -194,7 +194,7 @@ void hiopOptions::load_from_file(const char* filename)
       if(on!=NULL) {
         stringstream ss(value);
         double val;
-        if(ss>>val) {
+        if(ss>>val && ss.peek()==stringstream::traits_type::eof()) {
           SetNumericValue(name.c_str(), val, true);
         } else {
           log_printf(hovWarning,
@@ -212,7 +212,7 @@ void hiopOptions::load_from_file(const char* filename)
           oi = dynamic_cast<OptionInt*>(option);
           if(oi!=NULL) {
             stringstream ss(value); int val;
-            if(ss>>val) { SetIntegerValue(name.c_str(), val, true); }
+            if(ss>>val && ss.peek()==stringstream::traits_type::eof()) { SetIntegerValue(name.c_str(), val, true); }
             else {
               log_printf(hovWarning,
                          "Hiop could not parse value '%s' as int for option '%s' specified in "
-- 
2.43.0


From 6106189473d28c454e10b55142c3c94939c66900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:03 +0000
Subject: [PATCH 42/81] fix: C interface passes new_x to the objective and
 gradient callbacks

---
 src/Interface/chiopInterface.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Interface/chiopInterface.hpp b/src/Interface/chiopInterface.hpp
index d75dd56..5637dd3 100644
--- a/src/Interface/chiopInterface.hpp
+++ b/src/Interface/chiopInterface.hpp
@@ -144,13 +144,13 @@ public:
     };
     bool eval_f(const size_type& n, const double* x, bool new_x, double& obj_value)
     {
-      cprob->eval_f(n, (double *) x, 0, &obj_value, cprob->user_data);
+      cprob->eval_f(n, (double *) x, new_x, &obj_value, cprob->user_data);
       return true;
     };
 
     bool eval_grad_f(const size_type& n, const double* x, bool new_x, double* gradf)
     {
-      cprob->eval_grad_f(n, (double *) x, 0, gradf, cprob->user_data);
+      cprob->eval_grad_f(n, (double *) x, new_x, gradf, cprob->user_data);
 
       return true;
     };
@@ -331,13 +331,13 @@ class cppUserProblemSparse : public hiopInterfaceSparse
 
     bool eval_f(const size_type& n, const double* x, bool new_x, double& obj_value)
     {
-      cprob_->eval_f_(n, (double *) x, 0, &obj_value, cprob_->user_data_);
+      cprob_->eval_f_(n, (double *) x, new_x, &obj_value, cprob_->user_data_);
       return true;
     };
 
     bool eval_grad_f(const size_type& n, const double* x, bool new_x, double* gradf)
     {
-      cprob_->eval_grad_f_(n, (double *) x, 0, gradf, cprob_->user_data_);
+      cprob_->eval_grad_f_(n, (double *) x, new_x, gradf, cprob_->user_data_);
 
       return true;
     };
@@ -516,13 +516,13 @@ public:
 
     bool eval_f(const size_type& n, const double* x, bool new_x, double& obj_value)
     {
-      cprob->eval_f(n, (double *) x, 0, &obj_value, cprob->user_data);
+      cprob->eval_f(n, (double *) x, new_x, &obj_value, cprob->user_data);
       return true;
     };
 
     bool eval_grad_f(const size_type& n, const double* x, bool new_x, double* gradf)
     {
-      cprob->eval_grad_f(n, (double *) x, 0, gradf, cprob->user_data);
+      cprob->eval_grad_f(n, (double *) x, new_x, gradf, cprob->user_data);
 
       return true;
     };
-- 
2.43.0


From d17d1e90fa0e9a1a229103b5f534010d86a7ae74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:54 +0000
Subject: [PATCH 43/81] fix: fixed_var=remove works when the variables are not
 distributed

---
 src/Optimization/hiopNlpFormulation.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index f3829b8..136b08d 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -308,7 +308,9 @@ bool hiopNlpFormulation::finalizeInitialization()
       
 
 #ifdef HIOP_USE_MPI
-      fixedVarsRemover->setFSVectorDistrib(vec_distrib_,num_ranks_);
+      if(vec_distrib_ != nullptr) {
+        fixedVarsRemover->setFSVectorDistrib(vec_distrib_,num_ranks_);
+      }
       fixedVarsRemover->setMPIComm(comm_);
 #endif
       bret = fixedVarsRemover->setupDecisionVectorPart(); 
@@ -316,9 +318,11 @@ bool hiopNlpFormulation::finalizeInitialization()
     
       n_vars_ = fixedVarsRemover->rs_n();
 #ifdef HIOP_USE_MPI
-      index_type* vec_distrib_rs = fixedVarsRemover->allocRSVectorDistrib();
-      delete[] vec_distrib_;
-      vec_distrib_ = vec_distrib_rs;
+      if(vec_distrib_ != nullptr) {
+        index_type* vec_distrib_rs = fixedVarsRemover->allocRSVectorDistrib();
+        delete[] vec_distrib_;
+        vec_distrib_ = vec_distrib_rs;
+      }
 #endif
     
       hiopVector* xl_rs;
-- 
2.43.0


From 87320b8aff02d4bb9f42f255959cbf6874974eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:54 +0000
Subject: [PATCH 44/81] fix: getSolution returns all the user's variables when
 fixed variables are removed

---
 src/Optimization/hiopNlpFormulation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Optimization/hiopNlpFormulation.hpp b/src/Optimization/hiopNlpFormulation.hpp
index b37b88f..33834ec 100644
--- a/src/Optimization/hiopNlpFormulation.hpp
+++ b/src/Optimization/hiopNlpFormulation.hpp
@@ -260,7 +260,7 @@ public:
     //double *hiop_xa = hiop_x.local_data();
     hiopVector *x = nlp_transformations_.apply_inv_to_x(hiop_x,/*new_x=*/true); 
     //memcpy(user_x, user_xa, hiop_x.get_local_size()*sizeof(double));
-    memcpy(user_x, x->local_data(), nlp_transformations_.n_post_local()*sizeof(double));
+    memcpy(user_x, x->local_data(), nlp_transformations_.n_pre_local()*sizeof(double));
   }
 
   /* copies/unpacks duals of the bounds and of constraints from 'it' to the three arrays */
-- 
2.43.0


From 327cd2ec9fbeb87b63cb34bb0bf31e4db7deed5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:40 +0000
Subject: [PATCH 45/81] fix: one-call Jacobian evaluations overran the Jacobian
 when fixed variables are removed

---
 src/Optimization/hiopNlpTransforms.cpp | 27 ++++++++-------
 src/Optimization/hiopNlpTransforms.hpp | 48 ++++++++++++++++++++++++++
 2 files changed, 62 insertions(+), 13 deletions(-)

diff --git a/src/Optimization/hiopNlpTransforms.cpp b/src/Optimization/hiopNlpTransforms.cpp
index 4de2cfd..0a8b09b 100644
--- a/src/Optimization/hiopNlpTransforms.cpp
+++ b/src/Optimization/hiopNlpTransforms.cpp
@@ -70,8 +70,8 @@ hiopFixedVarsRemover(hiopNlpFormulation* nlp,
                      const size_type& numFixedVars_local)
   : hiopNlpTransformation(nlp),
     n_fixed_vars_local(numFixedVars_local), fixedVarTol(fixedVarTol_),
-    Jacc_fs(nullptr), Jacd_fs(nullptr),
-    Jacc_rs_ref(nullptr), Jacd_rs_ref(nullptr),
+    Jacc_fs(nullptr), Jacd_fs(nullptr), Jaccons_fs(nullptr),
+    Jacc_rs_ref(nullptr), Jacd_rs_ref(nullptr), Jaccons_rs_ref(nullptr),
     fs2rs_idx_map(xl.get_local_size()),
     x_rs_ref_(nullptr)
 {
@@ -92,6 +92,7 @@ hiopFixedVarsRemover::~hiopFixedVarsRemover()
   delete grad_fs;
   if(Jacc_fs) delete Jacc_fs;
   if(Jacd_fs) delete Jacd_fs;
+  if(Jaccons_fs) delete Jaccons_fs;
 };
 
 #ifdef HIOP_USE_MPI
@@ -177,23 +178,23 @@ bool hiopFixedVarsRemover::setupConstraintsPart(const int& neq, const int& nineq
   assert(Jacc_fs==NULL && "should not be allocated at this point");
   assert(Jacd_fs==NULL && "should not be allocated at this point");
 
+  Jacc_fs = alloc_jacob_fs(neq);
+  Jacd_fs = alloc_jacob_fs(nineq);
+  return true;
+}
+
+hiopMatrixDense* hiopFixedVarsRemover::alloc_jacob_fs(const int& m_in)
+{
+  const std::string mem_space = nlp_->options->GetString("mem_space");
 #ifdef HIOP_USE_MPI
   if(fs_vec_distrib.size()) {
-    Jacc_fs = LinearAlgebraFactory::
-      create_matrix_dense(nlp_->options->GetString("mem_space"),neq, n_fs, fs_vec_distrib.data(), comm);
-    Jacd_fs = LinearAlgebraFactory::
-      create_matrix_dense(nlp_->options->GetString("mem_space"), nineq, n_fs, fs_vec_distrib.data(), comm);
+    return LinearAlgebraFactory::create_matrix_dense(mem_space, m_in, n_fs, fs_vec_distrib.data(), comm);
   } else {
-    Jacc_fs = LinearAlgebraFactory::
-      create_matrix_dense(nlp_->options->GetString("mem_space"), neq, n_fs, NULL, comm);
-    Jacd_fs = LinearAlgebraFactory::
-      create_matrix_dense(nlp_->options->GetString("mem_space"), nineq, n_fs, NULL, comm);
+    return LinearAlgebraFactory::create_matrix_dense(mem_space, m_in, n_fs, NULL, comm);
   }
 #else
-  Jacc_fs = LinearAlgebraFactory::create_matrix_dense(nlp_->options->GetString("mem_space"), neq, n_fs);
-  Jacd_fs = LinearAlgebraFactory::create_matrix_dense(nlp_->options->GetString("mem_space"), nineq, n_fs);
+  return LinearAlgebraFactory::create_matrix_dense(mem_space, m_in, n_fs);
 #endif
-  return true;
 }
 
 /* "copies" a full space vector/array to a reduced space vector/array */
diff --git a/src/Optimization/hiopNlpTransforms.hpp b/src/Optimization/hiopNlpTransforms.hpp
index 0548f5e..7b91dbc 100644
--- a/src/Optimization/hiopNlpTransforms.hpp
+++ b/src/Optimization/hiopNlpTransforms.hpp
@@ -254,6 +254,32 @@ public:
     applyInvToMatrix(Jac_de->local_data(), m_in, Jacd_rs_ref->local_data());
     return Jacd_rs_ref;
   }
+  /* from rs to fs (Jacobian of all constraints, used with one-call evaluations) */
+  inline hiopMatrix* apply_inv_to_jacob_cons(hiopMatrix& Jac_in, const int& m_in)
+  {
+    hiopMatrixDense* Jac_de = dynamic_cast<hiopMatrixDense*>(&Jac_in);
+    if(Jac_de==nullptr) {
+      return nullptr;
+    }
+    Jaccons_rs_ref = Jac_de;
+    if(Jaccons_fs==nullptr) {
+      Jaccons_fs = alloc_jacob_fs(m_in);
+    }
+    assert(Jaccons_fs->m()==m_in);
+    applyToMatrix(Jac_de->local_data(), m_in, Jaccons_fs->local_data());
+    return Jaccons_fs;
+  }
+  inline hiopMatrix* apply_to_jacob_cons(hiopMatrix& Jac_in, const int& m_in)
+  {
+    hiopMatrixDense* Jac_de = dynamic_cast<hiopMatrixDense*>(&Jac_in);
+    if(Jac_de==nullptr) {
+      return nullptr;
+    }
+    assert(Jac_de==Jaccons_fs);
+    assert(Jaccons_fs->m()==m_in);
+    applyInvToMatrix(Jac_de->local_data(), m_in, Jaccons_rs_ref->local_data());
+    return Jaccons_rs_ref;
+  }
 
   /** methods not inherited from parent class */
   bool setupDecisionVectorPart();
@@ -281,6 +307,9 @@ protected:
   void apply_inv_to_vector   (const hiopVector* vec_rs, hiopVector* vec_fs);
   void apply_to_vector(const hiopVector* vec_fs, hiopVector* vec_rs);
   
+  /* allocates a full-space Jacobian with 'm_in' rows */
+  hiopMatrixDense* alloc_jacob_fs(const int& m_in);
+
   void applyToMatrix   (const double* M_rs, const int& m_in, double* M_fs);
   void applyInvToMatrix(const double* M_fs, const int& m_in, double* M_rs);
 protected:
@@ -296,9 +325,11 @@ protected:
   hiopVector*x_fs, *grad_fs;
   //working buffers for the full-space Jacobians
   hiopMatrixDense *Jacc_fs, *Jacd_fs;
+  hiopMatrixDense *Jaccons_fs; //allocated only when the constraints are evaluated at once
   
   hiopMatrixDense *Jacc_rs_ref;
   hiopMatrixDense *Jacd_rs_ref;
+  hiopMatrixDense *Jaccons_rs_ref;
 
   //a copy of the lower and upper bounds provided by user
   hiopVector*xl_fs, *xu_fs;
@@ -787,6 +818,23 @@ public:
     return ret;
   }
 
+  hiopMatrix* apply_inv_to_jacob_cons(hiopMatrix& Jac_in, const int& m_in)
+  {
+    hiopMatrix* ret = &Jac_in;
+    for(std::list<hiopNlpTransformation*>::reverse_iterator it=list_trans_.rbegin(); it!=list_trans_.rend(); ++it) {
+      ret = (*it)->apply_inv_to_jacob_cons(*ret, m_in);
+    }
+    return ret;
+  }
+
+  hiopMatrix* apply_to_jacob_cons(hiopMatrix& Jac_in, const int& m_in)
+  {
+    hiopMatrix* ret = &Jac_in;
+    for(std::list<hiopNlpTransformation*>::iterator it=list_trans_.begin(); it!=list_trans_.end(); ++it) {
+      ret = (*it)->apply_to_jacob_cons(*ret, m_in);
+    }
+    return ret;
+  }
 
 private:
   std::list<hiopNlpTransformation*> list_trans_;
-- 
2.43.0


From 478f9f7c81f1e8fa09fc7e9f7b114d87275a517b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:43 +0000
Subject: [PATCH 46/81] fix: callbacks, duals and starting duals have the
 user's size when fixed variables are removed

---
 src/Optimization/hiopNlpFormulation.cpp | 91 +++++++++++++++----------
 src/Optimization/hiopNlpFormulation.hpp | 15 ++++
 src/Optimization/hiopNlpTransforms.cpp  | 20 ++++++
 src/Optimization/hiopNlpTransforms.hpp  |  4 ++
 4 files changed, 94 insertions(+), 36 deletions(-)

diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index 136b08d..b383b50 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -143,6 +143,7 @@ hiopNlpFormulation::hiopNlpFormulation(hiopInterfaceBase& interface_, const char
   temp_x_ = nullptr;
   nlp_scaling_ = nullptr;
   relax_bounds_ = nullptr;
+  fixed_vars_remover_ = nullptr;
 }
 
 hiopNlpFormulation::~hiopNlpFormulation()
@@ -183,7 +184,7 @@ hiopNlpFormulation::~hiopNlpFormulation()
   delete temp_eq_;
   delete temp_ineq_;
   delete temp_x_;  
-  /// nlp_scaling_ and relax_bounds_ are deleted inside nlp_transformations_
+  /// nlp_scaling_, relax_bounds_, and fixed_vars_remover_ are deleted inside nlp_transformations_
 }
 
 bool hiopNlpFormulation::finalizeInitialization()
@@ -231,6 +232,7 @@ bool hiopNlpFormulation::finalizeInitialization()
   nlp_transformations_.clear();
   nlp_scaling_ = nullptr;
   relax_bounds_ = nullptr;
+  fixed_vars_remover_ = nullptr;
   modified_by_run_ = false;
   bound_relax_ = bound_relax;
   fixed_var_perturb_ = fixed_var_perturb;
@@ -365,6 +367,7 @@ bool hiopNlpFormulation::finalizeInitialization()
       n_bnds_lu_        -= nfixed_vars_local;
       
       nlp_transformations_.append(fixedVarsRemover);
+      fixed_vars_remover_ = fixedVarsRemover;
     } else {
       /*
       * Relax fixed variables according to 2 conditions:
@@ -818,8 +821,11 @@ bool hiopNlpFormulation::get_starting_point(hiopVector& x0_for_hiop,
                   yc0_for_hiop.get_size() + yd0_for_hiop.get_size());
 
   hiopVector* x0_for_user = nlp_transformations_.apply_inv_to_x(x0_for_hiop, true);
-  double* zL0_for_user = zL0_for_hiop.local_data();
-  double* zU0_for_user = zU0_for_hiop.local_data();
+  //duals of the bounds have the size of the user's variables
+  std::unique_ptr<hiopVector> zL0_user_vec(fixed_vars_remover_ ? new_copy_user_bound_duals(zL0_for_hiop) : nullptr);
+  std::unique_ptr<hiopVector> zU0_user_vec(fixed_vars_remover_ ? new_copy_user_bound_duals(zU0_for_hiop) : nullptr);
+  double* zL0_for_user = fixed_vars_remover_ ? zL0_user_vec->local_data() : zL0_for_hiop.local_data();
+  double* zU0_for_user = fixed_vars_remover_ ? zU0_user_vec->local_data() : zU0_for_hiop.local_data();
   double* lambda_for_user = lambdas->local_data();
   double* d_for_user = d0.local_data();
   
@@ -840,6 +846,10 @@ bool hiopNlpFormulation::get_starting_point(hiopVector& x0_for_hiop,
     
     //copy back 
     lambdas->copy_to_two_vec_w_pattern(yc0_for_hiop, *cons_eq_mapping_, yd0_for_hiop, *cons_ineq_mapping_);
+    if(fixed_vars_remover_) {
+      fixed_vars_remover_->copyFsToRs(*zL0_user_vec, zL0_for_hiop);
+      fixed_vars_remover_->copyFsToRs(*zU0_user_vec, zU0_for_hiop);
+    }
   }
   if(!bret) {
     bret = interface_base.get_starting_point(nlp_transformations_.n_pre(), x0_for_user->local_data());
@@ -869,8 +879,11 @@ bool hiopNlpFormulation::get_warmstart_point(hiopVector& x0_for_hiop,
                                                                   yc0_for_hiop.get_size() + yd0_for_hiop.get_size());
   
   hiopVector* x0_for_user = nlp_transformations_.apply_inv_to_x(x0_for_hiop, true);
-  double* zL0_for_user = zL0_for_hiop.local_data();
-  double* zU0_for_user = zU0_for_hiop.local_data();
+  //duals of the bounds have the size of the user's variables
+  std::unique_ptr<hiopVector> zL0_user_vec(fixed_vars_remover_ ? new_copy_user_bound_duals(zL0_for_hiop) : nullptr);
+  std::unique_ptr<hiopVector> zU0_user_vec(fixed_vars_remover_ ? new_copy_user_bound_duals(zU0_for_hiop) : nullptr);
+  double* zL0_for_user = fixed_vars_remover_ ? zL0_user_vec->local_data() : zL0_for_hiop.local_data();
+  double* zU0_for_user = fixed_vars_remover_ ? zU0_user_vec->local_data() : zU0_for_hiop.local_data();
   double* lambda_for_user = lambdas->local_data();
   double* d_for_user = d0.local_data();
   double* vl_for_user = vl0.local_data();
@@ -892,6 +905,10 @@ bool hiopNlpFormulation::get_warmstart_point(hiopVector& x0_for_hiop,
     
     //copy back 
     lambdas->copy_to_two_vec_w_pattern(yc0_for_hiop, *cons_eq_mapping_, yd0_for_hiop, *cons_ineq_mapping_);
+    if(fixed_vars_remover_) {
+      fixed_vars_remover_->copyFsToRs(*zL0_user_vec, zL0_for_hiop);
+      fixed_vars_remover_->copyFsToRs(*zU0_user_vec, zU0_for_hiop);
+    }
   }
   
   if(!bret) {
@@ -1066,10 +1083,10 @@ void hiopNlpFormulation::
 get_dual_solutions(const hiopIterate& it, double* zl_a, double* zu_a, double* lambda_a)
 {
   if(nullptr==nlp_scaling_) {
-    const hiopVector& zl = *it.get_zl();
-    const hiopVector& zu = *it.get_zu();
-    zl.copyTo(zl_a);
-    zu.copyTo(zu_a);
+    std::unique_ptr<hiopVector> zl(new_copy_user_bound_duals(*it.get_zl()));
+    std::unique_ptr<hiopVector> zu(new_copy_user_bound_duals(*it.get_zu()));
+    zl->copyTo(zl_a);
+    zu->copyTo(zu_a);
     
     if(cons_lambdas_ == nullptr) {
       cons_lambdas_ = this->alloc_dual_vec();
@@ -1078,16 +1095,13 @@ get_dual_solutions(const hiopIterate& it, double* zl_a, double* zu_a, double* la
     cons_lambdas_->copyTo(lambda_a);  
   } else {
     const double obj_scale_ext_to_hiop = this->get_obj_scale();
-    if(temp_x_ == nullptr) {
-      temp_x_ = this->alloc_primal_vec();
-    }
     // z_unscaled = z_scaled/obj_scale
-    temp_x_->copyFrom(*it.get_zl());
-    temp_x_->scale(1./obj_scale_ext_to_hiop);
-    temp_x_->copyTo(zl_a);
-    temp_x_->copyFrom(*it.get_zu());
-    temp_x_->scale(1./obj_scale_ext_to_hiop);
-    temp_x_->copyTo(zu_a);
+    std::unique_ptr<hiopVector> zl(new_copy_user_bound_duals(*it.get_zl()));
+    std::unique_ptr<hiopVector> zu(new_copy_user_bound_duals(*it.get_zu()));
+    zl->scale(1./obj_scale_ext_to_hiop);
+    zl->copyTo(zl_a);
+    zu->scale(1./obj_scale_ext_to_hiop);
+    zu->copyTo(zu_a);
 
     if(cons_lambdas_ == nullptr) {
       cons_lambdas_ = this->alloc_dual_vec();
@@ -1098,6 +1112,16 @@ get_dual_solutions(const hiopIterate& it, double* zl_a, double* zu_a, double* la
 
 }
 
+hiopVector* hiopNlpFormulation::new_copy_user_x(const hiopVector& x)
+{
+  return fixed_vars_remover_ ? fixed_vars_remover_->new_copy_fs_x(x) : x.new_copy();
+}
+
+hiopVector* hiopNlpFormulation::new_copy_user_bound_duals(const hiopVector& z)
+{
+  return fixed_vars_remover_ ? fixed_vars_remover_->new_copy_fs_duals(z) : z.new_copy();
+}
+
 void hiopNlpFormulation::unscale_cons_duals(const hiopVector& y_c, const hiopVector& y_d, hiopVector& lambdas)
 {
   if(temp_eq_ == nullptr) {
@@ -1154,16 +1178,14 @@ void hiopNlpFormulation::user_callback_solution(hiopSolveStatus status,
   }
   // return unscaled values; use copies since the iterate can be queried after this call
   // z_unscaled = z_scaled/obj_scale
-  std::unique_ptr<hiopVector> zl(z_L.new_copy());
-  std::unique_ptr<hiopVector> zu(z_U.new_copy());
+  std::unique_ptr<hiopVector> x_user(new_copy_user_x(x));
+  std::unique_ptr<hiopVector> zl(new_copy_user_bound_duals(z_L));
+  std::unique_ptr<hiopVector> zu(new_copy_user_bound_duals(z_U));
   zl->scale(1./obj_scale_ext_to_hiop);
   zu->scale(1./obj_scale_ext_to_hiop);
   unscale_cons_duals(y_c, y_d, *cons_lambdas_);
   unscale_cons_body(c, d, *cons_body_);
 
-  //! todo -> test this when fixed variables are removed -> the internal
-  //! zl and zu may have different sizes than what user expects since HiOp removes
-  //! variables internally
   if(options->GetString("callback_mem_space")=="host" && options->GetString("mem_space")=="device") {
     
 #if !defined(HIOP_USE_MPI)
@@ -1183,7 +1205,7 @@ void hiopNlpFormulation::user_callback_solution(hiopSolveStatus status,
     cons_lambdas_->copy_to_vectorpar(cons_lambdas_host);
 
     interface_base.solution_callback(status,
-                                    (int)n_vars_,
+                                    (int)nlp_transformations_.n_pre(),
                                     x_host.local_data_const(),
                                     zl_host.local_data_const(),
                                     zu_host.local_data_const(),
@@ -1193,8 +1215,8 @@ void hiopNlpFormulation::user_callback_solution(hiopSolveStatus status,
                                     obj_value/obj_scale_ext_to_hiop); 
   } else {
     interface_base.solution_callback(status,
-                                    (int)n_vars_,
-                                    x.local_data_const(),
+                                    (int)nlp_transformations_.n_pre(),
+                                    x_user->local_data_const(),
                                     zl->local_data_const(),
                                     zu->local_data_const(),
                                     (int)n_cons_,
@@ -1242,17 +1264,14 @@ bool hiopNlpFormulation::user_callback_iterate(int iter,
   unscale_cons_body(c, d, *cons_body_);
 
   // the user works with the unscaled problem
-  std::unique_ptr<hiopVector> zl(z_L.new_copy());
-  std::unique_ptr<hiopVector> zu(z_U.new_copy());
+  std::unique_ptr<hiopVector> x_user(new_copy_user_x(x));
+  std::unique_ptr<hiopVector> zl(new_copy_user_bound_duals(z_L));
+  std::unique_ptr<hiopVector> zu(new_copy_user_bound_duals(z_U));
   std::unique_ptr<hiopVector> sl(s.new_copy());
   zl->scale(1./this->get_obj_scale());
   zu->scale(1./this->get_obj_scale());
   nlp_transformations_.apply_inv_to_cons_ineq(*sl, n_cons_ineq_);
 
-  //! todo -> test this when fixed variables are removed -> the internal
-  //! zl and zu may have different sizes than what user expects since HiOp removes
-  //! variables internally
-
   bool bret{false};
 
   if(options->GetString("callback_mem_space")=="host" && options->GetString("mem_space")=="device") {
@@ -1262,7 +1281,7 @@ bool hiopNlpFormulation::user_callback_iterate(int iter,
     MPI_Comm comm_ = MPI_COMM_SELF;
 #endif  
     hiopVectorPar x_host(n_vars_, vec_distrib_, comm_);
-    x.copy_to_vectorpar(x_host);
+    x_user->copy_to_vectorpar(x_host);
 
     hiopVectorPar s_host(n_cons_ineq_, vec_distrib_, comm_);
     sl->copy_to_vectorpar(s_host);
@@ -1282,7 +1301,7 @@ bool hiopNlpFormulation::user_callback_iterate(int iter,
     bret = interface_base.iterate_callback(iter,
                                            obj_value/this->get_obj_scale(),
                                            logbar_obj_value,
-                                           (int)n_vars_,
+                                           (int)nlp_transformations_.n_pre(),
                                            x_host.local_data_const(),
                                            zl_host.local_data_const(),
                                            zu_host.local_data_const(),
@@ -1302,8 +1321,8 @@ bool hiopNlpFormulation::user_callback_iterate(int iter,
     bret = interface_base.iterate_callback(iter,
                                            obj_value/this->get_obj_scale(),
                                            logbar_obj_value,
-                                           (int)n_vars_,
-                                           x.local_data_const(),
+                                           (int)nlp_transformations_.n_pre(),
+                                           x_user->local_data_const(),
                                            zl->local_data_const(),
                                            zu->local_data_const(),
                                            (int)n_cons_ineq_,
diff --git a/src/Optimization/hiopNlpFormulation.hpp b/src/Optimization/hiopNlpFormulation.hpp
index 33834ec..9930e15 100644
--- a/src/Optimization/hiopNlpFormulation.hpp
+++ b/src/Optimization/hiopNlpFormulation.hpp
@@ -278,6 +278,18 @@ public:
   /// @brief unscale the constraints bodies and assemble them in the user's order in `body`
   void unscale_cons_body(const hiopVector& c, const hiopVector& d, hiopVector& body);
 
+  /**
+   * @brief return a copy of the primal vector `x` with the size and the ordering of the user's variables, that 
+   * is, containing also the variables that were fixed and removed internally
+   */
+  hiopVector* new_copy_user_x(const hiopVector& x);
+
+  /**
+   * @brief return a copy of the duals `z` of the variables' bounds with the size and the ordering of the user's 
+   * variables; the duals of the fixed variables removed internally are zero
+   */
+  hiopVector* new_copy_user_bound_duals(const hiopVector& z);
+
   /// @brief adjust variable/constraint bounds according to the given iteration.
   void adjust_bounds(const hiopIterate& it);
 
@@ -380,6 +392,9 @@ protected:
 
   /// @brief internal NLP transformations that relaxes the bounds
   hiopBoundsRelaxer* relax_bounds_;
+
+  /// @brief internal NLP transformation that removes the fixed variables; null if no variables are removed
+  hiopFixedVarsRemover* fixed_vars_remover_;
   
 
 #ifdef HIOP_USE_MPI
diff --git a/src/Optimization/hiopNlpTransforms.cpp b/src/Optimization/hiopNlpTransforms.cpp
index 0a8b09b..b472822 100644
--- a/src/Optimization/hiopNlpTransforms.cpp
+++ b/src/Optimization/hiopNlpTransforms.cpp
@@ -217,6 +217,26 @@ copyFsToRs(const hiopInterfaceBase::NonlinearityType* fs, hiopInterfaceBase::Non
   }
 }
 
+hiopVector* hiopFixedVarsRemover::new_copy_fs_x(const hiopVector& x_rs)
+{
+  hiopVector* ret = xl_fs->alloc_clone();
+  apply_inv_to_vector(&x_rs, ret);
+  return ret;
+}
+
+hiopVector* hiopFixedVarsRemover::new_copy_fs_duals(const hiopVector& z_rs)
+{
+  hiopVector* ret = xl_fs->alloc_clone();
+  apply_inv_to_vector(&z_rs, ret);
+  double* ret_arr = ret->local_data();
+  for(size_t i=0; i<fs2rs_idx_map.size(); i++) {
+    if(fs2rs_idx_map[i]<0) {
+      ret_arr[i] = 0.;
+    }
+  }
+  return ret;
+}
+
 /* from rs to fs */
 void hiopFixedVarsRemover::apply_inv_to_vector(const hiopVector* vec_rs, hiopVector* vec_fs)
 {
diff --git a/src/Optimization/hiopNlpTransforms.hpp b/src/Optimization/hiopNlpTransforms.hpp
index 7b91dbc..abfd3f4 100644
--- a/src/Optimization/hiopNlpTransforms.hpp
+++ b/src/Optimization/hiopNlpTransforms.hpp
@@ -291,6 +291,10 @@ public:
   index_type* allocRSVectorDistrib();
   inline void setMPIComm(const MPI_Comm& commIn) { comm = commIn; }
 #endif
+  /* returns a full space copy of the reduced space vector of variables */
+  hiopVector* new_copy_fs_x(const hiopVector& x_rs);
+  /* returns a full space copy of the reduced space vector of duals; duals of the fixed variables are zero */
+  hiopVector* new_copy_fs_duals(const hiopVector& z_rs);
   /* "copies" a full space vector to a reduced space vector */
   void copyFsToRs(const hiopVector& fsVec,  hiopVector& rsVec);
   void copyFsToRs(const hiopInterfaceBase::NonlinearityType* fs, hiopInterfaceBase::NonlinearityType* rs);
-- 
2.43.0


From 0394739a0c3e51b0474563e0a271e9af107925cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:58 +0000
Subject: [PATCH 47/81] fix: the mixed dense-sparse and sparse formulations
 relax fixed variables they cannot remove

---
 src/Optimization/hiopNlpFormulation.cpp | 11 +++++++++--
 src/Optimization/hiopNlpFormulation.hpp |  6 ++++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index b383b50..3a37a8e 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -295,7 +295,14 @@ bool hiopNlpFormulation::finalizeInitialization()
   if(nfixed_vars>0) {
     log->printf(hovWarning, "Detected %lld fixed variables out of a total of %lld.\n", nfixed_vars, n_vars_);
 
-    if(options->GetString("fixed_var")=="remove") {
+    std::string fixed_var = options->GetString("fixed_var");
+    if(fixed_var=="remove" && !can_remove_fixed_vars()) {
+      log->printf(hovWarning, "Fixed variables will be relaxed since their removal is supported only by the dense "
+                  "constraints formulation.\n");
+      fixed_var = "relax";
+    }
+
+    if(fixed_var=="remove") {
       //
       // remove free variables
       //
@@ -376,7 +383,7 @@ bool hiopNlpFormulation::finalizeInitialization()
       * 2. bound_relax_perturb!=0.0: Later we will use hiopBoundsRelaxer to relax the variable and inequlity bounds, 
       *    according to bound_relax_perturb. It will also relax the fixed variables, hence we can skip relax fixed var here.
       */
-      if(options->GetString("fixed_var")=="relax" && options->GetNumeric("bound_relax_perturb") == 0.0) {
+      if(fixed_var=="relax" && options->GetNumeric("bound_relax_perturb") == 0.0) {
         log->printf(hovWarning, "Fixed variables will be relaxed internally.\n");
         auto* fixedVarsRelaxer =
           new hiopFixedVarsRelaxer(this, *xl_, *xu_, nfixed_vars, nfixed_vars_local);
diff --git a/src/Optimization/hiopNlpFormulation.hpp b/src/Optimization/hiopNlpFormulation.hpp
index 9930e15..45fd52c 100644
--- a/src/Optimization/hiopNlpFormulation.hpp
+++ b/src/Optimization/hiopNlpFormulation.hpp
@@ -101,6 +101,10 @@ public:
   virtual ~hiopNlpFormulation();
 
   virtual bool finalizeInitialization();
+
+  /// @brief whether the formulation can remove fixed variables; otherwise, they are relaxed
+  virtual bool can_remove_fixed_vars() const { return false; }
+
   virtual bool apply_scaling(hiopVector& c, hiopVector& d, hiopVector& gradf, 
                              hiopMatrix& Jac_c, hiopMatrix& Jac_d);
 
@@ -459,6 +463,8 @@ public:
 
   virtual bool finalizeInitialization();
 
+  virtual bool can_remove_fixed_vars() const { return true; }
+
   virtual bool eval_Jac_c(hiopVector& x, bool new_x, hiopMatrix& Jac_c);
   virtual bool eval_Jac_d(hiopVector& x, bool new_x, hiopMatrix& Jac_d);
   /* specialized evals to avoid overhead of dynamic cast. Generic variants available above. */
-- 
2.43.0


From ea131ff49c0cdcc01a30fc93f37b422f9b2b8b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:24 +0000
Subject: [PATCH 48/81] fix: variables with an infinite upper bound are not
 fixed variables

---
 src/Optimization/hiopNlpTransforms.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Optimization/hiopNlpTransforms.cpp b/src/Optimization/hiopNlpTransforms.cpp
index b472822..e782e37 100644
--- a/src/Optimization/hiopNlpTransforms.cpp
+++ b/src/Optimization/hiopNlpTransforms.cpp
@@ -161,7 +161,7 @@ bool hiopFixedVarsRemover::setupDecisionVectorPart()
   int it_rs=0; 
   for(int i=0;i<n_fs_local; i++) {
     //if(xl_vec[i]==xu_vec[i]) {
-    if(fabs(xl_vec[i]-xu_vec[i])<= fixedVarTol*fmax(1.,fabs(xu_vec[i]))) {
+    if(xu_vec[i]<1e20 && fabs(xl_vec[i]-xu_vec[i])<= fixedVarTol*fmax(1.,fabs(xu_vec[i]))) {
       fs2rs_idx_map[i]=-1;
     } else {
       fs2rs_idx_map[i]=it_rs;
@@ -337,7 +337,7 @@ relax(const double& fixed_var_tol, const double& fixed_var_perturb, hiopVector&
   double xuabs;
   for(index_type i=0; i<n; i++) {
     xuabs = fabs(xua[i]);
-    if(fabs(xua[i]-xla[i])<= fixed_var_tol*fmax(1.,xuabs)) {
+    if(xua[i]<1e20 && fabs(xua[i]-xla[i])<= fixed_var_tol*fmax(1.,xuabs)) {
 
       xua[i] += fixed_var_perturb*fmax(1.,xuabs);
       xla[i] -= fixed_var_perturb*fmax(1.,xuabs);
-- 
2.43.0


From 8d9a21b3981e966051c8514dd5b10c7878195ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:39 +0000
Subject: [PATCH 49/81] fix: one-call Jacobians are scaled, not transformed
 twice, when fixed variables are removed

---
 src/Optimization/hiopNlpFormulation.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index 3a37a8e..7fbab9d 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -1615,9 +1615,11 @@ bool hiopNlpDenseConstraints::eval_Jac_c_d_interface_impl(hiopVector& x, bool ne
   Jac_cde->copyRowsFrom(*cons_Jac_, cons_eq_mapping_->local_data_const(), n_cons_eq_);
   Jac_dde->copyRowsFrom(*cons_Jac_, cons_ineq_mapping_->local_data_const(), n_cons_ineq_);
   
-  // scale Jacobian matrices
-  Jac_c = *(nlp_transformations_.apply_to_jacob_eq(Jac_c, n_cons_eq_));
-  Jac_d = *(nlp_transformations_.apply_to_jacob_ineq(Jac_d, n_cons_ineq_));
+  // scale Jacobian matrices (fixed variables, if any, were already removed above)
+  if(nlp_scaling_) {
+    Jac_c = *(nlp_scaling_->apply_to_jacob_eq(Jac_c, n_cons_eq_));
+    Jac_d = *(nlp_scaling_->apply_to_jacob_ineq(Jac_d, n_cons_ineq_));
+  }
 
   runStats.tmEvalJac_con.stop();
   runStats.nEvalJac_con_eq++;
-- 
2.43.0


From fb091b01f656ad0b1c6c53df7fa206268c58cd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:16 +0000
Subject: [PATCH 50/81] fix: sparse formulation: request the sparsity pattern
 again for newly allocated matrices; document multiplier order

---
 src/Interface/hiopInterface.hpp         | 2 +-
 src/Optimization/hiopNlpFormulation.hpp | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Interface/hiopInterface.hpp b/src/Interface/hiopInterface.hpp
index 47c54d3..eaa10cb 100644
--- a/src/Interface/hiopInterface.hpp
+++ b/src/Interface/hiopInterface.hpp
@@ -854,7 +854,7 @@ public:
   /** Evaluates the sparse Hessian of the Lagrangian function.
    *
    * @note 1)-4) from 'eval_Jac_cons' applies to xxxHSS
-   * @note 5) The order of multipliers is: lambda=[lambda_eq, lambda_ineq]
+   * @note 5) The multipliers are in the order in which the user specified the constraints
    */
   virtual bool eval_Hess_Lagr(const size_type& n,
                               const size_type& m,
diff --git a/src/Optimization/hiopNlpFormulation.hpp b/src/Optimization/hiopNlpFormulation.hpp
index 45fd52c..32231b6 100644
--- a/src/Optimization/hiopNlpFormulation.hpp
+++ b/src/Optimization/hiopNlpFormulation.hpp
@@ -640,11 +640,15 @@ public:
   }
   virtual hiopMatrix* alloc_Jac_cons()
   {
+    //the sparsity pattern of the new matrix is not yet known
+    num_jac_eval_ = 0;
     return LinearAlgebraFactory::create_matrix_sparse(options->GetString("mem_space"),n_cons_, n_vars_, nnz_sparse_Jaceq_ + nnz_sparse_Jacineq_);
     //return new hiopMatrixSparseTriplet(n_cons_, n_vars_, nnz_sparse_Jaceq_ + nnz_sparse_Jacineq_);
   }
   virtual hiopMatrix* alloc_Hess_Lagr()
   {
+    //the sparsity pattern of the new matrix is not yet known
+    num_hess_eval_ = 0;
     return LinearAlgebraFactory::create_matrix_sym_sparse(options->GetString("mem_space"),n_vars_, nnz_sparse_Hess_Lagr_);
     //return new hiopMatrixSymSparseTriplet(n_vars_, nnz_sparse_Hess_Lagr_);
   }
-- 
2.43.0


From 0a7e04042c302b21faa95f020f8de23eb6d53561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:06 +0000
Subject: [PATCH 51/81] fix: initial duals and slacks given by the user are
 scaled with the problem; refused warm start falls back to the starting point

---
 src/Optimization/hiopAlgFilterIPM.cpp   | 21 ++++++++++++--
 src/Optimization/hiopNlpFormulation.cpp | 38 +++++++++++++++++++++----
 src/Optimization/hiopNlpFormulation.hpp | 11 +++++++
 3 files changed, 62 insertions(+), 8 deletions(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 0541980..ecf339c 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -295,8 +295,10 @@ int hiopAlgFilterIPMBase::startingProcedure(hiopIterate& it_ini,
                                         *it_ini.get_d(),
                                         *it_ini.get_vl(),
                                         *it_ini.get_vu());
-    warmstart_avail = duals_avail = slacks_avail = true;
-  } else {
+    warmstart_avail = duals_avail = slacks_avail = ret_bool;
+  }
+
+  if(!warmstart_avail) {
     ret_bool = nlp->get_starting_point(*it_ini.get_x(),
                                        duals_avail,
                                        *it_ini.get_zl(),
@@ -333,7 +335,20 @@ int hiopAlgFilterIPMBase::startingProcedure(hiopIterate& it_ini,
     return false;
   }
 
-  [[maybe_unused]] const bool do_nlp_scaling = nlp->apply_scaling(c, d, gradf, Jac_c, Jac_d);
+  const bool do_nlp_scaling = nlp->apply_scaling(c, d, gradf, Jac_c, Jac_d);
+
+  // the user provides duals and slacks of the unscaled problem
+  if(do_nlp_scaling && duals_avail) {
+    nlp->scale_starting_duals(*it_ini.get_zl(),
+                              *it_ini.get_zu(),
+                              *it_ini.get_vl(),
+                              *it_ini.get_vu(),
+                              *it_ini.get_yc(),
+                              *it_ini.get_yd());
+  }
+  if(do_nlp_scaling && slacks_avail) {
+    nlp->scale_starting_slacks(*it_ini.get_d());
+  }
   
   nlp->runStats.tmSolverInternal.start();
   nlp->runStats.tmStartingPoint.start();
diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index 7fbab9d..a36f15f 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -754,6 +754,38 @@ bool hiopNlpFormulation::apply_scaling(hiopVector& c, hiopVector& d, hiopVector&
 }
 
 
+void hiopNlpFormulation::scale_starting_duals(hiopVector& zl,
+                                              hiopVector& zu,
+                                              hiopVector& vl,
+                                              hiopVector& vu,
+                                              hiopVector& yc,
+                                              hiopVector& yd)
+{
+  if(nullptr == nlp_scaling_) {
+    return;
+  }
+  const double obj_scale = get_obj_scale();
+  // z_scaled = obj_scale*z
+  zl.scale(obj_scale);
+  zu.scale(obj_scale);
+  // y_scaled = obj_scale*y/y_scale
+  nlp_scaling_->apply_inv_to_cons_eq(yc, n_cons_eq_);
+  nlp_scaling_->apply_inv_to_cons_ineq(yd, n_cons_ineq_);
+  nlp_scaling_->apply_inv_to_cons_ineq(vl, n_cons_ineq_);
+  nlp_scaling_->apply_inv_to_cons_ineq(vu, n_cons_ineq_);
+  yc.scale(obj_scale);
+  yd.scale(obj_scale);
+  vl.scale(obj_scale);
+  vu.scale(obj_scale);
+}
+
+void hiopNlpFormulation::scale_starting_slacks(hiopVector& d)
+{
+  if(nlp_scaling_) {
+    nlp_scaling_->apply_to_cons_ineq(d, n_cons_ineq_);
+  }
+}
+
 hiopVector* hiopNlpFormulation::alloc_primal_vec() const
 {
   return xl_->alloc_clone();
@@ -905,7 +937,7 @@ bool hiopNlpFormulation::get_warmstart_point(hiopVector& x0_for_hiop,
                                             d_for_user,
                                             vl_for_user,
                                             vu_for_user);
-  {
+  if(bret) {
     assert(n_cons_eq_   == yc0_for_hiop.get_size() && "when did the cons change?");
     assert(n_cons_ineq_ == yd0_for_hiop.get_size() && "when did the cons change?");
     assert(n_cons_eq_+n_cons_ineq_ == n_cons_);
@@ -918,10 +950,6 @@ bool hiopNlpFormulation::get_warmstart_point(hiopVector& x0_for_hiop,
     }
   }
   
-  if(!bret) {
-    bret = interface_base.get_starting_point(nlp_transformations_.n_pre(), x0_for_user->local_data());
-  }
-  
   if(bret) {
     nlp_transformations_.apply_to_x(*x0_for_user, x0_for_hiop);
   }
diff --git a/src/Optimization/hiopNlpFormulation.hpp b/src/Optimization/hiopNlpFormulation.hpp
index 32231b6..9f48f78 100644
--- a/src/Optimization/hiopNlpFormulation.hpp
+++ b/src/Optimization/hiopNlpFormulation.hpp
@@ -151,6 +151,17 @@ public:
                                    hiopVector& vl0,
                                    hiopVector& vu0);
 
+  /// @brief transform the initial duals given by the user (of the unscaled problem) to duals of the scaled problem
+  void scale_starting_duals(hiopVector& zl,
+                            hiopVector& zu,
+                            hiopVector& vl,
+                            hiopVector& vu,
+                            hiopVector& yc,
+                            hiopVector& yd);
+
+  /// @brief transform the initial inequality slacks given by the user to slacks of the scaled problem
+  void scale_starting_slacks(hiopVector& d);
+
   /* Allocates the LSQ duals update class. */
   virtual hiopDualsLsqUpdate* alloc_duals_lsq_updater() = 0;
   
-- 
2.43.0


From cde118f94f359a957dcc4364f01abe9035f9c46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:04 +0000
Subject: [PATCH 52/81] fix: hiopResidual::copyFrom copies the constraint
 violation too

---
 src/Optimization/hiopResidual.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Optimization/hiopResidual.cpp b/src/Optimization/hiopResidual.cpp
index f5a56c0..8309496 100644
--- a/src/Optimization/hiopResidual.cpp
+++ b/src/Optimization/hiopResidual.cpp
@@ -418,6 +418,7 @@ void hiopResidual::copyFrom(const hiopResidual& resid_src)
   nrmOne_bar_feasib = resid_src.get_nrmOne_bar_feasib();
   nrmOne_nlp_optim = resid_src.get_nrmOne_nlp_optim();
   nrmOne_bar_optim = resid_src.get_nrmOne_bar_optim();
+  nrmInf_cons_violation = resid_src.nrmInf_cons_violation;
   
   nlp = resid_src.nlp;
 }
-- 
2.43.0


From d3e0cfca28644441e9d66dd4efc5126d283ae484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:18 +0000
Subject: [PATCH 53/81] fix: starting-point projection lands strictly inside
 the bounds for tiny pushes and nearly equal bounds

---
 src/LinAlg/hiopVectorPar.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/LinAlg/hiopVectorPar.cpp b/src/LinAlg/hiopVectorPar.cpp
index d3587e2..79d4731 100644
--- a/src/LinAlg/hiopVectorPar.cpp
+++ b/src/LinAlg/hiopVectorPar.cpp
@@ -978,12 +978,16 @@ bool hiopVectorPar::projectIntoBounds_local(const hiopVector& xl_, const hiopVec
   double* x0=data_; 
 
   const double small_double = std::numeric_limits<double>::min() * 100;
+  // pushes smaller than this are lost when added to the bound, which would leave x0 on the bound
+  const double eps = std::numeric_limits<double>::epsilon();
+  kappa1 = fmax(kappa1, eps);
 
   double aux, aux2;
   for(size_type i=0; i<n_local_; i++) {
     if(ixl[i]!=0 && ixu[i]!=0) {
       if(xl[i]>xu[i]) return false;
-        aux=kappa2*(xu[i]-xl[i])-small_double;
+        aux=fmax(kappa2*(xu[i]-xl[i])-small_double, eps*fmax(fabs(xl[i]), fabs(xu[i])));
+        aux=fmin(aux, 0.5*(xu[i]-xl[i]));
         aux2=xl[i]+fmin(kappa1*fmax(1., fabs(xl[i])),aux);
         if(x0[i]<aux2) {
         x0[i]=aux2;
-- 
2.43.0


From e425e8a62272f4f108c3568229860fa6972bb886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:14 +0000
Subject: [PATCH 54/81] fix: products with the quasi-Newton Hessian use the
 actual curvature of short steps

---
 src/Optimization/hiopHessianLowRank.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Optimization/hiopHessianLowRank.cpp b/src/Optimization/hiopHessianLowRank.cpp
index d4dc71a..3644572 100644
--- a/src/Optimization/hiopHessianLowRank.cpp
+++ b/src/Optimization/hiopHessianLowRank.cpp
@@ -1024,10 +1024,11 @@ timesVecCmn(double beta, hiopVector& y, double alpha, const hiopVector& x, bool
     sk->copyFrom(St_->local_data() + k*n_local);
     double skTyk=yk->dotProductWith(*sk);
     
-    if(skTyk < std::numeric_limits<double>::epsilon()) {
+    //the pairs kept have s_k^T*y_k>0, possibly very small for short steps; only prevent division by zero
+    if(skTyk < std::numeric_limits<double>::min()) {
       nlp->log->printf(hovLinAlgScalars, "hiopHessianLowRank: ||s_k^T*y_k||=%12.6e too small..."
-                       " set it to machine precision = %12.6e \n", skTyk, std::numeric_limits<double>::epsilon());
-      skTyk = std::numeric_limits<double>::epsilon();
+                       " set it to = %12.6e \n", skTyk, std::numeric_limits<double>::min());
+      skTyk = std::numeric_limits<double>::min();
     }
 
     if(a[k] == nullptr && b[k] == nullptr) {
-- 
2.43.0


From 190eba75ff8970e4bbb95e7a03f5565ba40d2a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:55 +0000
Subject: [PATCH 55/81] fix: dense KKT systems apply the dual regularisation of
 the equalities and of the inequalities to their own rows

---
 src/Optimization/hiopKKTLinSysDense.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/Optimization/hiopKKTLinSysDense.hpp b/src/Optimization/hiopKKTLinSysDense.hpp
index 9079040..f18da3f 100644
--- a/src/Optimization/hiopKKTLinSysDense.hpp
+++ b/src/Optimization/hiopKKTLinSysDense.hpp
@@ -153,7 +153,9 @@ public:
 #ifdef HIOP_DEEPCHECKS
     assert(perturb_calc_->check_consistency() && "something went wrong with IC");
 #endif
-    Msys.addSubDiagonal(alpha, nx, *delta_cd_);
+    Msys.addSubDiagonal(alpha, nx, *delta_cc_);
+    Msys.addSubDiagonal(alpha, nx+neq, *delta_cd_);
+    nlp_->runStats.kkt.tmUpdateLinsys.stop();
 
     nlp_->log->write("KKT Linsys:", Msys, hovMatrices);
 
@@ -309,10 +311,8 @@ public:
       col_start++;
     }
 
-#ifdef HIOP_DEEPCHECKS
-      assert(delta_cc_->is_equal(*delta_cd_));
-#endif
-    Msys.addSubDiagonal(-alpha, nx+nineq, *delta_cd_);
+    Msys.addSubDiagonal(-alpha, nx+nineq, *delta_cc_);
+    Msys.addSubDiagonal(-alpha, nx+nineq+neq, *delta_cd_);
 
     nlp_->log->write("KKT Linsys:", Msys, hovMatrices);
 
-- 
2.43.0


From ceeb682aa2add66c7701553d296a5410b9516b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:45 +0000
Subject: [PATCH 56/81] fix: initial primal regularisation of degenerate
 Hessians is returned to the caller instead of being overwritten by the dual
 one

---
 src/Optimization/hiopPDPerturbation.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Optimization/hiopPDPerturbation.cpp b/src/Optimization/hiopPDPerturbation.cpp
index e73125a..daa3a10 100644
--- a/src/Optimization/hiopPDPerturbation.cpp
+++ b/src/Optimization/hiopPDPerturbation.cpp
@@ -346,6 +346,8 @@ namespace hiop
       }
     }
     delta_wd_curr_db_ = delta_wx_curr_db_;
+    delta_wx = delta_wx_curr_db_;
+    delta_wd = delta_wd_curr_db_;
     set_delta_curr_vec(PrimalUpdate);
 
     if(delta_wx_curr_db_ > delta_w_max_bar_) {
-- 
2.43.0


From b18a9c2eb7154c67b79c53b2258fd2851d93e68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:55 +0000
Subject: [PATCH 57/81] fix: mixed sequences of singular and wrong-inertia
 factorisations keep raising the regularisation instead of aborting

---
 src/Optimization/hiopPDPerturbation.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/Optimization/hiopPDPerturbation.cpp b/src/Optimization/hiopPDPerturbation.cpp
index daa3a10..2f74486 100644
--- a/src/Optimization/hiopPDPerturbation.cpp
+++ b/src/Optimization/hiopPDPerturbation.cpp
@@ -270,13 +270,21 @@ namespace hiop
             bret = false;
             break;
           }
-          assert(delta_cc_curr_db_ == 0. && delta_cd_curr_db_ == 0.);
-          deltas_test_type_ = dttDeltac0Deltawpos;
+          deltas_test_type_ = delta_cc_curr_db_ > 0. ? dttDeltacposDeltawpos : dttDeltac0Deltawpos;
         }
         break;
       case dttDeltacposDeltaw0:
-        assert(delta_wx_curr_db_ == 0. && delta_cc_curr_db_ > 0.);
+        assert(delta_cc_curr_db_ > 0.);
         assert(jac_degenerate_ == dtNotEstablished);
+        if(delta_wx_curr_db_ > 0.) {
+          // an intermediate wrong inertia already required primal regularization: keep both
+          if(!guts_of_compute_perturb_wrong_inertia(delta_wx_temp, delta_wd_temp)) {
+            bret = false;
+            break;
+          }
+          deltas_test_type_ = dttDeltacposDeltawpos;
+          break;
+        }
         delta_cd_curr_db_ = delta_cc_curr_db_ = 0.;
         if(!guts_of_compute_perturb_wrong_inertia(delta_wx_temp, delta_wd_temp)) {
           bret = false;
@@ -299,7 +307,13 @@ namespace hiop
         }
         break;
       case dttNoTest:
-        assert(false && "something went wrong - should not get here");
+        // the primal regularization was restarted together with the dual one: increase the former
+        // as if we were encountering negative curvature
+        assert(delta_cc_curr_db_ > 0.);
+        if(!guts_of_compute_perturb_wrong_inertia(delta_wx_temp, delta_wd_temp)) {
+          bret = false;
+        }
+        break;
       }
     } else {
       if(delta_cc_curr_db_ > 0.) { 
-- 
2.43.0


From 96687b5b18392b1ad85c5bdeeab134a2637eabff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:20 +0000
Subject: [PATCH 58/81] fix: failed inertia-free refactorisations are reported
 and switch to the safe mode instead of being used for search directions

---
 src/Optimization/hiopAlgFilterIPM.cpp |  7 ++++++-
 src/Optimization/hiopKKTLinSys.cpp    | 13 +++++++++++--
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index ecf339c..2babae2 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -3492,9 +3492,14 @@ bool hiopAlgFilterIPMBase::compute_search_direction_inertia_free(hiopKKTLinSys*
         nlp->log->printf(hovError,
                          "Reached max number (%lu) of refactorization within an outer iteration.\n",
                          max_refactorization);
+        //request safe mode (or, when already on, let the caller deal with the unrecoverable error)
+        linsol_safe_mode_on = true;
+        return false;
+      }
+      if(!kkt->factorize_inertia_free()) {
+        linsol_safe_mode_on = true;
         return false;
       }
-      kkt->factorize_inertia_free();
       num_refact++;
       nlp->runStats.kkt.nUpdateICCorr++;
     }
diff --git a/src/Optimization/hiopKKTLinSys.cpp b/src/Optimization/hiopKKTLinSys.cpp
index 33560ba..99ff172 100644
--- a/src/Optimization/hiopKKTLinSys.cpp
+++ b/src/Optimization/hiopKKTLinSys.cpp
@@ -386,6 +386,9 @@ bool hiopKKTLinSysCurvCheck::factorize_inertia_free()
   delta_cd_ = perturb_calc_->get_curr_delta_cd();
 
   continue_re_fact = fact_acceptor_->requireReFactorization(*nlp_, non_singular_mat, true);
+  if(-1==continue_re_fact) {
+    return false;
+  }
 
 #ifdef HIOP_DEEPCHECKS
     assert(perturb_calc_->check_consistency() && "something went wrong with IC");
@@ -402,6 +405,8 @@ bool hiopKKTLinSysCurvCheck::factorize_inertia_free()
 
   // factorization
   int solver_flag = factorizeWithCurvCheck();
+
+  nlp_->runStats.kkt.tmUpdateInnerFact.stop();
   
   // if solver_flag<0, matrix becomes singular, or not pd (in condensed system) after adding regularization
   // this should not happen, but some linear solver may have numerical difficulty.
@@ -441,8 +446,12 @@ bool hiopKKTLinSysCurvCheck::factorize_inertia_free()
     nlp_->runStats.kkt.nUpdateICCorr++;
   } // end of IC loop
 
-  nlp_->runStats.kkt.tmUpdateInnerFact.stop();
-
+  if(solver_flag < 0) {
+    nlp_->log->printf(hovError,
+                      "Reached max number (%d) of refactorization within an outer iteration.\n",
+                      max_refactorization);
+    return false;
+  }
   return true;
 }
 
-- 
2.43.0


From 3147aa7122f3240ecc72da8bca16eb3a47c5c29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:51 +0000
Subject: [PATCH 59/81] fix: the infeasibility ceiling of the filter also
 applies to the first barrier problem

---
 src/Optimization/hiopAlgFilterIPM.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 2babae2..49d6426 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -1066,6 +1066,8 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
 
   theta_max = theta_max_fact_*fmax(1.0,resid->get_theta());
   theta_min = theta_min_fact_*fmax(1.0,resid->get_theta());
+  //upper limit on the infeasibility for the first barrier problem, as done for the subsequent ones
+  filter.initialize(theta_max);
 
   hiopKKTLinSysLowRank* kkt=new hiopKKTLinSysLowRank(nlp);
   assert(kkt != nullptr);
@@ -2192,6 +2194,8 @@ hiopSolveStatus hiopAlgFilterIPMNewton::run()
 
   theta_max = theta_max_fact_*fmax(1.0,resid->get_theta());
   theta_min = theta_min_fact_*fmax(1.0,resid->get_theta());
+  //upper limit on the infeasibility for the first barrier problem, as done for the subsequent ones
+  filter.initialize(theta_max);
 
   hiopKKTLinSys* kkt = decideAndCreateLinearSystem(nlp);
   assert(kkt != NULL);
-- 
2.43.0


From 26d03bc438062cf01227742f8d536ba6bf5af281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:52 +0000
Subject: [PATCH 60/81] fix: soft feasibility restoration fails when all its
 trial points are rejected by the filter

---
 src/Optimization/hiopAlgFilterIPM.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 49d6426..b885055 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -3392,6 +3392,7 @@ bool hiopAlgFilterIPMBase::solve_soft_feasibility_restoration(hiopKKTLinSys* kkt
     double theta_trial = resid_trial->get_nrmOne_bar_feasib();
     if(filter.contains(theta_trial,logbar->f_logbar_trial)) {
       //it is in the filter, reject this trial point and continue the iterates
+      bret = false;
       num_soft_fr++;
     } else {
       // continue the regular iterate from the trial point  
-- 
2.43.0


From 012c6bdc9cc53308b068d6ad8feae7daf950d51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:45 +0000
Subject: [PATCH 61/81] fix: the filter is augmented with the infeasibility of
 the accepted second-order correction, not of the rejected full step

---
 src/Optimization/hiopAlgFilterIPM.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index b885055..c3476f8 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -1383,6 +1383,8 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
           num_adjusted_slacks = num_adjusted_slacks_soc;
           grad_phi_dx_computed = grad_phi_dx_soc_computed;
           grad_phi_dx = grad_phi_dx_soc;
+          //the infeasibility of the accepted (second-order corrected) trial point
+          infeas_nrm_trial = theta_trial = resid->compute_nlp_infeasib_onenorm(*it_trial, *_c_trial, *_d_trial);
           use_soc = 1;
           nlp->runStats.tmSolverInternal.stop();
           break;
@@ -2618,6 +2620,8 @@ hiopSolveStatus hiopAlgFilterIPMNewton::run()
             num_adjusted_slacks = num_adjusted_slacks_soc;
             grad_phi_dx_computed = grad_phi_dx_soc_computed;
             grad_phi_dx = grad_phi_dx_soc;
+            //the infeasibility of the accepted (second-order corrected) trial point
+            infeas_nrm_trial = theta_trial = resid->compute_nlp_infeasib_onenorm(*it_trial, *_c_trial, *_d_trial);
             use_soc = 1;
             nlp->runStats.tmSolverInternal.stop();
             break;
-- 
2.43.0


From 4ff54ca1a8de4b6921f6ef4d14ae0b1850a0705d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:13 +0000
Subject: [PATCH 62/81] fix: evaluating trial points no longer overwrites the
 residual of the current iterate, which later solves for directions use

---
 src/Optimization/hiopAlgFilterIPM.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index c3476f8..dc28c2c 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -618,7 +618,7 @@ bool hiopAlgFilterIPMBase::update_log_barrier_params(hiopIterate& it,
       }
     }
     //compute infeasibility theta at trial point, since slacks and/or bounds are modified 
-    [[maybe_unused]] const double theta_temp = resid->compute_nlp_infeasib_onenorm(*it_trial, *_c_trial, *_d_trial);
+    [[maybe_unused]] const double theta_temp = resid_trial->compute_nlp_infeasib_onenorm(*it_trial, *_c_trial, *_d_trial);
   } // end of if elastic_mode_on
   
   return true;
@@ -1334,7 +1334,7 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
       nlp->runStats.tmSolverInternal.start(); //---
 
       //compute infeasibility theta at trial point.
-      infeas_nrm_trial = theta_trial = resid->compute_nlp_infeasib_onenorm(*it_trial, *_c_trial, *_d_trial);
+      infeas_nrm_trial = theta_trial = resid_trial->compute_nlp_infeasib_onenorm(*it_trial, *_c_trial, *_d_trial);
 
       lsNum++;
 
@@ -1384,7 +1384,7 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
           grad_phi_dx_computed = grad_phi_dx_soc_computed;
           grad_phi_dx = grad_phi_dx_soc;
           //the infeasibility of the accepted (second-order corrected) trial point
-          infeas_nrm_trial = theta_trial = resid->compute_nlp_infeasib_onenorm(*it_trial, *_c_trial, *_d_trial);
+          infeas_nrm_trial = theta_trial = resid_trial->compute_nlp_infeasib_onenorm(*it_trial, *_c_trial, *_d_trial);
           use_soc = 1;
           nlp->runStats.tmSolverInternal.stop();
           break;
@@ -1405,7 +1405,7 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
                        num_adjusted_slacks);
       nlp->adjust_bounds(*it_trial);
       //compute infeasibility theta at trial point, since bounds changed --- note that the returned value won't change
-      [[maybe_unused]] const double theta_temp = resid->compute_nlp_infeasib_onenorm(*it_trial, *_c_trial, *_d_trial);
+      [[maybe_unused]] const double theta_temp = resid_trial->compute_nlp_infeasib_onenorm(*it_trial, *_c_trial, *_d_trial);
 #ifndef NDEBUG
         if(0==use_soc) {
           // TODO: check why this assertion fails
@@ -2576,7 +2576,7 @@ hiopSolveStatus hiopAlgFilterIPMNewton::run()
         nlp->runStats.tmSolverInternal.start(); //---
 
         //compute infeasibility theta at trial point.
-        infeas_nrm_trial = theta_trial = resid->compute_nlp_infeasib_onenorm(*it_trial, *_c_trial, *_d_trial);
+        infeas_nrm_trial = theta_trial = resid_trial->compute_nlp_infeasib_onenorm(*it_trial, *_c_trial, *_d_trial);
 
         lsNum++;
 
@@ -2621,7 +2621,7 @@ hiopSolveStatus hiopAlgFilterIPMNewton::run()
             grad_phi_dx_computed = grad_phi_dx_soc_computed;
             grad_phi_dx = grad_phi_dx_soc;
             //the infeasibility of the accepted (second-order corrected) trial point
-            infeas_nrm_trial = theta_trial = resid->compute_nlp_infeasib_onenorm(*it_trial, *_c_trial, *_d_trial);
+            infeas_nrm_trial = theta_trial = resid_trial->compute_nlp_infeasib_onenorm(*it_trial, *_c_trial, *_d_trial);
             use_soc = 1;
             nlp->runStats.tmSolverInternal.stop();
             break;
@@ -2642,7 +2642,7 @@ hiopSolveStatus hiopAlgFilterIPMNewton::run()
                          num_adjusted_slacks);
         nlp->adjust_bounds(*it_trial);
         //compute infeasibility theta at trial point, since bounds changed --- note that the returned value won't change
-        [[maybe_unused]] const double theta_temp = resid->compute_nlp_infeasib_onenorm(*it_trial, *_c_trial, *_d_trial);
+        [[maybe_unused]] const double theta_temp = resid_trial->compute_nlp_infeasib_onenorm(*it_trial, *_c_trial, *_d_trial);
 #ifndef NDEBUG
         if(0==use_soc) {
           // TODO: check why this assertion fails
-- 
2.43.0


From 99a113b86385b14b3cc110ffa69a7474d88e1017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:11 +0000
Subject: [PATCH 63/81] fix: clones of distributed dense matrices keep the
 number of ranks

---
 src/LinAlg/hiopMatrixDenseRowMajor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/hiopMatrixDenseRowMajor.cpp b/src/LinAlg/hiopMatrixDenseRowMajor.cpp
index ff5b85f..a941db0 100644
--- a/src/LinAlg/hiopMatrixDenseRowMajor.cpp
+++ b/src/LinAlg/hiopMatrixDenseRowMajor.cpp
@@ -112,7 +112,7 @@ hiopMatrixDenseRowMajor::hiopMatrixDenseRowMajor(const hiopMatrixDenseRowMajor&
 {
   n_local_=dm.n_local_; m_local_=dm.m_local_; n_global_=dm.n_global_;
   glob_jl_=dm.glob_jl_; glob_ju_=dm.glob_ju_;
-  comm_=dm.comm_; myrank_=dm.myrank_;
+  comm_=dm.comm_; myrank_=dm.myrank_; comm_size_=dm.comm_size_;
 
   //M=new double*[m_local_==0?1:m_local_];
   max_rows_ = dm.max_rows_;
-- 
2.43.0


From 6b6114b235c3c49a3ceb7513bc490a82b94cf02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:50 +0000
Subject: [PATCH 64/81] fix: feasibility restoration started from a feasible
 point does not declare the problem infeasible

---
 src/Optimization/hiopAlgFilterIPM.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index dc28c2c..18cee01 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -3224,7 +3224,9 @@ bool hiopAlgFilterIPMBase::solve_feasibility_restoration(hiopKKTLinSys* kkt, hio
     // FR succeeds
     return true;
   } else if(FR_status == Solve_Success || FR_status == Solve_Acceptable_Level) {
-    solver_status_ = Infeasible_Problem;
+    // a stationary point of the infeasibility; when the restoration started from a (nearly) feasible point this
+    // says nothing about the feasibility of the problem, it is the restoration that could not make progress
+    solver_status_ = theta_ref > eps_tol ? Infeasible_Problem : Error_In_FR;
     return false;
   } else if(FR_status == Error_In_User_Function) {
     solver_status_ = Error_In_User_Function;
-- 
2.43.0


From b982964c8bf7747cf4fb2a9cff2e304eb88dfeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:21 +0000
Subject: [PATCH 65/81] fix: the restoration problem resets its slacks for its
 own current point when its line search fails

---
 src/Optimization/hiopFRProb.cpp | 48 ++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/src/Optimization/hiopFRProb.cpp b/src/Optimization/hiopFRProb.cpp
index d7eb564..036faca 100644
--- a/src/Optimization/hiopFRProb.cpp
+++ b/src/Optimization/hiopFRProb.cpp
@@ -583,6 +583,7 @@ bool hiopFRProbSparse::iterate_callback(int iter,
   // evaluate c_body and d_body in base problem
   wrk_x_->copy_from_starting_at(x, 0, n_x_);
   wrk_d_->copy_from_starting_at(s, 0, m_ineq_);
+  last_d_->copyFrom(*wrk_d_);
   if(!nlp_base_->eval_c_d(*wrk_x_, true, *wrk_cbody_, *wrk_dbody_)) {
     // returning false would mean that FR succeeded; the failure is reported by the next evaluation
     user_error_ = true;
@@ -628,7 +629,6 @@ bool hiopFRProbSparse::iterate_callback(int iter,
     if(!solver_base_.filter_contains(theta_ori, trial_bar_obj_ori)) {
       // terminate FR
       last_x_->copyFrom(*wrk_x_);
-      last_d_->copyFrom(*wrk_d_);
       return false;
     }
   }
@@ -644,20 +644,23 @@ bool hiopFRProbSparse::force_update_x(const int n, double* x)
   // this function is used in FR in FR, see eq (33)
   assert( n == n_);
 
-  hiopVector* c = solver_base_.get_c();
-  hiopVector* d = solver_base_.get_d();
-  hiopVector* s = solver_base_.get_it_curr()->get_d();
   const hiopVector& crhs = nlp_base_->get_crhs();
 
   // x is fixed
   wrk_x_->copy_from_starting_at(x, 0, n_x_);
 
+  // constraint bodies at x; the slacks are those of the current iterate of the FR problem, see iterate_callback
+  if(!nlp_base_->eval_c_d(*wrk_x_, true, *wrk_cbody_, *wrk_dbody_)) {
+    // x is left unchanged; the failure is reported by the next evaluation
+    user_error_ = true;
+    return true;
+  }
+
   /*
   * compute pe (wrk_c_) and ne (wrk_eq_) rom equation (33)
   */
   // firstly use pe as a temp vec
   double tmp_db = mu_/(2*rho_);
-  wrk_cbody_->copyFrom(*c);
   wrk_cbody_->axpy(-1.0, crhs);     // wrk_cbody_ = (c-crhs)
   wrk_c_->setToConstant(tmp_db);
   wrk_c_->axpy(-0.5, *wrk_cbody_);   // wrk_c_ = (mu-rho*(c-crhs))/(2*rho)
@@ -677,8 +680,7 @@ bool hiopFRProbSparse::force_update_x(const int n, double* x)
   * compute pi (wrk_d_) and ni (wrk_ineq_) rom equation (33)
   */
   // firstly use pi as a temp vec
-  wrk_dbody_->copyFrom(*d);
-  wrk_dbody_->axpy(-1.0, *s);        // wrk_dbody_ = (d-s)
+  wrk_dbody_->axpy(-1.0, *last_d_);        // wrk_dbody_ = (d-s)
   wrk_d_->setToConstant(tmp_db);
   wrk_d_->axpy(-0.5, *wrk_dbody_);   // wrk_c_ = (mu-rho*(d-s))/(2*rho)
 
@@ -1230,6 +1232,7 @@ bool hiopFRProbMDS::iterate_callback(int iter,
   wrk_primal_->startingAtCopyToStartingAt(x_sp_st_, *wrk_x_, 0, n_x_sp_);       // x = [xsp xde]
   wrk_primal_->startingAtCopyToStartingAt(x_de_st_, *wrk_x_, n_x_sp_, n_x_de_); // x = [xsp xde]
   wrk_d_->copy_from_starting_at(s, 0, m_ineq_);
+  last_d_->copyFrom(*wrk_d_);
   if(!nlp_base_->eval_c_d(*wrk_x_, true, *wrk_cbody_, *wrk_dbody_)) {
     // returning false would mean that FR succeeded; the failure is reported by the next evaluation
     user_error_ = true;
@@ -1275,7 +1278,6 @@ bool hiopFRProbMDS::iterate_callback(int iter,
     if(!solver_base_.filter_contains(theta_ori, trial_bar_obj_ori)) {
       // terminate FR
       last_x_->copyFrom(*wrk_x_);
-      last_d_->copyFrom(*wrk_d_);
       return false;
     }
   }
@@ -1291,9 +1293,6 @@ bool hiopFRProbMDS::force_update_x(const int n, double* x)
   // this function is used in FR in FR, see eq (33)
   assert( n == n_);
 
-  hiopVector* c = solver_base_.get_c();
-  hiopVector* d = solver_base_.get_d();
-  hiopVector* s = solver_base_.get_it_curr()->get_d();
   const hiopVector& crhs = nlp_base_->get_crhs();
 
   // x is fixed
@@ -1301,12 +1300,18 @@ bool hiopFRProbMDS::force_update_x(const int n, double* x)
   wrk_primal_->startingAtCopyToStartingAt(x_sp_st_, *wrk_x_, 0, n_x_sp_);       // x = [xsp xde]
   wrk_primal_->startingAtCopyToStartingAt(x_de_st_, *wrk_x_, n_x_sp_, n_x_de_); // x = [xsp xde]
 
+  // constraint bodies at x; the slacks are those of the current iterate of the FR problem, see iterate_callback
+  if(!nlp_base_->eval_c_d(*wrk_x_, true, *wrk_cbody_, *wrk_dbody_)) {
+    // x is left unchanged; the failure is reported by the next evaluation
+    user_error_ = true;
+    return true;
+  }
+
   /*
   * compute pe (wrk_c_) and ne (wrk_eq_) rom equation (33)
   */
   // firstly use pe as a temp vec
   double tmp_db = mu_/(2*rho_);
-  wrk_cbody_->copyFrom(*c);
   wrk_cbody_->axpy(-1.0, crhs);     // wrk_cbody_ = (c-crhs)
   wrk_c_->setToConstant(tmp_db);
   wrk_c_->axpy(-0.5, *wrk_cbody_);   // wrk_c_ = (mu-rho*(c-crhs))/(2*rho)
@@ -1326,8 +1331,7 @@ bool hiopFRProbMDS::force_update_x(const int n, double* x)
   * compute pi (wrk_d_) and ni (wrk_ineq_) rom equation (33)
   */
   // firstly use pi as a temp vec
-  wrk_dbody_->copyFrom(*d);
-  wrk_dbody_->axpy(-1.0, *s);        // wrk_dbody_ = (d-s)
+  wrk_dbody_->axpy(-1.0, *last_d_);        // wrk_dbody_ = (d-s)
   wrk_d_->setToConstant(tmp_db);
   wrk_d_->axpy(-0.5, *wrk_dbody_);   // wrk_c_ = (mu-rho*(d-s))/(2*rho)
 
@@ -1950,6 +1954,7 @@ bool hiopFRProbDense::iterate_callback(int iter,
   // FIXME; add global methed. now we only have local method
   wrk_x_->copy_from_starting_at(x, 0, n_x_);
   wrk_d_->copy_from_starting_at(s, 0, m_ineq_);
+  last_d_->copyFrom(*wrk_d_);
   if(!nlp_base_->eval_c_d(*wrk_x_, true, *wrk_cbody_, *wrk_dbody_)) {
     // returning false would mean that FR succeeded; the failure is reported by the next evaluation
     user_error_ = true;
@@ -1996,7 +2001,6 @@ bool hiopFRProbDense::iterate_callback(int iter,
     if(!solver_base_.filter_contains(theta_ori, trial_bar_obj_ori)) {
       // terminate FR
       last_x_->copyFrom(*wrk_x_);
-      last_d_->copyFrom(*wrk_d_);
       return false;
     }
   }
@@ -2012,21 +2016,24 @@ bool hiopFRProbDense::force_update_x(const int n, double* x)
   // this function is used in FR in FR, see eq (33)
   assert( n == n_);
 
-  hiopVector* c = solver_base_.get_c();
-  hiopVector* d = solver_base_.get_d();
-  hiopVector* s = solver_base_.get_it_curr()->get_d();
   const hiopVector& crhs = nlp_base_->get_crhs();
 
   // x is fixed
   // FIXME; add global methed. now we only have local method
   wrk_x_->copy_from_starting_at(x, 0, n_x_);
 
+  // constraint bodies at x; the slacks are those of the current iterate of the FR problem, see iterate_callback
+  if(!nlp_base_->eval_c_d(*wrk_x_, true, *wrk_cbody_, *wrk_dbody_)) {
+    // x is left unchanged; the failure is reported by the next evaluation
+    user_error_ = true;
+    return true;
+  }
+
   /*
   * compute pe (wrk_c_) and ne (wrk_eq_) rom equation (33)
   */
   // firstly use pe as a temp vec
   double tmp_db = mu_/(2*rho_);
-  wrk_cbody_->copyFrom(*c);
   wrk_cbody_->axpy(-1.0, crhs);     // wrk_cbody_ = (c-crhs)
   wrk_c_->setToConstant(tmp_db);
   wrk_c_->axpy(-0.5, *wrk_cbody_);   // wrk_c_ = (mu-rho*(c-crhs))/(2*rho)
@@ -2046,8 +2053,7 @@ bool hiopFRProbDense::force_update_x(const int n, double* x)
   * compute pi (wrk_d_) and ni (wrk_ineq_) rom equation (33)
   */
   // firstly use pi as a temp vec
-  wrk_dbody_->copyFrom(*d);
-  wrk_dbody_->axpy(-1.0, *s);        // wrk_dbody_ = (d-s)
+  wrk_dbody_->axpy(-1.0, *last_d_);        // wrk_dbody_ = (d-s)
   wrk_d_->setToConstant(tmp_db);
   wrk_d_->axpy(-0.5, *wrk_dbody_);   // wrk_c_ = (mu-rho*(d-s))/(2*rho)
 
-- 
2.43.0


From 4d40f2653c8554e259115d3fc1f7de87653fabf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:14 +0000
Subject: [PATCH 66/81] fix: the restoration problem does not turn absent
 constraint bounds into bounds when the constraints are scaled

---
 src/Optimization/hiopFRProb.cpp | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/Optimization/hiopFRProb.cpp b/src/Optimization/hiopFRProb.cpp
index 036faca..56f7679 100644
--- a/src/Optimization/hiopFRProb.cpp
+++ b/src/Optimization/hiopFRProb.cpp
@@ -218,11 +218,16 @@ bool hiopFRProbSparse::get_cons_info(const size_type& m, double* clow, double* c
 
   // assemble wrk_dual_ = [crhs; dl] for lower bounds
   crhs.copyToStarting(*wrk_dual_, 0);
-  dl.copyToStarting(*wrk_dual_, (int)m_eq_);
+  // absent bounds are given as such: in the base problem they have been scaled
+  wrk_d_->setToConstant(-1e+20);
+  wrk_d_->copy_from_w_pattern(dl, nlp_base_->get_idl());
+  wrk_d_->copyToStarting(*wrk_dual_, (int)m_eq_);
   wrk_dual_->copyTo(clow);
 
   // assemble wrk_dual_ = [crhs; du] for upper bounds
-  du.copyToStarting(*wrk_dual_, (int)m_eq_);
+  wrk_d_->setToConstant(1e+20);
+  wrk_d_->copy_from_w_pattern(du, nlp_base_->get_idu());
+  wrk_d_->copyToStarting(*wrk_dual_, (int)m_eq_);
   wrk_dual_->copyTo(cupp);
 
   wrk_dual_->set_array_from_to(type, 0, m_eq_, cons_eq_type, 0);
@@ -880,11 +885,16 @@ bool hiopFRProbMDS::get_cons_info(const size_type& m, double* clow, double* cupp
 
   // assemble wrk_dual_ = [crhs; dl] for lower bounds
   crhs.copyToStarting(*wrk_dual_, 0);
-  dl.copyToStarting(*wrk_dual_, (int)m_eq_);
+  // absent bounds are given as such: in the base problem they have been scaled
+  wrk_d_->setToConstant(-1e+20);
+  wrk_d_->copy_from_w_pattern(dl, nlp_base_->get_idl());
+  wrk_d_->copyToStarting(*wrk_dual_, (int)m_eq_);
   wrk_dual_->copyTo(clow);
 
   // assemble wrk_dual_ = [crhs; du] for upper bounds
-  du.copyToStarting(*wrk_dual_, (int)m_eq_);
+  wrk_d_->setToConstant(1e+20);
+  wrk_d_->copy_from_w_pattern(du, nlp_base_->get_idu());
+  wrk_d_->copyToStarting(*wrk_dual_, (int)m_eq_);
   wrk_dual_->copyTo(cupp);
 
   wrk_dual_->set_array_from_to(type, 0, m_eq_, cons_eq_type, 0);
@@ -1619,11 +1629,16 @@ bool hiopFRProbDense::get_cons_info(const size_type& m, double* clow, double* cu
 
   // FIXME; add global methed. now we only have local method
   crhs.copyToStarting(*wrk_dual_, 0);
-  dl.copyToStarting(*wrk_dual_, (int)m_eq_);
+  // absent bounds are given as such: in the base problem they have been scaled
+  wrk_d_->setToConstant(-1e+20);
+  wrk_d_->copy_from_w_pattern(dl, nlp_base_->get_idl());
+  wrk_d_->copyToStarting(*wrk_dual_, (int)m_eq_);
   wrk_dual_->copyTo(clow);
 
   // assemble wrk_dual_ = [crhs; du] for upper bounds
-  du.copyToStarting(*wrk_dual_, (int)m_eq_);
+  wrk_d_->setToConstant(1e+20);
+  wrk_d_->copy_from_w_pattern(du, nlp_base_->get_idu());
+  wrk_d_->copyToStarting(*wrk_dual_, (int)m_eq_);
   wrk_dual_->copyTo(cupp);
 
   for(index_type i_local = 0; i_local < dl.get_local_size(); ++i_local) {
-- 
2.43.0


From 416e0d1b1cab14b82c9ce173a1aa7a3342fbc708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:14 +0000
Subject: [PATCH 67/81] fix: low-rank KKT systems whose barrier diagonal under-
 or overflowed are reported as failed instead of stopping the process

---
 src/Optimization/hiopKKTLinSys.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Optimization/hiopKKTLinSys.cpp b/src/Optimization/hiopKKTLinSys.cpp
index 99ff172..11499a5 100644
--- a/src/Optimization/hiopKKTLinSys.cpp
+++ b/src/Optimization/hiopKKTLinSys.cpp
@@ -1095,6 +1095,12 @@ update(const hiopIterate* iter,
   Dd_inv_->setToZero();
   Dd_inv_->axdzpy_w_pattern(1.0, *iter_->vl, *iter_->sdl, nlp_->get_idl());
   Dd_inv_->axdzpy_w_pattern(1.0, *iter_->vu, *iter_->sdu, nlp_->get_idu());
+  // the diagonal under- or overflows when the iterates diverge and the system cannot be formed anymore
+  if(!Dd_inv_->isfinite_local() || (Dd_inv_->get_size()>0 && Dd_inv_->min()<1e-35)) {
+    nlp_->log->write("KKT Low rank: the log-barrier diagonal of the inequalities is not invertible.", hovWarning);
+    nlp_->runStats.tmSolverInternal.stop();
+    return false;
+  }
 #ifdef HIOP_DEEPCHECKS
   assert(true==Dd_inv_->allPositive());
 #endif
-- 
2.43.0


From 2a09876c626eb582be88624e69d5dd039f43d960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:21 +0000
Subject: [PATCH 68/81] fix: an accepted second-order correction does not
 replace the residual of the current iterate, which restoration takes as its
 reference

---
 src/Optimization/hiopAlgFilterIPM.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 18cee01..660dbec 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -3087,7 +3087,6 @@ int hiopAlgFilterIPMBase::apply_second_order_correction(hiopKKTLinSys* kkt,
     if(ls_status>0) {
       _alpha_primal = alpha_primal_soc;
       dir->copyFrom(*soc_dir);
-      resid->copyFrom(*resid_trial);
       break;
     } else {
       num_soc++;
-- 
2.43.0


From b74945ebc4ad5f0a13463ad65cbf0e818d42dc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:07 +0000
Subject: [PATCH 69/81] fix: dumped linear systems keep all digits of small
 values

---
 src/Utils/hiopCSR_IO.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Utils/hiopCSR_IO.hpp b/src/Utils/hiopCSR_IO.hpp
index c28d32c..dc595cd 100644
--- a/src/Utils/hiopCSR_IO.hpp
+++ b/src/Utils/hiopCSR_IO.hpp
@@ -60,7 +60,7 @@ namespace hiop
 
       const double* v = rhs.local_data_const();
       for(int i=0; i<m; i++)
-	fprintf(f, "%.20f ", v[i]);
+	fprintf(f, "%.17e ", v[i]);
       fprintf(f, "\n");
       fclose(f);
     }
@@ -147,7 +147,7 @@ namespace hiop
       for(int i=0; i<m; i++) {
 	for(int j=i; j<m; j++) 
 	  if(fabs(M[i*m+j])>zero_tol)
-	    fprintf(f, "%.20f ", M[i*m+j]);
+	    fprintf(f, "%.17e ", M[i*m+j]);
       }
       fprintf(f, "\n");
       
@@ -218,7 +218,7 @@ namespace hiop
       
       //array of nonzero entries of the matrix
       for(int i=0; i<csr_nnz; i++) {
-        fprintf(f, "%.20f ", csr_kVal[i]);
+        fprintf(f, "%.17e ", csr_kVal[i]);
       }
       fprintf(f, "\n");
       
-- 
2.43.0


From dd89300258bcce718cf3bd994640cc9acc42c3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:34 +0000
Subject: [PATCH 70/81] fix: a Jacobian whose evaluation was refused is not
 copied from buffers that were never set

---
 src/Optimization/hiopNlpFormulation.cpp | 32 +++++++++++++++----------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index a36f15f..d321ca1 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -1900,13 +1900,16 @@ bool hiopNlpMDS::eval_Jac_c_d_interface_impl(hiopVector& x,
                                         pJac_d->n_sp(), pJac_d->n_de(), 
                                         nnz, cons_Jac->sp_irow(), cons_Jac->sp_jcol(), cons_Jac->sp_M(),
                                         cons_Jac->de_local_data());
-    //copy back to Jac_c and Jac_d
-    pJac_c->copyRowsFrom(*cons_Jac, cons_eq_mapping_->local_data_const(), n_cons_eq_);
-    pJac_d->copyRowsFrom(*cons_Jac, cons_ineq_mapping_->local_data_const(), n_cons_ineq_);
-
-    // scale the matrices
-    Jac_c = *(nlp_transformations_.apply_to_jacob_eq(Jac_c, n_cons_eq_));
-    Jac_d = *(nlp_transformations_.apply_to_jacob_ineq(Jac_d, n_cons_ineq_));
+    // a refused evaluation may have left the Jacobian (and its pattern) unset
+    if(bret) {
+      //copy back to Jac_c and Jac_d
+      pJac_c->copyRowsFrom(*cons_Jac, cons_eq_mapping_->local_data_const(), n_cons_eq_);
+      pJac_d->copyRowsFrom(*cons_Jac, cons_ineq_mapping_->local_data_const(), n_cons_ineq_);
+
+      // scale the matrices
+      Jac_c = *(nlp_transformations_.apply_to_jacob_eq(Jac_c, n_cons_eq_));
+      Jac_d = *(nlp_transformations_.apply_to_jacob_ineq(Jac_d, n_cons_ineq_));
+    }
 
     runStats.tmEvalJac_con.stop();
     runStats.nEvalJac_con_eq++;
@@ -2122,13 +2125,16 @@ bool hiopNlpSparse::eval_Jac_c_d_interface_impl(hiopVector& x,
                                    nullptr, 
                                    cons_Jac->M());
 
-    //copy back to Jac_c and Jac_d
-    pJac_c->copyRowsFrom(*cons_Jac, cons_eq_mapping_->local_data_const(), n_cons_eq_);
-    pJac_d->copyRowsFrom(*cons_Jac, cons_ineq_mapping_->local_data_const(), n_cons_ineq_);
+    // a refused evaluation may have left the Jacobian (and its pattern) unset
+    if(bret) {
+      //copy back to Jac_c and Jac_d
+      pJac_c->copyRowsFrom(*cons_Jac, cons_eq_mapping_->local_data_const(), n_cons_eq_);
+      pJac_d->copyRowsFrom(*cons_Jac, cons_ineq_mapping_->local_data_const(), n_cons_ineq_);
 
-    // scale the matrix
-    Jac_c = *(nlp_transformations_.apply_to_jacob_eq(Jac_c, n_cons_eq_));
-    Jac_d = *(nlp_transformations_.apply_to_jacob_ineq(Jac_d, n_cons_ineq_));
+      // scale the matrix
+      Jac_c = *(nlp_transformations_.apply_to_jacob_eq(Jac_c, n_cons_eq_));
+      Jac_d = *(nlp_transformations_.apply_to_jacob_ineq(Jac_d, n_cons_ineq_));
+    }
 
     runStats.tmEvalJac_con.stop();
     runStats.nEvalJac_con_eq++;
-- 
2.43.0


From 9a40ae3d3216252704890c9cee9db9b386f4e811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:55 +0000
Subject: [PATCH 71/81] fix: the end signals of the primal decomposition solver
 are communicated from buffers that outlive the call

---
 src/Optimization/hiopAlgPrimalDecomp.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Optimization/hiopAlgPrimalDecomp.cpp b/src/Optimization/hiopAlgPrimalDecomp.cpp
index 9b3eea8..4c99123 100644
--- a/src/Optimization/hiopAlgPrimalDecomp.cpp
+++ b/src/Optimization/hiopAlgPrimalDecomp.cpp
@@ -104,16 +104,14 @@ namespace hiop
     void post_recv_end_signal(int tag, int rank_from, MPI_Comm comm)
     {
       assert(request_ == MPI_REQUEST_NULL);
-      int recv_sign = 0;
-      int ierr = MPI_Irecv(&recv_sign, 1, MPI_INT, rank_from, tag, comm, &request_);
+      int ierr = MPI_Irecv(&signal_, 1, MPI_INT, rank_from, tag, comm, &request_);
       assert(MPI_SUCCESS == ierr);
     }
     // only sende signal (that computation is finished), no actual functional information
     void post_send_end_signal(int tag, int rank_to, MPI_Comm comm)
     {
       assert(request_ == MPI_REQUEST_NULL);
-      int send_sign = 0;
-      int ierr = MPI_Isend(&send_sign, 1, MPI_INT, rank_to, tag, comm, &request_);
+      int ierr = MPI_Isend(&signal_, 1, MPI_INT, rank_to, tag, comm, &request_);
       assert(MPI_SUCCESS == ierr);
     }
 
@@ -143,6 +141,8 @@ namespace hiop
   private:
     int n_;
     hiopVector* buffer;
+    /// buffer of the end signal, which has to stay in place until the communication is completed
+    int signal_ = 0;
   };
 
   /** This struct is used to post receive and request for contingency
-- 
2.43.0


From 23c7e4b286f355174d2d1dff3aca528a1c184433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:55 +0000
Subject: [PATCH 72/81] fix: the primal decomposition solver prints the
 acceptable tolerance and count in the right order

---
 src/Optimization/hiopAlgPrimalDecomp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Optimization/hiopAlgPrimalDecomp.cpp b/src/Optimization/hiopAlgPrimalDecomp.cpp
index 4c99123..d1ea60d 100644
--- a/src/Optimization/hiopAlgPrimalDecomp.cpp
+++ b/src/Optimization/hiopAlgPrimalDecomp.cpp
@@ -716,8 +716,8 @@ bool hiopAlgPrimalDecomposition::stopping_criteria(const int it, const double co
   }
   // stopping criteria based on acceptable tolerance and consecutive count
   if(accp_count == accp_count_) {
-    log_->printf(hovSummary, "reached acceptable tolerance of %18.12e", accp_count_);
-    log_->printf(hovSummary, " for %d iterations, optimization stops.\n", accp_tol_);
+    log_->printf(hovSummary, "reached acceptable tolerance of %18.12e", accp_tol_);
+    log_->printf(hovSummary, " for %d iterations, optimization stops.\n", accp_count_);
     return true;
   }
   return false;
-- 
2.43.0


From 001df14ae42591fe8a6777e5df5818a6913017b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:55 +0000
Subject: [PATCH 73/81] fix: the primal decomposition solver honours the order
 of the coupling indexes when all variables are coupled

---
 src/Optimization/hiopAlgPrimalDecomp.cpp | 50 ++++--------------------
 1 file changed, 7 insertions(+), 43 deletions(-)

diff --git a/src/Optimization/hiopAlgPrimalDecomp.cpp b/src/Optimization/hiopAlgPrimalDecomp.cpp
index d1ea60d..0d34842 100644
--- a/src/Optimization/hiopAlgPrimalDecomp.cpp
+++ b/src/Optimization/hiopAlgPrimalDecomp.cpp
@@ -1024,12 +1024,7 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
         grad_acc->setToZero();
         double aux=0.;
 
-        if(nc_<n_) {
-          x0->copy_from_indexes(*x_, *xc_idx_);
-        } else {
-          assert(nc_==n_);
-          x0->copyFromStarting(0, *x_);
-        }
+        x0->copy_from_indexes(*x_, *xc_idx_);
         for(int ri=0; ri<static_cast<int>(cont_idx.size()); ri++) {
           aux = 0.;
           int idx_temp = cont_idx[ri];
@@ -1076,12 +1071,7 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
             grad_acc->setToZero();
 
             double aux=0.;
-            if(nc_<n_) {
-              x0->copy_from_indexes(*x_, *xc_idx_);
-            } else {
-              assert(nc_==n_);
-              x0->copyFromStarting(0, *x_);
-            }
+            x0->copy_from_indexes(*x_, *xc_idx_);
             for(int ri=0; ri<static_cast<int>(cont_idx.size()); ri++) {
               aux = 0.;
               int idx_temp = cont_idx[ri];
@@ -1141,12 +1131,7 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
 
         hess_appx->setToConstant(1.0);
 
-        if(nc_<n_) {
-          x0->copy_from_indexes(*x_, *xc_idx_);
-        } else {
-          assert(nc_==n_);
-          x0->copyFromStarting(0, *x_);
-        }
+        x0->copy_from_indexes(*x_, *xc_idx_);
 
         if(it==0) {
           hess_appx_2->initialize(rval, *x0, *grad_r);
@@ -1516,12 +1501,7 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
         
         double aux=0.;
 
-        if(nc_<n_) {
-          x0->copy_from_indexes(*x_, *xc_idx_);
-        } else {
-          assert(nc_==n_);
-          x0->copyFromStarting(0, *x_);
-        }
+        x0->copy_from_indexes(*x_, *xc_idx_);
         for(int ri=0; ri<static_cast<int>(cont_idx.size()); ri++) {
           aux = 0.;
           int idx_temp = cont_idx[ri];
@@ -1577,12 +1557,7 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
             //grad_acc->setToZero();
 
             double aux=0.;
-            if(nc_<n_) {
-              x0->copy_from_indexes(*x_, *xc_idx_);
-            } else {
-              assert(nc_==n_);
-              x0->copyFromStarting(0, *x_);
-            }
+            x0->copy_from_indexes(*x_, *xc_idx_);
             for(int ri=0; ri<static_cast<int>(cont_idx.size()); ri++) {
               aux = 0.;
               int idx_temp = cont_idx[ri];
@@ -1664,12 +1639,7 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
         
         hess_appx->setToConstant(1.0);
 
-        if(nc_<n_) {
-          x0->copy_from_indexes(*x_, *xc_idx_);
-        } else {
-          assert(nc_==n_);
-          x0->copyFromStarting(0, *x_);
-        }
+        x0->copy_from_indexes(*x_, *xc_idx_);
 
         if(it==0) {
           hess_appx_2->initialize(rval, *x0, *grad_r);
@@ -1867,13 +1837,7 @@ hiopSolveStatus hiopAlgPrimalDecomposition::run_single()
     }
     // The number of contigencies should be larger than the number of processors, which is 1
     // idx is the next contingency to be sent out from the master
-    if(nc_<n_) {
-      //printf("xc_idx %d ",xc_idx_[0]);
-      x0->copy_from_indexes(*x_, *xc_idx_);
-    } else {
-      assert(nc_==n_);
-      x0->copyFromStarting(0, *x_);
-    }
+    x0->copy_from_indexes(*x_, *xc_idx_);
     for(int i=0; i< static_cast<int>(S_);i++) {
       int idx_temp = cont_idx[i];
       double aux=0.;
-- 
2.43.0


From e2826b7a48a540f61e1cc0e056cd6c7b775c4dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:18 +0000
Subject: [PATCH 74/81] fix: the primal decomposition solver measures its error
 with the quadratic coefficient the master was solved with

---
 src/Optimization/hiopAlgPrimalDecomp.cpp | 34 ++++++++++++++----------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/Optimization/hiopAlgPrimalDecomp.cpp b/src/Optimization/hiopAlgPrimalDecomp.cpp
index 0d34842..bbc8fbd 100644
--- a/src/Optimization/hiopAlgPrimalDecomp.cpp
+++ b/src/Optimization/hiopAlgPrimalDecomp.cpp
@@ -1149,17 +1149,19 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
           //hess_appx_2->update_ratio();
           hess_appx_2->update_ratio(base_val, base_valm1);
           
+          // the error is measured with the quadratic coefficient the master was solved with, before it is updated
+          convg_g = hess_appx_2->check_convergence_grad(*grad_r);
+          log_->printf(hovSummary,"gradient convergence measure %18.12e\n", convg_g);
+          convg_f = hess_appx_2->check_convergence_fcn(base_val, base_valm1);
+          log_->printf(hovSummary,"function val convergence measure %18.12e\n", convg_f);
+          convg = std::min(convg_f,convg_g);
+
           double alp_temp = hess_appx_2->get_alpha_f(*grad_r);
           //double alp_temp = hess_appx_2->get_alpha_tr();
           
           //double alp_temp2 = hess_appx_2->get_alpha_BB();
           log_->printf(hovSummary, "alpd %18.12e\n", alp_temp);
           // log_->printf(hovSummary, "alpd BB %18.12e\n", alp_temp2);
-          convg_g = hess_appx_2->check_convergence_grad(*grad_r);
-          log_->printf(hovSummary,"gradient convergence measure %18.12e\n", convg_g);
-          convg_f = hess_appx_2->check_convergence_fcn(base_val, base_valm1);
-          log_->printf(hovSummary,"function val convergence measure %18.12e\n", convg_f);
-          convg = std::min(convg_f,convg_g);
           hess_appx->setToConstant(alp_temp);
 
         }
@@ -1657,17 +1659,19 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
           //hess_appx_2->update_ratio();
           hess_appx_2->update_ratio(base_val, base_valm1);
           
+          // the error is measured with the quadratic coefficient the master was solved with, before it is updated
+          convg_g = hess_appx_2->check_convergence_grad(*grad_r);
+          log_->printf(hovSummary,"gradient convergence measure %18.12e\n", convg_g);
+          convg_f = hess_appx_2->check_convergence_fcn(base_val, base_valm1);
+          log_->printf(hovSummary,"function val convergence measure %18.12e\n", convg_f);
+          convg = std::min(convg_f,convg_g);
+
           double alp_temp = hess_appx_2->get_alpha_f(*grad_r);
           //double alp_temp = hess_appx_2->get_alpha_tr();
           
           //double alp_temp2 = hess_appx_2->get_alpha_BB();
           log_->printf(hovSummary, "alpd %18.12e\n", alp_temp);
           // log_->printf(hovSummary, "alpd BB %18.12e\n", alp_temp2);
-          convg_g = hess_appx_2->check_convergence_grad(*grad_r);
-          log_->printf(hovSummary,"gradient convergence measure %18.12e\n", convg_g);
-          convg_f = hess_appx_2->check_convergence_fcn(base_val, base_valm1);
-          log_->printf(hovSummary,"function val convergence measure %18.12e\n", convg_f);
-          convg = std::min(convg_f,convg_g);
           hess_appx->setToConstant(alp_temp); 
 
         }
@@ -1885,10 +1889,7 @@ hiopSolveStatus hiopAlgPrimalDecomposition::run_single()
       // hess_appx_2->update_ratio();
       hess_appx_2->update_ratio(base_val, base_valm1);
       
-      double alp_temp = hess_appx_2->get_alpha_f(*grad_r);
-      // double alp_temp = hess_appx_2->get_alpha_tr();
-      log_->printf(hovSummary, "alpd %18.12e\n", alp_temp);
-      
+      // the error is measured with the quadratic coefficient the master was solved with, before it is updated
       convg_g = hess_appx_2->check_convergence_grad(*grad_r);
 
       log_->printf(hovSummary, "convergence measure %18.12e\n", convg_g);
@@ -1898,6 +1899,11 @@ hiopSolveStatus hiopAlgPrimalDecomposition::run_single()
       log_->printf(hovSummary, "function val convergence measure %18.12e\n", convg_f);
      
       convg = std::min(convg_f,convg_g);
+
+      double alp_temp = hess_appx_2->get_alpha_f(*grad_r);
+      // double alp_temp = hess_appx_2->get_alpha_tr();
+      log_->printf(hovSummary, "alpd %18.12e\n", alp_temp);
+      
       hess_appx->setToConstant(alp_temp);
     }
 
-- 
2.43.0


From c2774c2c6ae4f31ff66cf42fad577e46ac31f58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:31 +0000
Subject: [PATCH 75/81] fix: the primal decomposition solver reports when it
 stopped at the iteration limit or the master problem failed, on all ranks

---
 src/Optimization/hiopAlgPrimalDecomp.cpp | 61 +++++++++++++++---------
 src/Optimization/hiopAlgPrimalDecomp.hpp |  5 +-
 2 files changed, 42 insertions(+), 24 deletions(-)

diff --git a/src/Optimization/hiopAlgPrimalDecomp.cpp b/src/Optimization/hiopAlgPrimalDecomp.cpp
index bbc8fbd..dd0b37c 100644
--- a/src/Optimization/hiopAlgPrimalDecomp.cpp
+++ b/src/Optimization/hiopAlgPrimalDecomp.cpp
@@ -691,7 +691,7 @@ void hiopAlgPrimalDecomposition::getDualSolutions(double* zl, double* zu, double
   assert(false && "not implemented");
 }
 
-inline hiopSolveStatus hiopAlgPrimalDecomposition::getSolveStatus() const
+hiopSolveStatus hiopAlgPrimalDecomposition::getSolveStatus() const
 {
   return solver_status_;
 }
@@ -703,6 +703,10 @@ int hiopAlgPrimalDecomposition::getNumIterations() const
   
 bool hiopAlgPrimalDecomposition::stopping_criteria(const int it, const double convg, const int accp_count)
 {
+  // the master problem could not be solved
+  if(solver_status_ < 0) {
+    return true;
+  }
   // gradient based stopping criteria
   if(convg<tol_) {
     log_->printf(hovSummary,"reaching error tolerance, successfully found solution\n"); 
@@ -711,13 +715,14 @@ bool hiopAlgPrimalDecomposition::stopping_criteria(const int it, const double co
   // stopping criteria based on the change in objective function
   if(it == max_iter_-1) {
     log_->printf(hovSummary, "reached maximum iterations, optimization stops.\n");
-
+    solver_status_ = Max_Iter_Exceeded;
     return true;
   }
   // stopping criteria based on acceptable tolerance and consecutive count
   if(accp_count == accp_count_) {
     log_->printf(hovSummary, "reached acceptable tolerance of %18.12e", accp_tol_);
     log_->printf(hovSummary, " for %d iterations, optimization stops.\n", accp_count_);
+    solver_status_ = Solve_Acceptable_Level;
     return true;
   }
   return false;
@@ -787,6 +792,14 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
  */
 
 #ifdef HIOP_USE_MPI
+  void hiopAlgPrimalDecomposition::bcast_status(int rank_master)
+  {
+    int status = solver_status_;
+    int ierr = MPI_Bcast(&status, 1, MPI_INT, rank_master, comm_world_);
+    assert(ierr == MPI_SUCCESS);
+    solver_status_ = static_cast<hiopSolveStatus>(status);
+  }
+
   hiopSolveStatus hiopAlgPrimalDecomposition::run()
 {
     log_->printf(hovSummary, "===============\nHiop Primal Decomposition SOLVER\n===============\n");
@@ -879,10 +892,6 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
         
         solver_status_ = master_prob_->solve_master(*x_, false, 0, 0, 0, options_file_master_prob.c_str());
 
-        if(solver_status_) {     
-          // to do, what if solve fails?
-        }
-       
         log_->write(nullptr, *x_, hovFcnEval);
 
         base_val = master_prob_->get_objective();
@@ -894,6 +903,13 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
       int ierr = MPI_Bcast(x_vec, n_, MPI_DOUBLE, rank_master, comm_world_);
       assert(ierr == MPI_SUCCESS);
 
+      if(it==0) {
+        bcast_status(rank_master);
+        if(solver_status_ < 0) {
+          break;
+        }
+      }
+
       // set up recourse problem send/recv interface
       std::vector<ReqRecourseApprox* > rec_prob;
       for(int r=0; r<comm_size_;r++) {
@@ -1241,11 +1257,9 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
     delete hess_appx_2;
     delete evaluator;
     
-    if(my_rank_==0) {
-      return solver_status_;
-    } else {
-      return Solve_Success;    
-    }
+    // all ranks return the status of the master rank
+    bcast_status(rank_master);
+    return solver_status_;
   }
 
   /**
@@ -1347,10 +1361,6 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
         options_file_master_prob = options_->GetString("options_file_master_prob");
         solver_status_ = master_prob_->solve_master(*x_, false, 0, 0, 0, options_file_master_prob.c_str());
 
-        if(solver_status_) {     
-          // to do, what if solve fails?
-        }
-       
         log_->write(nullptr, *x_, hovFcnEval);
         base_val = master_prob_->get_objective();
         base_valm1 = master_prob_->get_objective();
@@ -1360,6 +1370,13 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
       int ierr = MPI_Bcast(x_vec, n_, MPI_DOUBLE, rank_master, comm_world_);
       assert(ierr == MPI_SUCCESS);
 
+      if(it==0) {
+        bcast_status(rank_master);
+        if(solver_status_ < 0) {
+          break;
+        }
+      }
+
       // set up recourse problem send/recv interface
       std::vector<ReqRecourseApprox* > rec_prob;
       for(int r=0; r<comm_size_; r++) {
@@ -1752,11 +1769,9 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
     delete hess_appx_2;
     delete evaluator;
     
-    if(my_rank_==0) {
-      return solver_status_;
-    } else {
-      return Solve_Success;    
-    }
+    // all ranks return the status of the master rank
+    bcast_status(rank_master);
+    return solver_status_;
   }
 
 #else
@@ -1824,8 +1839,8 @@ hiopSolveStatus hiopAlgPrimalDecomposition::run_single()
       options_file_master_prob = options_->GetString("options_file_master_prob");
       // solve master problem basecase (solver rank supposed to do it)        
       solver_status_ = master_prob_->solve_master(*x_, false, 0, 0, 0, options_file_master_prob.c_str());
-      if(solver_status_) {     
-      
+      if(solver_status_ < 0) {
+        break;
       }
       base_val = master_prob_->get_objective();
       base_valm1 = base_val;
@@ -1957,7 +1972,7 @@ hiopSolveStatus hiopAlgPrimalDecomposition::run_single()
   delete x0;
   delete hess_appx_2;
   delete evaluator;
-  return Solve_Success;    
+  return solver_status_;
 }
 
 }//end namespace
diff --git a/src/Optimization/hiopAlgPrimalDecomp.hpp b/src/Optimization/hiopAlgPrimalDecomp.hpp
index fee5bcd..4e2ed90 100644
--- a/src/Optimization/hiopAlgPrimalDecomp.hpp
+++ b/src/Optimization/hiopAlgPrimalDecomp.hpp
@@ -140,7 +140,7 @@ public:
   void getDualSolutions(double* zl, double* zu, double* lambda);
   
   /** returns the status of the solver */
-  inline hiopSolveStatus getSolveStatus() const;
+  hiopSolveStatus getSolveStatus() const;
   
   /** returns the number of iterations, meaning how many times the master was solved */
   int getNumIterations() const;
@@ -385,6 +385,9 @@ public:
   };
 private: 
 #ifdef HIOP_USE_MPI
+  /// makes the solver status of rank 'rank_master' the status of all ranks
+  void bcast_status(int rank_master);
+
   MPI_Request* request_;
   MPI_Status status_; 
   int  my_rank_,comm_size_;
-- 
2.43.0


From 1eaf4b9d7d4adc2cf540aa65f744711057b63b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:58 +0000
Subject: [PATCH 76/81] fix: the primal decomposition solver stops with an
 error when recourse terms cannot be evaluated

---
 src/Optimization/hiopAlgPrimalDecomp.cpp | 80 +++++++++++++++++-------
 1 file changed, 58 insertions(+), 22 deletions(-)

diff --git a/src/Optimization/hiopAlgPrimalDecomp.cpp b/src/Optimization/hiopAlgPrimalDecomp.cpp
index dd0b37c..8c84e87 100644
--- a/src/Optimization/hiopAlgPrimalDecomp.cpp
+++ b/src/Optimization/hiopAlgPrimalDecomp.cpp
@@ -822,6 +822,7 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
     x_->setToConstant(0.0);
       
     bool bret;
+    int eval_ok = 1; // whether all recourse terms could be evaluated
     int rank_master=0; // master rank is also the rank that solves the master problem
     // Define the values and gradients as needed in the master rank
     double rval = 0.;
@@ -1047,7 +1048,7 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
 
           bret = master_prob_->eval_f_rterm(idx_temp, nc_, x0_vec, aux); // solving the recourse problem
           if(!bret) {
-              //TODO
+            eval_ok = 0;
           }
           rec_val += aux;
         }
@@ -1059,7 +1060,7 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
           int idx_temp = cont_idx[ri];
           bret = master_prob_->eval_grad_rterm(idx_temp, nc_, x0_vec, *grad_aux);
           if(!bret) {
-            //TODO
+            eval_ok = 0;
           }
           grad_acc->axpy(1.0, *grad_aux);
         }
@@ -1094,7 +1095,7 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
               
               bret = master_prob_->eval_f_rterm(idx_temp, nc_, x0_vec, aux); //need to add extra time here
               if(!bret) {
-              //TODO
+                eval_ok = 0;
               }
               rec_val += aux;
             }
@@ -1105,7 +1106,7 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
               int idx_temp = cont_idx[ri];
               bret = master_prob_->eval_grad_rterm(idx_temp, nc_, x0_vec, *grad_aux);
               if(!bret) {
-                //TODO
+                eval_ok = 0;
               }
               grad_acc->axpy(1.0, *grad_aux);
             }
@@ -1125,6 +1126,20 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
         }
       }
 
+      // all ranks stop when a recourse term could not be evaluated
+      ierr = MPI_Allreduce(MPI_IN_PLACE, &eval_ok, 1, MPI_INT, MPI_MIN, comm_world_);
+      assert(ierr == MPI_SUCCESS);
+      if(!eval_ok) {
+        for(int r=0; r<comm_size_; r++) {
+          rec_prob[r]->wait();
+          req_cont_idx[r]->wait();
+          delete rec_prob[r];
+          delete req_cont_idx[r];
+        }
+        solver_status_ = Error_In_User_Function;
+        break;
+      }
+
       if(my_rank_==0) {
         for(int r=1; r<comm_size_;r++) {
           rec_prob[r]->wait();
@@ -1203,14 +1218,14 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
         evaluator->set_x0(nc_,*x0);
 
         bret = master_prob_->set_recourse_approx_evaluator(nc_, evaluator);
-        if(!bret) {
-          //TODO
-        }
         
         options_file_master_prob = options_->GetString("options_file_master_prob");
         
         // log_->printf(hovIteration, "solving full problem starts, iteration %d \n", it); 
-        solver_status_ = master_prob_->solve_master(*x_, true, 0, 0, 0, options_file_master_prob.c_str());
+        solver_status_ = Error_In_User_Function;
+        if(bret) {
+          solver_status_ = master_prob_->solve_master(*x_, true, 0, 0, 0, options_file_master_prob.c_str());
+        }
 
         log_->printf(hovSummary, "solved full problem with objective %18.12e\n", master_prob_->get_objective());
 
@@ -1285,6 +1300,7 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
     x_->setToConstant(0.0);
       
     bool bret;
+    int eval_ok = 1; // whether all recourse terms could be evaluated
     int rank_master=0; // master rank is also the rank that solves the master problem
     // Define the values and gradients as needed as well as a receving buffer on the master rank
     double rval = 0.;
@@ -1527,7 +1543,7 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
 
           bret = master_prob_->eval_f_rterm(idx_temp, nc_, x0_vec, aux); // solving the recourse problem
           if(!bret) {
-              //TODO
+            eval_ok = 0;
           }
           //rec_val += aux;
           rval += aux;
@@ -1540,7 +1556,7 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
           int idx_temp = cont_idx[ri];
           bret = master_prob_->eval_grad_rterm(idx_temp, nc_, x0_vec, *grad_aux);
           if(!bret) {
-            //TODO
+            eval_ok = 0;
           }
           //grad_acc->axpy(1.0, *grad_aux);
           grad_r->axpy(1.0, *grad_aux);
@@ -1583,7 +1599,7 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
               
               bret = master_prob_->eval_f_rterm(idx_temp, nc_, x0_vec, aux); //need to add extra time here
               if(!bret) {
-              //TODO
+                eval_ok = 0;
               }
               //rec_val += aux;
               rval += aux;
@@ -1595,7 +1611,7 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
               int idx_temp = cont_idx[ri];
               bret = master_prob_->eval_grad_rterm(idx_temp, nc_, x0_vec, *grad_aux);
               if(!bret) {
-                //TODO
+                eval_ok = 0;
               }
               //grad_acc->axpy(1.0, *grad_aux);
               grad_r->axpy(1.0, *grad_aux);
@@ -1620,6 +1636,20 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
         //grad_r->copyFrom(grad_acc_vec);
       }
 
+      // all ranks stop when a recourse term could not be evaluated
+      ierr = MPI_Allreduce(MPI_IN_PLACE, &eval_ok, 1, MPI_INT, MPI_MIN, comm_world_);
+      assert(ierr == MPI_SUCCESS);
+      if(!eval_ok) {
+        for(int r=0; r<comm_size_; r++) {
+          rec_prob[r]->wait();
+          req_cont_idx[r]->wait();
+          delete rec_prob[r];
+          delete req_cont_idx[r];
+        }
+        solver_status_ = Error_In_User_Function;
+        break;
+      }
+
       if(my_rank_==0) {
         assert(rval == 0);
         for(int i=0; i<static_cast<int>(nc_); i++ ) {
@@ -1714,14 +1744,14 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
         evaluator->set_x0(nc_,*x0);
 
         bret = master_prob_->set_recourse_approx_evaluator(nc_, evaluator);
-        if(!bret) {
-          //TODO
-        }
         
         options_file_master_prob = options_->GetString("options_file_master_prob");
         
         // log_->printf(hovIteration, "solving full problem starts, iteration %d \n", it); 
-        solver_status_ = master_prob_->solve_master(*x_, true, 0, 0, 0, options_file_master_prob.c_str());
+        solver_status_ = Error_In_User_Function;
+        if(bret) {
+          solver_status_ = master_prob_->solve_master(*x_, true, 0, 0, 0, options_file_master_prob.c_str());
+        }
 
         log_->printf(hovSummary, "solved full problem with objective %18.12e\n", master_prob_->get_objective());
 
@@ -1797,6 +1827,7 @@ hiopSolveStatus hiopAlgPrimalDecomposition::run_single()
   x_->setToZero();
       
   bool bret;
+  bool eval_ok = true; // whether all recourse terms could be evaluated
   // Define the values and gradients as needed in the master rank
   double rval = 0.;
   // double grad_r[nc_];
@@ -1862,7 +1893,7 @@ hiopSolveStatus hiopAlgPrimalDecomposition::run_single()
       double aux=0.;
       bret = master_prob_->eval_f_rterm(idx_temp, nc_, x0_vec, aux); //need to add extra time here
       if(!bret) {
-        //TODO
+        eval_ok = false;
       }
       rval += aux;
       // assert("for debugging" && false); //for debugging purpose
@@ -1873,12 +1904,17 @@ hiopSolveStatus hiopAlgPrimalDecomposition::run_single()
       // double grad_aux[nc_];
       bret = master_prob_->eval_grad_rterm(idx_temp, nc_, x0_vec, *grad_aux);
       if(!bret) {
-          //TODO
+        eval_ok = false;
       }
       grad_r->axpy(1.0,*grad_aux);
       delete grad_aux;
     }     
 
+    if(!eval_ok) {
+      solver_status_ = Error_In_User_Function;
+      break;
+    }
+
     rval /= S_;
     grad_r->scale(1.0/S_);
 
@@ -1943,12 +1979,12 @@ hiopSolveStatus hiopAlgPrimalDecomposition::run_single()
 
 
     bret = master_prob_->set_recourse_approx_evaluator(nc_, evaluator);
-    if(!bret) {
-      //TODO
-    }
     options_file_master_prob = options_->GetString("options_file_master_prob");
     log_->printf(hovSummary, "solving full problem starts, iteration %d \n", it); 
-    solver_status_ = master_prob_->solve_master(*x_, true, 0, 0, 0, options_file_master_prob.c_str());
+    solver_status_ = Error_In_User_Function;
+    if(bret) {
+      solver_status_ = master_prob_->solve_master(*x_, true, 0, 0, 0, options_file_master_prob.c_str());
+    }
     
     dinf = step_size_inf(nc_, *xc_idx_, *x_, *x0); 
 
-- 
2.43.0


From ffb0dcee68fedecd95f42ab79fa5c0d375ae9460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:16 +0000
Subject: [PATCH 77/81] fix: the default sparse KKT system (XYcYd with
 linsol_mode stable) stopped in an assertion on the CPU

---
 src/Optimization/hiopKKTLinSysSparse.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/Optimization/hiopKKTLinSysSparse.cpp b/src/Optimization/hiopKKTLinSysSparse.cpp
index c41a857..0b817e1 100644
--- a/src/Optimization/hiopKKTLinSysSparse.cpp
+++ b/src/Optimization/hiopKKTLinSysSparse.cpp
@@ -271,8 +271,6 @@ namespace hiop
     if(nullptr==linSys_) {
       int n = nx + neq + nineq;
 
-      assert(false == safe_mode_ && "KKT_SPARSE_XYcYd linsys does not support safe mode.");
-
       auto compute_mode = nlp_->options->GetString("compute_mode");
       auto linear_solver = nlp_->options->GetString("linear_solver_sparse");
       std::string linsol_actual = "[?]";
-- 
2.43.0


From 1a54ee409d45d30bcdbf5af827bfb7ac73e64cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:33 +0000
Subject: [PATCH 78/81] fix: the sparse XYcYd KKT system accumulated the
 barrier diagonal of the inequalities over the factorizations

---
 src/Optimization/hiopKKTLinSysSparse.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/Optimization/hiopKKTLinSysSparse.cpp b/src/Optimization/hiopKKTLinSysSparse.cpp
index 0b817e1..7aa518a 100644
--- a/src/Optimization/hiopKKTLinSysSparse.cpp
+++ b/src/Optimization/hiopKKTLinSysSparse.cpp
@@ -163,7 +163,7 @@ namespace hiop
        */
 
       // Dd = (Sdl)^{-1}Vu + (Sdu)^{-1}Vu + delta_wd * I
-      Dd_inv_->axpy(1., *delta_wd_);
+      Dd_inv_->copyFrom(*delta_wd_);
       Dd_inv_->axdzpy_w_pattern(1.0, *iter_->vl, *iter_->sdl, nlp_->get_idl());
       Dd_inv_->axdzpy_w_pattern(1.0, *iter_->vu, *iter_->sdu, nlp_->get_idu());
 
@@ -171,9 +171,12 @@ namespace hiop
       assert(true==Dd_inv_->allPositive());
 #endif
       Dd_inv_->invert();
-      Dd_inv_->axpy(1., *delta_cd_);
 
-      Msys->copySubDiagonalFrom(nx+neq, nineq, *Dd_inv_, dest_nnz_st, -1); dest_nnz_st += nineq;
+      // Dd_inv_ is also used to recover 'dd', so delta_cd is added to a copy
+      hiopVector* M33 = Dd_inv_->new_copy();
+      M33->axpy(1., *delta_cd_);
+      Msys->copySubDiagonalFrom(nx+neq, nineq, *M33, dest_nnz_st, -1); dest_nnz_st += nineq;
+      delete M33;
 
 
       nlp_->log->write("KKT_SPARSE_XYcYd linsys:", *Msys, hovMatrices);
-- 
2.43.0


From 6464af1c9add4eb156dd4c02e889f99b280efcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:51 +0000
Subject: [PATCH 79/81] fix: a refused query of the sparsity pattern of the
 Jacobian or of the Hessian was ignored

---
 src/Optimization/hiopNlpFormulation.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index d321ca1..064f366 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -2113,6 +2113,10 @@ bool hiopNlpSparse::eval_Jac_c_d_interface_impl(hiopVector& x,
                                      cons_Jac->i_row(), 
                                      cons_Jac->j_col(), 
                                      nullptr);
+      if(!bret) {
+        runStats.tmEvalJac_con.stop();
+        return false;
+      }
       num_jac_eval_++;
     }
     
@@ -2197,6 +2201,10 @@ bool hiopNlpSparse::eval_Hess_Lagr(const hiopVector& x,
                                       pHessL->i_row(),
                                       pHessL->j_col(),
                                       nullptr);
+      if(!bret) {
+        runStats.tmEvalHessL.stop();
+        return false;
+      }
       num_hess_eval_++;
     }
 
-- 
2.43.0


From 97b32db91418652e1d10f6ab7a7b003dab071210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:59 +0000
Subject: [PATCH 80/81] fix: without RAJA the factorizations of the condensed
 sparse KKT system were checked against the inertia of the full system and
 never accepted

---
 src/Optimization/hiopAlgFilterIPM.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 660dbec..4119a18 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -2115,14 +2115,12 @@ decideAndCreateFactAcceptor(hiopPDPerturbation* p, hiopNlpFormulation* nlp, hiop
     return new hiopFactAcceptorInertiaFreeDWD(p, nlp->m_eq()+nlp->m_ineq());
   } else {
 #ifdef HIOP_SPARSE    
-#ifdef HIOP_USE_RAJA
     if(nullptr != dynamic_cast<hiopKKTLinSysCondensedSparse*>(kkt)) {
       // for LinSysCondensedSparse correct inertia is different
       assert(nullptr != dynamic_cast<hiopNlpSparseIneq*>(nlp) &&
              "wrong combination of optimization objects was created");
       return new hiopFactAcceptorIC(p, 0);      
     }
-#endif
 #endif    
     return new hiopFactAcceptorIC(p, nlp->m_eq()+nlp->m_ineq());
 
-- 
2.43.0


From f60155ddfee2a77c32a7c0133db5775aebc6601e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:54 +0000
Subject: [PATCH 81/81] fix: the sparse normal equations kept the Jacobians and
 the Hessian of the first iterate

---
 .../hiopKKTLinSysSparseNormalEqn.cpp          | 35 ++++++++++---------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/Optimization/hiopKKTLinSysSparseNormalEqn.cpp b/src/Optimization/hiopKKTLinSysSparseNormalEqn.cpp
index a565536..5ef7950 100644
--- a/src/Optimization/hiopKKTLinSysSparseNormalEqn.cpp
+++ b/src/Optimization/hiopKKTLinSysSparseNormalEqn.cpp
@@ -184,8 +184,6 @@ bool hiopKKTLinSysSparseNormalEqn::build_kkt_matrix(const hiopPDPerturbation& pd
     Hx_ = LinearAlgebraFactory::create_vector(nlp_->options->GetString("mem_space"), nx);
     Hd_ = LinearAlgebraFactory::create_vector(nlp_->options->GetString("mem_space"), nineq);
 
-    Hess_triplet->extract_diagonal(*Hess_diag_);
-
     assert(nullptr == Hd_copy_);  //should be also not allocated
     //temporary: make a copy of Hd on the "internal" mem_space
     Hess_diag_copy_ = LinearAlgebraFactory::create_vector(mem_space_internal, nx);
@@ -202,6 +200,7 @@ bool hiopKKTLinSysSparseNormalEqn::build_kkt_matrix(const hiopPDPerturbation& pd
     dual_reg_copy_ = LinearAlgebraFactory::create_vector(mem_space_internal, neq + nineq);
   }
   //build the diagonal Hx = Dx + delta_wx + diag(Hess)
+  Hess_triplet->extract_diagonal(*Hess_diag_);
   Hx_->copyFrom(*Dx_);
   Hx_->axpy(1., *delta_wx_);
   Hx_->axpy(1., *Hess_diag_);
@@ -266,9 +265,8 @@ bool hiopKKTLinSysSparseNormalEqn::build_kkt_matrix(const hiopPDPerturbation& pd
   // TODO: jump to the steps where we add dual regularization, if delta_wx is not changed and this function is called due to refactorization
   hiopTimer t;
 
-  if(nullptr == JDiagJt_) {
+  {
     t.reset(); t.start();
-    // first time this is called
     // form sparse matrix in triplet form on HOST
     size_type nnz_jac_con = Jac_cSp_->numberOfNonzeros()+Jac_dSp_->numberOfNonzeros()+nineq;
     auto* Jac_triplet_tmp = new hiopMatrixSparseTriplet(neq+nineq, nx+nineq, nnz_jac_con);
@@ -287,23 +285,28 @@ bool hiopKKTLinSysSparseNormalEqn::build_kkt_matrix(const hiopPDPerturbation& pd
     Jac_triplet_tmp->copyDiagMatrixToSubblock(-1., neq, nx, dest_nnz_st, nineq);
     dest_nnz_st += nineq;
 
-    /// TODO: now we assume Jc and Jd won't change, i.e., LP or QP. hence we build JacD_ and JacDt_ once and save them
     Jac_triplet_tmp->sort();
 
-    assert(   nullptr == JacD_    && nullptr == JacDt_ && nullptr == JDiagJt_ );
+    if(nullptr == JDiagJt_) {
+      // first time this is called: the sparsity patterns do not change
+      assert(nullptr == JacD_ && nullptr == JacDt_);
 
-    JacD_ = LinearAlgebraFactory::create_matrix_sparse_csr(mem_space_internal);
-    JacD_->form_from_symbolic(*Jac_triplet_tmp);
-    JacD_->form_from_numeric(*Jac_triplet_tmp);
+      JacD_ = LinearAlgebraFactory::create_matrix_sparse_csr(mem_space_internal);
+      JacD_->form_from_symbolic(*Jac_triplet_tmp);
+      JacD_->form_from_numeric(*Jac_triplet_tmp);
 
-    JacDt_ = LinearAlgebraFactory::create_matrix_sparse_csr(mem_space_internal);
-    JacDt_->form_transpose_from_symbolic(*JacD_);
-    JacDt_->form_transpose_from_numeric(*JacD_); // need this line before calling JacD_->times_mat_alloc(*JacDt_) 
+      JacDt_ = LinearAlgebraFactory::create_matrix_sparse_csr(mem_space_internal);
+      JacDt_->form_transpose_from_symbolic(*JacD_);
+      JacDt_->form_transpose_from_numeric(*JacD_); // need this line before calling JacD_->times_mat_alloc(*JacDt_) 
 
-    //symbolic multiplication for JacD*Diag*JacDt
-    // J * (D*Jt)  (D is not used since it does not change the sparsity pattern)
-    JDiagJt_ = JacD_->times_mat_alloc(*JacDt_);
-    JacD_->times_mat_symbolic(*JDiagJt_, *JacDt_);
+      //symbolic multiplication for JacD*Diag*JacDt
+      // J * (D*Jt)  (D is not used since it does not change the sparsity pattern)
+      JDiagJt_ = JacD_->times_mat_alloc(*JacDt_);
+      JacD_->times_mat_symbolic(*JDiagJt_, *JacDt_);
+    } else {
+      // the values of Jc and Jd change with the iterate, unless the problem is an LP or a QP
+      JacD_->form_from_numeric(*Jac_triplet_tmp);
+    }
 
     delete Jac_triplet_tmp;
   }
-- 
2.43.0

