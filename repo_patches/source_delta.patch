From 8ac49fb14f6158ef95c83afb91eb81b5bf14e8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:06 +0000
Subject: [PATCH 01/36] fix: SolverPROXQP sizes its QP by the tangent
 dimension, not the state dimension

---
 src/csqp_proxqp.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/csqp_proxqp.cpp b/src/csqp_proxqp.cpp
index 55b11cc..6700d29 100644
--- a/src/csqp_proxqp.cpp
+++ b/src/csqp_proxqp.cpp
@@ -49,13 +49,13 @@ SolverPROXQP::SolverPROXQP(std::shared_ptr<crocoddyl::ShootingProblem> problem)
   n_eq = 0;
   for (std::size_t t = 0; t < T; ++t) {
     if (t < T - 1) {
-      n_vars += models[t + 1]->get_state()->get_nx();
-      n_eq += models[t + 1]->get_state()->get_nx();
+      n_vars += models[t + 1]->get_state()->get_ndx();
+      n_eq += models[t + 1]->get_state()->get_ndx();
     }
     n_vars += models[t]->get_nu();
   }
-  n_vars += problem_->get_terminalModel()->get_state()->get_nx();
-  n_eq += problem_->get_terminalModel()->get_state()->get_nx();
+  n_vars += problem_->get_terminalModel()->get_state()->get_ndx();
+  n_eq += problem_->get_terminalModel()->get_state()->get_ndx();
   P_.resize(n_vars, n_vars);
   P_.setZero();
   q_.resize(n_vars), q_.setZero();
@@ -278,7 +278,7 @@ void SolverPROXQP::calc(const bool recalc) {
   for (std::size_t t = 0; t < T; ++t) {
     const std::shared_ptr<ActionModelAbstract>& m = models[t];
     const std::shared_ptr<ActionDataAbstract>& d = datas[t];
-    const int nx = m->get_state()->get_nx();
+    const int nx = m->get_state()->get_ndx();
     const int nu = m->get_nu();
 
     m->get_state()->diff(xs_[t + 1], d->xnext, fs_[t + 1]);
@@ -332,7 +332,7 @@ void SolverPROXQP::calc(const bool recalc) {
   int nc = m_T->get_ng();
   auto lb = m_T->get_g_lb();
   auto ub = m_T->get_g_ub();
-  const int nx = m_T->get_state()->get_nx();
+  const int nx = m_T->get_state()->get_ndx();
 
   P_.middleCols((T - 1) * nx, nx).middleRows((T - 1) * nx, nx) = d_T->Lxx;
   q_.segment((T - 1) * nx, nx) = d_T->Lx;
@@ -389,7 +389,7 @@ void SolverPROXQP::computeDirection(const bool recalcDiff) {
   double index_u = n_eq;
   for (std::size_t t = 0; t < T; ++t) {
     const std::shared_ptr<ActionModelAbstract>& m = models[t];
-    const int nx = m->get_state()->get_nx();
+    const int nx = m->get_state()->get_ndx();
     const int nu = m->get_nu();
     int nc = m->get_ng();
 
-- 
2.43.0


From 7c5e961ab76db6547248a44719401c31f89b8274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:06 +0000
Subject: [PATCH 02/36] fix: SolverPROXQP puts control constraints in the
 columns of their node

---
 src/csqp_proxqp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csqp_proxqp.cpp b/src/csqp_proxqp.cpp
index 6700d29..c81b2e4 100644
--- a/src/csqp_proxqp.cpp
+++ b/src/csqp_proxqp.cpp
@@ -308,7 +308,7 @@ void SolverPROXQP::calc(const bool recalc) {
       }
     }
     if (nc != 0) {
-      C_.middleCols(T * nx + (t)*nu, nu).middleRows(nin_count, nc) = d->Gu;
+      C_.middleCols(index_u, nu).middleRows(nin_count, nc) = d->Gu;
       l_.segment(nin_count, nc) = lb - d->g;
       u_.segment(nin_count, nc) = ub - d->g;
     }
-- 
2.43.0


From a957bf68c5df031b46187ec6b308a5f52ca304b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:06 +0000
Subject: [PATCH 03/36] fix: SolverPROXQP stores the cost in its base class
 instead of hiding it

---
 include/mim_solvers/csqp_proxqp.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/mim_solvers/csqp_proxqp.hpp b/include/mim_solvers/csqp_proxqp.hpp
index 03f92cc..c95c5bc 100644
--- a/include/mim_solvers/csqp_proxqp.hpp
+++ b/include/mim_solvers/csqp_proxqp.hpp
@@ -219,7 +219,6 @@ class SolverPROXQP : public SolverDDP {
   double constraint_norm_ = 0;  //!< 1 norm of constraint violation
   double constraint_norm_try_ = 0;  //!< 1 norm of constraint violation try
   double gap_norm_try_ = 0;         //!< 1 norm of the gaps
-  double cost_ = 0.0;               //!< cost function
   double mu_dynamic_ = 1e1;         //!< penalty no constraint violation
   double mu_constraint_ = 1e1;      //!< penalty no constraint violation
   double termination_tol_ = 1e-8;   //!< Termination tolerance
-- 
2.43.0


From 364c70e1fb2adf626de1bfcffea8f235c52406b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:39 +0000
Subject: [PATCH 04/36] fix: shrinking the filter size also shrinks the
 line-search memory

---
 include/mim_solvers/csqp.hpp        | 3 +++
 include/mim_solvers/csqp_proxqp.hpp | 3 +++
 include/mim_solvers/fddp.hpp        | 2 ++
 include/mim_solvers/sqp.hpp         | 2 ++
 4 files changed, 10 insertions(+)

diff --git a/include/mim_solvers/csqp.hpp b/include/mim_solvers/csqp.hpp
index 6674528..3120153 100644
--- a/include/mim_solvers/csqp.hpp
+++ b/include/mim_solvers/csqp.hpp
@@ -230,8 +230,11 @@ class SolverCSQP : public SolverDDP {
   };
   void set_filter_size(const std::size_t inFilterSize) {
     filter_size_ = inFilterSize;
+    gap_list_.rset_capacity(filter_size_);
     gap_list_.resize(filter_size_);
+    constraint_list_.rset_capacity(filter_size_);
     constraint_list_.resize(filter_size_);
+    cost_list_.rset_capacity(filter_size_);
     cost_list_.resize(filter_size_);
   };
 
diff --git a/include/mim_solvers/csqp_proxqp.hpp b/include/mim_solvers/csqp_proxqp.hpp
index c95c5bc..f96ed65 100644
--- a/include/mim_solvers/csqp_proxqp.hpp
+++ b/include/mim_solvers/csqp_proxqp.hpp
@@ -167,8 +167,11 @@ class SolverPROXQP : public SolverDDP {
   };
   void set_filter_size(const std::size_t inFilterSize) {
     filter_size_ = inFilterSize;
+    gap_list_.rset_capacity(filter_size_);
     gap_list_.resize(filter_size_);
+    constraint_list_.rset_capacity(filter_size_);
     constraint_list_.resize(filter_size_);
+    cost_list_.rset_capacity(filter_size_);
     cost_list_.resize(filter_size_);
   };
 
diff --git a/include/mim_solvers/fddp.hpp b/include/mim_solvers/fddp.hpp
index 356efb0..524eb53 100644
--- a/include/mim_solvers/fddp.hpp
+++ b/include/mim_solvers/fddp.hpp
@@ -136,7 +136,9 @@ class SolverFDDP : public SolverDDP {
   };
   void set_filter_size(const std::size_t inFilterSize) {
     filter_size_ = inFilterSize;
+    gap_list_.rset_capacity(filter_size_);
     gap_list_.resize(filter_size_);
+    cost_list_.rset_capacity(filter_size_);
     cost_list_.resize(filter_size_);
   };
   double get_gap_norm() const { return gap_norm_; };
diff --git a/include/mim_solvers/sqp.hpp b/include/mim_solvers/sqp.hpp
index 3b11419..be65516 100644
--- a/include/mim_solvers/sqp.hpp
+++ b/include/mim_solvers/sqp.hpp
@@ -142,7 +142,9 @@ class SolverSQP : public SolverDDP {
   };
   void set_filter_size(const std::size_t inFilterSize) {
     filter_size_ = inFilterSize;
+    gap_list_.rset_capacity(filter_size_);
     gap_list_.resize(filter_size_);
+    cost_list_.rset_capacity(filter_size_);
     cost_list_.resize(filter_size_);
   };
 
-- 
2.43.0


From 5285a943b60c6fcee81feff02e5cb584bf30c064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:39 +0000
Subject: [PATCH 05/36] fix: SolverCSQP records the accepted step length and
 adapts the regularization to it

---
 src/csqp.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/csqp.cpp b/src/csqp.cpp
index 0e1eb79..220b796 100644
--- a/src/csqp.cpp
+++ b/src/csqp.cpp
@@ -313,7 +313,8 @@ bool SolverCSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
     bool found = false;
     // less than filter_size_, less or equal iter_
     const std::size_t max_count = std::min(filter_size_, iter_ + 1);
-    for (const double steplength_ : alphas_) {
+    for (const double steplength : alphas_) {
+      steplength_ = steplength;
       try {
         merit_try_ = tryStep(steplength_);
       } catch (std::exception& e) {
@@ -354,7 +355,8 @@ bool SolverCSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
     if (!remove_reg_) {
       if (steplength_ > th_stepdec_) {
         decreaseRegularization();
-      } else {
+      }
+      if (steplength_ <= th_stepinc_) {
         increaseRegularization();
         // preg_ equal to reg_max_
         if (preg_ >= reg_max_) {
-- 
2.43.0


From 9aa26689bde80fcac48162398509bbd9eb47a923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:20 +0000
Subject: [PATCH 06/36] fix: increasing the regularization leaves zero, so that
 solve terminates

---
 src/ddp.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ddp.cpp b/src/ddp.cpp
index f5d9ada..cb24fd1 100644
--- a/src/ddp.cpp
+++ b/src/ddp.cpp
@@ -429,7 +429,12 @@ void SolverDDP::computeGains(const std::size_t t) {
 }
 
 void SolverDDP::increaseRegularization() {
-  preg_ *= reg_incfactor_;
+  if (preg_ > 0.) {
+    preg_ *= reg_incfactor_;
+  } else {
+    // A product cannot leave zero
+    preg_ = reg_min_ > 0. ? reg_min_ : 1e-9;
+  }
   if (preg_ > reg_max_) {
     preg_ = reg_max_;
   }
-- 
2.43.0


From f7413ce24a3817e35c46f6ba9ac6a4e2e8eca00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:20 +0000
Subject: [PATCH 07/36] fix: SolverSQP re-evaluates the problem at the
 candidate after a rejected line search

---
 src/sqp.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/sqp.cpp b/src/sqp.cpp
index 5333fcb..4b7ceff 100644
--- a/src/sqp.cpp
+++ b/src/sqp.cpp
@@ -134,6 +134,7 @@ bool SolverSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
     cost_list_.push_back(cost_);
 
     // We need to recalculate the derivatives when the step length passes
+    bool found = false;
     for (std::vector<double>::const_iterator it = alphas_.begin();
          it != alphas_.end(); ++it) {
       steplength_ = *it;
@@ -158,6 +159,7 @@ bool SolverSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
         if (is_worse_than_memory_ == false) {
           setCandidate(xs_try_, us_try_, false);
           recalcDiff = true;
+          found = true;
           break;
         }
       }
@@ -166,10 +168,15 @@ bool SolverSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
         if (merit_ > merit_try_) {
           setCandidate(xs_try_, us_try_, false);
           recalcDiff = true;
+          found = true;
           break;
         }
       }
     }
+    if (!found) {
+      // The data hold the last rejected trial: bring them back to the candidate
+      problem_->calc(xs_, us_);
+    }
 
     if (steplength_ > th_stepdec_) {
       decreaseRegularization();
-- 
2.43.0


From 44209e8a5d48733f2850e01d6749bb7bdb73d3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:36 +0000
Subject: [PATCH 08/36] fix: a failing derivative evaluation is repeated
 instead of using stale derivatives

---
 include/mim_solvers/csqp_proxqp.hpp | 2 ++
 include/mim_solvers/sqp.hpp         | 2 ++
 src/csqp_proxqp.cpp                 | 4 +++-
 src/sqp.cpp                         | 6 ++++--
 4 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/mim_solvers/csqp_proxqp.hpp b/include/mim_solvers/csqp_proxqp.hpp
index f96ed65..9017015 100644
--- a/include/mim_solvers/csqp_proxqp.hpp
+++ b/include/mim_solvers/csqp_proxqp.hpp
@@ -262,6 +262,8 @@ class SolverPROXQP : public SolverDDP {
   Eigen::VectorXd dual_vecu;
   bool is_worse_than_memory_ =
       false;  //!< Boolean for filter line-search criteria
+  bool derivatives_ready_ =
+      false;  //!< Whether the last derivative pass ran to its end
 };
 
 }  // namespace mim_solvers
diff --git a/include/mim_solvers/sqp.hpp b/include/mim_solvers/sqp.hpp
index be65516..61bdbc7 100644
--- a/include/mim_solvers/sqp.hpp
+++ b/include/mim_solvers/sqp.hpp
@@ -189,6 +189,8 @@ class SolverSQP : public SolverDDP {
                              //!< direction
   bool is_worse_than_memory_ =
       false;                   //!< Boolean for filter line-search criteria
+  bool derivatives_ready_ =
+      false;  //!< Whether the last derivative pass ran to its end
   Eigen::VectorXd tmp_vec_x_;  //!< Temporary variable
   std::vector<Eigen::VectorXd> tmp_vec_u_;  //!< Temporary variable
 };
diff --git a/src/csqp_proxqp.cpp b/src/csqp_proxqp.cpp
index c81b2e4..246029f 100644
--- a/src/csqp_proxqp.cpp
+++ b/src/csqp_proxqp.cpp
@@ -175,7 +175,7 @@ bool SolverPROXQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
       try {
         computeDirection(recalcDiff);
       } catch (std::exception& e) {
-        recalcDiff = false;
+        recalcDiff = !derivatives_ready_;
         increaseRegularization();
         if (preg_ == reg_max_) {
           return false;
@@ -360,7 +360,9 @@ void SolverPROXQP::computeDirection(const bool recalcDiff) {
   START_PROFILER("SolverPROXQP::computeDirection");
   const std::size_t T = problem_->get_T();
   if (recalcDiff) {
+    derivatives_ready_ = false;
     calc(recalcDiff);
+    derivatives_ready_ = true;
   }
   checkKKTConditions();
 
diff --git a/src/sqp.cpp b/src/sqp.cpp
index 4b7ceff..61b64ac 100644
--- a/src/sqp.cpp
+++ b/src/sqp.cpp
@@ -104,7 +104,7 @@ bool SolverSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
       try {
         computeDirection(recalcDiff);
       } catch (std::exception& e) {
-        recalcDiff = false;
+        recalcDiff = !derivatives_ready_;
         increaseRegularization();
         if (preg_ == reg_max_) {
           return false;
@@ -197,7 +197,7 @@ bool SolverSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
       try {
         computeDirection(recalcDiff);
       } catch (std::exception& e) {
-        recalcDiff = false;
+        recalcDiff = !derivatives_ready_;
         increaseRegularization();
         if (preg_ == reg_max_) {
           return false;
@@ -231,7 +231,9 @@ bool SolverSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
 void SolverSQP::computeDirection(const bool recalcDiff) {
   START_PROFILER("SolverSQP::computeDirection");
   if (recalcDiff) {
+    derivatives_ready_ = false;
     cost_ = calcDiff();
+    derivatives_ready_ = true;
   }
   gap_norm_ = 0;
   const std::size_t T = problem_->get_T();
-- 
2.43.0


From 21ebc6bff4c43158125d3c08d3d2153e21a26e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:36 +0000
Subject: [PATCH 09/36] fix: SolverCSQP reports the executed QP iterations, not
 one more at the limit

---
 src/csqp.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/csqp.cpp b/src/csqp.cpp
index 220b796..bf8dbdf 100644
--- a/src/csqp.cpp
+++ b/src/csqp.cpp
@@ -513,6 +513,10 @@ void SolverCSQP::computeDirection(const bool /*recalcDiff*/) {
       }
     }
   }
+  // The loop counter is one ahead if all the iterations were used
+  if (qp_iters_ > max_qp_iters_) {
+    qp_iters_ = max_qp_iters_;
+  }
 
   STOP_PROFILER("SolverCSQP::computeDirection");
   // MIM_SOLVERS_EIGEN_MALLOC_ALLOWED();
-- 
2.43.0


From cc1268c49eb84ac8249e62de6abb6e85caed4ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:50 +0000
Subject: [PATCH 10/36] fix: SolverCSQP computes the merit before the callbacks
 of the iteration

---
 include/mim_solvers/csqp.hpp |  5 +++++
 src/csqp.cpp                 | 40 ++++++++++++++++++++----------------
 2 files changed, 27 insertions(+), 18 deletions(-)

diff --git a/include/mim_solvers/csqp.hpp b/include/mim_solvers/csqp.hpp
index 3120153..22e93c3 100644
--- a/include/mim_solvers/csqp.hpp
+++ b/include/mim_solvers/csqp.hpp
@@ -131,6 +131,11 @@ class SolverCSQP : public SolverDDP {
    */
   virtual void checkKKTConditions();
 
+  /**
+   * @brief Compute the merit function at the current candidate
+   */
+  void computeMerit();
+
   const std::vector<Eigen::VectorXd>& get_xs_try() const { return xs_try_; };
   const std::vector<Eigen::VectorXd>& get_us_try() const { return us_try_; };
 
diff --git a/src/csqp.cpp b/src/csqp.cpp
index bf8dbdf..6801237 100644
--- a/src/csqp.cpp
+++ b/src/csqp.cpp
@@ -275,6 +275,7 @@ bool SolverCSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
 
     // Check KKT criteria
     checkKKTConditions();
+    computeMerit();
 
     // Perform callbacks
     for (const auto& callback : callbacks_) {
@@ -291,24 +292,6 @@ bool SolverCSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
     gap_list_.push_back(gap_norm_);
     cost_list_.push_back(cost_);
 
-    // Calculate the coefficient of the merit function.
-    if (mu_dynamic_ < 0. || mu_constraint_ < 0.) {
-      lag_mul_inf_norm_ = 0;
-      for (const auto& lag_mul : lag_mul_) {
-        lag_mul_inf_norm_ =
-            std::max(lag_mul_inf_norm_, lag_mul.lpNorm<Eigen::Infinity>());
-      }
-      for (const auto& y : y_) {
-        lag_mul_inf_norm_ =
-            std::max(lag_mul_inf_norm_, y.lpNorm<Eigen::Infinity>());
-      }
-      merit_ = cost_ + lag_mul_inf_norm_coef_ * lag_mul_inf_norm_ *
-                           (gap_norm_ + constraint_norm_);
-    } else {
-      merit_ =
-          cost_ + mu_dynamic_ * gap_norm_ + mu_constraint_ * constraint_norm_;
-    }
-
     // We need to recalculate the derivatives when the step length passes
     bool found = false;
     // less than filter_size_, less or equal iter_
@@ -394,6 +377,7 @@ bool SolverCSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
 
     // Check KKT criteria
     checkKKTConditions();
+    computeMerit();
 
     // Perform callbacks
     for (const auto& callback : callbacks_) {
@@ -587,6 +571,26 @@ void SolverCSQP::apply_rho_update(const double rho_sparse_tmp) {
   STOP_PROFILER("SolverCSQP::apply_rho_update");
 }
 
+void SolverCSQP::computeMerit() {
+  // Calculate the coefficient of the merit function.
+  if (mu_dynamic_ < 0. || mu_constraint_ < 0.) {
+    lag_mul_inf_norm_ = 0;
+    for (const auto& lag_mul : lag_mul_) {
+      lag_mul_inf_norm_ =
+          std::max(lag_mul_inf_norm_, lag_mul.lpNorm<Eigen::Infinity>());
+    }
+    for (const auto& y : y_) {
+      lag_mul_inf_norm_ =
+          std::max(lag_mul_inf_norm_, y.lpNorm<Eigen::Infinity>());
+    }
+    merit_ = cost_ + lag_mul_inf_norm_coef_ * lag_mul_inf_norm_ *
+                         (gap_norm_ + constraint_norm_);
+  } else {
+    merit_ =
+        cost_ + mu_dynamic_ * gap_norm_ + mu_constraint_ * constraint_norm_;
+  }
+}
+
 void SolverCSQP::checkKKTConditions() {
   KKT_ = 0.;
   const std::size_t T = problem_->get_T();
-- 
2.43.0


From 4d50b611f9899e1c79ca243fe9ad04252e9d5b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:25 +0000
Subject: [PATCH 11/36] fix: SolverCSQP resizes its data when the problem's
 models change

---
 include/mim_solvers/csqp.hpp |  2 ++
 src/csqp.cpp                 | 36 ++++++++++++++++++++++++++++++++++++
 2 files changed, 38 insertions(+)

diff --git a/include/mim_solvers/csqp.hpp b/include/mim_solvers/csqp.hpp
index 22e93c3..63068fd 100644
--- a/include/mim_solvers/csqp.hpp
+++ b/include/mim_solvers/csqp.hpp
@@ -117,6 +117,8 @@ class SolverCSQP : public SolverDDP {
 
   virtual void calc(const bool recalc = true);
 
+  virtual void resizeData();
+
   virtual void reset_params();
 
   virtual void reset_rho_vec();
diff --git a/src/csqp.cpp b/src/csqp.cpp
index 6801237..d594164 100644
--- a/src/csqp.cpp
+++ b/src/csqp.cpp
@@ -167,6 +167,42 @@ SolverCSQP::SolverCSQP(std::shared_ptr<crocoddyl::ShootingProblem> problem)
   }
 }
 
+void SolverCSQP::resizeData() {
+  START_PROFILER("SolverCSQP::resizeData");
+  SolverDDP::resizeData();
+
+  const std::size_t T = problem_->get_T();
+  const std::size_t ndx = problem_->get_ndx();
+  const std::vector<std::shared_ptr<crocoddyl::ActionModelAbstract>>& models =
+      problem_->get_runningModels();
+  for (std::size_t t = 0; t < T + 1; ++t) {
+    const std::shared_ptr<crocoddyl::ActionModelAbstract>& model =
+        t < T ? models[t] : problem_->get_terminalModel();
+    const std::size_t nu = model->get_nu();
+    const std::size_t nc = model->get_ng();
+    if (t < T) {
+      if (static_cast<std::size_t>(du_[t].size()) != nu) {
+        du_[t] = Eigen::VectorXd::Zero(nu);
+        dutilde_[t] = Eigen::VectorXd::Zero(nu);
+        tmp_vec_u_[t] = Eigen::VectorXd::Zero(nu);
+      }
+      tmp_rhoGu_mat_[t] = Eigen::MatrixXd::Zero(nc, nu);
+    }
+    if (static_cast<std::size_t>(y_[t].size()) != nc) {
+      z_[t] = Eigen::VectorXd::Zero(nc);
+      z_relaxed_[t] = Eigen::VectorXd::Zero(nc);
+      z_prev_[t] = Eigen::VectorXd::Zero(nc);
+      y_[t] = Eigen::VectorXd::Zero(nc);
+      tmp_Cdx_Cdu_[t] = Eigen::VectorXd::Zero(nc);
+      tmp_dual_cwise_[t] = Eigen::VectorXd::Zero(nc);
+      tmp_rhoGx_mat_[t] = Eigen::MatrixXd::Zero(nc, ndx);
+      rho_vec_[t].resize(nc);
+      inv_rho_vec_[t].resize(nc);
+    }
+  }
+  STOP_PROFILER("SolverCSQP::resizeData");
+}
+
 void SolverCSQP::reset_params() {
   if (reset_rho_) {
     reset_rho_vec();
-- 
2.43.0


From 4caf574f0c763f8ad26155a612412d65c7a575b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:25 +0000
Subject: [PATCH 12/36] fix: SolverPROXQP resizes its QP when the problem's
 models change

---
 include/mim_solvers/csqp_proxqp.hpp |  2 ++
 src/csqp_proxqp.cpp                 | 38 +++++++++++++++++++++++++++++
 2 files changed, 40 insertions(+)

diff --git a/include/mim_solvers/csqp_proxqp.hpp b/include/mim_solvers/csqp_proxqp.hpp
index 9017015..620fef7 100644
--- a/include/mim_solvers/csqp_proxqp.hpp
+++ b/include/mim_solvers/csqp_proxqp.hpp
@@ -108,6 +108,8 @@ class SolverPROXQP : public SolverDDP {
 
   virtual void calc(const bool recalc = true);
 
+  virtual void resizeData();
+
   // virtual void set_constraints(const
   // std::vector<std::shared_ptr<ConstraintModelAbstract>>& constraint_models){
   //   constraint_models_ = constraint_models;
diff --git a/src/csqp_proxqp.cpp b/src/csqp_proxqp.cpp
index 246029f..cd13214 100644
--- a/src/csqp_proxqp.cpp
+++ b/src/csqp_proxqp.cpp
@@ -142,6 +142,44 @@ SolverPROXQP::SolverPROXQP(std::shared_ptr<crocoddyl::ShootingProblem> problem)
 
 SolverPROXQP::~SolverPROXQP() {}
 
+void SolverPROXQP::resizeData() {
+  START_PROFILER("SolverPROXQP::resizeData");
+  SolverDDP::resizeData();
+
+  const std::size_t T = problem_->get_T();
+  const std::vector<std::shared_ptr<ActionModelAbstract> >& models =
+      problem_->get_runningModels();
+  n_vars = n_eq;
+  n_in = 0;
+  for (std::size_t t = 0; t < T + 1; ++t) {
+    const std::shared_ptr<ActionModelAbstract>& model =
+        t < T ? models[t] : problem_->get_terminalModel();
+    const int nc = static_cast<int>(model->get_ng());
+    if (t < T) {
+      const int nu = static_cast<int>(model->get_nu());
+      if (du_[t].size() != nu) {
+        du_[t] = Eigen::VectorXd::Zero(nu);
+      }
+      n_vars += nu;
+    }
+    if (y_[t].size() != nc) {
+      y_[t] = Eigen::VectorXd::Zero(nc);
+    }
+    n_in += nc;
+  }
+  // The blocks move with the dimensions of the nodes
+  P_.setZero(n_vars, n_vars);
+  q_.setZero(n_vars);
+  A_.setZero(n_eq, n_vars);
+  C_.setZero(n_in, n_vars);
+  l_.setZero(n_in);
+  u_.setZero(n_in);
+  Psp_.resize(n_vars, n_vars);
+  Asp_.resize(n_eq, n_vars);
+  Csp_.resize(n_in, n_vars);
+  STOP_PROFILER("SolverPROXQP::resizeData");
+}
+
 bool SolverPROXQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
                          const std::vector<Eigen::VectorXd>& init_us,
                          const std::size_t maxiter, const bool is_feasible,
-- 
2.43.0


From ea8284f54f04c76bdaf82625d1ee3cbeb2cc00f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:25 +0000
Subject: [PATCH 13/36] fix: set_alphas rejects an empty list and a
 non-positive first value

---
 src/ddp.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ddp.cpp b/src/ddp.cpp
index cb24fd1..e68d863 100644
--- a/src/ddp.cpp
+++ b/src/ddp.cpp
@@ -602,7 +602,13 @@ void SolverDDP::set_regmax(const double regmax) {
 }
 
 void SolverDDP::set_alphas(const std::vector<double>& alphas) {
+  if (alphas.empty()) {
+    throw_pretty("Invalid argument: " << "alphas cannot be empty.");
+  }
   double prev_alpha = alphas[0];
+  if (0. >= prev_alpha) {
+    throw_pretty("Invalid argument: " << "alpha values has to be positive.");
+  }
   if (prev_alpha != 1.) {
     std::cerr << "Warning: alpha[0] should be 1" << std::endl;
   }
-- 
2.43.0


From 9a4050e8773184502326f992557c4f667cce620a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:44 +0000
Subject: [PATCH 14/36] fix: a trial point with NaN dynamics or constraints is
 rejected

---
 src/csqp.cpp        | 16 +++++++++++-----
 src/csqp_proxqp.cpp |  5 +++--
 src/sqp.cpp         |  4 ++--
 3 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/csqp.cpp b/src/csqp.cpp
index d594164..affe5fc 100644
--- a/src/csqp.cpp
+++ b/src/csqp.cpp
@@ -1441,13 +1441,19 @@ double SolverCSQP::tryStep(const double steplength) {
         (m->get_g_lb() - d->g).cwiseMax(Eigen::VectorXd::Zero(nc)).lpNorm<1>();
     constraint_norm_try_ +=
         (d->g - m->get_g_ub()).cwiseMax(Eigen::VectorXd::Zero(nc)).lpNorm<1>();
-
-    if (raiseIfNaN(cost_try_)) {
-      profiler_tryStep.stop();
-      throw_pretty("step_error");
+    // The maximum with zero may drop a NaN of the constraints
+    if (d->g.hasNaN()) {
+      constraint_norm_try_ += std::numeric_limits<double>::quiet_NaN();
     }
   }
 
+  // An exception must not leave the parallel loop
+  if (raiseIfNaN(cost_try_) || raiseIfNaN(gap_norm_try_) ||
+      raiseIfNaN(constraint_norm_try_)) {
+    profiler_tryStep.stop();
+    throw_pretty("step_error");
+  }
+
   // Terminal state update
   m_ter->calc(d_ter, xs_try_.back());
   cost_try_ += d_ter->cost;
@@ -1470,7 +1476,7 @@ double SolverCSQP::tryStep(const double steplength) {
                  mu_constraint_ * constraint_norm_try_;
   }
 
-  if (raiseIfNaN(cost_try_)) {
+  if (raiseIfNaN(cost_try_) || d_ter->g.hasNaN()) {
     profiler_tryStep.stop();
     throw_pretty("step_error");
   }
diff --git a/src/csqp_proxqp.cpp b/src/csqp_proxqp.cpp
index cd13214..25ca2d3 100644
--- a/src/csqp_proxqp.cpp
+++ b/src/csqp_proxqp.cpp
@@ -541,7 +541,8 @@ double SolverPROXQP::tryStep(const double steplength) {
     constraint_norm_try_ +=
         (d->g - ub).cwiseMax(Eigen::VectorXd::Zero(nc)).lpNorm<1>();
 
-    if (raiseIfNaN(cost_try_)) {
+    // The maximum with zero may drop a NaN of the constraints
+    if (raiseIfNaN(cost_try_) || raiseIfNaN(gap_norm_try_) || d->g.hasNaN()) {
       STOP_PROFILER("SolverPROXQP::tryStep");
       throw_pretty("step_error");
     }
@@ -566,7 +567,7 @@ double SolverPROXQP::tryStep(const double steplength) {
   merit_try_ = cost_try_ + mu_dynamic_ * gap_norm_try_ +
                mu_constraint_ * constraint_norm_try_;
 
-  if (raiseIfNaN(cost_try_)) {
+  if (raiseIfNaN(cost_try_) || d_ter->g.hasNaN()) {
     STOP_PROFILER("SolverPROXQP::tryStep");
     throw_pretty("step_error");
   }
diff --git a/src/sqp.cpp b/src/sqp.cpp
index 61b64ac..c62f659 100644
--- a/src/sqp.cpp
+++ b/src/sqp.cpp
@@ -348,7 +348,7 @@ double SolverSQP::tryStep(const double steplength) {
       gap_norm_try_ += fs_try_[t - 1].lpNorm<1>();
     }
 
-    if (raiseIfNaN(cost_try_)) {
+    if (raiseIfNaN(cost_try_) || raiseIfNaN(gap_norm_try_)) {
       STOP_PROFILER("SolverSQP::tryStep");
       throw_pretty("step_error");
     }
@@ -372,7 +372,7 @@ double SolverSQP::tryStep(const double steplength) {
 
   merit_try_ = cost_try_ + mu_dynamic_ * gap_norm_try_;
 
-  if (raiseIfNaN(cost_try_)) {
+  if (raiseIfNaN(cost_try_) || raiseIfNaN(gap_norm_try_)) {
     STOP_PROFILER("SolverSQP::tryStep");
     throw_pretty("step_error");
   }
-- 
2.43.0


From 9ca03f4dc349fe89fb6f6bbb44a3e5d269df3cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:41 +0000
Subject: [PATCH 15/36] fix: SolverPROXQP gives up on a QP whose data are not
 finite

---
 src/csqp_proxqp.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/csqp_proxqp.cpp b/src/csqp_proxqp.cpp
index 25ca2d3..5e187b9 100644
--- a/src/csqp_proxqp.cpp
+++ b/src/csqp_proxqp.cpp
@@ -404,6 +404,13 @@ void SolverPROXQP::computeDirection(const bool recalcDiff) {
   }
   checkKKTConditions();
 
+  // ProxQP does not stop early on data that are not finite
+  if (!P_.allFinite() || !q_.allFinite() || !A_.allFinite() ||
+      !b_.allFinite() || !C_.allFinite() || l_.hasNaN() || u_.hasNaN()) {
+    STOP_PROFILER("SolverPROXQP::computeDirection");
+    throw_pretty("direction_error");
+  }
+
   // proxsuite::proxqp::dense::QP<double> qp_(n_vars, n_eq, n_in);
   // qp_.init(P_, q_, A_, b_, C_, l_, u_);
 
-- 
2.43.0


From 587d0591ed583023c84a39ef11812215ea39a24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:53 +0000
Subject: [PATCH 16/36] fix: SolverFDDP judges a trial by its own gaps

---
 src/fddp.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/fddp.cpp b/src/fddp.cpp
index 0f7f542..2cced44 100644
--- a/src/fddp.cpp
+++ b/src/fddp.cpp
@@ -310,9 +310,6 @@ void SolverFDDP::forwardPass(const double steplength) {
       xnext_ = d->xnext;
       cost_try_ += d->cost;
 
-      m->get_state()->diff(xs_try_[t], d->xnext, fs_try_[t]);
-      gap_norm_try_ += fs_try_[t].lpNorm<1>();
-
       if (raiseIfNaN(cost_try_)) {
         STOP_PROFILER("SolverFDDP::forwardPass");
         throw_pretty("forward_error");
@@ -342,6 +339,8 @@ void SolverFDDP::forwardPass(const double steplength) {
       const std::size_t nu = m->get_nu();
       lag_mul_[t].noalias() = Vxx_[t] * (dx_[t] - fs_[t]) + Vx_[t];
       m->get_state()->integrate(xnext_, fs_[t] * (steplength - 1), xs_try_[t]);
+      m->get_state()->diff(xs_try_[t], xnext_, fs_try_[t]);
+      gap_norm_try_ += fs_try_[t].lpNorm<1>();
       m->get_state()->diff(xs_[t], xs_try_[t], dx_[t]);
       if (nu != 0) {
         us_try_[t].noalias() = us_[t] - k_[t] * steplength - K_[t] * dx_[t];
@@ -352,9 +351,6 @@ void SolverFDDP::forwardPass(const double steplength) {
       xnext_ = d->xnext;
       cost_try_ += d->cost;
 
-      m->get_state()->diff(xs_try_[t], d->xnext, fs_try_[t]);
-      gap_norm_try_ += fs_try_[t].lpNorm<1>();
-
       if (raiseIfNaN(cost_try_)) {
         STOP_PROFILER("SolverFDDP::forwardPass");
         throw_pretty("forward_error");
@@ -371,6 +367,8 @@ void SolverFDDP::forwardPass(const double steplength) {
     lag_mul_.back() = Vxx_.back() * (dx_.back() - fs_.back()) + Vx_.back();
     m->get_state()->integrate(xnext_, fs_.back() * (steplength - 1),
                               xs_try_.back());
+    m->get_state()->diff(xs_try_.back(), xnext_, fs_try_.back());
+    gap_norm_try_ += fs_try_.back().lpNorm<1>();
     m->calc(d, xs_try_.back());
     cost_try_ += d->cost;
 
-- 
2.43.0


From 2b0196690a0cf156a4dbff6ec0298d1c2d197406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:31 +0000
Subject: [PATCH 17/36] fix: success is not reported on a NaN cost or residual

---
 src/csqp.cpp        |  7 +++++++
 src/csqp_proxqp.cpp | 30 +++++++++++++++++-------------
 src/sqp.cpp         |  7 +++++++
 3 files changed, 31 insertions(+), 13 deletions(-)

diff --git a/src/csqp.cpp b/src/csqp.cpp
index affe5fc..ecae7b4 100644
--- a/src/csqp.cpp
+++ b/src/csqp.cpp
@@ -629,6 +629,7 @@ void SolverCSQP::computeMerit() {
 
 void SolverCSQP::checkKKTConditions() {
   KKT_ = 0.;
+  double nan_check = cost_ + constraint_norm_;
   const std::size_t T = problem_->get_T();
   x_grad_norm_ = 0.;
   u_grad_norm_ = 0.;
@@ -654,6 +655,7 @@ void SolverCSQP::checkKKTConditions() {
     tmp_vec_u_[t].noalias() += d->Fu.transpose() * lag_mul_[t + 1];
     tmp_vec_u_[t].noalias() += d->Gu.transpose() * y_[t];
     KKT_ = std::max(KKT_, tmp_vec_u_[t].lpNorm<Eigen::Infinity>());
+    nan_check += tmp_vec_x_.sum() + tmp_vec_u_[t].sum();
     fs_flat_.segment(t * ndx, ndx) = fs_[t];
     x_grad_norm_ += dxtilde_[t].lpNorm<1>();
     u_grad_norm_ += dutilde_[t].lpNorm<1>();
@@ -668,6 +670,11 @@ void SolverCSQP::checkKKTConditions() {
   KKT_ = std::max(KKT_, tmp_vec_x_.lpNorm<Eigen::Infinity>());
   KKT_ = std::max(KKT_, fs_flat_.lpNorm<Eigen::Infinity>());
   KKT_ = std::max(KKT_, constraint_norm_);
+  nan_check += tmp_vec_x_.sum() + fs_flat_.sum();
+  // The maximum ignores NaN
+  if (!std::isfinite(nan_check)) {
+    KKT_ = std::numeric_limits<double>::infinity();
+  }
   x_grad_norm_ += dxtilde_.back().lpNorm<1>();
   x_grad_norm_ = x_grad_norm_ / static_cast<double>(T + 1);
   u_grad_norm_ = u_grad_norm_ / static_cast<double>(T);
diff --git a/src/csqp_proxqp.cpp b/src/csqp_proxqp.cpp
index 5e187b9..8f102dd 100644
--- a/src/csqp_proxqp.cpp
+++ b/src/csqp_proxqp.cpp
@@ -471,30 +471,34 @@ void SolverPROXQP::checkKKTConditions() {
   const std::vector<std::shared_ptr<ActionDataAbstract> >& datas =
       problem_->get_runningDatas();
   KKT_ = 0;
+  // The maximum ignores NaN, the sum does not
+  double nan_check = cost_ + constraint_norm_;
+  const auto add_row = [&](const Eigen::VectorXd& row) {
+    KKT_ = std::max(KKT_, row.lpNorm<Eigen::Infinity>());
+    nan_check += row.sum();
+  };
   for (std::size_t t = 0; t < T; ++t) {
     const std::shared_ptr<ActionDataAbstract>& d = datas[t];
     fs_flat_.segment(t * ndx, ndx) = fs_[t + 1];
     if (t == 0) {
-      KKT_ = std::max(KKT_, (d->Lu + d->Fu.transpose() * lag_mul_[t + 1] +
-                             d->Gu.transpose() * y_[t])
-                                .lpNorm<Eigen::Infinity>());
+      add_row(d->Lu + d->Fu.transpose() * lag_mul_[t + 1] +
+              d->Gu.transpose() * y_[t]);
       continue;
     }
-    KKT_ = std::max(KKT_, (d->Lx + d->Fx.transpose() * lag_mul_[t + 1] -
-                           lag_mul_[t] + d->Gx.transpose() * y_[t])
-                              .lpNorm<Eigen::Infinity>());
-    KKT_ = std::max(KKT_, (d->Lu + d->Fu.transpose() * lag_mul_[t + 1] +
-                           d->Gu.transpose() * y_[t])
-                              .lpNorm<Eigen::Infinity>());
+    add_row(d->Lx + d->Fx.transpose() * lag_mul_[t + 1] - lag_mul_[t] +
+            d->Gx.transpose() * y_[t]);
+    add_row(d->Lu + d->Fu.transpose() * lag_mul_[t + 1] +
+            d->Gu.transpose() * y_[t]);
   }
   const std::shared_ptr<ActionDataAbstract>& d_ter =
       problem_->get_terminalData();
-  KKT_ = std::max(
-      KKT_, (d_ter->Lx - lag_mul_.back() + d_ter->Gx.transpose() * y_.back())
-                .lpNorm<Eigen::Infinity>());
+  add_row(d_ter->Lx - lag_mul_.back() + d_ter->Gx.transpose() * y_.back());
 
-  KKT_ = std::max(KKT_, fs_flat_.lpNorm<Eigen::Infinity>());
+  add_row(fs_flat_);
   KKT_ = std::max(KKT_, constraint_norm_);
+  if (!std::isfinite(nan_check)) {
+    KKT_ = std::numeric_limits<double>::infinity();
+  }
 }
 
 double SolverPROXQP::tryStep(const double steplength) {
diff --git a/src/sqp.cpp b/src/sqp.cpp
index c62f659..eab8f4e 100644
--- a/src/sqp.cpp
+++ b/src/sqp.cpp
@@ -252,6 +252,7 @@ void SolverSQP::computeDirection(const bool recalcDiff) {
 
 void SolverSQP::checkKKTConditions() {
   KKT_ = 0.;
+  double nan_check = cost_;
   const std::size_t T = problem_->get_T();
   const std::size_t ndx = problem_->get_ndx();
   const std::vector<std::shared_ptr<ActionDataAbstract> >& datas =
@@ -265,6 +266,7 @@ void SolverSQP::checkKKTConditions() {
     tmp_vec_u_[t].noalias() += d->Fu.transpose() * lag_mul_[t + 1];
     KKT_ = std::max(KKT_, tmp_vec_x_.lpNorm<Eigen::Infinity>());
     KKT_ = std::max(KKT_, tmp_vec_u_[t].lpNorm<Eigen::Infinity>());
+    nan_check += tmp_vec_x_.sum() + tmp_vec_u_[t].sum();
     fs_flat_.segment(t * ndx, ndx) = fs_[t];
   }
   fs_flat_.tail(ndx) = fs_.back();
@@ -274,6 +276,11 @@ void SolverSQP::checkKKTConditions() {
   tmp_vec_x_ -= lag_mul_.back();
   KKT_ = std::max(KKT_, tmp_vec_x_.lpNorm<Eigen::Infinity>());
   KKT_ = std::max(KKT_, fs_flat_.lpNorm<Eigen::Infinity>());
+  nan_check += tmp_vec_x_.sum() + fs_flat_.sum();
+  // The maximum ignores NaN
+  if (!std::isfinite(nan_check)) {
+    KKT_ = std::numeric_limits<double>::infinity();
+  }
 }
 
 void SolverSQP::forwardPass(const double stepLength) {
-- 
2.43.0


From 0eae61d48255e251d281d6e8679bd4edca098261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:18 +0000
Subject: [PATCH 18/36] fix: SolverCSQP does not keep a NaN solution of the QP
 as warm start

---
 include/mim_solvers/csqp.hpp |  5 +++++
 src/csqp.cpp                 | 32 ++++++++++++++++++++++++++++++++
 2 files changed, 37 insertions(+)

diff --git a/include/mim_solvers/csqp.hpp b/include/mim_solvers/csqp.hpp
index 63068fd..e09cc16 100644
--- a/include/mim_solvers/csqp.hpp
+++ b/include/mim_solvers/csqp.hpp
@@ -246,6 +246,11 @@ class SolverCSQP : public SolverDDP {
   };
 
   void update_lagrangian_parameters(const int iter);
+  /**
+   * @brief Throws if the current solution of the QP is not finite, after
+   * clearing it
+   */
+  void checkQPSolution();
   void set_rho_sparse(const double rho_sparse) { rho_sparse_ = rho_sparse; };
   void update_rho_vec(const int iter);
   void apply_rho_update(const double rho_sparse);
diff --git a/src/csqp.cpp b/src/csqp.cpp
index ecae7b4..63f3ba0 100644
--- a/src/csqp.cpp
+++ b/src/csqp.cpp
@@ -459,6 +459,10 @@ void SolverCSQP::calc(const bool recalc) {
         (m->get_g_lb() - d->g).cwiseMax(Eigen::VectorXd::Zero(nc)).lpNorm<1>();
     constraint_norm_ +=
         (d->g - m->get_g_ub()).cwiseMax(Eigen::VectorXd::Zero(nc)).lpNorm<1>();
+    // The maximum with zero may drop a NaN of the constraints
+    if (d->g.hasNaN()) {
+      constraint_norm_ += std::numeric_limits<double>::quiet_NaN();
+    }
   }
 
   const std::shared_ptr<crocoddyl::ActionDataAbstract>& d_T =
@@ -471,6 +475,9 @@ void SolverCSQP::calc(const bool recalc) {
   constraint_norm_ += (d_T->g - problem_->get_terminalModel()->get_g_ub())
                           .cwiseMax(Eigen::VectorXd::Zero(nc))
                           .lpNorm<1>();
+  if (d_T->g.hasNaN()) {
+    constraint_norm_ += std::numeric_limits<double>::quiet_NaN();
+  }
 }
 
 void SolverCSQP::computeDirection(const bool /*recalcDiff*/) {
@@ -512,6 +519,7 @@ void SolverCSQP::computeDirection(const bool /*recalcDiff*/) {
         backwardPass_without_rho_update();
     }
     forwardPass();
+    checkQPSolution();
     update_lagrangian_parameters(qp_iters_);
     update_rho_vec(qp_iters_);
 
@@ -537,11 +545,35 @@ void SolverCSQP::computeDirection(const bool /*recalcDiff*/) {
   if (qp_iters_ > max_qp_iters_) {
     qp_iters_ = max_qp_iters_;
   }
+  checkQPSolution();
 
   STOP_PROFILER("SolverCSQP::computeDirection");
   // MIM_SOLVERS_EIGEN_MALLOC_ALLOWED();
 }
 
+void SolverCSQP::checkQPSolution() {
+  const std::size_t T = problem_->get_T();
+  bool finite = !std::isnan(constraint_norm_);
+  for (std::size_t t = 0; t < T && finite; ++t) {
+    finite = dxtilde_[t + 1].allFinite() && dutilde_[t].allFinite() &&
+             y_[t].allFinite();
+  }
+  if (finite && y_.back().allFinite()) {
+    return;
+  }
+  // Do not let NaN survive in the variables that warm start the next QP
+  for (std::size_t t = 0; t < T + 1; ++t) {
+    dx_[t].setZero();
+    dxtilde_[t].setZero();
+    y_[t].setZero();
+  }
+  for (std::size_t t = 0; t < T; ++t) {
+    du_[t].setZero();
+    dutilde_[t].setZero();
+  }
+  throw_pretty("direction_error");
+}
+
 void SolverCSQP::update_rho_vec(const int iter) {
   const double scale = std::sqrt((norm_primal_ * norm_dual_rel_) /
                                  (norm_dual_ * norm_primal_rel_));
-- 
2.43.0


From 1c140f7b4ed8f4b7ed87624b8e6a3bb8964704af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:27 +0000
Subject: [PATCH 19/36] fix: SolverDDP and SolverFDDP do not judge a solve by
 the multipliers of the last one

---
 src/ddp.cpp  | 7 +++++++
 src/fddp.cpp | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/ddp.cpp b/src/ddp.cpp
index e68d863..b37f59a 100644
--- a/src/ddp.cpp
+++ b/src/ddp.cpp
@@ -79,6 +79,13 @@ bool SolverDDP::solve(const std::vector<Eigen::VectorXd>& init_xs,
     dreg_ = reginit;
   }
   was_feasible_ = false;
+  // The termination test uses these before they are computed
+  for (Eigen::VectorXd& lag_mul : lag_mul_) {
+    lag_mul.setZero();
+  }
+  for (Eigen::VectorXd& dx : dx_) {
+    dx.setZero();
+  }
 
   bool recalcDiff = true;
   for (iter_ = 0; iter_ < maxiter; ++iter_) {
diff --git a/src/fddp.cpp b/src/fddp.cpp
index 2cced44..64effd8 100644
--- a/src/fddp.cpp
+++ b/src/fddp.cpp
@@ -74,6 +74,13 @@ bool SolverFDDP::solve(const std::vector<Eigen::VectorXd>& init_xs,
     dreg_ = reginit;
   }
   was_feasible_ = false;
+  // The termination test uses these before they are computed
+  for (Eigen::VectorXd& lag_mul : lag_mul_) {
+    lag_mul.setZero();
+  }
+  for (Eigen::VectorXd& dx : dx_) {
+    dx.setZero();
+  }
   bool recalcDiff = true;
   for (iter_ = 0; iter_ < maxiter; ++iter_) {
     while (true) {
-- 
2.43.0


From d38e076644f5ce26562601c992b5352ee97e926e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:36 +0000
Subject: [PATCH 20/36] fix: SolverDDP and SolverFDDP repeat a failing
 derivative evaluation

---
 include/mim_solvers/csqp_proxqp.hpp | 2 --
 include/mim_solvers/ddp.hpp         | 2 ++
 include/mim_solvers/sqp.hpp         | 2 --
 src/ddp.cpp                         | 4 +++-
 src/fddp.cpp                        | 4 +++-
 5 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/mim_solvers/csqp_proxqp.hpp b/include/mim_solvers/csqp_proxqp.hpp
index 620fef7..c8b872f 100644
--- a/include/mim_solvers/csqp_proxqp.hpp
+++ b/include/mim_solvers/csqp_proxqp.hpp
@@ -264,8 +264,6 @@ class SolverPROXQP : public SolverDDP {
   Eigen::VectorXd dual_vecu;
   bool is_worse_than_memory_ =
       false;  //!< Boolean for filter line-search criteria
-  bool derivatives_ready_ =
-      false;  //!< Whether the last derivative pass ran to its end
 };
 
 }  // namespace mim_solvers
diff --git a/include/mim_solvers/ddp.hpp b/include/mim_solvers/ddp.hpp
index 8311a03..c418ceb 100644
--- a/include/mim_solvers/ddp.hpp
+++ b/include/mim_solvers/ddp.hpp
@@ -374,6 +374,8 @@ class SolverDDP : public crocoddyl::SolverAbstract {
       xs_try_;  //!< State trajectory computed by line-search procedure
   std::vector<Eigen::VectorXd>
       us_try_;  //!< Control trajectory computed by line-search procedure
+  bool derivatives_ready_ =
+      false;  //!< Whether the last derivative pass ran to its end
   std::vector<Eigen::VectorXd>
       dx_;  //!< State error during the roll-out/forward-pass (size T)
 
diff --git a/include/mim_solvers/sqp.hpp b/include/mim_solvers/sqp.hpp
index 61bdbc7..be65516 100644
--- a/include/mim_solvers/sqp.hpp
+++ b/include/mim_solvers/sqp.hpp
@@ -189,8 +189,6 @@ class SolverSQP : public SolverDDP {
                              //!< direction
   bool is_worse_than_memory_ =
       false;                   //!< Boolean for filter line-search criteria
-  bool derivatives_ready_ =
-      false;  //!< Whether the last derivative pass ran to its end
   Eigen::VectorXd tmp_vec_x_;  //!< Temporary variable
   std::vector<Eigen::VectorXd> tmp_vec_u_;  //!< Temporary variable
 };
diff --git a/src/ddp.cpp b/src/ddp.cpp
index b37f59a..c58b166 100644
--- a/src/ddp.cpp
+++ b/src/ddp.cpp
@@ -93,7 +93,7 @@ bool SolverDDP::solve(const std::vector<Eigen::VectorXd>& init_xs,
       try {
         computeDirection(recalcDiff);
       } catch (std::exception& e) {
-        recalcDiff = false;
+        recalcDiff = !derivatives_ready_;
         increaseRegularization();
         if (preg_ == reg_max_) {
           return false;
@@ -168,7 +168,9 @@ bool SolverDDP::solve(const std::vector<Eigen::VectorXd>& init_xs,
 void SolverDDP::computeDirection(const bool recalcDiff) {
   START_PROFILER("SolverDDP::computeDirection");
   if (recalcDiff) {
+    derivatives_ready_ = false;
     calcDiff();
+    derivatives_ready_ = true;
   }
   backwardPass();
   STOP_PROFILER("SolverDDP::computeDirection");
diff --git a/src/fddp.cpp b/src/fddp.cpp
index 64effd8..f704d51 100644
--- a/src/fddp.cpp
+++ b/src/fddp.cpp
@@ -87,7 +87,7 @@ bool SolverFDDP::solve(const std::vector<Eigen::VectorXd>& init_xs,
       try {
         computeDirection(recalcDiff);
       } catch (std::exception& e) {
-        recalcDiff = false;
+        recalcDiff = !derivatives_ready_;
         increaseRegularization();
         if (preg_ == reg_max_) {
           return false;
@@ -196,7 +196,9 @@ bool SolverFDDP::solve(const std::vector<Eigen::VectorXd>& init_xs,
 void SolverFDDP::computeDirection(const bool recalcDiff) {
   START_PROFILER("SolverFDDP::computeDirection");
   if (recalcDiff) {
+    derivatives_ready_ = false;
     calcDiff();
+    derivatives_ready_ = true;
   }
 
   gap_norm_ = 0;
-- 
2.43.0


From 5b928c2ab207fbb8f8362515a5558cd5427d4e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:59 +0000
Subject: [PATCH 21/36] fix: the extra KKT iteration of SolverCSQP respects the
 time budget

---
 src/csqp.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/csqp.cpp b/src/csqp.cpp
index 63f3ba0..b248d73 100644
--- a/src/csqp.cpp
+++ b/src/csqp.cpp
@@ -387,6 +387,10 @@ bool SolverCSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
   }
 
   // If reached max iter and timeout not reached, still compute KKT residual
+  if (extra_iteration_for_last_kkt_ && !max_solve_time_reached_ &&
+      crocoddyl::getProfiler().take_time() - start_time_ >= max_solve_time_) {
+    max_solve_time_reached_ = true;
+  }
   if (extra_iteration_for_last_kkt_ && !max_solve_time_reached_) {
     // Compute gradients
     calc(true);
@@ -410,6 +414,11 @@ bool SolverCSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
         break;
       }
     }
+    // The time ran out before the direction: there is nothing to judge
+    if (qp_iters_ == 0) {
+      STOP_PROFILER("SolverCSQP::solve");
+      return false;
+    }
 
     // Check KKT criteria
     checkKKTConditions();
-- 
2.43.0


From 0688ee96a77bdf31c5112f0e85b5187740b589c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:53 +0000
Subject: [PATCH 22/36] fix: SolverKKT does not step along a direction without
 derivatives

After an exception in the derivative evaluation, SolverKKT repeated the
direction with recalc=false, which it then kept for all following iterations:
directions were computed from an empty or outdated KKT system.
---
 src/kkt.cpp | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/kkt.cpp b/src/kkt.cpp
index 7775019..4b3bb71 100644
--- a/src/kkt.cpp
+++ b/src/kkt.cpp
@@ -46,20 +46,13 @@ bool SolverKKT::solve(const std::vector<Eigen::VectorXd>& init_xs,
                       const std::size_t maxiter, const bool is_feasible,
                       const double) {
   setCandidate(init_xs, init_us, is_feasible);
-  bool recalc = true;
   for (iter_ = 0; iter_ < maxiter; ++iter_) {
-    while (true) {
-      try {
-        computeDirection(recalc);
-      } catch (std::exception& e) {
-        recalc = false;
-        if (preg_ == reg_max_) {
-          return false;
-        } else {
-          continue;
-        }
-      }
-      break;
+    try {
+      computeDirection(true);
+    } catch (std::exception& e) {
+      // The derivatives are not available and nothing else can fail: there is
+      // no direction to be found by trying again
+      return false;
     }
 
     expectedImprovement();
-- 
2.43.0


From 8517bb300d3d37312de453a04ad861bb9afec3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:26 +0000
Subject: [PATCH 23/36] fix: SolverCSQP keeps its start time at the precision
 of the clock

---
 include/mim_solvers/csqp.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/mim_solvers/csqp.hpp b/include/mim_solvers/csqp.hpp
index e09cc16..908cb9a 100644
--- a/include/mim_solvers/csqp.hpp
+++ b/include/mim_solvers/csqp.hpp
@@ -364,7 +364,8 @@ class SolverCSQP : public SolverDDP {
   std::vector<Eigen::MatrixXd> tmp_rhoGu_mat_;   //!< Temporary variable
   std::vector<Eigen::VectorXd> Vxx_fs_;          //!< Temporary variable
 
-  double start_time_ = 0.0;  // Time when the solve function was called
+  long double start_time_ =
+      0.0L;  // Time when the solve function was called, as the clock gives it
   bool max_solve_time_reached_ = false;  // Flag indicating solver timedout
   double max_solve_time_ =
       std::numeric_limits<double>::infinity();  // Maximum time in seconds used
-- 
2.43.0


From a93ae2015cff7d0f56d2f9ba45c0fc2d08c98467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:59 +0000
Subject: [PATCH 24/36] fix: CallbackVerbose refuses a solver that is not of
 the announced type

---
 src/utils/callbacks.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/utils/callbacks.cpp b/src/utils/callbacks.cpp
index 07af0b2..d7fc106 100644
--- a/src/utils/callbacks.cpp
+++ b/src/utils/callbacks.cpp
@@ -78,6 +78,12 @@ void CallbackVerbose::operator()(crocoddyl::SolverAbstract& solver) {
 
 void CallbackVerbose::operator()(crocoddyl::SolverAbstract& solver,
                                  std::string solver_type) {
+  // SolverDDP and SolverFDDP announce themselves as "SQP" but lack its members
+  SolverCSQP* const csqp = dynamic_cast<SolverCSQP*>(&solver);
+  SolverSQP* const sqp = dynamic_cast<SolverSQP*>(&solver);
+  if ((solver_type == "CSQP" && !csqp) || (solver_type == "SQP" && !sqp)) {
+    throw_pretty("The solver type is not supported.");
+  }
   if (solver.get_iter() % 10 == 0) {
     update_header(solver_type);
     std::cout << header_ << std::endl;
@@ -85,7 +91,7 @@ void CallbackVerbose::operator()(crocoddyl::SolverAbstract& solver,
 
   std::cout << std::setw(4) << solver.get_iter() << separator_;  // iter
   if (solver_type == "CSQP") {
-    SolverCSQP& solver_cast = static_cast<SolverCSQP&>(solver);
+    SolverCSQP& solver_cast = *csqp;
     if (solver_cast.get_KKT() < solver_cast.get_termination_tolerance()) {
       std::cout << std::scientific << std::setprecision(precision_)
                 << solver_cast.get_merit() << separator_;  // merit
@@ -132,7 +138,7 @@ void CallbackVerbose::operator()(crocoddyl::SolverAbstract& solver,
                 << solver_cast.get_qp_iters() << separator_;  // QP iters
     }
   } else if (solver_type == "SQP") {
-    SolverSQP& solver_cast = static_cast<SolverSQP&>(solver);
+    SolverSQP& solver_cast = *sqp;
     if (solver_cast.get_KKT() < solver_cast.get_termination_tolerance()) {
       std::cout << std::scientific << std::setprecision(precision_)
                 << solver_cast.get_merit() << separator_;  // merit
-- 
2.43.0


From 8fce0f6e1b42c55634bafdec26a8e4c2b342cf19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:59 +0000
Subject: [PATCH 25/36] fix: SolverCSQP does not use the factorization of a
 node without controls

---
 src/csqp.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/csqp.cpp b/src/csqp.cpp
index b248d73..5080aab 100644
--- a/src/csqp.cpp
+++ b/src/csqp.cpp
@@ -1187,8 +1187,10 @@ void SolverCSQP::backwardPass_without_rho_update() {
     }
 
     profiler_k.start();
-    k_[t] = Qu_[t];
-    Quu_llt_[t].solveInPlace(k_[t]);
+    if (nu != 0) {
+      k_[t] = Qu_[t];
+      Quu_llt_[t].solveInPlace(k_[t]);
+    }
     profiler_k.stop();
 
     profiler_Vx.start();
@@ -1280,8 +1282,10 @@ void SolverCSQP::backwardPass_without_rho_update_mt() {
 #pragma omp parallel for num_threads(problem_->get_nthreads())
 #endif  // CROCODDYL_WITH_MULTITHREADING
   for (std::size_t t = 0; t < T; ++t) {
-    k_[t] = Qu_[t];
-    Quu_llt_[t].solveInPlace(k_[t]);
+    if (models[t]->get_nu() != 0) {
+      k_[t] = Qu_[t];
+      Quu_llt_[t].solveInPlace(k_[t]);
+    }
   }
   profiler_mt2.stop();
   profiler_all.stop();
-- 
2.43.0


From 4498d9a70a61270646d3dc67ac8beeaa4352b417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:45 +0000
Subject: [PATCH 26/36] fix: SolverKKT resizes its data when the problem's
 models change

---
 include/mim_solvers/kkt.hpp |  1 +
 src/kkt.cpp                 | 13 +++++++++++++
 2 files changed, 14 insertions(+)

diff --git a/include/mim_solvers/kkt.hpp b/include/mim_solvers/kkt.hpp
index ff8822a..c386a9d 100644
--- a/include/mim_solvers/kkt.hpp
+++ b/include/mim_solvers/kkt.hpp
@@ -39,6 +39,7 @@ class SolverKKT : public crocoddyl::SolverAbstract {
   virtual double tryStep(const double steplength = 1);
   virtual double stoppingCriteria();
   virtual const Eigen::Vector2d& expectedImprovement();
+  virtual void resizeData();
 
   const Eigen::MatrixXd& get_kkt() const;
   const Eigen::VectorXd& get_kktref() const;
diff --git a/src/kkt.cpp b/src/kkt.cpp
index 4b3bb71..70ef5b5 100644
--- a/src/kkt.cpp
+++ b/src/kkt.cpp
@@ -45,6 +45,9 @@ bool SolverKKT::solve(const std::vector<Eigen::VectorXd>& init_xs,
                       const std::vector<Eigen::VectorXd>& init_us,
                       const std::size_t maxiter, const bool is_feasible,
                       const double) {
+  if (problem_->is_updated()) {
+    resizeData();
+  }
   setCandidate(init_xs, init_us, is_feasible);
   for (iter_ = 0; iter_ < maxiter; ++iter_) {
     try {
@@ -301,6 +304,16 @@ void SolverKKT::decreaseRegularization() {
   dreg_ = preg_;
 }
 
+void SolverKKT::resizeData() {
+  // resizeData of the base class leaves new elements of us_ uninitialized
+  for (std::size_t t = 0; t < problem_->get_T(); ++t) {
+    us_[t].conservativeResizeLike(
+        Eigen::VectorXd::Zero(problem_->get_runningModels()[t]->get_nu()));
+  }
+  SolverAbstract::resizeData();
+  allocateData();
+}
+
 void SolverKKT::allocateData() {
   const std::size_t T = problem_->get_T();
   dxs_.resize(T + 1);
-- 
2.43.0


From e4e6b91250ed0ae5e2d974f1dbc31946c75e2ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:45 +0000
Subject: [PATCH 27/36] fix: SolverDDP initializes the data it resizes

---
 src/ddp.cpp | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/ddp.cpp b/src/ddp.cpp
index c58b166..d5ea2e2 100644
--- a/src/ddp.cpp
+++ b/src/ddp.cpp
@@ -238,8 +238,6 @@ const Eigen::Vector2d& SolverDDP::expectedImprovement() {
 
 void SolverDDP::resizeData() {
   START_PROFILER("SolverDDP::resizeData");
-  SolverAbstract::resizeData();
-
   const std::size_t T = problem_->get_T();
   const std::size_t ndx = problem_->get_ndx();
   const std::vector<std::shared_ptr<ActionModelAbstract> >& models =
@@ -247,15 +245,19 @@ void SolverDDP::resizeData() {
   for (std::size_t t = 0; t < T; ++t) {
     const std::shared_ptr<ActionModelAbstract>& model = models[t];
     const std::size_t nu = model->get_nu();
-    Qxu_[t].conservativeResize(ndx, nu);
-    Quu_[t].conservativeResize(nu, nu);
-    Qu_[t].conservativeResize(nu);
-    K_[t].conservativeResize(nu, ndx);
-    k_[t].conservativeResize(nu);
-    us_try_[t].conservativeResize(nu);
-    FuTVxx_p_[t].conservativeResize(nu, ndx);
-    Quuk_[t].conservativeResize(nu);
+    const Eigen::VectorXd zero_u = Eigen::VectorXd::Zero(nu);
+    // Also us_, which resizeData of the base class leaves uninitialized
+    us_[t].conservativeResizeLike(zero_u);
+    Qxu_[t].conservativeResizeLike(Eigen::MatrixXd::Zero(ndx, nu));
+    Quu_[t].conservativeResizeLike(Eigen::MatrixXd::Zero(nu, nu));
+    Qu_[t].conservativeResizeLike(zero_u);
+    K_[t].conservativeResizeLike(MatrixXdRowMajor::Zero(nu, ndx));
+    k_[t].conservativeResizeLike(zero_u);
+    us_try_[t].conservativeResizeLike(zero_u);
+    FuTVxx_p_[t].conservativeResizeLike(MatrixXdRowMajor::Zero(nu, ndx));
+    Quuk_[t].conservativeResizeLike(zero_u);
   }
+  SolverAbstract::resizeData();
   STOP_PROFILER("SolverDDP::resizeData");
 }
 
@@ -504,7 +506,7 @@ void SolverDDP::allocateData() {
 
     FuTVxx_p_[t] = MatrixXdRowMajor::Zero(nu, ndx);
     Quu_llt_[t] = Eigen::LLT<Eigen::MatrixXd>(nu);
-    Quuk_[t] = Eigen::VectorXd(nu);
+    Quuk_[t] = Eigen::VectorXd::Zero(nu);
   }
   Vxx_.back() = Eigen::MatrixXd::Zero(ndx, ndx);
   Vxx_tmp_ = Eigen::MatrixXd::Zero(ndx, ndx);
-- 
2.43.0


From 67e3c1680583432f340f9db6e847b0d4136ce9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:23 +0000
Subject: [PATCH 28/36] fix: SolverCSQP initializes the penalty vector with its
 solver

---
 src/csqp.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/csqp.cpp b/src/csqp.cpp
index 5080aab..3370ef0 100644
--- a/src/csqp.cpp
+++ b/src/csqp.cpp
@@ -154,6 +154,8 @@ SolverCSQP::SolverCSQP(std::shared_ptr<crocoddyl::ShootingProblem> problem)
         "model residual or by setting g_ub and g_lb.")
   }
 
+  reset_rho_vec();
+
   const std::size_t n_alphas = 10;
   alphas_.resize(n_alphas);
   for (std::size_t n = 0; n < n_alphas; ++n) {
@@ -200,6 +202,7 @@ void SolverCSQP::resizeData() {
       inv_rho_vec_[t].resize(nc);
     }
   }
+  apply_rho_update(rho_sparse_);
   STOP_PROFILER("SolverCSQP::resizeData");
 }
 
-- 
2.43.0


From 80781da1d6c974f572ea9ab07dfcaafdf0e568c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:56 +0000
Subject: [PATCH 29/36] fix: keep the profiler out of the parallel loop of CSQP

---
 src/csqp.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/csqp.cpp b/src/csqp.cpp
index 3370ef0..9dc58f9 100644
--- a/src/csqp.cpp
+++ b/src/csqp.cpp
@@ -1310,13 +1310,13 @@ void SolverCSQP::update_lagrangian_parameters(const int iter) {
   const std::vector<std::shared_ptr<crocoddyl::ActionDataAbstract>>& datas =
       problem_->get_runningDatas();
 
+  // The profiler is not thread safe: it must stay out of the parallel loop
+  START_PROFILER("SolverCSQP::update_lagrangian_parameters::update");
 #ifdef CROCODDYL_WITH_MULTITHREADING
 #pragma omp parallel for num_threads(problem_->get_nthreads()) reduction( \
         max : norm_primal_, norm_dual_, norm_primal_rel_, norm_dual_rel_)
 #endif  // CROCODDYL_WITH_MULTITHREADING
   for (std::size_t t = 0; t < T; ++t) {
-    START_PROFILER("SolverCSQP::update_lagrangian_parameters::update");
-
     const std::shared_ptr<crocoddyl::ActionModelAbstract>& m = models[t];
     const std::shared_ptr<crocoddyl::ActionDataAbstract>& d = datas[t];
 
@@ -1381,6 +1381,8 @@ void SolverCSQP::update_lagrangian_parameters(const int iter) {
     }
   }
 
+  STOP_PROFILER("SolverCSQP::update_lagrangian_parameters::update");
+
   dx_.back() = dxtilde_.back();
   const std::shared_ptr<crocoddyl::ActionModelAbstract>& m_T =
       problem_->get_terminalModel();
-- 
2.43.0


From 9fbb7e49117bfefe21fa0a1bfe41588ecc6d5276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:55 +0000
Subject: [PATCH 30/36] fix: computeDirection and tryStep called from Python
 are those of the solver's class

---
 bindings/ddp.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bindings/ddp.cpp b/bindings/ddp.cpp
index 57de420..387c7c3 100644
--- a/bindings/ddp.cpp
+++ b/bindings/ddp.cpp
@@ -21,10 +21,11 @@ namespace mim_solvers {
 namespace bp = boost::python;
 
 BOOST_PYTHON_MEMBER_FUNCTION_OVERLOADS(SolverDDP_solves, SolverDDP::solve, 0, 5)
+// Unqualified names: these are inherited by the other solvers and must call
+// the overriding method
 BOOST_PYTHON_MEMBER_FUNCTION_OVERLOADS(SolverDDP_computeDirections,
-                                       SolverDDP::computeDirection, 0, 1)
-BOOST_PYTHON_MEMBER_FUNCTION_OVERLOADS(SolverDDP_trySteps, SolverDDP::tryStep,
-                                       0, 1)
+                                       computeDirection, 0, 1)
+BOOST_PYTHON_MEMBER_FUNCTION_OVERLOADS(SolverDDP_trySteps, tryStep, 0, 1)
 
 // Wrapper function to handle deprecation warning upon instantiation
 std::shared_ptr<SolverDDP> createSolverDDP(
-- 
2.43.0


From c7a7e88cf7d3ac47d9497bf2bb3b95c668016fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:55 +0000
Subject: [PATCH 31/36] fix: SolverPROXQP shows its own KKT residual and merit
 in Python

---
 bindings/csqp_proxqp.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bindings/csqp_proxqp.cpp b/bindings/csqp_proxqp.cpp
index 0bea304..a4eb0d1 100644
--- a/bindings/csqp_proxqp.cpp
+++ b/bindings/csqp_proxqp.cpp
@@ -87,6 +87,10 @@ void exposeSolverPROXQP() {
                     "Number of QP iterations")
       .add_property("KKT_norm", bp::make_function(&SolverPROXQP::get_KKT),
                     "KKT norm")
+      .add_property("KKT", bp::make_function(&SolverPROXQP::get_KKT),
+                    "KKT residual norm")
+      .add_property("merit", bp::make_function(&SolverPROXQP::get_merit),
+                    "Merit function value")
 
       .add_property("with_callbacks",
                     bp::make_function(&SolverPROXQP::getCallbacks),
-- 
2.43.0


From cf71620730cedb3070cd29956d7fb866fba56898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:10 +0000
Subject: [PATCH 32/36] fix: SolverPROXQP returns the multipliers that certify
 its solution

---
 src/csqp_proxqp.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/csqp_proxqp.cpp b/src/csqp_proxqp.cpp
index 8f102dd..7cc9387 100644
--- a/src/csqp_proxqp.cpp
+++ b/src/csqp_proxqp.cpp
@@ -404,6 +404,22 @@ void SolverPROXQP::computeDirection(const bool recalcDiff) {
   }
   checkKKTConditions();
 
+  // Keep the multipliers that certify a solution: the QP at it may have others,
+  // or be declared infeasible
+  if (KKT_ <= termination_tol_) {
+    for (std::size_t t = 0; t < T; ++t) {
+      dx_[t + 1].setZero();
+      du_[t].setZero();
+    }
+    x_grad_norm_ = 0;
+    u_grad_norm_ = 0;
+    qp_iters_ = 0;
+    norm_primal_ = 0;
+    norm_dual_ = 0;
+    STOP_PROFILER("SolverPROXQP::computeDirection");
+    return;
+  }
+
   // ProxQP does not stop early on data that are not finite
   if (!P_.allFinite() || !q_.allFinite() || !A_.allFinite() ||
       !b_.allFinite() || !C_.allFinite() || l_.hasNaN() || u_.hasNaN()) {
-- 
2.43.0


From a490eddd63c92977fd63638a46276d92fc933336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:26 +0000
Subject: [PATCH 33/36] fix: SolverPROXQP took QPs whose multipliers are not
 complementary for solved

---
 src/csqp_proxqp.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/csqp_proxqp.cpp b/src/csqp_proxqp.cpp
index 7cc9387..fd0411c 100644
--- a/src/csqp_proxqp.cpp
+++ b/src/csqp_proxqp.cpp
@@ -435,6 +435,10 @@ void SolverPROXQP::computeDirection(const bool recalcDiff) {
 
   qp_.settings.eps_abs = eps_abs_;
   qp_.settings.eps_rel = eps_rel_;
+  // Without it a point whose multipliers are not complementary counts as solved
+  qp_.settings.check_duality_gap = true;
+  qp_.settings.eps_duality_gap_abs = eps_abs_;
+  qp_.settings.eps_duality_gap_rel = eps_rel_;
   qp_.settings.max_iter = max_qp_iters_;
   qp_.settings.max_iter_in = max_qp_iters_;
   qp_.solve();
-- 
2.43.0


From 6ccbcf84b46dbed69f860516b9b3078d460b1f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:47 +0000
Subject: [PATCH 34/36] fix: SolverKKT's residual uses the sign of its
 multipliers and includes the gaps

---
 src/kkt.cpp | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/kkt.cpp b/src/kkt.cpp
index 70ef5b5..0ab3559 100644
--- a/src/kkt.cpp
+++ b/src/kkt.cpp
@@ -151,23 +151,21 @@ double SolverKKT::tryStep(const double steplength) {
 void SolverKKT::checkKKTConditions() {
   KKT_ = 0.;
   const std::size_t T = problem_->get_T();
-  const std::size_t ndx = problem_->get_ndx();
   const std::vector<std::shared_ptr<crocoddyl::ActionDataAbstract> >& datas =
       problem_->get_runningDatas();
+  // The multipliers are those of x_{t+1} - f(x_t, u_t) = 0
   for (std::size_t t = 0; t < T; ++t) {
     const std::shared_ptr<crocoddyl::ActionDataAbstract>& d = datas[t];
-    KKT_ = std::max(KKT_,
-                    (d->Lx + d->Fx.transpose() * lambdas_[t + 1] - lambdas_[t])
-                        .lpNorm<Eigen::Infinity>());
-    KKT_ = std::max(KKT_, (d->Lu + d->Fu.transpose() * lambdas_[t + 1])
-                              .lpNorm<Eigen::Infinity>());
-    fs_flat_.segment(t * ndx, ndx) = fs_[t];
+    const Eigen::VectorXd Lx =
+        d->Lx - d->Fx.transpose() * lambdas_[t + 1] + lambdas_[t];
+    const Eigen::VectorXd Lu = d->Lu - d->Fu.transpose() * lambdas_[t + 1];
+    KKT_ = std::max(KKT_, Lx.lpNorm<Eigen::Infinity>());
+    KKT_ = std::max(KKT_, Lu.lpNorm<Eigen::Infinity>());
   }
-  fs_flat_.tail(ndx) = fs_.back();
-  const std::shared_ptr<crocoddyl::ActionDataAbstract>& d_ter =
-      problem_->get_terminalData();
-  KKT_ =
-      std::max(KKT_, (d_ter->Lx - lambdas_.back()).lpNorm<Eigen::Infinity>());
+  const Eigen::VectorXd Lx = problem_->get_terminalData()->Lx + lambdas_.back();
+  KKT_ = std::max(KKT_, Lx.lpNorm<Eigen::Infinity>());
+  // The gaps
+  fs_flat_ = kktref_.tail(ndx_);
   KKT_ = std::max(KKT_, fs_flat_.lpNorm<Eigen::Infinity>());
 }
 
-- 
2.43.0


From d4c246da2d1d94b3c84e60b250ebd30fd5f164e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:56 +0000
Subject: [PATCH 35/36] fix: DDP, FDDP and KKT do not report success on a NaN
 cost or residual

---
 src/ddp.cpp  | 23 ++++++++++++++++-------
 src/fddp.cpp | 23 ++++++++++++++++-------
 src/kkt.cpp  | 12 +++++++++++-
 3 files changed, 43 insertions(+), 15 deletions(-)

diff --git a/src/ddp.cpp b/src/ddp.cpp
index d5ea2e2..be25cd0 100644
--- a/src/ddp.cpp
+++ b/src/ddp.cpp
@@ -14,7 +14,9 @@
 
 #include "mim_solvers/ddp.hpp"
 
+#include <cmath>
 #include <iostream>
+#include <limits>
 
 using namespace crocoddyl;
 
@@ -185,25 +187,32 @@ double SolverDDP::tryStep(const double steplength) {
 
 void SolverDDP::checkKKTConditions() {
   KKT_ = 0.;
+  // The maximum ignores NaN, the sum does not
+  double nan_check = cost_;
   const std::size_t T = problem_->get_T();
   const std::size_t ndx = problem_->get_ndx();
   const std::vector<std::shared_ptr<ActionDataAbstract> >& datas =
       problem_->get_runningDatas();
   for (std::size_t t = 0; t < T; ++t) {
     const std::shared_ptr<ActionDataAbstract>& d = datas[t];
-    KKT_ = std::max(KKT_,
-                    (d->Lx + d->Fx.transpose() * lag_mul_[t + 1] - lag_mul_[t])
-                        .lpNorm<Eigen::Infinity>());
-    KKT_ = std::max(KKT_, (d->Lu + d->Fu.transpose() * lag_mul_[t + 1])
-                              .lpNorm<Eigen::Infinity>());
+    const Eigen::VectorXd Lx =
+        d->Lx + d->Fx.transpose() * lag_mul_[t + 1] - lag_mul_[t];
+    const Eigen::VectorXd Lu = d->Lu + d->Fu.transpose() * lag_mul_[t + 1];
+    KKT_ = std::max(KKT_, Lx.lpNorm<Eigen::Infinity>());
+    KKT_ = std::max(KKT_, Lu.lpNorm<Eigen::Infinity>());
+    nan_check += Lx.sum() + Lu.sum();
     fs_flat_.segment(t * ndx, ndx) = fs_[t];
   }
   fs_flat_.tail(ndx) = fs_.back();
   const std::shared_ptr<ActionDataAbstract>& d_ter =
       problem_->get_terminalData();
-  KKT_ =
-      std::max(KKT_, (d_ter->Lx - lag_mul_.back()).lpNorm<Eigen::Infinity>());
+  const Eigen::VectorXd Lx = d_ter->Lx - lag_mul_.back();
+  KKT_ = std::max(KKT_, Lx.lpNorm<Eigen::Infinity>());
   KKT_ = std::max(KKT_, fs_flat_.lpNorm<Eigen::Infinity>());
+  nan_check += Lx.sum() + fs_flat_.sum();
+  if (!std::isfinite(nan_check)) {
+    KKT_ = std::numeric_limits<double>::infinity();
+  }
 }
 
 double SolverDDP::stoppingCriteria() {
diff --git a/src/fddp.cpp b/src/fddp.cpp
index f704d51..8b222a7 100644
--- a/src/fddp.cpp
+++ b/src/fddp.cpp
@@ -16,7 +16,9 @@
 #include <omp.h>
 #endif  // CROCODDYL_WITH_MULTITHREADING
 
+#include <cmath>
 #include <crocoddyl/core/utils/exception.hpp>
+#include <limits>
 
 #include "mim_solvers/fddp.hpp"
 
@@ -214,25 +216,32 @@ void SolverFDDP::computeDirection(const bool recalcDiff) {
 
 void SolverFDDP::checkKKTConditions() {
   KKT_ = 0.;
+  // The maximum ignores NaN, the sum does not
+  double nan_check = cost_;
   const std::size_t T = problem_->get_T();
   const std::size_t ndx = problem_->get_ndx();
   const std::vector<std::shared_ptr<ActionDataAbstract> >& datas =
       problem_->get_runningDatas();
   for (std::size_t t = 0; t < T; ++t) {
     const std::shared_ptr<ActionDataAbstract>& d = datas[t];
-    KKT_ = std::max(KKT_,
-                    (d->Lx + d->Fx.transpose() * lag_mul_[t + 1] - lag_mul_[t])
-                        .lpNorm<Eigen::Infinity>());
-    KKT_ = std::max(KKT_, (d->Lu + d->Fu.transpose() * lag_mul_[t + 1])
-                              .lpNorm<Eigen::Infinity>());
+    const Eigen::VectorXd Lx =
+        d->Lx + d->Fx.transpose() * lag_mul_[t + 1] - lag_mul_[t];
+    const Eigen::VectorXd Lu = d->Lu + d->Fu.transpose() * lag_mul_[t + 1];
+    KKT_ = std::max(KKT_, Lx.lpNorm<Eigen::Infinity>());
+    KKT_ = std::max(KKT_, Lu.lpNorm<Eigen::Infinity>());
+    nan_check += Lx.sum() + Lu.sum();
     fs_flat_.segment(t * ndx, ndx) = fs_[t];
   }
   fs_flat_.tail(ndx) = fs_.back();
   const std::shared_ptr<ActionDataAbstract>& d_ter =
       problem_->get_terminalData();
-  KKT_ =
-      std::max(KKT_, (d_ter->Lx - lag_mul_.back()).lpNorm<Eigen::Infinity>());
+  const Eigen::VectorXd Lx = d_ter->Lx - lag_mul_.back();
+  KKT_ = std::max(KKT_, Lx.lpNorm<Eigen::Infinity>());
   KKT_ = std::max(KKT_, fs_flat_.lpNorm<Eigen::Infinity>());
+  nan_check += Lx.sum() + fs_flat_.sum();
+  if (!std::isfinite(nan_check)) {
+    KKT_ = std::numeric_limits<double>::infinity();
+  }
 }
 
 const Eigen::Vector2d& SolverFDDP::expectedImprovement() {
diff --git a/src/kkt.cpp b/src/kkt.cpp
index 0ab3559..7b4eff1 100644
--- a/src/kkt.cpp
+++ b/src/kkt.cpp
@@ -14,6 +14,9 @@
 
 #include "mim_solvers/kkt.hpp"
 
+#include <cmath>
+#include <limits>
+
 namespace mim_solvers {
 
 SolverKKT::SolverKKT(std::shared_ptr<crocoddyl::ShootingProblem> problem)
@@ -89,7 +92,7 @@ bool SolverKKT::solve(const std::vector<Eigen::VectorXd>& init_xs,
         callback(*this);
       }
     }
-    if (was_feasible_ && stop_ < th_stop_) {
+    if (was_feasible_ && stop_ < th_stop_ && std::isfinite(KKT_)) {
       return true;
     }
   }
@@ -150,6 +153,8 @@ double SolverKKT::tryStep(const double steplength) {
 
 void SolverKKT::checkKKTConditions() {
   KKT_ = 0.;
+  // The maximum ignores NaN, the sum does not
+  double nan_check = cost_;
   const std::size_t T = problem_->get_T();
   const std::vector<std::shared_ptr<crocoddyl::ActionDataAbstract> >& datas =
       problem_->get_runningDatas();
@@ -161,12 +166,17 @@ void SolverKKT::checkKKTConditions() {
     const Eigen::VectorXd Lu = d->Lu - d->Fu.transpose() * lambdas_[t + 1];
     KKT_ = std::max(KKT_, Lx.lpNorm<Eigen::Infinity>());
     KKT_ = std::max(KKT_, Lu.lpNorm<Eigen::Infinity>());
+    nan_check += Lx.sum() + Lu.sum();
   }
   const Eigen::VectorXd Lx = problem_->get_terminalData()->Lx + lambdas_.back();
   KKT_ = std::max(KKT_, Lx.lpNorm<Eigen::Infinity>());
   // The gaps
   fs_flat_ = kktref_.tail(ndx_);
   KKT_ = std::max(KKT_, fs_flat_.lpNorm<Eigen::Infinity>());
+  nan_check += Lx.sum() + fs_flat_.sum();
+  if (!std::isfinite(nan_check)) {
+    KKT_ = std::numeric_limits<double>::infinity();
+  }
 }
 
 double SolverKKT::stoppingCriteria() {
-- 
2.43.0


From 166c2fbbf9f75acb044abf51d3a6d67fb27cd069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:56 +0000
Subject: [PATCH 36/36] fix: SolverKKT rejects a trial with NaN cost or
 dynamics

---
 src/kkt.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/kkt.cpp b/src/kkt.cpp
index 7b4eff1..b8ea36e 100644
--- a/src/kkt.cpp
+++ b/src/kkt.cpp
@@ -148,6 +148,15 @@ double SolverKKT::tryStep(const double steplength) {
       problem_->get_terminalModel();
   m->get_state()->integrate(xs_[T], steplength * dxs_[T], xs_try_[T]);
   cost_try_ = problem_->calc(xs_try_, us_try_);
+  if (crocoddyl::raiseIfNaN(cost_try_)) {
+    throw_pretty("step_error");
+  }
+  for (const std::shared_ptr<crocoddyl::ActionDataAbstract>& d :
+       problem_->get_runningDatas()) {
+    if (!d->xnext.allFinite()) {
+      throw_pretty("step_error");
+    }
+  }
   return cost_ - cost_try_;
 }
 
-- 
2.43.0

