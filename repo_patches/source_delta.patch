From 99497dcb86d727bc08fa2123d802fb970ddbabb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:06 +0000
Subject: [PATCH 01/37] fix: SolverSQP re-evaluates the problem at the iterate
 after a line search in which every trial was rejected

The next derivatives, cost and gaps were taken from the data of the last
rejected trial point.
---
 src/sqp.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/sqp.cpp b/src/sqp.cpp
index 5333fcb..1a751ab 100644
--- a/src/sqp.cpp
+++ b/src/sqp.cpp
@@ -134,6 +134,7 @@ bool SolverSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
     cost_list_.push_back(cost_);
 
     // We need to recalculate the derivatives when the step length passes
+    bool accepted = false;
     for (std::vector<double>::const_iterator it = alphas_.begin();
          it != alphas_.end(); ++it) {
       steplength_ = *it;
@@ -158,6 +159,7 @@ bool SolverSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
         if (is_worse_than_memory_ == false) {
           setCandidate(xs_try_, us_try_, false);
           recalcDiff = true;
+          accepted = true;
           break;
         }
       }
@@ -166,11 +168,18 @@ bool SolverSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
         if (merit_ > merit_try_) {
           setCandidate(xs_try_, us_try_, false);
           recalcDiff = true;
+          accepted = true;
           break;
         }
       }
     }
 
+    if (!accepted) {
+      // All the trials were rejected: the data still describes the last trial
+      // and has to be evaluated again at the (unchanged) current iterate
+      problem_->calc(xs_, us_);
+    }
+
     if (steplength_ > th_stepdec_) {
       decreaseRegularization();
     }
-- 
2.43.0


From 96aba34a39a181930a573449b7da0ea904dded32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:09 +0000
Subject: [PATCH 02/37] fix: SolverPROXQP places the control columns of the
 constraint Jacobian correctly when nu varies along the horizon

---
 src/csqp_proxqp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csqp_proxqp.cpp b/src/csqp_proxqp.cpp
index 55b11cc..609be37 100644
--- a/src/csqp_proxqp.cpp
+++ b/src/csqp_proxqp.cpp
@@ -308,7 +308,7 @@ void SolverPROXQP::calc(const bool recalc) {
       }
     }
     if (nc != 0) {
-      C_.middleCols(T * nx + (t)*nu, nu).middleRows(nin_count, nc) = d->Gu;
+      C_.middleCols(index_u, nu).middleRows(nin_count, nc) = d->Gu;
       l_.segment(nin_count, nc) = lb - d->g;
       u_.segment(nin_count, nc) = ub - d->g;
     }
-- 
2.43.0


From 85bed7d4a56bef0456f60b32ccd7b3af56fedbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:50 +0000
Subject: [PATCH 03/37] fix: shrinking the filter size no longer leaves stale
 entries in front of the line-search memory

---
 include/mim_solvers/csqp.hpp        | 5 +++++
 include/mim_solvers/csqp_proxqp.hpp | 5 +++++
 include/mim_solvers/sqp.hpp         | 4 ++++
 3 files changed, 14 insertions(+)

diff --git a/include/mim_solvers/csqp.hpp b/include/mim_solvers/csqp.hpp
index 6674528..bdd9d58 100644
--- a/include/mim_solvers/csqp.hpp
+++ b/include/mim_solvers/csqp.hpp
@@ -230,8 +230,13 @@ class SolverCSQP : public SolverDDP {
   };
   void set_filter_size(const std::size_t inFilterSize) {
     filter_size_ = inFilterSize;
+    // resize() alone never shrinks the capacity, and old entries would then be
+    // kept in front of the new ones
+    gap_list_.set_capacity(filter_size_);
     gap_list_.resize(filter_size_);
+    constraint_list_.set_capacity(filter_size_);
     constraint_list_.resize(filter_size_);
+    cost_list_.set_capacity(filter_size_);
     cost_list_.resize(filter_size_);
   };
 
diff --git a/include/mim_solvers/csqp_proxqp.hpp b/include/mim_solvers/csqp_proxqp.hpp
index 03f92cc..2fd4820 100644
--- a/include/mim_solvers/csqp_proxqp.hpp
+++ b/include/mim_solvers/csqp_proxqp.hpp
@@ -167,8 +167,13 @@ class SolverPROXQP : public SolverDDP {
   };
   void set_filter_size(const std::size_t inFilterSize) {
     filter_size_ = inFilterSize;
+    // resize() alone never shrinks the capacity, and old entries would then be
+    // kept in front of the new ones
+    gap_list_.set_capacity(filter_size_);
     gap_list_.resize(filter_size_);
+    constraint_list_.set_capacity(filter_size_);
     constraint_list_.resize(filter_size_);
+    cost_list_.set_capacity(filter_size_);
     cost_list_.resize(filter_size_);
   };
 
diff --git a/include/mim_solvers/sqp.hpp b/include/mim_solvers/sqp.hpp
index 3b11419..b61d52b 100644
--- a/include/mim_solvers/sqp.hpp
+++ b/include/mim_solvers/sqp.hpp
@@ -142,7 +142,11 @@ class SolverSQP : public SolverDDP {
   };
   void set_filter_size(const std::size_t inFilterSize) {
     filter_size_ = inFilterSize;
+    // resize() alone never shrinks the capacity, and old entries would then be
+    // kept in front of the new ones
+    gap_list_.set_capacity(filter_size_);
     gap_list_.resize(filter_size_);
+    cost_list_.set_capacity(filter_size_);
     cost_list_.resize(filter_size_);
   };
 
-- 
2.43.0


From 86373b9a561534ac617255ebe213ea42c711cbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:50 +0000
Subject: [PATCH 04/37] fix: trial steps with a non-finite gap or constraint
 norm are rejected like those with a non-finite cost

---
 src/csqp.cpp        | 3 ++-
 src/csqp_proxqp.cpp | 3 ++-
 src/sqp.cpp         | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/csqp.cpp b/src/csqp.cpp
index 0e1eb79..557c99a 100644
--- a/src/csqp.cpp
+++ b/src/csqp.cpp
@@ -1424,7 +1424,8 @@ double SolverCSQP::tryStep(const double steplength) {
                  mu_constraint_ * constraint_norm_try_;
   }
 
-  if (raiseIfNaN(cost_try_)) {
+  if (raiseIfNaN(cost_try_) || raiseIfNaN(gap_norm_try_) ||
+      raiseIfNaN(constraint_norm_try_)) {
     profiler_tryStep.stop();
     throw_pretty("step_error");
   }
diff --git a/src/csqp_proxqp.cpp b/src/csqp_proxqp.cpp
index 609be37..d52ad5e 100644
--- a/src/csqp_proxqp.cpp
+++ b/src/csqp_proxqp.cpp
@@ -526,7 +526,8 @@ double SolverPROXQP::tryStep(const double steplength) {
   merit_try_ = cost_try_ + mu_dynamic_ * gap_norm_try_ +
                mu_constraint_ * constraint_norm_try_;
 
-  if (raiseIfNaN(cost_try_)) {
+  if (raiseIfNaN(cost_try_) || raiseIfNaN(gap_norm_try_) ||
+      raiseIfNaN(constraint_norm_try_)) {
     STOP_PROFILER("SolverPROXQP::tryStep");
     throw_pretty("step_error");
   }
diff --git a/src/sqp.cpp b/src/sqp.cpp
index 1a751ab..cde27b2 100644
--- a/src/sqp.cpp
+++ b/src/sqp.cpp
@@ -372,7 +372,7 @@ double SolverSQP::tryStep(const double steplength) {
 
   merit_try_ = cost_try_ + mu_dynamic_ * gap_norm_try_;
 
-  if (raiseIfNaN(cost_try_)) {
+  if (raiseIfNaN(cost_try_) || raiseIfNaN(gap_norm_try_)) {
     STOP_PROFILER("SolverSQP::tryStep");
     throw_pretty("step_error");
   }
-- 
2.43.0


From cbd3fc90a5b9896c49c3510052a363d708526f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 05/37] fix: SolverCSQP records the step length it tries, so
 that regularisation and reports follow the accepted one

---
 src/csqp.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/csqp.cpp b/src/csqp.cpp
index 557c99a..8e2d031 100644
--- a/src/csqp.cpp
+++ b/src/csqp.cpp
@@ -313,7 +313,8 @@ bool SolverCSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
     bool found = false;
     // less than filter_size_, less or equal iter_
     const std::size_t max_count = std::min(filter_size_, iter_ + 1);
-    for (const double steplength_ : alphas_) {
+    for (const double alpha : alphas_) {
+      steplength_ = alpha;
       try {
         merit_try_ = tryStep(steplength_);
       } catch (std::exception& e) {
-- 
2.43.0


From 1e2a71d88919fa9860d812d033771c5b65a13580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:23 +0000
Subject: [PATCH 06/37] fix: SolverCSQP evaluates its merit function before
 calling the callbacks

---
 include/mim_solvers/csqp.hpp |  7 ++++++
 src/csqp.cpp                 | 44 +++++++++++++++++++++---------------
 2 files changed, 33 insertions(+), 18 deletions(-)

diff --git a/include/mim_solvers/csqp.hpp b/include/mim_solvers/csqp.hpp
index bdd9d58..5d64197 100644
--- a/include/mim_solvers/csqp.hpp
+++ b/include/mim_solvers/csqp.hpp
@@ -131,6 +131,13 @@ class SolverCSQP : public SolverDDP {
    */
   virtual void checkKKTConditions();
 
+  /**
+   * @brief Compute the merit function at the current iterate, together with the
+   * norm of the multipliers used as penalty when mu_dynamic or mu_constraint is
+   * negative
+   */
+  void updateMerit();
+
   const std::vector<Eigen::VectorXd>& get_xs_try() const { return xs_try_; };
   const std::vector<Eigen::VectorXd>& get_us_try() const { return us_try_; };
 
diff --git a/src/csqp.cpp b/src/csqp.cpp
index 8e2d031..429db0d 100644
--- a/src/csqp.cpp
+++ b/src/csqp.cpp
@@ -276,6 +276,9 @@ bool SolverCSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
     // Check KKT criteria
     checkKKTConditions();
 
+    // Merit function at the current iterate
+    updateMerit();
+
     // Perform callbacks
     for (const auto& callback : callbacks_) {
       (*callback)(*this, "CSQP");
@@ -291,24 +294,6 @@ bool SolverCSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
     gap_list_.push_back(gap_norm_);
     cost_list_.push_back(cost_);
 
-    // Calculate the coefficient of the merit function.
-    if (mu_dynamic_ < 0. || mu_constraint_ < 0.) {
-      lag_mul_inf_norm_ = 0;
-      for (const auto& lag_mul : lag_mul_) {
-        lag_mul_inf_norm_ =
-            std::max(lag_mul_inf_norm_, lag_mul.lpNorm<Eigen::Infinity>());
-      }
-      for (const auto& y : y_) {
-        lag_mul_inf_norm_ =
-            std::max(lag_mul_inf_norm_, y.lpNorm<Eigen::Infinity>());
-      }
-      merit_ = cost_ + lag_mul_inf_norm_coef_ * lag_mul_inf_norm_ *
-                           (gap_norm_ + constraint_norm_);
-    } else {
-      merit_ =
-          cost_ + mu_dynamic_ * gap_norm_ + mu_constraint_ * constraint_norm_;
-    }
-
     // We need to recalculate the derivatives when the step length passes
     bool found = false;
     // less than filter_size_, less or equal iter_
@@ -394,6 +379,9 @@ bool SolverCSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
     // Check KKT criteria
     checkKKTConditions();
 
+    // Merit function at the current iterate
+    updateMerit();
+
     // Perform callbacks
     for (const auto& callback : callbacks_) {
       (*callback)(*this, "CSQP");
@@ -409,6 +397,26 @@ bool SolverCSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
   return false;
 }
 
+void SolverCSQP::updateMerit() {
+  // Calculate the coefficient of the merit function.
+  if (mu_dynamic_ < 0. || mu_constraint_ < 0.) {
+    lag_mul_inf_norm_ = 0;
+    for (const auto& lag_mul : lag_mul_) {
+      lag_mul_inf_norm_ =
+          std::max(lag_mul_inf_norm_, lag_mul.lpNorm<Eigen::Infinity>());
+    }
+    for (const auto& y : y_) {
+      lag_mul_inf_norm_ =
+          std::max(lag_mul_inf_norm_, y.lpNorm<Eigen::Infinity>());
+    }
+    merit_ = cost_ + lag_mul_inf_norm_coef_ * lag_mul_inf_norm_ *
+                         (gap_norm_ + constraint_norm_);
+  } else {
+    merit_ =
+        cost_ + mu_dynamic_ * gap_norm_ + mu_constraint_ * constraint_norm_;
+  }
+}
+
 void SolverCSQP::calc(const bool recalc) {
   if (recalc) {
     problem_->calc(xs_, us_);
-- 
2.43.0


From 69261b5a1fb68de535940ed11f0559f9bd6bd440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:23 +0000
Subject: [PATCH 07/37] fix: SolverCSQP reports max_qp_iters, not one more,
 when the QP budget is exhausted

---
 src/csqp.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/csqp.cpp b/src/csqp.cpp
index 429db0d..c7dd499 100644
--- a/src/csqp.cpp
+++ b/src/csqp.cpp
@@ -268,7 +268,7 @@ bool SolverCSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
         break;
       }
     }
-    if (qp_iters_ == 0) {
+    if (max_solve_time_reached_ && qp_iters_ == 0) {
       STOP_PROFILER("SolverCSQP::solve");
       return false;
     }
@@ -520,6 +520,8 @@ void SolverCSQP::computeDirection(const bool /*recalcDiff*/) {
       }
     }
   }
+  // The counter is one ahead when the loop runs out of iterations
+  qp_iters_ = std::min(qp_iters_, max_qp_iters_);
 
   STOP_PROFILER("SolverCSQP::computeDirection");
   // MIM_SOLVERS_EIGEN_MALLOC_ALLOWED();
-- 
2.43.0


From fc3bbc53cdb4b83f20f34f0ebcca3f80ef72a993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:17 +0000
Subject: [PATCH 08/37] fix: solvers no longer hide the merit, cost, KKT
 residual and termination tolerance of their base class

---
 include/mim_solvers/csqp.hpp        | 4 ----
 include/mim_solvers/csqp_proxqp.hpp | 6 +-----
 include/mim_solvers/fddp.hpp        | 3 ---
 include/mim_solvers/sqp.hpp         | 4 ----
 src/csqp_proxqp.cpp                 | 2 +-
 5 files changed, 2 insertions(+), 17 deletions(-)

diff --git a/include/mim_solvers/csqp.hpp b/include/mim_solvers/csqp.hpp
index 5d64197..a83ed94 100644
--- a/include/mim_solvers/csqp.hpp
+++ b/include/mim_solvers/csqp.hpp
@@ -307,7 +307,6 @@ class SolverCSQP : public SolverDDP {
   bool remove_reg_ = false;  //!< Removes Crocoddyl's regularization (preg,dreg)
 
  protected:
-  double merit_ = 0;            //!< merit function at nominal traj
   double merit_try_ = 0;        //!< merit function for the step length tried
   double x_grad_norm_ = 0;      //!< 1 norm of the delta x
   double u_grad_norm_ = 0;      //!< 1 norm of the delta u
@@ -319,7 +318,6 @@ class SolverCSQP : public SolverDDP {
       1e1;  //!< penalty weight for dymanic violation in the merit function
   double mu_constraint_ =
       1e1;  //!< penalty weight for constraint violation in the merit function
-  double termination_tol_ = 1e-6;  //!< Termination tolerance
   // bool with_callbacks_ = false;                                //!< With
   // callbacks
   bool with_qp_callbacks_ = false;  //!< With QP callbacks
@@ -343,8 +341,6 @@ class SolverCSQP : public SolverDDP {
       true;  //!< warm-start the QP with unconstrained solution
   std::size_t filter_size_ =
       1;  //!< Filter size for line-search (do not change the default value !)
-  double KKT_ =
-      std::numeric_limits<double>::infinity();  //!< KKT conditions residual
 
  private:
   double th_acceptnegstep_;  //!< Threshold used for accepting step along ascent
diff --git a/include/mim_solvers/csqp_proxqp.hpp b/include/mim_solvers/csqp_proxqp.hpp
index 2fd4820..455ca2a 100644
--- a/include/mim_solvers/csqp_proxqp.hpp
+++ b/include/mim_solvers/csqp_proxqp.hpp
@@ -211,12 +211,10 @@ class SolverPROXQP : public SolverDDP {
   std::vector<Eigen::VectorXd> y_;  //!< lagrangian dual variable
 
   Eigen::VectorXd fs_flat_;  //!< Gaps/defects between shooting nodes (1D array)
-  double KKT_ =
-      std::numeric_limits<double>::infinity();  //!< KKT conditions residual
+  using SolverDDP::KKT_;
   bool use_filter_line_search_ = true;          //!< Use filter line search
 
  protected:
-  double merit_ = 0;            //!< merit function at nominal traj
   double merit_try_ = 0;        //!< merit function for the step length tried
   double x_grad_norm_ = 0;      //!< 1 norm of the delta x
   double u_grad_norm_ = 0;      //!< 1 norm of the delta u
@@ -224,10 +222,8 @@ class SolverPROXQP : public SolverDDP {
   double constraint_norm_ = 0;  //!< 1 norm of constraint violation
   double constraint_norm_try_ = 0;  //!< 1 norm of constraint violation try
   double gap_norm_try_ = 0;         //!< 1 norm of the gaps
-  double cost_ = 0.0;               //!< cost function
   double mu_dynamic_ = 1e1;         //!< penalty no constraint violation
   double mu_constraint_ = 1e1;      //!< penalty no constraint violation
-  double termination_tol_ = 1e-8;   //!< Termination tolerance
   bool with_callbacks_ = false;     //!< With callbacks
   int max_qp_iters_ = 1000;         //!< maximum number of QP iterations
   int qp_iters_ = 0;                //!< current number of QP iterations
diff --git a/include/mim_solvers/fddp.hpp b/include/mim_solvers/fddp.hpp
index 356efb0..a7d0340 100644
--- a/include/mim_solvers/fddp.hpp
+++ b/include/mim_solvers/fddp.hpp
@@ -155,7 +155,6 @@ class SolverFDDP : public SolverDDP {
   std::vector<Eigen::VectorXd>
       lag_mul_;  //!< the Lagrange multiplier of the dynamics constraint
   Eigen::VectorXd fs_flat_;  //!< Gaps/defects between shooting nodes (1D array)
-  double termination_tol_ = 1e-6;  //!< Termination tolerance
 
   std::vector<Eigen::VectorXd>
       fs_try_;  //!< Gaps/defects between shooting nodes
@@ -167,8 +166,6 @@ class SolverFDDP : public SolverDDP {
   double dg_;  //!< Internal data for computing the expected improvement
   double dq_;  //!< Internal data for computing the expected improvement
   double dv_;  //!< Internal data for computing the expected improvement
-  double KKT_ =
-      std::numeric_limits<double>::infinity();  //!< KKT conditions residual
 
  private:
   double th_acceptnegstep_;  //!< Threshold used for accepting step along ascent
diff --git a/include/mim_solvers/sqp.hpp b/include/mim_solvers/sqp.hpp
index b61d52b..45cb066 100644
--- a/include/mim_solvers/sqp.hpp
+++ b/include/mim_solvers/sqp.hpp
@@ -168,7 +168,6 @@ class SolverSQP : public SolverDDP {
   bool use_filter_line_search_ = true;  //!< Use filter line search
 
  protected:
-  double merit_ = 0;         //!< merit function at nominal traj
   double merit_try_ = 0;     //!< merit function for the step length tried
   double x_grad_norm_ = 0;   //!< 1 norm of the delta x
   double u_grad_norm_ = 0;   //!< 1 norm of the delta u
@@ -176,15 +175,12 @@ class SolverSQP : public SolverDDP {
   double gap_norm_try_ = 0;  //!< 1 norm of the gaps
   double mu_dynamic_ =
       1e0;  //!< penalty weight for dymanic violation in the merit function
-  double termination_tol_ = 1e-6;  //!< Termination tolerance
   // bool with_callbacks_ = false;                                //!< With
   // callbacks
   bool extra_iteration_for_last_kkt_ =
       false;  //!< Additional iteration if SQP max. iter reached
   std::size_t filter_size_ =
       1;  //!< Filter size for line-search (do not change the default value !)
-  double KKT_ =
-      std::numeric_limits<double>::infinity();  //!< KKT conditions residual
 
  private:
   double th_acceptnegstep_;  //!< Threshold used for accepting step along ascent
diff --git a/src/csqp_proxqp.cpp b/src/csqp_proxqp.cpp
index d52ad5e..3ade68a 100644
--- a/src/csqp_proxqp.cpp
+++ b/src/csqp_proxqp.cpp
@@ -22,7 +22,7 @@ namespace mim_solvers {
 
 SolverPROXQP::SolverPROXQP(std::shared_ptr<crocoddyl::ShootingProblem> problem)
     : SolverDDP(problem) {
-  // std::cout << tmp << std::endl;
+  termination_tol_ = 1e-8;
   const std::size_t T = this->problem_->get_T();
   const std::size_t ndx = problem_->get_ndx();
   constraint_list_.resize(filter_size_);
-- 
2.43.0


From de9520d9607ce68953e569eac853dd1b52e1ecea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:40 +0000
Subject: [PATCH 09/37] fix: KKT residuals that are not a number are no longer
 dropped by the termination test

---
 include/mim_solvers/ddp.hpp | 21 +++++++++++++++++++++
 src/csqp.cpp                | 10 +++++-----
 src/csqp_proxqp.cpp         | 24 ++++++++++--------------
 src/ddp.cpp                 | 13 +++++--------
 src/fddp.cpp                | 13 +++++--------
 src/kkt.cpp                 | 15 +++++++--------
 src/sqp.cpp                 |  8 ++++----
 7 files changed, 57 insertions(+), 47 deletions(-)

diff --git a/include/mim_solvers/ddp.hpp b/include/mim_solvers/ddp.hpp
index 8311a03..fd6436a 100644
--- a/include/mim_solvers/ddp.hpp
+++ b/include/mim_solvers/ddp.hpp
@@ -16,14 +16,35 @@
 #define MIM_SOLVERS_DDP_HPP_
 
 #include <Eigen/Cholesky>
+#include <algorithm>
+#include <cmath>
 #include <crocoddyl/core/mathbase.hpp>
 #include <crocoddyl/core/solver-base.hpp>
+#include <limits>
 #include <vector>
 
 #include "mim_solvers/utils/callbacks.hpp"
 
 namespace mim_solvers {
 
+/**
+ * @brief Largest of a KKT residual and the entries of a vector, infinite if any
+ * of them is not a number (std::max() and the infinity norm may both drop NaN)
+ */
+inline double maxResidual(const double residual,
+                          const Eigen::Ref<const Eigen::VectorXd>& vector) {
+  if (std::isnan(residual) || vector.hasNaN()) {
+    return std::numeric_limits<double>::infinity();
+  }
+  return std::max(residual, vector.lpNorm<Eigen::Infinity>());
+}
+inline double maxResidual(const double residual, const double value) {
+  if (std::isnan(residual) || std::isnan(value)) {
+    return std::numeric_limits<double>::infinity();
+  }
+  return std::max(residual, value);
+}
+
 /**
  * @brief Differential Dynamic Programming (DDP) solver
  *
diff --git a/src/csqp.cpp b/src/csqp.cpp
index c7dd499..77daa5c 100644
--- a/src/csqp.cpp
+++ b/src/csqp.cpp
@@ -614,11 +614,11 @@ void SolverCSQP::checkKKTConditions() {
     if (t > 0) {
       tmp_vec_x_.noalias() += d->Gx.transpose() * y_[t];
     }
-    KKT_ = std::max(KKT_, tmp_vec_x_.lpNorm<Eigen::Infinity>());
+    KKT_ = maxResidual(KKT_, tmp_vec_x_);
     tmp_vec_u_[t] = d->Lu;
     tmp_vec_u_[t].noalias() += d->Fu.transpose() * lag_mul_[t + 1];
     tmp_vec_u_[t].noalias() += d->Gu.transpose() * y_[t];
-    KKT_ = std::max(KKT_, tmp_vec_u_[t].lpNorm<Eigen::Infinity>());
+    KKT_ = maxResidual(KKT_, tmp_vec_u_[t]);
     fs_flat_.segment(t * ndx, ndx) = fs_[t];
     x_grad_norm_ += dxtilde_[t].lpNorm<1>();
     u_grad_norm_ += dutilde_[t].lpNorm<1>();
@@ -630,9 +630,9 @@ void SolverCSQP::checkKKTConditions() {
   tmp_vec_x_ = d_ter->Lx;
   tmp_vec_x_ -= lag_mul_.back();
   tmp_vec_x_.noalias() += d_ter->Gx.transpose() * y_.back();
-  KKT_ = std::max(KKT_, tmp_vec_x_.lpNorm<Eigen::Infinity>());
-  KKT_ = std::max(KKT_, fs_flat_.lpNorm<Eigen::Infinity>());
-  KKT_ = std::max(KKT_, constraint_norm_);
+  KKT_ = maxResidual(KKT_, tmp_vec_x_);
+  KKT_ = maxResidual(KKT_, fs_flat_);
+  KKT_ = maxResidual(KKT_, constraint_norm_);
   x_grad_norm_ += dxtilde_.back().lpNorm<1>();
   x_grad_norm_ = x_grad_norm_ / static_cast<double>(T + 1);
   u_grad_norm_ = u_grad_norm_ / static_cast<double>(T);
diff --git a/src/csqp_proxqp.cpp b/src/csqp_proxqp.cpp
index 3ade68a..5be0a8d 100644
--- a/src/csqp_proxqp.cpp
+++ b/src/csqp_proxqp.cpp
@@ -428,26 +428,22 @@ void SolverPROXQP::checkKKTConditions() {
     const std::shared_ptr<ActionDataAbstract>& d = datas[t];
     fs_flat_.segment(t * ndx, ndx) = fs_[t + 1];
     if (t == 0) {
-      KKT_ = std::max(KKT_, (d->Lu + d->Fu.transpose() * lag_mul_[t + 1] +
-                             d->Gu.transpose() * y_[t])
-                                .lpNorm<Eigen::Infinity>());
+      KKT_ = maxResidual(KKT_, d->Lu + d->Fu.transpose() * lag_mul_[t + 1] +
+                                   d->Gu.transpose() * y_[t]);
       continue;
     }
-    KKT_ = std::max(KKT_, (d->Lx + d->Fx.transpose() * lag_mul_[t + 1] -
-                           lag_mul_[t] + d->Gx.transpose() * y_[t])
-                              .lpNorm<Eigen::Infinity>());
-    KKT_ = std::max(KKT_, (d->Lu + d->Fu.transpose() * lag_mul_[t + 1] +
-                           d->Gu.transpose() * y_[t])
-                              .lpNorm<Eigen::Infinity>());
+    KKT_ = maxResidual(KKT_, d->Lx + d->Fx.transpose() * lag_mul_[t + 1] -
+                                 lag_mul_[t] + d->Gx.transpose() * y_[t]);
+    KKT_ = maxResidual(KKT_, d->Lu + d->Fu.transpose() * lag_mul_[t + 1] +
+                                 d->Gu.transpose() * y_[t]);
   }
   const std::shared_ptr<ActionDataAbstract>& d_ter =
       problem_->get_terminalData();
-  KKT_ = std::max(
-      KKT_, (d_ter->Lx - lag_mul_.back() + d_ter->Gx.transpose() * y_.back())
-                .lpNorm<Eigen::Infinity>());
+  KKT_ = maxResidual(
+      KKT_, d_ter->Lx - lag_mul_.back() + d_ter->Gx.transpose() * y_.back());
 
-  KKT_ = std::max(KKT_, fs_flat_.lpNorm<Eigen::Infinity>());
-  KKT_ = std::max(KKT_, constraint_norm_);
+  KKT_ = maxResidual(KKT_, fs_flat_);
+  KKT_ = maxResidual(KKT_, constraint_norm_);
 }
 
 double SolverPROXQP::tryStep(const double steplength) {
diff --git a/src/ddp.cpp b/src/ddp.cpp
index f5d9ada..eeea5a7 100644
--- a/src/ddp.cpp
+++ b/src/ddp.cpp
@@ -182,19 +182,16 @@ void SolverDDP::checkKKTConditions() {
       problem_->get_runningDatas();
   for (std::size_t t = 0; t < T; ++t) {
     const std::shared_ptr<ActionDataAbstract>& d = datas[t];
-    KKT_ = std::max(KKT_,
-                    (d->Lx + d->Fx.transpose() * lag_mul_[t + 1] - lag_mul_[t])
-                        .lpNorm<Eigen::Infinity>());
-    KKT_ = std::max(KKT_, (d->Lu + d->Fu.transpose() * lag_mul_[t + 1])
-                              .lpNorm<Eigen::Infinity>());
+    KKT_ = maxResidual(
+        KKT_, d->Lx + d->Fx.transpose() * lag_mul_[t + 1] - lag_mul_[t]);
+    KKT_ = maxResidual(KKT_, d->Lu + d->Fu.transpose() * lag_mul_[t + 1]);
     fs_flat_.segment(t * ndx, ndx) = fs_[t];
   }
   fs_flat_.tail(ndx) = fs_.back();
   const std::shared_ptr<ActionDataAbstract>& d_ter =
       problem_->get_terminalData();
-  KKT_ =
-      std::max(KKT_, (d_ter->Lx - lag_mul_.back()).lpNorm<Eigen::Infinity>());
-  KKT_ = std::max(KKT_, fs_flat_.lpNorm<Eigen::Infinity>());
+  KKT_ = maxResidual(KKT_, d_ter->Lx - lag_mul_.back());
+  KKT_ = maxResidual(KKT_, fs_flat_);
 }
 
 double SolverDDP::stoppingCriteria() {
diff --git a/src/fddp.cpp b/src/fddp.cpp
index 0f7f542..c1ad50a 100644
--- a/src/fddp.cpp
+++ b/src/fddp.cpp
@@ -211,19 +211,16 @@ void SolverFDDP::checkKKTConditions() {
       problem_->get_runningDatas();
   for (std::size_t t = 0; t < T; ++t) {
     const std::shared_ptr<ActionDataAbstract>& d = datas[t];
-    KKT_ = std::max(KKT_,
-                    (d->Lx + d->Fx.transpose() * lag_mul_[t + 1] - lag_mul_[t])
-                        .lpNorm<Eigen::Infinity>());
-    KKT_ = std::max(KKT_, (d->Lu + d->Fu.transpose() * lag_mul_[t + 1])
-                              .lpNorm<Eigen::Infinity>());
+    KKT_ = maxResidual(
+        KKT_, d->Lx + d->Fx.transpose() * lag_mul_[t + 1] - lag_mul_[t]);
+    KKT_ = maxResidual(KKT_, d->Lu + d->Fu.transpose() * lag_mul_[t + 1]);
     fs_flat_.segment(t * ndx, ndx) = fs_[t];
   }
   fs_flat_.tail(ndx) = fs_.back();
   const std::shared_ptr<ActionDataAbstract>& d_ter =
       problem_->get_terminalData();
-  KKT_ =
-      std::max(KKT_, (d_ter->Lx - lag_mul_.back()).lpNorm<Eigen::Infinity>());
-  KKT_ = std::max(KKT_, fs_flat_.lpNorm<Eigen::Infinity>());
+  KKT_ = maxResidual(KKT_, d_ter->Lx - lag_mul_.back());
+  KKT_ = maxResidual(KKT_, fs_flat_);
 }
 
 const Eigen::Vector2d& SolverFDDP::expectedImprovement() {
diff --git a/src/kkt.cpp b/src/kkt.cpp
index 7775019..a60ac5c 100644
--- a/src/kkt.cpp
+++ b/src/kkt.cpp
@@ -14,6 +14,8 @@
 
 #include "mim_solvers/kkt.hpp"
 
+#include "mim_solvers/ddp.hpp"
+
 namespace mim_solvers {
 
 SolverKKT::SolverKKT(std::shared_ptr<crocoddyl::ShootingProblem> problem)
@@ -160,19 +162,16 @@ void SolverKKT::checkKKTConditions() {
       problem_->get_runningDatas();
   for (std::size_t t = 0; t < T; ++t) {
     const std::shared_ptr<crocoddyl::ActionDataAbstract>& d = datas[t];
-    KKT_ = std::max(KKT_,
-                    (d->Lx + d->Fx.transpose() * lambdas_[t + 1] - lambdas_[t])
-                        .lpNorm<Eigen::Infinity>());
-    KKT_ = std::max(KKT_, (d->Lu + d->Fu.transpose() * lambdas_[t + 1])
-                              .lpNorm<Eigen::Infinity>());
+    KKT_ = maxResidual(
+        KKT_, d->Lx + d->Fx.transpose() * lambdas_[t + 1] - lambdas_[t]);
+    KKT_ = maxResidual(KKT_, d->Lu + d->Fu.transpose() * lambdas_[t + 1]);
     fs_flat_.segment(t * ndx, ndx) = fs_[t];
   }
   fs_flat_.tail(ndx) = fs_.back();
   const std::shared_ptr<crocoddyl::ActionDataAbstract>& d_ter =
       problem_->get_terminalData();
-  KKT_ =
-      std::max(KKT_, (d_ter->Lx - lambdas_.back()).lpNorm<Eigen::Infinity>());
-  KKT_ = std::max(KKT_, fs_flat_.lpNorm<Eigen::Infinity>());
+  KKT_ = maxResidual(KKT_, d_ter->Lx - lambdas_.back());
+  KKT_ = maxResidual(KKT_, fs_flat_);
 }
 
 double SolverKKT::stoppingCriteria() {
diff --git a/src/sqp.cpp b/src/sqp.cpp
index cde27b2..a09c4f5 100644
--- a/src/sqp.cpp
+++ b/src/sqp.cpp
@@ -263,8 +263,8 @@ void SolverSQP::checkKKTConditions() {
     tmp_vec_x_ -= lag_mul_[t];
     tmp_vec_u_[t] = d->Lu;
     tmp_vec_u_[t].noalias() += d->Fu.transpose() * lag_mul_[t + 1];
-    KKT_ = std::max(KKT_, tmp_vec_x_.lpNorm<Eigen::Infinity>());
-    KKT_ = std::max(KKT_, tmp_vec_u_[t].lpNorm<Eigen::Infinity>());
+    KKT_ = maxResidual(KKT_, tmp_vec_x_);
+    KKT_ = maxResidual(KKT_, tmp_vec_u_[t]);
     fs_flat_.segment(t * ndx, ndx) = fs_[t];
   }
   fs_flat_.tail(ndx) = fs_.back();
@@ -272,8 +272,8 @@ void SolverSQP::checkKKTConditions() {
       problem_->get_terminalData();
   tmp_vec_x_ = d_ter->Lx;
   tmp_vec_x_ -= lag_mul_.back();
-  KKT_ = std::max(KKT_, tmp_vec_x_.lpNorm<Eigen::Infinity>());
-  KKT_ = std::max(KKT_, fs_flat_.lpNorm<Eigen::Infinity>());
+  KKT_ = maxResidual(KKT_, tmp_vec_x_);
+  KKT_ = maxResidual(KKT_, fs_flat_);
 }
 
 void SolverSQP::forwardPass(const double stepLength) {
-- 
2.43.0


From 10f509f5360e1dcda344e84c1d22a46abda16033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:56 +0000
Subject: [PATCH 10/37] fix: exceptions raised by a model at the iterate are no
 longer taken for failed factorizations and continued with stale derivatives

---
 src/csqp_proxqp.cpp | 10 +++++-----
 src/ddp.cpp         |  9 +++++++--
 src/fddp.cpp        |  9 +++++++--
 src/kkt.cpp         | 15 +--------------
 src/sqp.cpp         | 17 ++++++++---------
 5 files changed, 28 insertions(+), 32 deletions(-)

diff --git a/src/csqp_proxqp.cpp b/src/csqp_proxqp.cpp
index 5be0a8d..4602286 100644
--- a/src/csqp_proxqp.cpp
+++ b/src/csqp_proxqp.cpp
@@ -169,13 +169,15 @@ bool SolverPROXQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
 
   for (iter_ = 0; iter_ < maxiter; ++iter_) {
     was_feasible_ = false;
-    bool recalcDiff = true;
+
+    // Outside of the loop below, which only deals with failed factorizations:
+    // an exception raised by a model goes to the caller
+    calc(true);
 
     while (true) {
       try {
-        computeDirection(recalcDiff);
+        computeDirection(false);
       } catch (std::exception& e) {
-        recalcDiff = false;
         increaseRegularization();
         if (preg_ == reg_max_) {
           return false;
@@ -225,7 +227,6 @@ bool SolverPROXQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
         }
         if (is_worse_than_memory_ == false) {
           setCandidate(xs_try_, us_try_, false);
-          recalcDiff = true;
           break;
         }
       }
@@ -233,7 +234,6 @@ bool SolverPROXQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
       else {
         if (merit_ > merit_try_) {
           setCandidate(xs_try_, us_try_, false);
-          recalcDiff = true;
           break;
         }
       }
diff --git a/src/ddp.cpp b/src/ddp.cpp
index eeea5a7..39f1265 100644
--- a/src/ddp.cpp
+++ b/src/ddp.cpp
@@ -82,11 +82,16 @@ bool SolverDDP::solve(const std::vector<Eigen::VectorXd>& init_xs,
 
   bool recalcDiff = true;
   for (iter_ = 0; iter_ < maxiter; ++iter_) {
+    // Outside of the loop below, which only deals with failed factorizations:
+    // an exception raised by a model goes to the caller
+    if (recalcDiff) {
+      calcDiff();
+    }
+
     while (true) {
       try {
-        computeDirection(recalcDiff);
+        computeDirection(false);
       } catch (std::exception& e) {
-        recalcDiff = false;
         increaseRegularization();
         if (preg_ == reg_max_) {
           return false;
diff --git a/src/fddp.cpp b/src/fddp.cpp
index c1ad50a..4ee365a 100644
--- a/src/fddp.cpp
+++ b/src/fddp.cpp
@@ -76,11 +76,16 @@ bool SolverFDDP::solve(const std::vector<Eigen::VectorXd>& init_xs,
   was_feasible_ = false;
   bool recalcDiff = true;
   for (iter_ = 0; iter_ < maxiter; ++iter_) {
+    // Outside of the loop below, which only deals with failed factorizations:
+    // an exception raised by a model goes to the caller
+    if (recalcDiff) {
+      calcDiff();
+    }
+
     while (true) {
       try {
-        computeDirection(recalcDiff);
+        computeDirection(false);
       } catch (std::exception& e) {
-        recalcDiff = false;
         increaseRegularization();
         if (preg_ == reg_max_) {
           return false;
diff --git a/src/kkt.cpp b/src/kkt.cpp
index a60ac5c..30325a9 100644
--- a/src/kkt.cpp
+++ b/src/kkt.cpp
@@ -48,21 +48,8 @@ bool SolverKKT::solve(const std::vector<Eigen::VectorXd>& init_xs,
                       const std::size_t maxiter, const bool is_feasible,
                       const double) {
   setCandidate(init_xs, init_us, is_feasible);
-  bool recalc = true;
   for (iter_ = 0; iter_ < maxiter; ++iter_) {
-    while (true) {
-      try {
-        computeDirection(recalc);
-      } catch (std::exception& e) {
-        recalc = false;
-        if (preg_ == reg_max_) {
-          return false;
-        } else {
-          continue;
-        }
-      }
-      break;
-    }
+    computeDirection(true);
 
     expectedImprovement();
 
diff --git a/src/sqp.cpp b/src/sqp.cpp
index a09c4f5..5ce0dfb 100644
--- a/src/sqp.cpp
+++ b/src/sqp.cpp
@@ -96,15 +96,15 @@ bool SolverSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
     dreg_ = reginit;
   }
 
-  bool recalcDiff = true;
   for (iter_ = 0; iter_ < maxiter; ++iter_) {
-    recalcDiff = true;
+    // Outside of the loop below, which only deals with failed factorizations:
+    // an exception raised by a model goes to the caller
+    cost_ = calcDiff();
 
     while (true) {
       try {
-        computeDirection(recalcDiff);
+        computeDirection(false);
       } catch (std::exception& e) {
-        recalcDiff = false;
         increaseRegularization();
         if (preg_ == reg_max_) {
           return false;
@@ -158,7 +158,6 @@ bool SolverSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
         }
         if (is_worse_than_memory_ == false) {
           setCandidate(xs_try_, us_try_, false);
-          recalcDiff = true;
           accepted = true;
           break;
         }
@@ -167,7 +166,6 @@ bool SolverSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
       else {
         if (merit_ > merit_try_) {
           setCandidate(xs_try_, us_try_, false);
-          recalcDiff = true;
           accepted = true;
           break;
         }
@@ -193,13 +191,14 @@ bool SolverSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
   }
 
   if (extra_iteration_for_last_kkt_) {
-    recalcDiff = true;
+    // Outside of the loop below, which only deals with failed factorizations:
+    // an exception raised by a model goes to the caller
+    cost_ = calcDiff();
 
     while (true) {
       try {
-        computeDirection(recalcDiff);
+        computeDirection(false);
       } catch (std::exception& e) {
-        recalcDiff = false;
         increaseRegularization();
         if (preg_ == reg_max_) {
           return false;
-- 
2.43.0


From de70cc13db8020454d6b57629f973aa2c307159b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:09 +0000
Subject: [PATCH 11/37] fix: solve() no longer starts with the step length of
 the previous solve

---
 src/csqp.cpp        | 3 +++
 src/csqp_proxqp.cpp | 3 +++
 src/ddp.cpp         | 3 +++
 src/fddp.cpp        | 3 +++
 src/sqp.cpp         | 3 +++
 5 files changed, 15 insertions(+)

diff --git a/src/csqp.cpp b/src/csqp.cpp
index 77daa5c..f6ba116 100644
--- a/src/csqp.cpp
+++ b/src/csqp.cpp
@@ -226,6 +226,9 @@ bool SolverCSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
     }
   }
 
+  // No step has been taken yet
+  steplength_ = 1.;
+
   // Otherwise benchmarks blowup
   // TODO: find cleaner way
   if (maxiter == 0) {
diff --git a/src/csqp_proxqp.cpp b/src/csqp_proxqp.cpp
index 4602286..3592752 100644
--- a/src/csqp_proxqp.cpp
+++ b/src/csqp_proxqp.cpp
@@ -167,6 +167,9 @@ bool SolverPROXQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
     dreg_ = reginit;
   }
 
+  // No step has been taken yet
+  steplength_ = 1.;
+
   for (iter_ = 0; iter_ < maxiter; ++iter_) {
     was_feasible_ = false;
 
diff --git a/src/ddp.cpp b/src/ddp.cpp
index 39f1265..1efb13c 100644
--- a/src/ddp.cpp
+++ b/src/ddp.cpp
@@ -80,6 +80,9 @@ bool SolverDDP::solve(const std::vector<Eigen::VectorXd>& init_xs,
   }
   was_feasible_ = false;
 
+  // No step has been taken yet
+  steplength_ = 1.;
+
   bool recalcDiff = true;
   for (iter_ = 0; iter_ < maxiter; ++iter_) {
     // Outside of the loop below, which only deals with failed factorizations:
diff --git a/src/fddp.cpp b/src/fddp.cpp
index 4ee365a..d28f644 100644
--- a/src/fddp.cpp
+++ b/src/fddp.cpp
@@ -74,6 +74,9 @@ bool SolverFDDP::solve(const std::vector<Eigen::VectorXd>& init_xs,
     dreg_ = reginit;
   }
   was_feasible_ = false;
+  // No step has been taken yet
+  steplength_ = 1.;
+
   bool recalcDiff = true;
   for (iter_ = 0; iter_ < maxiter; ++iter_) {
     // Outside of the loop below, which only deals with failed factorizations:
diff --git a/src/sqp.cpp b/src/sqp.cpp
index 5ce0dfb..b2a9770 100644
--- a/src/sqp.cpp
+++ b/src/sqp.cpp
@@ -96,6 +96,9 @@ bool SolverSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
     dreg_ = reginit;
   }
 
+  // No step has been taken yet
+  steplength_ = 1.;
+
   for (iter_ = 0; iter_ < maxiter; ++iter_) {
     // Outside of the loop below, which only deals with failed factorizations:
     // an exception raised by a model goes to the caller
-- 
2.43.0


From 6a6133232e7560a2cf57fc43a887c08c4eec6aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:09 +0000
Subject: [PATCH 12/37] fix: without equality_qp_initial_guess the QP of
 SolverCSQP no longer starts from the direction of an earlier solve

---
 src/csqp.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/csqp.cpp b/src/csqp.cpp
index f6ba116..063507b 100644
--- a/src/csqp.cpp
+++ b/src/csqp.cpp
@@ -178,6 +178,10 @@ void SolverCSQP::reset_params() {
     z_prev_[t].setZero();
     z_relaxed_[t].setZero();
 
+    // Otherwise the QP would start from the direction found by an earlier one
+    dx_[t].setZero();
+    du_[t].setZero();
+
     if (reset_y_) {
       y_[t].setZero();
     }
@@ -186,6 +190,7 @@ void SolverCSQP::reset_params() {
   z_.back().setZero();
   z_prev_.back().setZero();
   z_relaxed_.back().setZero();
+  dx_.back().setZero();
 
   if (reset_y_) {
     y_.back().setZero();
-- 
2.43.0


From 819fd649c69e2c3ee63fb3003c6816f81557b929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:09 +0000
Subject: [PATCH 13/37] fix: the first KKT residual of a solve no longer
 depends on the multipliers of the previous solve

---
 src/csqp_proxqp.cpp | 8 ++++++++
 src/ddp.cpp         | 5 +++++
 src/fddp.cpp        | 5 +++++
 3 files changed, 18 insertions(+)

diff --git a/src/csqp_proxqp.cpp b/src/csqp_proxqp.cpp
index 3592752..76f0916 100644
--- a/src/csqp_proxqp.cpp
+++ b/src/csqp_proxqp.cpp
@@ -170,6 +170,14 @@ bool SolverPROXQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
   // No step has been taken yet
   steplength_ = 1.;
 
+  // The multipliers of an earlier solve do not belong to this problem
+  for (auto& lag_mul : lag_mul_) {
+    lag_mul.setZero();
+  }
+  for (auto& y : y_) {
+    y.setZero();
+  }
+
   for (iter_ = 0; iter_ < maxiter; ++iter_) {
     was_feasible_ = false;
 
diff --git a/src/ddp.cpp b/src/ddp.cpp
index 1efb13c..57509ff 100644
--- a/src/ddp.cpp
+++ b/src/ddp.cpp
@@ -83,6 +83,11 @@ bool SolverDDP::solve(const std::vector<Eigen::VectorXd>& init_xs,
   // No step has been taken yet
   steplength_ = 1.;
 
+  // The multipliers of an earlier solve do not belong to this problem
+  for (auto& lag_mul : lag_mul_) {
+    lag_mul.setZero();
+  }
+
   bool recalcDiff = true;
   for (iter_ = 0; iter_ < maxiter; ++iter_) {
     // Outside of the loop below, which only deals with failed factorizations:
diff --git a/src/fddp.cpp b/src/fddp.cpp
index d28f644..4779175 100644
--- a/src/fddp.cpp
+++ b/src/fddp.cpp
@@ -77,6 +77,11 @@ bool SolverFDDP::solve(const std::vector<Eigen::VectorXd>& init_xs,
   // No step has been taken yet
   steplength_ = 1.;
 
+  // The multipliers of an earlier solve do not belong to this problem
+  for (auto& lag_mul : lag_mul_) {
+    lag_mul.setZero();
+  }
+
   bool recalcDiff = true;
   for (iter_ = 0; iter_ < maxiter; ++iter_) {
     // Outside of the loop below, which only deals with failed factorizations:
-- 
2.43.0


From f714fec78ffdffafd61111321cf9bf409f89758c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:09 +0000
Subject: [PATCH 14/37] fix: SolverDDP and SolverFDDP compute their multipliers
 from the step that is tried, not from an earlier one

---
 src/ddp.cpp  |  4 +++-
 src/fddp.cpp | 13 ++++++++-----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/ddp.cpp b/src/ddp.cpp
index 57509ff..8bb7090 100644
--- a/src/ddp.cpp
+++ b/src/ddp.cpp
@@ -372,8 +372,8 @@ void SolverDDP::forwardPass(const double steplength) {
   for (std::size_t t = 0; t < T; ++t) {
     const std::shared_ptr<ActionModelAbstract>& m = models[t];
     const std::shared_ptr<ActionDataAbstract>& d = datas[t];
-    lag_mul_[t].noalias() = Vxx_[t] * dx_[t] + Vx_[t];
     m->get_state()->diff(xs_[t], xs_try_[t], dx_[t]);
+    lag_mul_[t].noalias() = Vxx_[t] * dx_[t] + Vx_[t];
     if (m->get_nu() != 0) {
       us_try_[t].noalias() = us_[t];
       us_try_[t].noalias() -= k_[t] * steplength;
@@ -397,6 +397,8 @@ void SolverDDP::forwardPass(const double steplength) {
 
   const std::shared_ptr<ActionModelAbstract>& m = problem_->get_terminalModel();
   const std::shared_ptr<ActionDataAbstract>& d = problem_->get_terminalData();
+  // dx_ has no element for the terminal node, its last one is used instead
+  m->get_state()->diff(xs_.back(), xs_try_.back(), dx_.back());
   lag_mul_.back() = Vxx_.back() * dx_.back() + Vx_.back();
   m->calc(d, xs_try_.back());
   cost_try_ += d->cost;
diff --git a/src/fddp.cpp b/src/fddp.cpp
index 4779175..0b23fc1 100644
--- a/src/fddp.cpp
+++ b/src/fddp.cpp
@@ -307,10 +307,10 @@ void SolverFDDP::forwardPass(const double steplength) {
       const std::shared_ptr<ActionModelAbstract>& m = models[t];
       const std::shared_ptr<ActionDataAbstract>& d = datas[t];
       const std::size_t nu = m->get_nu();
-      // compute Lagrange multipliers for KKT condition check
-      lag_mul_[t].noalias() = Vxx_[t] * dx_[t] + Vx_[t];
       xs_try_[t] = xnext_;
       m->get_state()->diff(xs_[t], xs_try_[t], dx_[t]);
+      // compute Lagrange multipliers for KKT condition check
+      lag_mul_[t].noalias() = Vxx_[t] * dx_[t] + Vx_[t];
       if (nu != 0) {
         us_try_[t].noalias() = us_[t] - k_[t] * steplength - K_[t] * dx_[t];
         m->calc(d, xs_try_[t], us_try_[t]);
@@ -336,8 +336,10 @@ void SolverFDDP::forwardPass(const double steplength) {
     const std::shared_ptr<ActionModelAbstract>& m =
         problem_->get_terminalModel();
     const std::shared_ptr<ActionDataAbstract>& d = problem_->get_terminalData();
-    lag_mul_.back() = Vxx_.back() * dx_.back() + Vx_.back();
     xs_try_.back() = xnext_;
+    // dx_ has no element for the terminal node, its last one is used instead
+    m->get_state()->diff(xs_.back(), xs_try_.back(), dx_.back());
+    lag_mul_.back() = Vxx_.back() * dx_.back() + Vx_.back();
     m->calc(d, xs_try_.back());
     cost_try_ += d->cost;
 
@@ -350,9 +352,9 @@ void SolverFDDP::forwardPass(const double steplength) {
       const std::shared_ptr<ActionModelAbstract>& m = models[t];
       const std::shared_ptr<ActionDataAbstract>& d = datas[t];
       const std::size_t nu = m->get_nu();
-      lag_mul_[t].noalias() = Vxx_[t] * (dx_[t] - fs_[t]) + Vx_[t];
       m->get_state()->integrate(xnext_, fs_[t] * (steplength - 1), xs_try_[t]);
       m->get_state()->diff(xs_[t], xs_try_[t], dx_[t]);
+      lag_mul_[t].noalias() = Vxx_[t] * (dx_[t] - fs_[t]) + Vx_[t];
       if (nu != 0) {
         us_try_[t].noalias() = us_[t] - k_[t] * steplength - K_[t] * dx_[t];
         m->calc(d, xs_try_[t], us_try_[t]);
@@ -378,9 +380,10 @@ void SolverFDDP::forwardPass(const double steplength) {
     const std::shared_ptr<ActionModelAbstract>& m =
         problem_->get_terminalModel();
     const std::shared_ptr<ActionDataAbstract>& d = problem_->get_terminalData();
-    lag_mul_.back() = Vxx_.back() * (dx_.back() - fs_.back()) + Vx_.back();
     m->get_state()->integrate(xnext_, fs_.back() * (steplength - 1),
                               xs_try_.back());
+    m->get_state()->diff(xs_.back(), xs_try_.back(), dx_.back());
+    lag_mul_.back() = Vxx_.back() * (dx_.back() - fs_.back()) + Vx_.back();
     m->calc(d, xs_try_.back());
     cost_try_ += d->cost;
 
-- 
2.43.0


From 917ab82f0aa8eb4a35ba5d575ab9223adf54047c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:09 +0000
Subject: [PATCH 15/37] fix: shrinking the filter size of SolverFDDP no longer
 leaves stale entries in its memory

---
 include/mim_solvers/fddp.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/mim_solvers/fddp.hpp b/include/mim_solvers/fddp.hpp
index a7d0340..c06695a 100644
--- a/include/mim_solvers/fddp.hpp
+++ b/include/mim_solvers/fddp.hpp
@@ -136,7 +136,11 @@ class SolverFDDP : public SolverDDP {
   };
   void set_filter_size(const std::size_t inFilterSize) {
     filter_size_ = inFilterSize;
+    // resize() alone never shrinks the capacity, and old entries would then be
+    // kept in front of the new ones
+    gap_list_.set_capacity(filter_size_);
     gap_list_.resize(filter_size_);
+    cost_list_.set_capacity(filter_size_);
     cost_list_.resize(filter_size_);
   };
   double get_gap_norm() const { return gap_norm_; };
-- 
2.43.0


From 799494d29ac6690e31f4c358ffb1622917bf2595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:18 +0000
Subject: [PATCH 16/37] fix: SolverCSQP and SolverPROXQP resize their data when
 the problem was updated with nodes of other dimensions

---
 include/mim_solvers/csqp.hpp        |  2 ++
 include/mim_solvers/csqp_proxqp.hpp |  2 ++
 src/csqp.cpp                        | 37 +++++++++++++++++++++++++++++
 src/csqp_proxqp.cpp                 | 29 ++++++++++++++++++++++
 4 files changed, 70 insertions(+)

diff --git a/include/mim_solvers/csqp.hpp b/include/mim_solvers/csqp.hpp
index a83ed94..232925d 100644
--- a/include/mim_solvers/csqp.hpp
+++ b/include/mim_solvers/csqp.hpp
@@ -117,6 +117,8 @@ class SolverCSQP : public SolverDDP {
 
   virtual void calc(const bool recalc = true);
 
+  virtual void resizeData();
+
   virtual void reset_params();
 
   virtual void reset_rho_vec();
diff --git a/include/mim_solvers/csqp_proxqp.hpp b/include/mim_solvers/csqp_proxqp.hpp
index 455ca2a..ed3b155 100644
--- a/include/mim_solvers/csqp_proxqp.hpp
+++ b/include/mim_solvers/csqp_proxqp.hpp
@@ -102,6 +102,8 @@ class SolverPROXQP : public SolverDDP {
    * @brief Computes the merit function, gaps at the given xs, us along with
    * delta x and delta u
    */
+  virtual void resizeData();
+
   virtual void computeDirection(const bool recalcDiff);
 
   virtual double tryStep(const double stepLength);
diff --git a/src/csqp.cpp b/src/csqp.cpp
index 063507b..a1195d2 100644
--- a/src/csqp.cpp
+++ b/src/csqp.cpp
@@ -199,6 +199,43 @@ void SolverCSQP::reset_params() {
 
 SolverCSQP::~SolverCSQP() {}
 
+void SolverCSQP::resizeData() {
+  START_PROFILER("SolverCSQP::resizeData");
+  SolverDDP::resizeData();
+
+  const std::size_t T = problem_->get_T();
+  const std::size_t ndx = problem_->get_ndx();
+  const std::vector<std::shared_ptr<crocoddyl::ActionModelAbstract>>& models =
+      problem_->get_runningModels();
+  for (std::size_t t = 0; t <= T; ++t) {
+    const bool terminal = t == T;
+    const std::shared_ptr<crocoddyl::ActionModelAbstract>& model =
+        terminal ? problem_->get_terminalModel() : models[t];
+    const std::size_t nc = model->get_ng();
+
+    if (static_cast<std::size_t>(y_[t].size()) != nc) {
+      y_[t].setZero(nc);
+      rho_vec_[t].setConstant(nc, rho_sparse_base_);
+      inv_rho_vec_[t].setConstant(nc, 1. / rho_sparse_base_);
+    }
+    z_[t].setZero(nc);
+    z_relaxed_[t].setZero(nc);
+    z_prev_[t].setZero(nc);
+    tmp_Cdx_Cdu_[t].setZero(nc);
+    tmp_dual_cwise_[t].setZero(nc);
+    tmp_rhoGx_mat_[t].setZero(nc, ndx);
+
+    if (!terminal) {
+      const std::size_t nu = model->get_nu();
+      du_[t].setZero(nu);
+      dutilde_[t].setZero(nu);
+      tmp_vec_u_[t].setZero(nu);
+      tmp_rhoGu_mat_[t].setZero(nc, nu);
+    }
+  }
+  STOP_PROFILER("SolverCSQP::resizeData");
+}
+
 bool SolverCSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
                        const std::vector<Eigen::VectorXd>& init_us,
                        const std::size_t maxiter, const bool /*is_feasible*/,
diff --git a/src/csqp_proxqp.cpp b/src/csqp_proxqp.cpp
index 76f0916..2e9e7ab 100644
--- a/src/csqp_proxqp.cpp
+++ b/src/csqp_proxqp.cpp
@@ -142,6 +142,35 @@ SolverPROXQP::SolverPROXQP(std::shared_ptr<crocoddyl::ShootingProblem> problem)
 
 SolverPROXQP::~SolverPROXQP() {}
 
+void SolverPROXQP::resizeData() {
+  START_PROFILER("SolverPROXQP::resizeData");
+  SolverDDP::resizeData();
+
+  // The rows and columns of the QP follow the dimensions of the nodes
+  const std::size_t T = problem_->get_T();
+  const std::vector<std::shared_ptr<ActionModelAbstract> >& models =
+      problem_->get_runningModels();
+  n_vars = n_eq;
+  n_in = 0;
+  for (std::size_t t = 0; t < T; ++t) {
+    du_[t].setZero(models[t]->get_nu());
+    y_[t].setZero(models[t]->get_ng());
+    n_vars += models[t]->get_nu();
+    n_in += models[t]->get_ng();
+  }
+  y_.back().setZero(problem_->get_terminalModel()->get_ng());
+  n_in += problem_->get_terminalModel()->get_ng();
+
+  P_.setZero(n_vars, n_vars);
+  q_.setZero(n_vars);
+  A_.setZero(n_eq, n_vars);
+  b_.setZero(n_eq);
+  C_.setZero(n_in, n_vars);
+  l_.setZero(n_in);
+  u_.setZero(n_in);
+  STOP_PROFILER("SolverPROXQP::resizeData");
+}
+
 bool SolverPROXQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
                          const std::vector<Eigen::VectorXd>& init_us,
                          const std::size_t maxiter, const bool is_feasible,
-- 
2.43.0


From 40135ef66d76e65c6425bbbf5ed677b8ed01f4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:19 +0000
Subject: [PATCH 17/37] fix: SolverDDP and SolverFDDP no longer evaluate
 running nodes without control as terminal nodes

---
 src/ddp.cpp  |  5 ++---
 src/fddp.cpp | 10 ++++------
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/ddp.cpp b/src/ddp.cpp
index 8bb7090..5f403eb 100644
--- a/src/ddp.cpp
+++ b/src/ddp.cpp
@@ -378,10 +378,9 @@ void SolverDDP::forwardPass(const double steplength) {
       us_try_[t].noalias() = us_[t];
       us_try_[t].noalias() -= k_[t] * steplength;
       us_try_[t].noalias() -= K_[t] * dx_[t];
-      m->calc(d, xs_try_[t], us_try_[t]);
-    } else {
-      m->calc(d, xs_try_[t]);
     }
+    // calc without control is the one of a terminal node
+    m->calc(d, xs_try_[t], us_try_[t]);
     xs_try_[t + 1] = d->xnext;
     cost_try_ += d->cost;
 
diff --git a/src/fddp.cpp b/src/fddp.cpp
index 0b23fc1..d15dc4d 100644
--- a/src/fddp.cpp
+++ b/src/fddp.cpp
@@ -313,10 +313,9 @@ void SolverFDDP::forwardPass(const double steplength) {
       lag_mul_[t].noalias() = Vxx_[t] * dx_[t] + Vx_[t];
       if (nu != 0) {
         us_try_[t].noalias() = us_[t] - k_[t] * steplength - K_[t] * dx_[t];
-        m->calc(d, xs_try_[t], us_try_[t]);
-      } else {
-        m->calc(d, xs_try_[t]);
       }
+      // calc without control is the one of a terminal node
+      m->calc(d, xs_try_[t], us_try_[t]);
       xnext_ = d->xnext;
       cost_try_ += d->cost;
 
@@ -357,10 +356,9 @@ void SolverFDDP::forwardPass(const double steplength) {
       lag_mul_[t].noalias() = Vxx_[t] * (dx_[t] - fs_[t]) + Vx_[t];
       if (nu != 0) {
         us_try_[t].noalias() = us_[t] - k_[t] * steplength - K_[t] * dx_[t];
-        m->calc(d, xs_try_[t], us_try_[t]);
-      } else {
-        m->calc(d, xs_try_[t]);
       }
+      // calc without control is the one of a terminal node
+      m->calc(d, xs_try_[t], us_try_[t]);
       xnext_ = d->xnext;
       cost_try_ += d->cost;
 
-- 
2.43.0


From b8d08b199e1d90b89e39bb3cf60743eba9fa29be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:19 +0000
Subject: [PATCH 18/37] fix: set_alphas() rejects an empty list and a first
 step length that is not positive

---
 src/ddp.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ddp.cpp b/src/ddp.cpp
index 5f403eb..d559399 100644
--- a/src/ddp.cpp
+++ b/src/ddp.cpp
@@ -608,7 +608,13 @@ void SolverDDP::set_regmax(const double regmax) {
 }
 
 void SolverDDP::set_alphas(const std::vector<double>& alphas) {
+  if (alphas.empty()) {
+    throw_pretty("Invalid argument: " << "alphas has to be non-empty.");
+  }
   double prev_alpha = alphas[0];
+  if (0. >= prev_alpha) {
+    throw_pretty("Invalid argument: " << "alpha values has to be positive.");
+  }
   if (prev_alpha != 1.) {
     std::cerr << "Warning: alpha[0] should be 1" << std::endl;
   }
-- 
2.43.0


From 86de79c2d31ddd7f37a564b7648187c9faad59c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:36 +0000
Subject: [PATCH 19/37] fix: the filter of SolverFDDP compares the gaps of the
 trial trajectory, not the length of its state changes

---
 src/fddp.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/fddp.cpp b/src/fddp.cpp
index d15dc4d..bfd32cb 100644
--- a/src/fddp.cpp
+++ b/src/fddp.cpp
@@ -303,6 +303,7 @@ void SolverFDDP::forwardPass(const double steplength) {
   const std::vector<std::shared_ptr<ActionDataAbstract> >& datas =
       problem_->get_runningDatas();
   if ((is_feasible_) || (steplength == 1)) {
+    // A roll-out has no gaps
     for (std::size_t t = 0; t < T; ++t) {
       const std::shared_ptr<ActionModelAbstract>& m = models[t];
       const std::shared_ptr<ActionDataAbstract>& d = datas[t];
@@ -319,9 +320,6 @@ void SolverFDDP::forwardPass(const double steplength) {
       xnext_ = d->xnext;
       cost_try_ += d->cost;
 
-      m->get_state()->diff(xs_try_[t], d->xnext, fs_try_[t]);
-      gap_norm_try_ += fs_try_[t].lpNorm<1>();
-
       if (raiseIfNaN(cost_try_)) {
         STOP_PROFILER("SolverFDDP::forwardPass");
         throw_pretty("forward_error");
@@ -352,6 +350,8 @@ void SolverFDDP::forwardPass(const double steplength) {
       const std::shared_ptr<ActionDataAbstract>& d = datas[t];
       const std::size_t nu = m->get_nu();
       m->get_state()->integrate(xnext_, fs_[t] * (steplength - 1), xs_try_[t]);
+      m->get_state()->diff(xs_try_[t], xnext_, fs_try_[t]);
+      gap_norm_try_ += fs_try_[t].lpNorm<1>();
       m->get_state()->diff(xs_[t], xs_try_[t], dx_[t]);
       lag_mul_[t].noalias() = Vxx_[t] * (dx_[t] - fs_[t]) + Vx_[t];
       if (nu != 0) {
@@ -362,9 +362,6 @@ void SolverFDDP::forwardPass(const double steplength) {
       xnext_ = d->xnext;
       cost_try_ += d->cost;
 
-      m->get_state()->diff(xs_try_[t], d->xnext, fs_try_[t]);
-      gap_norm_try_ += fs_try_[t].lpNorm<1>();
-
       if (raiseIfNaN(cost_try_)) {
         STOP_PROFILER("SolverFDDP::forwardPass");
         throw_pretty("forward_error");
@@ -380,6 +377,8 @@ void SolverFDDP::forwardPass(const double steplength) {
     const std::shared_ptr<ActionDataAbstract>& d = problem_->get_terminalData();
     m->get_state()->integrate(xnext_, fs_.back() * (steplength - 1),
                               xs_try_.back());
+    m->get_state()->diff(xs_try_.back(), xnext_, fs_try_.back());
+    gap_norm_try_ += fs_try_.back().lpNorm<1>();
     m->get_state()->diff(xs_.back(), xs_try_.back(), dx_.back());
     lag_mul_.back() = Vxx_.back() * (dx_.back() - fs_.back()) + Vx_.back();
     m->calc(d, xs_try_.back());
-- 
2.43.0


From aa6cdfbfed796f7a0c0262c1cb07330d47056da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:36 +0000
Subject: [PATCH 20/37] fix: SolverFDDP keeps the cost of a step accepted by
 its filter

---
 src/fddp.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fddp.cpp b/src/fddp.cpp
index bfd32cb..0a8c633 100644
--- a/src/fddp.cpp
+++ b/src/fddp.cpp
@@ -142,6 +142,7 @@ bool SolverFDDP::solve(const std::vector<Eigen::VectorXd>& init_xs,
         }
         if (is_worse_than_memory_ == false) {
           setCandidate(xs_try_, us_try_, false);
+          cost_ = cost_try_;
           recalcDiff = true;
           break;
         }
-- 
2.43.0


From db1ced5542031cf3be679880baa3cbc1ed07575c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:36 +0000
Subject: [PATCH 21/37] fix: the KKT residual of SolverKKT follows the signs of
 its multipliers and includes the gaps

---
 src/kkt.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/kkt.cpp b/src/kkt.cpp
index 30325a9..fbe782a 100644
--- a/src/kkt.cpp
+++ b/src/kkt.cpp
@@ -144,20 +144,18 @@ double SolverKKT::tryStep(const double steplength) {
 void SolverKKT::checkKKTConditions() {
   KKT_ = 0.;
   const std::size_t T = problem_->get_T();
-  const std::size_t ndx = problem_->get_ndx();
   const std::vector<std::shared_ptr<crocoddyl::ActionDataAbstract> >& datas =
       problem_->get_runningDatas();
   for (std::size_t t = 0; t < T; ++t) {
     const std::shared_ptr<crocoddyl::ActionDataAbstract>& d = datas[t];
     KKT_ = maxResidual(
-        KKT_, d->Lx + d->Fx.transpose() * lambdas_[t + 1] - lambdas_[t]);
-    KKT_ = maxResidual(KKT_, d->Lu + d->Fu.transpose() * lambdas_[t + 1]);
-    fs_flat_.segment(t * ndx, ndx) = fs_[t];
+        KKT_, d->Lx + lambdas_[t] - d->Fx.transpose() * lambdas_[t + 1]);
+    KKT_ = maxResidual(KKT_, d->Lu - d->Fu.transpose() * lambdas_[t + 1]);
   }
-  fs_flat_.tail(ndx) = fs_.back();
+  fs_flat_ = kktref_.tail(ndx_);
   const std::shared_ptr<crocoddyl::ActionDataAbstract>& d_ter =
       problem_->get_terminalData();
-  KKT_ = maxResidual(KKT_, d_ter->Lx - lambdas_.back());
+  KKT_ = maxResidual(KKT_, d_ter->Lx + lambdas_.back());
   KKT_ = maxResidual(KKT_, fs_flat_);
 }
 
-- 
2.43.0


From 436d617d6008f47645d16a1ec031666eba70ecef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:36 +0000
Subject: [PATCH 22/37] fix: SolverKKT follows updates of the problem and no
 longer remembers the feasibility of an earlier solve

---
 src/kkt.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/kkt.cpp b/src/kkt.cpp
index fbe782a..c2a5c03 100644
--- a/src/kkt.cpp
+++ b/src/kkt.cpp
@@ -47,7 +47,12 @@ bool SolverKKT::solve(const std::vector<Eigen::VectorXd>& init_xs,
                       const std::vector<Eigen::VectorXd>& init_us,
                       const std::size_t maxiter, const bool is_feasible,
                       const double) {
+  if (problem_->is_updated()) {
+    resizeData();
+    allocateData();
+  }
   setCandidate(init_xs, init_us, is_feasible);
+  was_feasible_ = false;
   for (iter_ = 0; iter_ < maxiter; ++iter_) {
     computeDirection(true);
 
-- 
2.43.0


From 72787c8862a3d4f437d3ffb157bd0ace8081a447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:55 +0000
Subject: [PATCH 23/37] fix: SolverDDP and SolverFDDP no longer pass themselves
 off as SolverSQP to their callbacks

---
 bindings/mim_solvers/__init__.py | 14 +++++++++++++-
 src/ddp.cpp                      |  2 +-
 src/fddp.cpp                     |  2 +-
 src/utils/callbacks.cpp          | 14 ++++++++++++++
 4 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/bindings/mim_solvers/__init__.py b/bindings/mim_solvers/__init__.py
index cf98979..d50afc8 100644
--- a/bindings/mim_solvers/__init__.py
+++ b/bindings/mim_solvers/__init__.py
@@ -47,8 +47,20 @@ class CallbackLogger(CallbackAbstract):  # noqa: F405
             safe_append("dreg", solver.dreg)
             safe_append("step", solver.stepLength)
             safe_append("KKT", solver.KKT)
+        elif solver_type in ("DDP", "FDDP"):
+            safe_append("us", copy.copy((solver.us)))
+            safe_append("xs", copy.copy((solver.xs)))
+            safe_append("fs", copy.copy((solver.fs)))
+            safe_append("iter", solver.iter)
+            safe_append("cost", solver.cost)
+            safe_append("preg", solver.preg)
+            safe_append("dreg", solver.dreg)
+            safe_append("step", solver.stepLength)
+            safe_append("KKT", solver.KKT)
         else:
-            raise NotImplementedError("CallbackLogger is implemented for CSQP and SQP.")
+            raise NotImplementedError(
+                "CallbackLogger is implemented for CSQP, SQP, DDP and FDDP."
+            )
 
 
 def plotConvergence(data, show=True):
diff --git a/src/ddp.cpp b/src/ddp.cpp
index d559399..92c92e1 100644
--- a/src/ddp.cpp
+++ b/src/ddp.cpp
@@ -159,7 +159,7 @@ bool SolverDDP::solve(const std::vector<Eigen::VectorXd>& init_xs,
     const std::size_t n_callbacks = callbacks_.size();
     for (std::size_t c = 0; c < n_callbacks; ++c) {
       mim_solvers::CallbackAbstract& callback = *callbacks_[c];
-      callback(*this, "SQP");
+      callback(*this, "DDP");
     }
 
     // if (was_feasible_ && stop_ < th_stop_) {
diff --git a/src/fddp.cpp b/src/fddp.cpp
index 0a8c633..858cc30 100644
--- a/src/fddp.cpp
+++ b/src/fddp.cpp
@@ -191,7 +191,7 @@ bool SolverFDDP::solve(const std::vector<Eigen::VectorXd>& init_xs,
     const std::size_t n_callbacks = callbacks_.size();
     for (std::size_t c = 0; c < n_callbacks; ++c) {
       mim_solvers::CallbackAbstract& callback = *callbacks_[c];
-      callback(*this, "SQP");
+      callback(*this, "FDDP");
     }
 
     // std::cout << "KKT = " << KKT_ << std::endl;
diff --git a/src/utils/callbacks.cpp b/src/utils/callbacks.cpp
index 07af0b2..9ac2e2a 100644
--- a/src/utils/callbacks.cpp
+++ b/src/utils/callbacks.cpp
@@ -66,6 +66,10 @@ void CallbackVerbose::update_header(const std::string solver_type) {
     header_ += center_string("||gaps||", columnwidth) + separator_;
     header_ += center_string("step", columnwidth) + separator_;
     header_ += center_string("KKT criteria", columnwidth) + separator_;
+  } else if (solver_type == "DDP" || solver_type == "FDDP") {
+    header_ += center_string("cost", columnwidth) + separator_;
+    header_ += center_string("step", columnwidth) + separator_;
+    header_ += center_string("KKT criteria", columnwidth);
   } else {
     throw_pretty("The solver type is not supported.");
   }
@@ -160,6 +164,16 @@ void CallbackVerbose::operator()(crocoddyl::SolverAbstract& solver,
                 << solver_cast.get_KKT() << separator_ << separator_
                 << separator_short_;  // KKT criteria
     }
+  } else if (solver_type == "DDP" || solver_type == "FDDP") {
+    // These solvers have neither a merit function nor a common gap norm, and
+    // call their callbacks once the step has been taken
+    SolverDDP& solver_cast = static_cast<SolverDDP&>(solver);
+    std::cout << std::scientific << std::setprecision(precision_)
+              << solver_cast.get_cost() << separator_;  // cost
+    std::cout << std::scientific << std::setprecision(precision_)
+              << solver_cast.get_steplength() << separator_;  // step
+    std::cout << std::scientific << std::setprecision(precision_)
+              << solver_cast.get_KKT() << separator_;  // KKT criteria
   }
 
   std::cout << std::endl;
-- 
2.43.0


From 92f3618f9c7235e1c63640b3f42bbbc94710635d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:03 +0000
Subject: [PATCH 24/37] fix: SolverKKT does not accept a step with a NaN cost

---
 src/kkt.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kkt.cpp b/src/kkt.cpp
index c2a5c03..05d55be 100644
--- a/src/kkt.cpp
+++ b/src/kkt.cpp
@@ -143,6 +143,9 @@ double SolverKKT::tryStep(const double steplength) {
       problem_->get_terminalModel();
   m->get_state()->integrate(xs_[T], steplength * dxs_[T], xs_try_[T]);
   cost_try_ = problem_->calc(xs_try_, us_try_);
+  if (crocoddyl::raiseIfNaN(cost_try_)) {
+    throw_pretty("step_error");
+  }
   return cost_ - cost_try_;
 }
 
-- 
2.43.0


From 31cce3ac3c3456ee036b5c07c7d5058e45425d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:07 +0000
Subject: [PATCH 25/37] fix: SolverCSQP::tryStep no longer throws out of an
 OpenMP parallel region

An exception that leaves a parallel region ends the process, so a trial step
with a NaN cost could not be skipped with multithreading. The check after the
loop covers it.
---
 src/csqp.cpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/csqp.cpp b/src/csqp.cpp
index a1195d2..5a02616 100644
--- a/src/csqp.cpp
+++ b/src/csqp.cpp
@@ -1451,11 +1451,6 @@ double SolverCSQP::tryStep(const double steplength) {
         (m->get_g_lb() - d->g).cwiseMax(Eigen::VectorXd::Zero(nc)).lpNorm<1>();
     constraint_norm_try_ +=
         (d->g - m->get_g_ub()).cwiseMax(Eigen::VectorXd::Zero(nc)).lpNorm<1>();
-
-    if (raiseIfNaN(cost_try_)) {
-      profiler_tryStep.stop();
-      throw_pretty("step_error");
-    }
   }
 
   // Terminal state update
-- 
2.43.0


From 8009250f1090e2936b0a100ae861944ccfacc612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:17 +0000
Subject: [PATCH 26/37] fix: no gain is computed for nodes without controls

SolverCSQP applied the Cholesky factorisation of Quu to the feed-forward term of
nodes without controls as well.  It was never computed there, or, after a node
lost its controls, still has the old size, and the solve writes behind the end
of the vector.
---
 src/csqp.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/csqp.cpp b/src/csqp.cpp
index 5a02616..d1f26e3 100644
--- a/src/csqp.cpp
+++ b/src/csqp.cpp
@@ -1149,8 +1149,10 @@ void SolverCSQP::backwardPass_without_rho_update() {
     }
 
     profiler_k.start();
-    k_[t] = Qu_[t];
-    Quu_llt_[t].solveInPlace(k_[t]);
+    if (nu != 0) {
+      k_[t] = Qu_[t];
+      Quu_llt_[t].solveInPlace(k_[t]);
+    }
     profiler_k.stop();
 
     profiler_Vx.start();
@@ -1242,8 +1244,10 @@ void SolverCSQP::backwardPass_without_rho_update_mt() {
 #pragma omp parallel for num_threads(problem_->get_nthreads())
 #endif  // CROCODDYL_WITH_MULTITHREADING
   for (std::size_t t = 0; t < T; ++t) {
-    k_[t] = Qu_[t];
-    Quu_llt_[t].solveInPlace(k_[t]);
+    if (k_[t].size() != 0) {
+      k_[t] = Qu_[t];
+      Quu_llt_[t].solveInPlace(k_[t]);
+    }
   }
   profiler_mt2.stop();
   profiler_all.stop();
-- 
2.43.0


From 7e4bb22230b221d3fb14354f816f5c19ef3f0329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:39 +0000
Subject: [PATCH 27/37] fix: the solvers' data is initialised before the first
 solve and after a resize

SolverCSQP::computeDirection() read the penalties of the constraint rows before
anything was stored in them unless solve() had run first (and rows with crossing
bounds never got one), and resizing the data of a solver left what happened to
be in memory in the new entries.
---
 src/csqp.cpp |  9 +++++----
 src/ddp.cpp  | 18 +++++++++---------
 2 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/csqp.cpp b/src/csqp.cpp
index d1f26e3..e525597 100644
--- a/src/csqp.cpp
+++ b/src/csqp.cpp
@@ -107,8 +107,8 @@ SolverCSQP::SolverCSQP(std::shared_ptr<crocoddyl::ShootingProblem> problem)
     Vxx_fs_[t].resize(ndx);
     Vxx_fs_[t].setZero();
 
-    rho_vec_[t].resize(nc);
-    inv_rho_vec_[t].resize(nc);
+    rho_vec_[t].setConstant(nc, rho_sparse_base_);
+    inv_rho_vec_[t].setConstant(nc, 1. / rho_sparse_base_);
   }
 
   xs_try_.back() = problem_->get_terminalModel()->get_state()->zero();
@@ -139,8 +139,8 @@ SolverCSQP::SolverCSQP(std::shared_ptr<crocoddyl::ShootingProblem> problem)
   tmp_rhoGx_mat_.back().resize(nc, ndx);
   tmp_rhoGx_mat_.back().setZero();
 
-  rho_vec_.back().resize(nc);
-  inv_rho_vec_.back().resize(nc);
+  rho_vec_.back().setConstant(nc, rho_sparse_base_);
+  inv_rho_vec_.back().setConstant(nc, 1. / rho_sparse_base_);
 
   // Check that no equality constraint was specified through Crocoddyl's API
   n_eq_crocoddyl += problem_->get_terminalModel()->get_nh();
@@ -153,6 +153,7 @@ SolverCSQP::SolverCSQP(std::shared_ptr<crocoddyl::ShootingProblem> problem)
         "     lower and upper bounds in the constructor of the constraint "
         "model residual or by setting g_ub and g_lb.")
   }
+  reset_rho_vec();
 
   const std::size_t n_alphas = 10;
   alphas_.resize(n_alphas);
diff --git a/src/ddp.cpp b/src/ddp.cpp
index 92c92e1..c71d39a 100644
--- a/src/ddp.cpp
+++ b/src/ddp.cpp
@@ -248,14 +248,14 @@ void SolverDDP::resizeData() {
   for (std::size_t t = 0; t < T; ++t) {
     const std::shared_ptr<ActionModelAbstract>& model = models[t];
     const std::size_t nu = model->get_nu();
-    Qxu_[t].conservativeResize(ndx, nu);
-    Quu_[t].conservativeResize(nu, nu);
-    Qu_[t].conservativeResize(nu);
-    K_[t].conservativeResize(nu, ndx);
-    k_[t].conservativeResize(nu);
-    us_try_[t].conservativeResize(nu);
-    FuTVxx_p_[t].conservativeResize(nu, ndx);
-    Quuk_[t].conservativeResize(nu);
+    Qxu_[t].setZero(ndx, nu);
+    Quu_[t].setZero(nu, nu);
+    Qu_[t].setZero(nu);
+    K_[t].setZero(nu, ndx);
+    k_[t].setZero(nu);
+    us_try_[t].setZero(nu);
+    FuTVxx_p_[t].setZero(nu, ndx);
+    Quuk_[t].setZero(nu);
   }
   STOP_PROFILER("SolverDDP::resizeData");
 }
@@ -501,7 +501,7 @@ void SolverDDP::allocateData() {
 
     FuTVxx_p_[t] = MatrixXdRowMajor::Zero(nu, ndx);
     Quu_llt_[t] = Eigen::LLT<Eigen::MatrixXd>(nu);
-    Quuk_[t] = Eigen::VectorXd(nu);
+    Quuk_[t] = Eigen::VectorXd::Zero(nu);
   }
   Vxx_.back() = Eigen::MatrixXd::Zero(ndx, ndx);
   Vxx_tmp_ = Eigen::MatrixXd::Zero(ndx, ndx);
-- 
2.43.0


From 59d8d5263dca538455cb923e091a5cd02045b05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:21 +0000
Subject: [PATCH 28/37] fix: SolverCSQP rejects a penalty update interval of
 zero

It is used as a divisor; solve() ended in a division by zero.
---
 include/mim_solvers/csqp.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/mim_solvers/csqp.hpp b/include/mim_solvers/csqp.hpp
index 232925d..2d7798f 100644
--- a/include/mim_solvers/csqp.hpp
+++ b/include/mim_solvers/csqp.hpp
@@ -210,6 +210,9 @@ class SolverCSQP : public SolverDDP {
   void setQPCallbacks(const bool inCallbacks);
 
   void set_rho_update_interval(const std::size_t interval) {
+    if (interval == 0) {
+      throw_pretty("Invalid argument: rho_update_interval has to be positive.");
+    }
     rho_update_interval_ = interval;
   };
   void set_adaptive_rho_tolerance(const std::size_t tolerance) {
-- 
2.43.0


From 915ac80a0e44eb6f5fca2217b6159b9863ea66b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:41 +0000
Subject: [PATCH 29/37] fix: Python computeDirection() and tryStep() call the
 solver's own versions

The overload macros of SolverDDP named the methods with a qualified name, so
the calls were not virtual: on SolverSQP, SolverCSQP, SolverPROXQP and
SolverFDDP, which inherit these methods from SolverDDP in Python, they ran
the DDP implementation.
---
 bindings/ddp.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bindings/ddp.cpp b/bindings/ddp.cpp
index 57de420..276db23 100644
--- a/bindings/ddp.cpp
+++ b/bindings/ddp.cpp
@@ -21,10 +21,11 @@ namespace mim_solvers {
 namespace bp = boost::python;
 
 BOOST_PYTHON_MEMBER_FUNCTION_OVERLOADS(SolverDDP_solves, SolverDDP::solve, 0, 5)
+// The names are not qualified: these calls have to reach the overrides of the
+// derived solvers, which inherit these methods
 BOOST_PYTHON_MEMBER_FUNCTION_OVERLOADS(SolverDDP_computeDirections,
-                                       SolverDDP::computeDirection, 0, 1)
-BOOST_PYTHON_MEMBER_FUNCTION_OVERLOADS(SolverDDP_trySteps, SolverDDP::tryStep,
-                                       0, 1)
+                                       computeDirection, 0, 1)
+BOOST_PYTHON_MEMBER_FUNCTION_OVERLOADS(SolverDDP_trySteps, tryStep, 0, 1)
 
 // Wrapper function to handle deprecation warning upon instantiation
 std::shared_ptr<SolverDDP> createSolverDDP(
-- 
2.43.0


From 4fb4632030b936e1356a3cf2dec7b62650f641a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:30 +0000
Subject: [PATCH 30/37] fix: the Python solvers leave the initial guess of
 their caller unchanged

solve() replaced the first state in the list it was given.
---
 python/csqp.py    | 1 +
 python/sqp.py     | 1 +
 python/sqp_cpp.py | 1 +
 3 files changed, 3 insertions(+)

diff --git a/python/csqp.py b/python/csqp.py
index 3506e28..d4b4afd 100644
--- a/python/csqp.py
+++ b/python/csqp.py
@@ -248,6 +248,7 @@ class CSQP(StagewiseADMM, QPSolvers):
         if init_us is None or len(init_us) < 1:
             init_us = [np.zeros(m.nu) for m in self.problem.runningModels]
 
+        init_xs = list(init_xs)  # the list of the caller is left as it is
         init_xs[0] = self.problem.x0.copy()  # Initial condition guess must be x0
 
         self.gap_list = collections.deque(
diff --git a/python/sqp.py b/python/sqp.py
index 64138d0..a6233b0 100644
--- a/python/sqp.py
+++ b/python/sqp.py
@@ -260,6 +260,7 @@ class SQP(SolverAbstract):
         if init_us is None or len(init_us) < 1:
             init_us = [np.zeros(m.nu) for m in self.problem.runningModels]
 
+        init_xs = list(init_xs)  # the list of the caller is left as it is
         init_xs[0] = self.problem.x0.copy()  # Initial condition guess must be x0
 
         self.gap_list = collections.deque(
diff --git a/python/sqp_cpp.py b/python/sqp_cpp.py
index 904b13e..e028c1b 100644
--- a/python/sqp_cpp.py
+++ b/python/sqp_cpp.py
@@ -128,6 +128,7 @@ class SQP_CPP(crocoddyl.SolverFDDP):
         if init_us is None or len(init_us) < 1:
             init_us = [np.zeros(m.nu) for m in self.problem.runningModels]
 
+        init_xs = list(init_xs)  # the list of the caller is left as it is
         init_xs[0] = self.problem.x0.copy()  # Initial condition guess must be x0
 
         self.setCandidate(init_xs, init_us, False)
-- 
2.43.0


From dd73c6b6ea9fa9535919fec6053261dd20d1962b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:30 +0000
Subject: [PATCH 31/37] fix: SQP with callbacks can report convergence before
 the first step

The step length that the last line of the table shows did not exist yet, and
formatting it raised an exception.
---
 python/sqp.py     | 2 +-
 python/sqp_cpp.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/sqp.py b/python/sqp.py
index a6233b0..347c692 100644
--- a/python/sqp.py
+++ b/python/sqp.py
@@ -272,7 +272,7 @@ class SQP(SolverAbstract):
 
         self.setCandidate(init_xs, init_us, False)
 
-        alpha = None
+        alpha = 0.0  # no step has been taken yet
         if self.with_callbacks:
             headings = ["iter", "merit", "cost", "grad", "step", "||gaps||", "KKT"]
 
diff --git a/python/sqp_cpp.py b/python/sqp_cpp.py
index e028c1b..1411e84 100644
--- a/python/sqp_cpp.py
+++ b/python/sqp_cpp.py
@@ -133,7 +133,7 @@ class SQP_CPP(crocoddyl.SolverFDDP):
 
         self.setCandidate(init_xs, init_us, False)
 
-        alpha = None
+        alpha = 0.0  # no step has been taken yet
         self.cost_list = collections.deque(
             [np.inf] * self.filter_size, maxlen=self.filter_size
         )
-- 
2.43.0


From f680157fee4550aff5aaf279288bad86b552a2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:30 +0000
Subject: [PATCH 32/37] fix: the Python filter line search rejects the same
 trials as the C++ one

A trial that was as bad as the memory in one measure (two feasible
trajectories, for instance) was never rejected, however much the cost
increased, and CSQP did not look at the constraints at all.
---
 python/csqp.py    | 7 +++++--
 python/sqp.py     | 5 +++--
 python/sqp_cpp.py | 5 +++--
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/python/csqp.py b/python/csqp.py
index d4b4afd..7a5e84c 100644
--- a/python/csqp.py
+++ b/python/csqp.py
@@ -328,9 +328,12 @@ class CSQP(StagewiseADMM, QPSolvers):
                         and count <= iter
                     ):
                         is_worse_than_memory = (
-                            self.cost_list[self.filter_size - 1 - count] < self.cost_try
+                            self.cost_list[self.filter_size - 1 - count]
+                            <= self.cost_try
                             and self.gap_list[self.filter_size - 1 - count]
-                            < self.gap_norm_try
+                            <= self.gap_norm_try
+                            and self.constraint_list[self.filter_size - 1 - count]
+                            <= self.constraint_norm_try
                         )
                         count += 1
 
diff --git a/python/sqp.py b/python/sqp.py
index 347c692..6aedb53 100644
--- a/python/sqp.py
+++ b/python/sqp.py
@@ -314,9 +314,10 @@ class SQP(SolverAbstract):
                         and count <= iter
                     ):
                         is_worse_than_memory = (
-                            self.cost_list[self.filter_size - 1 - count] < self.cost_try
+                            self.cost_list[self.filter_size - 1 - count]
+                            <= self.cost_try
                             and self.gap_list[self.filter_size - 1 - count]
-                            < self.gap_norm_try
+                            <= self.gap_norm_try
                         )
                         count += 1
 
diff --git a/python/sqp_cpp.py b/python/sqp_cpp.py
index 1411e84..9b0700c 100644
--- a/python/sqp_cpp.py
+++ b/python/sqp_cpp.py
@@ -162,9 +162,10 @@ class SQP_CPP(crocoddyl.SolverFDDP):
                         and count <= iter
                     ):
                         is_worse_than_memory = (
-                            self.cost_list[self.filter_size - 1 - count] < self.cost_try
+                            self.cost_list[self.filter_size - 1 - count]
+                            <= self.cost_try
                             and self.gap_list[self.filter_size - 1 - count]
-                            < self.gap_norm_try
+                            <= self.gap_norm_try
                         )
                         count += 1
 
-- 
2.43.0


From 7a87909b89b5ebc3ddbd82920914ca5314300b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:30 +0000
Subject: [PATCH 33/37] fix: the Python merit line search accepts the last step
 length

The trial with the smallest step length was evaluated but never compared.
---
 python/csqp.py    | 6 +++---
 python/sqp.py     | 6 +++---
 python/sqp_cpp.py | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/python/csqp.py b/python/csqp.py
index 7a5e84c..752bef8 100644
--- a/python/csqp.py
+++ b/python/csqp.py
@@ -341,12 +341,12 @@ class CSQP(StagewiseADMM, QPSolvers):
                         self.acceptStep(alpha)
                         break
                 else:
-                    if k == max_search - 1:
-                        print("No improvement")
-                        return False
                     if self.merit > self.merit_try:
                         self.acceptStep(alpha)
                         break
+                    if k == max_search - 1:
+                        print("No improvement")
+                        return False
 
                 alpha *= 0.5
 
diff --git a/python/sqp.py b/python/sqp.py
index 6aedb53..e7a87ff 100644
--- a/python/sqp.py
+++ b/python/sqp.py
@@ -325,12 +325,12 @@ class SQP(SolverAbstract):
                         self.acceptStep()
                         break
                 else:
-                    if k == max_search - 1:
-                        print("No improvement")
-                        return False
                     if self.merit > self.merit_try:
                         self.acceptStep()
                         break
+                    if k == max_search - 1:
+                        print("No improvement")
+                        return False
 
                 alpha *= 0.5
 
diff --git a/python/sqp_cpp.py b/python/sqp_cpp.py
index 9b0700c..e428850 100644
--- a/python/sqp_cpp.py
+++ b/python/sqp_cpp.py
@@ -173,12 +173,12 @@ class SQP_CPP(crocoddyl.SolverFDDP):
                         self.acceptStep()
                         break
                 else:
-                    if k == max_search - 1:
-                        print("No improvement")
-                        return False
                     if self.merit > self.merit_try:
                         self.acceptStep()
                         break
+                    if k == max_search - 1:
+                        print("No improvement")
+                        return False
 
                 alpha *= 0.5
 
-- 
2.43.0


From 20c152e142233698d7b8dccb8a2054506c1dda87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:44 +0000
Subject: [PATCH 34/37] fix: SQP_CPP measures the gaps of a trial like those of
 the iterate

The line search compared gaps divided by the horizon with gaps that were not.
---
 python/sqp_cpp.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/python/sqp_cpp.py b/python/sqp_cpp.py
index e428850..ec390ae 100644
--- a/python/sqp_cpp.py
+++ b/python/sqp_cpp.py
@@ -110,9 +110,7 @@ class SQP_CPP(crocoddyl.SolverFDDP):
         self.problem.terminalModel.calc(self.problem.terminalData, self.xs_try[-1])
         self.cost_try += self.problem.terminalData.cost
 
-        self.gap_norm_try = (
-            sum(np.linalg.norm(self.gap_try, 1, axis=1)) / self.problem.T
-        )
+        self.gap_norm_try = sum(np.linalg.norm(self.gap_try, 1, axis=1))
 
         self.merit_try = self.cost_try + self.mu * self.gap_norm_try
         # print("cost_try", self.cost_try, "gaps_try", self.gap_norm_try, "merit try", self.merit_try)
-- 
2.43.0


From d347edf4f55adb502a98874b10c135087926caf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:33 +0000
Subject: [PATCH 35/37] fix: SQP_CPP reports convergence only where it
 converged

It claimed convergence when the iterations ran out, judged an iterate by the
multipliers of the previous one, and once converged still took a step along
the previous direction.
---
 python/sqp_cpp.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/python/sqp_cpp.py b/python/sqp_cpp.py
index ec390ae..37c384a 100644
--- a/python/sqp_cpp.py
+++ b/python/sqp_cpp.py
@@ -36,13 +36,14 @@ class SQP_CPP(crocoddyl.SolverFDDP):
     def computeDirection(self, kkt_check=True):
         # print("using Python")
         self.calc()
+        self.backwardPass()
+        self.computeUpdates()
         if kkt_check:
+            # with the multipliers that belong to the current iterate
             self.KKT_check()
             if self.KKT < self.termination_tolerance:
                 return True
 
-        self.backwardPass()
-        self.computeUpdates()
         return False
 
     def computeUpdates(self):
@@ -144,7 +145,21 @@ class SQP_CPP(crocoddyl.SolverFDDP):
             print("{:>3} {:>9} {:>10} {:>11} {:>8} {:>11} {:>8}".format(*headings))
 
         for iter in range(maxiter):
-            self.computeDirection()
+            if self.computeDirection():
+                if self.with_callbacks:
+                    print(
+                        "{:>4} {:.5e} {:.5e} {:.5e} {:.4f} {:.5e} {:.5e}".format(
+                            iter,
+                            float(self.merit),
+                            self.cost,
+                            self.x_grad_norm + self.u_grad_norm,
+                            alpha,
+                            self.gap_norm,
+                            self.KKT,
+                        )
+                    )
+                return True
+
             self.gap_list.append(self.gap_norm)
             self.cost_list.append(self.cost)
             alpha = 1.0
@@ -180,9 +195,6 @@ class SQP_CPP(crocoddyl.SolverFDDP):
 
                 alpha *= 0.5
 
-            if self.KKT < self.termination_tolerance:
-                return True
-
             if self.with_callbacks:
                 print(
                     "{:>4} {:.5e} {:.5e} {:.5e} {:.4f} {:.5e} {:.5e}".format(
@@ -196,7 +208,7 @@ class SQP_CPP(crocoddyl.SolverFDDP):
                     )
                 )
 
-        return True
+        return False
 
     def models(self):
         mod = [m for m in self.problem.runningModels]
-- 
2.43.0


From 3c0dac68cb49cf4aff724895aae50ee6358e5c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:19 +0000
Subject: [PATCH 36/37] fix: StagewiseQPKKT sizes its QP iterate by ndx, not nx

---
 python/qp_solvers/qpsolvers.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/python/qp_solvers/qpsolvers.py b/python/qp_solvers/qpsolvers.py
index 7d17e49..53b0c12 100644
--- a/python/qp_solvers/qpsolvers.py
+++ b/python/qp_solvers/qpsolvers.py
@@ -888,9 +888,7 @@ class QPSolvers(SolverAbstract, CustomOSQP, StagewiseQPKKT):
             self.q = np.array(q).copy()
 
             if self.initialize:
-                self.xs_vec = np.array(self.xs).flatten()[self.ndx :]
-                self.us_vec = np.array(self.us).flatten()
-                self.x_k = np.zeros_like(np.hstack((self.xs_vec, self.us_vec)))
+                self.x_k = np.zeros(self.n_vars)
                 self.z_k = np.zeros(self.n_in)
                 self.y_k = np.zeros(self.n_in)
 
-- 
2.43.0


From d2de5905a40d796b1e8632aa949474797470b25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:28 +0000
Subject: [PATCH 37/37] fix: SolverPROXQP sizes its QP by ndx, not nx

---
 src/csqp_proxqp.cpp | 54 ++++++++++++++++++++++-----------------------
 1 file changed, 27 insertions(+), 27 deletions(-)

diff --git a/src/csqp_proxqp.cpp b/src/csqp_proxqp.cpp
index 2e9e7ab..7057461 100644
--- a/src/csqp_proxqp.cpp
+++ b/src/csqp_proxqp.cpp
@@ -44,18 +44,18 @@ SolverPROXQP::SolverPROXQP(std::shared_ptr<crocoddyl::ShootingProblem> problem)
 
   const std::vector<std::shared_ptr<ActionModelAbstract> >& models =
       problem_->get_runningModels();
-  // We allow nx and nu to change with time
+  // We allow ndx and nu to change with time
   n_vars = 0;
   n_eq = 0;
   for (std::size_t t = 0; t < T; ++t) {
     if (t < T - 1) {
-      n_vars += models[t + 1]->get_state()->get_nx();
-      n_eq += models[t + 1]->get_state()->get_nx();
+      n_vars += models[t + 1]->get_state()->get_ndx();
+      n_eq += models[t + 1]->get_state()->get_ndx();
     }
     n_vars += models[t]->get_nu();
   }
-  n_vars += problem_->get_terminalModel()->get_state()->get_nx();
-  n_eq += problem_->get_terminalModel()->get_state()->get_nx();
+  n_vars += problem_->get_terminalModel()->get_state()->get_ndx();
+  n_eq += problem_->get_terminalModel()->get_state()->get_ndx();
   P_.resize(n_vars, n_vars);
   P_.setZero();
   q_.resize(n_vars), q_.setZero();
@@ -116,7 +116,7 @@ SolverPROXQP::SolverPROXQP(std::shared_ptr<crocoddyl::ShootingProblem> problem)
   y_.back().resize(nc);
   y_.back().setZero();
   n_in += nc;
-  // n_eq = T* nx;
+  // n_eq = T* ndx;
 
   C_.resize(n_in, n_vars);
   C_.setZero();
@@ -318,7 +318,7 @@ void SolverPROXQP::calc(const bool recalc) {
   for (std::size_t t = 0; t < T; ++t) {
     const std::shared_ptr<ActionModelAbstract>& m = models[t];
     const std::shared_ptr<ActionDataAbstract>& d = datas[t];
-    const int nx = m->get_state()->get_nx();
+    const int ndx = m->get_state()->get_ndx();
     const int nu = m->get_nu();
 
     m->get_state()->diff(xs_[t + 1], d->xnext, fs_[t + 1]);
@@ -335,16 +335,16 @@ void SolverPROXQP::calc(const bool recalc) {
 
     // creating matrices
     if (t > 0) {
-      const double index_x = (t - 1) * nx;
-      P_.middleCols(index_x, nx).middleRows(index_x, nx) = d->Lxx;
-      P_.middleCols(index_u, nu).middleRows(index_x, nx) = d->Lxu;
-      P_.middleCols(index_x, nx).middleRows(index_u, nu) = d->Lxu.transpose();
-      q_.segment(index_x, nx) = d->Lx;
+      const double index_x = (t - 1) * ndx;
+      P_.middleCols(index_x, ndx).middleRows(index_x, ndx) = d->Lxx;
+      P_.middleCols(index_u, nu).middleRows(index_x, ndx) = d->Lxu;
+      P_.middleCols(index_x, ndx).middleRows(index_u, nu) = d->Lxu.transpose();
+      q_.segment(index_x, ndx) = d->Lx;
 
-      A_.middleCols((t - 1) * nx, nx).middleRows(t * nx, nx) = -d->Fx;
+      A_.middleCols((t - 1) * ndx, ndx).middleRows(t * ndx, ndx) = -d->Fx;
 
       if (nc != 0) {
-        C_.middleCols((t - 1) * nx, nx).middleRows(nin_count, nc) = d->Gx;
+        C_.middleCols((t - 1) * ndx, ndx).middleRows(nin_count, nc) = d->Gx;
       }
     }
     if (nc != 0) {
@@ -357,11 +357,11 @@ void SolverPROXQP::calc(const bool recalc) {
     P_.middleCols(index_u, nu).middleRows(index_u, nu) = d->Luu;
     q_.segment(index_u, nu) = d->Lu;
 
-    A_.middleCols(index_u, nu).middleRows(t * nx, nx) = -d->Fu;
+    A_.middleCols(index_u, nu).middleRows(t * ndx, ndx) = -d->Fu;
     // make faster
-    A_.middleCols(t * nx, nx).middleRows(t * nx, nx) =
-        Eigen::MatrixXd::Identity(nx, nx);
-    b_.segment(t * nx, nx) = fs_[t + 1];
+    A_.middleCols(t * ndx, ndx).middleRows(t * ndx, ndx) =
+        Eigen::MatrixXd::Identity(ndx, ndx);
+    b_.segment(t * ndx, ndx) = fs_[t + 1];
 
     index_u += nu;
   }
@@ -372,13 +372,13 @@ void SolverPROXQP::calc(const bool recalc) {
   int nc = m_T->get_ng();
   auto lb = m_T->get_g_lb();
   auto ub = m_T->get_g_ub();
-  const int nx = m_T->get_state()->get_nx();
+  const int ndx = m_T->get_state()->get_ndx();
 
-  P_.middleCols((T - 1) * nx, nx).middleRows((T - 1) * nx, nx) = d_T->Lxx;
-  q_.segment((T - 1) * nx, nx) = d_T->Lx;
+  P_.middleCols((T - 1) * ndx, ndx).middleRows((T - 1) * ndx, ndx) = d_T->Lxx;
+  q_.segment((T - 1) * ndx, ndx) = d_T->Lx;
 
   if (nc != 0) {
-    C_.middleCols((T - 1) * nx, nx).middleRows(nin_count, nc) = d_T->Gx;
+    C_.middleCols((T - 1) * ndx, ndx).middleRows(nin_count, nc) = d_T->Gx;
     l_.segment(nin_count, nc) = lb - d_T->g;
     u_.segment(nin_count, nc) = ub - d_T->g;
     nin_count += nc;
@@ -429,12 +429,12 @@ void SolverPROXQP::computeDirection(const bool recalcDiff) {
   double index_u = n_eq;
   for (std::size_t t = 0; t < T; ++t) {
     const std::shared_ptr<ActionModelAbstract>& m = models[t];
-    const int nx = m->get_state()->get_nx();
+    const int ndx = m->get_state()->get_ndx();
     const int nu = m->get_nu();
     int nc = m->get_ng();
 
-    dx_[t + 1] = qp_.results.x.segment(t * nx, nx);
-    // double index_u = T *nx + t * nu;
+    dx_[t + 1] = qp_.results.x.segment(t * ndx, ndx);
+    // double index_u = T *ndx + t * nu;
     du_[t] = qp_.results.x.segment(index_u, nu);
     x_grad_norm_ +=
         dx_[t + 1]
@@ -443,8 +443,8 @@ void SolverPROXQP::computeDirection(const bool recalcDiff) {
         du_[t]
             .lpNorm<1>();  // assuming that there is no gap in the initial state
 
-    lag_mul_[t + 1] = -qp_.results.y.segment(t * nx, nx);
-    lag_mul_[t + 1] = -qp_.results.y.segment(t * nx, nx);
+    lag_mul_[t + 1] = -qp_.results.y.segment(t * ndx, ndx);
+    lag_mul_[t + 1] = -qp_.results.y.segment(t * ndx, ndx);
     y_[t] = qp_.results.z.segment(nin_count, nc);
     nin_count += nc;
     index_u += nu;
-- 
2.43.0

