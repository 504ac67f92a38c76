From 1781b7942d6fb93592da6b5ead98aa8c1b37d880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:33 +0000
Subject: [PATCH 01/29] fix: CartesianProduct::isNormalized must require every
 component to be normalized

The conjunction was accumulated with |= from true, so any point was accepted.
---
 include/proxsuite-nlp/modelling/spaces/cartesian-product.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/proxsuite-nlp/modelling/spaces/cartesian-product.hxx b/include/proxsuite-nlp/modelling/spaces/cartesian-product.hxx
index 94e1791..f345ea1 100644
--- a/include/proxsuite-nlp/modelling/spaces/cartesian-product.hxx
+++ b/include/proxsuite-nlp/modelling/spaces/cartesian-product.hxx
@@ -34,7 +34,7 @@ bool CartesianProductTpl<Scalar>::isNormalized(const ConstVectorRef &x) const {
   bool res = true;
   auto xs = this->split(x);
   for (std::size_t i = 0; i < numComponents(); i++) {
-    res |= m_components[i]->isNormalized(xs[i]);
+    res &= m_components[i]->isNormalized(xs[i]);
   }
   return res;
 }
-- 
2.43.0


From 3fbb02f5dd4e9e1550f58a1275cf6eef747087e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:33 +0000
Subject: [PATCH 02/29] fix: keep factor order in (manifold * CartesianProduct)

operator*(polymorphic, CartesianProduct) returned right * left.
---
 include/proxsuite-nlp/modelling/spaces/cartesian-product.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/proxsuite-nlp/modelling/spaces/cartesian-product.hpp b/include/proxsuite-nlp/modelling/spaces/cartesian-product.hpp
index 4984353..2448fc7 100644
--- a/include/proxsuite-nlp/modelling/spaces/cartesian-product.hpp
+++ b/include/proxsuite-nlp/modelling/spaces/cartesian-product.hpp
@@ -139,7 +139,10 @@ auto operator*(const CartesianProductTpl<T> &left,
 template <typename T>
 auto operator*(const polymorphic<ManifoldAbstractTpl<T>> &left,
                const CartesianProductTpl<T> &right) {
-  return right * left;
+  CartesianProductTpl<T> out;
+  out.addComponent(left);
+  out.addComponent(right);
+  return out;
 }
 
 template <typename T>
-- 
2.43.0


From 7a908c3884a737f5d450ec6fd004cd0864c94544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:33 +0000
Subject: [PATCH 03/29] fix: QuadraticResidualCost derivatives must not use the
 residual of an earlier point

computeGradient/computeHessian read the residual cached by the last call().
---
 include/proxsuite-nlp/modelling/costs/quadratic-residual.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/proxsuite-nlp/modelling/costs/quadratic-residual.hxx b/include/proxsuite-nlp/modelling/costs/quadratic-residual.hxx
index e02d75e..2f96bd3 100644
--- a/include/proxsuite-nlp/modelling/costs/quadratic-residual.hxx
+++ b/include/proxsuite-nlp/modelling/costs/quadratic-residual.hxx
@@ -37,6 +37,7 @@ Scalar QuadraticResidualCostTpl<Scalar>::call(const ConstVectorRef &x) const {
 template <typename Scalar>
 void QuadraticResidualCostTpl<Scalar>::computeGradient(const ConstVectorRef &x,
                                                        VectorRef out) const {
+  err = (*residual_)(x);
   residual_->computeJacobian(x, Jres);
 
   JtW.noalias() = Jres.transpose() * weights_;
@@ -47,6 +48,7 @@ void QuadraticResidualCostTpl<Scalar>::computeGradient(const ConstVectorRef &x,
 template <typename Scalar>
 void QuadraticResidualCostTpl<Scalar>::computeHessian(const ConstVectorRef &x,
                                                       MatrixRef out) const {
+  err = (*residual_)(x);
   tmp_w_err.noalias() = weights_ * err;
   tmp_w_err += slope_;
 
-- 
2.43.0


From 40dcf2f7c27b69c7202709abe1467edde76267c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:33 +0000
Subject: [PATCH 04/29] fix: TangentBundle::interpolate must interpolate the
 velocity part

getBaseTangent() takes the head of a tangent vector; applied to points it
returned (part of) the base configuration.
---
 include/proxsuite-nlp/modelling/spaces/tangent-bundle.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/proxsuite-nlp/modelling/spaces/tangent-bundle.hxx b/include/proxsuite-nlp/modelling/spaces/tangent-bundle.hxx
index 1836f88..2f46e93 100644
--- a/include/proxsuite-nlp/modelling/spaces/tangent-bundle.hxx
+++ b/include/proxsuite-nlp/modelling/spaces/tangent-bundle.hxx
@@ -85,7 +85,7 @@ void TangentBundleTpl<Base>::interpolate_impl(const ConstVectorRef &x0,
   base_.interpolate(getBasePoint(x0), getBasePoint(x1), u,
                     getBasePointWrite(out));
   out.tail(base_.ndx()) =
-      (Scalar(1.) - u) * getBaseTangent(x0) + u * getBaseTangent(x1);
+      (Scalar(1.) - u) * x0.tail(base_.ndx()) + u * x1.tail(base_.ndx());
 }
 
 } // namespace nlp
-- 
2.43.0


From c2de7d674ace07f07a06c2c724237d6a19b59a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:33 +0000
Subject: [PATCH 05/29] fix: propagate the proximal parameter to the components
 of a constraint set product

setProxParameter() only changed the product itself, so e.g. an l1 component
kept mu = 0.
---
 include/proxsuite-nlp/constraint-set.hpp                   | 2 +-
 .../modelling/constraints/constraint-set-product.hpp       | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/proxsuite-nlp/constraint-set.hpp b/include/proxsuite-nlp/constraint-set.hpp
index 9a2ba05..6e83db6 100644
--- a/include/proxsuite-nlp/constraint-set.hpp
+++ b/include/proxsuite-nlp/constraint-set.hpp
@@ -67,7 +67,7 @@ public:
 
   /// @brief Update proximal parameter; this applies to when this class is a
   /// proximal operator that isn't a projection (e.g. \f$ \ell_1 \f$).
-  void setProxParameter(const Scalar mu) const {
+  virtual void setProxParameter(const Scalar mu) const {
     mu_ = mu;
     mu_inv_ = 1. / mu;
   };
diff --git a/include/proxsuite-nlp/modelling/constraints/constraint-set-product.hpp b/include/proxsuite-nlp/modelling/constraints/constraint-set-product.hpp
index da9a906..12fc5b8 100644
--- a/include/proxsuite-nlp/modelling/constraints/constraint-set-product.hpp
+++ b/include/proxsuite-nlp/modelling/constraints/constraint-set-product.hpp
@@ -105,6 +105,13 @@ struct ConstraintSetProductTpl : ConstraintSetTpl<Scalar> {
     }
   }
 
+  void setProxParameter(const Scalar mu) const override {
+    Base::setProxParameter(mu);
+    for (std::size_t i = 0; i < m_components.size(); i++) {
+      m_components[i]->setProxParameter(mu);
+    }
+  }
+
   const std::vector<xyz::polymorphic<Base>> &components() const {
     return m_components;
   }
-- 
2.43.0


From ae3b618e74535af95f34c978bde501c9b52f0b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:33 +0000
Subject: [PATCH 06/29] fix: centre the proximal penalty at the initial point
 when solve() starts

The target of the previous solve (or the neutral element) was used for the
first subproblem, so results depended on earlier solves.
---
 include/proxsuite-nlp/prox-solver.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/proxsuite-nlp/prox-solver.hxx b/include/proxsuite-nlp/prox-solver.hxx
index b76a08e..8032b98 100644
--- a/include/proxsuite-nlp/prox-solver.hxx
+++ b/include/proxsuite-nlp/prox-solver.hxx
@@ -68,6 +68,7 @@ ConvergenceFlag ProxNLPSolverTpl<Scalar>::solve(const ConstVectorRef &x0,
   // init variables
   results.x_opt = x0;
   workspace.x_prev = x0;
+  prox_penalty.updateTarget(workspace.x_prev);
   if (lams0.size() == workspace.numdual) {
     results.data_lams_opt = lams0;
     workspace.data_lams_prev = lams0;
-- 
2.43.0


From 6578d9429cf2e5ce6bd40c5399b1c085543b6cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:03 +0000
Subject: [PATCH 07/29] fix: return the multipliers for which convergence was
 established

With PRIMAL and PRIMAL_DUAL multiplier updates, solve() replaced the
multipliers after their residuals had been tested, and returned SUCCESS with
multipliers that do not satisfy the tolerance.
---
 include/proxsuite-nlp/prox-solver.hxx | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/proxsuite-nlp/prox-solver.hxx b/include/proxsuite-nlp/prox-solver.hxx
index 8032b98..7eaaa4e 100644
--- a/include/proxsuite-nlp/prox-solver.hxx
+++ b/include/proxsuite-nlp/prox-solver.hxx
@@ -92,6 +92,13 @@ ConvergenceFlag ProxNLPSolverTpl<Scalar>::solve(const ConstVectorRef &x0,
     workspace.x_prev = results.x_opt;
     prox_penalty.updateTarget(workspace.x_prev);
 
+    // test convergence first: the residuals are those of the current primal-dual
+    // pair, which updating the multipliers would change
+    if (std::max(results.prim_infeas, results.dual_infeas) < target_tol) {
+      workspace.data_lams_prev = results.data_lams_opt;
+      results.converged = ConvergenceFlag::SUCCESS;
+      break;
+    }
     if (results.prim_infeas < prim_tol_) {
       acceptMultipliers(results, workspace);
       updateToleranceSuccess();
@@ -99,10 +106,6 @@ ConvergenceFlag ProxNLPSolverTpl<Scalar>::solve(const ConstVectorRef &x0,
       updatePenalty();
       updateToleranceFailure();
     }
-    if (std::max(results.prim_infeas, results.dual_infeas) < target_tol) {
-      results.converged = ConvergenceFlag::SUCCESS;
-      break;
-    }
     setProxParameter(rho_ * bcl_params.rho_update_factor);
 
     al_iter++;
-- 
2.43.0


From 8510dfe796a4b9d9383e4bc4b6bdd83f50e76669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:03 +0000
Subject: [PATCH 08/29] fix: run iterative refinement on the inertia-corrected
 KKT matrix

The refinement used the matrix without the regularisation that had been
factorised, and so converged back to the step of the uncorrected system.
---
 include/proxsuite-nlp/prox-solver.hxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/proxsuite-nlp/prox-solver.hxx b/include/proxsuite-nlp/prox-solver.hxx
index 7eaaa4e..244aaa2 100644
--- a/include/proxsuite-nlp/prox-solver.hxx
+++ b/include/proxsuite-nlp/prox-solver.hxx
@@ -398,9 +398,11 @@ void ProxNLPSolverTpl<Scalar>::innerLoop(Workspace &workspace,
     // choose regularisation level
 
     delta = DELTA_INIT;
+    Scalar delta_fac = delta; // shift of the matrix that was last factorised
     InertiaFlag is_inertia_correct = INERTIA_BAD;
 
     while (!(is_inertia_correct == INERTIA_OK) && delta <= DELTA_MAX) {
+      delta_fac = delta;
       if (delta > 0.)
         workspace.kkt_matrix.diagonal().head(ndx).array() += delta;
 
@@ -432,7 +434,10 @@ void ProxNLPSolverTpl<Scalar>::innerLoop(Workspace &workspace,
       }
     }
 
+    // refine the solution of the system which was factorised (with the shift)
+    workspace.kkt_matrix.diagonal().head(ndx).array() += delta_fac;
     iterativeRefinement(workspace);
+    workspace.kkt_matrix.diagonal().head(ndx).array() -= delta_fac;
 
     PROXSUITE_NLP_NOMALLOC_END;
     PROXSUITE_NLP_RAISE_IF_NAN_NAME(workspace.pd_step, "pd_step");
-- 
2.43.0


From 876c8f297150f28122ac1b67714f56ff6f314da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:03 +0000
Subject: [PATCH 09/29] fix: a quiet solve must not disable the logger for
 later solves

solve() cleared logger.active when verbose was QUIET and never restored it.
---
 include/proxsuite-nlp/prox-solver.hxx | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/proxsuite-nlp/prox-solver.hxx b/include/proxsuite-nlp/prox-solver.hxx
index 244aaa2..0f2d4c9 100644
--- a/include/proxsuite-nlp/prox-solver.hxx
+++ b/include/proxsuite-nlp/prox-solver.hxx
@@ -51,9 +51,6 @@ ProxNLPSolverTpl<Scalar>::solve(const ConstVectorRef &x0,
 template <typename Scalar>
 ConvergenceFlag ProxNLPSolverTpl<Scalar>::solve(const ConstVectorRef &x0,
                                                 const ConstVectorRef &lams0) {
-  if (verbose == 0)
-    logger.active = false;
-
   if ((results_ == nullptr) || (workspace_ == nullptr)) {
     PROXSUITE_NLP_RUNTIME_ERROR(
         "Either Results or Workspace are unitialized. Call setup() first.");
@@ -82,7 +79,8 @@ ConvergenceFlag ProxNLPSolverTpl<Scalar>::solve(const ConstVectorRef &x0,
   std::size_t &al_iter = results.al_iters;
   i = 0;
   al_iter = 0;
-  logger.start();
+  if (verbose > 0)
+    logger.start();
   while ((i < max_iters) && (al_iter < max_al_iters)) {
     results.mu = mu_;
     results.rho = rho_;
@@ -484,7 +482,8 @@ void ProxNLPSolverTpl<Scalar>::innerLoop(Workspace &workspace,
                      phi_new - phi0,
                      results.al_iters + 1};
 
-    logger.log(record);
+    if (verbose > 0)
+      logger.log(record);
 
     results.num_iters++;
     if (results.num_iters >= max_iters) {
-- 
2.43.0


From 5bdcacc35aa2b437f5be96cb4ace198aa19368ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:03 +0000
Subject: [PATCH 10/29] fix: history_callback must not index empty linesearch
 buffers

---
 include/proxsuite-nlp/helpers/history-callback.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/proxsuite-nlp/helpers/history-callback.hpp b/include/proxsuite-nlp/helpers/history-callback.hpp
index 6109940..ba3db15 100644
--- a/include/proxsuite-nlp/helpers/history-callback.hpp
+++ b/include/proxsuite-nlp/helpers/history-callback.hpp
@@ -49,9 +49,9 @@ template <typename Scalar> struct history_callback : base_callback<Scalar> {
     }
     const std::size_t asize = workspace.ls_alphas.size();
     storage.ls_alphas.emplace_back(
-        Eigen::Map<const VectorXs>(&workspace.ls_alphas[0], asize));
+        Eigen::Map<const VectorXs>(workspace.ls_alphas.data(), asize));
     storage.ls_values.emplace_back(
-        Eigen::Map<const VectorXs>(&workspace.ls_values[0], asize));
+        Eigen::Map<const VectorXs>(workspace.ls_values.data(), asize));
     storage.alphas.push_back(workspace.alpha_opt);
     storage.dmerit_dir.push_back(workspace.dmerit_dir);
   }
-- 
2.43.0


From f6247d52dba24fa275f65eeaf5b002eacdd4db35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:03 +0000
Subject: [PATCH 11/29] fix: pair the rows of the cubic interpolation system in
 the Armijo linesearch

The right-hand side rows were swapped with respect to the matrix rows.
---
 include/proxsuite-nlp/linesearch-armijo.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/proxsuite-nlp/linesearch-armijo.hpp b/include/proxsuite-nlp/linesearch-armijo.hpp
index 6969a2c..21a1b37 100644
--- a/include/proxsuite-nlp/linesearch-armijo.hpp
+++ b/include/proxsuite-nlp/linesearch-armijo.hpp
@@ -187,8 +187,8 @@ public:
       alph_mat(1, 0) = a1 * a1 * a1;
       alph_mat(1, 1) = a1 * a1;
 
-      Vector2s alph_rhs{cand1.phi - phi0 - dphi0 * a1,
-                        cand0.phi - phi0 - dphi0 * a0};
+      Vector2s alph_rhs{cand0.phi - phi0 - dphi0 * a0,
+                        cand1.phi - phi0 - dphi0 * a1};
 
       Eigen::HouseholderQR<Matrix2s> decomp(alph_mat);
       coeffs_cubic_interpolant = decomp.solve(alph_rhs);
-- 
2.43.0


From 379aefbea34044ee8c378b397771895fbbe89cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:03 +0000
Subject: [PATCH 12/29] fix: Armijo linesearch must return a step it evaluated,
 with its value

- after an evaluation failure, the decrease test compared the value at an
  older step with the bound at the new one, and could return that pair;
- a non-finite interpolant fell back to a multiple of the previous sample,
  possibly a zero step, below alpha_min;
- when all trials failed, a step that was never evaluated was returned with
  the value zero.
---
 include/proxsuite-nlp/linesearch-armijo.hpp | 27 +++++++++++----------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/include/proxsuite-nlp/linesearch-armijo.hpp b/include/proxsuite-nlp/linesearch-armijo.hpp
index 21a1b37..3a3c996 100644
--- a/include/proxsuite-nlp/linesearch-armijo.hpp
+++ b/include/proxsuite-nlp/linesearch-armijo.hpp
@@ -71,11 +71,10 @@ public:
         latest = FunctionSample(alpha_try, phi(alpha_try));
         break;
       } catch (const std::runtime_error &e) {
-        alpha_try *= 0.5;
         if (alpha_try <= options_.alpha_min) {
-          alpha_try = options_.alpha_min;
-          break;
+          throw; // could not evaluate at any step
         }
+        alpha_try = std::max(0.5 * alpha_try, options_.alpha_min);
       }
     }
 
@@ -86,11 +85,16 @@ public:
     for (std::size_t i = 0; i < options_.max_num_steps; i++) {
 
       const Scalar dM = latest.phi - phi0;
-      if (dM <= options_.armijo_c1 * alpha_try * dphi0) {
+      if (alpha_try == latest.alpha &&
+          dM <= options_.armijo_c1 * alpha_try * dphi0) {
+        break;
+      }
+      if (alpha_try <= options_.alpha_min) {
         break;
       }
 
       // compute next alpha try
+      const Scalar alpha_cur = alpha_try;
       LSInterpolation strat = options_.interp_type;
       if (strat == LSInterpolation::BISECTION) {
         alpha_try *= 0.5;
@@ -126,23 +130,20 @@ public:
 
       if (std::isnan(alpha_try)) {
         // handle NaN case
-        alpha_try = options_.contraction_min * previous.alpha;
-      } else {
-        alpha_try = std::max(alpha_try, options_.alpha_min);
+        alpha_try = options_.contraction_min * alpha_cur;
       }
+      alpha_try = std::max(alpha_try, options_.alpha_min);
 
       try {
+        const FunctionSample next(alpha_try, phi(alpha_try));
         previous = latest;
-        latest = FunctionSample(alpha_try, phi(alpha_try));
+        latest = next;
       } catch (const std::runtime_error &e) {
         continue;
       }
-
-      if (alpha_try <= options_.alpha_min) {
-        break;
-      }
     }
-    alpha_try = std::max(alpha_try, options_.alpha_min);
+    // the last step for which the function could be evaluated
+    alpha_try = latest.alpha;
     return latest.phi;
   }
 
-- 
2.43.0


From 6b0c2e40ba16975e852f4f8c4c3ba0dca5e84aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:51 +0000
Subject: [PATCH 13/29] fix: relative singularity test for 2x2 pivots in the
 Bunch-Kaufman signature

The determinant of the (inverted) block was compared with an absolute
epsilon, so large but perfectly conditioned pivots were counted as zeros.
---
 include/proxsuite-nlp/ldlt-allocator.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/proxsuite-nlp/ldlt-allocator.hpp b/include/proxsuite-nlp/ldlt-allocator.hpp
index 70111f6..4433e86 100644
--- a/include/proxsuite-nlp/ldlt-allocator.hpp
+++ b/include/proxsuite-nlp/ldlt-allocator.hpp
@@ -157,7 +157,10 @@ void bunch_kaufman_compute_signature(
       Real tr = ak + akp1;
       Real det = ak * akp1 - Eigen::numext::abs2(akp1k);
 
-      if (std::abs(det) <= std::numeric_limits<Scalar>::epsilon()) {
+      // the tolerance is relative: the matrix can have any scale
+      Real det_scale =
+          std::abs(ak * akp1) + Real(Eigen::numext::abs2(akp1k));
+      if (std::abs(det) <= std::numeric_limits<Real>::epsilon() * det_scale) {
         signature[k] = 0;
         signature[k + 1] = int(math::sign(tr));
       } else if (det > Scalar(0)) {
-- 
2.43.0


From a8bf3e6177b9b6198a5397d18296bfc68b3f533b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:51 +0000
Subject: [PATCH 14/29] fix: check_if_symmetric must compare a block with the
 transpose of its mirror

(TriL, TriU) pairs were refused and (TriL, TriL) pairs accepted.
---
 src/block-kind.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/block-kind.cpp b/src/block-kind.cpp
index fa072e7..31e960f 100644
--- a/src/block-kind.cpp
+++ b/src/block-kind.cpp
@@ -108,7 +108,7 @@ bool SymbolicBlockMatrix::check_if_symmetric() const noexcept {
   const auto &self = *this;
   for (isize i = 0; i < n; ++i) {
     for (isize j = 0; j < i; j++) {
-      if (self(i, j) != self(j, i)) {
+      if (self(i, j) != trans(self(j, i))) {
         return false;
       }
     }
-- 
2.43.0


From e320630ccf1a0d5faef0c7d5a6128cdec1aae447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:51 +0000
Subject: [PATCH 15/29] fix: best-permutation search must skip orderings
 without a factorization

It gave up at the first one, although another ordering can be factorised.
---
 src/block-kind.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/block-kind.cpp b/src/block-kind.cpp
index 31e960f..4e1ebc8 100644
--- a/src/block-kind.cpp
+++ b/src/block-kind.cpp
@@ -80,7 +80,7 @@ Eigen::ComputationInfo SymbolicBlockMatrix::brute_force_best_permutation(
   isize n = in.nsegments();
   std::iota(iwork, iwork + n, isize(0));
 
-  bool first_iter = true;
+  bool found = false;
   isize best_perm_nnz = 0;
 
   // find best permutation
@@ -88,19 +88,18 @@ Eigen::ComputationInfo SymbolicBlockMatrix::brute_force_best_permutation(
     symbolic_deep_copy(in, *this, iwork);
     performed_llt = false;
     if (!llt_in_place()) {
-      return Eigen::NumericalIssue;
+      continue; // no symbolic factorization for this ordering
     }
 
     isize nnz = count_nnz();
 
-    if (first_iter || nnz < best_perm_nnz) {
+    if (!found || nnz < best_perm_nnz) {
       std::memcpy(best_perm, iwork, std::size_t(n) * sizeof(isize));
       best_perm_nnz = nnz;
+      found = true;
     }
-
-    first_iter = false;
   } while (std::next_permutation(iwork, iwork + n));
-  return Eigen::Success;
+  return found ? Eigen::Success : Eigen::NumericalIssue;
 }
 
 bool SymbolicBlockMatrix::check_if_symmetric() const noexcept {
-- 
2.43.0


From 30aea4159630a60d4c7c5e4872aed1dd71fa4d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:23 +0000
Subject: [PATCH 16/29] fix: polymorphic in_place constructor with
 initializer_list must build the derived type

It created a control block for the base class T instead of U.
---
 include/proxsuite-nlp/third-party/polymorphic_cxx14.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/proxsuite-nlp/third-party/polymorphic_cxx14.hpp b/include/proxsuite-nlp/third-party/polymorphic_cxx14.hpp
index ef397bc..0147f7b 100644
--- a/include/proxsuite-nlp/third-party/polymorphic_cxx14.hpp
+++ b/include/proxsuite-nlp/third-party/polymorphic_cxx14.hpp
@@ -228,7 +228,7 @@ class polymorphic : private detail::empty_base_optimization<A> {
   polymorphic(std::allocator_arg_t, const A& alloc, in_place_type_t<U>,
               std::initializer_list<I> ilist, Ts&&... ts)
       : alloc_base(alloc) {
-    cb_ = create_control_block<T>(ilist, std::forward<Ts>(ts)...);
+    cb_ = create_control_block<U>(ilist, std::forward<Ts>(ts)...);
   }
 
   template <
-- 
2.43.0


From 3bc1df4b2e24f0dd7e72ff42bd62ff815e988518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:23 +0000
Subject: [PATCH 17/29] fix: sign() of the LDLT factorizations must cover all
 pivots of the last matrix

The sign was carried over from earlier compute() calls, overwritten by 1x1
blocks, ignored a trailing 1x1 block, and was not copied by BlockLDLT.
---
 include/proxsuite-nlp/linalg/block-ldlt.hpp |  4 ++++
 include/proxsuite-nlp/linalg/dense.hpp      | 12 ++++--------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/proxsuite-nlp/linalg/block-ldlt.hpp b/include/proxsuite-nlp/linalg/block-ldlt.hpp
index f17b391..ebee5b0 100644
--- a/include/proxsuite-nlp/linalg/block-ldlt.hpp
+++ b/include/proxsuite-nlp/linalg/block-ldlt.hpp
@@ -32,6 +32,8 @@ template <typename Scalar> struct block_impl {
     const isize nblocks = sym_structure.nsegments();
     const isize n = mat.rows();
     if ((nblocks == 0) || (n <= 1)) {
+      if (n == 1)
+        update_sign_matrix(sign, mat(0, 0));
       return true;
     }
 
@@ -239,6 +241,7 @@ public:
     m_matrix = other.m_matrix;
     m_permutation = other.m_permutation;
     m_info = other.m_info;
+    m_sign = other.m_sign;
     m_perm = other.m_perm;
     m_perm_inv = other.m_perm_inv;
     m_iwork = other.m_iwork;
@@ -310,6 +313,7 @@ public:
   const MatrixXs &matrixLDLT() const override { return m_matrix; }
 
   inline void compute() {
+    m_sign = SignMatrix::ZeroSign;
     m_info =
         backend::block_impl<Scalar>{m_matrix, m_structure}.ldlt_in_place_impl(
             m_sign)
diff --git a/include/proxsuite-nlp/linalg/dense.hpp b/include/proxsuite-nlp/linalg/dense.hpp
index b4e0478..39f00cd 100644
--- a/include/proxsuite-nlp/linalg/dense.hpp
+++ b/include/proxsuite-nlp/linalg/dense.hpp
@@ -47,14 +47,9 @@ inline bool ldlt_in_place_unblocked(Eigen::MatrixBase<Derived> &a,
   using Scalar = typename Derived::Scalar;
   const isize n = a.rows();
   if (n <= 1) {
-    if (n == 0)
-      sign = SignMatrix::ZeroSign;
-    else if (a(0, 0) > 0)
-      sign = SignMatrix::PositiveSemiDef;
-    else if (a(0, 0) < 0)
-      sign = SignMatrix::NegativeSemiDef;
-    else
-      sign = SignMatrix::ZeroSign;
+    // do not forget the sign of blocks which were factorized before this one
+    if (n == 1)
+      update_sign_matrix(sign, a(0, 0));
     return true;
   }
 
@@ -181,6 +176,7 @@ template <typename _Scalar> struct DenseLDLT : ldlt_base<_Scalar> {
 
   DenseLDLT &compute(const ConstMatrixRef &mat) {
     m_matrix = mat;
+    m_sign = SignMatrix::ZeroSign;
     m_info = backend::dense_ldlt_in_place(m_matrix, m_sign)
                  ? Eigen::Success
                  : Eigen::NumericalIssue;
-- 
2.43.0


From 9bdd8e400733dbec02fdb5fa7184663769ddf52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:23 +0000
Subject: [PATCH 18/29] fix: BlockLDLT needs a copy assignment operator

The implicit one shared the symbolic structures, which both objects then
deleted.
---
 include/proxsuite-nlp/linalg/block-ldlt.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/proxsuite-nlp/linalg/block-ldlt.hpp b/include/proxsuite-nlp/linalg/block-ldlt.hpp
index ebee5b0..843e921 100644
--- a/include/proxsuite-nlp/linalg/block-ldlt.hpp
+++ b/include/proxsuite-nlp/linalg/block-ldlt.hpp
@@ -248,6 +248,22 @@ public:
     m_start_idx = other.m_start_idx;
   }
 
+  /// This struct owns its symbolic structures: they cannot be shared.
+  BlockLDLT &operator=(BlockLDLT const &other) {
+    BlockLDLT tmp(other);
+    std::swap(m_structure, tmp.m_structure);
+    std::swap(m_struct_tr, tmp.m_struct_tr);
+    m_matrix.swap(tmp.m_matrix);
+    m_permutation = tmp.m_permutation;
+    m_info = tmp.m_info;
+    m_sign = tmp.m_sign;
+    m_perm.swap(tmp.m_perm);
+    m_perm_inv.swap(tmp.m_perm_inv);
+    m_iwork.swap(tmp.m_iwork);
+    m_start_idx.swap(tmp.m_start_idx);
+    return *this;
+  }
+
   /// Compute indices indicating where blocks start
   void computeStartIndices(const SymbolicBlockMatrix &in) {
     m_start_idx[0] = 0;
-- 
2.43.0


From 09ec85b1db7254d46fe5fcb65ab5d89a82c54512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:13 +0000
Subject: [PATCH 19/29] fix: BlockLDLT must analyze the pattern of the input
 matrix for every permutation

Choosing a permutation a second time permuted and re-factorized the result of
the previous analysis, giving a pattern and permutation which do not match
the matrix. The temporary copy of the pattern was also leaked.
---
 include/proxsuite-nlp/linalg/block-ldlt.hpp | 10 ++++++++--
 include/proxsuite-nlp/linalg/block-ldlt.hxx |  4 ++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/proxsuite-nlp/linalg/block-ldlt.hpp b/include/proxsuite-nlp/linalg/block-ldlt.hpp
index 843e921..671c8f5 100644
--- a/include/proxsuite-nlp/linalg/block-ldlt.hpp
+++ b/include/proxsuite-nlp/linalg/block-ldlt.hpp
@@ -212,6 +212,8 @@ template <typename _Scalar> struct BlockLDLT : ldlt_base<_Scalar> {
 
 protected:
   MatrixXs m_matrix;
+  /// Structure of the input matrix, before permutation and analysis.
+  SymbolicBlockMatrix m_struct_in;
   SymbolicBlockMatrix m_structure;
   SymbolicBlockMatrix m_struct_tr;
   PermutationType m_permutation;
@@ -228,8 +230,8 @@ public:
   /// @brief  The constructor copies the input matrix @param mat and symbolic
   /// block pattern @param structure.
   BlockLDLT(isize size, SymbolicBlockMatrix const &structure)
-      : Base(), m_matrix(size, size), m_structure(structure.copy()),
-        m_permutation(size), m_perm(nblocks()), m_perm_inv(nblocks()),
+      : Base(), m_matrix(size, size), m_struct_in(structure.copy()),
+        m_structure(structure.copy()), m_permutation(size), m_perm(nblocks()), m_perm_inv(nblocks()),
         m_iwork(nblocks()), m_start_idx(nblocks()) {
     std::iota(m_perm.begin(), m_perm.end(), isize(0));
     m_permutation.setIdentity();
@@ -238,6 +240,7 @@ public:
 
   BlockLDLT(BlockLDLT const &other)
       : BlockLDLT(other.m_matrix.rows(), other.m_structure) {
+    symbolic_deep_copy(other.m_struct_in, m_struct_in);
     m_matrix = other.m_matrix;
     m_permutation = other.m_permutation;
     m_info = other.m_info;
@@ -251,6 +254,7 @@ public:
   /// This struct owns its symbolic structures: they cannot be shared.
   BlockLDLT &operator=(BlockLDLT const &other) {
     BlockLDLT tmp(other);
+    std::swap(m_struct_in, tmp.m_struct_in);
     std::swap(m_structure, tmp.m_structure);
     std::swap(m_struct_tr, tmp.m_struct_tr);
     m_matrix.swap(tmp.m_matrix);
@@ -273,6 +277,8 @@ public:
   }
 
   ~BlockLDLT() {
+    delete[] m_struct_in.m_data;
+    delete[] m_struct_in.segment_lens;
     delete[] m_structure.m_data;
     delete[] m_structure.segment_lens;
     delete[] m_struct_tr.m_data;
diff --git a/include/proxsuite-nlp/linalg/block-ldlt.hxx b/include/proxsuite-nlp/linalg/block-ldlt.hxx
index e0ab2f8..ca5385f 100644
--- a/include/proxsuite-nlp/linalg/block-ldlt.hxx
+++ b/include/proxsuite-nlp/linalg/block-ldlt.hxx
@@ -12,7 +12,7 @@ namespace linalg {
 
 template <typename Scalar>
 void BlockLDLT<Scalar>::setBlockPermutation(isize const *new_perm) {
-  SymbolicBlockMatrix in(m_structure.copy());
+  const SymbolicBlockMatrix &in = m_struct_in;
   const isize n = m_structure.nsegments();
   if (new_perm != nullptr)
     std::copy_n(new_perm, n, m_perm.data());
@@ -24,7 +24,7 @@ void BlockLDLT<Scalar>::setBlockPermutation(isize const *new_perm) {
 
 template <typename Scalar>
 BlockLDLT<Scalar> &BlockLDLT<Scalar>::findSparsifyingPermutation() {
-  SymbolicBlockMatrix in(m_structure.copy());
+  const SymbolicBlockMatrix &in = m_struct_in;
   m_structure.brute_force_best_permutation(in, m_perm.data(), m_iwork.data());
   symbolic_deep_copy(in, m_structure, m_perm.data());
   analyzePattern();
-- 
2.43.0


From 50b2b896c0de19727d2165d2d8b7fe85d82c3d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:20 +0000
Subject: [PATCH 20/29] fix: CartesianProduct::addComponent must accept the
 product itself

---
 .../proxsuite-nlp/modelling/spaces/cartesian-product.hpp    | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/proxsuite-nlp/modelling/spaces/cartesian-product.hpp b/include/proxsuite-nlp/modelling/spaces/cartesian-product.hpp
index 2448fc7..087908b 100644
--- a/include/proxsuite-nlp/modelling/spaces/cartesian-product.hpp
+++ b/include/proxsuite-nlp/modelling/spaces/cartesian-product.hpp
@@ -35,8 +35,10 @@ public:
   }
 
   inline void addComponent(const CartesianProductTpl &other) {
-    for (const auto &c : other.m_components) {
-      this->addComponent(c);
+    // other may be *this
+    const std::size_t n = other.numComponents();
+    for (std::size_t i = 0; i < n; i++) {
+      this->addComponent(other.m_components[i]);
     }
   }
 
-- 
2.43.0


From bc0b604daa21524038050ed480a7a67fff41ee05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:31 +0000
Subject: [PATCH 21/29] fix: check the KKT matrix for NaN/Inf after it was
 assembled, not before

---
 include/proxsuite-nlp/prox-solver.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/proxsuite-nlp/prox-solver.hxx b/include/proxsuite-nlp/prox-solver.hxx
index 0f2d4c9..ae74033 100644
--- a/include/proxsuite-nlp/prox-solver.hxx
+++ b/include/proxsuite-nlp/prox-solver.hxx
@@ -350,7 +350,6 @@ void ProxNLPSolverTpl<Scalar>::innerLoop(Workspace &workspace,
     }
 
     PROXSUITE_NLP_RAISE_IF_NAN_NAME(workspace.kkt_rhs, "kkt_rhs");
-    PROXSUITE_NLP_RAISE_IF_NAN_NAME(workspace.kkt_matrix, "kkt_matrix");
 
     computePrimalResiduals(workspace, results);
 
@@ -392,6 +391,7 @@ void ProxNLPSolverTpl<Scalar>::innerLoop(Workspace &workspace,
 
     // fill in KKT matrix
     assembleKktMatrix(workspace);
+    PROXSUITE_NLP_RAISE_IF_NAN_NAME(workspace.kkt_matrix, "kkt_matrix");
 
     // choose regularisation level
 
-- 
2.43.0


From 9e2b2bd52f44c125a41e4589478043330f8fe3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:49 +0000
Subject: [PATCH 22/29] fix: BFGS must not put non-finite curvature pairs into
 its memory

---
 include/proxsuite-nlp/bfgs-strategy.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/proxsuite-nlp/bfgs-strategy.hpp b/include/proxsuite-nlp/bfgs-strategy.hpp
index 8123fc6..9801ae6 100644
--- a/include/proxsuite-nlp/bfgs-strategy.hpp
+++ b/include/proxsuite-nlp/bfgs-strategy.hpp
@@ -3,6 +3,8 @@
 #pragma once
 #include "proxsuite-nlp/fwd.hpp"
 
+#include <cmath>
+
 namespace proxsuite {
 namespace nlp {
 
@@ -53,7 +55,8 @@ public:
     y = g - g_prev;
     const Scalar sy = s.dot(y);
 
-    if (sy > 0) {
+    // a non-finite curvature (from non-finite data) must not enter the memory
+    if (sy > 0 && std::isfinite(sy)) {
       if constexpr (BFGS_TYPE == BFGSType::InverseHessian) {
         // Nocedal and Wright, Numerical Optimization, 2nd ed., p. 140, eqn 6.17
         // (BFGS update)
-- 
2.43.0


From c6ee36115df996b4ee98394837dcc3aafaafae45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:31 +0000
Subject: [PATCH 23/29] fix: gemmt of a diagonal and a triangular block must
 use matching segments

The whole diagonal was multiplied with a part of each column, a size mismatch
(an assertion, or reads of the wrong coefficients without assertions).
---
 include/proxsuite-nlp/linalg/gemmt.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/proxsuite-nlp/linalg/gemmt.hpp b/include/proxsuite-nlp/linalg/gemmt.hpp
index a1b93f3..c7ed72a 100644
--- a/include/proxsuite-nlp/linalg/gemmt.hpp
+++ b/include/proxsuite-nlp/linalg/gemmt.hpp
@@ -41,8 +41,9 @@ template <typename Scalar> struct GemmT<Scalar, Diag, TriL> {
     isize n = dst.cols();
 
     for (isize j = 0; j < n; ++j) {
-      dst.col(j).head(j + 1) += alpha * lhs.diagonal().cwiseProduct(
-                                            rhs.transpose().col(j).head(j + 1));
+      dst.col(j).head(j + 1) +=
+          alpha * lhs.diagonal().head(j + 1).cwiseProduct(
+                      rhs.transpose().col(j).head(j + 1));
     }
   }
 };
@@ -59,8 +60,9 @@ template <typename Scalar> struct GemmT<Scalar, Diag, TriU> {
     isize n = dst.cols();
 
     for (isize j = 0; j < n; ++j) {
-      dst.col(j).tail(m - j) += alpha * lhs.diagonal().cwiseProduct(
-                                            rhs.transpose().col(j).tail(m - j));
+      dst.col(j).tail(m - j) +=
+          alpha * lhs.diagonal().tail(m - j).cwiseProduct(
+                      rhs.transpose().col(j).tail(m - j));
     }
   }
 };
-- 
2.43.0


From 851679926214cfdccee28607973948ddd8b3115f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:15 +0000
Subject: [PATCH 24/29] fix: count_nnz must count rectangular diagonal and
 triangular blocks

An off-diagonal block (i, j) has segment_lens[i] rows and segment_lens[j]
columns; symbolic factorisation makes zero rectangular blocks TriU. Only the
rows were used, which overestimates the fill and can misguide the search for
the best permutation.
---
 src/block-kind.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/block-kind.cpp b/src/block-kind.cpp
index 4e1ebc8..973eec2 100644
--- a/src/block-kind.cpp
+++ b/src/block-kind.cpp
@@ -126,13 +126,17 @@ isize SymbolicBlockMatrix::count_nnz() const noexcept {
       case Zero:
         break;
       case Diag: {
-        nnz += self.segment_lens[i];
+        nnz += std::min(self.segment_lens[i], self.segment_lens[j]);
         break;
       }
       case TriL:
       case TriU: {
-        isize k = self.segment_lens[i];
+        // the block may be rectangular: count a trapezoid
+        const isize r = self.segment_lens[i];
+        const isize c = self.segment_lens[j];
+        const isize k = std::min(r, c);
         nnz += (k * (k + 1)) / 2;
+        nnz += (self(i, j) == TriL) ? (r - k) * c : (c - k) * r;
         break;
       }
       case Dense: {
-- 
2.43.0


From 53d9554bee99a3b004e40729abdc1a12a76788f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:27 +0000
Subject: [PATCH 25/29] fix: block triangular solve must refuse a diagonal
 block of the wrong side

It was skipped, and success was reported for a system that was not solved.
---
 include/proxsuite-nlp/linalg/block-triangular.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/proxsuite-nlp/linalg/block-triangular.hpp b/include/proxsuite-nlp/linalg/block-triangular.hpp
index d274973..ad2aa83 100644
--- a/include/proxsuite-nlp/linalg/block-triangular.hpp
+++ b/include/proxsuite-nlp/linalg/block-triangular.hpp
@@ -133,7 +133,8 @@ template <int Mode, bool IsLower> struct block_triangular_subsolve_impl {
       break;
     }
     default:
-      break;
+      // triangular block of the wrong side
+      return false;
     }
     return true;
   }
-- 
2.43.0


From d18b903e1609c194686535b68007e60787b42f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:21 +0000
Subject: [PATCH 26/29] fix: Bunch-Kaufman stops at a zero column with stale
 pivots and signature

On an exactly singular matrix the factorisation returned early: the pivots and
sub-diagonal of the processed part were not finalised and, in the blocked
variant, the diagonal kept entries of the input.  The signature then counted
zero eigenvalues as positive or negative ones.  Keep a zero pivot, go on with
the remaining columns and report NumericalIssue at the end.
---
 include/proxsuite-nlp/linalg/bunchkaufman.hpp | 27 ++++++++++++++-----
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/include/proxsuite-nlp/linalg/bunchkaufman.hpp b/include/proxsuite-nlp/linalg/bunchkaufman.hpp
index 75fae41..4f1ec10 100644
--- a/include/proxsuite-nlp/linalg/bunchkaufman.hpp
+++ b/include/proxsuite-nlp/linalg/bunchkaufman.hpp
@@ -40,6 +40,7 @@ ComputationInfo bunch_kaufman_in_place_unblocked(MatrixType &a,
     }
   }
 
+  ComputationInfo info = Success;
   Index k = 0;
   while (k < n) {
     Index k_step = 1;
@@ -54,7 +55,12 @@ ComputationInfo bunch_kaufman_in_place_unblocked(MatrixType &a,
 
     Index kp;
     if (numext::maxi(abs_akk, colmax) == Real(0)) {
-      return NumericalIssue;
+      // the matrix is singular: keep the zero pivot and go on with the
+      // remaining columns (as LAPACK does)
+      info = NumericalIssue;
+      pivots[k] = static_cast<int>(k);
+      k += 1;
+      continue;
     } else {
       if (abs_akk >= colmax * alpha) {
         kp = k;
@@ -163,7 +169,7 @@ ComputationInfo bunch_kaufman_in_place_unblocked(MatrixType &a,
     k += k_step;
   }
 
-  return Success;
+  return info;
 }
 
 template <typename MatrixType, typename WType, typename IndicesType>
@@ -182,6 +188,7 @@ bunch_kaufman_in_place_one_block(MatrixType &a, WType &w, IndicesType &pivots,
     return Success;
   }
 
+  ComputationInfo info = Success;
   Index nb = w.cols();
   Index k = 0;
   while (k < n && k + 1 < nb) {
@@ -205,7 +212,12 @@ bunch_kaufman_in_place_one_block(MatrixType &a, WType &w, IndicesType &pivots,
 
     Index kp;
     if (numext::maxi(abs_akk, colmax) == Real(0)) {
-      return NumericalIssue;
+      // see bunch_kaufman_in_place_unblocked
+      info = NumericalIssue;
+      a.col(k).segment(k, n - k) = w.col(k).segment(k, n - k);
+      pivots[k] = static_cast<int>(k);
+      k += 1;
+      continue;
     } else {
       if (abs_akk >= colmax * alpha) {
         kp = k;
@@ -329,14 +341,14 @@ bunch_kaufman_in_place_one_block(MatrixType &a, WType &w, IndicesType &pivots,
     }
 
     if (j == 0) {
-      return Success;
+      return info;
     }
     j -= 1;
     if (jp != jj) {
       a.row(jp).segment(0, j + 1).swap(a.row(jj).segment(0, j + 1));
     }
     if (j == 0) {
-      return Success;
+      return info;
     }
   }
 }
@@ -349,6 +361,7 @@ ComputationInfo bunch_kaufman_in_place(MatrixType &a, VecType &subdiag,
   Index n = a.rows();
 
   const Index blocksize = w.cols();
+  ComputationInfo status = Success;
 
   Index k = 0;
   while (k < n) {
@@ -366,7 +379,7 @@ ComputationInfo bunch_kaufman_in_place(MatrixType &a, VecType &subdiag,
       kb = n - k;
     }
     if (info != Success) {
-      return info;
+      status = info;
     }
 
     for (Index j = k; j < k + kb; ++j) {
@@ -414,7 +427,7 @@ ComputationInfo bunch_kaufman_in_place(MatrixType &a, VecType &subdiag,
     }
   }
 
-  return Success;
+  return status;
 }
 
 template <typename MatrixType, bool Conjugate> struct BK_Traits;
-- 
2.43.0


From 66a816ff6e56d82ff13f536293e93d51a295fe07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:55 +0000
Subject: [PATCH 27/29] fix: move assignment of polymorphic could throw out of
 a noexcept function

With propagate_on_container_move_assignment and unequal allocators the
assignment allocated and moved the object although it is declared noexcept (a
throw terminates the program). Transfer the control block with its allocator.
---
 .../third-party/polymorphic_cxx14.hpp              | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/proxsuite-nlp/third-party/polymorphic_cxx14.hpp b/include/proxsuite-nlp/third-party/polymorphic_cxx14.hpp
index 0147f7b..92391f7 100644
--- a/include/proxsuite-nlp/third-party/polymorphic_cxx14.hpp
+++ b/include/proxsuite-nlp/third-party/polymorphic_cxx14.hpp
@@ -386,14 +386,20 @@ class polymorphic : private detail::empty_base_optimization<A> {
     if (other.valueless_after_move()) {
       reset();
     } else {
-      if (alloc_base::get() == other.alloc_base::get()) {
+      if (update_alloc) {
+        // The allocator moves along with the control block it allocated, there
+        // is nothing to construct (this function is noexcept in that case).
+        auto tmp = other.cb_;
+        other.cb_ = nullptr;
+        reset();
+        cb_ = tmp;
+      } else if (alloc_base::get() == other.alloc_base::get()) {
         std::swap(cb_, other.cb_);
         other.reset();
       } else {
         // Constructing a new control block could throw so we need to defer
-        // resetting or updating allocators until this is done.
-        auto tmp = other.cb_->move(update_alloc ? other.alloc_base::get()
-                                                : alloc_base::get());
+        // resetting until this is done.
+        auto tmp = other.cb_->move(alloc_base::get());
         reset();
         cb_ = tmp;
       }
-- 
2.43.0


From 67b4afac913726bfc971f48aeb1e4eb791959c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:32 +0000
Subject: [PATCH 28/29] fix: extended move constructor of polymorphic mixed
 allocators

With propagate_on_container_copy_assignment the control block was taken over
even when the allocators differ, hence released by an allocator which did not
allocate it. Construction does not depend on the assignment traits.
---
 .../proxsuite-nlp/third-party/polymorphic_cxx14.hpp | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/include/proxsuite-nlp/third-party/polymorphic_cxx14.hpp b/include/proxsuite-nlp/third-party/polymorphic_cxx14.hpp
index 92391f7..b9d1fb0 100644
--- a/include/proxsuite-nlp/third-party/polymorphic_cxx14.hpp
+++ b/include/proxsuite-nlp/third-party/polymorphic_cxx14.hpp
@@ -324,19 +324,14 @@ class polymorphic : private detail::empty_base_optimization<A> {
       std::allocator_arg_t, const A& alloc,
       polymorphic&& other) noexcept(allocator_traits::is_always_equal::value)
       : alloc_base(alloc) {
-    if (allocator_traits::propagate_on_container_copy_assignment::value) {
+    if (get_allocator() == other.get_allocator()) {
       cb_ = other.cb_;
       other.cb_ = nullptr;
     } else {
-      if (get_allocator() == other.get_allocator()) {
-        cb_ = other.cb_;
-        other.cb_ = nullptr;
+      if (!other.valueless_after_move()) {
+        cb_ = other.cb_->move(alloc_base::get());
       } else {
-        if (!other.valueless_after_move()) {
-          cb_ = other.cb_->move(alloc_base::get());
-        } else {
-          cb_ = nullptr;
-        }
+        cb_ = nullptr;
       }
     }
   }
-- 
2.43.0


From 9dd88206823194393436eb2329ac68ef342096fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:16 +0000
Subject: [PATCH 29/29] fix: print_sparsity_pattern spilled rectangular TriL
 blocks into the next block column

A lower triangular block with more rows than columns was drawn beyond its
own columns: into the neighbouring block, or out of bounds for the last one.
---
 src/block-kind.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/block-kind.cpp b/src/block-kind.cpp
index 973eec2..2750059 100644
--- a/src/block-kind.cpp
+++ b/src/block-kind.cpp
@@ -242,7 +242,7 @@ void print_sparsity_pattern(const SymbolicBlockMatrix &smat) noexcept {
       }
       case TriL: {
         for (isize ii = 0; ii < smat.segment_lens[i]; ++ii) {
-          for (isize jj = 0; jj <= ii; ++jj) {
+          for (isize jj = 0; jj <= ii && jj < smat.segment_lens[j]; ++jj) {
             buf(handled_rows + ii, handled_cols + jj) = true;
           }
         }
-- 
2.43.0

