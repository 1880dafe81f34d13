From a68192a75db0529362334f71ac04295ad40ab5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:20 +0000
Subject: [PATCH 01/17] fix: build the K x K Gram matrix of the extrapolation
 differences

U has one row per difference, so the K x K matrix of their inner products is
U U^T. U^T U has the size of the working set: it panics for working sets
smaller than K and extrapolates with the wrong system otherwise.
---
 src/solvers/anderson_bcd/mod.rs | 2 +-
 src/solvers/anderson_cd/mod.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solvers/anderson_bcd/mod.rs b/src/solvers/anderson_bcd/mod.rs
index 6b84b73..7989282 100644
--- a/src/solvers/anderson_bcd/mod.rs
+++ b/src/solvers/anderson_bcd/mod.rs
@@ -158,7 +158,7 @@ pub fn anderson_accel<F, DM, T, DF, P>(
         .unwrap();
 
         // Computes the extrapolation matrix à la Anderson
-        let C = U.t().dot(U);
+        let C = U.dot(&U.t());
         let _res = solve_lin_sys(C.view(), Array1::<F>::ones(K).view()); // TODO: change into LAPACK inversion
 
         match _res {
diff --git a/src/solvers/anderson_cd/mod.rs b/src/solvers/anderson_cd/mod.rs
index 6a1b00e..8c31418 100644
--- a/src/solvers/anderson_cd/mod.rs
+++ b/src/solvers/anderson_cd/mod.rs
@@ -147,7 +147,7 @@ pub fn anderson_accel<F, DM, T, DF, P>(
         .unwrap();
 
         // Computes the extrapolation matrix à la Anderson
-        let C = U.t().dot(U);
+        let C = U.dot(&U.t());
         let _res = solve_lin_sys(C.view(), Array1::<F>::ones(K).view());
 
         match _res {
-- 
2.43.0


From 0049f89a6910411b8a15d9a8c893eefecdbf3c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:20 +0000
Subject: [PATCH 02/17] fix: use the norm, not its square, in the BlockL1PlusL2
 violation at zero rows

---
 src/penalties/block_separable/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/penalties/block_separable/mod.rs b/src/penalties/block_separable/mod.rs
index 5ef9964..dceb13b 100644
--- a/src/penalties/block_separable/mod.rs
+++ b/src/penalties/block_separable/mod.rs
@@ -169,7 +169,7 @@ impl<F: Float> MultiTaskPenalty<F> for BlockL1PlusL2<F> {
                             .sqrt()
                     }
                     false => {
-                        let norm_grad_j = grad_idx.dot(&grad_idx);
+                        let norm_grad_j = grad_idx.dot(&grad_idx).sqrt();
                         F::max(F::zero(), norm_grad_j - self.alpha * self.l21_ratio)
                     }
                 }
-- 
2.43.0


From 40763e66528cb2bcd82e1574e3197f579cefc12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:20 +0000
Subject: [PATCH 03/17] fix: include the gradient in the BlockMCP violation of
 rows in the concave zone

---
 src/penalties/block_separable/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/penalties/block_separable/mod.rs b/src/penalties/block_separable/mod.rs
index dceb13b..9c4f4d0 100644
--- a/src/penalties/block_separable/mod.rs
+++ b/src/penalties/block_separable/mod.rs
@@ -270,7 +270,13 @@ impl<F: Float> MultiTaskPenalty<F> for BlockMCP<F> {
                         if norm_W_j < self.alpha * self.gamma {
                             // distance of -grad_j to alpha * W[j] / ||W_j|| - W[j] / gamma
                             let scale = self.alpha / norm_W_j - F::one() / self.gamma;
-                            W_j.map(|&W_ij| (W_ij * scale).powi(2)).sum().sqrt()
+                            grad_idx
+                                .iter()
+                                .zip(W_j)
+                                .fold(F::zero(), |sum, (&grad_ij, &w_ij)| {
+                                    sum + (grad_ij + w_ij * scale).powi(2)
+                                })
+                                .sqrt()
                         } else {
                             // distance of -grad_j to 0
                             grad_idx.dot(&grad_idx).sqrt()
-- 
2.43.0


From b461c80da7605dc0cc82c042ef1fc632885b55f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:42 +0000
Subject: [PATCH 04/17] fix: reject gamma below 1 for BlockMCP, as for MCP

---
 src/estimators/hyperparams.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/estimators/hyperparams.rs b/src/estimators/hyperparams.rs
index 17f659d..d6cf52d 100644
--- a/src/estimators/hyperparams.rs
+++ b/src/estimators/hyperparams.rs
@@ -711,6 +711,8 @@ impl<F: Float> ParamGuard for BlockMCParams<F> {
             Err(EstimatorError::InvalidRegularization(
                 self.0.alpha.to_f32().unwrap(),
             ))
+        } else if self.0.gamma < F::one() {
+            Err(EstimatorError::InvalidGamma(self.0.gamma.to_f32().unwrap()))
         } else if self.0.tolerance.is_negative() {
             Err(EstimatorError::InvalidTolerance(
                 self.0.tolerance.to_f32().unwrap(),
-- 
2.43.0


From ec5c145a5a72014f411b91bf96c38382816e9dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:42 +0000
Subject: [PATCH 05/17] fix: reject hyperparameters that are not a number

---
 src/estimators/hyperparams.rs | 38 ++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/estimators/hyperparams.rs b/src/estimators/hyperparams.rs
index d6cf52d..fb4b2f8 100644
--- a/src/estimators/hyperparams.rs
+++ b/src/estimators/hyperparams.rs
@@ -154,11 +154,11 @@ impl<F: Float> ParamGuard for LassoParams<F> {
 
     /// Validate the hyper parameters
     fn check_ref(&self) -> Result<&Self::Checked> {
-        if self.0.alpha.is_negative() {
+        if self.0.alpha.is_negative() || self.0.alpha.is_nan() {
             Err(EstimatorError::InvalidRegularization(
                 self.0.alpha.to_f32().unwrap(),
             ))
-        } else if self.0.tolerance.is_negative() {
+        } else if self.0.tolerance.is_negative() || self.0.tolerance.is_nan() {
             Err(EstimatorError::InvalidTolerance(
                 self.0.tolerance.to_f32().unwrap(),
             ))
@@ -329,11 +329,11 @@ impl<F: Float> ParamGuard for MultiTaskLassoParams<F> {
 
     /// Validate the hyper parameters
     fn check_ref(&self) -> Result<&Self::Checked> {
-        if self.0.alpha.is_negative() {
+        if self.0.alpha.is_negative() || self.0.alpha.is_nan() {
             Err(EstimatorError::InvalidRegularization(
                 self.0.alpha.to_f32().unwrap(),
             ))
-        } else if self.0.tolerance.is_negative() {
+        } else if self.0.tolerance.is_negative() || self.0.tolerance.is_nan() {
             Err(EstimatorError::InvalidTolerance(
                 self.0.tolerance.to_f32().unwrap(),
             ))
@@ -516,13 +516,13 @@ impl<F: Float> ParamGuard for MCParams<F> {
 
     /// Validate the hyper parameters
     fn check_ref(&self) -> Result<&Self::Checked> {
-        if self.0.alpha.is_negative() {
+        if self.0.alpha.is_negative() || self.0.alpha.is_nan() {
             Err(EstimatorError::InvalidRegularization(
                 self.0.alpha.to_f32().unwrap(),
             ))
-        } else if self.0.gamma < F::one() {
+        } else if self.0.gamma < F::one() || self.0.gamma.is_nan() {
             Err(EstimatorError::InvalidGamma(self.0.gamma.to_f32().unwrap()))
-        } else if self.0.tolerance.is_negative() {
+        } else if self.0.tolerance.is_negative() || self.0.tolerance.is_nan() {
             Err(EstimatorError::InvalidTolerance(
                 self.0.tolerance.to_f32().unwrap(),
             ))
@@ -707,13 +707,13 @@ impl<F: Float> ParamGuard for BlockMCParams<F> {
 
     /// Validate the hyper parameters
     fn check_ref(&self) -> Result<&Self::Checked> {
-        if self.0.alpha.is_negative() {
+        if self.0.alpha.is_negative() || self.0.alpha.is_nan() {
             Err(EstimatorError::InvalidRegularization(
                 self.0.alpha.to_f32().unwrap(),
             ))
-        } else if self.0.gamma < F::one() {
+        } else if self.0.gamma < F::one() || self.0.gamma.is_nan() {
             Err(EstimatorError::InvalidGamma(self.0.gamma.to_f32().unwrap()))
-        } else if self.0.tolerance.is_negative() {
+        } else if self.0.tolerance.is_negative() || self.0.tolerance.is_nan() {
             Err(EstimatorError::InvalidTolerance(
                 self.0.tolerance.to_f32().unwrap(),
             ))
@@ -898,15 +898,18 @@ impl<F: Float> ParamGuard for ElasticNetParams<F> {
 
     /// Validate the hyper parameters
     fn check_ref(&self) -> Result<&Self::Checked> {
-        if self.0.alpha.is_negative() {
+        if self.0.alpha.is_negative() || self.0.alpha.is_nan() {
             Err(EstimatorError::InvalidRegularization(
                 self.0.alpha.to_f32().unwrap(),
             ))
-        } else if self.0.l1_ratio > F::one() || self.0.l1_ratio < F::zero() {
+        } else if self.0.l1_ratio > F::one()
+            || self.0.l1_ratio < F::zero()
+            || self.0.l1_ratio.is_nan()
+        {
             Err(EstimatorError::InvalidL1Ratio(
                 self.0.l1_ratio.to_f32().unwrap(),
             ))
-        } else if self.0.tolerance.is_negative() {
+        } else if self.0.tolerance.is_negative() || self.0.tolerance.is_nan() {
             Err(EstimatorError::InvalidTolerance(
                 self.0.tolerance.to_f32().unwrap(),
             ))
@@ -1091,15 +1094,18 @@ impl<F: Float> ParamGuard for MultiTaskElasticNetParams<F> {
 
     /// Validate the hyper parameters
     fn check_ref(&self) -> Result<&Self::Checked> {
-        if self.0.alpha.is_negative() {
+        if self.0.alpha.is_negative() || self.0.alpha.is_nan() {
             Err(EstimatorError::InvalidRegularization(
                 self.0.alpha.to_f32().unwrap(),
             ))
-        } else if self.0.l1_ratio > F::one() || self.0.l1_ratio < F::zero() {
+        } else if self.0.l1_ratio > F::one()
+            || self.0.l1_ratio < F::zero()
+            || self.0.l1_ratio.is_nan()
+        {
             Err(EstimatorError::InvalidL1Ratio(
                 self.0.l1_ratio.to_f32().unwrap(),
             ))
-        } else if self.0.tolerance.is_negative() {
+        } else if self.0.tolerance.is_negative() || self.0.tolerance.is_nan() {
             Err(EstimatorError::InvalidTolerance(
                 self.0.tolerance.to_f32().unwrap(),
             ))
-- 
2.43.0


From bad3fd527b7cb78303dc8c8ca3ff8fc6901c9a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:42 +0000
Subject: [PATCH 06/17] fix: the proximal operators map zero to zero for a zero
 threshold

They computed 0/0 and returned NaN.
---
 src/utils/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index ff74f94..65a5020 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -22,7 +22,7 @@ pub mod prox_funcs {
     /// [`MultiTaskPenalty::L21`].
     pub fn block_soft_thresholding<F: Float>(x: ArrayView1<F>, threshold: F) -> Array1<F> {
         let norm_x = x.map(|&xi| xi.powi(2)).sum().sqrt();
-        if norm_x < threshold {
+        if norm_x <= threshold {
             return Array1::<F>::zeros(x.len());
         }
         let scale = F::one() - threshold / norm_x;
@@ -32,7 +32,7 @@ pub mod prox_funcs {
     /// This function implements the proximal operator of [`Penalty::L05`].
     pub fn prox_05<F: Float>(x: F, threshold: F) -> F {
         let t = F::cast(F::cast(3. / 2.) * threshold.powf(F::cast(2. / 3.)));
-        if x.abs() < t {
+        if x == F::zero() || x.abs() < t {
             return F::zero();
         }
         x * F::cast(2. / 3.)
-- 
2.43.0


From 4da6770e8091555bb13098a4cd1fd88e4de909fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:42 +0000
Subject: [PATCH 07/17] fix: exchange rows at a zero pivot in solve_lin_sys

The elimination of a column with a zero pivot was skipped, which returned a
wrong solution as Ok. An empty system no longer underflows.
---
 src/utils/mod.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 65a5020..d83ed5e 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -126,7 +126,18 @@ pub mod helpers {
         }
 
         // Echelon form
-        for i in 0..size - 1 {
+        for i in 0..size {
+            // A zero pivot has to be exchanged before its column is eliminated
+            if system[[i, i]] == F::zero() {
+                match (i + 1..size).find(|&r| system[[r, i]] != F::zero()) {
+                    Some(r) => {
+                        for k in 0..size + 1 {
+                            system.swap([i, k], [r, k]);
+                        }
+                    }
+                    None => return Err("Infinitely many solutions or singular matrix"),
+                }
+            }
             for j in i..size - 1 {
                 if system[[i, i]] == F::zero() {
                     continue;
-- 
2.43.0


From e1a80432042d9262843a92ec60ee68ede674483f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:27 +0000
Subject: [PATCH 08/17] fix: predict works on fitted estimators

The truth value of an array with several elements raises ValueError.
---
 python/sparseglm/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/sparseglm/estimators.py b/python/sparseglm/estimators.py
index ade3d82..11c6a6e 100644
--- a/python/sparseglm/estimators.py
+++ b/python/sparseglm/estimators.py
@@ -44,7 +44,7 @@ class Estimator(BaseEstimator):
 
     def predict(self, X):
         """Predicts the test set."""
-        if not self.coef_:
+        if self.coef_ is None:
             raise Exception("Estimator must be fitted before inference.")
         return X @ self.coef_.T
 
-- 
2.43.0


From 49b6f1965622e7c72bde1782e4e8b166d7b0972e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:27 +0000
Subject: [PATCH 09/17] fix: MCPRegressor and BlockMCPRegressor validate gamma
 by its own value

---
 python/sparseglm/estimators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/sparseglm/estimators.py b/python/sparseglm/estimators.py
index 11c6a6e..2f16210 100644
--- a/python/sparseglm/estimators.py
+++ b/python/sparseglm/estimators.py
@@ -269,7 +269,7 @@ class MCPRegressor(Estimator):
             use_accel=use_accel, verbose=verbose)
         if not isinstance(alpha, float) or alpha < 0:
             raise ValueError("alpha={} must be a positive float".format(alpha))
-        elif not isinstance(gamma, float) or alpha < 1:
+        elif not isinstance(gamma, float) or not gamma >= 1:
             raise ValueError("gamma={} must be a float greater than \
                               1".format(gamma))
         else:
@@ -358,7 +358,7 @@ class BlockMCPRegressor(Estimator):
             use_accel=use_accel, max_epochs=max_epochs)
         if not isinstance(alpha, float) or alpha < 0:
             raise ValueError("alpha={} must be a positive float".format(alpha))
-        elif not isinstance(gamma, float) or alpha < 1:
+        elif not isinstance(gamma, float) or not gamma >= 1:
             raise ValueError("gamma={} must be a float greater than \
                               1".format(gamma))
         else:
-- 
2.43.0


From 1b229f818add08fb9e8314e6be9de613a3da21e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:27 +0000
Subject: [PATCH 10/17] fix: the elastic nets validate l1_ratio by its own
 value

---
 python/sparseglm/estimators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/sparseglm/estimators.py b/python/sparseglm/estimators.py
index 2f16210..8371122 100644
--- a/python/sparseglm/estimators.py
+++ b/python/sparseglm/estimators.py
@@ -459,7 +459,7 @@ class ElasticNet(Estimator):
         else:
             self.alpha = alpha
 
-        if not isinstance(l1_ratio, float) or alpha < 0 or alpha > 1:
+        if not isinstance(l1_ratio, float) or not 0 <= l1_ratio <= 1:
             raise ValueError("l1_ratio={} must be between 0 and 1"
                              .format(l1_ratio))
         else:
@@ -547,7 +547,7 @@ class MultiTaskElasticNet(Estimator):
             raise ValueError("alpha={} must be a positive float".format(alpha))
         else:
             self.alpha = alpha
-        if not isinstance(l1_ratio, float) or alpha < 0 or alpha > 1:
+        if not isinstance(l1_ratio, float) or not 0 <= l1_ratio <= 1:
             raise ValueError("l1_ratio={} must be between 0 and 1"
                              .format(l1_ratio))
         else:
-- 
2.43.0


From 8bafac4f4eff2d3c66c9b5f40910f67a7650df02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:27 +0000
Subject: [PATCH 11/17] fix: the Python estimators reject an alpha that is not
 a number

---
 python/sparseglm/estimators.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/python/sparseglm/estimators.py b/python/sparseglm/estimators.py
index 8371122..c46c7df 100644
--- a/python/sparseglm/estimators.py
+++ b/python/sparseglm/estimators.py
@@ -92,7 +92,7 @@ class Lasso(Estimator):
         super(Lasso, self).__init__(
             max_iter=max_iter, tol=tol, p0=p0, max_epochs=max_epochs, K=K,
             use_accel=use_accel, verbose=verbose)
-        if not isinstance(alpha, float) or alpha < 0:
+        if not isinstance(alpha, float) or not alpha >= 0:
             raise ValueError("alpha={} must be a positive float".format(alpha))
         else:
             self.alpha = alpha
@@ -172,7 +172,7 @@ class MultiTaskLasso(Estimator):
         super(MultiTaskLasso, self).__init__(
             max_iter=max_iter, tol=tol, p0=p0, K=K, verbose=verbose,
             use_accel=use_accel, max_epochs=max_epochs)
-        if not isinstance(alpha, float) or alpha < 0:
+        if not isinstance(alpha, float) or not alpha >= 0:
             raise ValueError("alpha={} must be a positive float".format(alpha))
         else:
             self.alpha = alpha
@@ -267,7 +267,7 @@ class MCPRegressor(Estimator):
         super(MCPRegressor, self).__init__(
             max_iter=max_iter, K=K, tol=tol, p0=p0, max_epochs=max_epochs,
             use_accel=use_accel, verbose=verbose)
-        if not isinstance(alpha, float) or alpha < 0:
+        if not isinstance(alpha, float) or not alpha >= 0:
             raise ValueError("alpha={} must be a positive float".format(alpha))
         elif not isinstance(gamma, float) or not gamma >= 1:
             raise ValueError("gamma={} must be a float greater than \
@@ -356,7 +356,7 @@ class BlockMCPRegressor(Estimator):
         super(BlockMCPRegressor, self).__init__(
             max_iter=max_iter, tol=tol, p0=p0, K=K, verbose=verbose,
             use_accel=use_accel, max_epochs=max_epochs)
-        if not isinstance(alpha, float) or alpha < 0:
+        if not isinstance(alpha, float) or not alpha >= 0:
             raise ValueError("alpha={} must be a positive float".format(alpha))
         elif not isinstance(gamma, float) or not gamma >= 1:
             raise ValueError("gamma={} must be a float greater than \
@@ -454,7 +454,7 @@ class ElasticNet(Estimator):
         super(ElasticNet, self).__init__(
             max_iter=max_iter, tol=tol, p0=p0, max_epochs=max_epochs, K=K,
             use_accel=use_accel, verbose=verbose)
-        if not isinstance(alpha, float) or alpha < 0:
+        if not isinstance(alpha, float) or not alpha >= 0:
             raise ValueError("alpha={} must be a positive float".format(alpha))
         else:
             self.alpha = alpha
@@ -543,7 +543,7 @@ class MultiTaskElasticNet(Estimator):
         super(MultiTaskElasticNet, self).__init__(
             max_iter=max_iter, max_epochs=max_epochs, tol=tol, p0=p0,
             use_accel=use_accel, K=K, verbose=verbose)
-        if not isinstance(alpha, float) or alpha < 0:
+        if not isinstance(alpha, float) or not alpha >= 0:
             raise ValueError("alpha={} must be a positive float".format(alpha))
         else:
             self.alpha = alpha
-- 
2.43.0


From a26bcabea97d640368f335734b3f1966250888ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:27 +0000
Subject: [PATCH 12/17] fix: report the value of the rejected hyperparameter

---
 python/sparseglm/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/sparseglm/estimators.py b/python/sparseglm/estimators.py
index c46c7df..ed25ae8 100644
--- a/python/sparseglm/estimators.py
+++ b/python/sparseglm/estimators.py
@@ -35,7 +35,7 @@ class Estimator(BaseEstimator):
         def _check_types(var, type, var_name):
             if not isinstance(var, type) or var < 0:
                 raise ValueError("{}={} must be a positive {}."
-                                 .format(var_name, self.alpha, type))
+                                 .format(var_name, var, type))
         _check_types(self.K, int, "K")
         _check_types(self.p0, int, "p0")
         _check_types(self.tol, float, "tol")
-- 
2.43.0


From 3ae3fe4e39929e2bb56921a5933c87f3e7b6734d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:27 +0000
Subject: [PATCH 13/17] fix: convert float32 data to float64, the only type of
 the native estimators

---
 python/sparseglm/estimators.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/python/sparseglm/estimators.py b/python/sparseglm/estimators.py
index ed25ae8..9dd40fc 100644
--- a/python/sparseglm/estimators.py
+++ b/python/sparseglm/estimators.py
@@ -109,7 +109,7 @@ class Lasso(Estimator):
             Measurements.
         """
         self._validate_params()
-        X = check_array(X, 'csc', dtype=[np.float64, np.float32], order='F',
+        X = check_array(X, 'csc', dtype=np.float64, order='F',
                         copy=False, accept_large_sparse=False)
         y = check_array(y, 'csc', dtype=X.dtype.type, order='F', copy=False,
                         ensure_2d=False)
@@ -189,7 +189,7 @@ class MultiTaskLasso(Estimator):
             Measurements.
         """
         self._validate_params()
-        check_X_params = dict(dtype=[np.float64, np.float32], order='F',
+        check_X_params = dict(dtype=np.float64, order='F',
                               accept_sparse='csc')
         check_Y_params = dict(ensure_2d=False, order='F')
         X, Y = self._validate_data(X, Y, validate_separately=(check_X_params,
@@ -288,7 +288,7 @@ class MCPRegressor(Estimator):
             Measurements.
         """
         self._validate_params()
-        X = check_array(X, 'csc', dtype=[np.float64, np.float32], order='F',
+        X = check_array(X, 'csc', dtype=np.float64, order='F',
                         copy=False, accept_large_sparse=False)
         y = check_array(y, 'csc', dtype=X.dtype.type, order='F', copy=False,
                         ensure_2d=False)
@@ -377,7 +377,7 @@ class BlockMCPRegressor(Estimator):
             Measurements.
         """
         self._validate_params()
-        check_X_params = dict(dtype=[np.float64, np.float32], order='F',
+        check_X_params = dict(dtype=np.float64, order='F',
                               accept_sparse='csc')
         check_Y_params = dict(ensure_2d=False, order='F')
         X, Y = self._validate_data(X, Y, validate_separately=(check_X_params,
@@ -477,7 +477,7 @@ class ElasticNet(Estimator):
             Measurements.
         """
         self._validate_params()
-        X = check_array(X, 'csc', dtype=[np.float64, np.float32], order='F',
+        X = check_array(X, 'csc', dtype=np.float64, order='F',
                         copy=False, accept_large_sparse=False)
         y = check_array(y, 'csc', dtype=X.dtype.type, order='F', copy=False,
                         ensure_2d=False)
@@ -566,7 +566,7 @@ class MultiTaskElasticNet(Estimator):
             Measurements.
         """
         self._validate_params()
-        check_X_params = dict(dtype=[np.float64, np.float32], order='F',
+        check_X_params = dict(dtype=np.float64, order='F',
                               accept_sparse='csc')
         check_Y_params = dict(ensure_2d=False, order='F')
         X, Y = self._validate_data(X, Y, validate_separately=(check_X_params,
-- 
2.43.0


From d7d92d0ec966f2fd887484737c53fa70fd55fce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:27 +0000
Subject: [PATCH 14/17] fix: raise ValueError on mismatched sample numbers in
 single-task fits

---
 python/sparseglm/estimators.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/python/sparseglm/estimators.py b/python/sparseglm/estimators.py
index 9dd40fc..f105d8f 100644
--- a/python/sparseglm/estimators.py
+++ b/python/sparseglm/estimators.py
@@ -114,6 +114,10 @@ class Lasso(Estimator):
         y = check_array(y, 'csc', dtype=X.dtype.type, order='F', copy=False,
                         ensure_2d=False)
 
+        if X.shape[0] != y.shape[0]:
+            raise ValueError("X and y have inconsistent dimensions (%d != %d)"
+                             % (X.shape[0], y.shape[0]))
+
         self._inner = _lib.LassoWrapper(
             alpha=self.alpha, max_iterations=self.max_iter, ws_start_size=self.p0,
             k=self.K, max_epochs=self.max_epochs, tolerance=self.tol,
@@ -293,6 +297,10 @@ class MCPRegressor(Estimator):
         y = check_array(y, 'csc', dtype=X.dtype.type, order='F', copy=False,
                         ensure_2d=False)
 
+        if X.shape[0] != y.shape[0]:
+            raise ValueError("X and y have inconsistent dimensions (%d != %d)"
+                             % (X.shape[0], y.shape[0]))
+
         self._inner = _lib.MCPWrapper(
             alpha=self.alpha, gamma=self.gamma, max_iterations=self.max_iter,
             ws_start_size=self.p0, k=self.K, max_epochs=self.max_epochs,
@@ -482,6 +490,10 @@ class ElasticNet(Estimator):
         y = check_array(y, 'csc', dtype=X.dtype.type, order='F', copy=False,
                         ensure_2d=False)
 
+        if X.shape[0] != y.shape[0]:
+            raise ValueError("X and y have inconsistent dimensions (%d != %d)"
+                             % (X.shape[0], y.shape[0]))
+
         self._inner = _lib.ElasticNetWrapper(
             alpha=self.alpha, l1_ratio=self.l1_ratio,
             max_iterations=self.max_iter, ws_start_size=self.p0, k=self.K,
-- 
2.43.0


From 75ffbeafe026046c7d5d0e6a53cc61626bf53d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:27 +0000
Subject: [PATCH 15/17] fix: surface rejected hyperparameters as ValueError
 instead of a panic

---
 python/src/block_mcp.rs              | 11 +++++++++--
 python/src/elastic_net.rs            | 11 +++++++++--
 python/src/lasso.rs                  | 11 +++++++++--
 python/src/mcp.rs                    | 11 +++++++++--
 python/src/mtl_lasso.rs              | 11 +++++++++--
 python/src/multi_task_elastic_net.rs | 11 +++++++++--
 6 files changed, 54 insertions(+), 12 deletions(-)

diff --git a/python/src/block_mcp.rs b/python/src/block_mcp.rs
index 511868e..fb1acc4 100644
--- a/python/src/block_mcp.rs
+++ b/python/src/block_mcp.rs
@@ -1,4 +1,5 @@
 use numpy::{PyArray, PyArray1, PyArray2};
+use pyo3::exceptions::PyValueError;
 use pyo3::prelude::*;
 use sparseglm::{
     datasets::{csc_array::CSCArray, DenseDatasetView, SparseDataset},
@@ -45,7 +46,10 @@ impl BlockMCPWrapper {
         y: &PyArray2<f64>,
     ) -> PyResult<&'py PyArray2<f64>> {
         let dataset = DenseDatasetView::from((x.as_array(), y.as_array()));
-        let _estimator = self.inner.fit(&dataset).unwrap();
+        let _estimator = self
+            .inner
+            .fit(&dataset)
+            .map_err(|e| PyValueError::new_err(e.to_string()))?;
         Ok(PyArray::from_array(py, &_estimator.coefficients()))
     }
 
@@ -59,7 +63,10 @@ impl BlockMCPWrapper {
     ) -> PyResult<&'py PyArray2<f64>> {
         let x = CSCArray::new(data.as_array(), indices.as_array(), indptr.as_array());
         let dataset = SparseDataset::from((x, y.as_array()));
-        let _estimator = self.inner.fit(&dataset).unwrap();
+        let _estimator = self
+            .inner
+            .fit(&dataset)
+            .map_err(|e| PyValueError::new_err(e.to_string()))?;
         Ok(PyArray::from_array(py, &_estimator.coefficients()))
     }
 }
diff --git a/python/src/elastic_net.rs b/python/src/elastic_net.rs
index be404f9..f21e0e7 100644
--- a/python/src/elastic_net.rs
+++ b/python/src/elastic_net.rs
@@ -1,4 +1,5 @@
 use numpy::{PyArray, PyArray1, PyArray2};
+use pyo3::exceptions::PyValueError;
 use pyo3::prelude::*;
 use sparseglm::{
     datasets::{csc_array::CSCArray, DenseDatasetView, SparseDataset},
@@ -45,7 +46,10 @@ impl ElasticNetWrapper {
         y: &PyArray1<f64>,
     ) -> PyResult<&'py PyArray1<f64>> {
         let dataset = DenseDatasetView::from((x.as_array(), y.as_array()));
-        let _estimator = self.inner.fit(&dataset).unwrap();
+        let _estimator = self
+            .inner
+            .fit(&dataset)
+            .map_err(|e| PyValueError::new_err(e.to_string()))?;
         Ok(PyArray::from_array(py, &_estimator.coefficients()))
     }
 
@@ -59,7 +63,10 @@ impl ElasticNetWrapper {
     ) -> PyResult<&'py PyArray1<f64>> {
         let x = CSCArray::new(data.as_array(), indices.as_array(), indptr.as_array());
         let dataset = SparseDataset::from((x, y.as_array()));
-        let _estimator = self.inner.fit(&dataset).unwrap();
+        let _estimator = self
+            .inner
+            .fit(&dataset)
+            .map_err(|e| PyValueError::new_err(e.to_string()))?;
         Ok(PyArray::from_array(py, &_estimator.coefficients()))
     }
 }
diff --git a/python/src/lasso.rs b/python/src/lasso.rs
index c022cbe..41b44d1 100644
--- a/python/src/lasso.rs
+++ b/python/src/lasso.rs
@@ -1,4 +1,5 @@
 use numpy::{PyArray, PyArray1, PyArray2};
+use pyo3::exceptions::PyValueError;
 use pyo3::prelude::*;
 use sparseglm::{
     datasets::{csc_array::CSCArray, DenseDatasetView, SparseDataset},
@@ -43,7 +44,10 @@ impl LassoWrapper {
         y: &PyArray1<f64>,
     ) -> PyResult<&'py PyArray1<f64>> {
         let dataset = DenseDatasetView::from((x.as_array(), y.as_array()));
-        let _estimator = self.inner.fit(&dataset).unwrap();
+        let _estimator = self
+            .inner
+            .fit(&dataset)
+            .map_err(|e| PyValueError::new_err(e.to_string()))?;
         Ok(PyArray::from_array(py, &_estimator.coefficients()))
     }
 
@@ -57,7 +61,10 @@ impl LassoWrapper {
     ) -> PyResult<&'py PyArray1<f64>> {
         let x = CSCArray::new(data.as_array(), indices.as_array(), indptr.as_array());
         let dataset = SparseDataset::from((x, y.as_array()));
-        let _estimator = self.inner.fit(&dataset).unwrap();
+        let _estimator = self
+            .inner
+            .fit(&dataset)
+            .map_err(|e| PyValueError::new_err(e.to_string()))?;
         Ok(PyArray::from_array(py, &_estimator.coefficients()))
     }
 }
diff --git a/python/src/mcp.rs b/python/src/mcp.rs
index 23a1bc6..960cfbc 100644
--- a/python/src/mcp.rs
+++ b/python/src/mcp.rs
@@ -1,4 +1,5 @@
 use numpy::{PyArray, PyArray1, PyArray2};
+use pyo3::exceptions::PyValueError;
 use pyo3::prelude::*;
 use sparseglm::{
     datasets::{csc_array::CSCArray, DenseDatasetView, SparseDataset},
@@ -45,7 +46,10 @@ impl MCPWrapper {
         y: &PyArray1<f64>,
     ) -> PyResult<&'py PyArray1<f64>> {
         let dataset = DenseDatasetView::from((x.as_array(), y.as_array()));
-        let _estimator = self.inner.fit(&dataset).unwrap();
+        let _estimator = self
+            .inner
+            .fit(&dataset)
+            .map_err(|e| PyValueError::new_err(e.to_string()))?;
         Ok(PyArray::from_array(py, &_estimator.coefficients()))
     }
 
@@ -59,7 +63,10 @@ impl MCPWrapper {
     ) -> PyResult<&'py PyArray1<f64>> {
         let x = CSCArray::new(data.as_array(), indices.as_array(), indptr.as_array());
         let dataset = SparseDataset::from((x, y.as_array()));
-        let _estimator = self.inner.fit(&dataset).unwrap();
+        let _estimator = self
+            .inner
+            .fit(&dataset)
+            .map_err(|e| PyValueError::new_err(e.to_string()))?;
         Ok(PyArray::from_array(py, &_estimator.coefficients()))
     }
 }
diff --git a/python/src/mtl_lasso.rs b/python/src/mtl_lasso.rs
index 3aa75bf..1d4ce82 100644
--- a/python/src/mtl_lasso.rs
+++ b/python/src/mtl_lasso.rs
@@ -1,4 +1,5 @@
 use numpy::{PyArray, PyArray1, PyArray2};
+use pyo3::exceptions::PyValueError;
 use pyo3::prelude::*;
 use sparseglm::{
     datasets::{csc_array::CSCArray, DenseDatasetView, SparseDataset},
@@ -43,7 +44,10 @@ impl MultiTaskLassoWrapper {
         y: &PyArray2<f64>,
     ) -> PyResult<&'py PyArray2<f64>> {
         let dataset = DenseDatasetView::from((x.as_array(), y.as_array()));
-        let _estimator = self.inner.fit(&dataset).unwrap();
+        let _estimator = self
+            .inner
+            .fit(&dataset)
+            .map_err(|e| PyValueError::new_err(e.to_string()))?;
         Ok(PyArray::from_array(py, &_estimator.coefficients()))
     }
 
@@ -57,7 +61,10 @@ impl MultiTaskLassoWrapper {
     ) -> PyResult<&'py PyArray2<f64>> {
         let x = CSCArray::new(data.as_array(), indices.as_array(), indptr.as_array());
         let dataset = SparseDataset::from((x, y.as_array()));
-        let _estimator = self.inner.fit(&dataset).unwrap();
+        let _estimator = self
+            .inner
+            .fit(&dataset)
+            .map_err(|e| PyValueError::new_err(e.to_string()))?;
         Ok(PyArray::from_array(py, &_estimator.coefficients()))
     }
 }
diff --git a/python/src/multi_task_elastic_net.rs b/python/src/multi_task_elastic_net.rs
index ef91cac..76824a5 100644
--- a/python/src/multi_task_elastic_net.rs
+++ b/python/src/multi_task_elastic_net.rs
@@ -1,4 +1,5 @@
 use numpy::{PyArray, PyArray1, PyArray2};
+use pyo3::exceptions::PyValueError;
 use pyo3::prelude::*;
 use sparseglm::{
     datasets::{csc_array::CSCArray, DenseDatasetView, SparseDataset},
@@ -45,7 +46,10 @@ impl MultiTaskElasticNetWrapper {
         y: &PyArray2<f64>,
     ) -> PyResult<&'py PyArray2<f64>> {
         let dataset = DenseDatasetView::from((x.as_array(), y.as_array()));
-        let _estimator = self.inner.fit(&dataset).unwrap();
+        let _estimator = self
+            .inner
+            .fit(&dataset)
+            .map_err(|e| PyValueError::new_err(e.to_string()))?;
         Ok(PyArray::from_array(py, &_estimator.coefficients()))
     }
 
@@ -59,7 +63,10 @@ impl MultiTaskElasticNetWrapper {
     ) -> PyResult<&'py PyArray2<f64>> {
         let x = CSCArray::new(data.as_array(), indices.as_array(), indptr.as_array());
         let dataset = SparseDataset::from((x, y.as_array()));
-        let _estimator = self.inner.fit(&dataset).unwrap();
+        let _estimator = self
+            .inner
+            .fit(&dataset)
+            .map_err(|e| PyValueError::new_err(e.to_string()))?;
         Ok(PyArray::from_array(py, &_estimator.coefficients()))
     }
 }
-- 
2.43.0


From fd81f1a05d0958e2750f2e49f55d716247225544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:32:15 +0000
Subject: [PATCH 16/17] fix: the documented default of l1_ratio is 0.5

---
 src/estimators/hyperparams.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/estimators/hyperparams.rs b/src/estimators/hyperparams.rs
index fb4b2f8..e5b433a 100644
--- a/src/estimators/hyperparams.rs
+++ b/src/estimators/hyperparams.rs
@@ -829,7 +829,7 @@ impl<F: Float> ElasticNetParams<F> {
     }
 
     /// Set the weighting between L1 and L2 penalty.
-    /// Defaults to `3` if not set.
+    /// Defaults to `0.5` if not set.
     pub fn l1_ratio(mut self, l1_ratio: F) -> Self {
         self.0.l1_ratio = l1_ratio;
         self
@@ -1025,7 +1025,7 @@ impl<F: Float> MultiTaskElasticNetParams<F> {
     }
 
     /// Set the weighting between L1 and L2 penalty.
-    /// Defaults to `3` if not set.
+    /// Defaults to `0.5` if not set.
     pub fn l1_ratio(mut self, l1_ratio: F) -> Self {
         self.0.l1_ratio = l1_ratio;
         self
-- 
2.43.0


From 51b8500d35f7d1511a37b42194bbfba26dccdf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:54:34 +0000
Subject: [PATCH 17/17] fix: make_correlated_data accepts one-dimensional
 w_true as documented

---
 python/sparseglm/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/sparseglm/utils.py b/python/sparseglm/utils.py
index 851edaf..8474cb4 100644
--- a/python/sparseglm/utils.py
+++ b/python/sparseglm/utils.py
@@ -98,7 +98,7 @@ def make_correlated_data(
 
     Y = X @ w_true
     if snr != np.inf:
-        noise = rng.randn(n_samples, n_tasks)
+        noise = rng.randn(*Y.shape)
         Y += noise / norm(noise) * norm(Y) / snr
     if n_tasks == 1:
         return X, Y.flatten(), w_true.flatten()
-- 
2.43.0

