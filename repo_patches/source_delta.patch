From 79696f8d745d26574e3788b178e39f3adfe370e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:48:12 +0000
Subject: [PATCH 01/30] fix: drop values with zero total weight from the fitted
 bin boundaries

The cumulative shares already skipped these values, so boundaries and shares
had different lengths and fitting failed.
---
 cyclic_boosting/binning/ecdf_transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/binning/ecdf_transformer.py b/cyclic_boosting/binning/ecdf_transformer.py
index 723d05e..2c8b1d5 100644
--- a/cyclic_boosting/binning/ecdf_transformer.py
+++ b/cyclic_boosting/binning/ecdf_transformer.py
@@ -558,7 +558,6 @@ def calculate_cdf_from_weighted_data(z, w):
         raise ValueError("input vectors must be of same shape")
 
     n_nan = np.count_nonzero(np.isnan(z))
-    z_unique = np.unique(z[~np.isnan(z)])
 
     wsum = np.nansum(w[~np.isnan(z)])
 
@@ -566,6 +565,7 @@ def calculate_cdf_from_weighted_data(z, w):
     uniques = pd.DataFrame({"z": z, "w": w}).groupby(["z"]).agg({"w": "sum"}).reset_index()
     uniques = uniques.loc[uniques["w"] != 0]
 
+    z_unique = uniques["z"].values
     cdf = np.nancumsum(uniques["w"]) / wsum
 
     return z_unique, cdf, wsum, n_nan
-- 
2.43.0


From 31634d0ce5ef1dc01db7af1ea9caeb587e825dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:48:12 +0000
Subject: [PATCH 02/30] fix: ignore infinite values when fitting bin boundaries

The documentation promises that all non-finite values are ignored, and the
transform step treats infinite values as missing.
---
 cyclic_boosting/binning/ecdf_transformer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cyclic_boosting/binning/ecdf_transformer.py b/cyclic_boosting/binning/ecdf_transformer.py
index 2c8b1d5..4f68ce5 100644
--- a/cyclic_boosting/binning/ecdf_transformer.py
+++ b/cyclic_boosting/binning/ecdf_transformer.py
@@ -557,9 +557,11 @@ def calculate_cdf_from_weighted_data(z, w):
     if z.shape[0] != w.shape[0]:
         raise ValueError("input vectors must be of same shape")
 
-    n_nan = np.count_nonzero(np.isnan(z))
+    finite = np.isfinite(z)
+    n_nan = np.count_nonzero(~finite)
+    z, w = z[finite], w[finite]
 
-    wsum = np.nansum(w[~np.isnan(z)])
+    wsum = np.nansum(w)
 
     # Accumulate the weights for the unique values.
     uniques = pd.DataFrame({"z": z, "w": w}).groupby(["z"]).agg({"w": "sum"}).reset_index()
-- 
2.43.0


From ae272ac4280bc8c5f11fd4adcebc0bab4d7fc6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:48:12 +0000
Subject: [PATCH 03/30] fix: map rows to the extra position also if no row is
 valid

If none of the rows was valid, all rows were mapped to position 0, the first
regular bin, although the numbers of bins were given.
---
 cyclic_boosting/utils.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/cyclic_boosting/utils.py b/cyclic_boosting/utils.py
index d82e56e..f81d0e7 100644
--- a/cyclic_boosting/utils.py
+++ b/cyclic_boosting/utils.py
@@ -240,10 +240,7 @@ def multidim_binnos_to_lexicographic_binnos(binnos, n_bins=None, binsteps=None):
     is_valid = np.isfinite(binnos).all(axis=1)
     is_valid[is_valid] &= ((binnos[is_valid] >= 0) & (binnos[is_valid] < n_bins[None, :])).all(axis=1)
 
-    if not np.any(is_valid):
-        result = np.repeat(0, len(binnos))
-    else:
-        result = np.repeat(np.product(n_bins), len(binnos))
+    result = np.repeat(np.product(n_bins), len(binnos))
 
     result[is_valid] = np.dot(np.floor(binnos[is_valid]), binsteps[1:])
 
-- 
2.43.0


From bb650b5a95dbd3891eafaccd6428539255121543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:48:12 +0000
Subject: [PATCH 04/30] fix: do not overwrite the caller's matrix in
 ECdfTransformer.transform

---
 cyclic_boosting/binning/ecdf_transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/binning/ecdf_transformer.py b/cyclic_boosting/binning/ecdf_transformer.py
index 4f68ce5..ddf5ea4 100644
--- a/cyclic_boosting/binning/ecdf_transformer.py
+++ b/cyclic_boosting/binning/ecdf_transformer.py
@@ -272,7 +272,7 @@ class ECdfTransformer(sklearnb.BaseEstimator, sklearnb.TransformerMixin):
         if check_frame_empty(X):
             return X
 
-        Xnp = np.asarray(X, dtype=float)
+        Xnp = np.array(X, dtype=float)
         Xt = Xnp
 
         for col, epsilon, bins_and_cdfs in self.bins_and_cdfs_:
-- 
2.43.0


From a1f6b7f2f272d4489caf1b94647d25c980ec976c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:48:12 +0000
Subject: [PATCH 05/30] fix: do not clip the caller's array in
 OrthogonalPolynomialSmoother.predict

---
 cyclic_boosting/smoothing/onedim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/smoothing/onedim.py b/cyclic_boosting/smoothing/onedim.py
index a050b7d..abbc71f 100644
--- a/cyclic_boosting/smoothing/onedim.py
+++ b/cyclic_boosting/smoothing/onedim.py
@@ -257,7 +257,7 @@ class OrthogonalPolynomialSmoother(AbstractBinSmoother):
         assert X.ndim == 2
         if not hasattr(self, "pp_"):
             raise ValueError("The {} has not been fitted!".format(self.__class__.__name__))
-        x = np.ascontiguousarray(X[:, 0], dtype=np.float64)
+        x = np.array(X[:, 0], dtype=np.float64, order="C")
         x[x < self.minimal_x] = self.minimal_x
         x[x > self.maximal_x] = self.maximal_x
         y = cy_apply_orthogonal_poly_fit_equidistant(x, self.pp_, self.n_degrees_)
-- 
2.43.0


From 2e0ac9425f7a4532ee5f398097125f315c2a146c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:48:12 +0000
Subject: [PATCH 06/30] fix: do not clip the caller's prior prediction column
 in CBNBinomC

---
 cyclic_boosting/nbinom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/nbinom.py b/cyclic_boosting/nbinom.py
index 7b7e798..f1c5185 100644
--- a/cyclic_boosting/nbinom.py
+++ b/cyclic_boosting/nbinom.py
@@ -144,7 +144,7 @@ class CBNBinomC(CyclicBoostingBase, sklearn.base.RegressorMixin, LogitLinkMixin)
             prior_prediction_link = np.repeat(self.neutral_factor_link, X.shape[0])
         else:
             prior_pred = get_X_column(X, self.prior_prediction_column)
-            np.clip(prior_pred, 0, 1, prior_pred)
+            prior_pred = np.clip(prior_pred, 0, 1)
             prior_prediction_link = self.link_func(prior_pred)
             finite = np.isfinite(prior_prediction_link)
             prior_prediction_link[~finite] = self.neutral_factor_link
-- 
2.43.0


From ad612e32f39933ed095a6470dd21165b7ad885dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:48:12 +0000
Subject: [PATCH 07/30] fix: forget the feature importances of a previous fit

---
 cyclic_boosting/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index 98d11f1..1f176ca 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -968,6 +968,7 @@ class CyclicBoostingBase(
             return [(feature.feature_id, feature.smoother) for feature in self.features]
 
     def set_feature_importances(self) -> None:
+        self.feature_importances = {}
         for feature in self.features:
             feature.prepare_feature()
             feature.set_feature_bin_deviations_from_neutral(self.neutral_factor_link)
-- 
2.43.0


From 4c56c8abf5632e47a4ad65e9c95886c09cfe7105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:48:12 +0000
Subject: [PATCH 08/30] fix: support integer column names in feature
 importances and contributions

---
 cyclic_boosting/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index 1f176ca..76c7334 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -983,7 +983,7 @@ class CyclicBoostingBase(
         else:
             normalized_values = get_normalized_values(self.feature_importances.values())
             norm_feature_importances = {
-                "_".join(feature.feature_id.feature_group): normalized_values[i]
+                "_".join(str(col) for col in feature.feature_id.feature_group): normalized_values[i]
                 for i, feature in enumerate(self.feature_importances.keys())
             }
             return norm_feature_importances
@@ -1011,7 +1011,7 @@ class CyclicBoostingBase(
         contribution = {}
         for feature in self.features:
             ft = "" if feature.feature_type is None else "_{}".format(feature.feature_type)
-            fg = " ".join(feature.feature_group)
+            fg = " ".join(str(col) for col in feature.feature_group)
             contribution[fg + ft] = self.unlink_func(self._pred_feature(X, feature, is_fit=False))
         return contribution
 
-- 
2.43.0


From 82a26ba53042d065f87c8b9f0315205d90883955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:48:12 +0000
Subject: [PATCH 09/30] fix: reproduce the quantiles of a symmetric triplet in
 the extended J-QPDs

The width was not rescaled by sinh(1), so the low and high quantiles were
missed. Triplets that are symmetric up to rounding gave NaN.
---
 cyclic_boosting/quantile_matching.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cyclic_boosting/quantile_matching.py b/cyclic_boosting/quantile_matching.py
index 5c00597..1099016 100644
--- a/cyclic_boosting/quantile_matching.py
+++ b/cyclic_boosting/quantile_matching.py
@@ -361,9 +361,10 @@ class BaseDist:
 def unconstrained_calc(L: float, B: float, H: float) -> Tuple[float, float, float, float]:
     gamma = -np.sign(L + H - 2 * B)
 
-    if gamma == 0:
+    if gamma == 0 or min(B - L, H - B) / (H - L) >= 0.5:
+        gamma = 0
         xi = B
-        kappa = H - B
+        kappa = (H - B) / sinh(1)
         delta = 1
     else:
         if gamma < 0:
-- 
2.43.0


From 2916efe8fe3bf049046aef6843a52972a8dffa09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:48:12 +0000
Subject: [PATCH 10/30] fix: handle log-symmetric triplets in J_QPD_S

The shape parameter vanishes in this case, which gave NaN quantiles. The
distribution does not depend on it then, so any positive value can be used.
---
 cyclic_boosting/quantile_matching.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cyclic_boosting/quantile_matching.py b/cyclic_boosting/quantile_matching.py
index 1099016..48b25eb 100644
--- a/cyclic_boosting/quantile_matching.py
+++ b/cyclic_boosting/quantile_matching.py
@@ -80,6 +80,11 @@ class J_QPD_S:
             )
         )
 
+        symmetric = ~(self.delta > 0)
+        self.n = np.where(symmetric, 0, self.n)
+        self.theta = np.where(symmetric, qv_median - l, self.theta)
+        self.delta = np.where(symmetric, 1.0, self.delta)
+
         self.kappa = (
             1.0
             / (self.delta * self.c)
-- 
2.43.0


From e2ab769511b733640c6b3a1bef8ba39035df90f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:48:12 +0000
Subject: [PATCH 11/30] fix: handle symmetric triplets in J_QPD_B

The shape parameter vanishes in this case, which gave NaN quantiles. Use a
small positive value to represent the limit.
---
 cyclic_boosting/quantile_matching.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cyclic_boosting/quantile_matching.py b/cyclic_boosting/quantile_matching.py
index 48b25eb..514d7ff 100644
--- a/cyclic_boosting/quantile_matching.py
+++ b/cyclic_boosting/quantile_matching.py
@@ -243,6 +243,11 @@ class J_QPD_B:
             )
         )
 
+        symmetric = ~(self.delta > 0)
+        self.n = np.where(symmetric, 0, self.n)
+        self.xi = np.where(symmetric, self.B, self.xi)
+        self.delta = np.where(symmetric, 1e-6, self.delta)
+
         self.kappa = (self.H - self.L) / np.sinh(2 * self.delta * self.c)
 
     def ppf(self, x: Union[float, np.ndarray], inner=False) -> Union[float, np.ndarray]:
-- 
2.43.0


From 5e8f5f81bc25261128c9bfcc8993c929f9c0f22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:48:12 +0000
Subject: [PATCH 12/30] fix: reject training data if either X or y is empty

The bitwise operator bound tighter than the comparisons, so the check only
fired if both were empty.
---
 cyclic_boosting/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index 76c7334..8eae32d 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -945,7 +945,7 @@ class CyclicBoostingBase(
 
     def _check_len_data(self, X: Union[pd.DataFrame, np.ndarray], y: np.ndarray) -> None:
         """Check that input arrays are not empty"""
-        if len(X) == 0 | len(y) == 0:
+        if len(X) == 0 or len(y) == 0:
             raise ValueError("Estimator should be applied on non-empty data")
 
     def _check_y(self, y: np.ndarray) -> None:
-- 
2.43.0


From 3e87fb5a68c7617d0585ec9fb14d52bdb2f01792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:48:12 +0000
Subject: [PATCH 13/30] fix: subtract the removed contribution for a new
 influence category

---
 cyclic_boosting/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index 8eae32d..bb8ff6a 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -73,7 +73,7 @@ class UpdateMixin(object):
             if influence_category in self.df.columns:
                 self.df[influence_category] -= pred
             else:
-                self.df[influence_category] = pred
+                self.df[influence_category] = -pred
 
     def update_predictions(
         self, pred: np.ndarray, feature: Feature, influence_categories: Optional[dict] = None
-- 
2.43.0


From 7473368d5bedf2a668daa86eb51293f77ab13d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:48:12 +0000
Subject: [PATCH 14/30] fix: do not remove contributions twice after a rollback
 without aggregation

Without aggregation each update first removes the current factors of the
feature. After a diverged cycle was rolled back these factors had already been
removed.
---
 cyclic_boosting/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index bb8ff6a..ce5abf7 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -567,6 +567,8 @@ class CyclicBoostingBase(
             pred.remove_predictions(feature_predictions, feature)
 
             feature.fitted_aggregated -= feature.factors_link
+            if not self.aggregate:
+                feature.factors_link = np.ones(feature.n_bins) * self.neutral_factor_link
             feature.unbind_data()
 
     def _set_factors_per_feature(self, feature: Feature) -> Tuple[float, int]:
-- 
2.43.0


From 34d45011dfcd40253d250f48be3f0ed2ca17d799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:48:12 +0000
Subject: [PATCH 15/30] fix: skip features that are not yet trained in the
 rollback of a diverged cycle

In the start-up phase of hierarchical training these features have no
accumulated factors yet, so the rollback failed with a TypeError.
---
 cyclic_boosting/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index ce5abf7..0b5a62b 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -556,6 +556,8 @@ class CyclicBoostingBase(
 
     def remove_preds(self, pred: CBLinkPredictionsFactors, X: np.ndarray) -> None:
         for feature in self.features:
+            if not feature.is_fitted:
+                continue
             if feature.feature_type is None:
                 weights = self.weights
             else:
-- 
2.43.0


From ce61154c1ca14345bdc9b7630b6973a724596f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:48:12 +0000
Subject: [PATCH 16/30] fix: regularize locally constant values to the
 neighbouring mean

A vanishing spread of the neighbours gave an infinite weight and thus NaN.
---
 cyclic_boosting/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/utils.py b/cyclic_boosting/utils.py
index f81d0e7..08e897b 100644
--- a/cyclic_boosting/utils.py
+++ b/cyclic_boosting/utils.py
@@ -884,7 +884,7 @@ def regularize_to_error_weighted_mean_neighbors(
     for i in range(len(x)):
         wx_incl[i] = (sum_wx / np.convolve(wx * np.square(x - x_mean[i]), window_arr, "same"))[i]
 
-    res = (wx * x + wx_incl * x_mean) / (wx + wx_incl)
+    res = np.where(np.isfinite(wx_incl), (wx * x + wx_incl * x_mean) / (wx + wx_incl), x_mean)
     return res
 
 
-- 
2.43.0


From cd0f0a0d4e3fa9e5d2e2778f3dfb8bb221b1e6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:48:12 +0000
Subject: [PATCH 17/30] fix: respect sample weights in the interpolation of
 discrete quantiles

The position within equal values was taken from the cumulated weight instead
of the number of samples, which is only right for unit weights. Samples with
zero weight are left out, and the result no longer leaves the range between
two neighbouring integers if the share ends exactly at a group of equal values.
---
 cyclic_boosting/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cyclic_boosting/utils.py b/cyclic_boosting/utils.py
index 08e897b..9debdcc 100644
--- a/cyclic_boosting/utils.py
+++ b/cyclic_boosting/utils.py
@@ -1042,6 +1042,9 @@ def continuous_quantile_from_discrete_pdf(y, quantile, weights):
     y = np.asarray(y)
     weights = np.asarray(weights)
 
+    if (weights > 0).any():
+        y, weights = y[weights > 0], weights[weights > 0]
+
     sorting = y.argsort()
     sorted_y = y[sorting]
     cumsum = weights[sorting].cumsum()
@@ -1052,7 +1055,8 @@ def continuous_quantile_from_discrete_pdf(y, quantile, weights):
     index_low = all_quantile_y[0]
     index_high = all_quantile_y[-1]
     if index_high > index_low:
-        quantile_y += (int(quantile_index) - index_low) / (index_high - index_low)
+        position = min(np.searchsorted(cumsum, quantile_index, side="right"), index_high)
+        quantile_y += (position - index_low) / (index_high - index_low)
 
     return quantile_y
 
-- 
2.43.0


From 108e4e41eb2b83d7fb13c3305d030b70372cfa44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:48:12 +0000
Subject: [PATCH 18/30] fix: bins with zero total weight no longer spoil the
 additive bin estimates

The mean of such a bin was NaN, which made all variances of the feature NaN.
---
 cyclic_boosting/location.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/location.py b/cyclic_boosting/location.py
index 15e2ad8..34c5663 100644
--- a/cyclic_boosting/location.py
+++ b/cyclic_boosting/location.py
@@ -115,7 +115,7 @@ def precalc_variance_y(feature, y, weights, n_prior=1):
 
     sum_y = np.bincount(lex_binnumbers, weights=weights * y, minlength=minlength)
     sum_weights = np.bincount(lex_binnumbers, weights=weights, minlength=minlength)
-    mean_y = sum_y[lex_binnumbers] / sum_weights[lex_binnumbers]
+    mean_y = (sum_y / np.where(sum_weights > 0, sum_weights, 1.0))[lex_binnumbers]
     weighted_squared_residual_sum = np.bincount(
         lex_binnumbers, weights=weights * (y - mean_y) ** 2, minlength=minlength
     )
-- 
2.43.0


From 3e5a345239fac2ff0aa455942f6a05814dad7aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:48:12 +0000
Subject: [PATCH 19/30] fix: pass a and c to CBExponential in the pipeline
 factory

---
 cyclic_boosting/pipelines.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cyclic_boosting/pipelines.py b/cyclic_boosting/pipelines.py
index f7689de..c27fe7f 100644
--- a/cyclic_boosting/pipelines.py
+++ b/cyclic_boosting/pipelines.py
@@ -101,6 +101,8 @@ def pipeline_CB(
             learn_rate=learn_rate,
             var_prior_exponent=var_prior_exponent,
             prior_exponent_colname=prior_exponent_colname,
+            a=a,
+            c=c,
         )
     elif estimator == CBNBinomC:
         estimatorCB = estimator(
-- 
2.43.0


From 02a2f7e7452aa302deac800f92f3fa76843314ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:48:12 +0000
Subject: [PATCH 20/30] fix: pass the weight column to the binner in the
 pipeline factory

Without feature properties the weight column itself was binned, so training
used bin numbers as weights.
---
 cyclic_boosting/pipelines.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cyclic_boosting/pipelines.py b/cyclic_boosting/pipelines.py
index c27fe7f..2aa3f5e 100644
--- a/cyclic_boosting/pipelines.py
+++ b/cyclic_boosting/pipelines.py
@@ -174,7 +174,9 @@ def pipeline_CB(
         )
     else:
         raise Exception("No valid CB estimator.")
-    binner = binning.BinNumberTransformer(n_bins=number_of_bins, feature_properties=feature_properties, inplace=inplace)
+    binner = binning.BinNumberTransformer(
+        n_bins=number_of_bins, feature_properties=feature_properties, weight_column=weight_column, inplace=inplace
+    )
 
     return Pipeline([("binning", binner), ("CB", estimatorCB)])
 
-- 
2.43.0


From 11df6d841717898ff16c21e9f35d03c730e4d920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:48:12 +0000
Subject: [PATCH 21/30] fix: render all feature property flags as text

The flags for magic missing values and for increasing and decreasing features
were rejected as unknown.
---
 cyclic_boosting/flags.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cyclic_boosting/flags.py b/cyclic_boosting/flags.py
index 2d123a1..576d9d3 100644
--- a/cyclic_boosting/flags.py
+++ b/cyclic_boosting/flags.py
@@ -47,6 +47,9 @@ _FLAG_LIST = [
     "CORR_TO_WIDTH",
     "IS_LINEAR",
     "IS_SEASONAL",
+    "HAS_MAGIC_INT_MISSING",
+    "INCREASING",
+    "DECREASING",
 ]
 
 
-- 
2.43.0


From 9a467d1c053778714184a4015a8126dfccc74a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:50:35 +0000
Subject: [PATCH 22/30] fix: reject targets that are not finite in
 CBGBSRegressor

---
 cyclic_boosting/GBSregression.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cyclic_boosting/GBSregression.py b/cyclic_boosting/GBSregression.py
index 01c1596..ce0aebd 100644
--- a/cyclic_boosting/GBSregression.py
+++ b/cyclic_boosting/GBSregression.py
@@ -91,7 +91,9 @@ class CBGBSRegressor(RegressorMixin, CyclicBoostingBase, IdentityLinkMixin):
         return summand, np.sqrt(variance_summand)
 
     def _check_y(self, y: np.ndarray):
-        pass
+        """Check that y has only finite values."""
+        if not np.isfinite(y).all():
+            raise ValueError("The target y must be real value and not NAN.")
 
     def _init_global_scale(self, X: Union[pd.DataFrame, np.ndarray], y: np.ndarray) -> None:
         if self.weights is None:
-- 
2.43.0


From 258b5298d2e89b7f2fb539252c2166acaceda80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:00:37 +0000
Subject: [PATCH 23/30] fix: keep the importance of a group used both as
 standard and external feature

---
 cyclic_boosting/base.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index 0b5a62b..cd9f259 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -986,10 +986,11 @@ class CyclicBoostingBase(
             raise ValueError("_fit_main has to be called first to compute the feature importance.")
         else:
             normalized_values = get_normalized_values(self.feature_importances.values())
-            norm_feature_importances = {
-                "_".join(str(col) for col in feature.feature_id.feature_group): normalized_values[i]
-                for i, feature in enumerate(self.feature_importances.keys())
-            }
+            norm_feature_importances = {}
+            for i, feature in enumerate(self.feature_importances.keys()):
+                ft = "" if feature.feature_type is None else "_{}".format(feature.feature_type)
+                fg = "_".join(str(col) for col in feature.feature_id.feature_group)
+                norm_feature_importances[fg + ft] = normalized_values[i]
             return norm_feature_importances
 
     def get_feature_contributions(self, X: Union[pd.DataFrame, np.ndarray]) -> Dict[str, np.ndarray]:
-- 
2.43.0


From 4237e90b2fe90ce4e73613525b60b089b9cbc6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:08:02 +0000
Subject: [PATCH 24/30] fix: report the mean prediction column as required by
 CBNBinomC

---
 cyclic_boosting/nbinom.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cyclic_boosting/nbinom.py b/cyclic_boosting/nbinom.py
index f1c5185..97c00b3 100644
--- a/cyclic_boosting/nbinom.py
+++ b/cyclic_boosting/nbinom.py
@@ -139,6 +139,11 @@ class CBNBinomC(CyclicBoostingBase, sklearn.base.RegressorMixin, LogitLinkMixin)
         del self.mu
         return self
 
+    def required_columns(self):
+        required_columns = CyclicBoostingBase.required_columns(self)
+        required_columns.add(self.mean_prediction_column)
+        return required_columns
+
     def _get_prior_predictions(self, X):
         if self.prior_prediction_column is None:
             prior_prediction_link = np.repeat(self.neutral_factor_link, X.shape[0])
-- 
2.43.0


From d2739e736c94a345089c1ac5d482460da666f306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:23:36 +0000
Subject: [PATCH 25/30] fix: let fit_transform of CBNBinomC use the mean
 prediction column

---
 cyclic_boosting/nbinom.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cyclic_boosting/nbinom.py b/cyclic_boosting/nbinom.py
index 97c00b3..db0f9a0 100644
--- a/cyclic_boosting/nbinom.py
+++ b/cyclic_boosting/nbinom.py
@@ -133,11 +133,11 @@ class CBNBinomC(CyclicBoostingBase, sklearn.base.RegressorMixin, LogitLinkMixin)
         # TODO: use weights
         return loss_nbinom_c(y.astype(np.float64), self.mu, c, self.gamma)
 
-    def fit(self, X, y=None):
+    def _fit_predict(self, X, y=None):
         self.mu = X[self.mean_prediction_column].values
-        _ = self._fit_predict(X, y)
+        prediction = CyclicBoostingBase._fit_predict(self, X, y)
         del self.mu
-        return self
+        return prediction
 
     def required_columns(self):
         required_columns = CyclicBoostingBase.required_columns(self)
-- 
2.43.0


From 70c67a027874e9599cf719afa82a0a9163c57899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:23:36 +0000
Subject: [PATCH 26/30] fix: let fit_transform of CBExponential train the price
 model

---
 cyclic_boosting/price.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cyclic_boosting/price.py b/cyclic_boosting/price.py
index 56f3ea0..2567c67 100644
--- a/cyclic_boosting/price.py
+++ b/cyclic_boosting/price.py
@@ -414,18 +414,19 @@ class CBExponential(CBNBinomRegressor):
             pred.update_predictions(feature_predictions, feature, influence_categories)
         return pred
 
-    def fit(self, X, y=None):
+    def _fit_predict(self, X, y=None):
+        y = np.asarray(y)
         self._init_fit(X, y)
         pred = CBLinkPredictions(
             self._get_prior_predictions(X),
             self._get_prior_exponent(X),
             self.external_col,
         )
-        _ = self._fit_main(X, y, pred)
+        prediction = self._fit_main(X, y, pred)
         del self.external_col
         del self.weights_external
 
-        return self
+        return prediction
 
 
 def gamma_momemt_matching(factors, variance_factors, link_func):
-- 
2.43.0


From f3c40f5e3e553357f6243aef4862204978f081c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:27:17 +0000
Subject: [PATCH 27/30] fix: treat bin numbers beyond the integer range as
 unseen when predicting

---
 cyclic_boosting/smoothing/multidim.py | 4 ++--
 cyclic_boosting/smoothing/onedim.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cyclic_boosting/smoothing/multidim.py b/cyclic_boosting/smoothing/multidim.py
index 14e0198..7e0aa02 100644
--- a/cyclic_boosting/smoothing/multidim.py
+++ b/cyclic_boosting/smoothing/multidim.py
@@ -47,14 +47,14 @@ class PredictingBinValueMixin(SetNBinsMixin):
             self._bin_steps = utils.bin_steps(self.n_bins_)
 
         binnos = X
-        binnos_round = np.asarray(np.floor(X), dtype=int)
+        binnos_round = np.floor(X)
         is_valid = np.all(
             np.isfinite(binnos) & (binnos >= 0) & (binnos_round < (self.n_bins_[None, :])),
             axis=1,
         )
 
         pred = utils.nans(len(binnos))
-        pred[is_valid] = self.smoothed_y_[np.dot(binnos_round[is_valid], self._bin_steps[1:])]
+        pred[is_valid] = self.smoothed_y_[np.dot(np.asarray(binnos_round[is_valid], dtype=int), self._bin_steps[1:])]
 
         return pred
 
diff --git a/cyclic_boosting/smoothing/onedim.py b/cyclic_boosting/smoothing/onedim.py
index abbc71f..cdf0c0f 100644
--- a/cyclic_boosting/smoothing/onedim.py
+++ b/cyclic_boosting/smoothing/onedim.py
@@ -43,11 +43,11 @@ class PredictingBinValueMixin(object):
         if not hasattr(self, "smoothed_y_"):
             raise ValueError("The {} has not been fitted!".format(self.__class__.__name__))
         binnos = X[:, 0]
-        binnos_round = np.asarray(np.rint(binnos), dtype=np.int64)
+        binnos_round = np.rint(binnos)
         is_valid = np.isfinite(binnos) & (binnos >= 0) & (binnos_round < (len(self.smoothed_y_)))
 
         pred = utils.nans(len(binnos))
-        pred[is_valid] = self.smoothed_y_[binnos_round[is_valid]]
+        pred[is_valid] = self.smoothed_y_[np.asarray(binnos_round[is_valid], dtype=np.int64)]
         return pred
 
 
-- 
2.43.0


From c158fe79b0ed817e3819a103dcfcfeaec39a4721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:36:28 +0000
Subject: [PATCH 28/30] fix: finite uncertainty for bins with zero total weight
 in the additive quantile mode

---
 cyclic_boosting/generic_loss.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cyclic_boosting/generic_loss.py b/cyclic_boosting/generic_loss.py
index c8963fa..62e9280 100644
--- a/cyclic_boosting/generic_loss.py
+++ b/cyclic_boosting/generic_loss.py
@@ -548,10 +548,12 @@ def uncertainty_gamma(y: np.ndarray, weights: np.ndarray) -> float:
 
 def uncertainty_gaussian(y: np.ndarray, weights: np.ndarray) -> float:
     sum_weights = np.sum(weights)
-    weighted_mean_y = np.sum(y * weights) / sum_weights
+    # the prior only is left for a bin without any weight
+    denominator = sum_weights if sum_weights > 0 else 1.0
+    weighted_mean_y = np.sum(y * weights) / denominator
     weighted_squared_residual_sum = np.sum(weights * (y - weighted_mean_y) ** 2)
 
-    variance_prior = weighted_squared_residual_sum / sum_weights
+    variance_prior = weighted_squared_residual_sum / denominator
     if variance_prior <= 1e-9:
         variance_prior = 1.0
 
-- 
2.43.0


From 0a41233ef26935a5946eb9bac3dd57c1809567bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:43:43 +0000
Subject: [PATCH 29/30] fix: keep multiplicative quantile estimates positive

---
 cyclic_boosting/generic_loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/generic_loss.py b/cyclic_boosting/generic_loss.py
index 62e9280..0254db0 100644
--- a/cyclic_boosting/generic_loss.py
+++ b/cyclic_boosting/generic_loss.py
@@ -92,7 +92,7 @@ class CBGenericLoss(CyclicBoostingBase):
         neutral_factor = self.unlink_func(np.array(self.neutral_factor_link))
         if neutral_factor != 0:
             epsilon = 1e-5
-            parameters = np.where(np.abs(parameters) < epsilon, epsilon, parameters)
+            parameters = np.where(parameters < epsilon, epsilon, parameters)
             parameters = np.log(parameters)
 
         return parameters, uncertainties
-- 
2.43.0


From 57afbe5565b0110fd10e82b0538c4064723e4375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:43:43 +0000
Subject: [PATCH 30/30] fix: let the observer base class accept all arguments
 of the iteration call

---
 cyclic_boosting/observers.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cyclic_boosting/observers.py b/cyclic_boosting/observers.py
index 8328b7b..14808db 100644
--- a/cyclic_boosting/observers.py
+++ b/cyclic_boosting/observers.py
@@ -16,7 +16,7 @@ class BaseObserver(object):
     order to make predictions.
     """
 
-    def observe_iterations(self, iteration, X, y, prediction, weights, estimator_state):
+    def observe_iterations(self, iteration, X, y, prediction, weights, estimator_state, delta=None, quantile=None):
         """
         Called after each iteration of the algorithm.
 
@@ -42,6 +42,12 @@ class BaseObserver(object):
             :meth:`cyclic_boosting.base.CyclicBoostingBase.get_state` for
             information on what will be passed here
 
+        delta : float
+            change of the factors in this iteration
+
+        quantile : float
+            quantile to be predicted (quantile regression only)
+
         """
 
     def observe_feature_iterations(self, iteration, feature_i, X, y, prediction, weights, estimator_state):
-- 
2.43.0

