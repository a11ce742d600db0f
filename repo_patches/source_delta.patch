From 1bb8459dc6e91881fbdea53e5662195ca9f58e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:10 +0000
Subject: [PATCH 01/53] fix: data term of
 LinearGaussianProblem.compute_functionals counts the offset once

---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index bc9b719..9f4ffa3 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1097,7 +1097,7 @@ class LinearGaussianProblem(object):
             return np.sum(X * (np.linalg.inv(mat) @ X), axis=0)
 
         # First compute data mismatch norm
-        data_term = ip((self.A @ X.T + self.b) - mean_o.T, self.cov_o)
+        data_term = ip(self.A @ X.T - mean_o, self.cov_o)
         if terms == "data":
             return data_term
 
-- 
2.43.0


From 91eb47285123b4806a51d71f8025e6cd2614cd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:10 +0000
Subject: [PATCH 02/53] fix: norm_data accepts the default scalar observed mean
 of full_functional

---
 src/mud/norm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/norm.py b/src/mud/norm.py
index 543badd..a57dbaf 100644
--- a/src/mud/norm.py
+++ b/src/mud/norm.py
@@ -47,7 +47,7 @@ def norm_input(inputs, initial_mean, initial_cov):
 def norm_data(operator, inputs, data, observed_mean, observed_cov):
     if isinstance(observed_cov, int) or isinstance(observed_cov, float):
         observed_cov = observed_cov * np.eye(len(data))
-    X = (operator @ inputs.T + data) - observed_mean.T
+    X = (operator @ inputs.T + data) - np.transpose(observed_mean)
     return inner_product(X, observed_cov)
 
 
-- 
2.43.0


From 5a45ad8110f858a91ad44b968f3c652093044f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:10 +0000
Subject: [PATCH 03/53] fix: set_observed discards an updated density computed
 with the old observed density

---
 src/mud/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mud/base.py b/src/mud/base.py
index 9f4ffa3..befc6bb 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -213,6 +213,7 @@ class DensityProblem(object):
         """
         self._ob_dist = distribution
         self._ob = distribution.pdf(self.y).prod(axis=1)
+        self._up = None
 
     def set_initial(self, distribution: Optional[rv_continuous] = None):
         """
-- 
2.43.0


From 9b9c2a3f86146c51052d5deed1abd70efe23a8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:10 +0000
Subject: [PATCH 04/53] fix: one-dimensional samples given to DensityProblem
 are samples of one parameter

---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index befc6bb..c74ad13 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -108,7 +108,7 @@ class DensityProblem(object):
         normalize: bool = False,
         pad_domain: float = 0.1,
     ):
-        self.X = set_shape(np.array(X), (1, -1))
+        self.X = set_shape(np.array(X), (-1, 1))
         self.y = set_shape(np.array(y), (-1, 1))
 
         # These will be updated in set_ and fit() functions
-- 
2.43.0


From d4df6466bccabb3bcacc835a1d4be5a1e8910f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:10 +0000
Subject: [PATCH 05/53] fix: add_noise keeps the shape of multi-dimensional
 signals

---
 src/mud/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/util.py b/src/mud/util.py
index fad2040..6c6dfb7 100644
--- a/src/mud/util.py
+++ b/src/mud/util.py
@@ -221,7 +221,7 @@ def add_noise(signal: ArrayLike, sd: float = 0.05, seed: Optional[int] = None):
         np.random.seed(seed)
 
     # Populate qoi_true with noise
-    noise = np.random.randn(signal.size) * sd
+    noise = np.random.randn(*signal.shape) * sd
 
     return signal + noise
 
-- 
2.43.0


From cbaeca2230c0c90da8c22212bf839f09d738e433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:10 +0000
Subject: [PATCH 06/53] fix: fit_domain does not modify the bounds it is given

---
 src/mud/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mud/util.py b/src/mud/util.py
index 6c6dfb7..fa21ab5 100644
--- a/src/mud/util.py
+++ b/src/mud/util.py
@@ -278,6 +278,8 @@ def fit_domain(
         if x is None:
             raise ValueError("Both x and min_max_bounds can't be None")
         min_max_bounds = np.array([x.min(axis=0), x.max(axis=0)]).T
+    else:
+        min_max_bounds = np.array(min_max_bounds)
     pad = pad_ratio * (min_max_bounds[:, 1] - min_max_bounds[:, 0])
     min_max_bounds[:, 0] = min_max_bounds[:, 0] - pad
     min_max_bounds[:, 1] = min_max_bounds[:, 1] + pad
-- 
2.43.0


From db3c3a9d81ce0cc5a4333248d3ca12f1f43d78b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:10 +0000
Subject: [PATCH 07/53] fix: rank_decomposition returns the truncated singular
 value sums of every rank

---
 src/mud/util.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/mud/util.py b/src/mud/util.py
index fa21ab5..676cf0a 100644
--- a/src/mud/util.py
+++ b/src/mud/util.py
@@ -231,11 +231,10 @@ def rank_decomposition(A: np.typing.ArrayLike) -> List[np.ndarray]:
     A = np.array(A)
     A_ranks = []
     rank_1_updates = []
-    u, s, v = np.linalg.svd(A)
-    A_ranks.append(s[0] * (u[:, 0].reshape(-1, 1)) @ v[:, 0].reshape(1, -1))
-    for i in range(1, A.shape[1]):
-        rank_1_updates.append(s[i] * (u[:, i].reshape(-1, 1)) @ v[:, i].reshape(1, -1))
-        A_ranks.append(sum(rank_1_updates[0:i]))
+    u, s, vh = np.linalg.svd(A)
+    for i in range(len(s)):
+        rank_1_updates.append(s[i] * (u[:, i].reshape(-1, 1)) @ vh[i, :].reshape(1, -1))
+        A_ranks.append(sum(rank_1_updates[0 : i + 1]))
 
     return A_ranks
 
-- 
2.43.0


From 213f74db5ee76e4e443ff42ead52801c1d2717f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:10 +0000
Subject: [PATCH 08/53] fix: iterative linear solves pass the keyword arguments
 the solvers accept

---
 src/mud/base.py | 6 +++---
 src/mud/funs.py | 7 +++----
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index c74ad13..4329453 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1466,9 +1466,9 @@ class IterativeLinearProblem(LinearGaussianProblem):
                         self.A[i, :],
                         self.b[i],
                         self.y[i],
-                        mean=solutions[-1],
-                        cov=self.cov,
-                        data_cov=self.data_cov,
+                        mean_i=solutions[-1],
+                        cov_i=self.cov,
+                        cov_o=self.data_cov[i : i + 1, i : i + 1],
                     )
                 )
 
diff --git a/src/mud/funs.py b/src/mud/funs.py
index 7b74e74..d030ecf 100644
--- a/src/mud/funs.py
+++ b/src/mud/funs.py
@@ -174,10 +174,9 @@ def iter_lin_solve(
         A,
         b=b,
         y=y,
-        mean_i=mean,
-        cov_i=cov,
-        cov_o=data_cov,
-        alpha=1.0,
+        mu_i=mean,
+        cov=cov,
+        data_cov=data_cov,
         idx_order=idx_order,
     )
     res = lin_prob.solve(num_epochs=num_epochs, method=method)
-- 
2.43.0


From 4578f06664241ead0b4c880b58f92c3af872d023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:10 +0000
Subject: [PATCH 09/53] fix: wme accepts data given as a column

---
 src/mud/funs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mud/funs.py b/src/mud/funs.py
index d030ecf..7558d8d 100644
--- a/src/mud/funs.py
+++ b/src/mud/funs.py
@@ -41,6 +41,7 @@ def wme(predictions, data, sd=None):
     sd = np.std(data) if sd is None else sd
     predictions = predictions.reshape(1, -1) if predictions.ndim == 1 else predictions
     N = predictions.shape[1]
+    data = np.ravel(data)
     if N != len(data):
         raise ValueError(f"Predictions and data dim mismatch {N} != {len(data)}")
 
-- 
2.43.0


From 24684137572228c3e2032009d9178f3ada5d1494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:13 +0000
Subject: [PATCH 10/53] fix: predicted distributions of several observables
 multiply over the observables

---
 src/mud/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 4329453..012096b 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -303,7 +303,9 @@ class DensityProblem(object):
             distribution = gkde(self.y.T, bw_method=bw_method, weights=self._weights)
             pred_pdf_values = distribution.pdf(self.y.T).T
         else:
-            pred_pdf_values = distribution.pdf(self.y, **kwargs)
+            pred_pdf_values = np.asarray(distribution.pdf(self.y, **kwargs))
+            if pred_pdf_values.ndim > 1:
+                pred_pdf_values = pred_pdf_values.prod(axis=1)
 
         self._pr_dist = distribution
         self._pr = pred_pdf_values.ravel()
-- 
2.43.0


From 14c7eef546590990f2561d36bf4dd4746ceb0b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:13 +0000
Subject: [PATCH 11/53] fix: vanishing posterior is recognised in log mode, and
 only then

---
 src/mud/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 012096b..91ad50a 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -824,11 +824,13 @@ class BayesProblem(object):
 
         if self._log:
             ps_pdf = np.add(np.log(self._pr), self._ll)
+            vanishes = np.all(np.isneginf(ps_pdf))
         else:
             ps_pdf = np.multiply(self._pr, self._ll)
+            vanishes = np.sum(ps_pdf) == 0
 
         assert ps_pdf.shape[0] == self.X.shape[0]
-        if np.sum(ps_pdf) == 0:
+        if vanishes:
             raise ValueError("Posterior numerically unstable.")
         self._ps = ps_pdf
 
-- 
2.43.0


From 72c7826dff86f09235ecca9d16d7282d2e430e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:22 +0000
Subject: [PATCH 12/53] fix: errors of an iterative solve are distances to the
 reference asked for

---
 src/mud/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 91ad50a..4bcfa69 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1490,8 +1490,8 @@ class IterativeLinearProblem(LinearGaussianProblem):
 
         """
         solutions = np.concatenate([x[1:] for x in self.solution_chains])
-        if len(solutions) != len(self.errors):
-            self.errors = [np.linalg.norm(s - ref_param) for s in solutions]
+        ref_param = np.reshape(ref_param, (-1, 1))
+        self.errors = [np.linalg.norm(s - ref_param) for s in solutions]
         return self.errors
 
     def plot_chain(self, ref_param, ax=None, color="k", s=100, **kwargs):
-- 
2.43.0


From 2bfea3626cd3eecbbc9af510169f4ce25d91e938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:22 +0000
Subject: [PATCH 13/53] fix: a new domain of another dimension than the
 parameter samples is rejected

---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 4bcfa69..41ffa21 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1637,7 +1637,7 @@ class SpatioTemporalProblem(object):
     def domain(self, domain):
         domain = np.reshape(domain, (-1, 2))
         if self.lam is not None:
-            if self.domain.shape[0] != self.lam.shape[1]:
+            if domain.shape[0] != self.lam.shape[1]:
                 raise ValueError("Domain and parameter array dimension mismatch.")
             min_max = np.vstack([self.lam.min(axis=0), self.lam.max(axis=0)]).T
             if not all(
-- 
2.43.0


From 7437c55479e11f889c0431a7263e2aac87a7dd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:22 +0000
Subject: [PATCH 14/53] fix: a domain that excludes the reference parameter is
 rejected

---
 src/mud/base.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 41ffa21..0ccf426 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1552,7 +1552,7 @@ class SpatioTemporalProblem(object):
         self._lam = None
         self._data = None
         self._measurements = None
-        self._true_lam = None
+        self._lam_ref = None
         self._true_vals = None
         self._sample_dist = None
         self.sensors = None
@@ -1644,6 +1644,15 @@ class SpatioTemporalProblem(object):
                 [all(domain[:, 0] <= min_max[:, 0]), all(domain[:, 1] >= min_max[:, 1])]
             ):
                 raise ValueError("Parameter values exist outside of specified domain")
+        if self.lam_ref is not None:
+            if not all(
+                [
+                    domain.shape[0] == len(self.lam_ref),
+                    all(domain[:, 0] <= self.lam_ref),
+                    all(domain[:, 1] >= self.lam_ref),
+                ]
+            ):
+                raise ValueError("Reference value exists outside of specified domain")
 
         self._domain = domain
 
@@ -1839,7 +1848,7 @@ class SpatioTemporalProblem(object):
         if check_meas:
             req_attrs.append("measurements")
         if check_true:
-            req_attrs.append("true_lam")
+            req_attrs.append("lam_ref")
             req_attrs.append("true_vals")
 
         missing = [x for x in req_attrs if self.__getattribute__(x) is None]
-- 
2.43.0


From ccbb9f95b42be634d9b603622e514efad9e2486a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:22 +0000
Subject: [PATCH 15/53] fix: sub-sampling sensors works for sensors of any
 dimension

---
 src/mud/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 0ccf426..26bbcb0 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1882,7 +1882,9 @@ class SpatioTemporalProblem(object):
             if sub_meas is not None:
                 sub_meas = sub_meas[:, times_mask]
         if sensors_mask is not None:
-            sub_sensors = np.reshape(self.sensors[sensors_mask], (-1, 2))
+            sub_sensors = np.reshape(
+                self.sensors[sensors_mask], (-1,) + self.sensors.shape[1:]
+            )
             sub_data = sub_data[:, sensors_mask, :]
             if sub_meas is not None:
                 sub_meas = sub_meas[sensors_mask, :]
-- 
2.43.0


From 6dbc98829943796e5fec575585bf94f56e78a8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:22 +0000
Subject: [PATCH 16/53] fix: learned weighted mean error is scaled by the
 number of observations

---
 src/mud/base.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 26bbcb0..309c457 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -2008,7 +2008,6 @@ class SpatioTemporalProblem(object):
             sensors_mask=sensors_mask,
         )
         residuals = (sub_meas - sub_data) / self.std_dev
-        sub_n_samples = sub_data.shape[0]
 
         if data_weights is not None:
             data_weights = np.reshape(data_weights, (-1, 1))
@@ -2020,7 +2019,7 @@ class SpatioTemporalProblem(object):
             residuals = data_weights * residuals
 
         if method == "wme":
-            qoi = np.sum(residuals, axis=1) / np.sqrt(sub_n_samples)
+            qoi = np.sum(residuals, axis=1) / np.sqrt(residuals.shape[1])
         elif method == "pca":
             # Learn qoi to use using PCA
             pca_res, X_train = pca(residuals, n_components=num_components)
@@ -2040,7 +2039,6 @@ class SpatioTemporalProblem(object):
         else:
             ValueError(f"Unrecognized QoI Map type {method}")
 
-        # qoi = qoi.reshape(sub_n_samples, -1)
         d = DensityProblem(lam, qoi, self.domain, weights=sample_weights)
 
         return d
-- 
2.43.0


From 57702bcb0457818a1c53af75a6a52b51e8ebf1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:56 +0000
Subject: [PATCH 17/53] fix: data weights scale the residuals of the
 observations they belong to

---
 src/mud/base.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mud/base.py b/src/mud/base.py
index 309c457..46e8e32 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -2015,6 +2015,12 @@ class SpatioTemporalProblem(object):
                 raise ValueError(
                     "Data weights vector and dimension of data space does not match"
                 )
+            data_weights = np.reshape(data_weights, (self.n_sensors, self.n_ts))
+            if times_mask is not None:
+                data_weights = data_weights[:, times_mask]
+            if sensors_mask is not None:
+                data_weights = data_weights[sensors_mask, :]
+            data_weights = np.reshape(data_weights, (1, -1))
             data_weights = data_weights / np.linalg.norm(data_weights)
             residuals = data_weights * residuals
 
-- 
2.43.0


From 618f8025a7196dc538cab839a24ffbff2b8101aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:56 +0000
Subject: [PATCH 18/53] fix: unknown QoI map types are rejected

---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 46e8e32..8f08631 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -2043,7 +2043,7 @@ class SpatioTemporalProblem(object):
             self.svd = {"u": u, "singular_values": s, "singular_vectors": v}
             qoi = residuals @ (v[0:num_components, :]).T
         else:
-            ValueError(f"Unrecognized QoI Map type {method}")
+            raise ValueError(f"Unrecognized QoI Map type {method}")
 
         d = DensityProblem(lam, qoi, self.domain, weights=sample_weights)
 
-- 
2.43.0


From 0f0bfbd7e101c4371e9e3eb12c4e1181feed65d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:56 +0000
Subject: [PATCH 19/53] fix: a reference solution is stored as a column like
 true values set directly

---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 8f08631..9bd5e9e 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1766,7 +1766,7 @@ class SpatioTemporalProblem(object):
         Add noise to a reference solution.
         """
         if ref is not None:
-            self._true_vals = ref
+            self.true_vals = ref
         if std_dev is not None:
             self.std_dev = std_dev
         if self.true_vals is None or self.std_dev is None:
-- 
2.43.0


From 8bfa970bdc8d4e39b18506e75f49119c81b8fc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:56 +0000
Subject: [PATCH 20/53] fix: loading honours alternative names, explicit values
 and missing fields

---
 src/mud/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 9bd5e9e..c99f81a 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1814,10 +1814,10 @@ class SpatioTemporalProblem(object):
             ds = df
 
         def get_set_val(f, v):
-            if f in ds.keys():
-                self.__setattr__(f, ds[v])
-            elif v is not None and not isinstance(v, str):
+            if v is not None and not isinstance(v, str):
                 self.__setattr__(f, v)
+            elif v in ds.keys() and ds[v] is not None:
+                self.__setattr__(f, ds[v])
 
         field_names = {
             "sample_dist": "sample_dist",
-- 
2.43.0


From 05dc7cb23949b1ed53da1d42216390dda4bcea63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:56 +0000
Subject: [PATCH 21/53] fix: loading sets samples and data before the fields
 that need them

---
 src/mud/base.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index c99f81a..36cb07e 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1824,6 +1824,8 @@ class SpatioTemporalProblem(object):
             "domain": "domain",
             "sensors": "sensors",
             "times": "times",
+            "lam": lam,
+            "data": data,
             "lam_ref": "lam_ref",
             "std_dev": "std_dev",
             "true_vals": "true_vals",
@@ -1833,9 +1835,6 @@ class SpatioTemporalProblem(object):
         for f, v in field_names.items():
             get_set_val(f, v)
 
-        get_set_val("lam", lam)
-        get_set_val("data", data)
-
         return ds
 
     def validate(
-- 
2.43.0


From 1aa313cf98e028265488404a872018531a2324f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:56 +0000
Subject: [PATCH 22/53] fix: netcdf data sets can be loaded when xarray is
 available

---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 36cb07e..df9d67d 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -16,7 +16,7 @@ from mud.util import add_noise, fit_domain, make_2d_unit_mesh, null_space, set_s
 try:
     import xarray as xr  # type: ignore
 
-    xr_avial = True
+    xr_avail = True
 except ModuleNotFoundError:
     xr_avail = False
     pass
-- 
2.43.0


From e9e3e749d26bd38c27c6367178e917c7cd388866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:56 +0000
Subject: [PATCH 23/53] fix: data_prob works with its default sample
 distribution

---
 src/mud/funs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/funs.py b/src/mud/funs.py
index 7558d8d..b5f5338 100644
--- a/src/mud/funs.py
+++ b/src/mud/funs.py
@@ -217,7 +217,7 @@ def data_prob(
     qoi_true=None,
     measurements=None,
     std_dev=None,
-    sample_dist="uniform",
+    sample_dist="u",
     domain=None,
     lam_ref=None,
     times=None,
-- 
2.43.0


From 6115a00a6b9276bad3a544808b93957c9dcdb76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:28 +0000
Subject: [PATCH 24/53] fix: svd passes its options on to numpy

---
 src/mud/preprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/preprocessing.py b/src/mud/preprocessing.py
index 64efd10..abb292d 100644
--- a/src/mud/preprocessing.py
+++ b/src/mud/preprocessing.py
@@ -167,6 +167,6 @@ def svd(data: ArrayLike, **kwargs) -> Tuple[np.ndarray, np.ndarray, np.ndarray]:
     # Standarize and perform SVD
     sc = StandardScaler()
     X = sc.fit_transform(data)
-    U, S, V = np.linalg.svd(X)
+    U, S, V = np.linalg.svd(X, **kwargs)
 
     return (U, S, V)
-- 
2.43.0


From e93229758eff9b671f0257ef1d874a2f1e430c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:28 +0000
Subject: [PATCH 25/53] fix: a reference parameter of another dimension than
 the domain is rejected

---
 src/mud/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mud/base.py b/src/mud/base.py
index df9d67d..d161f1c 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1622,6 +1622,8 @@ class SpatioTemporalProblem(object):
         if self.domain is None:
             raise AttributeError("domain not yet set.")
         lam_ref = np.reshape(lam_ref, (-1))
+        if lam_ref.shape[0] != self.n_params:
+            raise ValueError("Reference parameter dimension does not match domain.")
         for idx, lam in enumerate(lam_ref):
             if (lam < self.domain[idx][0]) or (lam > self.domain[idx][1]):
                 raise ValueError(
-- 
2.43.0


From fdb0b2a372ceb92f89051ef470f76036161472c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:26 +0000
Subject: [PATCH 26/53] fix: example loaders use the requested noise level

---
 src/mud/examples/adcirc.py   | 4 ++--
 src/mud/examples/examples.py | 6 +++---
 src/mud/examples/poisson.py  | 4 ++--
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/mud/examples/adcirc.py b/src/mud/examples/adcirc.py
index 6960805..3110d78 100644
--- a/src/mud/examples/adcirc.py
+++ b/src/mud/examples/adcirc.py
@@ -37,7 +37,7 @@ def load_adcirc_prob(
         data="data",
         true_vals="true_vals",
         measurements=None,
-        std_dev=0.05,
+        std_dev=std_dev,
         sample_dist="uniform",
         domain="domain",
         lam_ref="lam_ref",
@@ -45,7 +45,7 @@ def load_adcirc_prob(
         times="times",
     )
 
-    adcirc_prob.measurements_from_reference(std_dev=0.05, seed=seed)
+    adcirc_prob.measurements_from_reference(std_dev=std_dev, seed=seed)
 
     return data, adcirc_prob
 
diff --git a/src/mud/examples/examples.py b/src/mud/examples/examples.py
index 0a99ced..c1a1907 100644
--- a/src/mud/examples/examples.py
+++ b/src/mud/examples/examples.py
@@ -359,7 +359,7 @@ def high_dim_linear(
 @click.option(
     "-s",
     "--sigma",
-    default=1e-1,
+    default=0.05,
     show_default=True,
     help='N(0, sigma) error added to true solution surface to produce "measurements".',
 )
@@ -477,7 +477,7 @@ def poisson_solve(
 @click.option(
     "-s",
     "--sigma",
-    default=1e-1,
+    default=0.05,
     show_default=True,
     help='N(0, sigma) error added to true solution surface to produce "measurements".',
 )
@@ -733,7 +733,7 @@ def poisson_generate(
 @click.option(
     "-s",
     "--sigma",
-    default=1e-1,
+    default=0.05,
     show_default=True,
     help='N(0, sigma) error added to true time series to produce "measurements".',
 )
diff --git a/src/mud/examples/poisson.py b/src/mud/examples/poisson.py
index 19a0b4b..8291018 100644
--- a/src/mud/examples/poisson.py
+++ b/src/mud/examples/poisson.py
@@ -57,7 +57,7 @@ def load_poisson_prob(
         data="data",
         true_vals="true_vals",
         measurements=None,
-        std_dev=0.05,
+        std_dev=std_dev,
         sample_dist="uniform",
         domain="domain",
         lam_ref=None,
@@ -65,7 +65,7 @@ def load_poisson_prob(
         times=np.array([0]),
     )
 
-    poisson_prob.measurements_from_reference(std_dev=0.05, seed=seed)
+    poisson_prob.measurements_from_reference(std_dev=std_dev, seed=seed)
 
     return data, poisson_prob
 
-- 
2.43.0


From 3253343c4810c03921acdaa171f2aa6f7b074020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:26 +0000
Subject: [PATCH 27/53] fix: the seed also fixes the random sensor order of the
 Poisson solution

---
 src/mud/examples/poisson.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mud/examples/poisson.py b/src/mud/examples/poisson.py
index 8291018..2f8938e 100644
--- a/src/mud/examples/poisson.py
+++ b/src/mud/examples/poisson.py
@@ -260,6 +260,9 @@ def run_2d_poisson_sol(
         inverse problem, along with the list of axes objects where desired
         plots were plotted on.
     """
+    if seed is not None:
+        random.seed(seed)
+
     res = minimize(spline_objective_function_2d, x0=[-3, -1])
     closest = res["x"]
 
-- 
2.43.0


From 4eec1c63aa97050ed5660c91c9d0b525e5522912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:26 +0000
Subject: [PATCH 28/53] fix: rotation map uses the seed it is given

---
 src/mud/examples/linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/examples/linear.py b/src/mud/examples/linear.py
index 0f59573..66d4083 100644
--- a/src/mud/examples/linear.py
+++ b/src/mud/examples/linear.py
@@ -171,7 +171,7 @@ def rotation_map(qnum=10, tol=0.1, b=None, ref_param=None, seed=None):
 
     """
     if seed is not None:
-        np.random.seed(24)
+        np.random.seed(seed)
 
     vec = np.linspace(0, np.pi, qnum)
     A = np.array([[np.sin(theta), np.cos(theta)] for theta in vec])
-- 
2.43.0


From ab399cb5cd0cf468664a541f4cb779f220c3396b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:26 +0000
Subject: [PATCH 29/53] fix: rotation map trials start from their initial mean

---
 src/mud/examples/linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/examples/linear.py b/src/mud/examples/linear.py
index 66d4083..1025ea0 100644
--- a/src/mud/examples/linear.py
+++ b/src/mud/examples/linear.py
@@ -245,7 +245,7 @@ def rotation_map_trials(
 
         # Initialize Iterative Linear Problem and solve using number of epochs
         prob = IterativeLinearProblem(
-            A, b=b, y=y, initial_mean=initial_mean, cov=initial_cov, idx_order=choice
+            A, b=b, y=y, mu_i=initial_mean, cov=initial_cov, idx_order=choice
         )
         _ = prob.solve(num_epochs=epochs)
 
-- 
2.43.0


From ae830cae05dec0a8ac1acbfd8d4b27a288a199b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:26 +0000
Subject: [PATCH 30/53] fix: one noise level serves every quantity of a random
 linear WME problem

---
 src/mud/examples/linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/examples/linear.py b/src/mud/examples/linear.py
index 1025ea0..407ffb2 100644
--- a/src/mud/examples/linear.py
+++ b/src/mud/examples/linear.py
@@ -52,7 +52,7 @@ def random_linear_wme_problem(
 
     """
     if isinstance(std_dev, (int, float)):
-        std_dev = np.array([std_dev]) * num_qoi
+        std_dev = np.array([std_dev] * num_qoi)
     else:
         assert len(std_dev) == num_qoi
 
-- 
2.43.0


From e352c0d6c3cabf80095249ca77caa9d0a3dc05d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:26 +0000
Subject: [PATCH 31/53] fix: two-parameter decay example evaluates its true
 values

---
 src/mud/examples/exp_decay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/examples/exp_decay.py b/src/mud/examples/exp_decay.py
index 9520a1d..2712bdc 100644
--- a/src/mud/examples/exp_decay.py
+++ b/src/mud/examples/exp_decay.py
@@ -64,7 +64,7 @@ def exp_decay_2D(
     exp_decay.data = u_t_lambda_2(
         exp_decay.times, exp_decay.lam[:, 0], exp_decay.lam[:, 1]
     )
-    exp_decay.true_vals = u_t_lambda_2(exp_decay.times, lambda_true)[0]
+    exp_decay.true_vals = u_t_lambda_2(exp_decay.times, *lambda_true)[0]
     exp_decay.std_dev = std_dev
 
     return exp_decay
-- 
2.43.0


From d0c6c8e7abdb867cd161a7cf2744500c54d4957c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:26 +0000
Subject: [PATCH 32/53] fix: polynomial example data have the documented
 standard deviation

---
 src/mud/examples/simple.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/examples/simple.py b/src/mud/examples/simple.py
index d7f461d..08637e0 100644
--- a/src/mud/examples/simple.py
+++ b/src/mud/examples/simple.py
@@ -90,7 +90,7 @@ def polynomial_1D_data(
     if N == 1:
         data = np.array([mu])
     else:
-        data = norm.rvs(loc=mu, scale=sigma**2, size=N)
+        data = norm.rvs(loc=mu, scale=sigma, size=N)
 
     return lam, q_lam, data
 
-- 
2.43.0


From c9d03eac90701194a2a175b813dae6dc4e66875e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:26 +0000
Subject: [PATCH 33/53] fix: polynomial example samples are drawn from the
 requested domain

---
 src/mud/examples/simple.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mud/examples/simple.py b/src/mud/examples/simple.py
index 08637e0..08da7a6 100644
--- a/src/mud/examples/simple.py
+++ b/src/mud/examples/simple.py
@@ -12,7 +12,7 @@ def polynomial_1D_data(
     p: int = 5,
     num_samples: int = int(1e3),
     domain: np.typing.ArrayLike = [[-1, 1]],
-    init_dist=ds.uniform(loc=0, scale=1),
+    init_dist=None,
     mu: float = 0.25,
     sigma: float = 0.1,
     N: int = 1,
@@ -42,6 +42,8 @@ def polynomial_1D_data(
         distribution over ``domain`` for solving inverse problem.
     domain: :obj:`numpy.typing.ArrayLike`, default=[[-1, 1]]
         Domain to draw lambda samples from.
+    init_dist: optional
+        Distribution to draw lambda samples from instead.
     mu: float, default=0.25
         True mean value of observed data.
     sigma: float, default=0.1
@@ -85,6 +87,8 @@ def polynomial_1D_data(
 
     # Generate samples lam, QoI(lam), and simulated data
     domain = np.reshape(domain, (1, 2))
+    if init_dist is None:
+        init_dist = ds.uniform(loc=domain[0, 0], scale=domain[0, 1] - domain[0, 0])
     lam = init_dist.rvs(size=(num_samples, 1))
     q_lam = QoI(lam, p).reshape(-1, 1)  # Evaluate lam^5 samples
     if N == 1:
-- 
2.43.0


From 59883ab6e1c8bc7f42efd64b894745af8369b798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:10 +0000
Subject: [PATCH 34/53] fix: identity temporal example builds a valid problem

---
 src/mud/examples/simple.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/mud/examples/simple.py b/src/mud/examples/simple.py
index 08da7a6..037c0ce 100644
--- a/src/mud/examples/simple.py
+++ b/src/mud/examples/simple.py
@@ -181,13 +181,13 @@ def identity_1D_temporal_prob(
     )
     data = {
         "lam": lam,
-        "data": data,
-        "true_vals": y_true,
-        "measurements": None,
+        "data": np.repeat(q_lam, num_obs, axis=1),
+        "true_vals": np.full(num_obs, y_true),
+        "measurements": data,
         "std_dev": noise,
-        "sample_dist": "uniform",
+        "sample_dist": "u",
         "domain": domain,
-        "lam_ref": y_true,
+        "lam_ref": np.array([y_true]),
         "times": np.arange(num_obs),
     }
     temporal_prob = SpatioTemporalProblem()
-- 
2.43.0


From 28de468639167772f1908c0b88982dfa000fbfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:06 +0000
Subject: [PATCH 35/53] fix: plotted distributions are the marginals along the
 chosen coordinate

---
 src/mud/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mud/plot.py b/src/mud/plot.py
index 5970521..5e6f164 100644
--- a/src/mud/plot.py
+++ b/src/mud/plot.py
@@ -194,7 +194,7 @@ def build_nd_mesh_grid(domain, aff=100):
 
     """
 
-    mesh = np.meshgrid(*[np.linspace(i, j, aff)[:-1] for i, j in domain])
+    mesh = np.meshgrid(*[np.linspace(i, j, aff)[:-1] for i, j in domain], indexing="ij")
     grid_points = np.vstack([x.ravel() for x in mesh])
 
     return (mesh, grid_points)
@@ -220,7 +220,7 @@ def plot_dist(dist, domain, ax=None, idx=0, source="kde", aff=100, **kwargs):
         ].reshape(-1)
     elif source == "kde":
         # Compute observed distribution using kernel density estimate
-        plot_y = margins(np.reshape(dist(grid), mesh[idx].shape).T)[idx].reshape(-1)
+        plot_y = margins(np.reshape(dist(grid), mesh[idx].shape))[idx].reshape(-1)
     else:
         raise ValueError("Source must be one of pdf or kde.")
 
-- 
2.43.0


From 093e7692ddbdd23fab921fd432b14b96dda491cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:06 +0000
Subject: [PATCH 36/53] fix: plotted likelihoods are the marginals along the
 chosen observable

---
 src/mud/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index d161f1c..00ba5ff 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -946,7 +946,9 @@ class BayesProblem(object):
             y_range = np.repeat([[-1, 1]], self.y.shape[1], axis=0)
 
         # Build grid of points over range to compute marginals
-        XXX = np.meshgrid(*[np.linspace(i, j, aff)[:-1] for i, j in y_range])
+        XXX = np.meshgrid(
+            *[np.linspace(i, j, aff)[:-1] for i, j in y_range], indexing="ij"
+        )
         grid_points = np.vstack([x.ravel() for x in XXX])
         y_plot = np.linspace(y_range[obs_idx, 0], y_range[obs_idx, 1], aff)[: aff - 1]
 
-- 
2.43.0


From 342f24f3c4b2f769ee8f85fd706936b8ac8322aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:06 +0000
Subject: [PATCH 37/53] fix: plotting a solution leaves the options passed in
 unchanged

---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 00ba5ff..57314f8 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1261,7 +1261,7 @@ class LinearGaussianProblem(object):
 
         # Get solution point or initial poitn to plot.
         pt = self.mean_i if point == "initial" else self.solve(method=point)
-        pt_opts["label"] = point
+        pt_opts = {**pt_opts, "label": point}
 
         # Plot point
         ax.scatter(pt[0], pt[1], **pt_opts)
-- 
2.43.0


From ea4692f390fccda97036f6827e48f776e5fefb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:06 +0000
Subject: [PATCH 38/53] fix: contours of a linear problem pass through the
 reference point

---
 src/mud/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 57314f8..6b7e7f3 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1312,8 +1312,8 @@ class LinearGaussianProblem(object):
 
         # Plot each contour line going through ref point
         for i, contour in enumerate(subset):
-            xloc = [ref[0] - w * AA[i, 0], ref[1] + w * AA[i, 0]]
-            yloc = [ref[0] - w * AA[i, 1], ref[1] + w * AA[i, 1]]
+            xloc = [ref[0] - w * AA[i, 0], ref[0] + w * AA[i, 0]]
+            yloc = [ref[1] - w * AA[i, 1], ref[1] + w * AA[i, 1]]
             ax.plot(xloc, yloc, **plot_opts)
 
             # If annotate is set, then label line with given annotations
-- 
2.43.0


From d43eb51fec1d105094d5b87d729bc9bfc2a99e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:06 +0000
Subject: [PATCH 39/53] fix: plotted contours pass through the reference
 parameter

---
 src/mud/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mud/plot.py b/src/mud/plot.py
index 5e6f164..b724b79 100644
--- a/src/mud/plot.py
+++ b/src/mud/plot.py
@@ -122,8 +122,8 @@ def plot_contours(
     numQoI = A.shape[0]
     AA = np.hstack([null_space(A[i, :].reshape(1, -1)) for i in range(numQoI)]).T
     for i, contour in enumerate(subset):
-        xloc = [ref_param[0] - w * AA[i, 0], ref_param[1] + w * AA[i, 0]]
-        yloc = [ref_param[0] - w * AA[i, 1], ref_param[1] + w * AA[i, 1]]
+        xloc = [ref_param[0] - w * AA[i, 0], ref_param[0] + w * AA[i, 0]]
+        yloc = [ref_param[1] - w * AA[i, 1], ref_param[1] + w * AA[i, 1]]
         plt.plot(xloc, yloc, c=color, ls=ls, lw=lw, **kwds)
         plt.annotate("%d" % (contour + 1), (xloc[0], yloc[0]), fontsize=fs)
 
-- 
2.43.0


From 0755327a1b75e6b3e1c586657a46ba0c6667ffb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:06 +0000
Subject: [PATCH 40/53] fix: parameter plots show the chosen parameters

---
 src/mud/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 6b7e7f3..6c52e35 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -697,10 +697,10 @@ class DensityProblem(object):
             fig = plt.figure(figsize=(5, 5))
             ax = fig.add_subplot(1, 1, 1)
 
-        sp = ax.scatter(self.X[:, 0], self.X[:, 1], c=c)
+        sp = ax.scatter(self.X[:, x_1], self.X[:, x_2], c=c)
 
         if contours:
-            ax.tricontour(self.X[:, 0], self.X[:, 1], c, levels=20)
+            ax.tricontour(self.X[:, x_1], self.X[:, x_2], c, levels=20)
             ax.set_title(f"$q_{y+1}$")
 
         if colorbar and c is not None:
-- 
2.43.0


From 5c3f5903a330fd26b74d8150942f69c84a4cb0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:13 +0000
Subject: [PATCH 41/53] Leave the examples folder as it was

The examples count as test files here; their defects are listed in the
verification's known findings instead.
---
 src/mud/examples/adcirc.py    |  4 ++--
 src/mud/examples/examples.py  |  6 +++---
 src/mud/examples/exp_decay.py |  2 +-
 src/mud/examples/linear.py    |  6 +++---
 src/mud/examples/poisson.py   |  7 ++-----
 src/mud/examples/simple.py    | 18 +++++++-----------
 6 files changed, 18 insertions(+), 25 deletions(-)

diff --git a/src/mud/examples/adcirc.py b/src/mud/examples/adcirc.py
index 3110d78..6960805 100644
--- a/src/mud/examples/adcirc.py
+++ b/src/mud/examples/adcirc.py
@@ -37,7 +37,7 @@ def load_adcirc_prob(
         data="data",
         true_vals="true_vals",
         measurements=None,
-        std_dev=std_dev,
+        std_dev=0.05,
         sample_dist="uniform",
         domain="domain",
         lam_ref="lam_ref",
@@ -45,7 +45,7 @@ def load_adcirc_prob(
         times="times",
     )
 
-    adcirc_prob.measurements_from_reference(std_dev=std_dev, seed=seed)
+    adcirc_prob.measurements_from_reference(std_dev=0.05, seed=seed)
 
     return data, adcirc_prob
 
diff --git a/src/mud/examples/examples.py b/src/mud/examples/examples.py
index c1a1907..0a99ced 100644
--- a/src/mud/examples/examples.py
+++ b/src/mud/examples/examples.py
@@ -359,7 +359,7 @@ def high_dim_linear(
 @click.option(
     "-s",
     "--sigma",
-    default=0.05,
+    default=1e-1,
     show_default=True,
     help='N(0, sigma) error added to true solution surface to produce "measurements".',
 )
@@ -477,7 +477,7 @@ def poisson_solve(
 @click.option(
     "-s",
     "--sigma",
-    default=0.05,
+    default=1e-1,
     show_default=True,
     help='N(0, sigma) error added to true solution surface to produce "measurements".',
 )
@@ -733,7 +733,7 @@ def poisson_generate(
 @click.option(
     "-s",
     "--sigma",
-    default=0.05,
+    default=1e-1,
     show_default=True,
     help='N(0, sigma) error added to true time series to produce "measurements".',
 )
diff --git a/src/mud/examples/exp_decay.py b/src/mud/examples/exp_decay.py
index 2712bdc..9520a1d 100644
--- a/src/mud/examples/exp_decay.py
+++ b/src/mud/examples/exp_decay.py
@@ -64,7 +64,7 @@ def exp_decay_2D(
     exp_decay.data = u_t_lambda_2(
         exp_decay.times, exp_decay.lam[:, 0], exp_decay.lam[:, 1]
     )
-    exp_decay.true_vals = u_t_lambda_2(exp_decay.times, *lambda_true)[0]
+    exp_decay.true_vals = u_t_lambda_2(exp_decay.times, lambda_true)[0]
     exp_decay.std_dev = std_dev
 
     return exp_decay
diff --git a/src/mud/examples/linear.py b/src/mud/examples/linear.py
index 407ffb2..0f59573 100644
--- a/src/mud/examples/linear.py
+++ b/src/mud/examples/linear.py
@@ -52,7 +52,7 @@ def random_linear_wme_problem(
 
     """
     if isinstance(std_dev, (int, float)):
-        std_dev = np.array([std_dev] * num_qoi)
+        std_dev = np.array([std_dev]) * num_qoi
     else:
         assert len(std_dev) == num_qoi
 
@@ -171,7 +171,7 @@ def rotation_map(qnum=10, tol=0.1, b=None, ref_param=None, seed=None):
 
     """
     if seed is not None:
-        np.random.seed(seed)
+        np.random.seed(24)
 
     vec = np.linspace(0, np.pi, qnum)
     A = np.array([[np.sin(theta), np.cos(theta)] for theta in vec])
@@ -245,7 +245,7 @@ def rotation_map_trials(
 
         # Initialize Iterative Linear Problem and solve using number of epochs
         prob = IterativeLinearProblem(
-            A, b=b, y=y, mu_i=initial_mean, cov=initial_cov, idx_order=choice
+            A, b=b, y=y, initial_mean=initial_mean, cov=initial_cov, idx_order=choice
         )
         _ = prob.solve(num_epochs=epochs)
 
diff --git a/src/mud/examples/poisson.py b/src/mud/examples/poisson.py
index 2f8938e..19a0b4b 100644
--- a/src/mud/examples/poisson.py
+++ b/src/mud/examples/poisson.py
@@ -57,7 +57,7 @@ def load_poisson_prob(
         data="data",
         true_vals="true_vals",
         measurements=None,
-        std_dev=std_dev,
+        std_dev=0.05,
         sample_dist="uniform",
         domain="domain",
         lam_ref=None,
@@ -65,7 +65,7 @@ def load_poisson_prob(
         times=np.array([0]),
     )
 
-    poisson_prob.measurements_from_reference(std_dev=std_dev, seed=seed)
+    poisson_prob.measurements_from_reference(std_dev=0.05, seed=seed)
 
     return data, poisson_prob
 
@@ -260,9 +260,6 @@ def run_2d_poisson_sol(
         inverse problem, along with the list of axes objects where desired
         plots were plotted on.
     """
-    if seed is not None:
-        random.seed(seed)
-
     res = minimize(spline_objective_function_2d, x0=[-3, -1])
     closest = res["x"]
 
diff --git a/src/mud/examples/simple.py b/src/mud/examples/simple.py
index 037c0ce..d7f461d 100644
--- a/src/mud/examples/simple.py
+++ b/src/mud/examples/simple.py
@@ -12,7 +12,7 @@ def polynomial_1D_data(
     p: int = 5,
     num_samples: int = int(1e3),
     domain: np.typing.ArrayLike = [[-1, 1]],
-    init_dist=None,
+    init_dist=ds.uniform(loc=0, scale=1),
     mu: float = 0.25,
     sigma: float = 0.1,
     N: int = 1,
@@ -42,8 +42,6 @@ def polynomial_1D_data(
         distribution over ``domain`` for solving inverse problem.
     domain: :obj:`numpy.typing.ArrayLike`, default=[[-1, 1]]
         Domain to draw lambda samples from.
-    init_dist: optional
-        Distribution to draw lambda samples from instead.
     mu: float, default=0.25
         True mean value of observed data.
     sigma: float, default=0.1
@@ -87,14 +85,12 @@ def polynomial_1D_data(
 
     # Generate samples lam, QoI(lam), and simulated data
     domain = np.reshape(domain, (1, 2))
-    if init_dist is None:
-        init_dist = ds.uniform(loc=domain[0, 0], scale=domain[0, 1] - domain[0, 0])
     lam = init_dist.rvs(size=(num_samples, 1))
     q_lam = QoI(lam, p).reshape(-1, 1)  # Evaluate lam^5 samples
     if N == 1:
         data = np.array([mu])
     else:
-        data = norm.rvs(loc=mu, scale=sigma, size=N)
+        data = norm.rvs(loc=mu, scale=sigma**2, size=N)
 
     return lam, q_lam, data
 
@@ -181,13 +177,13 @@ def identity_1D_temporal_prob(
     )
     data = {
         "lam": lam,
-        "data": np.repeat(q_lam, num_obs, axis=1),
-        "true_vals": np.full(num_obs, y_true),
-        "measurements": data,
+        "data": data,
+        "true_vals": y_true,
+        "measurements": None,
         "std_dev": noise,
-        "sample_dist": "u",
+        "sample_dist": "uniform",
         "domain": domain,
-        "lam_ref": np.array([y_true]),
+        "lam_ref": y_true,
         "times": np.arange(num_obs),
     }
     temporal_prob = SpatioTemporalProblem()
-- 
2.43.0


From 18529f58055074293100b9faae78030cbdcfcc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:31 +0000
Subject: [PATCH 42/53] fix: contours of a linear problem can be plotted with
 the default options

---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 6c52e35..ec6cd39 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1289,7 +1289,7 @@ class LinearGaussianProblem(object):
         note_loc=None,
         w=1,
         label="{i}",
-        plot_opts={"color": "k", "ls": ":", "lw": 1, "fs": 20},
+        plot_opts={"color": "k", "ls": ":", "lw": 1},
         annotate_opts={"fontsize": 20},
     ):
         """
-- 
2.43.0


From 7a2cdbef747d9f7fb99b9c1f75e58686faf5131e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:31 +0000
Subject: [PATCH 43/53] fix: plot_chain passes the options plot_contours
 accepts

---
 src/mud/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index ec6cd39..50735e9 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1514,7 +1514,10 @@ class IterativeLinearProblem(LinearGaussianProblem):
             ax.scatter(current_point[0], current_point[1], c="g", s=s)
             ax.scatter(ref_param[0], ref_param[1], c="r", s=s)
         self.plot_contours(
-            ref_param, ax=ax, subset=self.idx_order, color=color, s=s, **kwargs
+            ref_param,
+            ax=ax,
+            subset=self.idx_order,
+            **{"plot_opts": {"color": color, "ls": ":", "lw": 1}, **kwargs},
         )
 
     def plot_chain_error(
-- 
2.43.0


From 6adbee5dc4c18bf4be95cdff67a50323a7ad1dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:31 +0000
Subject: [PATCH 44/53] fix: measured time series are drawn on the axes asked
 for

---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 50735e9..f753154 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1976,7 +1976,7 @@ class SpatioTemporalProblem(object):
             "s": 2,
         }
         def_kwargs.update(meas_kwargs)
-        _ = plt.scatter(times, sub_meas, **def_kwargs)
+        _ = ax.scatter(times, sub_meas, **def_kwargs)
 
         # Plot simulated data time series
         def_sample_kwargs = {"color": "r", "linestyle": "-", "zorder": 1, "alpha": 0.1}
-- 
2.43.0


From c2cd837e28b726cde6b31286109ca48126258f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:31 +0000
Subject: [PATCH 45/53] fix: vector components are drawn on the axes asked for

---
 src/mud/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/plot.py b/src/mud/plot.py
index b724b79..a86d083 100644
--- a/src/mud/plot.py
+++ b/src/mud/plot.py
@@ -154,7 +154,7 @@ def plot_1D_vecs(vecs, markers=None, ax=None, label=True, **kwargs):
     for i, v in enumerate(vecs):
         if markers is not None:
             kwargs["marker"] = markers[i]
-        plt.scatter(np.arange(len(v)), v, label=f"$p^{{({i+1})}}$", **kwargs)
+        ax.scatter(np.arange(len(v)), v, label=f"$p^{{({i+1})}}$", **kwargs)
 
     if label:
         ax.set_xlabel("i")
-- 
2.43.0


From e76e3102300d3ce7863e2cf5d1bfb43ad963cc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:31 +0000
Subject: [PATCH 46/53] fix: parameter plots use the scatter options they are
 given

---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index f753154..f3bd0e9 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -697,7 +697,7 @@ class DensityProblem(object):
             fig = plt.figure(figsize=(5, 5))
             ax = fig.add_subplot(1, 1, 1)
 
-        sp = ax.scatter(self.X[:, x_1], self.X[:, x_2], c=c)
+        sp = ax.scatter(self.X[:, x_1], self.X[:, x_2], **{"c": c, **kwargs})
 
         if contours:
             ax.tricontour(self.X[:, x_1], self.X[:, x_2], c, levels=20)
-- 
2.43.0


From de8e54bb482e62d16948176d02c7faab913db27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:08 +0000
Subject: [PATCH 47/53] fix: posteriors kept as logarithms are plotted as
 densities

---
 src/mud/base.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index f3bd0e9..d530c03 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -843,6 +843,12 @@ class BayesProblem(object):
     def estimate(self):
         return self.map_point()
 
+    def _ps_weights(self):
+        """Posterior values as sample weights, also when stored as logarithms"""
+        if self._ps is None or not self._log:
+            return self._ps
+        return np.exp(self._ps - np.max(self._ps))
+
     # TODO: Make changes similar to DensityProblem class
     def plot_param_space(
         self,
@@ -887,7 +893,7 @@ class BayesProblem(object):
         if ps_opts is not None:
             pso.update(ps_opts)
             self.estimate()
-            ps_kde = gkde(self.X.T, weights=self._ps)
+            ps_kde = gkde(self.X.T, weights=self._ps_weights())
             plot_dist(
                 ps_kde, x_range, idx=param_idx, ax=ax, source="kde", aff=aff, **pso
             )
@@ -970,7 +976,7 @@ class BayesProblem(object):
             po.update(pf_opts)
 
             # Compute PF of posterior
-            pf_kde = gkde(self.y.T, weights=self._ps)
+            pf_kde = gkde(self.y.T, weights=self._ps_weights())
             pf_p = margins(np.reshape(pf_kde(grid_points).T, XXX[0].shape))[
                 obs_idx
             ].reshape(-1)
-- 
2.43.0


From 39d3531862738fceb46c1a2a72416f692474d037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:45 +0000
Subject: [PATCH 48/53] fix: likelihoods of several observables can be plotted

---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index d530c03..405d8be 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -966,7 +966,7 @@ class BayesProblem(object):
 
             # Compute observed distribution using stored pdf
             ll_plot = margins(
-                np.reshape(self._ll_dist.pdf(grid_points).T.prod(axis=1), XXX[0].shape)
+                np.reshape(self._ll_dist.pdf(grid_points.T).prod(axis=1), XXX[0].shape)
             )[obs_idx].reshape(-1)
 
             # Plot pf of initial
-- 
2.43.0


From b0178a80e291380f1a5cb926dbe2495d80bb725b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:23 +0000
Subject: [PATCH 49/53] fix: sensors are drawn on the axes asked for

---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 405d8be..907b38d 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1941,7 +1941,7 @@ class SpatioTemporalProblem(object):
 
         sensors = self.sensors[mask, :] if mask is not None else self.sensors
 
-        sp = plt.scatter(sensors[:, 0], sensors[:, 1], **kwargs)
+        sp = ax.scatter(sensors[:, 0], sensors[:, 1], **kwargs)
 
         if colorbar and "c" in kwargs.keys():
             fig = plt.gcf()
-- 
2.43.0


From 6919ece2bb837c9f65a1f2f6b61266aeb68956da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:23 +0000
Subject: [PATCH 50/53] fix: the plotted push-forward of the posterior is that
 of the current posterior

---
 src/mud/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mud/base.py b/src/mud/base.py
index 907b38d..e0225b3 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -976,6 +976,7 @@ class BayesProblem(object):
             po.update(pf_opts)
 
             # Compute PF of posterior
+            self.estimate()
             pf_kde = gkde(self.y.T, weights=self._ps_weights())
             pf_p = margins(np.reshape(pf_kde(grid_points).T, XXX[0].shape))[
                 obs_idx
-- 
2.43.0


From 60e2c9ead2190f5457e317340e69009313dcefa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:23 +0000
Subject: [PATCH 51/53] fix: plotted densities reflect settings changed since
 the last solution

---
 src/mud/base.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mud/base.py b/src/mud/base.py
index e0225b3..c5ea0f4 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -425,6 +425,11 @@ class DensityProblem(object):
         return np.average(self._r, weights=self._weights)
 
     # TODO: update documentation
+    def _refit(self):
+        """Solve again when settings have changed since the last solution"""
+        if self._r is not None and self._up is None:
+            self.fit()
+
     def plot_param_space(
         self,
         param_idx: int = 0,
@@ -496,6 +501,7 @@ class DensityProblem(object):
             x_range = fit_domain(min_max_bounds=self.domain, pad_ratio=pad_ratio)
 
         # Plot distributions for all not set to None
+        self._refit()
         assert self._in_dist is not None
         if in_opts is not None:
             io.update(in_opts)
@@ -597,6 +603,7 @@ class DensityProblem(object):
         if y_range.shape[0] != self.n_features:
             raise ValueError("Invalid domain dimension")
 
+        self._refit()
         assert self._ob_dist is not None, "Observed dist empty"
         if ob_opts:
             oo.update(ob_opts)
-- 
2.43.0


From caed7c0369845be7a32859a64dbdf93facb5895a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:12 +0000
Subject: [PATCH 52/53] fix: fit_domain keeps the padding of integer samples

---
 src/mud/util.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/mud/util.py b/src/mud/util.py
index 676cf0a..bd1a05d 100644
--- a/src/mud/util.py
+++ b/src/mud/util.py
@@ -273,6 +273,7 @@ def fit_domain(
     array([[ -1,   2],
            [-30,  30]])
     """
+    bounds_given = min_max_bounds is not None
     if min_max_bounds is None:
         if x is None:
             raise ValueError("Both x and min_max_bounds can't be None")
@@ -280,9 +281,11 @@ def fit_domain(
     else:
         min_max_bounds = np.array(min_max_bounds)
     pad = pad_ratio * (min_max_bounds[:, 1] - min_max_bounds[:, 0])
-    min_max_bounds[:, 0] = min_max_bounds[:, 0] - pad
-    min_max_bounds[:, 1] = min_max_bounds[:, 1] + pad
-    return min_max_bounds
+    fitted = np.column_stack([min_max_bounds[:, 0] - pad, min_max_bounds[:, 1] + pad])
+    # keep the type of the bounds unless this cuts off the padding of integer samples
+    same_type = fitted.astype(min_max_bounds.dtype)
+    exact = bounds_given or np.array_equal(same_type, fitted)
+    return same_type if exact else fitted
 
 
 def set_shape(array: np.ndarray, shape: Union[List, Tuple] = (1, -1)) -> np.ndarray:
-- 
2.43.0


From b47777b0627934917d865866a315d368e95fdd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:13 +0000
Subject: [PATCH 53/53] fix: contours of masked sensors use the data of those
 sensors

---
 src/mud/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index c5ea0f4..1f3db35 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1926,7 +1926,8 @@ class SpatioTemporalProblem(object):
             ax = fig.add_subplot(1, 1, 1)
 
         sensors = self.sensors[mask, :] if mask is not None else self.sensors
-        contours = c_vals if c_vals is not None else self.data[idx, :].ravel()
+        values = slice(None) if mask is None else mask
+        contours = c_vals if c_vals is not None else self.data[idx, values].ravel()
 
         if fill:
             tc = ax.tricontourf(sensors[:, 0], sensors[:, 1], contours, **kwargs)
-- 
2.43.0

