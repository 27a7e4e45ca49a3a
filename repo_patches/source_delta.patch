From e154fd50a616bdaf420ceafdbe0be6f3ab8b20df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:12 +0000
Subject: [PATCH 01/34] fix: multi-fidelity samplers no longer empty the
 caller's num_samples list

---
 src/mfpml/design_of_experiment/mf_samplers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mfpml/design_of_experiment/mf_samplers.py b/src/mfpml/design_of_experiment/mf_samplers.py
index 5b572f3..91703c6 100644
--- a/src/mfpml/design_of_experiment/mf_samplers.py
+++ b/src/mfpml/design_of_experiment/mf_samplers.py
@@ -60,6 +60,8 @@ class MultiFidelitySampler:
         data = []
         # check the number of samples
         self._mf_samples_rules(num_samples)
+        # work on a copy, the list of the caller should not be consumed
+        num_samples = list(num_samples)
 
         # get the samples of low fidelity first
         data.insert(0, self._get_non_nested_samples(
-- 
2.43.0


From 1f471b2e27313fd08dd01b1add00506d743cb568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:12 +0000
Subject: [PATCH 02/34] fix: SobolSequence drew and discarded 2**num_samples
 points (out of memory beyond ~30 samples)

---
 src/mfpml/design_of_experiment/sf_samplers.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/mfpml/design_of_experiment/sf_samplers.py b/src/mfpml/design_of_experiment/sf_samplers.py
index 891412d..8d76d64 100644
--- a/src/mfpml/design_of_experiment/sf_samplers.py
+++ b/src/mfpml/design_of_experiment/sf_samplers.py
@@ -311,9 +311,6 @@ class SobolSequence(SingleFidelitySampler):
 
         # define the sobol sampler
         sobol_sampler = Sobol(d=self.num_dim, seed=self.seed)
-        # generate lots of samples first
-        sobol_sampler.random_base2(m=num_samples)
-        _ = sobol_sampler.reset()
         _ = sobol_sampler.fast_forward(n=self.num_skip)
         # get the samples (an np.ndarray)
         samples = sobol_sampler.random(n=num_samples)
-- 
2.43.0


From 8774d6a7aa78ea1c195ec879f127a97fd27c477e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:12 +0000
Subject: [PATCH 03/34] fix: nested Latin hypercube designs ignored the seed
 when choosing the high-fidelity subset

---
 src/mfpml/design_of_experiment/mf_samplers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mfpml/design_of_experiment/mf_samplers.py b/src/mfpml/design_of_experiment/mf_samplers.py
index 91703c6..df908e4 100644
--- a/src/mfpml/design_of_experiment/mf_samplers.py
+++ b/src/mfpml/design_of_experiment/mf_samplers.py
@@ -213,7 +213,8 @@ class MFLatinHyperCube(MultiFidelitySampler):
                             data_higher_fidelity) -> None:
 
         # generate index randomly for nested sampling without repeating
-        index = np.random.choice(
+        # (seeded, so the nested design is reproducible as well)
+        index = np.random.RandomState(self.seed).choice(
             np.arange(data_higher_fidelity.shape[0]),
             size=num_sample,
             replace=False
-- 
2.43.0


From 718838aa99b504af2fce02b3178bb71f2e55bc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:12 +0000
Subject: [PATCH 04/34] fix: PSO/DE results reported all-zero rows as the
 optimum after an early stop

---
 .../optimization/evolutionary_algorithms.py   | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/mfpml/optimization/evolutionary_algorithms.py b/src/mfpml/optimization/evolutionary_algorithms.py
index 3b53049..6311265 100644
--- a/src/mfpml/optimization/evolutionary_algorithms.py
+++ b/src/mfpml/optimization/evolutionary_algorithms.py
@@ -235,12 +235,12 @@ class PSO(EABase):
 
         # get the final results
         results = {
-            "best_x": self.gen_best_x[-1, :],
-            "best_y": self.gen_best[-1, :],
-            "best_x_historical": self.gen_best_x,
-            "best_y_historical": self.gen_best,
-            "all_samples": self.samples,
-            "all_responses": self.responses,
+            "best_x": self.gen_best_x[iter + 1, :],
+            "best_y": self.gen_best[iter + 1, :],
+            "best_x_historical": self.gen_best_x[: iter + 2, :],
+            "best_y_historical": self.gen_best[: iter + 2, :],
+            "all_samples": self.samples[: iter + 2, :, :],
+            "all_responses": self.responses[: iter + 2, :, :],
             "design_space": design_space,
             "pop": self.num_pop,
             "gen": self.num_gen,
@@ -402,12 +402,12 @@ class DE(EABase):
                     break
         # get the final results
         results = {
-            "best_x": self.gen_best_x[-1, :],
-            "best_y": self.gen_best[-1, :],
-            "best_x_historical": self.gen_best_x,
-            "best_y_historical": self.gen_best,
-            "all_samples": self.samples,
-            "all_responses": self.responses,
+            "best_x": self.gen_best_x[iter + 1, :],
+            "best_y": self.gen_best[iter + 1, :],
+            "best_x_historical": self.gen_best_x[: iter + 2, :],
+            "best_y_historical": self.gen_best[: iter + 2, :],
+            "all_samples": self.samples[: iter + 2, :, :],
+            "all_responses": self.responses[: iter + 2, :, :],
             "design_space": design_space,
             "pop": self.num_pop,
             "gen": self.num_gen,
-- 
2.43.0


From 093c40f7be60815c4fb2f14c73c067ba800baaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:05 +0000
Subject: [PATCH 05/34] fix: declared optima of AckleyN2, GoldPrice, Hartman3
 and Branin_2 are not what the functions attain

---
 src/mfpml/problems/mf_functions.py      | 2 +-
 src/mfpml/problems/sf_cons_functions.py | 4 ++--
 src/mfpml/problems/sf_functions.py      | 8 ++++----
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/mfpml/problems/mf_functions.py b/src/mfpml/problems/mf_functions.py
index 826070a..94a5ca4 100644
--- a/src/mfpml/problems/mf_functions.py
+++ b/src/mfpml/problems/mf_functions.py
@@ -150,7 +150,7 @@ class mf_Hartman3(MultiFidelityFunctions):
     input_domain: np.ndarray = np.array([[0.0, 1.0], [0.0, 1.0], [0.0, 1.0]])
     design_space: dict = {"x1": [0.0, 1.0], "x2": [0.0, 1.0], "x3": [0.0, 1.0]}
     optimum: float = -3.86278214782076
-    optimum_scheme: list = [0.1, 0.55592003, 0.85218259]
+    optimum_scheme: list = [0.114614, 0.555649, 0.852547]
     low_fidelity: list = ["low"]
 
     def __init__(self, num_dim: int = 3, cost: list = [1.0, 0.2]) -> None:
diff --git a/src/mfpml/problems/sf_cons_functions.py b/src/mfpml/problems/sf_cons_functions.py
index d9013f1..234e519 100644
--- a/src/mfpml/problems/sf_cons_functions.py
+++ b/src/mfpml/problems/sf_cons_functions.py
@@ -59,8 +59,8 @@ class Branin_2(Functions):
     num_obj: int = 1
     num_cons: int = 1
     input_domain = np.array([[0, 1], [0.0, 1]])
-    optimum: float = 12.001
-    optimum_scheme: List = [0.941, 0.317]
+    optimum: float = 12.005
+    optimum_scheme: List = [0.94057, 0.31711]
     low_fidelity: List = None
 
     @classmethod
diff --git a/src/mfpml/problems/sf_functions.py b/src/mfpml/problems/sf_functions.py
index 197fb0b..a9903e3 100644
--- a/src/mfpml/problems/sf_functions.py
+++ b/src/mfpml/problems/sf_functions.py
@@ -93,7 +93,7 @@ class GoldPrice(Functions):
     num_cons: int = 0
     input_domain = np.array([[-2.0, 2.0], [-2.0, 2.0]])
     optimum: float = 3.0
-    optimum_scheme: List = [0.0, 1.0]
+    optimum_scheme: List = [0.0, -1.0]
     low_fidelity: List = None
 
     @classmethod
@@ -228,7 +228,7 @@ class Hartman3(Functions):
     num_cons: int = 0
     input_domain = np.array([[0.0, 1.0], [0.0, 1.0], [0.0, 1.0]])
     optimum: float = -3.86278214782076
-    optimum_scheme: List = [0.1, 0.55592003, 0.85218259]
+    optimum_scheme: List = [0.114614, 0.555649, 0.852547]
     low_fidelity: List = None
 
     @classmethod
@@ -506,8 +506,8 @@ class AckleyN2(Functions):
     num_obj: int = 1
     num_cons: int = 0
     input_domain: np.ndarray = np.array([[-32.0, 32.0], [-32.0, 32.0]])
-    optimum: float = [0.0, 0.0]
-    optimum_scheme: List = -200.0
+    optimum: float = -200.0
+    optimum_scheme: List = [0.0, 0.0]
     low_fidelity: List = None
 
     @classmethod
-- 
2.43.0


From 1fbec2fa94610da8a9cccf4155e4eef18129965b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:05 +0000
Subject: [PATCH 06/34] fix: Thevenot used a product in the exponential, so its
 declared optimum was not the minimum

---
 src/mfpml/problems/sf_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mfpml/problems/sf_functions.py b/src/mfpml/problems/sf_functions.py
index a9903e3..6c7a4eb 100644
--- a/src/mfpml/problems/sf_functions.py
+++ b/src/mfpml/problems/sf_functions.py
@@ -387,14 +387,14 @@ class Thevenot(Functions):
         # only can compute sequentially
         if x.ndim == 1:
             res = np.exp(-np.sum((x / self.beta) ** (2 * self.m)))
-            res = res - 2 * np.exp(-np.prod(x**2)) * np.prod(np.cos(x) ** 2)
+            res = res - 2 * np.exp(-np.sum(x**2)) * np.prod(np.cos(x) ** 2)
             obj = res
         elif x.ndim == 2:
             obj = np.zeros((x.shape[0], 1))
             for ii in range(x.shape[0]):
                 X = x[ii, :]
                 res = np.exp(-np.sum((X / self.beta) ** (2 * self.m)))
-                res = res - 2 * np.exp(-np.prod(X**2)) * np.prod(
+                res = res - 2 * np.exp(-np.sum(X**2)) * np.prod(
                     np.cos(X) ** 2
                 )
                 obj[ii, 0] = res
-- 
2.43.0


From 90a4edce3c0735f00359f7a2ed89432843858a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:05 +0000
Subject: [PATCH 07/34] fix: mf_Park91A returned NaN at x1 = 0, which is inside
 its domain

---
 src/mfpml/problems/mf_functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mfpml/problems/mf_functions.py b/src/mfpml/problems/mf_functions.py
index 94a5ca4..6e4dc26 100644
--- a/src/mfpml/problems/mf_functions.py
+++ b/src/mfpml/problems/mf_functions.py
@@ -950,7 +950,8 @@ class mf_Park91A(MultiFidelityFunctions):
         x4 = x[:, 3]
 
         # calculate the terms
-        term1 = x1/2 * (np.sqrt(1 + (x2 + x3**2) * x4/x1**2) - 1)
+        # x1 is multiplied into the square root: x1 = 0 is in the domain
+        term1 = (np.sqrt(x1**2 + (x2 + x3**2) * x4) - x1) / 2
         term2 = (x1 + 3*x4)*np.exp(1 + np.sin(x3))
 
         # calculate the objective function
-- 
2.43.0


From a7a316af9a518300874916110cbeda246902c2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:05 +0000
Subject: [PATCH 08/34] fix: Ackley and Thevenot instances of different
 dimensions overwrote each other's data

---
 src/mfpml/problems/functions.py    | 10 +++++-----
 src/mfpml/problems/sf_functions.py | 19 +++++++------------
 2 files changed, 12 insertions(+), 17 deletions(-)

diff --git a/src/mfpml/problems/functions.py b/src/mfpml/problems/functions.py
index bb09e83..c1e0a54 100644
--- a/src/mfpml/problems/functions.py
+++ b/src/mfpml/problems/functions.py
@@ -227,7 +227,7 @@ class Functions(ABC):
         dimension: int
             dimension of the problem
         """
-        return self.__class__.num_dim
+        return self.num_dim
 
     @property
     def _get_low_fidelity(self) -> list:
@@ -240,7 +240,7 @@ class Functions(ABC):
 
         """
 
-        return self.__class__.low_fidelity
+        return self.low_fidelity
 
     @property
     def _optimum(self) -> float:
@@ -252,7 +252,7 @@ class Functions(ABC):
             name of the class
 
         """
-        return self.__class__.optimum
+        return self.optimum
 
     @property
     def _optimum_variable(self) -> list:
@@ -264,7 +264,7 @@ class Functions(ABC):
             Best design scheme
 
         """
-        return self.__class__.optimum_scheme
+        return self.optimum_scheme
 
     @property
     def _input_domain(self) -> np.ndarray:
@@ -274,7 +274,7 @@ class Functions(ABC):
         -------
 
         """
-        return self.__class__.input_domain
+        return self.input_domain
 
 
 class FunctionWrapper:
diff --git a/src/mfpml/problems/sf_functions.py b/src/mfpml/problems/sf_functions.py
index 6c7a4eb..5458946 100644
--- a/src/mfpml/problems/sf_functions.py
+++ b/src/mfpml/problems/sf_functions.py
@@ -380,7 +380,7 @@ class Thevenot(Functions):
         )
         self.m = m
         self.beta = beta
-        # update the information of function class
+        # the optimum depends on the dimension of this instance
         self.__update_parameters()
 
     def f(self, x: np.ndarray) -> np.ndarray:
@@ -404,14 +404,12 @@ class Thevenot(Functions):
 
     def __update_parameters(self):
 
-        self.__class__.num_dim = self.num_dim
-        self.__class__.optimum_scheme = np.array(
+        self.optimum_scheme = np.array(
             [0 for i in range(1, self.num_dim + 1)]
         ).tolist()
-        self.__class__.optimum = self.f(
+        self.optimum = self.f(
             np.array([0 for i in range(1, self.num_dim + 1)])
         )
-        self.__class__.input_domain = self.input_domain
 
 
 class Ackley(Functions):
@@ -453,7 +451,7 @@ class Ackley(Functions):
         self.a = a
         self.b = b
         self.c = c
-        # update the information of function class
+        # the optimum depends on the dimension of this instance
         self.__update_parameters()
 
     def get_param(self) -> dict[str, float]:
@@ -483,21 +481,18 @@ class Ackley(Functions):
 
     def __update_parameters(self) -> None:
         """
-        update the class variable information
+        update the optimum of this instance
         Returns
         -------
 
         """
 
-        self.__class__.num_dim = self.num_dim
-
-        self.__class__.optimum_scheme = np.array(
+        self.optimum_scheme = np.array(
             [0 for _ in range(1, self.num_dim + 1)]
         ).tolist()
-        self.__class__.optimum = self.f(
+        self.optimum = self.f(
             np.array([0 for _ in range(1, self.num_dim + 1)])
         )
-        self.__class__.input_domain = self.input_domain
 
 
 class AckleyN2(Functions):
-- 
2.43.0


From 9c20445020860d3a4e515234ecca94f566c3d39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:05 +0000
Subject: [PATCH 09/34] fix: AckleyN2 accepted a dimension it cannot evaluate

---
 src/mfpml/problems/sf_functions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mfpml/problems/sf_functions.py b/src/mfpml/problems/sf_functions.py
index 5458946..78c8cbf 100644
--- a/src/mfpml/problems/sf_functions.py
+++ b/src/mfpml/problems/sf_functions.py
@@ -510,6 +510,7 @@ class AckleyN2(Functions):
         assert (d is None) or (
             isinstance(d, int) and (not d < 0)
         ), "The dimension d must be None or a positive integer"
+        assert d == 2, f"Can not change dimension for {cls.__name__} function"
         return d == 2
 
     def __init__(self, num_dim: int = 2) -> None:
-- 
2.43.0


From 857dd781fcb23ce36b0ad11f6bbd243a58d4daee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:08 +0000
Subject: [PATCH 10/34] fix: CoKriging.predict(return_std=True) changed the
 noise of the model on every call

---
 src/mfpml/models/co_kriging.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mfpml/models/co_kriging.py b/src/mfpml/models/co_kriging.py
index ff5ffec..4c3a915 100644
--- a/src/mfpml/models/co_kriging.py
+++ b/src/mfpml/models/co_kriging.py
@@ -457,8 +457,9 @@ class CoKriging:
                 - c.T.dot(solve(self.LC.T, solve(self.LC, c)))
             )
             self.epis_std = np.sqrt(np.maximum(np.diag(s2), 0))*self.yh_std
-            self.noise = self.noise * self.yh_std
-            total_std = np.sqrt((self.epis_std**2 + self.noise**2))
+            # the noise is kept at the scaled level
+            total_std = np.sqrt(
+                (self.epis_std**2 + (self.noise * self.yh_std)**2))
             return fmean.reshape(-1, 1), total_std.reshape(-1, 1)
 
     def predict_lf(
-- 
2.43.0


From b917ffce1ab0bd3ec8ab65d708ca3d54ae6c4fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:08 +0000
Subject: [PATCH 11/34] fix: CoKriging rescaled its noise prior again on every
 training

---
 src/mfpml/models/co_kriging.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/mfpml/models/co_kriging.py b/src/mfpml/models/co_kriging.py
index 4c3a915..52aae99 100644
--- a/src/mfpml/models/co_kriging.py
+++ b/src/mfpml/models/co_kriging.py
@@ -351,6 +351,7 @@ class CoKriging:
             noise_prior=noise_prior)
 
         # noise (unscaled, it will be scaled later)
+        self.noise_prior = noise_prior
         self.noise = noise_prior
 
     def train(self, samples: List, responses: List) -> None:
@@ -377,11 +378,12 @@ class CoKriging:
         self.sample_xl_scaled = self.normalize_input(self.sample_xl.copy())
         self.sample_yh_scaled = self.normalize_hf_output(self.sample_yh.copy())
         self.sample_yl_scaled = (self.sample_yl - self.yh_mean) / self.yh_std
-        # scale the noise value
+        # scale the noise value, always starting from the prior
+        self.noise = self.noise_prior
         if self.noise is not None:
             self.noise = self.noise / self.yh_std
-            # update the noise value of the low-fidelity model
-            self.lfGP.noise = self.noise
+        # update the noise value of the low-fidelity model
+        self.lfGP.noise = self.noise
         # train the low-fidelity model
         start_time = time.time()
 
@@ -570,7 +572,7 @@ class CoKriging:
                 theta = params[i, 2:]
             else:
                 rho = params[i, 0]
-                noise_sigma = self.noise / self.yh_std
+                noise_sigma = self.noise
                 theta = params[i, 1:]
             # correlation matrix R
             K = self.kernel(self.sample_xh_scaled,
-- 
2.43.0


From 7966d987daf5bd3d6522ddbb6b7755a72eaac366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:08 +0000
Subject: [PATCH 12/34] fix: a learned noise level was frozen when GP or
 hierarchical Kriging was trained again

---
 src/mfpml/models/gaussian_process.py     | 3 +++
 src/mfpml/models/hierarchical_kriging.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/mfpml/models/gaussian_process.py b/src/mfpml/models/gaussian_process.py
index 0b98649..227f606 100644
--- a/src/mfpml/models/gaussian_process.py
+++ b/src/mfpml/models/gaussian_process.py
@@ -61,6 +61,7 @@ class GaussianProcessRegression:
         # basis function
         self.regr = regr
         # noisy data prior or not
+        self.noise_prior = noise_prior
         self.noise = noise_prior
 
     def train(self,
@@ -86,6 +87,8 @@ class GaussianProcessRegression:
         self.sample_y = Y.reshape(-1, 1)
         self.sample_y_scaled = self.normalize_output(self.sample_y)
 
+        # the noise is learned from this data, or given by the prior
+        self.noise = self.noise_prior
         # optimizer hyper-parameters
         self._hyper_paras_optimization()
 
diff --git a/src/mfpml/models/hierarchical_kriging.py b/src/mfpml/models/hierarchical_kriging.py
index 8c43517..469fe1f 100644
--- a/src/mfpml/models/hierarchical_kriging.py
+++ b/src/mfpml/models/hierarchical_kriging.py
@@ -29,6 +29,7 @@ class HierarchicalKriging(_mfGaussianProcess):
         self.optimizer_restart = optimizer_restart
         self.num_dim = design_space.shape[0]
         self.kernel = RBF(theta=np.zeros(self.num_dim), bounds=kernel_bound)
+        self.noise_prior = noise_prior
         self.noise = noise_prior
         # define the low-fidelity model
         self.lfGP = GP(design_space=design_space,
@@ -55,6 +56,8 @@ class HierarchicalKriging(_mfGaussianProcess):
         # prediction of low-fidelity at high-fidelity locations
         F = self.predict_lf(X)
         self.F = (F-self.yh_mean)/self.yh_std
+        # the noise is learned from this data, or given by the prior
+        self.noise = self.noise_prior
         # optimize the hyper parameters
         self._optHyp()
         # update the parameters
-- 
2.43.0


From 608504d710684ab135ef6324888ccbd880a79e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:08 +0000
Subject: [PATCH 13/34] fix: ScaledKriging.predict scaled the discrepancy
 instead of the low-fidelity mean when no std is asked

---
 src/mfpml/models/scale_kriging.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mfpml/models/scale_kriging.py b/src/mfpml/models/scale_kriging.py
index 5b0b92f..15f7c8f 100644
--- a/src/mfpml/models/scale_kriging.py
+++ b/src/mfpml/models/scale_kriging.py
@@ -122,8 +122,8 @@ class ScaledKriging(_mfGaussianProcess):
             prediction of high-fidelity
         """
         if not return_std:
-            return self.disc_model.predict(X) * self.rho \
-                + self.lfGP.predict(X)
+            return self.rho * self.lfGP.predict(X) \
+                + self.disc_model.predict(X)
         else:
             pre_lf, std_lf = self.lfGP.predict(X, return_std)
             pre_disc, std_disc = self.disc_model.predict(X, return_std)
-- 
2.43.0


From ca9579d88ed1d6d73f97d6ad107a483ccdf94e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:08 +0000
Subject: [PATCH 14/34] fix: training a GP on constant responses divided by
 zero and crashed

---
 src/mfpml/models/gaussian_process.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mfpml/models/gaussian_process.py b/src/mfpml/models/gaussian_process.py
index 227f606..bfa7927 100644
--- a/src/mfpml/models/gaussian_process.py
+++ b/src/mfpml/models/gaussian_process.py
@@ -350,6 +350,8 @@ class GaussianProcessRegression:
         # normalize the output
         y_mean = np.mean(Y)
         y_std = np.std(Y)
+        # constant responses have no scale
+        y_std = y_std if y_std > 0 else 1.0
 
         return (Y - y_mean) / y_std
 
@@ -384,4 +386,6 @@ class GaussianProcessRegression:
         float
             standard deviation of the response
         """
-        return np.std(self.sample_y)
+        y_std = np.std(self.sample_y)
+        # constant responses have no scale
+        return y_std if y_std > 0 else 1.0
-- 
2.43.0


From 18e650d9a8605ae4442638883f4ebea0683a2a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:08 +0000
Subject: [PATCH 15/34] fix: GP predictions changed when the caller overwrote
 the training arrays

---
 src/mfpml/models/gaussian_process.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mfpml/models/gaussian_process.py b/src/mfpml/models/gaussian_process.py
index bfa7927..3afbbf1 100644
--- a/src/mfpml/models/gaussian_process.py
+++ b/src/mfpml/models/gaussian_process.py
@@ -81,10 +81,10 @@ class GaussianProcessRegression:
         # get number samples
         self.num_samples = X.shape[0]
         # the original sample_x
-        self.sample_x = X
+        self.sample_x = X.copy()
         self.sample_scaled_x = self.normalize_input(X, self.bounds)
         # get the response
-        self.sample_y = Y.reshape(-1, 1)
+        self.sample_y = Y.reshape(-1, 1).copy()
         self.sample_y_scaled = self.normalize_output(self.sample_y)
 
         # the noise is learned from this data, or given by the prior
-- 
2.43.0


From 44f17c4172cd86ab99ccf772a79ecce2f10de7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:38 +0000
Subject: [PATCH 16/34] fix: training on constant responses had no finite
 likelihood or scale and crashed

---
 src/mfpml/models/co_kriging.py           | 10 ++++++++--
 src/mfpml/models/gaussian_process.py     |  6 +++++-
 src/mfpml/models/hierarchical_kriging.py |  6 +++++-
 src/mfpml/models/mf_gaussian_process.py  |  2 ++
 4 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/mfpml/models/co_kriging.py b/src/mfpml/models/co_kriging.py
index 52aae99..f6942ed 100644
--- a/src/mfpml/models/co_kriging.py
+++ b/src/mfpml/models/co_kriging.py
@@ -9,6 +9,10 @@ from .basis_functions import Ordinary
 from .kernels import RBF
 
 
+# floor of the process variance, it vanishes for constant responses
+TINY = np.finfo(float).tiny
+
+
 class _GP:
     """single fidelity Gaussian process regression model, there is no
     normalization for the input and output. This is because we have to
@@ -154,7 +158,7 @@ class _GP:
             # step 3: calculate the log likelihood
             if self.noise == 0.0:
                 logp = -0.5 * self.num_samples * \
-                    np.log(sigma2) - np.sum(np.log(np.diag(L)))
+                    np.log(np.maximum(sigma2, TINY)) - np.sum(np.log(np.diag(L)))
             else:
                 logp = -0.5 * self.num_samples * \
                     sigma2 - np.sum(np.log(np.diag(L)))
@@ -592,7 +596,7 @@ class CoKriging:
             sigma2 = np.dot((diff_y - mu).T, gamma) / self._num_xh
             # negative log likelihood
             if self.noise == 0.0:
-                logp = -0.5 * self._num_xh * np.log(sigma2) - \
+                logp = -0.5 * self._num_xh * np.log(np.maximum(sigma2, TINY)) - \
                     np.sum(np.log(np.diag(L)))
             else:
                 logp = -0.5 * self._num_xh * \
@@ -713,6 +717,8 @@ class CoKriging:
         """
         self.yh_mean = np.mean(outputs)
         self.yh_std = np.std(outputs)
+        # constant responses have no scale
+        self.yh_std = self.yh_std if self.yh_std > 0 else 1.0
         return (outputs - self.yh_mean) / self.yh_std
 
     @property
diff --git a/src/mfpml/models/gaussian_process.py b/src/mfpml/models/gaussian_process.py
index 3afbbf1..95b497f 100644
--- a/src/mfpml/models/gaussian_process.py
+++ b/src/mfpml/models/gaussian_process.py
@@ -9,6 +9,10 @@ from .basis_functions import Ordinary
 from .kernels import RBF
 
 
+# floor of the process variance, it vanishes for constant responses
+TINY = np.finfo(float).tiny
+
+
 class GaussianProcessRegression:
     """
     Gaussian Process Regressor, for noisy data or noise-free data
@@ -257,7 +261,7 @@ class GaussianProcessRegression:
             # step 3: calculate the log likelihood
             if self.noise == 0.0:
                 logp = -0.5 * self.num_samples * \
-                    np.log(sigma2) - np.sum(np.log(np.diag(L)))
+                    np.log(np.maximum(sigma2, TINY)) - np.sum(np.log(np.diag(L)))
             else:
                 logp = -0.5 * self.num_samples * \
                     sigma2 - np.sum(np.log(np.diag(L)))
diff --git a/src/mfpml/models/hierarchical_kriging.py b/src/mfpml/models/hierarchical_kriging.py
index 469fe1f..d4d2b30 100644
--- a/src/mfpml/models/hierarchical_kriging.py
+++ b/src/mfpml/models/hierarchical_kriging.py
@@ -10,6 +10,10 @@ from .kernels import RBF
 from .mf_gaussian_process import _mfGaussianProcess
 
 
+# floor of the process variance, it vanishes for constant responses
+TINY = np.finfo(float).tiny
+
+
 class HierarchicalKriging(_mfGaussianProcess):
 
     def __init__(
@@ -217,7 +221,7 @@ class HierarchicalKriging(_mfGaussianProcess):
             # step 3: calculate the log likelihood
             if self.noise == 0.0:
                 logp = -0.5 * self._num_xh * \
-                    np.log(sigma2) - np.sum(np.log(np.diag(L)))
+                    np.log(np.maximum(sigma2, TINY)) - np.sum(np.log(np.diag(L)))
             else:
                 logp = -0.5 * self._num_xh * \
                     sigma2 - np.sum(np.log(np.diag(L)))
diff --git a/src/mfpml/models/mf_gaussian_process.py b/src/mfpml/models/mf_gaussian_process.py
index 547a8cd..29bee23 100644
--- a/src/mfpml/models/mf_gaussian_process.py
+++ b/src/mfpml/models/mf_gaussian_process.py
@@ -170,6 +170,8 @@ class _mfGaussianProcess:
         """
         self.yh_mean = np.mean(outputs)
         self.yh_std = np.std(outputs)
+        # constant responses have no scale
+        self.yh_std = self.yh_std if self.yh_std > 0 else 1.0
         return (outputs - self.yh_mean) / self.yh_std
 
     @property
-- 
2.43.0


From d728c5039290b13f182b8029401087dd1d6b3f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:18 +0000
Subject: [PATCH 17/34] fix: acquisition queries with a custom optimizer did
 not pass the surrogate and crashed

---
 src/mfpml/optimization/sf_cons_acqusitions.py   | 1 +
 src/mfpml/optimization/sf_uncons_acqusitions.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/mfpml/optimization/sf_cons_acqusitions.py b/src/mfpml/optimization/sf_cons_acqusitions.py
index a13115f..2c852fa 100644
--- a/src/mfpml/optimization/sf_cons_acqusitions.py
+++ b/src/mfpml/optimization/sf_cons_acqusitions.py
@@ -69,6 +69,7 @@ class SFConsAcq(ABC):
                 self.eval,
                 num_dim=obj_surrogate.num_dim,
                 design_space=obj_surrogate.bounds,
+                args=(obj_surrogate, cons_surrogate),
             )
 
         return opt_x
diff --git a/src/mfpml/optimization/sf_uncons_acqusitions.py b/src/mfpml/optimization/sf_uncons_acqusitions.py
index 2a90b30..ce64e29 100644
--- a/src/mfpml/optimization/sf_uncons_acqusitions.py
+++ b/src/mfpml/optimization/sf_uncons_acqusitions.py
@@ -66,6 +66,7 @@ class SFUnConsAcq(ABC):
                 self.eval,
                 num_dim=surrogate.num_dim,
                 design_space=surrogate.bounds,
+                args=(surrogate,),
             )
 
         return opt_x
-- 
2.43.0


From 73ed833a13675b5c307195f6821845f07622a512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:18 +0000
Subject: [PATCH 18/34] fix: CEI probability of feasibility crashed for more
 than one point

---
 src/mfpml/optimization/sf_cons_acqusitions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mfpml/optimization/sf_cons_acqusitions.py b/src/mfpml/optimization/sf_cons_acqusitions.py
index 2c852fa..66a7c27 100644
--- a/src/mfpml/optimization/sf_cons_acqusitions.py
+++ b/src/mfpml/optimization/sf_cons_acqusitions.py
@@ -132,9 +132,9 @@ class CEI(SFConsAcq):
         mse_g = np.zeros((x.shape[0], num_cons))
         for ii in range(num_cons):
             cons_surrogate = cons_surrogates[ii]
-            u_g[:, ii], mse_g[:, ii] = cons_surrogate.predict(
-                x, return_std=True)
+            mean, std = cons_surrogate.predict(x, return_std=True)
+            u_g[:, ii], mse_g[:, ii] = mean.ravel(), std.ravel()
 
         # probability of feasibility
-        pof = np.prod(norm.cdf(0-u_g / (mse_g + 1e-9)), axis=1)
+        pof = np.prod(norm.cdf(0-u_g / (mse_g + 1e-9)), axis=1, keepdims=True)
         return pof
-- 
2.43.0


From 508cbc7b5bdc083e4a4941272ca6ee4cd86ec946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:18 +0000
Subject: [PATCH 19/34] fix: multi-fidelity acquisition queries crashed when
 given an optimizer

---
 src/mfpml/optimization/mf_acqusitions.py | 54 ++++++++++++++++++++++--
 1 file changed, 50 insertions(+), 4 deletions(-)

diff --git a/src/mfpml/optimization/mf_acqusitions.py b/src/mfpml/optimization/mf_acqusitions.py
index edf9705..aa4af70 100644
--- a/src/mfpml/optimization/mf_acqusitions.py
+++ b/src/mfpml/optimization/mf_acqusitions.py
@@ -166,7 +166,18 @@ class AugmentedEI(MFUnConsAcq):
             opt_lf = res_lf.fun
             x_lf = res_lf.x
         else:
-            pass
+            _, opt_hf, x_hf = self.optimizer.run_optimizer(
+                self.eval,
+                num_dim=mf_surrogate.num_dim,
+                design_space=mf_surrogate.bound,
+                args=(mf_surrogate, cost_ratio, 0),
+            )
+            _, opt_lf, x_lf = self.optimizer.run_optimizer(
+                self.eval,
+                num_dim=mf_surrogate.num_dim,
+                design_space=mf_surrogate.bound,
+                args=(mf_surrogate, cost_ratio, 1),
+            )
         # choose fidelity
         if opt_hf <= opt_lf:
             update_x = np.atleast_2d(x_hf)
@@ -330,7 +341,18 @@ class VFEI(MFUnConsAcq):
             opt_lf = res_lf.fun
             x_lf = res_lf.x
         else:
-            pass
+            _, opt_hf, x_hf = self.optimizer.run_optimizer(
+                self.eval,
+                num_dim=mf_surrogate.num_dim,
+                design_space=mf_surrogate.bound,
+                args=(fmin, mf_surrogate, 0),
+            )
+            _, opt_lf, x_lf = self.optimizer.run_optimizer(
+                self.eval,
+                num_dim=mf_surrogate.num_dim,
+                design_space=mf_surrogate.bound,
+                args=(fmin, mf_surrogate, 1),
+            )
         # choose fidelity
         if opt_hf <= opt_lf:
             update_x = np.atleast_2d(x_hf)
@@ -444,7 +466,18 @@ class VFLCB(MFUnConsAcq):
             opt_lf = res_lf.fun
             x_lf = res_lf.x
         else:
-            pass
+            _, opt_hf, x_hf = self.optimizer.run_optimizer(
+                self.eval,
+                num_dim=mf_surrogate.num_dim,
+                design_space=mf_surrogate.bound,
+                args=(mf_surrogate, cost_ratio, 0),
+            )
+            _, opt_lf, x_lf = self.optimizer.run_optimizer(
+                self.eval,
+                num_dim=mf_surrogate.num_dim,
+                design_space=mf_surrogate.bound,
+                args=(mf_surrogate, cost_ratio, 1),
+            )
         # choose fidelity with better optimal value
         if opt_hf <= opt_lf:
             # choose high high fidelity
@@ -570,7 +603,20 @@ class ExtendedPI(MFUnConsAcq):
             opt_lf = res_lf.fun
             x_lf = res_lf.x
         else:
-            pass
+            _, opt_hf, x_hf = self.optimizer.run_optimizer(
+                self.eval,
+                num_dim=mf_surrogate.num_dim,
+                design_space=mf_surrogate.bound,
+                args=(mf_surrogate, premin.fun,
+                      cost_ratio, 0),
+            )
+            _, opt_lf, x_lf = self.optimizer.run_optimizer(
+                self.eval,
+                num_dim=mf_surrogate.num_dim,
+                design_space=mf_surrogate.bound,
+                args=(mf_surrogate, premin.fun,
+                      cost_ratio, 1),
+            )
         # choose fidelity with better optimal value
         if opt_hf <= opt_lf:
             # choose high high fidelity
-- 
2.43.0


From a5625caaaa6e3c1484e19e0161fab1e6cd5ff24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:18 +0000
Subject: [PATCH 20/34] fix: ExtendedPI mixed the points of a batch

---
 src/mfpml/optimization/mf_acqusitions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfpml/optimization/mf_acqusitions.py b/src/mfpml/optimization/mf_acqusitions.py
index aa4af70..193d63f 100644
--- a/src/mfpml/optimization/mf_acqusitions.py
+++ b/src/mfpml/optimization/mf_acqusitions.py
@@ -557,7 +557,7 @@ class ExtendedPI(MFUnConsAcq):
             cr = cost_ratio
             eta = np.prod(mf_surrogate._eval_corr(
                 x, mf_surrogate._get_sample_lf, fidelity=1), axis=1)
-        return -pi*corr*cr*eta
+        return -pi*corr*cr*eta.reshape(-1, 1)
 
     def query(self, mf_surrogate: _mfGaussianProcess,
               cost_ratio: float = 1.0,
-- 
2.43.0


From bc235a0aebbb5e8e186115308b9220b966e9b266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:18 +0000
Subject: [PATCH 21/34] fix: VFEI ignored the low-fidelity uncertainty it
 computed

---
 src/mfpml/optimization/mf_acqusitions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mfpml/optimization/mf_acqusitions.py b/src/mfpml/optimization/mf_acqusitions.py
index 193d63f..0be10b3 100644
--- a/src/mfpml/optimization/mf_acqusitions.py
+++ b/src/mfpml/optimization/mf_acqusitions.py
@@ -292,12 +292,12 @@ class VFEI(MFUnConsAcq):
         elif fidelity == 1:
             # get predicted standard deviation for low-fidelity
             _, std_lf = mf_surrogate.predict_lf(x, return_std=True)
-            s = mf_surrogate.beta * std_lf
+            s = np.abs(mf_surrogate.beta) * std_lf
         else:
             ValueError('Unknown fidelity input.')
         # expected improvement
-        z = (fmin - pre) / (std + 1e-8)
-        vfei = (fmin - pre) * norm.cdf(z) + std * norm.pdf(z)
+        z = (fmin - pre) / (s + 1e-8)
+        vfei = (fmin - pre) * norm.cdf(z) + s * norm.pdf(z)
         vfei[s < np.finfo(float).eps] = 0.
         return (- vfei).ravel()
 
-- 
2.43.0


From 4db4e3363ebcd2152fd4a77120ee8a17a24d6a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:18 +0000
Subject: [PATCH 22/34] fix: problems without a known optimum stopped the
 Bayesian optimization loops on a made-up error

---
 src/mfpml/optimization/mf_uncons_bo.py | 3 ++-
 src/mfpml/optimization/sf_cons_bo.py   | 3 ++-
 src/mfpml/optimization/sf_uncons_bo.py | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/mfpml/optimization/mf_uncons_bo.py b/src/mfpml/optimization/mf_uncons_bo.py
index dd685b9..c808daa 100644
--- a/src/mfpml/optimization/mf_uncons_bo.py
+++ b/src/mfpml/optimization/mf_uncons_bo.py
@@ -124,7 +124,8 @@ class mfUnConsBayesOpt:
         elif self.known_optimum == 0.0:
             error = np.abs(self.best - self.known_optimum)
         else:
-            error = 1.0
+            # the optimum is unknown: never stop on the error
+            error = np.inf
 
         return error
 
diff --git a/src/mfpml/optimization/sf_cons_bo.py b/src/mfpml/optimization/sf_cons_bo.py
index 515cbe1..d5a4e58 100644
--- a/src/mfpml/optimization/sf_cons_bo.py
+++ b/src/mfpml/optimization/sf_cons_bo.py
@@ -184,7 +184,8 @@ class BayesConsOpt(ABC):
         elif self.known_optimum == 0.0:
             error = np.abs(self.best - self.known_optimum)
         else:
-            error = 1.0
+            # the optimum is unknown: never stop on the error
+            error = np.inf
 
         return error
 
diff --git a/src/mfpml/optimization/sf_uncons_bo.py b/src/mfpml/optimization/sf_uncons_bo.py
index e0f17da..f389efa 100644
--- a/src/mfpml/optimization/sf_uncons_bo.py
+++ b/src/mfpml/optimization/sf_uncons_bo.py
@@ -133,7 +133,8 @@ class BayesUnConsOpt(ABC):
         elif self.known_optimum == 0.0:
             error = np.abs(self.best - self.known_optimum)
         else:
-            error = 1.0
+            # the optimum is unknown: never stop on the error
+            error = np.inf
 
         return error
 
-- 
2.43.0


From 9aec2cb1837972d0ad25c119a84d3a7f7d95eb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:18 +0000
Subject: [PATCH 23/34] fix: constrained BO could report an infeasible point
 that ties with the best feasible one

---
 src/mfpml/optimization/sf_cons_bo.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mfpml/optimization/sf_cons_bo.py b/src/mfpml/optimization/sf_cons_bo.py
index d5a4e58..ebca491 100644
--- a/src/mfpml/optimization/sf_cons_bo.py
+++ b/src/mfpml/optimization/sf_cons_bo.py
@@ -129,7 +129,8 @@ class BayesConsOpt(ABC):
                 == self.problem.num_cons)
             # get the best feasible sample
             self.best = np.min(self.init_obj_response[feasible_index])
-            min_index = np.where(self.init_obj_response == self.best)[0]
+            min_index = feasible_index[0][np.where(
+                self.init_obj_response[feasible_index] == self.best)[0]]
             # get the best feasible sample
             self.best_x = self.init_sample[min_index, :]
             # record the optimization history
@@ -154,7 +155,8 @@ class BayesConsOpt(ABC):
                 == self.problem.num_cons)
             # get the best feasible sample
             min_y = np.min(self.obj_response[feasible_index])
-            min_index = np.where(self.obj_response == min_y)[0]
+            min_index = feasible_index[0][np.where(
+                self.obj_response[feasible_index] == min_y)[0]]
             print(f"min_index: {min_index}")
             # update best
             self.best = min_y
-- 
2.43.0


From 73f625d7202c942c4eeb22b9abe4cb14fbbfb3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:41 +0000
Subject: [PATCH 24/34] fix: CoKriging lacked what the multi-fidelity
 acquisitions need, so BO with it crashed

---
 src/mfpml/models/co_kriging.py | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/mfpml/models/co_kriging.py b/src/mfpml/models/co_kriging.py
index f6942ed..8da850e 100644
--- a/src/mfpml/models/co_kriging.py
+++ b/src/mfpml/models/co_kriging.py
@@ -340,6 +340,8 @@ class CoKriging:
         super().__init__()
         # get information of the modeling problem
         self.bounds = design_space
+        # same attribute name as the other multi-fidelity models
+        self.bound = design_space
         self.optimizer = optimizer
         self.optimizer_restart = optimizer_restart
         self.num_dim = design_space.shape[0]
@@ -495,6 +497,35 @@ class CoKriging:
             obj, std = self.lfGP.predict(x_predict, return_std=True)
             return obj*self.yh_std + self.yh_mean, std*self.yh_std
 
+    def _eval_corr(
+        self, X: np.ndarray, Xprime: np.ndarray, fidelity: int = 0
+    ) -> np.ndarray:
+        """Evaluate the correlation values based on current multi-
+        fidelity model
+
+        Parameters
+        ----------
+        X : np.ndarray
+            x
+        Xprime : np.ndarray
+            x'
+        fidelity : int, optional
+            fidelity level, 0 is high fidelity and 1 is low fidelity
+
+        Returns
+        -------
+        np.ndarray
+            correlation matrix
+        """
+        X = self.normalize_input(X)
+        Xprime = self.normalize_input(Xprime)
+        if fidelity == 0:
+            return self.kernel.get_kernel_matrix(X, Xprime)
+        elif fidelity == 1:
+            return self.lfGP.kernel.get_kernel_matrix(X, Xprime)
+        else:
+            raise ValueError("Unknown fidelity input.")
+
     def _optHyp(self) -> None:
         """Optimize the hyperparameters"""
         # consider the situation where noise exists
-- 
2.43.0


From 5afc00d69549a55ffb119b4e6badea5a68ebf999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:06 +0000
Subject: [PATCH 25/34] fix: HierarchicalKriging crashed when the low-fidelity
 model equals the mean high-fidelity response

A low-fidelity prediction equal to the mean of the high-fidelity responses at
every training point gives a zero trend; its coefficient is then zero instead of
a failed Cholesky factorisation or amplified rounding.
---
 src/mfpml/models/hierarchical_kriging.py | 26 ++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/mfpml/models/hierarchical_kriging.py b/src/mfpml/models/hierarchical_kriging.py
index d4d2b30..fce6b0e 100644
--- a/src/mfpml/models/hierarchical_kriging.py
+++ b/src/mfpml/models/hierarchical_kriging.py
@@ -59,7 +59,7 @@ class HierarchicalKriging(_mfGaussianProcess):
         self.sample_yh_scaled = self.normalize_hf_output(self.sample_yh)
         # prediction of low-fidelity at high-fidelity locations
         F = self.predict_lf(X)
-        self.F = (F-self.yh_mean)/self.yh_std
+        self.F = self._scale_trend(F)
         # the noise is learned from this data, or given by the prior
         self.noise = self.noise_prior
         # optimize the hyper parameters
@@ -94,7 +94,7 @@ class HierarchicalKriging(_mfGaussianProcess):
         # calculate the predicted mean
         f = self.predict_lf(X, return_std=False)
         # scale the prediction to high-fidelity
-        f = (f - self.yh_mean) / self.yh_std
+        f = self._scale_trend(f)
         # get the mean
         fmean = np.dot(f, self.beta) + np.dot(knew.T, self.gamma)
         fmean = (fmean * self.yh_std + self.yh_mean).reshape(-1, 1)
@@ -117,6 +117,24 @@ class HierarchicalKriging(_mfGaussianProcess):
             total_unc = np.sqrt(self.epistemic**2 + self.noise**2)
             return fmean, total_unc
 
+    def _scale_trend(self, f: np.ndarray) -> np.ndarray:
+        """Scale low-fidelity predictions like the high-fidelity responses
+
+        Parameters
+        ----------
+        f : np.ndarray
+            low-fidelity predictions
+
+        Returns
+        -------
+        np.ndarray
+            trend, exactly zero where it only differs by rounding
+        """
+        scale = max(abs(self.yh_mean), self.yh_std)
+        f = f - self.yh_mean
+        f = np.where(np.abs(f) <= 1e-14 * scale, 0.0, f)
+        return f / self.yh_std
+
     def _optHyp(self):
         """Optimize the hyperparameters"""
         if self.noise is None:
@@ -207,7 +225,7 @@ class HierarchicalKriging(_mfGaussianProcess):
             # K^(-1)f
             KF = solve(L.T, solve(L, self.F))
             # cholesky decomposition for (F^T *K^(-1)* F)
-            ld = cholesky(np.dot(self.F.T, KF))
+            ld = cholesky(np.dot(self.F.T, KF) + TINY)
             # beta = (F^T *K^(-1)* F)^(-1) * F^T *R^(-1) * Y
             beta = solve(ld.T, solve(ld, np.dot(self.F.T, alpha)))
 
@@ -250,7 +268,7 @@ class HierarchicalKriging(_mfGaussianProcess):
         self.alpha = solve(self.L.T, solve(self.L, self.sample_yh_scaled))
         # K^(-1)f
         self.KF = solve(self.L.T, solve(self.L, self.F))
-        self.ld = cholesky(np.dot(self.F.T, self.KF))
+        self.ld = cholesky(np.dot(self.F.T, self.KF) + TINY)
         # beta = (F^T *K^(-1)* F)^(-1) * F^T *R^(-1) * Y
         self.beta = solve(self.ld.T, solve(
             self.ld, np.dot(self.F.T, self.alpha)))
-- 
2.43.0


From a02791177a8ce013b171738a7b2e241a0b85f6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:30 +0000
Subject: [PATCH 26/34] fix: Sobol samplers accept num_skip=0

---
 src/mfpml/design_of_experiment/mf_samplers.py | 3 ++-
 src/mfpml/design_of_experiment/sf_samplers.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mfpml/design_of_experiment/mf_samplers.py b/src/mfpml/design_of_experiment/mf_samplers.py
index df908e4..5075fe7 100644
--- a/src/mfpml/design_of_experiment/mf_samplers.py
+++ b/src/mfpml/design_of_experiment/mf_samplers.py
@@ -268,7 +268,8 @@ class MFSobolSequence(MultiFidelitySampler):
         """
         sobol_sampler = Sobol(d=self.num_dim, seed=self.seed)
         _ = sobol_sampler.reset()
-        _ = sobol_sampler.fast_forward(n=self.num_skip)
+        if self.num_skip > 0:
+            _ = sobol_sampler.fast_forward(n=self.num_skip)
         # get the samples
         samples = sobol_sampler.random(n=num_sample)
 
diff --git a/src/mfpml/design_of_experiment/sf_samplers.py b/src/mfpml/design_of_experiment/sf_samplers.py
index 8d76d64..ea23b7d 100644
--- a/src/mfpml/design_of_experiment/sf_samplers.py
+++ b/src/mfpml/design_of_experiment/sf_samplers.py
@@ -311,7 +311,8 @@ class SobolSequence(SingleFidelitySampler):
 
         # define the sobol sampler
         sobol_sampler = Sobol(d=self.num_dim, seed=self.seed)
-        _ = sobol_sampler.fast_forward(n=self.num_skip)
+        if self.num_skip > 0:
+            _ = sobol_sampler.fast_forward(n=self.num_skip)
         # get the samples (an np.ndarray)
         samples = sobol_sampler.random(n=num_samples)
 
-- 
2.43.0


From bce2fb1b55d43a0664398992bcae101c59d0eeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:41 +0000
Subject: [PATCH 27/34] fix: low fidelity Currin function is shifted for
 integer points too

---
 src/mfpml/problems/mf_functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mfpml/problems/mf_functions.py b/src/mfpml/problems/mf_functions.py
index 6e4dc26..65cfdc1 100644
--- a/src/mfpml/problems/mf_functions.py
+++ b/src/mfpml/problems/mf_functions.py
@@ -754,7 +754,8 @@ class mf_CurrinExp(MultiFidelityFunctions):
     def lf(x: np.ndarray) -> np.ndarray:
 
         # reshape the input
-        x = np.atleast_2d(x)
+        # float, as the shifts below are lost in an integer array
+        x = np.atleast_2d(np.asarray(x, dtype=float))
 
         # calculate the terms
         xx = x.copy()
-- 
2.43.0


From 3c27e4bf046697dbd2ffaf24f86325231f1f5f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:22 +0000
Subject: [PATCH 28/34] fix: ScaledKriging ignored kernel_bound, the
 discrepancy model used its own kernel and default bounds

---
 src/mfpml/models/scale_kriging.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mfpml/models/scale_kriging.py b/src/mfpml/models/scale_kriging.py
index 15f7c8f..6387059 100644
--- a/src/mfpml/models/scale_kriging.py
+++ b/src/mfpml/models/scale_kriging.py
@@ -80,6 +80,7 @@ class ScaledKriging(_mfGaussianProcess):
         if disc_model is None:
             self.disc_model = GaussianProcessRegression(
                 design_space=design_space,
+                kernel=self.kernel,
                 optimizer=optimizer,
                 optimizer_restart=optimizer_restart,
                 noise_prior=noise_prior
-- 
2.43.0


From a3147d806f0f668552af651bcf659e6b39621286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:09 +0000
Subject: [PATCH 29/34] fix: constant responses whose computed deviation is
 rounding noise are treated as constant

---
 src/mfpml/models/co_kriging.py          | 2 +-
 src/mfpml/models/gaussian_process.py    | 4 ++--
 src/mfpml/models/mf_gaussian_process.py | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mfpml/models/co_kriging.py b/src/mfpml/models/co_kriging.py
index 8da850e..3606920 100644
--- a/src/mfpml/models/co_kriging.py
+++ b/src/mfpml/models/co_kriging.py
@@ -749,7 +749,7 @@ class CoKriging:
         self.yh_mean = np.mean(outputs)
         self.yh_std = np.std(outputs)
         # constant responses have no scale
-        self.yh_std = self.yh_std if self.yh_std > 0 else 1.0
+        self.yh_std = self.yh_std if np.ptp(outputs) > 0 else 1.0
         return (outputs - self.yh_mean) / self.yh_std
 
     @property
diff --git a/src/mfpml/models/gaussian_process.py b/src/mfpml/models/gaussian_process.py
index 95b497f..e003c9f 100644
--- a/src/mfpml/models/gaussian_process.py
+++ b/src/mfpml/models/gaussian_process.py
@@ -355,7 +355,7 @@ class GaussianProcessRegression:
         y_mean = np.mean(Y)
         y_std = np.std(Y)
         # constant responses have no scale
-        y_std = y_std if y_std > 0 else 1.0
+        y_std = y_std if np.ptp(Y) > 0 else 1.0
 
         return (Y - y_mean) / y_std
 
@@ -392,4 +392,4 @@ class GaussianProcessRegression:
         """
         y_std = np.std(self.sample_y)
         # constant responses have no scale
-        return y_std if y_std > 0 else 1.0
+        return y_std if np.ptp(self.sample_y) > 0 else 1.0
diff --git a/src/mfpml/models/mf_gaussian_process.py b/src/mfpml/models/mf_gaussian_process.py
index 29bee23..fa5d696 100644
--- a/src/mfpml/models/mf_gaussian_process.py
+++ b/src/mfpml/models/mf_gaussian_process.py
@@ -171,7 +171,7 @@ class _mfGaussianProcess:
         self.yh_mean = np.mean(outputs)
         self.yh_std = np.std(outputs)
         # constant responses have no scale
-        self.yh_std = self.yh_std if self.yh_std > 0 else 1.0
+        self.yh_std = self.yh_std if np.ptp(outputs) > 0 else 1.0
         return (outputs - self.yh_mean) / self.yh_std
 
     @property
-- 
2.43.0


From a70a2387da24f8c23faabef778561da15a30d466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:09 +0000
Subject: [PATCH 30/34] fix: CoKriging with constant responses kept no variance
 and lost interpolation

---
 src/mfpml/models/co_kriging.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/mfpml/models/co_kriging.py b/src/mfpml/models/co_kriging.py
index 3606920..cdc582b 100644
--- a/src/mfpml/models/co_kriging.py
+++ b/src/mfpml/models/co_kriging.py
@@ -11,6 +11,8 @@ from .kernels import RBF
 
 # floor of the process variance, it vanishes for constant responses
 TINY = np.finfo(float).tiny
+# smallest process variance of the levels
+EPS = np.finfo(float).eps
 
 
 class _GP:
@@ -198,6 +200,8 @@ class _GP:
         self.sigma2 = np.dot((self.sample_y_scaled -
                               np.dot(self.f, self.beta)).T, self.gamma) \
             / self.num_samples
+        # both levels keep a variance, also for constant responses
+        self.sigma2 = np.maximum(self.sigma2, EPS)
 
         # step 3: get the optimal log likelihood
         self.logp = (-0.5 * self.num_samples * self.sigma2 -
@@ -655,6 +659,8 @@ class CoKriging:
         gamma = solve(L.T, solve(L, (self.diff_y - self.mu_d)))
         self.sigma2 = (np.dot((self.diff_y - self.mu_d).T,
                        gamma) / self._num_xh).item()
+        # both levels keep a variance, also for constant responses
+        self.sigma2 = max(self.sigma2, EPS)
         self.logp = (-0.5 * self._num_xh * np.log(self.sigma2) -
                      np.sum(np.log(np.diag(L)))).item()
         # cov matrix for Co-Kriging
@@ -689,8 +695,11 @@ class CoKriging:
         # all y values
         self.y = np.concatenate(
             (self.sample_yl_scaled, self.sample_yh_scaled), axis=0)
+        # the nugget follows the scale of the covariances, they vanish for
+        # constant responses
+        scale = min(1.0, np.mean(np.diag(self.C)))
         self.LC = cholesky(
-            self.C + np.eye(self.C.shape[1]) * 10**-10)
+            self.C + np.eye(self.C.shape[1]) * 10**-10 * scale)
         oneC = np.ones((self.C.shape[0], 1))
         self.mu = oneC.T.dot(
             solve(self.LC.T, solve(self.LC, self.y))
-- 
2.43.0


From f9eb830e2f0c7eebabadb4e0fc4d3d9a18be2c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:09 +0000
Subject: [PATCH 31/34] fix: the kernel nugget depended on the position of a
 point in the batch

---
 src/mfpml/models/kernels.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/mfpml/models/kernels.py b/src/mfpml/models/kernels.py
index 1c2dd30..d5b7d32 100644
--- a/src/mfpml/models/kernels.py
+++ b/src/mfpml/models/kernels.py
@@ -131,7 +131,7 @@ class RBF(KernelCore):
         XY = XY = np.dot(np.sqrt(self.param) * X, (np.sqrt(self.param) * Y).T)
         dist = X_sq + Y_sq - 2 * XY
 
-        return np.exp(-dist) + np.eye(X.shape[0], Y.shape[0]) * 10 ** -10
+        return np.exp(-dist) + self._nugget(X, Y)
 
     def __call__(self,
                  X: np.ndarray,
@@ -166,7 +166,29 @@ class RBF(KernelCore):
         XY = np.dot(np.sqrt(param) * X, (np.sqrt(param) * Y).T)
         dist = X_sq + Y_sq - 2 * XY
 
-        return np.exp(-dist) + np.eye(X.shape[0], Y.shape[0]) * 10 ** -10
+        return np.exp(-dist) + self._nugget(X, Y)
+
+    @staticmethod
+    def _nugget(X: np.ndarray, Y: np.ndarray) -> np.ndarray:
+        """Stabilising term of every point with itself
+
+        Parameters
+        ----------
+        X : np.ndarray
+            array of the first samples shape=((n1, num_dims))
+        Y : np.ndarray
+            array of the second samples shape=((n2, num_dims))
+
+        Returns
+        -------
+        np.ndarray
+            term to be added to the kernel matrix, it is on the main diagonal
+            for the matrix of a point set, and at the coinciding points of
+            two sets, wherever they are in the sets
+        """
+        if np.array_equal(X, Y):
+            return np.eye(X.shape[0]) * 10 ** -10
+        return (cdist(X, Y) == 0) * 10 ** -10
 
     def set_params(self, params) -> None:
         """
-- 
2.43.0


From 383805a6a44518b152bd8819daf0c8225c16f718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:51 +0000
Subject: [PATCH 32/34] fix: an unknown fidelity was not refused by the
 multi-fidelity acquisitions and correlations

---
 src/mfpml/models/mf_gaussian_process.py  | 2 +-
 src/mfpml/optimization/mf_acqusitions.py | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/mfpml/models/mf_gaussian_process.py b/src/mfpml/models/mf_gaussian_process.py
index fa5d696..a5dbdbc 100644
--- a/src/mfpml/models/mf_gaussian_process.py
+++ b/src/mfpml/models/mf_gaussian_process.py
@@ -137,7 +137,7 @@ class _mfGaussianProcess:
         elif fidelity == 1:
             return self.lfGP.kernel.get_kernel_matrix(X, Xprime)
         else:
-            ValueError("Unknown fidelity input.")
+            raise ValueError("Unknown fidelity input.")
 
     def normalize_input(self, inputs: np.ndarray) -> np.ndarray:
         """Normalize samples to range [0, 1]
diff --git a/src/mfpml/optimization/mf_acqusitions.py b/src/mfpml/optimization/mf_acqusitions.py
index 0be10b3..a62b949 100644
--- a/src/mfpml/optimization/mf_acqusitions.py
+++ b/src/mfpml/optimization/mf_acqusitions.py
@@ -119,7 +119,7 @@ class AugmentedEI(MFUnConsAcq):
         elif fidelity == 1:
             alpha3 = cost_ratio
         else:
-            ValueError('Unknown fidelity input.')
+            raise ValueError('Unknown fidelity input.')
         # calculate the augmented expected improvement
         z = (fmin - pre) / std
         aei = (fmin - pre) * norm.cdf(z) + std * norm.pdf(z)
@@ -294,7 +294,7 @@ class VFEI(MFUnConsAcq):
             _, std_lf = mf_surrogate.predict_lf(x, return_std=True)
             s = np.abs(mf_surrogate.beta) * std_lf
         else:
-            ValueError('Unknown fidelity input.')
+            raise ValueError('Unknown fidelity input.')
         # expected improvement
         z = (fmin - pre) / (s + 1e-8)
         vfei = (fmin - pre) * norm.cdf(z) + s * norm.pdf(z)
@@ -421,7 +421,7 @@ class VFLCB(MFUnConsAcq):
         elif fidelity == 1:
             std = std_lf * cr
         else:
-            ValueError('Unknown fidelity input.')
+            raise ValueError('Unknown fidelity input.')
         # vflcb
         vflcb = self.kappa[0] * mean_hf - self.kappa[1] * std
         return vflcb.ravel()
@@ -557,6 +557,8 @@ class ExtendedPI(MFUnConsAcq):
             cr = cost_ratio
             eta = np.prod(mf_surrogate._eval_corr(
                 x, mf_surrogate._get_sample_lf, fidelity=1), axis=1)
+        else:
+            raise ValueError('Unknown fidelity input.')
         return -pi*corr*cr*eta.reshape(-1, 1)
 
     def query(self, mf_surrogate: _mfGaussianProcess,
-- 
2.43.0


From bf478225f92f97be685d276ae8cf4a1df297c0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:34 +0000
Subject: [PATCH 33/34] fix: AugmentedEI and ExtendedPI were undefined where
 both fidelities agree without deviation

---
 src/mfpml/optimization/mf_acqusitions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mfpml/optimization/mf_acqusitions.py b/src/mfpml/optimization/mf_acqusitions.py
index a62b949..e874a50 100644
--- a/src/mfpml/optimization/mf_acqusitions.py
+++ b/src/mfpml/optimization/mf_acqusitions.py
@@ -123,9 +123,9 @@ class AugmentedEI(MFUnConsAcq):
         # calculate the augmented expected improvement
         z = (fmin - pre) / std
         aei = (fmin - pre) * norm.cdf(z) + std * norm.pdf(z)
-        aei[std < np.finfo(float).eps] = 0.
         # return the augmented expected improvement
         aei = aei * alpha1 * alpha3
+        aei[std < np.finfo(float).eps] = 0.
         return (-aei).ravel()
 
     def query(self, mf_surrogate: _mfGaussianProcess,
@@ -547,7 +547,6 @@ class ExtendedPI(MFUnConsAcq):
         z = (fmin - pre) / std
         # probability of improvement
         pi = norm.cdf(z)
-        pi[std < np.finfo(float).eps] = 0
         corr = self.corr(x, mf_surrogate, fidelity)
         if fidelity == 0:
             cr = 1
@@ -559,7 +558,9 @@ class ExtendedPI(MFUnConsAcq):
                 x, mf_surrogate._get_sample_lf, fidelity=1), axis=1)
         else:
             raise ValueError('Unknown fidelity input.')
-        return -pi*corr*cr*eta.reshape(-1, 1)
+        epi = pi*corr*cr*eta.reshape(-1, 1)
+        epi[std < np.finfo(float).eps] = 0
+        return -epi
 
     def query(self, mf_surrogate: _mfGaussianProcess,
               cost_ratio: float = 1.0,
-- 
2.43.0


From 413c6401027319bc5d595258ccc2290c4712f13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:05 +0000
Subject: [PATCH 34/34] fix: PSO and DE updated the array the objective
 returned in place

---
 src/mfpml/optimization/evolutionary_algorithms.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mfpml/optimization/evolutionary_algorithms.py b/src/mfpml/optimization/evolutionary_algorithms.py
index 6311265..386383e 100644
--- a/src/mfpml/optimization/evolutionary_algorithms.py
+++ b/src/mfpml/optimization/evolutionary_algorithms.py
@@ -280,7 +280,7 @@ class PSO(EABase):
         self.obj = np.reshape(self.obj, (self.num_pop, 1))
 
         # find the best values for individuals
-        self.pop_best = self.obj
+        self.pop_best = self.obj.copy()
         self.pop_best_x = self.x
         # find the best value for population
         self.gen_best[0, :] = self._gen_best_obj(obj=self.obj)
@@ -424,7 +424,8 @@ class DE(EABase):
         self.v = np.zeros([self.num_pop, self.num_dim])
         self.u = np.zeros([self.num_pop, self.num_dim])
         self.obj = self.func(self.x)
-        self.obj = np.reshape(self.obj, (self.num_pop, 1))
+        # own copy, it is updated in place by the selection
+        self.obj = np.array(self.obj).reshape(self.num_pop, 1)
         # find the best value for population
         self.gen_best[0, :] = self._gen_best_obj(obj=self.obj)
         self.gen_best_x[0, :] = self._gen_best_x(pop=self.x, obj=self.obj)
-- 
2.43.0

