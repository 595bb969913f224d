From 36283e02f9d33126a9db7e4b09413c077293b552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:07 +0000
Subject: [PATCH 01/30] fix: multi-fidelity sampling emptied the caller's
 num_samples list

---
 src/mfpml/design_of_experiment/mf_samplers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mfpml/design_of_experiment/mf_samplers.py b/src/mfpml/design_of_experiment/mf_samplers.py
index 5b572f3..a47b432 100644
--- a/src/mfpml/design_of_experiment/mf_samplers.py
+++ b/src/mfpml/design_of_experiment/mf_samplers.py
@@ -58,6 +58,8 @@ class MultiFidelitySampler:
 
         # initialize the samples
         data = []
+        # work on a copy, the list of the caller should not be consumed
+        num_samples = list(num_samples)
         # check the number of samples
         self._mf_samples_rules(num_samples)
 
-- 
2.43.0


From 1087121f9c9a81827acfe789a16004fc2b9829c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:07 +0000
Subject: [PATCH 02/30] fix: nested multi-fidelity LHS ignored its seed for the
 nested subset

---
 src/mfpml/design_of_experiment/mf_samplers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mfpml/design_of_experiment/mf_samplers.py b/src/mfpml/design_of_experiment/mf_samplers.py
index a47b432..38783cf 100644
--- a/src/mfpml/design_of_experiment/mf_samplers.py
+++ b/src/mfpml/design_of_experiment/mf_samplers.py
@@ -213,7 +213,8 @@ class MFLatinHyperCube(MultiFidelitySampler):
                             data_higher_fidelity) -> None:
 
         # generate index randomly for nested sampling without repeating
-        index = np.random.choice(
+        # (from the seed of the design, not from the global random state)
+        index = np.random.RandomState(self.seed).choice(
             np.arange(data_higher_fidelity.shape[0]),
             size=num_sample,
             replace=False
-- 
2.43.0


From 6e92e8b25a5f3acdc75522ba1788c28788b01337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:07 +0000
Subject: [PATCH 03/30] fix: RandomSampler reseeded the global random state

---
 src/mfpml/design_of_experiment/sf_samplers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mfpml/design_of_experiment/sf_samplers.py b/src/mfpml/design_of_experiment/sf_samplers.py
index 891412d..dc27fb1 100644
--- a/src/mfpml/design_of_experiment/sf_samplers.py
+++ b/src/mfpml/design_of_experiment/sf_samplers.py
@@ -252,8 +252,8 @@ class RandomSampler(SingleFidelitySampler):
         # record the seed
         self.seed = seed
         # fix the seed for reproducibility
-        np.random.seed(self.seed)
-        samples = np.random.random((num_samples, self.num_dim))
+        rng = np.random.RandomState(self.seed)
+        samples = rng.random_sample((num_samples, self.num_dim))
 
         # scale the samples
         self.samples = self.scale_samples(samples=samples)
-- 
2.43.0


From 18e3da3d050b3842cc33687005944c0ce0df3789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:07 +0000
Subject: [PATCH 04/30] fix: SobolSequence generated 2**num_samples points
 before sampling

---
 src/mfpml/design_of_experiment/sf_samplers.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/mfpml/design_of_experiment/sf_samplers.py b/src/mfpml/design_of_experiment/sf_samplers.py
index dc27fb1..f32ad17 100644
--- a/src/mfpml/design_of_experiment/sf_samplers.py
+++ b/src/mfpml/design_of_experiment/sf_samplers.py
@@ -311,9 +311,6 @@ class SobolSequence(SingleFidelitySampler):
 
         # define the sobol sampler
         sobol_sampler = Sobol(d=self.num_dim, seed=self.seed)
-        # generate lots of samples first
-        sobol_sampler.random_base2(m=num_samples)
-        _ = sobol_sampler.reset()
         _ = sobol_sampler.fast_forward(n=self.num_skip)
         # get the samples (an np.ndarray)
         samples = sobol_sampler.random(n=num_samples)
-- 
2.43.0


From e34dd7bbde0c8c466fc83325ed3f37e43ff5421a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:07 +0000
Subject: [PATCH 05/30] fix: PSO and DE reported zeros as best results after
 early stopping

---
 src/mfpml/optimization/evolutionary_algorithms.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mfpml/optimization/evolutionary_algorithms.py b/src/mfpml/optimization/evolutionary_algorithms.py
index 3b53049..7f46724 100644
--- a/src/mfpml/optimization/evolutionary_algorithms.py
+++ b/src/mfpml/optimization/evolutionary_algorithms.py
@@ -235,8 +235,8 @@ class PSO(EABase):
 
         # get the final results
         results = {
-            "best_x": self.gen_best_x[-1, :],
-            "best_y": self.gen_best[-1, :],
+            "best_x": self.gen_best_x[iter + 1, :],
+            "best_y": self.gen_best[iter + 1, :],
             "best_x_historical": self.gen_best_x,
             "best_y_historical": self.gen_best,
             "all_samples": self.samples,
@@ -402,8 +402,8 @@ class DE(EABase):
                     break
         # get the final results
         results = {
-            "best_x": self.gen_best_x[-1, :],
-            "best_y": self.gen_best[-1, :],
+            "best_x": self.gen_best_x[iter + 1, :],
+            "best_y": self.gen_best[iter + 1, :],
             "best_x_historical": self.gen_best_x,
             "best_y_historical": self.gen_best,
             "all_samples": self.samples,
-- 
2.43.0


From f69e814c2824f869e59f6aa66b52466ad44e3cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:07 +0000
Subject: [PATCH 06/30] fix: PSO and DE lost the optimum on NaN or reused
 objective outputs

---
 .../optimization/evolutionary_algorithms.py   | 33 ++++++++++++++-----
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/mfpml/optimization/evolutionary_algorithms.py b/src/mfpml/optimization/evolutionary_algorithms.py
index 7f46724..1138576 100644
--- a/src/mfpml/optimization/evolutionary_algorithms.py
+++ b/src/mfpml/optimization/evolutionary_algorithms.py
@@ -62,6 +62,27 @@ class EABase:
 
         return x
 
+    def _evaluate(self, x: np.ndarray) -> np.ndarray:
+        """evaluate the objective for a population
+
+        The values are copied, as the objective may reuse its output array,
+        and NaN (a failed evaluation) is the worst possible value.
+
+        Parameters
+        ----------
+        x : np.ndarray
+            population
+
+        Returns
+        -------
+        np.ndarray
+            objective values with shape (num_pop, 1)
+        """
+        obj = np.array(self.func(x), dtype=float).reshape(self.num_pop, 1)
+        obj[np.isnan(obj)] = np.inf
+
+        return obj
+
     def _gen_best_x(self, pop: np.ndarray, obj: np.ndarray) -> np.ndarray:
         """_summary_
 
@@ -276,8 +297,7 @@ class PSO(EABase):
         """calculate the objective values for the initial population"""
         self.x = self._location_initialzer()
         self.__velocity_initialzer()
-        self.obj = self.func(self.x)
-        self.obj = np.reshape(self.obj, (self.num_pop, 1))
+        self.obj = self._evaluate(self.x)
 
         # find the best values for individuals
         self.pop_best = self.obj
@@ -310,8 +330,7 @@ class PSO(EABase):
         self.samples[iter + 1, :, :] = self.x.copy()
 
     def __update_obj(self, iter: int) -> None:
-        self.obj = self.func(self.x)
-        self.obj = np.reshape(self.obj, (self.num_pop, 1))
+        self.obj = self._evaluate(self.x)
         self.responses[iter + 1, :, :] = self.obj.copy()
 
     def __update_pop_optimum(self) -> None:
@@ -423,8 +442,7 @@ class DE(EABase):
         self.x = self._location_initialzer()
         self.v = np.zeros([self.num_pop, self.num_dim])
         self.u = np.zeros([self.num_pop, self.num_dim])
-        self.obj = self.func(self.x)
-        self.obj = np.reshape(self.obj, (self.num_pop, 1))
+        self.obj = self._evaluate(self.x)
         # find the best value for population
         self.gen_best[0, :] = self._gen_best_obj(obj=self.obj)
         self.gen_best_x[0, :] = self._gen_best_x(pop=self.x, obj=self.obj)
@@ -492,8 +510,7 @@ class DE(EABase):
             raise ValueError("This strategy is not defined! \n ")
 
     def __update_obj(self, iter: int) -> None:
-        self.obj_u = self.func(self.u)
-        self.obj_u = np.reshape(self.obj_u, (self.num_pop, 1))
+        self.obj_u = self._evaluate(self.u)
         # decide the next parent population
         for ii in range(self.num_pop):
             if self.obj_u[ii, :] < self.obj[ii, :]:
-- 
2.43.0


From 420d2779901196d3de7714758658517b8668036b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:07 +0000
Subject: [PATCH 07/30] fix: a crash while saving step results destroyed the
 last checkpoint

---
 src/mfpml/optimization/evolutionary_algorithms.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mfpml/optimization/evolutionary_algorithms.py b/src/mfpml/optimization/evolutionary_algorithms.py
index 1138576..73620aa 100644
--- a/src/mfpml/optimization/evolutionary_algorithms.py
+++ b/src/mfpml/optimization/evolutionary_algorithms.py
@@ -1,3 +1,4 @@
+import os
 import pickle
 from typing import Any
 
@@ -144,8 +145,12 @@ class EABase:
             "gen": self.num_gen,
         }
 
-        with open("step_results.pickle", "wb") as f:
+        # never leave a torn checkpoint: write aside, then replace
+        with open("step_results.pickle.tmp", "wb") as f:
             pickle.dump(results, f)
+            f.flush()
+            os.fsync(f.fileno())
+        os.replace("step_results.pickle.tmp", "step_results.pickle")
 
     def print_info(self, iter: int) -> None:
         print(
-- 
2.43.0


From 64a4c2a77299e80ee06612efbaa05cdefcfc69a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:07 +0000
Subject: [PATCH 08/30] fix: changing the training arrays changed predictions
 of a trained GP

---
 src/mfpml/models/gaussian_process.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mfpml/models/gaussian_process.py b/src/mfpml/models/gaussian_process.py
index 0b98649..caacd32 100644
--- a/src/mfpml/models/gaussian_process.py
+++ b/src/mfpml/models/gaussian_process.py
@@ -80,10 +80,10 @@ class GaussianProcessRegression:
         # get number samples
         self.num_samples = X.shape[0]
         # the original sample_x
-        self.sample_x = X
+        self.sample_x = X.copy()
         self.sample_scaled_x = self.normalize_input(X, self.bounds)
         # get the response
-        self.sample_y = Y.reshape(-1, 1)
+        self.sample_y = Y.reshape(-1, 1).copy()
         self.sample_y_scaled = self.normalize_output(self.sample_y)
 
         # optimizer hyper-parameters
-- 
2.43.0


From 9a0e6185e4b7b892ccab5c763aca0b939ffb3c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:07 +0000
Subject: [PATCH 09/30] fix: CoKriging rescaled its noise at every prediction
 and retraining

---
 src/mfpml/models/co_kriging.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/mfpml/models/co_kriging.py b/src/mfpml/models/co_kriging.py
index ff5ffec..8be299e 100644
--- a/src/mfpml/models/co_kriging.py
+++ b/src/mfpml/models/co_kriging.py
@@ -351,6 +351,7 @@ class CoKriging:
             noise_prior=noise_prior)
 
         # noise (unscaled, it will be scaled later)
+        self.noise_prior = noise_prior
         self.noise = noise_prior
 
     def train(self, samples: List, responses: List) -> None:
@@ -377,11 +378,13 @@ class CoKriging:
         self.sample_xl_scaled = self.normalize_input(self.sample_xl.copy())
         self.sample_yh_scaled = self.normalize_hf_output(self.sample_yh.copy())
         self.sample_yl_scaled = (self.sample_yl - self.yh_mean) / self.yh_std
-        # scale the noise value
-        if self.noise is not None:
-            self.noise = self.noise / self.yh_std
-            # update the noise value of the low-fidelity model
-            self.lfGP.noise = self.noise
+        # scale the noise value (always from the prior, not from last train)
+        if self.noise_prior is None:
+            self.noise = None
+        else:
+            self.noise = self.noise_prior / self.yh_std
+        # update the noise value of the low-fidelity model
+        self.lfGP.noise = self.noise
         # train the low-fidelity model
         start_time = time.time()
 
@@ -457,8 +460,8 @@ class CoKriging:
                 - c.T.dot(solve(self.LC.T, solve(self.LC, c)))
             )
             self.epis_std = np.sqrt(np.maximum(np.diag(s2), 0))*self.yh_std
-            self.noise = self.noise * self.yh_std
-            total_std = np.sqrt((self.epis_std**2 + self.noise**2))
+            noise_std = self.noise * self.yh_std
+            total_std = np.sqrt((self.epis_std**2 + noise_std**2))
             return fmean.reshape(-1, 1), total_std.reshape(-1, 1)
 
     def predict_lf(
@@ -569,7 +572,7 @@ class CoKriging:
                 theta = params[i, 2:]
             else:
                 rho = params[i, 0]
-                noise_sigma = self.noise / self.yh_std
+                noise_sigma = self.noise
                 theta = params[i, 1:]
             # correlation matrix R
             K = self.kernel(self.sample_xh_scaled,
-- 
2.43.0


From 5242e34c9a04231ac28d5a0b52517580885b6ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:07 +0000
Subject: [PATCH 10/30] fix: retraining kept the noise estimated from earlier
 training data

---
 src/mfpml/models/gaussian_process.py     | 3 +++
 src/mfpml/models/hierarchical_kriging.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/mfpml/models/gaussian_process.py b/src/mfpml/models/gaussian_process.py
index caacd32..4ff21bc 100644
--- a/src/mfpml/models/gaussian_process.py
+++ b/src/mfpml/models/gaussian_process.py
@@ -61,6 +61,7 @@ class GaussianProcessRegression:
         # basis function
         self.regr = regr
         # noisy data prior or not
+        self.noise_prior = noise_prior
         self.noise = noise_prior
 
     def train(self,
@@ -77,6 +78,8 @@ class GaussianProcessRegression:
         """
         # record the training time for the model
         time_start = time.time()
+        # estimate the noise anew if it is not given
+        self.noise = self.noise_prior
         # get number samples
         self.num_samples = X.shape[0]
         # the original sample_x
diff --git a/src/mfpml/models/hierarchical_kriging.py b/src/mfpml/models/hierarchical_kriging.py
index 8c43517..8989d80 100644
--- a/src/mfpml/models/hierarchical_kriging.py
+++ b/src/mfpml/models/hierarchical_kriging.py
@@ -29,6 +29,7 @@ class HierarchicalKriging(_mfGaussianProcess):
         self.optimizer_restart = optimizer_restart
         self.num_dim = design_space.shape[0]
         self.kernel = RBF(theta=np.zeros(self.num_dim), bounds=kernel_bound)
+        self.noise_prior = noise_prior
         self.noise = noise_prior
         # define the low-fidelity model
         self.lfGP = GP(design_space=design_space,
@@ -46,6 +47,8 @@ class HierarchicalKriging(_mfGaussianProcess):
         Y : np.ndarray
             array of high-fidelity responses
         """
+        # estimate the noise anew if it is not given
+        self.noise = self.noise_prior
         # get samples
         self.sample_xh = X
         self.sample_yh = Y
-- 
2.43.0


From 339e3b1849043921a9f0b994d97c22959a23b2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:07 +0000
Subject: [PATCH 11/30] fix: ScaledKriging scaled the discrepancy instead of
 the lf prediction

---
 src/mfpml/models/scale_kriging.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mfpml/models/scale_kriging.py b/src/mfpml/models/scale_kriging.py
index 5b0b92f..15f7c8f 100644
--- a/src/mfpml/models/scale_kriging.py
+++ b/src/mfpml/models/scale_kriging.py
@@ -122,8 +122,8 @@ class ScaledKriging(_mfGaussianProcess):
             prediction of high-fidelity
         """
         if not return_std:
-            return self.disc_model.predict(X) * self.rho \
-                + self.lfGP.predict(X)
+            return self.rho * self.lfGP.predict(X) \
+                + self.disc_model.predict(X)
         else:
             pre_lf, std_lf = self.lfGP.predict(X, return_std)
             pre_disc, std_disc = self.disc_model.predict(X, return_std)
-- 
2.43.0


From 1f1da2ea9be790cfc0a17acc00daa9cd89660d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:25 +0000
Subject: [PATCH 12/30] fix: BO lost the incumbent when training failed after
 an evaluation

---
 src/mfpml/optimization/mf_uncons_bo.py | 7 ++++---
 src/mfpml/optimization/sf_cons_bo.py   | 5 +++--
 src/mfpml/optimization/sf_uncons_bo.py | 5 +++--
 3 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/mfpml/optimization/mf_uncons_bo.py b/src/mfpml/optimization/mf_uncons_bo.py
index dd685b9..04d2231 100644
--- a/src/mfpml/optimization/mf_uncons_bo.py
+++ b/src/mfpml/optimization/mf_uncons_bo.py
@@ -94,14 +94,15 @@ class mfUnConsBayesOpt:
                 # update the samples
                 self.sample[1] = np.vstack((self.sample[1], update_x))
                 self.response[1] = np.vstack((self.response[1], update_y))
+            # update the params before training: the evaluation counts even
+            # when the training fails
+            self._update_para(update_x=update_x,
+                              update_y=update_y, fidelity=fidelity)
             # update the surrogate model
             self.surrogate.train(self.sample, self.response)
             print("update_x: ", update_x)
             print("update_y: ", update_y)
             print("fidelity: ", fidelity)
-            # update the params
-            self._update_para(update_x=update_x,
-                              update_y=update_y, fidelity=fidelity)
 
             # iteration
             iteration += 1
diff --git a/src/mfpml/optimization/sf_cons_bo.py b/src/mfpml/optimization/sf_cons_bo.py
index 515cbe1..ff7efc3 100644
--- a/src/mfpml/optimization/sf_cons_bo.py
+++ b/src/mfpml/optimization/sf_cons_bo.py
@@ -69,6 +69,9 @@ class BayesConsOpt(ABC):
             self.sample = np.vstack((self.sample, update_x))
             self.obj_response = np.vstack((self.obj_response, update_obj))
             self.cons_response = np.vstack((self.cons_response, update_cons))
+            # update paras before training: the evaluation counts even when
+            # the training fails
+            self._update_para()
 
             # update surrogate
             self.obj_surrogate.train(X=self.sample,
@@ -81,8 +84,6 @@ class BayesConsOpt(ABC):
             print(f"update_x: {update_x}")
             print(f"update_obj: {update_obj}")
             print(f"update_cons: {update_cons}")
-            # update paras
-            self._update_para()
             iteration = iteration + 1
             if self.verbose:
                 self.__print_info(iteration=iteration)
diff --git a/src/mfpml/optimization/sf_uncons_bo.py b/src/mfpml/optimization/sf_uncons_bo.py
index e0f17da..b2f8158 100644
--- a/src/mfpml/optimization/sf_uncons_bo.py
+++ b/src/mfpml/optimization/sf_uncons_bo.py
@@ -65,11 +65,12 @@ class BayesUnConsOpt(ABC):
             # update samples
             self.sample = np.vstack((self.sample, update_x))
             self.response = np.vstack((self.response, update_y))
+            # update paras before training: the evaluation counts even when
+            # the training fails
+            self._update_para()
             # update surrogate
             self.surrogate.train(X=self.sample,
                                  Y=self.response)
-            # update paras
-            self._update_para()
             iteration = iteration + 1
             if self.verbose:
                 self.__print_info(iteration=iteration)
-- 
2.43.0


From 1169b6088b05eb71123fd16d2050f17b87671356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:40 +0000
Subject: [PATCH 13/30] fix: constrained BO reported infeasible points tied
 with the best one

---
 src/mfpml/optimization/sf_cons_bo.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mfpml/optimization/sf_cons_bo.py b/src/mfpml/optimization/sf_cons_bo.py
index ff7efc3..65717d3 100644
--- a/src/mfpml/optimization/sf_cons_bo.py
+++ b/src/mfpml/optimization/sf_cons_bo.py
@@ -130,7 +130,9 @@ class BayesConsOpt(ABC):
                 == self.problem.num_cons)
             # get the best feasible sample
             self.best = np.min(self.init_obj_response[feasible_index])
-            min_index = np.where(self.init_obj_response == self.best)[0]
+            # rows which are not feasible can have the same objective
+            min_index = np.argmin(self.init_obj_response[feasible_index])
+            min_index = feasible_index[0][[min_index]]
             # get the best feasible sample
             self.best_x = self.init_sample[min_index, :]
             # record the optimization history
@@ -155,7 +157,9 @@ class BayesConsOpt(ABC):
                 == self.problem.num_cons)
             # get the best feasible sample
             min_y = np.min(self.obj_response[feasible_index])
-            min_index = np.where(self.obj_response == min_y)[0]
+            # rows which are not feasible can have the same objective
+            min_index = np.argmin(self.obj_response[feasible_index])
+            min_index = feasible_index[0][[min_index]]
             print(f"min_index: {min_index}")
             # update best
             self.best = min_y
-- 
2.43.0


From 4bca93f0b7dcb7bb4e54af45203ebfa88fc084bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:40 +0000
Subject: [PATCH 14/30] fix: constrained EI failed for batches so PSO and DE
 could not search it

---
 src/mfpml/optimization/sf_cons_acqusitions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mfpml/optimization/sf_cons_acqusitions.py b/src/mfpml/optimization/sf_cons_acqusitions.py
index a13115f..1d304d6 100644
--- a/src/mfpml/optimization/sf_cons_acqusitions.py
+++ b/src/mfpml/optimization/sf_cons_acqusitions.py
@@ -108,7 +108,7 @@ class CEI(SFConsAcq):
         # get the probability of feasibility
         pof = self.pof(x, cons_surrogates)
         # get the expected improvement of constraints
-        cei = -ei_obj * pof
+        cei = -ei_obj * pof.reshape(ei_obj.shape)
 
         return cei
 
@@ -131,8 +131,9 @@ class CEI(SFConsAcq):
         mse_g = np.zeros((x.shape[0], num_cons))
         for ii in range(num_cons):
             cons_surrogate = cons_surrogates[ii]
-            u_g[:, ii], mse_g[:, ii] = cons_surrogate.predict(
-                x, return_std=True)
+            u_hat, mse_hat = cons_surrogate.predict(x, return_std=True)
+            u_g[:, ii] = u_hat.ravel()
+            mse_g[:, ii] = mse_hat.ravel()
 
         # probability of feasibility
         pof = np.prod(norm.cdf(0-u_g / (mse_g + 1e-9)), axis=1)
-- 
2.43.0


From 1ff1e30f648c2f14ad87036d8863e1d0d221a216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:05 +0000
Subject: [PATCH 15/30] fix: creating an Ackley or Thevenot problem changed
 existing instances

---
 src/mfpml/problems/functions.py    | 10 +++++-----
 src/mfpml/problems/sf_functions.py | 19 +++++++------------
 2 files changed, 12 insertions(+), 17 deletions(-)

diff --git a/src/mfpml/problems/functions.py b/src/mfpml/problems/functions.py
index bb09e83..c1e0a54 100644
--- a/src/mfpml/problems/functions.py
+++ b/src/mfpml/problems/functions.py
@@ -227,7 +227,7 @@ class Functions(ABC):
         dimension: int
             dimension of the problem
         """
-        return self.__class__.num_dim
+        return self.num_dim
 
     @property
     def _get_low_fidelity(self) -> list:
@@ -240,7 +240,7 @@ class Functions(ABC):
 
         """
 
-        return self.__class__.low_fidelity
+        return self.low_fidelity
 
     @property
     def _optimum(self) -> float:
@@ -252,7 +252,7 @@ class Functions(ABC):
             name of the class
 
         """
-        return self.__class__.optimum
+        return self.optimum
 
     @property
     def _optimum_variable(self) -> list:
@@ -264,7 +264,7 @@ class Functions(ABC):
             Best design scheme
 
         """
-        return self.__class__.optimum_scheme
+        return self.optimum_scheme
 
     @property
     def _input_domain(self) -> np.ndarray:
@@ -274,7 +274,7 @@ class Functions(ABC):
         -------
 
         """
-        return self.__class__.input_domain
+        return self.input_domain
 
 
 class FunctionWrapper:
diff --git a/src/mfpml/problems/sf_functions.py b/src/mfpml/problems/sf_functions.py
index 197fb0b..a046d5b 100644
--- a/src/mfpml/problems/sf_functions.py
+++ b/src/mfpml/problems/sf_functions.py
@@ -380,7 +380,7 @@ class Thevenot(Functions):
         )
         self.m = m
         self.beta = beta
-        # update the information of function class
+        # update the information of this instance
         self.__update_parameters()
 
     def f(self, x: np.ndarray) -> np.ndarray:
@@ -404,14 +404,12 @@ class Thevenot(Functions):
 
     def __update_parameters(self):
 
-        self.__class__.num_dim = self.num_dim
-        self.__class__.optimum_scheme = np.array(
+        self.optimum_scheme = np.array(
             [0 for i in range(1, self.num_dim + 1)]
         ).tolist()
-        self.__class__.optimum = self.f(
+        self.optimum = self.f(
             np.array([0 for i in range(1, self.num_dim + 1)])
         )
-        self.__class__.input_domain = self.input_domain
 
 
 class Ackley(Functions):
@@ -453,7 +451,7 @@ class Ackley(Functions):
         self.a = a
         self.b = b
         self.c = c
-        # update the information of function class
+        # update the information of this instance
         self.__update_parameters()
 
     def get_param(self) -> dict[str, float]:
@@ -483,21 +481,18 @@ class Ackley(Functions):
 
     def __update_parameters(self) -> None:
         """
-        update the class variable information
+        update the information of this instance
         Returns
         -------
 
         """
 
-        self.__class__.num_dim = self.num_dim
-
-        self.__class__.optimum_scheme = np.array(
+        self.optimum_scheme = np.array(
             [0 for _ in range(1, self.num_dim + 1)]
         ).tolist()
-        self.__class__.optimum = self.f(
+        self.optimum = self.f(
             np.array([0 for _ in range(1, self.num_dim + 1)])
         )
-        self.__class__.input_domain = self.input_domain
 
 
 class AckleyN2(Functions):
-- 
2.43.0


From 07f98afb891ba7cbe07ca31e2654c71bf9e57ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:05 +0000
Subject: [PATCH 16/30] fix: multi-fidelity BO with CoKriging failed because of
 a missing bound

---
 src/mfpml/models/co_kriging.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mfpml/models/co_kriging.py b/src/mfpml/models/co_kriging.py
index 8be299e..aab43e3 100644
--- a/src/mfpml/models/co_kriging.py
+++ b/src/mfpml/models/co_kriging.py
@@ -336,6 +336,8 @@ class CoKriging:
         super().__init__()
         # get information of the modeling problem
         self.bounds = design_space
+        # the name which all multi-fidelity models share
+        self.bound = design_space
         self.optimizer = optimizer
         self.optimizer_restart = optimizer_restart
         self.num_dim = design_space.shape[0]
-- 
2.43.0


From a2fe651b7576b4be9ab61e163130e30a709cac84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:27 +0000
Subject: [PATCH 17/30] fix: Sobol samplers failed with num_skip=0

---
 src/mfpml/design_of_experiment/mf_samplers.py | 3 ++-
 src/mfpml/design_of_experiment/sf_samplers.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mfpml/design_of_experiment/mf_samplers.py b/src/mfpml/design_of_experiment/mf_samplers.py
index 38783cf..0964a53 100644
--- a/src/mfpml/design_of_experiment/mf_samplers.py
+++ b/src/mfpml/design_of_experiment/mf_samplers.py
@@ -268,7 +268,8 @@ class MFSobolSequence(MultiFidelitySampler):
         """
         sobol_sampler = Sobol(d=self.num_dim, seed=self.seed)
         _ = sobol_sampler.reset()
-        _ = sobol_sampler.fast_forward(n=self.num_skip)
+        if self.num_skip > 0:
+            _ = sobol_sampler.fast_forward(n=self.num_skip)
         # get the samples
         samples = sobol_sampler.random(n=num_sample)
 
diff --git a/src/mfpml/design_of_experiment/sf_samplers.py b/src/mfpml/design_of_experiment/sf_samplers.py
index f32ad17..6caf319 100644
--- a/src/mfpml/design_of_experiment/sf_samplers.py
+++ b/src/mfpml/design_of_experiment/sf_samplers.py
@@ -311,7 +311,8 @@ class SobolSequence(SingleFidelitySampler):
 
         # define the sobol sampler
         sobol_sampler = Sobol(d=self.num_dim, seed=self.seed)
-        _ = sobol_sampler.fast_forward(n=self.num_skip)
+        if self.num_skip > 0:
+            _ = sobol_sampler.fast_forward(n=self.num_skip)
         # get the samples (an np.ndarray)
         samples = sobol_sampler.random(n=num_samples)
 
-- 
2.43.0


From abccc5dda33b7dd3ecde3c94d37c1b200a1cf01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:43 +0000
Subject: [PATCH 18/30] fix: acquisition searches with a user-supplied
 optimizer failed

---
 src/mfpml/optimization/sf_cons_acqusitions.py   | 4 +++-
 src/mfpml/optimization/sf_uncons_acqusitions.py | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mfpml/optimization/sf_cons_acqusitions.py b/src/mfpml/optimization/sf_cons_acqusitions.py
index 1d304d6..627424f 100644
--- a/src/mfpml/optimization/sf_cons_acqusitions.py
+++ b/src/mfpml/optimization/sf_cons_acqusitions.py
@@ -1,4 +1,5 @@
 from abc import ABC, abstractmethod
+from functools import partial
 from typing import Any, List
 
 import numpy as np
@@ -66,7 +67,8 @@ class SFConsAcq(ABC):
 
         else:
             _, _, opt_x = self.optimizer.run_optimizer(
-                self.eval,
+                partial(self.eval, obj_surrogate=obj_surrogate,
+                        cons_surrogates=cons_surrogate),
                 num_dim=obj_surrogate.num_dim,
                 design_space=obj_surrogate.bounds,
             )
diff --git a/src/mfpml/optimization/sf_uncons_acqusitions.py b/src/mfpml/optimization/sf_uncons_acqusitions.py
index 2a90b30..4a14abd 100644
--- a/src/mfpml/optimization/sf_uncons_acqusitions.py
+++ b/src/mfpml/optimization/sf_uncons_acqusitions.py
@@ -1,4 +1,5 @@
 from abc import ABC, abstractmethod
+from functools import partial
 from typing import Any, List
 
 import numpy as np
@@ -63,7 +64,7 @@ class SFUnConsAcq(ABC):
 
         else:
             _, _, opt_x = self.optimizer.run_optimizer(
-                self.eval,
+                partial(self.eval, surrogate=surrogate),
                 num_dim=surrogate.num_dim,
                 design_space=surrogate.bounds,
             )
-- 
2.43.0


From 34d3d55b8edcc2047a9ecce6efc34c6efca78001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 19/30] fix: concurrent predictions of hierarchical and
 co-kriging models mixed up their uncertainties

---
 src/mfpml/models/co_kriging.py           | 5 +++--
 src/mfpml/models/hierarchical_kriging.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/mfpml/models/co_kriging.py b/src/mfpml/models/co_kriging.py
index aab43e3..a12e0a9 100644
--- a/src/mfpml/models/co_kriging.py
+++ b/src/mfpml/models/co_kriging.py
@@ -461,9 +461,10 @@ class CoKriging:
                 + self.sigma2
                 - c.T.dot(solve(self.LC.T, solve(self.LC, c)))
             )
-            self.epis_std = np.sqrt(np.maximum(np.diag(s2), 0))*self.yh_std
+            epis_std = np.sqrt(np.maximum(np.diag(s2), 0))*self.yh_std
+            self.epis_std = epis_std
             noise_std = self.noise * self.yh_std
-            total_std = np.sqrt((self.epis_std**2 + noise_std**2))
+            total_std = np.sqrt((epis_std**2 + noise_std**2))
             return fmean.reshape(-1, 1), total_std.reshape(-1, 1)
 
     def predict_lf(
diff --git a/src/mfpml/models/hierarchical_kriging.py b/src/mfpml/models/hierarchical_kriging.py
index 8989d80..6805d89 100644
--- a/src/mfpml/models/hierarchical_kriging.py
+++ b/src/mfpml/models/hierarchical_kriging.py
@@ -107,10 +107,11 @@ class HierarchicalKriging(_mfGaussianProcess):
                  )
             std = np.sqrt(np.maximum(mse, 0)).reshape(-1, 1)
             # epistemic uncertainty scale back
-            self.epistemic = std*self.yh_std
+            epistemic = std*self.yh_std
+            self.epistemic = epistemic
 
             # total uncertainty
-            total_unc = np.sqrt(self.epistemic**2 + self.noise**2)
+            total_unc = np.sqrt(epistemic**2 + self.noise**2)
             return fmean, total_unc
 
     def _optHyp(self):
-- 
2.43.0


From 9f774680673177125ca3b0b66850a619fc446d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:01 +0000
Subject: [PATCH 20/30] fix: a Bayesian optimisation session could not be
 continued after a failed training

---
 src/mfpml/optimization/mf_uncons_bo.py | 14 +++++++++++++-
 src/mfpml/optimization/sf_cons_bo.py   | 24 ++++++++++++++++++------
 src/mfpml/optimization/sf_uncons_bo.py | 15 +++++++++++++--
 3 files changed, 44 insertions(+), 9 deletions(-)

diff --git a/src/mfpml/optimization/mf_uncons_bo.py b/src/mfpml/optimization/mf_uncons_bo.py
index 04d2231..50d5d2a 100644
--- a/src/mfpml/optimization/mf_uncons_bo.py
+++ b/src/mfpml/optimization/mf_uncons_bo.py
@@ -79,6 +79,9 @@ class mfUnConsBayesOpt:
         error = self.__update_error()
         print(f"Error: {error}")
         while iteration < max_iter and error > stopping_error:
+            # an earlier call may have failed before the surrogate was updated
+            if not self.surrogate_updated:
+                self._train_surrogate()
             # update the surrogate model
             update_x, fidelity = self.acquisition.query(
                 mf_surrogate=self.surrogate,
@@ -87,11 +90,13 @@ class mfUnConsBayesOpt:
             if fidelity == 0:
                 update_y = self.problem.hf(np.atleast_2d(update_x))
                 # update the samples
+                self.surrogate_updated = False
                 self.sample[0] = np.vstack((self.sample[0], update_x))
                 self.response[0] = np.vstack((self.response[0], update_y))
             else:
                 update_y = self.problem.lf(np.atleast_2d(update_x))
                 # update the samples
+                self.surrogate_updated = False
                 self.sample[1] = np.vstack((self.sample[1], update_x))
                 self.response[1] = np.vstack((self.response[1], update_y))
             # update the params before training: the evaluation counts even
@@ -99,7 +104,7 @@ class mfUnConsBayesOpt:
             self._update_para(update_x=update_x,
                               update_y=update_y, fidelity=fidelity)
             # update the surrogate model
-            self.surrogate.train(self.sample, self.response)
+            self._train_surrogate()
             print("update_x: ", update_x)
             print("update_y: ", update_y)
             print("fidelity: ", fidelity)
@@ -129,6 +134,12 @@ class mfUnConsBayesOpt:
 
         return error
 
+    def _train_surrogate(self) -> None:
+        """Train the surrogate model with all samples"""
+        self.surrogate_updated = False
+        self.surrogate.train(self.sample, self.response)
+        self.surrogate_updated = True
+
     def _update_para(self, update_x, update_y, fidelity) -> None:
         """Update parameters
 
@@ -182,6 +193,7 @@ class mfUnConsBayesOpt:
         # update the sample and response
         self.sample = self.init_sample.copy()
         self.response = self.init_response.copy()
+        self.surrogate_updated = True
 
         # initialize best scheme
         self.best = np.min(self.response[0])
diff --git a/src/mfpml/optimization/sf_cons_bo.py b/src/mfpml/optimization/sf_cons_bo.py
index 65717d3..335ff9d 100644
--- a/src/mfpml/optimization/sf_cons_bo.py
+++ b/src/mfpml/optimization/sf_cons_bo.py
@@ -57,6 +57,10 @@ class BayesConsOpt(ABC):
         error = self.__update_error()
         print(f"error: {error}")
         while iteration < max_iter and error >= self.stopping_error:
+            # an earlier call may have failed before all surrogates were
+            # updated
+            if not self.surrogate_updated:
+                self._train_surrogates()
             # update the next point
             update_x = self.acquisition.query(
                 obj_surrogate=self.obj_surrogate,
@@ -66,6 +70,7 @@ class BayesConsOpt(ABC):
             update_obj = self.problem.f(update_x)
             update_cons = self.problem.f_cons(update_x)
             # update samples
+            self.surrogate_updated = False
             self.sample = np.vstack((self.sample, update_x))
             self.obj_response = np.vstack((self.obj_response, update_obj))
             self.cons_response = np.vstack((self.cons_response, update_cons))
@@ -74,12 +79,7 @@ class BayesConsOpt(ABC):
             self._update_para()
 
             # update surrogate
-            self.obj_surrogate.train(X=self.sample,
-                                     Y=self.obj_response)
-            for ii in range(self.problem.num_cons):
-                self.cons_surrogates[ii].train(
-                    X=self.sample,
-                    Y=self.cons_response[:, ii])
+            self._train_surrogates()
 
             print(f"update_x: {update_x}")
             print(f"update_obj: {update_obj}")
@@ -122,6 +122,7 @@ class BayesConsOpt(ABC):
             cons_surrogate.train(X=self.init_sample,
                                  Y=self.init_cons_response[:, ii])
             self.cons_surrogates.append(cons_surrogate)
+        self.surrogate_updated = True
 
         # get the index of feasible samples
         try:
@@ -149,6 +150,17 @@ class BayesConsOpt(ABC):
         if self.verbose:
             self.__print_info(iteration=0)
 
+    def _train_surrogates(self) -> None:
+        """train the surrogates with all samples"""
+        self.surrogate_updated = False
+        self.obj_surrogate.train(X=self.sample,
+                                 Y=self.obj_response)
+        for ii in range(self.problem.num_cons):
+            self.cons_surrogates[ii].train(
+                X=self.sample,
+                Y=self.cons_response[:, ii])
+        self.surrogate_updated = True
+
     def _update_para(self) -> None:
         # identify the feasible samples (all constraints are satisfied)
         try:
diff --git a/src/mfpml/optimization/sf_uncons_bo.py b/src/mfpml/optimization/sf_uncons_bo.py
index b2f8158..1759c75 100644
--- a/src/mfpml/optimization/sf_uncons_bo.py
+++ b/src/mfpml/optimization/sf_uncons_bo.py
@@ -57,20 +57,23 @@ class BayesUnConsOpt(ABC):
         error = self.__update_error()
         print(f"error: {error}")
         while iteration < max_iter and error >= self.stopping_error:
+            # an earlier call may have failed before the surrogate was updated
+            if not self.surrogate_updated:
+                self._train_surrogate()
             # update the next point
             update_x = self.acquisition.query(surrogate=self.surrogate)
             update_x = np.atleast_2d(update_x)
             # get update y
             update_y = self.problem.f(update_x)
             # update samples
+            self.surrogate_updated = False
             self.sample = np.vstack((self.sample, update_x))
             self.response = np.vstack((self.response, update_y))
             # update paras before training: the evaluation counts even when
             # the training fails
             self._update_para()
             # update surrogate
-            self.surrogate.train(X=self.sample,
-                                 Y=self.response)
+            self._train_surrogate()
             iteration = iteration + 1
             if self.verbose:
                 self.__print_info(iteration=iteration)
@@ -97,6 +100,7 @@ class BayesUnConsOpt(ABC):
         # update the sample and response
         self.sample = self.init_sample.copy()
         self.response = self.init_response.copy()
+        self.surrogate_updated = True
 
         # initialize the acquisition function
         self.best = np.min(self.init_response)
@@ -109,6 +113,13 @@ class BayesUnConsOpt(ABC):
         if self.verbose:
             self.__print_info(iteration=0)
 
+    def _train_surrogate(self) -> None:
+        """train the surrogate with all samples"""
+        self.surrogate_updated = False
+        self.surrogate.train(X=self.sample,
+                             Y=self.response)
+        self.surrogate_updated = True
+
     def _update_para(self) -> None:
         # update best
         min_y = np.min(self.response)
-- 
2.43.0


From cb8a0d5c4cfed0abac3e82535cc4570a8918c314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:32 +0000
Subject: [PATCH 21/30] fix: models, samplers and acquisitions kept the
 caller's arrays

An edit of the design space, rho_bound or kappa after the construction changed
what the object did; two LCB (or VFLCB) objects shared the default kappa.
---
 src/mfpml/design_of_experiment/mf_samplers.py   | 4 ++--
 src/mfpml/design_of_experiment/sf_samplers.py   | 2 +-
 src/mfpml/models/co_kriging.py                  | 8 ++++----
 src/mfpml/models/gaussian_process.py            | 2 +-
 src/mfpml/models/mf_gaussian_process.py         | 2 +-
 src/mfpml/models/scale_kriging.py               | 2 +-
 src/mfpml/optimization/mf_acqusitions.py        | 2 +-
 src/mfpml/optimization/sf_uncons_acqusitions.py | 2 +-
 8 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/mfpml/design_of_experiment/mf_samplers.py b/src/mfpml/design_of_experiment/mf_samplers.py
index 0964a53..52add06 100644
--- a/src/mfpml/design_of_experiment/mf_samplers.py
+++ b/src/mfpml/design_of_experiment/mf_samplers.py
@@ -27,7 +27,7 @@ class MultiFidelitySampler:
             self.num_dim = len(design_space)
             self.design_space = self.transfer_design_space_list(design_space)
         elif isinstance(design_space, List):
-            self.design_space = design_space
+            self.design_space = [np.array(space) for space in design_space]
             # get number of fidelity levels
             self.num_fidelity = len(design_space)
             # get number of dimensions
@@ -140,7 +140,7 @@ class MultiFidelitySampler:
         List
             design space
         """
-        return [design_space for i in range(self.num_fidelity)]
+        return [np.array(design_space) for i in range(self.num_fidelity)]
 
     def save_data(self, file_name: str = "mf_data") -> None:
         """
diff --git a/src/mfpml/design_of_experiment/sf_samplers.py b/src/mfpml/design_of_experiment/sf_samplers.py
index 6caf319..0eef147 100644
--- a/src/mfpml/design_of_experiment/sf_samplers.py
+++ b/src/mfpml/design_of_experiment/sf_samplers.py
@@ -24,7 +24,7 @@ class SingleFidelitySampler(ABC):
         """
 
         # make sure the design space is a 2d array
-        design_space = np.atleast_2d(np.asarray(design_space))
+        design_space = np.atleast_2d(np.array(design_space))
         #
         self.design_space = design_space
         # number of dimensions
diff --git a/src/mfpml/models/co_kriging.py b/src/mfpml/models/co_kriging.py
index a12e0a9..0f0c8da 100644
--- a/src/mfpml/models/co_kriging.py
+++ b/src/mfpml/models/co_kriging.py
@@ -26,7 +26,7 @@ class _GP:
         # initialize parameters
         self.num_dim = design_space.shape[0]
         # bounds of design space
-        self.design_space = design_space
+        self.design_space = np.array(design_space)
 
         # get kernel
         if kernel is None:
@@ -335,13 +335,13 @@ class CoKriging:
         """
         super().__init__()
         # get information of the modeling problem
-        self.bounds = design_space
+        self.bounds = np.array(design_space)
         # the name which all multi-fidelity models share
-        self.bound = design_space
+        self.bound = self.bounds
         self.optimizer = optimizer
         self.optimizer_restart = optimizer_restart
         self.num_dim = design_space.shape[0]
-        self.rho_bound = rho_bound
+        self.rho_bound = list(rho_bound)
         # initialize kernel and low-fidelity model
         self.kernel = RBF(theta=np.zeros(self.num_dim),
                           bounds=kernel_bound)
diff --git a/src/mfpml/models/gaussian_process.py b/src/mfpml/models/gaussian_process.py
index 4ff21bc..907d77b 100644
--- a/src/mfpml/models/gaussian_process.py
+++ b/src/mfpml/models/gaussian_process.py
@@ -47,7 +47,7 @@ class GaussianProcessRegression:
         # get the dimension of the problem
         self.num_dim = design_space.shape[0]
         # bounds of the design space
-        self.bounds = design_space
+        self.bounds = np.array(design_space)
 
         # get kernel
         if kernel is None:
diff --git a/src/mfpml/models/mf_gaussian_process.py b/src/mfpml/models/mf_gaussian_process.py
index 547a8cd..9f09e60 100644
--- a/src/mfpml/models/mf_gaussian_process.py
+++ b/src/mfpml/models/mf_gaussian_process.py
@@ -11,7 +11,7 @@ class _mfGaussianProcess:
 
     def __init__(self,
                  design_space: np.ndarray) -> None:
-        self.bound = design_space
+        self.bound = np.array(design_space)
         self.lfGP: GaussianProcessRegression = None
 
     def predict(self, X: np.ndarray, return_std: bool = False) -> np.ndarray:
diff --git a/src/mfpml/models/scale_kriging.py b/src/mfpml/models/scale_kriging.py
index 15f7c8f..753efb2 100644
--- a/src/mfpml/models/scale_kriging.py
+++ b/src/mfpml/models/scale_kriging.py
@@ -62,7 +62,7 @@ class ScaledKriging(_mfGaussianProcess):
         self.optimizer_restart = optimizer_restart
         self.rho_optimize = rho_optimize
         self.rho = 1.0
-        self.rho_bound = rho_bound
+        self.rho_bound = list(rho_bound)
         self.rho_method = rho_method
         self.rho_optimizer = rho_optimizer
         self.mu = 1.0
diff --git a/src/mfpml/optimization/mf_acqusitions.py b/src/mfpml/optimization/mf_acqusitions.py
index edf9705..ea089b5 100644
--- a/src/mfpml/optimization/mf_acqusitions.py
+++ b/src/mfpml/optimization/mf_acqusitions.py
@@ -363,7 +363,7 @@ class VFLCB(MFUnConsAcq):
         """
         super().__init__()
         self.optimizer = optimizer
-        self.kappa = kappa
+        self.kappa = list(kappa)
 
     def eval(
             self,
diff --git a/src/mfpml/optimization/sf_uncons_acqusitions.py b/src/mfpml/optimization/sf_uncons_acqusitions.py
index 4a14abd..25a1bbe 100644
--- a/src/mfpml/optimization/sf_uncons_acqusitions.py
+++ b/src/mfpml/optimization/sf_uncons_acqusitions.py
@@ -89,7 +89,7 @@ class LCB(SFUnConsAcq):
         """
         super(LCB, self).__init__(optimizer=optimizer)
         # kappa for lcb (factor for exploration and exploitation)
-        self.kappa = kappa
+        self.kappa = list(kappa)
 
     def eval(self,
              x: np.ndarray,
-- 
2.43.0


From 230427461c091fba54ed116662f97d190e3d2813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:32 +0000
Subject: [PATCH 22/30] fix: PSO and DE handed their population to the
 objective

An objective which used its argument as scratch space moved the population:
the optimum was reported at a point where it was never evaluated.
---
 src/mfpml/optimization/evolutionary_algorithms.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mfpml/optimization/evolutionary_algorithms.py b/src/mfpml/optimization/evolutionary_algorithms.py
index 73620aa..cf269ee 100644
--- a/src/mfpml/optimization/evolutionary_algorithms.py
+++ b/src/mfpml/optimization/evolutionary_algorithms.py
@@ -66,7 +66,8 @@ class EABase:
     def _evaluate(self, x: np.ndarray) -> np.ndarray:
         """evaluate the objective for a population
 
-        The values are copied, as the objective may reuse its output array,
+        The population and the values are copied, as the objective may use
+        its argument as scratch space and reuse its output array,
         and NaN (a failed evaluation) is the worst possible value.
 
         Parameters
@@ -79,7 +80,8 @@ class EABase:
         np.ndarray
             objective values with shape (num_pop, 1)
         """
-        obj = np.array(self.func(x), dtype=float).reshape(self.num_pop, 1)
+        obj = np.array(self.func(np.array(x)), dtype=float)
+        obj = obj.reshape(self.num_pop, 1)
         obj[np.isnan(obj)] = np.inf
 
         return obj
-- 
2.43.0


From 7780467e551242f78a1c93a2221cc826b94492a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:32 +0000
Subject: [PATCH 23/30] fix: Bayesian optimisation shared its samples with its
 caller

The returned best_x was part of the recorded samples, the objective got the
samples themselves, and a response which was part of a buffer of the caller
was not copied.
---
 src/mfpml/optimization/mf_uncons_bo.py | 14 +++++++++-----
 src/mfpml/optimization/sf_cons_bo.py   | 13 ++++++++-----
 src/mfpml/optimization/sf_uncons_bo.py | 12 +++++++-----
 3 files changed, 24 insertions(+), 15 deletions(-)

diff --git a/src/mfpml/optimization/mf_uncons_bo.py b/src/mfpml/optimization/mf_uncons_bo.py
index 50d5d2a..2f664d3 100644
--- a/src/mfpml/optimization/mf_uncons_bo.py
+++ b/src/mfpml/optimization/mf_uncons_bo.py
@@ -88,13 +88,15 @@ class mfUnConsBayesOpt:
                 cost_ratio=cost_ratio,
                 fmin=self.best)
             if fidelity == 0:
-                update_y = self.problem.hf(np.atleast_2d(update_x))
+                update_y = np.array(
+                    self.problem.hf(np.atleast_2d(np.array(update_x))))
                 # update the samples
                 self.surrogate_updated = False
                 self.sample[0] = np.vstack((self.sample[0], update_x))
                 self.response[0] = np.vstack((self.response[0], update_y))
             else:
-                update_y = self.problem.lf(np.atleast_2d(update_x))
+                update_y = np.array(
+                    self.problem.lf(np.atleast_2d(np.array(update_x))))
                 # update the samples
                 self.surrogate_updated = False
                 self.sample[1] = np.vstack((self.sample[1], update_x))
@@ -157,7 +159,7 @@ class mfUnConsBayesOpt:
         if fidelity == 0:
             if update_y[0][0] < self.best:
                 self.best = update_y[0][0]
-                self.best_x = update_x
+                self.best_x = np.array(update_x)
 
         # record the optimization history
         self.history_best.append(self.best)
@@ -169,7 +171,8 @@ class mfUnConsBayesOpt:
         sampler = MFLHS(design_space=self.problem.input_domain, num_fidelity=2)
         self.init_sample = sampler.get_samples(
             num_samples=self.num_init, seed=self.seed)
-        self.init_response = self.problem(self.init_sample)
+        self.init_response = [
+            np.array(y) for y in self.problem(self.init_sample)]
 
         # initialize the surrogate model
         if self.surrogate_name == 'HierarchicalKriging':
@@ -197,7 +200,8 @@ class mfUnConsBayesOpt:
 
         # initialize best scheme
         self.best = np.min(self.response[0])
-        self.best_x = self.sample[0][np.argmin(self.response[0]), :]
+        self.best_x = np.array(
+            self.sample[0][np.argmin(self.response[0]), :])
 
         # record the optimization history
         self.history_best.append(self.best)
diff --git a/src/mfpml/optimization/sf_cons_bo.py b/src/mfpml/optimization/sf_cons_bo.py
index 335ff9d..45e0919 100644
--- a/src/mfpml/optimization/sf_cons_bo.py
+++ b/src/mfpml/optimization/sf_cons_bo.py
@@ -1,3 +1,4 @@
+import copy
 from abc import ABC
 from typing import Any, List, Tuple
 
@@ -67,8 +68,8 @@ class BayesConsOpt(ABC):
                 cons_surrogate=self.cons_surrogates)
             update_x = np.atleast_2d(update_x)
             # get update y
-            update_obj = self.problem.f(update_x)
-            update_cons = self.problem.f_cons(update_x)
+            update_obj = np.array(self.problem.f(np.array(update_x)))
+            update_cons = np.array(self.problem.f_cons(np.array(update_x)))
             # update samples
             self.surrogate_updated = False
             self.sample = np.vstack((self.sample, update_x))
@@ -89,7 +90,7 @@ class BayesConsOpt(ABC):
                 self.__print_info(iteration=iteration)
             error = self.__update_error()
 
-        return self.best, self.best_x
+        return self.best, copy.copy(self.best_x)
 
     def _initialization(self) -> None:
         """initialization for single fidelity bayesian optimization
@@ -98,8 +99,10 @@ class BayesConsOpt(ABC):
         sampler = LHS(design_space=self.problem.input_domain)
         self.init_sample = sampler.get_samples(
             num_samples=self.num_init, seed=self.seed)
-        self.init_obj_response = self.problem.f(self.init_sample)
-        self.init_cons_response = self.problem.f_cons(self.init_sample)
+        self.init_obj_response = np.array(
+            self.problem.f(np.array(self.init_sample)))
+        self.init_cons_response = np.array(
+            self.problem.f_cons(np.array(self.init_sample)))
 
         # initialize the surrogate model
         self.obj_surrogate = Kriging(design_space=self.problem.input_domain,
diff --git a/src/mfpml/optimization/sf_uncons_bo.py b/src/mfpml/optimization/sf_uncons_bo.py
index 1759c75..b7775cd 100644
--- a/src/mfpml/optimization/sf_uncons_bo.py
+++ b/src/mfpml/optimization/sf_uncons_bo.py
@@ -64,7 +64,7 @@ class BayesUnConsOpt(ABC):
             update_x = self.acquisition.query(surrogate=self.surrogate)
             update_x = np.atleast_2d(update_x)
             # get update y
-            update_y = self.problem.f(update_x)
+            update_y = np.array(self.problem.f(np.array(update_x)))
             # update samples
             self.surrogate_updated = False
             self.sample = np.vstack((self.sample, update_x))
@@ -79,7 +79,7 @@ class BayesUnConsOpt(ABC):
                 self.__print_info(iteration=iteration)
             error = self.__update_error()
 
-        return self.best, self.best_x
+        return self.best, np.array(self.best_x)
 
     def _initialization(self) -> None:
         """initialization for single fidelity bayesian optimization
@@ -88,7 +88,8 @@ class BayesUnConsOpt(ABC):
         sampler = LHS(design_space=self.problem.input_domain)
         self.init_sample = sampler.get_samples(
             num_samples=self.num_init, seed=self.seed)
-        self.init_response = self.problem.f(self.init_sample)
+        self.init_response = np.array(
+            self.problem.f(np.array(self.init_sample)))
 
         # initialize the surrogate model
         self.surrogate = Kriging(design_space=self.problem.input_domain,
@@ -104,7 +105,8 @@ class BayesUnConsOpt(ABC):
 
         # initialize the acquisition function
         self.best = np.min(self.init_response)
-        self.best_x = self.init_sample[np.argmin(self.init_response), :]
+        self.best_x = np.array(
+            self.init_sample[np.argmin(self.init_response), :])
 
         # record the optimization history
         self.history_best.append(self.best)
@@ -126,7 +128,7 @@ class BayesUnConsOpt(ABC):
         min_index = np.argmin(self.response)
         # update best
         self.best = min_y
-        self.best_x = self.sample[min_index, :]
+        self.best_x = np.array(self.sample[min_index, :])
         # record the optimization history
         self.history_best.append(self.best)
         self.history_best_x.append(self.best_x)
-- 
2.43.0


From 4fdad33db3550d8895304b38c336bbb5610c4bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:35 +0000
Subject: [PATCH 24/30] fix: samplers handed out the design they keep

Scaling a returned design in place changed what save_data wrote, and the
levels of a nested Sobol design were parts of the same array.
---
 src/mfpml/design_of_experiment/mf_samplers.py | 4 ++--
 src/mfpml/design_of_experiment/sf_samplers.py | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/mfpml/design_of_experiment/mf_samplers.py b/src/mfpml/design_of_experiment/mf_samplers.py
index 52add06..7703a4d 100644
--- a/src/mfpml/design_of_experiment/mf_samplers.py
+++ b/src/mfpml/design_of_experiment/mf_samplers.py
@@ -84,7 +84,7 @@ class MultiFidelitySampler:
             # insert the samples
             data.insert(0, sample)
         # assign data to self.data
-        self.data = data
+        self.data = [samples.copy() for samples in data]
 
         return data
 
@@ -290,4 +290,4 @@ class MFSobolSequence(MultiFidelitySampler):
             a numpy array contains high fidelity samples
 
         """
-        return data_higher_fidelity[0: num_sample, :]
+        return data_higher_fidelity[0: num_sample, :].copy()
diff --git a/src/mfpml/design_of_experiment/sf_samplers.py b/src/mfpml/design_of_experiment/sf_samplers.py
index 0eef147..392031e 100644
--- a/src/mfpml/design_of_experiment/sf_samplers.py
+++ b/src/mfpml/design_of_experiment/sf_samplers.py
@@ -161,7 +161,7 @@ class FixNumberSampler(SingleFidelitySampler):
         # repeat the design space for num_samples times
         self.samples = np.tile(space, (num_samples, 1))
 
-        return self.samples
+        return self.samples.copy()
 
 
 class LatinHyperCube(SingleFidelitySampler):
@@ -206,7 +206,7 @@ class LatinHyperCube(SingleFidelitySampler):
         # scale the samples
         self.samples = self.scale_samples(samples=samples)
 
-        return self.samples
+        return self.samples.copy()
 
 
 class RandomSampler(SingleFidelitySampler):
@@ -258,7 +258,7 @@ class RandomSampler(SingleFidelitySampler):
         # scale the samples
         self.samples = self.scale_samples(samples=samples)
 
-        return self.samples
+        return self.samples.copy()
 
 
 class SobolSequence(SingleFidelitySampler):
@@ -319,4 +319,4 @@ class SobolSequence(SingleFidelitySampler):
         # scale the samples
         self.samples = self.scale_samples(samples=samples)
 
-        return self.samples
+        return self.samples.copy()
-- 
2.43.0


From f5efc0c684d9c6b5c267da8cd52833ba1e4f26db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:05 +0000
Subject: [PATCH 25/30] fix: measure training times with a monotonic clock

A wall clock that is set during a training (NTP, daylight saving, manual)
made the reported training times wrong or negative.
---
 src/mfpml/models/co_kriging.py          | 6 +++---
 src/mfpml/models/gaussian_process.py    | 4 ++--
 src/mfpml/models/mf_gaussian_process.py | 6 +++---
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/mfpml/models/co_kriging.py b/src/mfpml/models/co_kriging.py
index 0f0c8da..e38462d 100644
--- a/src/mfpml/models/co_kriging.py
+++ b/src/mfpml/models/co_kriging.py
@@ -388,11 +388,11 @@ class CoKriging:
         # update the noise value of the low-fidelity model
         self.lfGP.noise = self.noise
         # train the low-fidelity model
-        start_time = time.time()
+        start_time = time.perf_counter()
 
         self.lfGP.train(self.sample_xl_scaled,
                         self.sample_yl_scaled)
-        end_time = time.time()
+        end_time = time.perf_counter()
         self.lf_training_time = end_time - start_time
         # train the high-fidelity model
         # prediction of low-fidelity at high-fidelity locations
@@ -411,7 +411,7 @@ class CoKriging:
             self.kernel.set_params(self.opt_param[1:])
         # update the kernel matrix
         self._update_parameters()
-        end_time_hf = time.time()
+        end_time_hf = time.perf_counter()
         self.hf_training_time = end_time_hf - end_time
 
     def predict(
diff --git a/src/mfpml/models/gaussian_process.py b/src/mfpml/models/gaussian_process.py
index 907d77b..7b8242e 100644
--- a/src/mfpml/models/gaussian_process.py
+++ b/src/mfpml/models/gaussian_process.py
@@ -77,7 +77,7 @@ class GaussianProcessRegression:
             responses of the sample
         """
         # record the training time for the model
-        time_start = time.time()
+        time_start = time.perf_counter()
         # estimate the noise anew if it is not given
         self.noise = self.noise_prior
         # get number samples
@@ -94,7 +94,7 @@ class GaussianProcessRegression:
 
         # update kernel matrix info with optimized hyper-parameters
         self._update_kernel_matrix()
-        time_end = time.time()
+        time_end = time.perf_counter()
         self.training_time = time_end - time_start
 
     def predict(self,
diff --git a/src/mfpml/models/mf_gaussian_process.py b/src/mfpml/models/mf_gaussian_process.py
index 9f09e60..9fb121d 100644
--- a/src/mfpml/models/mf_gaussian_process.py
+++ b/src/mfpml/models/mf_gaussian_process.py
@@ -62,12 +62,12 @@ class _mfGaussianProcess:
             the second element is low-fidelity responses.
         """
         # record the execution time for training low-fidelity model
-        clock_start = time.time()
+        clock_start = time.perf_counter()
         self._train_lf(samples[1], responses[1])
-        clock_lf = time.time()
+        clock_lf = time.perf_counter()
         # train high-fidelity model, it will be trained at child-class
         self._train_hf(samples[0], responses[0])
-        clock_hf = time.time()
+        clock_hf = time.perf_counter()
         # record the training time for low-fidelity and high-fidelity model
         self.lf_training_time = clock_lf - clock_start
         self.hf_training_time = clock_hf - clock_lf
-- 
2.43.0


From 0cf0599e079c33fdd905a608c57064d322b3b8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:14 +0000
Subject: [PATCH 26/30] fix: constrained BO turned any failure of its update
 into 'no feasible sample'

Only the missing feasible sample (minimum of an empty array) means that; a
failed allocation was reported as an infinite best value instead of being
raised.
---
 src/mfpml/optimization/sf_cons_bo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mfpml/optimization/sf_cons_bo.py b/src/mfpml/optimization/sf_cons_bo.py
index 45e0919..f4fc68c 100644
--- a/src/mfpml/optimization/sf_cons_bo.py
+++ b/src/mfpml/optimization/sf_cons_bo.py
@@ -142,7 +142,7 @@ class BayesConsOpt(ABC):
             # record the optimization history
             self.history_best.append(self.best)
             self.history_best_x.append(self.best_x)
-        except Exception:
+        except ValueError:
             print("No feasible sample in initial samples")
             self.best = np.inf
             self.best_x = None
@@ -182,7 +182,7 @@ class BayesConsOpt(ABC):
             # record the optimization history
             self.history_best.append(self.best)
             self.history_best_x.append(self.best_x)
-        except Exception:
+        except ValueError:
             print("No feasible sample in current samples")
             self.best = np.inf
             self.best_x = None
-- 
2.43.0


From c6fe75dd8f668ae7f4f329456381cd0b9bddc16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:16 +0000
Subject: [PATCH 27/30] fix: constrained BO printed before it recorded, so a
 failing output lost the record of an evaluation

---
 src/mfpml/optimization/sf_cons_bo.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mfpml/optimization/sf_cons_bo.py b/src/mfpml/optimization/sf_cons_bo.py
index f4fc68c..8009855 100644
--- a/src/mfpml/optimization/sf_cons_bo.py
+++ b/src/mfpml/optimization/sf_cons_bo.py
@@ -175,7 +175,6 @@ class BayesConsOpt(ABC):
             # rows which are not feasible can have the same objective
             min_index = np.argmin(self.obj_response[feasible_index])
             min_index = feasible_index[0][[min_index]]
-            print(f"min_index: {min_index}")
             # update best
             self.best = min_y
             self.best_x = self.sample[min_index, :]
@@ -183,12 +182,15 @@ class BayesConsOpt(ABC):
             self.history_best.append(self.best)
             self.history_best_x.append(self.best_x)
         except ValueError:
-            print("No feasible sample in current samples")
             self.best = np.inf
             self.best_x = None
             # record the optimization history
             self.history_best.append(self.best)
             self.history_best_x.append(self.best_x)
+            print("No feasible sample in current samples")
+        else:
+            # printing can fail (full disk, closed pipe): record first
+            print(f"min_index: {min_index}")
 
     def __update_error(self) -> Any | float:
         """update error between the known optimum and the current optimum
-- 
2.43.0


From db4c9a24f71e40f31adc47f6a60d15ece6a76842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:28 +0000
Subject: [PATCH 28/30] fix: multi-fidelity models kept the caller's training
 arrays

Acquisition functions read the training points from the model, so editing
the arrays after training changed what they returned.
---
 src/mfpml/models/co_kriging.py           | 8 ++++----
 src/mfpml/models/hierarchical_kriging.py | 4 ++--
 src/mfpml/models/mf_gaussian_process.py  | 4 ++--
 src/mfpml/models/scale_kriging.py        | 4 ++--
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/mfpml/models/co_kriging.py b/src/mfpml/models/co_kriging.py
index e38462d..4d8ad24 100644
--- a/src/mfpml/models/co_kriging.py
+++ b/src/mfpml/models/co_kriging.py
@@ -370,10 +370,10 @@ class CoKriging:
             responses and 'lf' contains low-fidelity ones
         """
         # load the samples and responses at the original scale
-        self.sample_xh = samples[0]
-        self.sample_yh = responses[0]
-        self.sample_xl = samples[1]
-        self.sample_yl = responses[1]
+        self.sample_xh = np.array(samples[0])
+        self.sample_yh = np.array(responses[0])
+        self.sample_xl = np.array(samples[1])
+        self.sample_yl = np.array(responses[1])
 
         # normalize the input and output
         self.sample_xh_scaled = self.normalize_input(self.sample_xh.copy())
diff --git a/src/mfpml/models/hierarchical_kriging.py b/src/mfpml/models/hierarchical_kriging.py
index 6805d89..ff9be5c 100644
--- a/src/mfpml/models/hierarchical_kriging.py
+++ b/src/mfpml/models/hierarchical_kriging.py
@@ -50,8 +50,8 @@ class HierarchicalKriging(_mfGaussianProcess):
         # estimate the noise anew if it is not given
         self.noise = self.noise_prior
         # get samples
-        self.sample_xh = X
-        self.sample_yh = Y
+        self.sample_xh = np.array(X)
+        self.sample_yh = np.array(Y)
         # normalization
         self.sample_xh_scaled = self.normalize_input(self.sample_xh)
         self.sample_yh_scaled = self.normalize_hf_output(self.sample_yh)
diff --git a/src/mfpml/models/mf_gaussian_process.py b/src/mfpml/models/mf_gaussian_process.py
index 9fb121d..073abf4 100644
--- a/src/mfpml/models/mf_gaussian_process.py
+++ b/src/mfpml/models/mf_gaussian_process.py
@@ -87,9 +87,9 @@ class _mfGaussianProcess:
         # gaussian process regression will normalize the input directly
         self.lfGP.train(X, Y)
         # normalize the input
-        self.sample_xl = X
+        self.sample_xl = np.array(X)
         self.sample_xl_scaled = self.normalize_input(X)
-        self.sample_yl = Y
+        self.sample_yl = np.array(Y)
 
     def predict_lf(
         self, X: np.ndarray, return_std: bool = False
diff --git a/src/mfpml/models/scale_kriging.py b/src/mfpml/models/scale_kriging.py
index 753efb2..0842340 100644
--- a/src/mfpml/models/scale_kriging.py
+++ b/src/mfpml/models/scale_kriging.py
@@ -97,8 +97,8 @@ class ScaledKriging(_mfGaussianProcess):
         sample_yh : np.ndarray
             array of high-fidelity responses
         """
-        self.sample_xh = sample_xh
-        self.sample_yh = sample_yh.reshape(-1, 1)
+        self.sample_xh = np.array(sample_xh)
+        self.sample_yh = np.array(sample_yh).reshape(-1, 1)
         if self.rho_optimize:
             self._rho_optimize()
         self.disc_model.train(self.sample_xh, self._getDisc())
-- 
2.43.0


From 8fa6bc604ad3a9ab734845d44d961f85faff7fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:05 +0000
Subject: [PATCH 29/30] fix: runs saving their steps in one folder shared one
 temporary file

---
 .../optimization/evolutionary_algorithms.py   | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/mfpml/optimization/evolutionary_algorithms.py b/src/mfpml/optimization/evolutionary_algorithms.py
index cf269ee..0a9b523 100644
--- a/src/mfpml/optimization/evolutionary_algorithms.py
+++ b/src/mfpml/optimization/evolutionary_algorithms.py
@@ -1,5 +1,7 @@
+import contextlib
 import os
 import pickle
+import threading
 from typing import Any
 
 import matplotlib.pyplot as plt
@@ -147,12 +149,19 @@ class EABase:
             "gen": self.num_gen,
         }
 
-        # never leave a torn checkpoint: write aside, then replace
-        with open("step_results.pickle.tmp", "wb") as f:
-            pickle.dump(results, f)
-            f.flush()
-            os.fsync(f.fileno())
-        os.replace("step_results.pickle.tmp", "step_results.pickle")
+        # never leave a torn checkpoint: write aside, under a name that no
+        # other run in this folder uses, then replace
+        tmp = f"step_results.pickle.{os.getpid()}.{threading.get_ident()}.tmp"
+        try:
+            with open(tmp, "wb") as f:
+                pickle.dump(results, f)
+                f.flush()
+                os.fsync(f.fileno())
+            os.replace(tmp, "step_results.pickle")
+        except BaseException:
+            with contextlib.suppress(OSError):
+                os.remove(tmp)
+            raise
 
     def print_info(self, iter: int) -> None:
         print(
-- 
2.43.0


From 9cd4114840bad7be4e3b1379ab2bacb9e74513d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:33 +0000
Subject: [PATCH 30/30] fix: training with a scale factor optimiser plotted its
 history, left figures open and required a plotting method

---
 src/mfpml/models/scale_kriging.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/mfpml/models/scale_kriging.py b/src/mfpml/models/scale_kriging.py
index 0842340..b93dfb8 100644
--- a/src/mfpml/models/scale_kriging.py
+++ b/src/mfpml/models/scale_kriging.py
@@ -170,14 +170,12 @@ class ScaledKriging(_mfGaussianProcess):
                     num_dim=1,
                     design_space=np.array([self.rho_bound]),
                 )
-                self.rho_optimizer.plot_optimization_history()
             elif self.rho_method == "bumpiness":
                 optRes, _, _ = self.rho_optimizer.run_optimizer(
                     self._eval_bumpiness,
                     num_dim=1,
                     design_space=np.array([self.rho_bound]),
                 )
-                self.rho_optimizer.plot_optimization_history()
             else:
                 pass
             self.rho = optRes["best_x"]
-- 
2.43.0

