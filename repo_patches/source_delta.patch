From f4c7150ba9a014d1e37b404f7600480fbf641483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:06 +0000
Subject: [PATCH 01/92] fix: keep per-dimension options of RBF and RMTS as set
 by the user

Training replaced d0, smoothness, num_ctrl_pts, order and num_elements by
arrays sized for the current number of inputs; training again with another
number of inputs then read past the end of these arrays in the native code
or failed.
---
 smt/surrogate_models/rbf.py  | 12 ++++++++----
 smt/surrogate_models/rmtb.py | 10 ++--------
 smt/surrogate_models/rmtc.py |  8 +-------
 smt/surrogate_models/rmts.py | 17 ++++++++++++++++-
 4 files changed, 27 insertions(+), 20 deletions(-)

diff --git a/smt/surrogate_models/rbf.py b/smt/surrogate_models/rbf.py
index dc0f3da..582ea20 100644
--- a/smt/surrogate_models/rbf.py
+++ b/smt/surrogate_models/rbf.py
@@ -60,9 +60,13 @@ class RBF(SurrogateModel):
         options = self.options
 
         nx = self.training_points[None][0][0].shape[1]
-        if isinstance(options["d0"], (int, float)):
-            options["d0"] = [options["d0"]] * nx
-        options["d0"] = np.array(np.atleast_1d(options["d0"]), dtype=float)
+        # The option itself is left as set by the user: the number of inputs may change
+        d0 = options["d0"]
+        if isinstance(d0, (int, float)):
+            d0 = [d0] * nx
+        d0 = np.array(np.atleast_1d(d0), dtype=float)
+        if d0.shape != (nx,):
+            raise ValueError("d0 should be a scalar or have a length of %i" % nx)
 
         self.printer.max_print_depth = options["max_print_depth"]
 
@@ -92,7 +96,7 @@ class RBF(SurrogateModel):
             nt,
             num["dof"],
             options["poly_degree"],
-            options["d0"],
+            d0,
             xt.flatten(),
         )
 
diff --git a/smt/surrogate_models/rmtb.py b/smt/surrogate_models/rmtb.py
index f0b6b19..b0160ca 100644
--- a/smt/surrogate_models/rmtb.py
+++ b/smt/surrogate_models/rmtb.py
@@ -57,12 +57,6 @@ class RMTB(RMTS):
 
     def _setup(self):
         options = self.options
-        nx = self.training_points[None][0][0].shape[1]
-
-        for name in ["smoothness", "num_ctrl_pts", "order"]:
-            if isinstance(options[name], (int, float)):
-                options[name] = [options[name]] * nx
-            options[name] = np.atleast_1d(options[name])
 
         self.printer.max_print_depth = options["max_print_depth"]
 
@@ -70,9 +64,9 @@ class RMTB(RMTS):
         # number of inputs and outputs
         num["x"] = self.training_points[None][0][0].shape[1]
         num["y"] = self.training_points[None][0][1].shape[1]
-        num["order_list"] = np.array(options["order"], int)
+        num["order_list"] = np.array(self._get_list_option("order"), int)
         num["order"] = np.prod(num["order_list"])
-        num["ctrl_list"] = np.array(options["num_ctrl_pts"], int)
+        num["ctrl_list"] = np.array(self._get_list_option("num_ctrl_pts"), int)
         num["ctrl"] = np.prod(num["ctrl_list"])
         num["elem_list"] = np.array(num["ctrl_list"] - num["order_list"] + 1, int)
         num["elem"] = np.prod(num["elem_list"])
diff --git a/smt/surrogate_models/rmtc.py b/smt/surrogate_models/rmtc.py
index 7a43602..8ba7bb2 100644
--- a/smt/surrogate_models/rmtc.py
+++ b/smt/surrogate_models/rmtc.py
@@ -50,12 +50,6 @@ class RMTC(RMTS):
 
     def _setup(self):
         options = self.options
-        nx = self.training_points[None][0][0].shape[1]
-
-        for name in ["smoothness", "num_elements"]:
-            if isinstance(options[name], (int, float)):
-                options[name] = [options[name]] * nx
-            options[name] = np.atleast_1d(options[name])
 
         self.printer.max_print_depth = options["max_print_depth"]
 
@@ -64,7 +58,7 @@ class RMTC(RMTS):
         num["x"] = self.training_points[None][0][0].shape[1]
         num["y"] = self.training_points[None][0][1].shape[1]
         # number of elements
-        num["elem_list"] = np.array(options["num_elements"], int)
+        num["elem_list"] = np.array(self._get_list_option("num_elements"), int)
         num["elem"] = np.prod(num["elem_list"])
         # number of terms/coefficients per element
         num["term_list"] = 4 * np.ones(num["x"], int)
diff --git a/smt/surrogate_models/rmts.py b/smt/surrogate_models/rmts.py
index de7c46c..5a66257 100644
--- a/smt/surrogate_models/rmts.py
+++ b/smt/surrogate_models/rmts.py
@@ -144,6 +144,19 @@ class RMTS(SurrogateModel):
             full_jac = full_jac * self.full_dof2coeff
         return full_jac
 
+    def _get_list_option(self, name):
+        # Value of an option in each dimension; the option itself is left as set by
+        # the user because the number of inputs may change from a training to another.
+        nx = self.training_points[None][0][0].shape[1]
+
+        value = self.options[name]
+        if isinstance(value, (Integral, float)):
+            value = [value] * nx
+        value = np.atleast_1d(value)
+        if value.shape != (nx,):
+            raise ValueError("%s should be a scalar or have a length of %i" % (name, nx))
+        return value
+
     def _compute_approx_terms(self):
         # This computes the approximation terms for the training points.
         # We loop over kx: 0 is for values and kx>0 represents.
@@ -214,12 +227,14 @@ class RMTS(SurrogateModel):
         elem_vol = np.prod((xlimits[:, 1] - xlimits[:, 0]) / (2 * num["elem_list"]))
         total_vol = np.prod(xlimits[:, 1] - xlimits[:, 0])
 
+        smoothness = self._get_list_option("smoothness")
+
         full_hess = scipy.sparse.csc_matrix((num["dof"], num["dof"]))
         for kx in range(num["x"]):
             full_hess += sq_mtx[kx] * (
                 elem_vol
                 / total_vol
-                * self.options["smoothness"][kx]
+                * smoothness[kx]
                 / (xlimits[kx, 1] - xlimits[kx, 0]) ** 4
             )
 
-- 
2.43.0


From e7403572af37ba54c51a2a8c5b0ef36b8278b189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:31 +0000
Subject: [PATCH 02/92] fix: Kriging training no longer alters the options
 theta0, noise0, n_comp and eval_noise

The options were expanded or replaced in place by training, so a second
training started from other values (KPLSK, MFK), failed when the number of
inputs changed, or failed because GEKPLS had multiplied its point count.
---
 smt/surrogate_models/gekpls.py    |  2 +-
 smt/surrogate_models/krg_based.py | 20 +++++++++++++++++---
 smt/surrogate_models/krg_mgp.py   |  2 +-
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/smt/surrogate_models/gekpls.py b/smt/surrogate_models/gekpls.py
index 392dedb..4810630 100644
--- a/smt/surrogate_models/gekpls.py
+++ b/smt/surrogate_models/gekpls.py
@@ -49,8 +49,8 @@ class GEKPLS(KPLS):
                 self.options["extra_points"],
             )
             if self.options["extra_points"] != 0:
-                self.nt *= self.options["extra_points"] + 1
                 X = np.vstack((X, XX))
                 y = np.vstack((y, yy))
+                self.nt = X.shape[0]
 
         return X, y
diff --git a/smt/surrogate_models/krg_based.py b/smt/surrogate_models/krg_based.py
index 38f750a..d866b31 100644
--- a/smt/surrogate_models/krg_based.py
+++ b/smt/surrogate_models/krg_based.py
@@ -195,7 +195,21 @@ class KrgBased(SurrogateModel):
         """
         # outputs['sol'] = self.sol
 
-        self._new_train()
+        # Training works on adapted values of these options (sized for the current
+        # data, changed between the steps of the training): the values set by the
+        # user are put back so that the next training starts from them.
+        user_options = {
+            name: self.options[name]
+            for name in ["theta0", "noise0", "n_comp", "eval_noise"]
+            if self.options.is_declared(name)
+        }
+        self.nb_ill_matrix = 5
+        try:
+            for name in ["theta0", "noise0"]:
+                self.options[name] = deepcopy(user_options[name])
+            self._new_train()
+        finally:
+            self.options.update(user_options)
 
     def _reduced_likelihood_function(self, theta):
         """
@@ -1153,7 +1167,7 @@ class KrgBased(SurrogateModel):
 
         if len(self.options["theta0"]) != d:
             if len(self.options["theta0"]) == 1:
-                self.options["theta0"] *= np.ones(d)
+                self.options["theta0"] = self.options["theta0"] * np.ones(d)
             else:
                 raise ValueError(
                     "the length of theta0 (%s) should be equal to the number of dim (%s)."
@@ -1163,7 +1177,7 @@ class KrgBased(SurrogateModel):
         if self.options["use_het_noise"] and not self.options["eval_noise"]:
             if len(self.options["noise0"]) != self.nt:
                 if len(self.options["noise0"]) == 1:
-                    self.options["noise0"] *= np.ones(self.nt)
+                    self.options["noise0"] = self.options["noise0"] * np.ones(self.nt)
                 else:
                     raise ValueError(
                         "for the heteroscedastic case, the length of noise0 (%s) should be equal to the number of observations (%s)."
diff --git a/smt/surrogate_models/krg_mgp.py b/smt/surrogate_models/krg_mgp.py
index 8040e98..4f6fb76 100644
--- a/smt/surrogate_models/krg_mgp.py
+++ b/smt/surrogate_models/krg_mgp.py
@@ -510,7 +510,7 @@ class MGP(KrgBased):
 
         if len(self.options["theta0"]) != d:
             if len(self.options["theta0"]) == 1:
-                self.options["theta0"] *= np.ones(d)
+                self.options["theta0"] = self.options["theta0"] * np.ones(d)
             else:
                 raise ValueError(
                     "the number of dim %s should be equal to the length of theta0 %s."
-- 
2.43.0


From d7934e67753c4474825b05920cc8826f2371a124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:56 +0000
Subject: [PATCH 03/92] fix: QP derivatives with several outputs

---
 smt/surrogate_models/qp.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/smt/surrogate_models/qp.py b/smt/surrogate_models/qp.py
index d8492e4..c7312ff 100644
--- a/smt/surrogate_models/qp.py
+++ b/smt/surrogate_models/qp.py
@@ -116,19 +116,18 @@ class QP(SurrogateModel):
         dim = self.nx
 
         linear_coef = self.coef[1 + kx, :]
-        quad_coef = 2 * self.coef[1 + dim + kx, :] * x[:, kx]
-        neval = np.size(quad_coef, 0)
-        cross_coef = np.zeros(neval)
+        quad_coef = 2 * self.coef[1 + dim + kx, :] * x[:, [kx]]
+        cross_coef = np.zeros(quad_coef.shape)
 
         for i in range(dim):
             if i > kx:
                 k = int(
                     2 * dim + 2 + (kx) * dim - ((kx + 1) * (kx)) / 2 + (i - (kx + 2))
                 )
-                cross_coef += self.coef[k, :] * x[:, i]
+                cross_coef += self.coef[k, :] * x[:, [i]]
             elif i < kx:
                 k = int(2 * dim + 2 + (i) * dim - ((i + 1) * (i)) / 2 + (kx - (i + 2)))
-                cross_coef += self.coef[k, :] * x[:, i]
+                cross_coef += self.coef[k, :] * x[:, [i]]
 
         y = (linear_coef + quad_coef + cross_coef).reshape((x.shape[0], self.ny))
         return y
-- 
2.43.0


From 33631d7c5e5ddbdf394d731da994b56eb6ace055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:56 +0000
Subject: [PATCH 04/92] fix: GENN Jacobian for a single example and for several
 outputs

---
 smt/utils/neural_net/fwd_prop.py | 3 ---
 smt/utils/neural_net/model.py    | 9 +++++++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/smt/utils/neural_net/fwd_prop.py b/smt/utils/neural_net/fwd_prop.py
index 28cc49e..109da8e 100644
--- a/smt/utils/neural_net/fwd_prop.py
+++ b/smt/utils/neural_net/fwd_prop.py
@@ -198,7 +198,4 @@ def L_grads_forward(X, parameters, activations):
         # Store partial
         JL[:, j, :] = A_prime_j
 
-    if m == 1:
-        JL = JL[:, :, 0]
-
     return JL, J_caches
diff --git a/smt/utils/neural_net/model.py b/smt/utils/neural_net/model.py
index 3afba81..2065a97 100644
--- a/smt/utils/neural_net/model.py
+++ b/smt/utils/neural_net/model.py
@@ -98,7 +98,11 @@ class Model(object):
     def training_data(self):
         X = self._X_norm * self._scale_factors["x"][1] + self._scale_factors["x"][0]
         Y = self._Y_norm * self._scale_factors["y"][1] + self._scale_factors["y"][0]
-        J = self._J_norm * self._scale_factors["y"][1] / self._scale_factors["x"][1]
+        J = (
+            self._J_norm
+            * np.reshape(self._scale_factors["y"][1], (-1, 1, 1))
+            / np.reshape(self._scale_factors["x"][1], (1, -1, 1))
+        )
         return X, Y, J
 
     def __init__(self, **kwargs):
@@ -434,7 +438,8 @@ class Model(object):
         Y_norm, _ = L_model_forward(X_norm, self.parameters, self.activations)
         J_norm, _ = L_grads_forward(X_norm, self.parameters, self.activations)
 
-        J = (J_norm * sigma_y / sigma_x).reshape(
+        scale = np.reshape(sigma_y, (-1, 1, 1)) / np.reshape(sigma_x, (1, -1, 1))
+        J = (J_norm * scale).reshape(
             self.number_of_outputs, self.number_of_inputs, number_of_examples
         )
 
-- 
2.43.0


From 142939921223b3a69bdcb32c12a295e711cd2845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:56 +0000
Subject: [PATCH 05/92] fix: GENN back-propagation with a gradient enhancement
 other than 0 or 1

---
 smt/utils/neural_net/bwd_prop.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smt/utils/neural_net/bwd_prop.py b/smt/utils/neural_net/bwd_prop.py
index 7af5550..828c528 100644
--- a/smt/utils/neural_net/bwd_prop.py
+++ b/smt/utils/neural_net/bwd_prop.py
@@ -142,7 +142,8 @@ def linear_activation_backward(dA, dA_prime, cache, J_cache, lambd, gamma):
                 * np.sum(dA_prime_j * G_prime_prime * Z_prime_j, axis=1, keepdims=True)
             )
             dA_prev += gamma * np.dot(W.T, dA_prime_j * G_prime_prime * Z_prime_j)
-            dA_prime_prev[:, j, :] = gamma * np.dot(W.T, dA_prime_j * G_prime)
+            # (gamma is applied where dA_prime is used, once per layer)
+            dA_prime_prev[:, j, :] = np.dot(W.T, dA_prime_j * G_prime)
 
     return dA_prev, dW, db, dA_prime_prev
 
-- 
2.43.0


From 3cfa87dd7c77fcbd2e89a3884d427259a3bc9d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:08 +0000
Subject: [PATCH 06/92] fix: MGP predictions accept 1-D arrays and reject
 non-arrays as documented

---
 smt/surrogate_models/krg_mgp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/smt/surrogate_models/krg_mgp.py b/smt/surrogate_models/krg_mgp.py
index 4f6fb76..8eeabce 100644
--- a/smt/surrogate_models/krg_mgp.py
+++ b/smt/surrogate_models/krg_mgp.py
@@ -11,6 +11,7 @@ from scipy import linalg
 from smt.utils.kriging_utils import differences
 from smt.surrogate_models.krg_based import KrgBased
 from smt.utils.kriging_utils import componentwise_distance
+from smt.utils.checks import ensure_2d_array
 
 """
 The Active kriging class.
@@ -86,6 +87,7 @@ class MGP(KrgBased):
             MSE or (MSE, MGP-MSE).
 
         """
+        x = ensure_2d_array(x, "x")
         n_eval, n_features = x.shape
 
         if n_features < self.nx:
@@ -146,6 +148,7 @@ class MGP(KrgBased):
             Value of the MGP at the given point x.
 
         """
+        x = ensure_2d_array(x, "x")
         n_eval, n_features = x.shape
         if n_features < self.nx:
             if n_features != self.options["n_comp"]:
-- 
2.43.0


From 8be13f446eac7919412cd414a444ce050e3aebb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:08 +0000
Subject: [PATCH 07/92] fix: MFK accepts one scalar noise0 per level, including
 its default with a single level

---
 smt/applications/mfk.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/smt/applications/mfk.py b/smt/applications/mfk.py
index 3cb50d9..7c1628c 100644
--- a/smt/applications/mfk.py
+++ b/smt/applications/mfk.py
@@ -708,6 +708,12 @@ class MFK(KrgBased):
                     % (len(self.options["noise0"]), self.nlvl)
                 )
 
+        # one array of noise variances per level
+        self.options["noise0"] = [
+            np.array(np.atleast_1d(noise0), dtype=float)
+            for noise0 in self.options["noise0"]
+        ]
+
         for i in range(self.nlvl):
             if self.options["use_het_noise"]:
                 if len(self.X[i]) == len(np.unique(self.X[i])):
-- 
2.43.0


From 14ca586605347f97a86e6aa661da3a704e004f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 08/92] fix: dense solvers accept sparse matrices and strided
 solutions, NullSolver implements _solve, clones keep options

---
 smt/utils/linear_solvers.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/smt/utils/linear_solvers.py b/smt/utils/linear_solvers.py
index 75939e6..555dd9c 100644
--- a/smt/utils/linear_solvers.py
+++ b/smt/utils/linear_solvers.py
@@ -117,7 +117,7 @@ class LinearSolver(object):
 
     def _clone(self):
         clone = self.__class__()
-        clone.options.update(clone.options._dict)
+        clone.options.update(self.options._dict)
         return clone
 
     @contextlib.contextmanager
@@ -130,7 +130,7 @@ class LinearSolver(object):
 
 
 class NullSolver(LinearSolver):
-    def solve(self, rhs, sol=None, ind_y=0):
+    def _solve(self, rhs, sol=None, ind_y=0):
         pass
 
 
@@ -138,7 +138,7 @@ class DenseCholeskySolver(LinearSolver):
     def _setup(self, mtx, printer, mg_matrices=[]):
         self.printer = printer
         with self._active(self.options["print_init"]) as printer:
-            self.mtx = mtx.A
+            self.mtx = mtx.A if scipy.sparse.issparse(mtx) else mtx
             assert isinstance(self.mtx, np.ndarray), "mtx is of type %s" % type(mtx)
 
             with printer._timed_context(
@@ -154,11 +154,8 @@ class DenseCholeskySolver(LinearSolver):
                 sol = np.array(rhs)
 
             with printer._timed_context("Back solving (%i x %i mtx)" % self.mtx.shape):
-                sol[:] = rhs
-                scipy.linalg.solve_triangular(
-                    self.upper, sol, overwrite_b=True, trans="T"
-                )
-                scipy.linalg.solve_triangular(self.upper, sol, overwrite_b=True)
+                tmp = scipy.linalg.solve_triangular(self.upper, rhs, trans="T")
+                sol[:] = scipy.linalg.solve_triangular(self.upper, tmp)
 
         return sol
 
@@ -167,13 +164,13 @@ class DenseLUSolver(LinearSolver):
     def _setup(self, mtx, printer, mg_matrices=[]):
         self.printer = printer
         with self._active(self.options["print_init"]) as printer:
-            self.mtx = mtx
-            assert isinstance(mtx, np.ndarray), "mtx is of type %s" % type(mtx)
+            self.mtx = mtx.A if scipy.sparse.issparse(mtx) else mtx
+            assert isinstance(self.mtx, np.ndarray), "mtx is of type %s" % type(mtx)
 
             with printer._timed_context(
                 "Performing LU fact. (%i x %i mtx)" % mtx.shape
             ):
-                self.fact = scipy.linalg.lu_factor(mtx)
+                self.fact = scipy.linalg.lu_factor(self.mtx)
 
     def _solve(self, rhs, sol=None, ind_y=0):
         with self._active(self.options["print_solve"]) as printer:
-- 
2.43.0


From 3817909e02617427e18b52bf7506adcbcf7fbbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:48 +0000
Subject: [PATCH 09/92] fix: line searches terminate and return a valid step
 when interpolation or bracketing fails

---
 smt/utils/line_search.py | 54 ++++++++++++++++++++++++----------------
 1 file changed, 33 insertions(+), 21 deletions(-)

diff --git a/smt/utils/line_search.py b/smt/utils/line_search.py
index 3981415..d6c091a 100644
--- a/smt/utils/line_search.py
+++ b/smt/utils/line_search.py
@@ -123,7 +123,7 @@ class BacktrackingLineSearch(LineSearch):
 
     def __call__(self, initial_a=1.0, rho=0.5):
         a = initial_a
-        while not self._func_decreased(a):
+        while a != 0.0 and not self._func_decreased(a):
             a *= rho
         return self.x + a * self.dx
 
@@ -167,11 +167,14 @@ class BracketedLineSearch(LineSearch):
                 p2 = self._phi(a2)
                 dp2 = self._dphi(a2)
 
+        # No bracket found: keep the last step known to decrease the function.
+        return self.x + a1 * self.dx
+
     def _zoom(self, a1, p1, dp1, a2, p2, dp2):
         """
         Find a solution in the interval, [a1, a2], assuming that phi(a1) < phi(a2).
         """
-        while True:
+        for ind in range(100):
             a, p, dp = self._compute_minimum(a1, p1, dp1, a2, p2, dp2)
 
             if not self._func_decreased(a) or p > p1:
@@ -193,6 +196,10 @@ class BracketedLineSearch(LineSearch):
                 p1 = p
                 dp1 = dp
 
+        # The curvature criterion could not be met: a1 is the best step that satisfies
+        # the sufficient decrease criterion (a1 = 0 if there is none).
+        return self.x + a1 * self.dx
+
     def _compute_minimum(self, a1, p1, dp1, a2, p2, dp2):
         """
         Estimate the minimum as the midpoint.
@@ -213,11 +220,18 @@ class QuadraticLineSearch(BracketedLineSearch):
         quadratic_mtx[0, :] = [1.0, a1, a1 ** 2]
         quadratic_mtx[1, :] = [1.0, a2, a2 ** 2]
         quadratic_mtx[2, :] = [0.0, 1.0, 2 * a1]
-        c0, c1, c2 = np.linalg.solve(quadratic_mtx, [p1, p2, dp1])
+        try:
+            c0, c1, c2 = np.linalg.solve(quadratic_mtx, [p1, p2, dp1])
+        except np.linalg.LinAlgError:
+            return BracketedLineSearch._compute_minimum(self, a1, p1, dp1, a2, p2, dp2)
 
         d0 = c1
         d1 = 2 * c2
 
+        if d1 == 0.0 or not min(a1, a2) <= -d0 / d1 <= max(a1, a2):
+            # The parabola has no minimum in the bracket
+            return BracketedLineSearch._compute_minimum(self, a1, p1, dp1, a2, p2, dp2)
+
         a = -d0 / d1
         p = self._phi(a)
         dp = self._dphi(a)
@@ -235,26 +249,24 @@ class CubicLineSearch(BracketedLineSearch):
         cubic_mtx[1, :] = [1.0, a2, a2 ** 2, a2 ** 3]
         cubic_mtx[2, :] = [0.0, 1.0, 2 * a1, 3 * a1 ** 2]
         cubic_mtx[3, :] = [0.0, 1.0, 2 * a2, 3 * a2 ** 2]
-        c0, c1, c2, c3 = np.linalg.solve(cubic_mtx, [p1, p2, dp1, dp2])
-
-        d0 = c1
-        d1 = 2 * c2
-        d2 = 3 * c3
-        r1, r2 = np.roots([d2, d1, d0])
+        try:
+            c0, c1, c2, c3 = np.linalg.solve(cubic_mtx, [p1, p2, dp1, dp2])
+            roots = np.roots([3 * c3, 2 * c2, c1])
+        except np.linalg.LinAlgError:
+            roots = []
 
         a = None
         p = max(p1, p2)
-        if (a1 <= r1 <= a2 or a2 <= r1 <= a1) and np.isreal(r1):
-            px = self._phi(r1)
-            if px < p:
-                a = r1
-                p = px
-                dp = self._dphi(r1)
-        if (a1 <= r2 <= a2 or a2 <= r2 <= a1) and np.isreal(r2):
-            px = self._phi(r2)
-            if px < p:
-                a = r2
-                p = px
-                dp = self._dphi(r2)
+        for r in roots:
+            if np.isreal(r) and min(a1, a2) <= np.real(r) <= max(a1, a2):
+                px = self._phi(np.real(r))
+                if px < p:
+                    a = np.real(r)
+                    p = px
+                    dp = self._dphi(a)
+
+        if a is None:
+            # The cubic has no minimum in the bracket
+            return BracketedLineSearch._compute_minimum(self, a1, p1, dp1, a2, p2, dp2)
 
         return a, p, dp
-- 
2.43.0


From a8c1e59f1e4585e4ec6b11b7cc00ebff35fc82b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:12 +0000
Subject: [PATCH 10/92] fix: Krylov solvers return the iterate with the
 smallest residual

---
 smt/utils/linear_solvers.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/smt/utils/linear_solvers.py b/smt/utils/linear_solvers.py
index 555dd9c..f5a1924 100644
--- a/smt/utils/linear_solvers.py
+++ b/smt/utils/linear_solvers.py
@@ -296,16 +296,34 @@ class KrylovSolver(LinearSolver):
                 self.callback.rhs = rhs
 
                 self.callback._print_sol(sol)
+
+                # The default tolerance cannot be reached in floating-point
+                # arithmetic, and iterating beyond convergence can diverge:
+                # keep the iterate with the smallest residual.
+                best = [np.inf, sol]
+
+                def keep_best(iterate):
+                    norm = np.linalg.norm(self.mtx.dot(iterate) - rhs)
+                    if norm < best[0]:
+                        best[:] = norm, np.array(iterate)
+
+                def callback_func(iterate):
+                    self.callback_func(iterate)
+                    if np.ndim(iterate) == 1:
+                        keep_best(iterate)
+
+                keep_best(sol)
                 tmp, info = self.solver(
                     self.mtx,
                     rhs,
                     x0=sol,
                     M=self.pc_op,
-                    callback=self.callback_func,
+                    callback=callback_func,
                     **self.solver_kwargs
                 )
+                keep_best(tmp)
 
-            sol[:] = tmp
+            sol[:] = best[1]
 
         return sol
 
-- 
2.43.0


From c604d987f29305e583acd3b93682bf88fd0c70f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:20 +0000
Subject: [PATCH 11/92] fix: predictions after the training data changed use
 the trained data or raise

---
 smt/surrogate_models/idw.py             | 15 ++++++---------
 smt/surrogate_models/rbf.py             | 10 +++++-----
 smt/surrogate_models/surrogate_model.py | 24 ++++++++++++++++++++++++
 3 files changed, 35 insertions(+), 14 deletions(-)

diff --git a/smt/surrogate_models/idw.py b/smt/surrogate_models/idw.py
index 9dce6b8..d265189 100644
--- a/smt/surrogate_models/idw.py
+++ b/smt/surrogate_models/idw.py
@@ -41,7 +41,7 @@ class IDW(SurrogateModel):
         supports["output_derivatives"] = True
 
     def _setup(self):
-        xt = self.training_points[None][0][0]
+        xt, self.yt = self.training_points[None][0]
         nt = xt.shape[0]
         nx = xt.shape[1]
 
@@ -82,9 +82,8 @@ class IDW(SurrogateModel):
         This function is used by _predict function. See _predict for more details.
         """
         n = x.shape[0]
-        nt = self.nt
-
-        yt = self.training_points[None][0][1]
+        yt = self.yt
+        nt = yt.shape[0]
 
         jac = np.empty(n * nt)
         self.idwc.compute_jac(n, x.flatten(), jac)
@@ -110,9 +109,8 @@ class IDW(SurrogateModel):
             Derivative values.
         """
         n = x.shape[0]
-        nt = self.nt
-
-        yt = self.training_points[None][0][1]
+        yt = self.yt
+        nt = yt.shape[0]
 
         jac = np.empty(n * nt)
         self.idwc.compute_jac_derivs(n, kx, x.flatten(), jac)
@@ -123,8 +121,7 @@ class IDW(SurrogateModel):
 
     def _predict_output_derivatives(self, x):
         n = x.shape[0]
-        nt = self.nt
-        ny = self.training_points[None][0][1].shape[1]
+        nt, ny = self.yt.shape
 
         jac = np.empty(n * nt)
         self.idwc.compute_jac(n, x.flatten(), jac)
diff --git a/smt/surrogate_models/rbf.py b/smt/surrogate_models/rbf.py
index 582ea20..539b80f 100644
--- a/smt/surrogate_models/rbf.py
+++ b/smt/surrogate_models/rbf.py
@@ -201,9 +201,9 @@ class RBF(SurrogateModel):
 
     def _predict_output_derivatives(self, x):
         n = x.shape[0]
-        nt = self.nt
-        ny = self.training_points[None][0][1].shape[1]
         num = self.num
+        nt = num["radial"]
+        ny = num["y"]
 
         dy_dstates = np.empty(n * num["dof"])
         self.rbfc.compute_jac(n, x.flatten(), dy_dstates)
@@ -211,9 +211,9 @@ class RBF(SurrogateModel):
 
         dstates_dytl = np.linalg.inv(self.mtx)
 
-        ones = np.ones(self.nt)
-        arange = np.arange(self.nt)
-        dytl_dyt = csc_matrix((ones, (arange, arange)), shape=(num["dof"], self.nt))
+        ones = np.ones(nt)
+        arange = np.arange(nt)
+        dytl_dyt = csc_matrix((ones, (arange, arange)), shape=(num["dof"], nt))
 
         dy_dyt = (dytl_dyt.T.dot(dstates_dytl.T).dot(dy_dstates.T)).T
         dy_dyt = np.einsum("ij,k->ijk", dy_dyt, np.ones(ny))
diff --git a/smt/surrogate_models/surrogate_model.py b/smt/surrogate_models/surrogate_model.py
index 32e4e08..9cb9778 100644
--- a/smt/surrogate_models/surrogate_model.py
+++ b/smt/surrogate_models/surrogate_model.py
@@ -164,6 +164,7 @@ class SurrogateModel(object, metaclass=ABCMeta):
                 + "set_training_values."
             )
 
+        self.ny = yt.shape[1]
         self.training_points[name][kx][1] = np.array(yt)
 
     def set_training_derivatives(
@@ -267,8 +268,26 @@ class SurrogateModel(object, metaclass=ABCMeta):
             self.printer._title("Training")
 
         # Train the model using the specified model-method
+        self._trained_shape = None
         with self.printer._timed_context("Training", "training"):
             self._train()
+        self._trained_shape = (self.nt, self.nx, self.ny)
+
+    def _check_trained_shape(self) -> None:
+        """
+        Check that the shape of the training data is the one the model was trained with.
+
+        Raises
+        ------
+        ValueError
+            The training data were changed after the last call of train.
+        """
+        shape = getattr(self, "_trained_shape", None)
+        if shape is not None and shape != (self.nt, self.nx, self.ny):
+            raise ValueError(
+                "the training data have changed since the last training: "
+                + "train must be called before predicting"
+            )
 
     def predict_values(self, x: np.ndarray) -> np.ndarray:
         """
@@ -286,6 +305,7 @@ class SurrogateModel(object, metaclass=ABCMeta):
         """
         x = ensure_2d_array(x, "x")
         check_nx(self.nx, x)
+        self._check_trained_shape()
         n = x.shape[0]
         x2 = np.copy(x)
         self.printer.active = (
@@ -328,6 +348,7 @@ class SurrogateModel(object, metaclass=ABCMeta):
         check_support(self, "derivatives")
         x = ensure_2d_array(x, "x")
         check_nx(self.nx, x)
+        self._check_trained_shape()
         n = x.shape[0]
         self.printer.active = (
             self.options["print_global"] and self.options["print_prediction"]
@@ -370,6 +391,7 @@ class SurrogateModel(object, metaclass=ABCMeta):
         check_support(self, "output_derivatives")
         x = ensure_2d_array(x, "x")
         check_nx(self.nx, x)
+        self._check_trained_shape()
 
         dy_dyt = self._predict_output_derivatives(x)
         return dy_dyt
@@ -391,6 +413,7 @@ class SurrogateModel(object, metaclass=ABCMeta):
         check_support(self, "variances")
         x = ensure_2d_array(x, "x")
         check_nx(self.nx, x)
+        self._check_trained_shape()
         n = x.shape[0]
         x2 = np.copy(x)
         s2 = self._predict_variances(x2)
@@ -413,6 +436,7 @@ class SurrogateModel(object, metaclass=ABCMeta):
         x = ensure_2d_array(x, "x")
         check_support(self, "variance_derivatives")
         check_nx(self.nx, x)
+        self._check_trained_shape()
         n = x.shape[0]
         self.printer.active = (
             self.options["print_global"] and self.options["print_prediction"]
-- 
2.43.0


From 50c6310e7919613ff8cea0d135fea176169ea347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:20 +0000
Subject: [PATCH 12/92] fix: RMTS uses the grad_weight option

---
 smt/surrogate_models/rmts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/surrogate_models/rmts.py b/smt/surrogate_models/rmts.py
index 5a66257..f744aec 100644
--- a/smt/surrogate_models/rmts.py
+++ b/smt/surrogate_models/rmts.py
@@ -180,7 +180,7 @@ class RMTS(SurrogateModel):
             if kx == 0:
                 c = 1.0
             else:
-                self.options["grad_weight"] / xlimits.shape[0]
+                c = self.options["grad_weight"] / xlimits.shape[0]
 
             full_jac = self._compute_jac(kx, 0, xt)
             full_jac_dict[kx] = (full_jac, full_jac.T.tocsc(), c)
-- 
2.43.0


From 7940cb712f785f436f0af5c61cea5da36cf7a16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:20 +0000
Subject: [PATCH 13/92] fix: RMTS training leaves approx_order and
 nonlinear_maxiter untouched when it fails

---
 smt/surrogate_models/rmts.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/smt/surrogate_models/rmts.py b/smt/surrogate_models/rmts.py
index f744aec..21312b0 100644
--- a/smt/surrogate_models/rmts.py
+++ b/smt/surrogate_models/rmts.py
@@ -306,7 +306,7 @@ class RMTS(SurrogateModel):
             yt_dict[kx] = yt[:, ind_y]
         return yt_dict
 
-    def _run_newton_solver(self, sol):
+    def _run_newton_solver(self, sol, p, maxiter):
         num = self.num
         options = self.options
 
@@ -317,7 +317,6 @@ class RMTS(SurrogateModel):
         rhs = np.zeros((total_size, num["y"]))
         d_sol = np.zeros((total_size, num["y"]))
 
-        p = self.options["approx_order"]
         for ind_y in range(rhs.shape[1]):
 
             with self.printer._timed_context("Solving for output %i" % ind_y):
@@ -333,7 +332,7 @@ class RMTS(SurrogateModel):
 
                 iter_count = 0
                 while (
-                    iter_count < options["nonlinear_maxiter"]
+                    iter_count < maxiter
                     and norm > options["solver_tolerance"]
                 ):
                     with self.printer._timed_context():
@@ -383,21 +382,15 @@ class RMTS(SurrogateModel):
             "Solving initial startup problem (n=%i)" % total_size
         ):
 
-            approx_order = options["approx_order"]
-            nonlinear_maxiter = options["nonlinear_maxiter"]
-            options["approx_order"] = 2
-            options["nonlinear_maxiter"] = 1
-
-            self._run_newton_solver(sol)
-
-            options["approx_order"] = approx_order
-            options["nonlinear_maxiter"] = nonlinear_maxiter
+            self._run_newton_solver(sol, 2, 1)
 
         with self.printer._timed_context(
             "Solving nonlinear problem (n=%i)" % total_size
         ):
 
-            self._run_newton_solver(sol)
+            self._run_newton_solver(
+                sol, options["approx_order"], options["nonlinear_maxiter"]
+            )
 
         return sol
 
-- 
2.43.0


From a76f4426610ee6d239095eae02abd387e0c9269b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:26 +0000
Subject: [PATCH 14/92] fix: RMTS output derivatives use the Hessian at the
 solution of each output

---
 smt/surrogate_models/rmts.py | 48 ++++++++++++++++--------------------
 1 file changed, 21 insertions(+), 27 deletions(-)

diff --git a/smt/surrogate_models/rmts.py b/smt/surrogate_models/rmts.py
index 21312b0..fb54176 100644
--- a/smt/surrogate_models/rmts.py
+++ b/smt/surrogate_models/rmts.py
@@ -245,7 +245,7 @@ class RMTS(SurrogateModel):
         full_jac_dict = self.full_jac_dict
 
         func = 0.5 * np.dot(sol, full_hess * sol)
-        for kx in self.training_points[None]:
+        for kx in yt_dict:
             full_jac, full_jac_T, c = full_jac_dict[kx]
             yt = yt_dict[kx]
             func += 0.5 * c * np.sum((full_jac * sol - yt) ** p)
@@ -257,7 +257,7 @@ class RMTS(SurrogateModel):
         full_jac_dict = self.full_jac_dict
 
         grad = full_hess * sol
-        for kx in self.training_points[None]:
+        for kx in yt_dict:
             full_jac, full_jac_T, c = full_jac_dict[kx]
             yt = yt_dict[kx]
             grad += 0.5 * c * full_jac_T * p * (full_jac * sol - yt) ** (p - 1)
@@ -282,7 +282,7 @@ class RMTS(SurrogateModel):
         full_jac_dict = self.full_jac_dict
 
         hess = scipy.sparse.csc_matrix(full_hess)
-        for kx in self.training_points[None]:
+        for kx in yt_dict:
             full_jac, full_jac_T, c = full_jac_dict[kx]
             yt = yt_dict[kx]
 
@@ -301,9 +301,8 @@ class RMTS(SurrogateModel):
 
     def _get_yt_dict(self, ind_y):
         yt_dict = {}
-        for kx in self.training_points[None]:
-            xt, yt = self.training_points[None][kx]
-            yt_dict[kx] = yt[:, ind_y]
+        for kx in self.trained_yt:
+            yt_dict[kx] = self.trained_yt[kx][:, ind_y]
         return yt_dict
 
     def _run_newton_solver(self, sol, p, maxiter):
@@ -362,8 +361,6 @@ class RMTS(SurrogateModel):
                         % (iter_count, ind_y, norm, fval)
                     )
 
-                    self.mtx = mtx
-
                     iter_count += 1
 
     def _solve(self):
@@ -433,6 +430,11 @@ class RMTS(SurrogateModel):
         """
         self._setup()
 
+        # Outputs of the training points, kept for the output derivatives
+        self.trained_yt = {
+            kx: points[1] for kx, points in self.training_points[None].items()
+        }
+
         tmp = self.rmtsc
         self.rmtsc = None
 
@@ -443,7 +445,6 @@ class RMTS(SurrogateModel):
             if outputs:
                 self.sol_coeff = outputs["sol_coeff"]
                 self.sol = outputs["sol"]
-                self.mtx = outputs["mtx"]
                 self.full_dof2coeff = outputs["full_dof2coeff"]
                 self.full_hess = outputs["full_hess"]
                 self.full_jac_dict = outputs["full_jac_dict"]
@@ -451,7 +452,6 @@ class RMTS(SurrogateModel):
                 self._new_train()
                 outputs["sol_coeff"] = self.sol_coeff
                 outputs["sol"] = self.sol
-                outputs["mtx"] = self.mtx
                 outputs["full_dof2coeff"] = self.full_dof2coeff
                 outputs["full_hess"] = self.full_hess
                 outputs["full_jac_dict"] = self.full_jac_dict
@@ -550,10 +550,7 @@ class RMTS(SurrogateModel):
     def _predict_output_derivatives(self, x):
         # dy_dyt = dy_dw * (dR_dw)^{-1} * dR_dyt
 
-        n = x.shape[0]
-        nw = self.mtx.shape[0]
-        nx = x.shape[1]
-        ny = self.sol.shape[1]
+        nw, ny = self.sol.shape
 
         p = self.options["approx_order"]
 
@@ -562,27 +559,24 @@ class RMTS(SurrogateModel):
             dy_dw = dy_dw * self.full_dof2coeff
         dy_dw = dy_dw.todense()
 
-        dR_dw = self.mtx
-
         dy_dyt = {}
-        for kx in self.training_points[None]:
-            nt = self.training_points[None][kx][0].shape[0]
+        for kx in self.trained_yt:
+            nt = self.trained_yt[kx].shape[0]
 
-            dR_dyt = np.zeros((nw, nt, ny))
+            dw_dyt = np.zeros((nw, nt, ny))
             for ind_y in range(ny):
                 yt_dict = self._get_yt_dict(ind_y)
-                dR_dyt[:, :, ind_y] = self._opt_dgrad_dyt(
-                    self.sol[:, ind_y], p, yt_dict, kx
+                dR_dw = self._opt_hess(self.sol[:, ind_y], p, yt_dict)
+                dR_dyt = np.asarray(
+                    self._opt_dgrad_dyt(self.sol[:, ind_y], p, yt_dict, kx)
                 )
 
-            solver = get_solver(self.options["derivative_solver"])
-            solver._setup(dR_dw, self.printer)
+                solver = get_solver(self.options["derivative_solver"])
+                solver._setup(dR_dw, self.printer)
 
-            dw_dyt = np.zeros((nw, nt, ny))
-            for ind_t in range(nt):
-                for ind_y in range(ny):
+                for ind_t in range(nt):
                     solver._solve(
-                        dR_dyt[:, ind_t, ind_y], dw_dyt[:, ind_t, ind_y], ind_y=ind_y
+                        dR_dyt[:, ind_t], dw_dyt[:, ind_t, ind_y], ind_y=ind_y
                     )
                     dw_dyt[:, ind_t, ind_y] *= -1.0
 
-- 
2.43.0


From f73d9f9c3bef503f0c27cd5b2e07d7a98f7440bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:21 +0000
Subject: [PATCH 15/92] fix: GENN goodness_of_fit does not replace the training
 data

---
 smt/surrogate_models/genn.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/smt/surrogate_models/genn.py b/smt/surrogate_models/genn.py
index ac20253..4b5d1e3 100644
--- a/smt/surrogate_models/genn.py
+++ b/smt/surrogate_models/genn.py
@@ -239,21 +239,17 @@ class GENN(SurrogateModel):
         :param yv: np.ndarray[n, 1], y validation response
         :param dyv_dxv: np.ndarray[n, ny], dydx validation derivatives
         """
-        # Store current training points
-        training_points = self.training_points
-
-        # Replace training points with test (validation) points
-        load_smt_data(self, xv, yv, dyv_dxv)
+        # Load test (validation) points in another model, so that the training points
+        # of this one are left alone
+        validation = GENN()
+        load_smt_data(validation, xv, yv, dyv_dxv)
 
         # Convert from SMT format to a more convenient format for GENN
-        X, Y, J = smt_to_genn(self.training_points)
+        X, Y, J = smt_to_genn(validation.training_points)
 
         # Generate goodness of fit plots
         self.model.goodness_of_fit(X, Y)
 
-        # Restore training points
-        self.training_points = training_points
-
 
 def run_example(is_gradient_enhancement=True):  # pragma: no cover
     """Test and demonstrate GENN using a 1D example"""
-- 
2.43.0


From 7632539f549d32c686cdcf5b33b54569d43b8325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:21 +0000
Subject: [PATCH 16/92] fix: shape check of the training data when the shape
 was never set

---
 smt/surrogate_models/surrogate_model.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/smt/surrogate_models/surrogate_model.py b/smt/surrogate_models/surrogate_model.py
index 9cb9778..6123f2d 100644
--- a/smt/surrogate_models/surrogate_model.py
+++ b/smt/surrogate_models/surrogate_model.py
@@ -271,7 +271,10 @@ class SurrogateModel(object, metaclass=ABCMeta):
         self._trained_shape = None
         with self.printer._timed_context("Training", "training"):
             self._train()
-        self._trained_shape = (self.nt, self.nx, self.ny)
+        self._trained_shape = self._get_data_shape()
+
+    def _get_data_shape(self) -> tuple:
+        return tuple(getattr(self, attr, None) for attr in ("nt", "nx", "ny"))
 
     def _check_trained_shape(self) -> None:
         """
@@ -283,7 +286,7 @@ class SurrogateModel(object, metaclass=ABCMeta):
             The training data were changed after the last call of train.
         """
         shape = getattr(self, "_trained_shape", None)
-        if shape is not None and shape != (self.nt, self.nx, self.ny):
+        if shape is not None and shape != self._get_data_shape():
             raise ValueError(
                 "the training data have changed since the last training: "
                 + "train must be called before predicting"
-- 
2.43.0


From fe2822e18f0fce6f64c7d487184ce169c3a3e67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:22 +0000
Subject: [PATCH 17/92] fix: FullFactorial accepts integer weights and leaves
 them unchanged

---
 smt/sampling_methods/full_factorial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/sampling_methods/full_factorial.py b/smt/sampling_methods/full_factorial.py
index b6a3856..0fc63bb 100644
--- a/smt/sampling_methods/full_factorial.py
+++ b/smt/sampling_methods/full_factorial.py
@@ -48,7 +48,7 @@ class FullFactorial(ScaledSamplingMethod):
             weights = np.ones(nx) / nx
         else:
             weights = np.atleast_1d(self.options["weights"])
-            weights /= np.sum(weights)
+            weights = weights / np.sum(weights)
 
         num_list = np.ones(nx, int)
         while np.prod(num_list) < nt:
-- 
2.43.0


From c96b8b83e12406a9aa23d168b7f5a211f8940b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:22 +0000
Subject: [PATCH 18/92] fix: VFM leaves its options and the option dictionaries
 of the caller unchanged

---
 smt/applications/vfm.py | 64 ++++++++++++++++-------------------------
 1 file changed, 24 insertions(+), 40 deletions(-)

diff --git a/smt/applications/vfm.py b/smt/applications/vfm.py
index 610e2af..e3f22bd 100644
--- a/smt/applications/vfm.py
+++ b/smt/applications/vfm.py
@@ -155,12 +155,16 @@ class VFM(SurrogateBasedApplication):
             dy_HF = self.options["dy_HF"]
 
         # Check parameters
-        self._check_param()
+        class_LF, class_bridge = self._check_param()
+
+        # The options are left as set by the user
+        options_LF = dict(self.options["options_LF"])
+        options_bridge = dict(self.options["options_bridge"])
 
         # Train the low fidelity model
-        self.LF_deriv = self.options["options_LF"]["deriv"]
-        del self.options["options_LF"]["deriv"]
-        sm_LF = self.options["name_model_LF"](**self.options["options_LF"])
+        self.LF_deriv = options_LF.pop("deriv", False)
+        self.B_deriv = options_bridge.pop("deriv", False)
+        sm_LF = class_LF(**options_LF)
         sm_LF.options["print_global"] = False
         sm_LF.set_training_values(X_LF, y_LF)
         if self.LF_deriv:
@@ -172,8 +176,6 @@ class VFM(SurrogateBasedApplication):
         # compute the bridge data
         if self.options["type_bridge"] == "Multiplicative":
             y_bridge = y_HF / sm_LF.predict_values(X_HF)
-            self.B_deriv = self.options["options_bridge"]["deriv"]
-            del self.options["options_bridge"]["deriv"]
             if self.B_deriv:
                 dy_bridge = np.zeros(dy_HF.shape)
                 for i in range(sm_LF.nx):
@@ -189,8 +191,6 @@ class VFM(SurrogateBasedApplication):
                     ).reshape(y_HF.shape[0])
         elif self.options["type_bridge"] == "Additive":
             y_bridge = y_HF - sm_LF.predict_values(X_HF)
-            self.B_deriv = self.options["options_bridge"]["deriv"]
-            del self.options["options_bridge"]["deriv"]
             if self.B_deriv:
                 dy_bridge = np.zeros(dy_HF.shape)
                 for i in range(sm_LF.nx):
@@ -202,7 +202,7 @@ class VFM(SurrogateBasedApplication):
             raise ValueError("Only Additive and Multiplicative bridges are available")
 
         # Construct of the bridge function
-        sm_bridge = self.options["name_model_bridge"](**self.options["options_bridge"])
+        sm_bridge = class_bridge(**options_bridge)
         sm_bridge.set_training_values(X_HF, y_bridge)
         if self.B_deriv and self.options["dy_HF"] is not None:
             for i in range(sm_bridge.nx):
@@ -242,35 +242,19 @@ class VFM(SurrogateBasedApplication):
     def _check_param(self):
 
         """
-        This function check some parameters of the model.
+        This function check some parameters of the model and returns
+        the classes of the low-fidelity and of the bridge surrogates.
         """
-        # Check surrogates
-        if not callable(self.options["name_model_LF"]):
-            if self.options["name_model_LF"] in self._surrogate_type:
-                self.options["name_model_LF"] = self._surrogate_type[
-                    self.options["name_model_LF"]
-                ]
-            else:
-                raise ValueError(
-                    "The LF surrogate should be one of %s, "
-                    "%s was given."
-                    % (self._surrogate_type.keys(), self.options["name_model_LF"])
-                )
-
-        if not callable(self.options["name_model_bridge"]):
-            if self.options["name_model_bridge"] in self._surrogate_type:
-                self.options["name_model_bridge"] = self._surrogate_type[
-                    self.options["name_model_bridge"]
-                ]
-            else:
-                raise ValueError(
-                    "The bridge surrogate should be one of %s, "
-                    "%s was given."
-                    % (self._surrogate_type.keys(), self.options["name_model_bridge"])
-                )
-
-        # Initialize the parameter deriv
-        if "deriv" not in self.options["options_LF"].keys():
-            self.options["options_LF"]["deriv"] = False
-        if "deriv" not in self.options["options_bridge"].keys():
-            self.options["options_bridge"]["deriv"] = False
+        classes = []
+        for name, label in (("name_model_LF", "LF"), ("name_model_bridge", "bridge")):
+            model = self.options[name]
+            if not callable(model):
+                if model not in self._surrogate_type:
+                    raise ValueError(
+                        "The %s surrogate should be one of %s, "
+                        "%s was given." % (label, self._surrogate_type.keys(), model)
+                    )
+                model = self._surrogate_type[model]
+            classes.append(model)
+
+        return classes
-- 
2.43.0


From d297293cd649dc11449f65f5ea637704527cbf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:39 +0000
Subject: [PATCH 19/92] fix: MOE copies the training data it is given

---
 smt/applications/moe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smt/applications/moe.py b/smt/applications/moe.py
index ff373ef..bc37b24 100644
--- a/smt/applications/moe.py
+++ b/smt/applications/moe.py
@@ -190,8 +190,8 @@ class MOE(SurrogateBasedApplication):
             An optional label for the group of training points being set.
             This is only used in special situations (e.g., multi-fidelity applications).
         """
-        self.xt = xt
-        self.yt = yt
+        self.xt = np.array(xt)
+        self.yt = np.array(yt)
 
     def train(self):
         """
-- 
2.43.0


From 02b7e53777bc32d555b47b948a0c1a671c2e66b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:39 +0000
Subject: [PATCH 20/92] fix: MOE accepts an array as clustering criterion ct

---
 smt/applications/moe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/applications/moe.py b/smt/applications/moe.py
index bc37b24..f9dd3c7 100644
--- a/smt/applications/moe.py
+++ b/smt/applications/moe.py
@@ -206,7 +206,7 @@ class MOE(SurrogateBasedApplication):
             self.x = x = self.options["xt"]
             self.y = y = self.options["yt"]
         self.c = c = self.options["ct"]
-        if not self.c:
+        if c is None:
             self.c = c = y
 
         self.n_clusters = self.options["n_clusters"]
-- 
2.43.0


From a056f3a15b68f6cbe961a47c27f7157efeca5441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:39 +0000
Subject: [PATCH 21/92] fix: MOE raises the error it builds when no expert is
 left

---
 smt/applications/moe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/applications/moe.py b/smt/applications/moe.py
index f9dd3c7..751e08c 100644
--- a/smt/applications/moe.py
+++ b/smt/applications/moe.py
@@ -367,7 +367,7 @@ class MOE(SurrogateBasedApplication):
                 if name not in self.options["deny"]
             }
         if not prototypes:
-            ValueError(
+            raise ValueError(
                 "List of possible experts is empty: check support, allow and deny options wrt"
             )
         return {name: self._surrogate_type[name] for name in prototypes}
-- 
2.43.0


From 167a04c09b1bdf60dfc665d865604fc57f335af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:39 +0000
Subject: [PATCH 22/92] fix: MOE compares each validation output with its own
 prediction when it selects the experts

---
 smt/applications/moe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/applications/moe.py b/smt/applications/moe.py
index 751e08c..d0a6073 100644
--- a/smt/applications/moe.py
+++ b/smt/applications/moe.py
@@ -551,7 +551,7 @@ class MOE(SurrogateBasedApplication):
             sm.train()
 
             expected = test_values[:, dim]
-            actual = sm.predict_values(test_values[:, 0:dim])
+            actual = sm.predict_values(test_values[:, 0:dim])[:, 0]
             l_two = np.linalg.norm(expected - actual, 2)
             # l_two_rel = l_two / np.linalg.norm(expected, 2)
             # mse = (l_two**2) / len(expected)
-- 
2.43.0


From b08727b582c11b75e828ed678444dd9aaf5a271b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:39 +0000
Subject: [PATCH 23/92] fix: MOE membership probabilities sum to one far from
 the training points

---
 smt/applications/moe.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/smt/applications/moe.py b/smt/applications/moe.py
index d0a6073..78dcb20 100644
--- a/smt/applications/moe.py
+++ b/smt/applications/moe.py
@@ -702,14 +702,12 @@ class MOE(SurrogateBasedApplication):
             x membership probability for each cluster
         """
         weights = np.array(self.cluster.weights_)
-        rvs = np.array([distribs[k].pdf(x) for k in range(len(weights))])
+        # The logarithm does not underflow far from the clusters
+        log_rvs = np.array([distribs[k].logpdf(x) for k in range(len(weights))])
 
-        probs = weights * rvs
-        rad = np.sum(probs)
-
-        if rad > 0:
-            probs = probs / rad
-        return probs
+        log_probs = np.log(weights) + log_rvs
+        probs = np.exp(log_probs - np.max(log_probs))
+        return probs / np.sum(probs)
 
     def _proba_cluster(self, x, distribs=None):
         """
-- 
2.43.0


From b7e2970d9a1d6c73d1f3e1d9dfba6e2a770b1f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:57 +0000
Subject: [PATCH 24/92] fix: EGO uses the internal optimization that succeeds
 at the last attempt

---
 smt/applications/ego.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/applications/ego.py b/smt/applications/ego.py
index bfecfad..0e21553 100644
--- a/smt/applications/ego.py
+++ b/smt/applications/ego.py
@@ -365,7 +365,7 @@ class EGO(SurrogateBasedApplication):
                 self.log("New start point for the internal optimization")
                 n_optim += 1
 
-        if n_optim >= n_max_optim:
+        if not success:
             # self.log("Internal optimization failed at EGO iter = {}".format(k))
             return np.atleast_2d(0), False
         ind_min = np.argmin(obj_success)
-- 
2.43.0


From fcfbe6be9844be2bfcb82c3804cab6b13885782e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:57 +0000
Subject: [PATCH 25/92] fix: EGO evaluates only the points of the current
 iteration when an internal optimization fails

---
 smt/applications/ego.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/smt/applications/ego.py b/smt/applications/ego.py
index 0e21553..5ab9492 100644
--- a/smt/applications/ego.py
+++ b/smt/applications/ego.py
@@ -150,6 +150,7 @@ class EGO(SurrogateBasedApplication):
         for k in range(n_iter):
 
             # Virtual enrichement loop
+            n_virtual = 0
             for p in range(n_parallel):
                 # find next best x-coord point to evaluate
                 x_et_k, success = self._find_best_point(
@@ -172,13 +173,17 @@ class EGO(SurrogateBasedApplication):
                 # Update y_data with predicted value
                 y_data = np.atleast_2d(np.append(y_data, y_et_k)).T
                 x_data = np.atleast_2d(np.append(x_data, x_et_k, axis=0))
+                n_virtual += 1
+
+            if n_virtual == 0:
+                continue
 
             # Compute the real values of y_data
-            x_to_compute = np.atleast_2d(x_data[-n_parallel:])
+            x_to_compute = np.atleast_2d(x_data[-n_virtual:])
             if self.mixint:
                 x_to_compute = self.mixint.fold_with_enum_index(x_to_compute)
             y = self._evaluator.run(fun, x_to_compute)
-            y_data[-n_parallel:] = y
+            y_data[-n_virtual:] = y
 
         # Find the optimal point
         ind_best = np.argmin(y_data)
-- 
2.43.0


From 13a5f5b121425886bb07182a40267f7d09e8f993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:57 +0000
Subject: [PATCH 26/92] fix: EGO evaluates feasible folded points in
 mixed-integer optimization

---
 smt/applications/ego.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/smt/applications/ego.py b/smt/applications/ego.py
index 5ab9492..fb067d1 100644
--- a/smt/applications/ego.py
+++ b/smt/applications/ego.py
@@ -167,6 +167,10 @@ class EGO(SurrogateBasedApplication):
                             k, p
                         )
                     )
+                if self.mixint:
+                    # Evaluate and store a feasible point
+                    x_et_k = self.mixint.cast_to_discrete_values(x_et_k)
+
                 # Set temporaly the y-coord point based on the kriging prediction
                 y_et_k = self._get_virtual_point(np.atleast_2d(x_et_k), y_data)
 
@@ -293,7 +297,10 @@ class EGO(SurrogateBasedApplication):
 
         ydoe = self.options["ydoe"]
         if ydoe is None:
-            y_doe = self._evaluator.run(fun, x_doe)
+            x_to_compute = x_doe
+            if self.mixint:
+                x_to_compute = self.mixint.fold_with_enum_index(x_doe)
+            y_doe = self._evaluator.run(fun, x_to_compute)
         else:  # to save time if y_doe is already given to EGO
             y_doe = ydoe
 
-- 
2.43.0


From 899c12625da04986611cc918dadc1cd73137013a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:11 +0000
Subject: [PATCH 27/92] fix: Kriging variances with a linear or quadratic trend

---
 smt/surrogate_models/krg_based.py | 1 +
 smt/surrogate_models/krg_mgp.py   | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/smt/surrogate_models/krg_based.py b/smt/surrogate_models/krg_based.py
index d866b31..232a72f 100644
--- a/smt/surrogate_models/krg_based.py
+++ b/smt/surrogate_models/krg_based.py
@@ -765,6 +765,7 @@ class KrgBased(SurrogateModel):
             self.optimal_par["G"].T,
             np.dot(self.optimal_par["Ft"].T, rt)
             - self._regression_types[self.options["poly"]](x).T,
+            lower=True,
         )
 
         A = self.optimal_par["sigma2"]
diff --git a/smt/surrogate_models/krg_mgp.py b/smt/surrogate_models/krg_mgp.py
index 8eeabce..d52b18f 100644
--- a/smt/surrogate_models/krg_mgp.py
+++ b/smt/surrogate_models/krg_mgp.py
@@ -352,7 +352,7 @@ class MGP(KrgBased):
 
         F_Rinv_r = np.dot(Ft.T, rt)
 
-        u_ = linalg.solve_triangular(G.T, f - F_Rinv_r)
+        u_ = linalg.solve_triangular(G.T, f - F_Rinv_r, lower=True)
 
         MSE = self.optimal_par["sigma2"] * (
             1.0 - (rt ** 2.0).sum(axis=0) + (u_ ** 2.0).sum(axis=0)
-- 
2.43.0


From 62436fc9d2242bba6d25bedf2635a0a72f1bf10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:06 +0000
Subject: [PATCH 28/92] fix: gradient of the Kriging likelihood with several
 outputs

---
 smt/surrogate_models/krg_based.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/smt/surrogate_models/krg_based.py b/smt/surrogate_models/krg_based.py
index 232a72f..4cb3ff9 100644
--- a/smt/surrogate_models/krg_based.py
+++ b/smt/surrogate_models/krg_based.py
@@ -441,9 +441,15 @@ class KrgBased(SurrogateModel):
             )
             dsigma_all.append(dsigma_2)
 
-            # Compute reduced log likelihood derivatives
+            # Compute reduced log likelihood derivatives: the likelihood depends on
+            # the sum of the variances of the standardized outputs
+            y_var = self.y_std ** 2.0
+            dsigma_norm = np.sum(np.diag(np.atleast_2d(dsigma_2)) / y_var)
+            sigma_norm = np.sum(sigma_2 / y_var)
             grad_red[i_der] = (
-                -self.nt / np.log(10) * (dsigma_2 / sigma_2 + np.trace(tr) / self.nt)
+                -self.nt
+                / np.log(10)
+                * (dsigma_norm / sigma_norm + np.trace(tr) / self.nt)
             )
 
         par["dr"] = dr_all
-- 
2.43.0


From 5f870bf898075aff4bd481118d3292ee3b36cff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:09 +0000
Subject: [PATCH 29/92] fix: Kriging falls back to the best likelihood
 evaluated when a retry ends below it

---
 smt/surrogate_models/krg_based.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/smt/surrogate_models/krg_based.py b/smt/surrogate_models/krg_based.py
index 4cb3ff9..46327fc 100644
--- a/smt/surrogate_models/krg_based.py
+++ b/smt/surrogate_models/krg_based.py
@@ -1078,18 +1078,14 @@ class KrgBased(SurrogateModel):
                                     best_optimal_rlf_value = optimal_rlf_value
                                     best_optimal_par = optimal_par
                                     best_optimal_theta = optimal_theta
-                                else:
-                                    if (
-                                        self.best_iteration_fail
-                                        > best_optimal_rlf_value
-                                    ):
-                                        best_optimal_theta = self._thetaMemory
-                                        (
-                                            best_optimal_rlf_value,
-                                            best_optimal_par,
-                                        ) = self._reduced_likelihood_function(
-                                            theta=best_optimal_theta
-                                        )
+                            elif self.best_iteration_fail > best_optimal_rlf_value:
+                                best_optimal_theta = self._thetaMemory
+                                (
+                                    best_optimal_rlf_value,
+                                    best_optimal_par,
+                                ) = self._reduced_likelihood_function(
+                                    theta=best_optimal_theta
+                                )
                     else:
                         if np.isinf(optimal_rlf_value):
                             stop += 1
-- 
2.43.0


From 70ccf27c85cd04b3a8a597300e2e986667a2cf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:09 +0000
Subject: [PATCH 30/92] fix: repeated Kriging optimizations with estimated
 noise start from parameters of the right size

---
 smt/surrogate_models/krg_based.py | 70 +++++++++++++++----------------
 1 file changed, 35 insertions(+), 35 deletions(-)

diff --git a/smt/surrogate_models/krg_based.py b/smt/surrogate_models/krg_based.py
index 46327fc..f82cd07 100644
--- a/smt/surrogate_models/krg_based.py
+++ b/smt/surrogate_models/krg_based.py
@@ -978,43 +978,43 @@ class KrgBased(SurrogateModel):
 
             # Initialization
             k, incr, stop, best_optimal_rlf_value, max_retry = 0, 0, 1, -1e20, 10
-            while k < stop:
-                # Use specified starting point as first guess
-                self.noise0 = np.array(self.options["noise0"])
-                noise_bounds = self.options["noise_bounds"]
-                if self.options["eval_noise"] and not self.options["use_het_noise"]:
-                    self.noise0[self.noise0 == 0.0] = noise_bounds[0]
-                    for i in range(len(self.noise0)):
-                        if (
-                            self.noise0[i] < noise_bounds[0]
-                            or self.noise0[i] > noise_bounds[1]
-                        ):
-                            self.noise0[i] = noise_bounds[0]
-                            print(
-                                "Warning: noise0 is out the feasible bounds. The lowest possible value is used instead."
-                            )
-
-                    theta0 = np.concatenate(
-                        [theta0, np.log10(np.array([self.noise0]).flatten())]
+            # Use specified starting point as first guess
+            self.noise0 = np.array(self.options["noise0"])
+            noise_bounds = self.options["noise_bounds"]
+            if self.options["eval_noise"] and not self.options["use_het_noise"]:
+                self.noise0[self.noise0 == 0.0] = noise_bounds[0]
+                for i in range(len(self.noise0)):
+                    if (
+                        self.noise0[i] < noise_bounds[0]
+                        or self.noise0[i] > noise_bounds[1]
+                    ):
+                        self.noise0[i] = noise_bounds[0]
+                        print(
+                            "Warning: noise0 is out the feasible bounds. The lowest possible value is used instead."
+                        )
+
+                theta0 = np.concatenate(
+                    [theta0, np.log10(np.array([self.noise0]).flatten())]
+                )
+                theta0_rand = np.concatenate(
+                    [
+                        theta0_rand,
+                        np.log10(np.array([self.noise0]).flatten()),
+                    ]
+                )
+
+                noise_bounds = np.log10(noise_bounds)
+                for i in range(len(self.noise0)):
+                    constraints.append(
+                        lambda log10t: log10t[i + len(self.theta0)]
+                        - noise_bounds[0]
                     )
-                    theta0_rand = np.concatenate(
-                        [
-                            theta0_rand,
-                            np.log10(np.array([self.noise0]).flatten()),
-                        ]
+                    constraints.append(
+                        lambda log10t: noise_bounds[1]
+                        - log10t[i + len(self.theta0)]
                     )
-
-                    for i in range(len(self.noise0)):
-                        noise_bounds = np.log10(noise_bounds)
-                        constraints.append(
-                            lambda log10t: log10t[i + len(self.theta0)]
-                            - noise_bounds[0]
-                        )
-                        constraints.append(
-                            lambda log10t: noise_bounds[1]
-                            - log10t[i + len(self.theta0)]
-                        )
-                        bounds_hyp.append(noise_bounds)
+                    bounds_hyp.append(noise_bounds)
+            while k < stop:
                 try:
 
                     if self.options["hyper_opt"] == "Cobyla":
-- 
2.43.0


From 7bbd540f0ab4db7d5b5e3e8cad99ffbab9c462a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:09 +0000
Subject: [PATCH 31/92] fix: KPLSK keeps all correlation parameters with
 heteroscedastic noise

---
 smt/surrogate_models/krg_based.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smt/surrogate_models/krg_based.py b/smt/surrogate_models/krg_based.py
index f82cd07..98f8151 100644
--- a/smt/surrogate_models/krg_based.py
+++ b/smt/surrogate_models/krg_based.py
@@ -1121,11 +1121,11 @@ class KrgBased(SurrogateModel):
                         print("fmin_cobyla failed but the best value is retained")
 
             if "KPLSK" in self.name:
-                if self.options["eval_noise"]:
+                if self.options["eval_noise"] and not self.options["use_het_noise"]:
                     # best_optimal_theta contains [theta, noise] if eval_noise = True
                     theta = best_optimal_theta[:-1]
                 else:
-                    # best_optimal_theta contains [theta] if eval_noise = False
+                    # best_optimal_theta contains [theta] otherwise
                     theta = best_optimal_theta
 
                 if exit_function:
-- 
2.43.0


From 06c5e55e440aca7d2a33c6aa72d5eaff7a51fb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:41 +0000
Subject: [PATCH 32/92] fix: Kriging noise0 given as integers

---
 smt/surrogate_models/krg_based.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/surrogate_models/krg_based.py b/smt/surrogate_models/krg_based.py
index 98f8151..0bda5f9 100644
--- a/smt/surrogate_models/krg_based.py
+++ b/smt/surrogate_models/krg_based.py
@@ -979,7 +979,7 @@ class KrgBased(SurrogateModel):
             # Initialization
             k, incr, stop, best_optimal_rlf_value, max_retry = 0, 0, 1, -1e20, 10
             # Use specified starting point as first guess
-            self.noise0 = np.array(self.options["noise0"])
+            self.noise0 = np.array(self.options["noise0"], dtype=float)
             noise_bounds = self.options["noise_bounds"]
             if self.options["eval_noise"] and not self.options["use_het_noise"]:
                 self.noise0[self.noise0 == 0.0] = noise_bounds[0]
-- 
2.43.0


From 8fc6a4655595221154028777901fb520063960f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:41 +0000
Subject: [PATCH 33/92] fix: Kriging parameters stay within their bounds and
 training without a usable model raises

---
 smt/surrogate_models/krg_based.py | 35 ++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/smt/surrogate_models/krg_based.py b/smt/surrogate_models/krg_based.py
index 0bda5f9..f9b6d0b 100644
--- a/smt/surrogate_models/krg_based.py
+++ b/smt/surrogate_models/krg_based.py
@@ -1014,6 +1014,19 @@ class KrgBased(SurrogateModel):
                         - log10t[i + len(self.theta0)]
                     )
                     bounds_hyp.append(noise_bounds)
+
+            lower_hyp, upper_hyp = np.array(bounds_hyp, dtype=float).T
+
+            def best_evaluated():
+                # best hyperparameters evaluated so far, moved into the bounds
+                if self.name in ["MGP"]:
+                    theta = np.clip(self._thetaMemory, lower_hyp, upper_hyp)
+                else:
+                    theta = np.clip(
+                        self._thetaMemory.ravel(), 10.0 ** lower_hyp, 10.0 ** upper_hyp
+                    )
+                return (theta,) + self._reduced_likelihood_function(theta=theta)
+
             while k < stop:
                 try:
 
@@ -1053,7 +1066,10 @@ class KrgBased(SurrogateModel):
                     if optimal_theta_res["fun"] > optimal_theta_res_2["fun"]:
                         optimal_theta_res = optimal_theta_res_2
 
-                    optimal_theta = optimal_theta_res["x"]
+                    # Cobyla may end outside of the constraints
+                    optimal_theta = np.clip(
+                        optimal_theta_res["x"], lower_hyp, upper_hyp
+                    )
 
                     if self.name not in ["MGP"]:
                         optimal_theta = 10 ** optimal_theta
@@ -1079,12 +1095,14 @@ class KrgBased(SurrogateModel):
                                     best_optimal_par = optimal_par
                                     best_optimal_theta = optimal_theta
                             elif self.best_iteration_fail > best_optimal_rlf_value:
-                                best_optimal_theta = self._thetaMemory
                                 (
+                                    best_optimal_theta,
                                     best_optimal_rlf_value,
                                     best_optimal_par,
-                                ) = self._reduced_likelihood_function(
-                                    theta=best_optimal_theta
+                                ) = max(
+                                    best_evaluated(),
+                                    (optimal_theta, optimal_rlf_value, optimal_par),
+                                    key=lambda candidate: candidate[1],
                                 )
                     else:
                         if np.isinf(optimal_rlf_value):
@@ -1104,13 +1122,11 @@ class KrgBased(SurrogateModel):
                         # One evaluation objectif function is done at least
                         if self.best_iteration_fail is not None:
                             if self.best_iteration_fail > best_optimal_rlf_value:
-                                best_optimal_theta = self._thetaMemory
                                 (
+                                    best_optimal_theta,
                                     best_optimal_rlf_value,
                                     best_optimal_par,
-                                ) = self._reduced_likelihood_function(
-                                    theta=best_optimal_theta
-                                )
+                                ) = best_evaluated()
                     # Optimization fail
                     elif best_optimal_par == []:
                         print("Optimization failed. Try increasing the ``nugget``")
@@ -1120,6 +1136,9 @@ class KrgBased(SurrogateModel):
                         k = stop + 1
                         print("fmin_cobyla failed but the best value is retained")
 
+            if not best_optimal_par:
+                raise ValueError("The training failed. Try increasing the ``nugget``")
+
             if "KPLSK" in self.name:
                 if self.options["eval_noise"] and not self.options["use_het_noise"]:
                     # best_optimal_theta contains [theta, noise] if eval_noise = True
-- 
2.43.0


From 4129d7d63f8d885b23ceeefc7f0c29dd2a4fe565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:47 +0000
Subject: [PATCH 34/92] fix: MFK derivatives with a linear trend and several
 inputs

---
 smt/applications/mfk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/applications/mfk.py b/smt/applications/mfk.py
index 7c1628c..b718ac8 100644
--- a/smt/applications/mfk.py
+++ b/smt/applications/mfk.py
@@ -590,7 +590,7 @@ class MFK(KrgBased):
             df = np.zeros([n_eval, 1])
         elif self.options["poly"] == "linear":
             df = np.zeros((n_eval, self.nx + 1))
-            df[:, 1:] = 1
+            df[:, 1 + kx] = 1
         else:
             raise ValueError(
                 "The derivative is only available for ordinary kriging or "
-- 
2.43.0


From 4475f41659bb832e9fc3fde57669ba6edb43bd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:47 +0000
Subject: [PATCH 35/92] fix: RMTS derivatives outside of the limits without
 extrapolation

---
 smt/surrogate_models/rmts.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/smt/surrogate_models/rmts.py b/smt/surrogate_models/rmts.py
index fb54176..8c9b469 100644
--- a/smt/surrogate_models/rmts.py
+++ b/smt/surrogate_models/rmts.py
@@ -494,6 +494,12 @@ class RMTS(SurrogateModel):
         mtx = self._compute_prediction_mtx(x, kx + 1)
         y = mtx.dot(self.sol_coeff)
 
+        # Without extrapolation the prediction outside of the limits is the one at
+        # the nearest point of the domain: it does not depend on x_kx there.
+        if not self.options["extrapolate"]:
+            lower, upper = self.options["xlimits"][kx]
+            y[(x[:, kx] < lower) | (x[:, kx] > upper), :] = 0.0
+
         return y
 
     def _compute_prediction_mtx(self, x, kx):
-- 
2.43.0


From 88fa7b067589705d52be8cd9b0421a2142d382e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:48 +0000
Subject: [PATCH 36/92] fix: IDW weights do not overflow or vanish for large
 exponents

---
 smt/src/idw/idw.cpp | 32 +++++++++++++++++++++-----------
 smt/src/idw/idw.hpp |  1 +
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/smt/src/idw/idw.cpp b/smt/src/idw/idw.cpp
index 089be6c..7df9c34 100644
--- a/smt/src/idw/idw.cpp
+++ b/smt/src/idw/idw.cpp
@@ -10,18 +10,21 @@ IDW::IDW() {
   xt = NULL;
   w = NULL;
   dw_dx = NULL;
+  r2s = NULL;
 }
 
 IDW::~IDW() {
   delete[] xt;
   delete[] w;
   delete[] dw_dx;
+  delete[] r2s;
 }
 
 void IDW::setup(int nx, int nt, double p, double * xt) {
   delete[] this->xt;
   delete[] this->w;
   delete[] this->dw_dx;
+  delete[] this->r2s;
 
   this->nx = nx;
   this->nt = nt;
@@ -30,6 +33,7 @@ void IDW::setup(int nx, int nt, double p, double * xt) {
   this->xt = new double[nt * nx];
   this->w = new double[nt];
   this->dw_dx = new double[nt];
+  this->r2s = new double[nt];
 
   memcpy(this->xt, xt, nt * nx * sizeof(*xt));
 }
@@ -39,7 +43,7 @@ void IDW::compute_jac(int n, double* x, double* jac) {
   int min_loc;
 
   for (int i = 0; i < n; i++) {
-    min_val = 1.;
+    min_val = HUGE_VAL;
     min_loc = 0;
     for (int it = 0; it < nt; it++) {
       r2 = 0.;
@@ -51,7 +55,12 @@ void IDW::compute_jac(int n, double* x, double* jac) {
         min_val = r2;
         min_loc = it;
       }
-      w[it] = pow(r2, -p / 2.);
+      r2s[it] = r2;
+    }
+    // The weights are relative to the one of the nearest point, so that they
+    // neither overflow nor vanish all together.
+    for (int it = 0; it < nt; it++) {
+      w[it] = pow(r2s[it] / min_val, -p / 2.);
     }
 
     if (min_val == 0.) {
@@ -74,26 +83,27 @@ void IDW::compute_jac(int n, double* x, double* jac) {
 
 void IDW::compute_jac_derivs(int n, int kx, double* x, double* jac) {
   double r2, dr2_dx, min_val, sum, dsum_dx, d;
-  int min_loc;
 
   for (int i = 0; i < n; i++) {
-    min_val = 1.;
-    min_loc = 0;
+    min_val = HUGE_VAL;
     for (int it = 0; it < nt; it++) {
       r2 = 0.;
       for (int ix = 0; ix < nx; ix++) {
         d = x[i * nx + ix] - xt[it * nx + ix];
         r2 += pow(d, 2);
       }
-      d = x[i * nx + kx] - xt[it * nx + kx];
-      dr2_dx = 2. * d;
-
       if (r2 < min_val) {
         min_val = r2;
-        min_loc = it;
       }
-      w[it] = pow(r2, -p / 2.);
-      dw_dx[it] = -p / 2. * pow(r2, -p / 2. - 1.) * dr2_dx;
+      r2s[it] = r2;
+    }
+    // The weights and their derivatives are relative to the weight of the nearest
+    // point, so that they neither overflow nor vanish all together.
+    for (int it = 0; it < nt; it++) {
+      d = x[i * nx + kx] - xt[it * nx + kx];
+      dr2_dx = 2. * d;
+      w[it] = pow(r2s[it] / min_val, -p / 2.);
+      dw_dx[it] = -p / 2. * w[it] / r2s[it] * dr2_dx;
     }
 
     if (min_val == 0.) {
diff --git a/smt/src/idw/idw.hpp b/smt/src/idw/idw.hpp
index 3122ebd..7ea7914 100644
--- a/smt/src/idw/idw.hpp
+++ b/smt/src/idw/idw.hpp
@@ -14,4 +14,5 @@ private:
   double * xt;
   double * w;
   double * dw_dx;
+  double * r2s;
 };
-- 
2.43.0


From 0e9d81ca40e060b8e2fd24beca8b670dccdfcd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:19 +0000
Subject: [PATCH 37/92] fix: RMTC predictions far outside of the limits use the
 nearest element

---
 smt/src/rmts/rmtc.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/smt/src/rmts/rmtc.cpp b/smt/src/rmts/rmtc.cpp
index 7ab91d0..0c8c1c7 100644
--- a/smt/src/rmts/rmtc.cpp
+++ b/smt/src/rmts/rmtc.cpp
@@ -43,9 +43,11 @@ void RMTC::find_interval(int ix, int num, double x, int * index, double * xbar)
   double a = lower[ix];
   double b = upper[ix];
 
-  *index = (int) ceil( (x - a) / (b - a) * num );
-  *index = max(1, *index);
-  *index = min(num, *index);
+  // The bounds apply before the conversion: far points do not fit in an integer
+  double position = ceil( (x - a) / (b - a) * num );
+  position = max(1., position);
+  position = min(1. * num, position);
+  *index = (int) position;
 
   double a2 = a + (b - a) * (*index - 1) / num;
   double b2 = a + (b - a) * (*index    ) / num;
-- 
2.43.0


From 34077177638e0509e841f9456fa3b6972d6d8d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:43 +0000
Subject: [PATCH 38/92] fix: cache files are written atomically, verified when
 loaded and not looked for without data_dir

---
 smt/utils/caching.py | 82 +++++++++++++++++++++++++++++++-------------
 1 file changed, 58 insertions(+), 24 deletions(-)

diff --git a/smt/utils/caching.py b/smt/utils/caching.py
index dd7a02c..d92511f 100644
--- a/smt/utils/caching.py
+++ b/smt/utils/caching.py
@@ -8,8 +8,10 @@ try:
     import cPickle as pickle
 except:
     import pickle
-import hashlib
 import contextlib
+import hashlib
+import os
+import uuid
 
 
 @contextlib.contextmanager
@@ -31,21 +33,57 @@ def cached_operation(inputs_dict, data_dir, desc=""):
     outputs_dict : dict
         Dictionary containing the outputs of the operation.
     """
-    checksum = _caching_checksum(inputs_dict)
-    filename = "%s/%s_%s.dat" % (data_dir, desc, checksum)
+    if not data_dir:
+        yield {}
+        return
+
     try:
-        with open(filename, "rb") as f:
-            outputs_dict = pickle.load(f)
-        load_successful = True
-    except:
+        checksum = _caching_checksum(inputs_dict)
+    except (pickle.PicklingError, TypeError, AttributeError):
+        # The inputs cannot be identified: the operation is not cached
+        yield {}
+        return
+
+    filename = "%s/%s_%s.dat" % (data_dir, desc, checksum)
+    outputs_dict = _load_outputs(filename)
+    load_successful = outputs_dict is not None
+    if not load_successful:
         outputs_dict = {}
-        load_successful = False
 
     yield outputs_dict
 
-    if not load_successful and data_dir:
-        with open(filename, "wb") as f:
-            pickle.dump(outputs_dict, f)
+    if not load_successful:
+        _save_outputs(filename, outputs_dict)
+
+
+def _load_outputs(filename):
+    """
+    Load the outputs from a file, None if the file is missing, incomplete or corrupted.
+    """
+    try:
+        with open(filename, "rb") as f:
+            digest, data = f.read(32), f.read()
+        if digest != hashlib.md5(data).hexdigest().encode():
+            return None
+        return pickle.loads(data)
+    except Exception:
+        return None
+
+
+def _save_outputs(filename, outputs_dict):
+    """
+    Save the outputs so that the file is either complete or left as it was.
+    """
+    data = pickle.dumps(outputs_dict)
+    tmpname = "%s.%s.tmp" % (filename, uuid.uuid4().hex)
+    try:
+        with open(tmpname, "wb") as f:
+            f.write(hashlib.md5(data).hexdigest().encode() + data)
+        os.replace(tmpname, filename)
+    except BaseException:
+        if os.path.exists(tmpname):
+            os.remove(tmpname)
+        raise
 
 
 def _caching_checksum(obj):
@@ -62,18 +100,14 @@ def _caching_checksum(obj):
     str
         Hexadecimal string checksum that was computed.
     """
+    model = obj.get("self")
+    if model is not None:
+        tmp = model.printer
+        model.printer = None
     try:
-        tmp = obj["self"].printer
-        obj["self"].printer = None
-    except:
-        pass
-
-    self_pkl = pickle.dumps(obj)
-    checksum = hashlib.md5(self_pkl).hexdigest()
-
-    try:
-        obj["self"].printer = tmp
-    except:
-        pass
+        self_pkl = pickle.dumps(obj)
+    finally:
+        if model is not None:
+            model.printer = tmp
 
-    return checksum
+    return hashlib.md5(self_pkl).hexdigest()
-- 
2.43.0


From 7372815e0a8e7e1a78db8ed153c498ad2bead846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:43 +0000
Subject: [PATCH 39/92] fix: RBF loaded from the cache supports output
 derivatives

---
 smt/surrogate_models/rbf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/smt/surrogate_models/rbf.py b/smt/surrogate_models/rbf.py
index 539b80f..0301236 100644
--- a/smt/surrogate_models/rbf.py
+++ b/smt/surrogate_models/rbf.py
@@ -145,9 +145,11 @@ class RBF(SurrogateModel):
 
             if outputs:
                 self.sol = outputs["sol"]
+                self.mtx = outputs["mtx"]
             else:
                 self._new_train()
                 outputs["sol"] = self.sol
+                outputs["mtx"] = self.mtx
 
     def _predict_values(self, x):
         """
-- 
2.43.0


From 8078f3ad6ee890a720412586d23a8b9c490a86d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:20 +0000
Subject: [PATCH 40/92] fix: RMTB derivatives at a NaN input do not read before
 the knots

---
 smt/src/rmts/rmtb.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smt/src/rmts/rmtb.cpp b/smt/src/rmts/rmtb.cpp
index feec6a3..11d4734 100644
--- a/smt/src/rmts/rmtb.cpp
+++ b/smt/src/rmts/rmtb.cpp
@@ -15,7 +15,8 @@ void compute_knot_vector_uniform(int order, int ncp, double * knots) {
 }
 
 int compute_i_start(int order, int ncp, double param, double * knots) {
-  int istart = -1;
+  // A parameter that is in no interval (NaN) uses the first basis functions
+  int istart = 0;
 
   for (int i = order - 1; i < ncp; i++) {
     if ((knots[i] <= param) && (param < knots[i + 1])) {
-- 
2.43.0


From 48c9d3cc3ef941e6e867e0a8c5edd484e79f2ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:38 +0000
Subject: [PATCH 41/92] fix: predict_derivatives raises for an input index that
 does not exist

---
 smt/surrogate_models/surrogate_model.py | 3 ++-
 smt/utils/checks.py                     | 8 ++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/smt/surrogate_models/surrogate_model.py b/smt/surrogate_models/surrogate_model.py
index 6123f2d..90edfba 100644
--- a/smt/surrogate_models/surrogate_model.py
+++ b/smt/surrogate_models/surrogate_model.py
@@ -12,7 +12,7 @@ from abc import ABCMeta, abstractmethod
 
 from smt.utils.printer import Printer
 from smt.utils.options_dictionary import OptionsDictionary
-from smt.utils.checks import check_support, check_nx, ensure_2d_array
+from smt.utils.checks import check_support, check_kx, check_nx, ensure_2d_array
 
 
 class SurrogateModel(object, metaclass=ABCMeta):
@@ -351,6 +351,7 @@ class SurrogateModel(object, metaclass=ABCMeta):
         check_support(self, "derivatives")
         x = ensure_2d_array(x, "x")
         check_nx(self.nx, x)
+        check_kx(self.nx, kx)
         self._check_trained_shape()
         n = x.shape[0]
         self.printer.active = (
diff --git a/smt/utils/checks.py b/smt/utils/checks.py
index 509ed1e..9aca33a 100644
--- a/smt/utils/checks.py
+++ b/smt/utils/checks.py
@@ -5,6 +5,7 @@ This package is distributed under New BSD license.
 """
 
 import numpy as np
+from numbers import Integral
 
 
 def ensure_2d_array(array, name):
@@ -25,6 +26,13 @@ def check_support(sm, name, fail=False):
         raise NotImplementedError("{} does not support {}".format(class_name, name))
 
 
+def check_kx(nx, kx):
+    if not isinstance(kx, Integral):
+        raise ValueError("kx must be an int")
+    if not 0 <= kx < nx:
+        raise ValueError("kx should be between 0 and {} and not {}".format(nx - 1, kx))
+
+
 def check_nx(nx, x):
     if x.shape[1] != nx:
         if nx == 1:
-- 
2.43.0


From 7cc7b30337134503ab70a4bdc4de02a1c32ef86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:54 +0000
Subject: [PATCH 42/92] fix: RMTS training raises when xlimits, sizes or
 training derivatives do not fit the training points

---
 smt/surrogate_models/rmtb.py |  7 +++++--
 smt/surrogate_models/rmtc.py |  7 +++++--
 smt/surrogate_models/rmts.py | 16 ++++++++++++++++
 3 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/smt/surrogate_models/rmtb.py b/smt/surrogate_models/rmtb.py
index b0160ca..cf2383e 100644
--- a/smt/surrogate_models/rmtb.py
+++ b/smt/surrogate_models/rmtb.py
@@ -70,6 +70,8 @@ class RMTB(RMTS):
         num["ctrl"] = np.prod(num["ctrl_list"])
         num["elem_list"] = np.array(num["ctrl_list"] - num["order_list"] + 1, int)
         num["elem"] = np.prod(num["elem_list"])
+        if np.any(num["order_list"] < 1) or np.any(num["elem_list"] < 1):
+            raise ValueError("num_ctrl_pts should be at least order, which is at least 1")
         num["knots_list"] = num["order_list"] + num["ctrl_list"]
         num["knots"] = np.sum(num["knots_list"])
         # total number of training points (function values and derivatives)
@@ -81,13 +83,14 @@ class RMTB(RMTS):
         num["support"] = num["order"]
         num["dof"] = num["ctrl"]
 
+        xlimits = self._get_xlimits()
         self.num = num
 
         self.rmtsc = PyRMTB()
         self.rmtsc.setup(
             num["x"],
-            np.array(self.options["xlimits"][:, 0]),
-            np.array(self.options["xlimits"][:, 1]),
+            np.array(xlimits[:, 0]),
+            np.array(xlimits[:, 1]),
             np.array(num["order_list"], np.int32),
             np.array(num["ctrl_list"], np.int32),
         )
diff --git a/smt/surrogate_models/rmtc.py b/smt/surrogate_models/rmtc.py
index 8ba7bb2..dc0ef0c 100644
--- a/smt/surrogate_models/rmtc.py
+++ b/smt/surrogate_models/rmtc.py
@@ -60,6 +60,8 @@ class RMTC(RMTS):
         # number of elements
         num["elem_list"] = np.array(self._get_list_option("num_elements"), int)
         num["elem"] = np.prod(num["elem_list"])
+        if np.any(num["elem_list"] < 1):
+            raise ValueError("num_elements should be at least 1")
         # number of terms/coefficients per element
         num["term_list"] = 4 * np.ones(num["x"], int)
         num["term"] = np.prod(num["term_list"])
@@ -75,13 +77,14 @@ class RMTC(RMTS):
         num["support"] = num["term"]
         num["dof"] = num["uniq"] * 2 ** num["x"]
 
+        xlimits = self._get_xlimits()
         self.num = num
 
         self.rmtsc = PyRMTC()
         self.rmtsc.setup(
             num["x"],
-            np.array(self.options["xlimits"][:, 0]),
-            np.array(self.options["xlimits"][:, 1]),
+            np.array(xlimits[:, 0]),
+            np.array(xlimits[:, 1]),
             np.array(num["elem_list"], np.int32),
             np.array(num["term_list"], np.int32),
         )
diff --git a/smt/surrogate_models/rmts.py b/smt/surrogate_models/rmts.py
index 8c9b469..62848b7 100644
--- a/smt/surrogate_models/rmts.py
+++ b/smt/surrogate_models/rmts.py
@@ -128,6 +128,22 @@ class RMTS(SurrogateModel):
         supports["derivatives"] = True
         supports["output_derivatives"] = True
 
+    def _get_xlimits(self):
+        # Limits as floats, once it is checked that they and the training points have
+        # the dimensions the compiled code relies on.
+        nx = self.training_points[None][0][0].shape[1]
+        ny = self.training_points[None][0][1].shape[1]
+        for kx, (xt, yt) in self.training_points[None].items():
+            if not 0 <= kx <= nx or xt.shape[1] != nx or yt.shape[1] != ny:
+                raise ValueError(
+                    "the training derivatives do not match the training values"
+                )
+
+        xlimits = np.array(self.options["xlimits"], dtype=float)
+        if xlimits.shape != (nx, 2):
+            raise ValueError("xlimits should have shape (%i, 2)" % nx)
+        return xlimits
+
     def _setup_hessian(self):
         diag = np.ones(self.num["dof"])
         arange = np.arange(self.num["dof"])
-- 
2.43.0


From 257a3773c826a5452306493dfe6530f7804c91eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:36 +0000
Subject: [PATCH 43/92] fix: predicting after a failed training raises

---
 smt/surrogate_models/surrogate_model.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/smt/surrogate_models/surrogate_model.py b/smt/surrogate_models/surrogate_model.py
index 90edfba..ca058e6 100644
--- a/smt/surrogate_models/surrogate_model.py
+++ b/smt/surrogate_models/surrogate_model.py
@@ -270,7 +270,12 @@ class SurrogateModel(object, metaclass=ABCMeta):
         # Train the model using the specified model-method
         self._trained_shape = None
         with self.printer._timed_context("Training", "training"):
-            self._train()
+            try:
+                self._train()
+            except BaseException:
+                # The model may be partly updated
+                self._trained_shape = ()
+                raise
         self._trained_shape = self._get_data_shape()
 
     def _get_data_shape(self) -> tuple:
@@ -283,12 +288,12 @@ class SurrogateModel(object, metaclass=ABCMeta):
         Raises
         ------
         ValueError
-            The training data were changed after the last call of train.
+            The training data were changed after the last call of train, or this call failed.
         """
         shape = getattr(self, "_trained_shape", None)
         if shape is not None and shape != self._get_data_shape():
             raise ValueError(
-                "the training data have changed since the last training: "
+                "the training data have changed since the last training, or it failed: "
                 + "train must be called before predicting"
             )
 
-- 
2.43.0


From b46ce413b22831f2c238766efc3105114af5bba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:16 +0000
Subject: [PATCH 44/92] fix: clones of option dictionaries do not share mutable
 values

---
 smt/utils/options_dictionary.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/smt/utils/options_dictionary.py b/smt/utils/options_dictionary.py
index c3b2b7c..6982d0c 100644
--- a/smt/utils/options_dictionary.py
+++ b/smt/utils/options_dictionary.py
@@ -5,6 +5,9 @@ This package is distributed under New BSD license.
 """
 
 
+from copy import deepcopy
+
+
 class OptionsDictionary(object):
     """
     Generalization of the dictionary that allows for declaring keys.
@@ -31,7 +34,7 @@ class OptionsDictionary(object):
             Deep-copied clone.
         """
         clone = self.__class__()
-        clone._dict = dict(self._dict)
+        clone._dict = deepcopy(self._dict)
         clone._declared_entries = dict(self._declared_entries)
         return clone
 
-- 
2.43.0


From 9f3e486ad0a079140e75021abb16a0f6c5b3cc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:16 +0000
Subject: [PATCH 45/92] fix: declaring an option with an invalid default leaves
 the options unchanged

---
 smt/utils/options_dictionary.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/smt/utils/options_dictionary.py b/smt/utils/options_dictionary.py
index 6982d0c..68424da 100644
--- a/smt/utils/options_dictionary.py
+++ b/smt/utils/options_dictionary.py
@@ -139,6 +139,7 @@ class OptionsDictionary(object):
         desc : str
             Optional description of the option.
         """
+        previous = self._declared_entries.get(name)
         self._declared_entries[name] = {
             "values": values,
             "types": types,
@@ -147,6 +148,13 @@ class OptionsDictionary(object):
         }
 
         if default is not None:
-            self._assert_valid(name, default)
+            try:
+                self._assert_valid(name, default)
+            except Exception:
+                if previous is None:
+                    del self._declared_entries[name]
+                else:
+                    self._declared_entries[name] = previous
+                raise
 
         self._dict[name] = default
-- 
2.43.0


From 4d59e6207a7030a5202b7080a70bf0985f01d739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:16 +0000
Subject: [PATCH 46/92] fix: the types of an option may be given as a list, as
 documented

---
 smt/utils/options_dictionary.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/smt/utils/options_dictionary.py b/smt/utils/options_dictionary.py
index 68424da..d40b736 100644
--- a/smt/utils/options_dictionary.py
+++ b/smt/utils/options_dictionary.py
@@ -83,6 +83,8 @@ class OptionsDictionary(object):
     def _assert_valid(self, name, value):
         values = self._declared_entries[name]["values"]
         types = self._declared_entries[name]["types"]
+        if isinstance(types, list):
+            types = tuple(types)
 
         if values is not None and types is not None:
             assert value in values or isinstance(
-- 
2.43.0


From d92cf1fd547da3042f665373d235b6a7ae7060e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:39 +0000
Subject: [PATCH 47/92] fix: MGP and MFK do not announce derivatives they
 cannot compute

---
 smt/applications/mfk.py         | 2 ++
 smt/surrogate_models/krg_mgp.py | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/smt/applications/mfk.py b/smt/applications/mfk.py
index b718ac8..b87f1b0 100644
--- a/smt/applications/mfk.py
+++ b/smt/applications/mfk.py
@@ -108,6 +108,8 @@ class NestedLHS(object):
 class MFK(KrgBased):
     def _initialize(self):
         super(MFK, self)._initialize()
+        # not available for the multi-fidelity variance
+        self.supports["variance_derivatives"] = False
         declare = self.options.declare
         declare(
             "rho_regr",
diff --git a/smt/surrogate_models/krg_mgp.py b/smt/surrogate_models/krg_mgp.py
index d52b18f..442ec34 100644
--- a/smt/surrogate_models/krg_mgp.py
+++ b/smt/surrogate_models/krg_mgp.py
@@ -27,6 +27,9 @@ class MGP(KrgBased):
 
         """
         super(MGP, self)._initialize()
+        # not available with the active kernel
+        self.supports["derivatives"] = False
+        self.supports["variance_derivatives"] = False
         declare = self.options.declare
         declare("n_comp", 1, types=int, desc="Number of active dimensions")
         declare(
-- 
2.43.0


From e6a6a7c42c4bcb99b4c0cfd774ecda1b1a3228b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:39 +0000
Subject: [PATCH 48/92] fix: training data are checked before they are changed

---
 smt/surrogate_models/surrogate_model.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/smt/surrogate_models/surrogate_model.py b/smt/surrogate_models/surrogate_model.py
index ca058e6..ce6795a 100644
--- a/smt/surrogate_models/surrogate_model.py
+++ b/smt/surrogate_models/surrogate_model.py
@@ -151,7 +151,7 @@ class SurrogateModel(object, metaclass=ABCMeta):
 
         kx = 0
 
-        if kx not in self.training_points[name]:
+        if kx not in self.training_points.get(name, {}):
             raise ValueError(
                 "The training points must be set first with set_training_values "
                 + "before calling update_training_values."
@@ -195,8 +195,8 @@ class SurrogateModel(object, metaclass=ABCMeta):
                 "the first dimension of xt and dyt_dxt must have the same length"
             )
 
-        if not isinstance(kx, int):
-            raise ValueError("kx must be an int")
+        if not isinstance(kx, int) or kx < 0:
+            raise ValueError("kx must be a non-negative int")
 
         self.training_points[name][kx + 1] = [np.array(xt), np.array(dyt_dxt)]
 
@@ -226,13 +226,16 @@ class SurrogateModel(object, metaclass=ABCMeta):
 
         dyt_dxt = ensure_2d_array(dyt_dxt, "dyt_dxt")
 
-        if kx not in self.training_points[name]:
+        if not isinstance(kx, int) or kx < 0:
+            raise ValueError("kx must be a non-negative int")
+
+        if kx + 1 not in self.training_points.get(name, {}):
             raise ValueError(
-                "The training points must be set first with set_training_values "
-                + "before calling update_training_values."
+                "The training derivatives must be set first with set_training_derivatives "
+                + "before calling update_training_derivatives."
             )
 
-        xt = self.training_points[name][kx][0]
+        xt = self.training_points[name][kx + 1][0]
         if xt.shape[0] != dyt_dxt.shape[0]:
             raise ValueError(
                 "The number of training points does not agree with the earlier call of "
-- 
2.43.0


From 7b5f3efa06bd9a5cd8ff9b3b55190b4192edd23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:39 +0000
Subject: [PATCH 49/92] fix: compute_rms_error of derivatives at the training
 points

---
 smt/utils/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/utils/misc.py b/smt/utils/misc.py
index 7ae6257..e2842c1 100644
--- a/smt/utils/misc.py
+++ b/smt/utils/misc.py
@@ -37,7 +37,7 @@ def compute_rms_error(sm, xe=None, ye=None, kx=None):
         if kx is None:
             kx2 = 0
         else:
-            kx2 += 1
+            kx2 = kx + 1
         if kx2 not in sm.training_points[None]:
             raise ValueError(
                 "There is no training point data available for kx %s" % kx2
-- 
2.43.0


From bb99b1d0326d642f9839d82c35558087e7992799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:39 +0000
Subject: [PATCH 50/92] fix: MixedIntegerSurrogateModel announces only what it
 supports

---
 smt/applications/mixed_integer.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/smt/applications/mixed_integer.py b/smt/applications/mixed_integer.py
index ba5d4c2..6bd2c43 100644
--- a/smt/applications/mixed_integer.py
+++ b/smt/applications/mixed_integer.py
@@ -6,7 +6,7 @@ This package is distributed under New BSD license.
 import numpy as np
 from smt.surrogate_models.surrogate_model import SurrogateModel
 from smt.sampling_methods.sampling_method import SamplingMethod
-from smt.utils.checks import ensure_2d_array
+from smt.utils.checks import ensure_2d_array, check_support
 
 FLOAT = "float_type"
 INT = "int_type"
@@ -272,16 +272,14 @@ class MixedIntegerSurrogateModel(SurrogateModel):
         self._xtypes = xtypes
         self._xlimits = xlimits
         self._input_in_folded_space = input_in_folded_space
-        self.supports = self._surrogate.supports
+        # only the values and the variances of the surrogate are made available
+        self.supports["variances"] = self._surrogate.supports["variances"]
         self.options["print_global"] = False
 
     @property
     def name(self):
         return "MixedInteger" + self._surrogate.name
 
-    def _initialize(self):
-        self.supports["derivatives"] = False
-
     def set_training_values(self, xt, yt, name=None):
         xt = ensure_2d_array(xt, "xt")
         if self._input_in_folded_space:
@@ -308,6 +306,7 @@ class MixedIntegerSurrogateModel(SurrogateModel):
         return self._surrogate.predict_values(castx)
 
     def predict_variances(self, x):
+        check_support(self, "variances")
         xp = ensure_2d_array(x, "xp")
         if self._input_in_folded_space:
             x2 = unfold_with_enum_mask(self._xtypes, xp)
-- 
2.43.0


From b0eb4897be70169175706b1d900fd7f118ec7599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:39 +0000
Subject: [PATCH 51/92] fix: MixedIntegerSurrogateModel checks the number of
 inputs and keeps the name of the data

---
 smt/applications/mixed_integer.py | 33 +++++++++++++++----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/smt/applications/mixed_integer.py b/smt/applications/mixed_integer.py
index 6bd2c43..2690d9f 100644
--- a/smt/applications/mixed_integer.py
+++ b/smt/applications/mixed_integer.py
@@ -6,7 +6,7 @@ This package is distributed under New BSD license.
 import numpy as np
 from smt.surrogate_models.surrogate_model import SurrogateModel
 from smt.sampling_methods.sampling_method import SamplingMethod
-from smt.utils.checks import ensure_2d_array, check_support
+from smt.utils.checks import ensure_2d_array, check_support, check_nx
 
 FLOAT = "float_type"
 INT = "int_type"
@@ -276,17 +276,24 @@ class MixedIntegerSurrogateModel(SurrogateModel):
         self.supports["variances"] = self._surrogate.supports["variances"]
         self.options["print_global"] = False
 
+    def _unfold(self, x, name):
+        """
+        Check the shape of x and unfold it if it is given in folded space.
+        """
+        x = ensure_2d_array(x, name)
+        if self._input_in_folded_space:
+            check_nx(len(self._xtypes), x)
+            return unfold_with_enum_mask(self._xtypes, x)
+        check_nx(compute_unfolded_dimension(self._xtypes), x)
+        return x
+
     @property
     def name(self):
         return "MixedInteger" + self._surrogate.name
 
     def set_training_values(self, xt, yt, name=None):
-        xt = ensure_2d_array(xt, "xt")
-        if self._input_in_folded_space:
-            xt2 = unfold_with_enum_mask(self._xtypes, xt)
-        else:
-            xt2 = xt
-        super().set_training_values(xt2, yt)
+        xt2 = self._unfold(xt, "xt")
+        super().set_training_values(xt2, yt, name)
         self._surrogate.set_training_values(xt2, yt, name)
 
     def update_training_values(self, yt, name=None):
@@ -297,21 +304,13 @@ class MixedIntegerSurrogateModel(SurrogateModel):
         self._surrogate._train()
 
     def predict_values(self, x):
-        xp = ensure_2d_array(x, "xp")
-        if self._input_in_folded_space:
-            x2 = unfold_with_enum_mask(self._xtypes, xp)
-        else:
-            x2 = xp
+        x2 = self._unfold(x, "xp")
         castx = cast_to_discrete_values(self._xtypes, x2)
         return self._surrogate.predict_values(castx)
 
     def predict_variances(self, x):
         check_support(self, "variances")
-        xp = ensure_2d_array(x, "xp")
-        if self._input_in_folded_space:
-            x2 = unfold_with_enum_mask(self._xtypes, xp)
-        else:
-            x2 = xp
+        x2 = self._unfold(x, "xp")
         return self._surrogate.predict_variances(
             cast_to_discrete_values(self._xtypes, x2)
         )
-- 
2.43.0


From c4593d158129eac73b76285084e45931c7f4096c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:45 +0000
Subject: [PATCH 52/92] fix: scaled samples stay within xlimits

---
 smt/sampling_methods/sampling_method.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/smt/sampling_methods/sampling_method.py b/smt/sampling_methods/sampling_method.py
index 9561a84..998f5f8 100644
--- a/smt/sampling_methods/sampling_method.py
+++ b/smt/sampling_methods/sampling_method.py
@@ -147,5 +147,9 @@ def _scale_to_xlimits(samples: np.ndarray, xlimits: np.ndarray) -> np.ndarray:
     """
     nx = xlimits.shape[0]
     for kx in range(nx):
-        samples[:, kx] = xlimits[kx, 0] + samples[:, kx] * (xlimits[kx, 1] - xlimits[kx, 0])
+        lower, upper = xlimits[kx, 0], xlimits[kx, 1]
+        scaled = lower + samples[:, kx] * (upper - lower)
+        # rounding errors must not move the samples away from (or out of) the limits
+        scaled = np.where(samples[:, kx] == 1.0, upper, scaled)
+        samples[:, kx] = np.clip(scaled, min(lower, upper), max(lower, upper))
     return samples
-- 
2.43.0


From c3da1809d288433a11779e38dfdefb154f8b3828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:45 +0000
Subject: [PATCH 53/92] fix: LHS of one point and of one dimension for every
 criterion

---
 smt/sampling_methods/lhs.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/smt/sampling_methods/lhs.py b/smt/sampling_methods/lhs.py
index 3742894..eb0df78 100644
--- a/smt/sampling_methods/lhs.py
+++ b/smt/sampling_methods/lhs.py
@@ -64,14 +64,23 @@ class LHS(ScaledSamplingMethod):
         else:
             self.random_state = np.random.RandomState()
 
-        if self.options["criterion"] != "ese":
+        criterion = self.options["criterion"]
+        if nt == 1 and criterion in ["centermaximin", "cm"]:
+            criterion = "center"
+        elif (nt == 1 and criterion in ["maximin", "m", "ese"]) or (
+            (nt <= 2 or nx == 1) and criterion in ["correlation", "corr"]
+        ):
+            # there is nothing to optimize: all the designs are equivalent
+            criterion = None
+
+        if criterion != "ese":
             return lhs(
                 nx,
                 samples=nt,
-                criterion=self.options["criterion"],
+                criterion=criterion,
                 random_state=self.random_state,
             )
-        elif self.options["criterion"] == "ese":
+        else:
             return self._ese(nx, nt)
 
     def _maximinESE(
@@ -308,11 +317,6 @@ class LHS(ScaledSamplingMethod):
         outer_loop = min(int(1.5 * dim), 30)
         inner_loop = min(20 * dim, 100)
 
-        D0 = pdist(P0)
-        R0 = np.corrcoef(P0)
-        corr0 = np.max(np.abs(R0[R0 != 1]))
-        phip0 = self._PhiP(P0)
-
         P, historic = self._maximinESE(
             P0,
             outer_loop=outer_loop,
-- 
2.43.0


From 91c845dea63a3a09a0e3ea33e7e6d4361ab0bcf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:40 +0000
Subject: [PATCH 54/92] fix: the seed of GENN covers its initial weights and
 leaves the global generator alone

---
 smt/surrogate_models/genn.py  | 2 +-
 smt/utils/neural_net/data.py  | 4 ++--
 smt/utils/neural_net/model.py | 9 +++++----
 3 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/smt/surrogate_models/genn.py b/smt/surrogate_models/genn.py
index 4b5d1e3..ff6022f 100644
--- a/smt/surrogate_models/genn.py
+++ b/smt/surrogate_models/genn.py
@@ -189,7 +189,7 @@ class GENN(SurrogateModel):
         n_y = Y.shape[0]
 
         # Train neural net
-        self.model = Model.initialize(n_x, n_y, deep, wide)
+        self.model = Model.initialize(n_x, n_y, deep, wide, seed)
         self.model.train(
             X=X,
             Y=Y,
diff --git a/smt/utils/neural_net/data.py b/smt/utils/neural_net/data.py
index 91f058c..22e46b3 100644
--- a/smt/utils/neural_net/data.py
+++ b/smt/utils/neural_net/data.py
@@ -95,12 +95,12 @@ def random_mini_batches(X, Y, J, mini_batch_size=64, seed=None):
     :param: mini_batch_size: size of the mini-batches, integer
     :return: mini_batches: list of synchronous (mini_batch_X, mini_batch_Y, mini_batch_J)
     """
-    np.random.seed(seed)
+    random_state = np.random.RandomState(seed)
     m = X.shape[1]
     mini_batches = []
 
     # Step 1: Shuffle (X, Y, J)
-    permutations = list(np.random.permutation(m))
+    permutations = list(random_state.permutation(m))
     shuffled_X = X[:, permutations].reshape(X.shape)
     shuffled_Y = Y[:, permutations].reshape(Y.shape)
     if J is not None:
diff --git a/smt/utils/neural_net/model.py b/smt/utils/neural_net/model.py
index 2065a97..cade3c8 100644
--- a/smt/utils/neural_net/model.py
+++ b/smt/utils/neural_net/model.py
@@ -23,7 +23,7 @@ from smt.utils.neural_net.data import normalize_data, load_csv
 # ------------------------------------ S U P P O R T   F U N C T I O N S -----------------------------------------------
 
 
-def initialize_parameters(layer_dims=None):
+def initialize_parameters(layer_dims=None, seed=None):
     """
     Initialize neural network given topology using "He" initialization
 
@@ -48,9 +48,10 @@ def initialize_parameters(layer_dims=None):
     number_layers = len(layer_dims) - 1  # input layer doesn't count
 
     # Parameters
+    random_state = np.random if seed is None else np.random.RandomState(seed)
     parameters = {}
     for l in range(1, number_layers + 1):
-        parameters["W" + str(l)] = np.random.randn(
+        parameters["W" + str(l)] = random_state.randn(
             layer_dims[l], layer_dims[l - 1]
         ) * np.sqrt(1.0 / layer_dims[l - 1])
         parameters["b" + str(l)] = np.zeros((layer_dims[l], 1))
@@ -124,9 +125,9 @@ class Model(object):
             setattr(self, name, value)
 
     @classmethod
-    def initialize(cls, n_x=None, n_y=None, deep=2, wide=12):
+    def initialize(cls, n_x=None, n_y=None, deep=2, wide=12, seed=None):
         layer_dims = [n_x] + [wide] * deep + [n_y]
-        parameters = initialize_parameters(layer_dims)
+        parameters = initialize_parameters(layer_dims, seed)
         activations = [Tanh()] * deep + [Linear()]
         attributes = {
             "_parameters": parameters,
-- 
2.43.0


From f223f1ececcc1472752277f6f50d4d17f9f4738a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:40 +0000
Subject: [PATCH 55/92] fix: random_state of EGO covers the KBRand virtual
 points

---
 smt/applications/ego.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/smt/applications/ego.py b/smt/applications/ego.py
index fb067d1..814dda1 100644
--- a/smt/applications/ego.py
+++ b/smt/applications/ego.py
@@ -282,6 +282,14 @@ class EGO(SurrogateBasedApplication):
                 random_state=self.options["random_state"],
             )
 
+        random_state = self.options["random_state"]
+        if isinstance(random_state, np.random.RandomState):
+            self._random_state = random_state
+        elif random_state is not None:
+            self._random_state = np.random.RandomState(random_state)
+        else:
+            self._random_state = np.random
+
         # Build DOE
         self._evaluator = self.options["evaluator"]
         xdoe = self.options["xdoe"]
@@ -416,7 +424,7 @@ class EGO(SurrogateBasedApplication):
             conf = -3.0
 
         if qEI == "KBRand":
-            conf = np.random.randn()
+            conf = self._random_state.randn()
         pred = self.gpr.predict_values(x)
         var = self.gpr.predict_variances(x)
 
-- 
2.43.0


From 42233eec2eb4d15f2bdbacb35c5ac3994fe93d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:40 +0000
Subject: [PATCH 56/92] fix: Kriging training does not depend on the global
 random generator

---
 smt/surrogate_models/krg_based.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/smt/surrogate_models/krg_based.py b/smt/surrogate_models/krg_based.py
index f9b6d0b..4844e26 100644
--- a/smt/surrogate_models/krg_based.py
+++ b/smt/surrogate_models/krg_based.py
@@ -884,6 +884,8 @@ class KrgBased(SurrogateModel):
         # reinitialize optimization best values
         self.best_iteration_fail = None
         self._thetaMemory = None
+        # The random starting points only depend on the call, not on the global generator
+        random_state = np.random.RandomState(0)
         # Initialize the hyperparameter-optimization
         if self.name in ["MGP"]:
 
@@ -940,7 +942,7 @@ class KrgBased(SurrogateModel):
                 # to theta in (0,2e1]
                 theta_bounds = self.options["theta_bounds"]
                 if self.theta0[i] < theta_bounds[0] or self.theta0[i] > theta_bounds[1]:
-                    self.theta0[i] = np.random.rand()
+                    self.theta0[i] = random_state.rand()
                     self.theta0[i] = (
                         self.theta0[i] * (theta_bounds[1] - theta_bounds[0])
                         + theta_bounds[0]
@@ -964,10 +966,11 @@ class KrgBased(SurrogateModel):
                     self.options["prior"]["mean"] * len(self.theta0),
                     self.options["prior"]["var"],
                     1,
+                    random_state=random_state,
                 )
                 theta0 = self.theta0
             else:
-                theta0_rand = np.random.rand(len(self.theta0))
+                theta0_rand = random_state.rand(len(self.theta0))
                 theta0_rand = (
                     theta0_rand * (log10t_bounds[1] - log10t_bounds[0])
                     + log10t_bounds[0]
-- 
2.43.0


From d0ce528b8eaabeec93c63295730fd776c3dbf7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:10 +0000
Subject: [PATCH 57/92] fix: cast_to_discrete_values selects exactly one level
 of a categorical variable

---
 smt/applications/mixed_integer.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/smt/applications/mixed_integer.py b/smt/applications/mixed_integer.py
index 2690d9f..4c45b99 100644
--- a/smt/applications/mixed_integer.py
+++ b/smt/applications/mixed_integer.py
@@ -125,12 +125,11 @@ def cast_to_discrete_values(xtypes, x):
             x_col += 1
 
         elif isinstance(xtyp, tuple) and xtyp[0] == ENUM:
-            # Categorial : The biggest level is selected.
+            # Categorial : The biggest level is selected (the first one if several are).
             xenum = ret[:, x_col : x_col + xtyp[1]]
-            maxx = np.max(xenum, axis=1).reshape((-1, 1))
-            mask = xenum < maxx
-            xenum[mask] = 0
-            xenum[~mask] = 1
+            index = np.argmax(xenum, axis=1)
+            xenum[:] = 0
+            xenum[np.arange(xenum.shape[0]), index] = 1
             x_col = x_col + xtyp[1]
         else:
             _raise_value_error(xtyp)
-- 
2.43.0


From c80485f5ac39f7cef1f4d7b4592f1cd4f9587f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:10 +0000
Subject: [PATCH 58/92] fix: MixedIntegerSurrogateModel is trained on feasible
 points as it predicts on feasible points

---
 smt/applications/mixed_integer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/applications/mixed_integer.py b/smt/applications/mixed_integer.py
index 4c45b99..3506c2f 100644
--- a/smt/applications/mixed_integer.py
+++ b/smt/applications/mixed_integer.py
@@ -291,7 +291,7 @@ class MixedIntegerSurrogateModel(SurrogateModel):
         return "MixedInteger" + self._surrogate.name
 
     def set_training_values(self, xt, yt, name=None):
-        xt2 = self._unfold(xt, "xt")
+        xt2 = cast_to_discrete_values(self._xtypes, self._unfold(xt, "xt"))
         super().set_training_values(xt2, yt, name)
         self._surrogate.set_training_values(xt2, yt, name)
 
-- 
2.43.0


From 59753de972a75901b45146a95f22d145f0b78d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:14 +0000
Subject: [PATCH 59/92] fix: MixedIntegerSurrogateModel does not predict after
 a failed training

---
 smt/applications/mixed_integer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/smt/applications/mixed_integer.py b/smt/applications/mixed_integer.py
index 3506c2f..8e9064a 100644
--- a/smt/applications/mixed_integer.py
+++ b/smt/applications/mixed_integer.py
@@ -304,12 +304,14 @@ class MixedIntegerSurrogateModel(SurrogateModel):
 
     def predict_values(self, x):
         x2 = self._unfold(x, "xp")
+        self._check_trained_shape()
         castx = cast_to_discrete_values(self._xtypes, x2)
         return self._surrogate.predict_values(castx)
 
     def predict_variances(self, x):
         check_support(self, "variances")
         x2 = self._unfold(x, "xp")
+        self._check_trained_shape()
         return self._surrogate.predict_variances(
             cast_to_discrete_values(self._xtypes, x2)
         )
-- 
2.43.0


From 44a05172a08b4f194875df7b0ec4dfa0949ce31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:08 +0000
Subject: [PATCH 60/92] fix: EI of several points is zero, not nan, where the
 variance is zero

---
 smt/applications/ego.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/smt/applications/ego.py b/smt/applications/ego.py
index 814dda1..c3d4489 100644
--- a/smt/applications/ego.py
+++ b/smt/applications/ego.py
@@ -211,9 +211,8 @@ class EGO(SurrogateBasedApplication):
         args0 = (f_min - pred) / sig
         args1 = (f_min - pred) * norm.cdf(args0)
         args2 = sig * norm.pdf(args0)
-        if sig.size == 1 and sig == 0.0:  # can be use only if one point is computed
-            return 0.0
-        ei = args1 + args2
+        # no improvement is expected where the prediction is certain
+        ei = np.where(sig == 0.0, 0.0, args1 + args2)
         # penalize the points already evaluated with tunneling
         if enable_tunneling:
             for i in range(len(points)):
-- 
2.43.0


From 88bdc18bfa52e54d2d93df747aa2a1555b220e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:09 +0000
Subject: [PATCH 61/92] fix: MFK variances with three levels or more use the
 mean of the level below

---
 smt/applications/mfk.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/smt/applications/mfk.py b/smt/applications/mfk.py
index b87f1b0..4427393 100644
--- a/smt/applications/mfk.py
+++ b/smt/applications/mfk.py
@@ -523,8 +523,10 @@ class MFK(KrgBased):
             r_t = solve_triangular(C, r_.T, lower=True)
             G = self.optimal_par[i]["G"]
             beta = self.optimal_par[i]["beta"]
+            gamma = self.optimal_par[i]["gamma"]
 
             # scaled predictor
+            mu[:, i] = (np.dot(f.T, beta) + np.dot(r_, gamma)).ravel()
             sigma2 = self.optimal_par[i]["sigma2"] / self.y_std ** 2
             q = self.q_all[i]
             u_ = solve_triangular(G.T, f - np.dot(Ft.T, r_t), lower=True)
-- 
2.43.0


From 32fd984e2d81e21ab8f9eacaa4b902d7b3ec409e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:09 +0000
Subject: [PATCH 62/92] fix: MFK accepts one theta0 per level with several
 inputs

---
 smt/applications/mfk.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/smt/applications/mfk.py b/smt/applications/mfk.py
index 4427393..ac013b2 100644
--- a/smt/applications/mfk.py
+++ b/smt/applications/mfk.py
@@ -693,8 +693,7 @@ class MFK(KrgBased):
                 elif len(self.options["theta0"]) == self.nlvl:
                     self.options["theta0"] = np.array(self.options["theta0"]).reshape(
                         -1, 1
-                    )
-                    self.options["theta0"] *= np.ones((1, d))
+                    ) * np.ones((1, d))
                 else:
                     raise ValueError(
                         "the length of theta0 (%s) should be equal to the number of dim (%s) or levels of fidelity (%s)."
-- 
2.43.0


From dedf2ef1a788264943a97831a5635653aac3e0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:09 +0000
Subject: [PATCH 63/92] fix: MFK with optim_var leaves the training points as
 given

---
 smt/applications/mfk.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/smt/applications/mfk.py b/smt/applications/mfk.py
index ac013b2..62ad1ab 100644
--- a/smt/applications/mfk.py
+++ b/smt/applications/mfk.py
@@ -341,6 +341,9 @@ class MFK(KrgBased):
     def _new_train_finalize(self, lvl):
         if self.options["eval_noise"] and self.options["optim_var"]:
             X = self.X
+            user_points = {
+                name: dict(points) for name, points in self.training_points.items()
+            }
             for lvl in range(self.nlvl - 1):
                 self.set_training_values(
                     X[lvl], self._predict_intermediate_values(X[lvl], lvl + 1), name=lvl
@@ -349,7 +352,10 @@ class MFK(KrgBased):
                 X[-1], self._predict_intermediate_values(X[-1], self.nlvl)
             )
             self.options["eval_noise"] = False
-            self._new_train()
+            try:
+                self._new_train()
+            finally:
+                self.training_points.update(user_points)
 
     def _componentwise_distance(self, dx, opt=0):
         d = componentwise_distance(dx, self.options["corr"], self.nx)
-- 
2.43.0


From 63502a98d2b9c92effca562356636fc6f2ddf2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:29 +0000
Subject: [PATCH 64/92] fix: MFK with optim_var has no variance at the
 high-fidelity points whatever noise0 is

---
 smt/applications/mfk.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/smt/applications/mfk.py b/smt/applications/mfk.py
index 62ad1ab..0e9875a 100644
--- a/smt/applications/mfk.py
+++ b/smt/applications/mfk.py
@@ -351,7 +351,9 @@ class MFK(KrgBased):
             self.set_training_values(
                 X[-1], self._predict_intermediate_values(X[-1], self.nlvl)
             )
+            # the predictions of the first training are interpolated
             self.options["eval_noise"] = False
+            self.options["noise0"] = [0.0]
             try:
                 self._new_train()
             finally:
-- 
2.43.0


From 74343482f78fdae6b2670d5489b60ed4470ac18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:48 +0000
Subject: [PATCH 65/92] fix: MOE does not choose an expert whose validation
 error is nan when there is another

---
 smt/applications/moe.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smt/applications/moe.py b/smt/applications/moe.py
index 78dcb20..13bed2f 100644
--- a/smt/applications/moe.py
+++ b/smt/applications/moe.py
@@ -563,7 +563,8 @@ class MOE(SurrogateBasedApplication):
         best_name = None
         best_score = None
         for name, rmse in scores.items():
-            if best_score is None or rmse < best_score:
+            # an expert whose error is nan is only chosen when there is no other
+            if best_score is None or rmse < best_score or np.isnan(best_score):
                 best_name, best_score = name, rmse
 
         print("Best expert = {}".format(best_name))
-- 
2.43.0


From da123ff527915cabe43c8cec982e922d9bb04cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:48 +0000
Subject: [PATCH 66/92] fix: MOE accepts one-dimensional training inputs, as
 documented

---
 smt/applications/moe.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/smt/applications/moe.py b/smt/applications/moe.py
index 13bed2f..ba25fd9 100644
--- a/smt/applications/moe.py
+++ b/smt/applications/moe.py
@@ -205,6 +205,8 @@ class MOE(SurrogateBasedApplication):
         else:
             self.x = x = self.options["xt"]
             self.y = y = self.options["yt"]
+        if x is not None and x.ndim == 1:
+            self.x = x = x.reshape((-1, 1))
         self.c = c = self.options["ct"]
         if c is None:
             self.c = c = y
-- 
2.43.0


From 8310b637d54d881325e86e8c249a9324747ffd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:48 +0000
Subject: [PATCH 67/92] fix: MOE does not predict after a failed training

---
 smt/applications/moe.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/smt/applications/moe.py b/smt/applications/moe.py
index ba25fd9..119afec 100644
--- a/smt/applications/moe.py
+++ b/smt/applications/moe.py
@@ -164,6 +164,7 @@ class MOE(SurrogateBasedApplication):
 
         # list of experts after MOE training
         self._experts = []
+        self._trained = False
 
         self.xt = None
         self.yt = None
@@ -198,6 +199,7 @@ class MOE(SurrogateBasedApplication):
         Supports for surrogate model API.
         Build and train the mixture of experts surrogate.
         """
+        self._trained = False
         if self.xt is not None and self.yt is not None:
             # set_training_values has been called
             self.x = x = self.xt
@@ -263,6 +265,19 @@ class MOE(SurrogateBasedApplication):
             # if we have used part of data to validate, fit on overall data
             self._fit(x, y, c, new_model=False)
 
+        self._trained = True
+
+    def _check_trained(self):
+        """
+        Check that the last training has succeeded.
+        raise Value error with relevant message
+        """
+        if not self._trained:
+            raise ValueError(
+                "the mixture of experts is not trained, or its last training failed: "
+                + "train must be called before predicting"
+            )
+
     def predict_values(self, x):
         """
         Predict the output values at a set of points.
@@ -277,6 +292,7 @@ class MOE(SurrogateBasedApplication):
         y : np.ndarray[nt, ny]
             Output values at the prediction points.
         """
+        self._check_trained()
         if self.smooth_recombination:
             y = self._predict_smooth_output(x)
         else:
@@ -304,6 +320,7 @@ class MOE(SurrogateBasedApplication):
                 "when creating MOE"
             )
 
+        self._check_trained()
         if self.smooth_recombination:
             y = self._predict_smooth_output(x, output_variances=True)
         else:
-- 
2.43.0


From 126de864de09a9a10114b7a99bb279b1b7380c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:07 +0000
Subject: [PATCH 68/92] fix: GENN data normalisation with a constant input or
 output

---
 smt/utils/neural_net/data.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/smt/utils/neural_net/data.py b/smt/utils/neural_net/data.py
index 22e46b3..0e9bbce 100644
--- a/smt/utils/neural_net/data.py
+++ b/smt/utils/neural_net/data.py
@@ -179,7 +179,8 @@ def normalize_data(X, Y, J=None, is_classification=False):
     sigma_x = np.ones((n_x, 1))
     for i in range(0, n_x):
         mu_x[i] = np.mean(X[i])
-        sigma_x[i] = np.std(X[i])
+        if np.ptp(X[i]) > 0:  # a constant input cannot be scaled
+            sigma_x[i] = np.std(X[i])
         X_norm[i] = (X[i] - mu_x[i]) / sigma_x[i]
 
     # Normalize outputs
@@ -190,7 +191,8 @@ def normalize_data(X, Y, J=None, is_classification=False):
     else:
         for i in range(0, n_y):
             mu_y[i] = np.mean(Y[i])
-            sigma_y[i] = np.std(Y[i])
+            if np.ptp(Y[i]) > 0:  # a constant output cannot be scaled
+                sigma_y[i] = np.std(Y[i])
             Y_norm[i] = (Y[i] - mu_y[i]) / sigma_y[i]
 
     # Normalize partials
-- 
2.43.0


From 43da86a5b5264cc14396d7897fb068fec3102575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:07 +0000
Subject: [PATCH 69/92] fix: GENN hyperbolic tangent does not overflow

---
 smt/utils/neural_net/activation.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/smt/utils/neural_net/activation.py b/smt/utils/neural_net/activation.py
index 78eb14f..483e4a1 100644
--- a/smt/utils/neural_net/activation.py
+++ b/smt/utils/neural_net/activation.py
@@ -61,9 +61,7 @@ class Sigmoid(Activation):
 
 class Tanh(Activation):
     def evaluate(self, z):
-        numerator = np.exp(z) - np.exp(-z)
-        denominator = np.exp(z) + np.exp(-z)
-        a = np.divide(numerator, denominator)
+        a = np.tanh(z)
         return a
 
     def first_derivative(self, z):
-- 
2.43.0


From 6efe4593f9cdea455c37ab644a2436c0201987a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:07 +0000
Subject: [PATCH 70/92] fix: GENN uses its options beta1 and beta2

---
 smt/utils/neural_net/optimizer.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/smt/utils/neural_net/optimizer.py b/smt/utils/neural_net/optimizer.py
index 4d36f8f..dec0b52 100644
--- a/smt/utils/neural_net/optimizer.py
+++ b/smt/utils/neural_net/optimizer.py
@@ -267,10 +267,8 @@ class Adam(Optimizer):
         self.v = None
         self.s = None
 
-    def _update_current_design(self, learning_rate=0.05, beta_1=0.9, beta_2=0.99):
+    def _update_current_design(self, learning_rate=0.05):
         """Adam update"""
-        self.beta_1 = beta_1
-        self.beta_2 = beta_2
         t = self._current_iteration + 1
 
         if self.v is None:
@@ -286,9 +284,10 @@ class Adam(Optimizer):
 
         for key in self._current_design.keys():
             self.v[key] = (
-                self.beta_1 * self.v[key] + (1.0 - beta_1) * self._search_direction[key]
+                self.beta_1 * self.v[key]
+                + (1.0 - self.beta_1) * self._search_direction[key]
             )
-            self.s[key] = self.beta_2 * self.s[key] + (1.0 - beta_2) * np.square(
+            self.s[key] = self.beta_2 * self.s[key] + (1.0 - self.beta_2) * np.square(
                 self._search_direction[key]
             )
             v_corrected = self.v[key] / (1.0 - self.beta_1 ** t)
-- 
2.43.0


From 5ba31d3d5dc76a6dd353e198d95522123b504db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:07 +0000
Subject: [PATCH 71/92] fix: GENN bounds lambd and gamma alike in its loss and
 in the gradient of it

---
 smt/utils/neural_net/bwd_prop.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/smt/utils/neural_net/bwd_prop.py b/smt/utils/neural_net/bwd_prop.py
index 828c528..8238ebb 100644
--- a/smt/utils/neural_net/bwd_prop.py
+++ b/smt/utils/neural_net/bwd_prop.py
@@ -207,6 +207,10 @@ def L_model_backward(AL, Y, AL_prime, Y_prime, caches, J_caches, lambd, gamma):
     _, m = AL.shape
     Y = Y.reshape(AL.shape)  # after this line, Y is the same shape as AL
 
+    # Same bounds as in the loss function
+    lambd = max(0.0, lambd)
+    gamma = min(max(0.0, gamma), 1.0)
+
     # Initializing the back propagation
     dA, dA_prime = initialize_back_prop(AL, Y, AL_prime, Y_prime)
 
-- 
2.43.0


From 59024f7868d19ebdd210f55ed9e83107543758b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:03 +0000
Subject: [PATCH 72/92] fix: GENN trains without derivatives, and checks where
 they were given

---
 smt/surrogate_models/genn.py     | 15 ++++++++-------
 smt/utils/neural_net/bwd_prop.py |  2 ++
 smt/utils/neural_net/model.py    |  2 ++
 3 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/smt/surrogate_models/genn.py b/smt/surrogate_models/genn.py
index ff6022f..04ba54f 100644
--- a/smt/surrogate_models/genn.py
+++ b/smt/surrogate_models/genn.py
@@ -62,7 +62,7 @@ def smt_to_genn(training_points):
     Returns:
     :return X -- a numpy matrix of input features of shape (n_x, m) where n_x = no. of inputs, m = no. of train examples
     :return Y -- a numpy matrix of output labels of shape (n_y, m) where n_y = no. of outputs
-    :return J -- a numpy array of size (n_y, n_x, m) representing the Jacobian of Y w.r.t. X:
+    :return J -- a numpy array of size (n_y, n_x, m) representing the Jacobian of Y w.r.t. X (None without derivatives):
 
         dY1/dX1 = J[0][0][:]
         dY1/dX2 = J[0][1][:]
@@ -87,6 +87,10 @@ def smt_to_genn(training_points):
     X = xt
     Y = yt
 
+    # No training derivatives
+    if not any(k + 1 in training_points[None] for k in range(0, n_x)):
+        return X.T, Y.T, None
+
     # Loop to retrieve each partial derivative from SMT training_points
     J = np.zeros((m, n_x, n_y))
     for k in range(0, n_x):
@@ -99,7 +103,7 @@ def smt_to_genn(training_points):
         assert dyt_dxt.shape[1] == n_y
 
         # Assert that derivatives provided are for the same training points
-        assert xt.all() == X.all()
+        assert np.array_equal(xt, X)
 
         # Assign training derivative but transpose to match neural net implementation
         J[:, k, :] = dyt_dxt
@@ -166,16 +170,13 @@ class GENN(SurrogateModel):
         # Convert training data to format expected by neural net module
         X, Y, J = smt_to_genn(self.training_points)
 
-        # If there are no training derivatives, turn off gradient-enhancement
-        if type(J) == np.ndarray and J.size == 0:
-            self.options["gamma"] = 0.0
-
         # Get hyperparameters from SMT API
         alpha = self.options["alpha"]
         beta1 = self.options["beta1"]
         beta2 = self.options["beta2"]
         lambd = self.options["lambd"]
-        gamma = self.options["gamma"]
+        # If there are no training derivatives, turn off gradient-enhancement
+        gamma = 0.0 if J is None else self.options["gamma"]
         deep = self.options["deep"]
         wide = self.options["wide"]
         mini_batch_size = self.options["mini_batch_size"]
diff --git a/smt/utils/neural_net/bwd_prop.py b/smt/utils/neural_net/bwd_prop.py
index 8238ebb..75a975a 100644
--- a/smt/utils/neural_net/bwd_prop.py
+++ b/smt/utils/neural_net/bwd_prop.py
@@ -39,6 +39,8 @@ def initialize_back_prop(AL, Y, AL_prime, Y_prime):
     n_y, _ = AL.shape  # number layers, number examples
     Y = Y.reshape(AL.shape)
     dAL = AL - Y  # derivative of loss function w.r.t. to activations: dAL = d(L)/dAL
+    if Y_prime is None:  # no partials to learn from
+        return dAL, np.zeros(AL_prime.shape)
     dAL_prime = (
         AL_prime - Y_prime
     )  # derivative of loss function w.r.t. to partials: dAL_prime = d(L)/d(AL_prime)
diff --git a/smt/utils/neural_net/model.py b/smt/utils/neural_net/model.py
index cade3c8..c94d307 100644
--- a/smt/utils/neural_net/model.py
+++ b/smt/utils/neural_net/model.py
@@ -99,6 +99,8 @@ class Model(object):
     def training_data(self):
         X = self._X_norm * self._scale_factors["x"][1] + self._scale_factors["x"][0]
         Y = self._Y_norm * self._scale_factors["y"][1] + self._scale_factors["y"][0]
+        if self._J_norm is None:
+            return X, Y, None
         J = (
             self._J_norm
             * np.reshape(self._scale_factors["y"][1], (-1, 1, 1))
-- 
2.43.0


From 5ce5560eb719e91bf1efd09b22b72e0b8fa144c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:49 +0000
Subject: [PATCH 73/92] fix: neutral scale factors for a GENN model whose
 parameters are loaded

---
 smt/utils/neural_net/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/utils/neural_net/model.py b/smt/utils/neural_net/model.py
index c94d307..bb298ba 100644
--- a/smt/utils/neural_net/model.py
+++ b/smt/utils/neural_net/model.py
@@ -113,7 +113,7 @@ class Model(object):
         self._layer_dims = list()
         self._activations = list()
         self._training_history = dict()
-        self._scale_factors = {"x": (1, 1), "y": (1, 1)}
+        self._scale_factors = {"x": (0, 1), "y": (0, 1)}
         self._X_norm = None
         self._Y_norm = None
         self._J_norm = None
-- 
2.43.0


From 78e9b3ad242fb62b350fbc33700f27f0ce6d8aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:49 +0000
Subject: [PATCH 74/92] fix: finite differences of the GENN optimizer leave the
 design alone

---
 smt/utils/neural_net/optimizer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/smt/utils/neural_net/optimizer.py b/smt/utils/neural_net/optimizer.py
index dec0b52..bfc6c2d 100644
--- a/smt/utils/neural_net/optimizer.py
+++ b/smt/utils/neural_net/optimizer.py
@@ -24,6 +24,7 @@ def finite_difference(parameters, fun=None, dx=1e-6):
     :return: dy: the derivative of fun with respect to x
     """
     grads = dict()
+    parameters = {key: np.copy(value) for key, value in parameters.items()}
     for key in parameters.keys():
         x = np.copy(parameters[key])
         n, p = x.shape
-- 
2.43.0


From 6a3b3907f44da5a08ba7e04ed540fefaeb21a40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:20 +0000
Subject: [PATCH 75/92] fix: welded beam problem as documented (l squared over
 12)

---
 smt/problems/welded_beam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/problems/welded_beam.py b/smt/problems/welded_beam.py
index a2f8341..b0e5f85 100644
--- a/smt/problems/welded_beam.py
+++ b/smt/problems/welded_beam.py
@@ -57,7 +57,7 @@ class WeldedBeam(Problem):
                 6000
                 * (14 + 0.5 * x2)
                 * np.sqrt(0.25 * (x2 ** 2 + (x1 + x0) ** 2))
-                / (2 * (0.707 * x1 * x2 * (x2 / 12.0 + 0.25 * (x1 + x0) ** 2)))
+                / (2 * (0.707 * x1 * x2 * (x2 ** 2 / 12.0 + 0.25 * (x1 + x0) ** 2)))
             )
             return np.sqrt(
                 tau1 ** 2
-- 
2.43.0


From 83deafb8b4fe2eb94669d935bfe1664a71303f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:20 +0000
Subject: [PATCH 76/92] fix: problems refuse a kx beyond their last input

---
 smt/problems/problem.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/smt/problems/problem.py b/smt/problems/problem.py
index 85a482d..a9ef5e0 100644
--- a/smt/problems/problem.py
+++ b/smt/problems/problem.py
@@ -79,6 +79,10 @@ class Problem(object):
         if kx is not None:
             if not isinstance(kx, int) or kx < 0:
                 raise TypeError("kx should be None or a non-negative int.")
+            if kx >= self.options["ndim"]:
+                raise ValueError(
+                    "kx should be between 0 and %i" % (self.options["ndim"] - 1)
+                )
 
         y = self._evaluate(x, kx)
 
-- 
2.43.0


From 64137caaab325443f5284a9ab7b8f19405c730a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:06 +0000
Subject: [PATCH 77/92] fix: LpNorm derivatives for orders above 2

---
 smt/problems/lp_norm.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/smt/problems/lp_norm.py b/smt/problems/lp_norm.py
index 25048c5..604bb04 100644
--- a/smt/problems/lp_norm.py
+++ b/smt/problems/lp_norm.py
@@ -44,7 +44,6 @@ class LpNorm(Problem):
         if kx is None:
             y[:, 0] = lp_norm
         else:
-            norm_p = np.linalg.norm(x, ord=p)
             y[:, 0] = np.sign(x[:, kx]) * (np.absolute(x[:, kx]) / lp_norm) ** (p - 1)
 
         return y
-- 
2.43.0


From e072558fb0af0d59dccc09bf7fc16ba75bacc01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:48 +0000
Subject: [PATCH 78/92] fix: the printer keeps its depth when a timed operation
 fails

---
 smt/utils/printer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/smt/utils/printer.py b/smt/utils/printer.py
index 9377a60..30fa354 100644
--- a/smt/utils/printer.py
+++ b/smt/utils/printer.py
@@ -117,8 +117,10 @@ class Printer(object):
 
         start_time = time.time()
         self.depth += 1
-        yield
-        self.depth -= 1
+        try:
+            yield
+        finally:
+            self.depth -= 1
         stop_time = time.time()
 
         if string is not None:
-- 
2.43.0


From 32b8947e9810e77eb8a9f8cd7749f50abb5132ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:48 +0000
Subject: [PATCH 79/92] fix: a failing linear solver leaves the printer as it
 was

---
 smt/utils/linear_solvers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/smt/utils/linear_solvers.py b/smt/utils/linear_solvers.py
index f5a1924..8fbb43c 100644
--- a/smt/utils/linear_solvers.py
+++ b/smt/utils/linear_solvers.py
@@ -125,8 +125,10 @@ class LinearSolver(object):
         orig_active = self.printer.active
 
         self.printer.active = self.printer.active and active
-        yield self.printer
-        self.printer.active = orig_active
+        try:
+            yield self.printer
+        finally:
+            self.printer.active = orig_active
 
 
 class NullSolver(LinearSolver):
-- 
2.43.0


From 06c8a1a6a31c66876b4066dad5858e7e27a9d185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:48 +0000
Subject: [PATCH 80/92] fix: Silence restores the standard output it replaced

---
 smt/utils/silence.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smt/utils/silence.py b/smt/utils/silence.py
index 75a5149..059f8e8 100644
--- a/smt/utils/silence.py
+++ b/smt/utils/silence.py
@@ -10,11 +10,12 @@ import sys
 
 class Silence(object):
     def __enter__(self):
+        self.previous = sys.stdout
         sys.stdout = open(os.devnull, "w")
 
     def __exit__(self, *args):
         sys.stdout.close()
-        sys.stdout = sys.__stdout__
+        sys.stdout = self.previous
         return False
 
 
-- 
2.43.0


From 9bb0f15ae9cfd808e8030bab21751096f1f1c367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:43 +0000
Subject: [PATCH 81/92] fix: print_solver suppresses what the linear solvers
 print

---
 smt/surrogate_models/surrogate_model.py | 1 +
 smt/utils/linear_solvers.py             | 4 +++-
 smt/utils/printer.py                    | 3 +++
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/smt/surrogate_models/surrogate_model.py b/smt/surrogate_models/surrogate_model.py
index ce6795a..e534ab0 100644
--- a/smt/surrogate_models/surrogate_model.py
+++ b/smt/surrogate_models/surrogate_model.py
@@ -264,6 +264,7 @@ class SurrogateModel(object, metaclass=ABCMeta):
         self.printer.active = (
             self.options["print_global"] and self.options["print_training"]
         )
+        self.printer.solver_active = self.options["print_solver"]
         if self.name == "MixExp":
             # Mixture of experts model
             self.printer._title("Training of the Mixture of experts")
diff --git a/smt/utils/linear_solvers.py b/smt/utils/linear_solvers.py
index 8fbb43c..5ce7306 100644
--- a/smt/utils/linear_solvers.py
+++ b/smt/utils/linear_solvers.py
@@ -124,7 +124,9 @@ class LinearSolver(object):
     def _active(self, active):
         orig_active = self.printer.active
 
-        self.printer.active = self.printer.active and active
+        self.printer.active = (
+            self.printer.active and self.printer.solver_active and active
+        )
         try:
             yield self.printer
         finally:
diff --git a/smt/utils/printer.py b/smt/utils/printer.py
index 30fa354..960aefa 100644
--- a/smt/utils/printer.py
+++ b/smt/utils/printer.py
@@ -16,6 +16,8 @@ class Printer(object):
     ----------
     active : bool
         If False, the printer is in a state in which printing is suppressed.
+    solver_active : bool
+        If False, what linear solvers print is suppressed.
     depth : int
         Current level of nesting of the code, affecting the degree of indentation of prints.
     max_print_depth : int
@@ -26,6 +28,7 @@ class Printer(object):
 
     def __init__(self):
         self.active = False
+        self.solver_active = True
         self.depth = 1
         self.max_print_depth = 100
         self.times = {}
-- 
2.43.0


From a99faa675525b2549a48b53a6886cdcf912d0f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:43 +0000
Subject: [PATCH 82/92] fix: predicting at no points does not fail in its
 report

---
 smt/surrogate_models/surrogate_model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/smt/surrogate_models/surrogate_model.py b/smt/surrogate_models/surrogate_model.py
index e534ab0..65bc54f 100644
--- a/smt/surrogate_models/surrogate_model.py
+++ b/smt/surrogate_models/surrogate_model.py
@@ -335,7 +335,7 @@ class SurrogateModel(object, metaclass=ABCMeta):
         # Evaluate the unknown points using the specified model-method
         with self.printer._timed_context("Predicting", key="prediction"):
             y = self._predict_values(x2)
-        time_pt = self.printer._time("prediction")[-1] / n
+        time_pt = self.printer._time("prediction")[-1] / max(n, 1)
         self.printer()
         self.printer("Prediction time/pt. (sec) : %10.7f" % time_pt)
         self.printer()
@@ -379,7 +379,7 @@ class SurrogateModel(object, metaclass=ABCMeta):
         with self.printer._timed_context("Predicting", key="prediction"):
             y = self._predict_derivatives(x, kx)
 
-        time_pt = self.printer._time("prediction")[-1] / n
+        time_pt = self.printer._time("prediction")[-1] / max(n, 1)
         self.printer()
         self.printer("Prediction time/pt. (sec) : %10.7f" % time_pt)
         self.printer()
@@ -467,7 +467,7 @@ class SurrogateModel(object, metaclass=ABCMeta):
         with self.printer._timed_context("Predicting", key="prediction"):
             y = self._predict_variance_derivatives(x)
 
-        time_pt = self.printer._time("prediction")[-1] / n
+        time_pt = self.printer._time("prediction")[-1] / max(n, 1)
         self.printer()
         self.printer("Prediction time/pt. (sec) : %10.7f" % time_pt)
         self.printer()
-- 
2.43.0


From c3249b89ccc0477fff1e449f181cbf2ecd0c9376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:43 +0000
Subject: [PATCH 83/92] fix: GENN prints its training only when training
 information is printed

---
 smt/surrogate_models/genn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/surrogate_models/genn.py b/smt/surrogate_models/genn.py
index 04ba54f..2cf4f6f 100644
--- a/smt/surrogate_models/genn.py
+++ b/smt/surrogate_models/genn.py
@@ -204,7 +204,7 @@ class GENN(SurrogateModel):
             lambd=lambd,
             gamma=gamma,
             seed=seed,
-            silent=not is_print,
+            silent=not (is_print and self.printer.active),
         )
 
         self._is_trained = True
-- 
2.43.0


From b08e706b8e6f600b31e982080022b6cc18c35034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:43 +0000
Subject: [PATCH 84/92] fix: Kriging prints nothing with print_global off

---
 smt/surrogate_models/krg_based.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/smt/surrogate_models/krg_based.py b/smt/surrogate_models/krg_based.py
index 4844e26..b3fe3a3 100644
--- a/smt/surrogate_models/krg_based.py
+++ b/smt/surrogate_models/krg_based.py
@@ -161,9 +161,10 @@ class KrgBased(SurrogateModel):
         # Calculate matrix of distances D between samples
         D, self.ij = cross_distances(self.X_norma)
         if np.min(np.sum(np.abs(D), axis=1)) == 0.0:
-            print(
-                "Warning: multiple x input features have the same value (at least same row twice)."
-            )
+            if self.options["print_global"]:
+                print(
+                    "Warning: multiple x input features have the same value (at least same row twice)."
+                )
         ####
         # Regression matrix and parameters
         self.F = self._regression_types[self.options["poly"]](self.X_norma)
@@ -274,7 +275,8 @@ class KrgBased(SurrogateModel):
         try:
             C = linalg.cholesky(R, lower=True)
         except (linalg.LinAlgError, ValueError) as e:
-            print("exception : ", e)
+            if self.options["print_global"]:
+                print("exception : ", e)
             # raise e
             return reduced_likelihood_function_value, par
 
@@ -947,9 +949,10 @@ class KrgBased(SurrogateModel):
                         self.theta0[i] * (theta_bounds[1] - theta_bounds[0])
                         + theta_bounds[0]
                     )
-                    print(
-                        "Warning: theta0 is out the feasible bounds. A random initialisation is used instead."
-                    )
+                    if self.options["print_global"]:
+                        print(
+                            "Warning: theta0 is out the feasible bounds. A random initialisation is used instead."
+                        )
 
                 if self.name in ["MGP"]:  # to be discussed with R. Priem
                     constraints.append(lambda theta, i=i: theta[i] + theta_bounds[1])
@@ -992,9 +995,10 @@ class KrgBased(SurrogateModel):
                         or self.noise0[i] > noise_bounds[1]
                     ):
                         self.noise0[i] = noise_bounds[0]
-                        print(
-                            "Warning: noise0 is out the feasible bounds. The lowest possible value is used instead."
-                        )
+                        if self.options["print_global"]:
+                            print(
+                                "Warning: noise0 is out the feasible bounds. The lowest possible value is used instead."
+                            )
 
                 theta0 = np.concatenate(
                     [theta0, np.log10(np.array([self.noise0]).flatten())]
@@ -1132,12 +1136,14 @@ class KrgBased(SurrogateModel):
                                 ) = best_evaluated()
                     # Optimization fail
                     elif best_optimal_par == []:
-                        print("Optimization failed. Try increasing the ``nugget``")
+                        if self.options["print_global"]:
+                            print("Optimization failed. Try increasing the ``nugget``")
                         raise ve
                     # Break the while loop
                     else:
                         k = stop + 1
-                        print("fmin_cobyla failed but the best value is retained")
+                        if self.options["print_global"]:
+                            print("fmin_cobyla failed but the best value is retained")
 
             if not best_optimal_par:
                 raise ValueError("The training failed. Try increasing the ``nugget``")
-- 
2.43.0


From 2caf75ea796b3b7a18053c077c22e39a7d5c503a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:51 +0000
Subject: [PATCH 85/92] fix: output derivatives print as the print options say,
 not as the last call did

---
 smt/surrogate_models/surrogate_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/smt/surrogate_models/surrogate_model.py b/smt/surrogate_models/surrogate_model.py
index 65bc54f..548fdb5 100644
--- a/smt/surrogate_models/surrogate_model.py
+++ b/smt/surrogate_models/surrogate_model.py
@@ -405,6 +405,9 @@ class SurrogateModel(object, metaclass=ABCMeta):
         x = ensure_2d_array(x, "x")
         check_nx(self.nx, x)
         self._check_trained_shape()
+        self.printer.active = (
+            self.options["print_global"] and self.options["print_prediction"]
+        )
 
         dy_dyt = self._predict_output_derivatives(x)
         return dy_dyt
-- 
2.43.0


From 20f44ae9fb5a7315e8b02b93b88d196da17666aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:19 +0000
Subject: [PATCH 86/92] fix: a stationary point gives GEKPLS no direction
 whatever the level of its output

---
 smt/utils/kriging_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/utils/kriging_utils.py b/smt/utils/kriging_utils.py
index bbd53f6..06d4631 100644
--- a/smt/utils/kriging_utils.py
+++ b/smt/utils/kriging_utils.py
@@ -751,7 +751,7 @@ def ge_compute_pls(X, y, n_comp, pts, delta_x, xlimits, extra_points):
                 - pts[None][2][1][i, 0] * delta_x * (xlimits[1, 1] - xlimits[1, 0])
             )
 
-        _pls.fit(_X.copy(), _y.copy())
+        _pls.fit(_X.copy(), _y - y[i, 0])
         coeff_pls[i, :, :] = _pls.x_rotations_
         # Add additional points
         if extra_points != 0:
-- 
2.43.0


From a028d22e7e7590ad4c657811d30179bf78e55a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:19 +0000
Subject: [PATCH 87/92] fix: GEKPLS with a single input

---
 smt/utils/kriging_utils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/smt/utils/kriging_utils.py b/smt/utils/kriging_utils.py
index 06d4631..b26365b 100644
--- a/smt/utils/kriging_utils.py
+++ b/smt/utils/kriging_utils.py
@@ -692,6 +692,12 @@ def ge_compute_pls(X, y, n_comp, pts, delta_x, xlimits, extra_points):
             for j in range(1, dim + 1):
                 sign[:, j - 1] = sign[:, j - 1] * pts[None][j][1][i, 0]
             _y = y[i, :] + np.sum(sign, axis=1).reshape((sign.shape[0], 1))
+        elif dim == 1:
+            # center, right, left
+            step = np.array([[0.0], [1.0], [-1.0]])
+            step *= delta_x * (xlimits[0, 1] - xlimits[0, 0])
+            _X = X[i, :] + step
+            _y = y[i, 0] + pts[None][1][1][i, 0] * step
         else:
             _X = np.zeros((9, dim))
             _y = np.zeros((9, 1))
-- 
2.43.0


From 49224b56cd91f7525693d0fc48a748cffc81fa15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:33 +0000
Subject: [PATCH 88/92] fix: GEKPLS checks where the derivatives were given

---
 smt/surrogate_models/gekpls.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/smt/surrogate_models/gekpls.py b/smt/surrogate_models/gekpls.py
index 4810630..cb37fdf 100644
--- a/smt/surrogate_models/gekpls.py
+++ b/smt/surrogate_models/gekpls.py
@@ -39,6 +39,13 @@ class GEKPLS(KPLS):
 
     def _compute_pls(self, X, y):
         if 0 in self.training_points[None]:
+            for kx in range(X.shape[1]):
+                grad = self.training_points[None].get(kx + 1)
+                if grad is None or not np.array_equal(grad[0], X):
+                    raise ValueError(
+                        "GEKPLS needs the derivatives with respect to each input "
+                        "at the training points"
+                    )
             self.coeff_pls, XX, yy = ge_compute_pls(
                 X.copy(),
                 y.copy(),
-- 
2.43.0


From 3f1e44b6a4b8b43abdb3c4b5372c17882461fe79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:04 +0000
Subject: [PATCH 89/92] fix: the MGP variance takes the hyperparameters' effect
 on the mean in the units of the output

---
 smt/surrogate_models/krg_mgp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/surrogate_models/krg_mgp.py b/smt/surrogate_models/krg_mgp.py
index 442ec34..be6c51f 100644
--- a/smt/surrogate_models/krg_mgp.py
+++ b/smt/surrogate_models/krg_mgp.py
@@ -290,7 +290,7 @@ class MGP(KrgBased):
 
             dbetadomega = self.optimal_par["dbeta_all"][omega]
 
-            dy_omega = (
+            dy_omega = self.y_std * (
                 f.dot(dbetadomega)
                 + drdomega.dot(gamma)
                 - r.dot(Rinv_dR_gamma[omega] + Rinv_dmu[omega])
-- 
2.43.0


From 6ca20e71a7aff4d495610556fee490a4e31b8e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:52 +0000
Subject: [PATCH 90/92] fix: MFK accepts one heteroscedastic noise variance for
 all the points of a level

---
 smt/applications/mfk.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/smt/applications/mfk.py b/smt/applications/mfk.py
index 0e9875a..ab073fd 100644
--- a/smt/applications/mfk.py
+++ b/smt/applications/mfk.py
@@ -730,7 +730,9 @@ class MFK(KrgBased):
                 if len(self.X[i]) == len(np.unique(self.X[i])):
                     if len(self.options["noise0"][i]) != self.nt_all[i]:
                         if len(self.options["noise0"][i]) == 1:
-                            self.options["noise0"][i] *= np.ones(self.nt_all[i])
+                            self.options["noise0"][i] = self.options["noise0"][
+                                i
+                            ] * np.ones(self.nt_all[i])
                         else:
                             raise ValueError(
                                 "for the level of fidelity %s, the length of noise0 (%s) should be equal to the number of observations (%s)."
-- 
2.43.0


From ce579aa161fb93e22765cb821099f514983e558d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:32 +0000
Subject: [PATCH 91/92] fix: MGP refuses to predict after a failed training or
 with untrained data like the other surrogates

---
 smt/surrogate_models/krg_mgp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/smt/surrogate_models/krg_mgp.py b/smt/surrogate_models/krg_mgp.py
index be6c51f..dfbf7e7 100644
--- a/smt/surrogate_models/krg_mgp.py
+++ b/smt/surrogate_models/krg_mgp.py
@@ -91,6 +91,7 @@ class MGP(KrgBased):
 
         """
         x = ensure_2d_array(x, "x")
+        self._check_trained_shape()
         n_eval, n_features = x.shape
 
         if n_features < self.nx:
@@ -152,6 +153,7 @@ class MGP(KrgBased):
 
         """
         x = ensure_2d_array(x, "x")
+        self._check_trained_shape()
         n_eval, n_features = x.shape
         if n_features < self.nx:
             if n_features != self.options["n_comp"]:
-- 
2.43.0


From a8fd034248a2d47d91bf49ed13499bfd8c85e776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:31 +0000
Subject: [PATCH 92/92] fix: MFK with optim_var gives the training data back
 when it fails before its second training

---
 smt/applications/mfk.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/smt/applications/mfk.py b/smt/applications/mfk.py
index ab073fd..c8b0adf 100644
--- a/smt/applications/mfk.py
+++ b/smt/applications/mfk.py
@@ -344,17 +344,19 @@ class MFK(KrgBased):
             user_points = {
                 name: dict(points) for name, points in self.training_points.items()
             }
-            for lvl in range(self.nlvl - 1):
+            try:
+                for lvl in range(self.nlvl - 1):
+                    self.set_training_values(
+                        X[lvl],
+                        self._predict_intermediate_values(X[lvl], lvl + 1),
+                        name=lvl,
+                    )
                 self.set_training_values(
-                    X[lvl], self._predict_intermediate_values(X[lvl], lvl + 1), name=lvl
+                    X[-1], self._predict_intermediate_values(X[-1], self.nlvl)
                 )
-            self.set_training_values(
-                X[-1], self._predict_intermediate_values(X[-1], self.nlvl)
-            )
-            # the predictions of the first training are interpolated
-            self.options["eval_noise"] = False
-            self.options["noise0"] = [0.0]
-            try:
+                # the predictions of the first training are interpolated
+                self.options["eval_noise"] = False
+                self.options["noise0"] = [0.0]
                 self._new_train()
             finally:
                 self.training_points.update(user_points)
-- 
2.43.0

