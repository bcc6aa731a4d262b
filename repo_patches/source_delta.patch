From 61b0a8c5510b7ffdd64fa6c8087831be3c2242f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:38 +0000
Subject: [PATCH 01/46] fix: ctrsbox_sfista raised TypeError whenever argsprox
 was non-empty

---
 dfols/trust_region.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dfols/trust_region.py b/dfols/trust_region.py
index e9159ad..e7327ee 100644
--- a/dfols/trust_region.py
+++ b/dfols/trust_region.py
@@ -143,7 +143,7 @@ def ctrsbox_sfista(xopt, g, H, projections, delta, h, L_h, prox_uh, argsh=(), ar
         prev_d = d.copy()
         prev_t = t
         # gradient_Fu at y
-        g_Fu = gradient_Fu(xopt, g, H, u, prox_uh, d, *argsprox)
+        g_Fu = gradient_Fu(xopt, g, H, u, prox_uh, d)
 
         # main update step
         d = proj(y - g_Fu / l)
@@ -154,7 +154,7 @@ def ctrsbox_sfista(xopt, g, H, projections, delta, h, L_h, prox_uh, argsh=(), ar
 
         # update true gradient
         # gnew is the gradient of the smoothed function
-        gnew = gradient_Fu(xopt, g, H, u, prox_uh, d, *argsprox)
+        gnew = gradient_Fu(xopt, g, H, u, prox_uh, d)
 
         # update CRVMIN
         crv = d.dot(H).dot(d)/sumsq(d) if sumsq(d) >= ZERO_THRESH else crvmin
-- 
2.43.0


From 2130f5877ee72bfd143cf12235ae7fe3ddd9085b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:57 +0000
Subject: [PATCH 02/46] fix: solve raised TypeError instead of returning the
 input-error result

---
 dfols/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index f61d7da..56f97c8 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -1086,7 +1086,7 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
     if exit_info is not None:
         exit_flag = exit_info.flag
         exit_msg = exit_info.message(with_stem=True)
-        results = OptimResults(None, None, None, None, 0, 0, 0, exit_flag, exit_msg)
+        results = OptimResults(None, None, None, None, 0, 0, 0, exit_flag, exit_msg, None, None)
         return results
 
     # Enforce arbitrary constraint bounds on x0
-- 
2.43.0


From a17d094885c2ee70f540a6dfe2ec7d72d93238eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:03 +0000
Subject: [PATCH 03/46] fix: result object lacked the documented constants
 EXIT_TR_INCREASE_WARNING and EXIT_EVAL_ERROR

---
 dfols/controller.py | 2 +-
 dfols/solver.py     | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 4fee084..87a08f8 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -41,7 +41,7 @@ from .util import *
 
 __all__ = ['Controller', 'ExitInformation', 'EXIT_SLOW_WARNING', 'EXIT_MAXFUN_WARNING', 'EXIT_SUCCESS',
            'EXIT_INPUT_ERROR', 'EXIT_TR_INCREASE_ERROR', 'EXIT_LINALG_ERROR', 'EXIT_FALSE_SUCCESS_WARNING',
-           'EXIT_AUTO_DETECT_RESTART_WARNING', 'EXIT_EVAL_ERROR']
+           'EXIT_AUTO_DETECT_RESTART_WARNING', 'EXIT_EVAL_ERROR', 'EXIT_TR_INCREASE_WARNING']
 
 module_logger = logging.getLogger(__name__) 
 
diff --git a/dfols/solver.py b/dfols/solver.py
index 56f97c8..01dfbbc 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -70,6 +70,8 @@ class OptimResults(object):
         self.EXIT_TR_INCREASE_ERROR = EXIT_TR_INCREASE_ERROR
         self.EXIT_LINALG_ERROR = EXIT_LINALG_ERROR
         self.EXIT_FALSE_SUCCESS_WARNING = EXIT_FALSE_SUCCESS_WARNING
+        self.EXIT_TR_INCREASE_WARNING = EXIT_TR_INCREASE_WARNING
+        self.EXIT_EVAL_ERROR = EXIT_EVAL_ERROR
 
     def __str__(self):
         # Result of calling print(soln)
-- 
2.43.0


From 1c53fea9dde14c765ce5db2af09b91379fc34f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:29 +0000
Subject: [PATCH 04/46] fix: rounding in xbase + step could take evaluation
 points outside the bounds

---
 dfols/model.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dfols/model.py b/dfols/model.py
index e10c5e0..d8785a9 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -70,6 +70,8 @@ class Model(object):
         self.xbase = x0.copy()
         self.sl = xl - self.xbase  # lower bound w.r.t. xbase (require xpt >= sl)
         self.su = xu - self.xbase  # upper bound w.r.t. xbase (require xpt <= su)
+        self.xl = xl.copy()  # absolute bounds (rounding errors mean xbase + sl may be different to xl)
+        self.xu = xu.copy()
         self.projections = projections
         self.points = np.zeros((npt, n))  # interpolation points w.r.t. xbase
 
@@ -141,7 +143,7 @@ class Model(object):
             # Apply bounds and convert back to absolute coordinates
             if self.projections:
                 return dykstra(self.projections, self.xbase + self.points[k,:])
-            return self.xbase + np.minimum(np.maximum(self.sl, self.points[k, :]), self.su)
+            return self.as_absolute_coordinates(self.points[k, :])
 
     def rvec(self, k):
         assert 0 <= k < self.npt(), "Invalid index %g" % k
@@ -155,7 +157,8 @@ class Model(object):
         # If x were an interpolation point, get the absolute coordinates of x
         if self.projections:
             return dykstra(self.projections, self.xbase + x)
-        return self.xbase + np.minimum(np.maximum(self.sl, x), self.su)
+        xabs = self.xbase + np.minimum(np.maximum(self.sl, x), self.su)
+        return np.minimum(np.maximum(self.xl, xabs), self.xu)
 
     def xpt_directions(self, include_kopt=True):
         if include_kopt:
-- 
2.43.0


From c3c084e38342737496fea9e68559b22ab66e906f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:34 +0000
Subject: [PATCH 05/46] fix: rounding when undoing the scaling could take
 evaluation points and soln.x outside the bounds

---
 dfols/solver.py |  2 +-
 dfols/util.py   | 10 +++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index 01dfbbc..0efe826 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -1004,7 +1004,7 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
     if scaling_within_bounds:
         shift = xl.copy()
         scale = xu - xl
-        scaling_changes = (shift, scale)
+        scaling_changes = (shift, scale, xl.copy(), xu.copy())
 
     x0 = apply_scaling(x0, scaling_changes)
     xl = apply_scaling(xl, scaling_changes)
diff --git a/dfols/util.py b/dfols/util.py
index ad51e6c..54b1653 100644
--- a/dfols/util.py
+++ b/dfols/util.py
@@ -212,15 +212,19 @@ def random_directions_within_bounds(num_pts, delta, lower, upper):
 def apply_scaling(x_raw, scaling_changes):
     if scaling_changes is None:
         return x_raw
-    shift, scale = scaling_changes
+    shift, scale = scaling_changes[:2]
     return (x_raw - shift) / scale
 
 
 def remove_scaling(x_scaled, scaling_changes):
     if scaling_changes is None:
         return x_scaled
-    shift, scale = scaling_changes
-    return shift + x_scaled * scale
+    shift, scale = scaling_changes[:2]
+    x_raw = shift + x_scaled * scale
+    if len(scaling_changes) > 2:  # don't allow rounding errors to take x outside the original bounds
+        lower, upper = scaling_changes[2:]
+        x_raw = np.minimum(np.maximum(x_raw, lower), upper)
+    return x_raw
 
 
 def dykstra(P,x0,max_iter=100,tol=1e-10):
-- 
2.43.0


From 311724f7916d269ed521212f826f0b87ab318971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:53 +0000
Subject: [PATCH 06/46] fix: slightly infeasible x0 was not replaced by its
 projection

---
 dfols/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index 0efe826..ee8b521 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -1096,7 +1096,7 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
         xp = dykstra(projections,x0,max_iter=params("dykstra.max_iters"),tol=params("dykstra.d_tol"))
         if not np.allclose(xp,x0):
             warnings.warn("x0 not feasible w.r.t given constraints, adjusting", RuntimeWarning)
-            x0 = xp.copy()
+        x0 = xp.copy()
 
     # Enforce lower & upper bounds on x0
     idx = (x0 < xl)
-- 
2.43.0


From 0483dffb53b0598d52f894a41d91d4ee87b665de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:51 +0000
Subject: [PATCH 07/46] fix: reduce_rho ignored restarts.rhoend_scale after a
 soft restart (infinite loop)

---
 dfols/controller.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dfols/controller.py b/dfols/controller.py
index 87a08f8..c7f1d42 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -866,6 +866,7 @@ class Controller(object):
 
         # Otherwise, we are doing a restart
         self.last_successful_iter = 0
+        self.rhoend = params("restarts.rhoend_scale") * self.rhoend  # keep consistent with rhoend in solve_main
         return None  # exit_info = None
 
     def move_furthest_points(self, number_of_samples, num_pts_to_move, params):
-- 
2.43.0


From 3ff2d5eae2767ca457027ed827431476ba088553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:15 +0000
Subject: [PATCH 08/46] fix: overflow in the model gradient/Hessian made the
 trust region step raise instead of calling a safety step

---
 dfols/controller.py | 5 +++++
 dfols/solver.py     | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index c7f1d42..73b99d6 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -507,6 +507,11 @@ class Controller(object):
     def trust_region_step(self, params, criticality_measure=1e-2):
         # Build model for full least squares function
         gopt, H = self.model.build_full_model()
+        # None of the subproblem solvers can be run if gopt or H have bad values (e.g. from overflow)
+        # (this will ultimately lead to a manual setting of d=0 and calling a safety step anyway)
+        if not (np.all(np.isfinite(gopt)) and np.all(np.isfinite(H))):
+            module_logger.debug("nan/inf values in gopt and/or H, skipping trust region subproblem")
+            return np.zeros(gopt.shape), gopt, H, gopt.copy(), -1
         # Build func_tol for trust region step
         # QUESTION: c1 = min{1, 1/delta_max^2}, but choose c1=1here; choose maxhessian = max(||H||_2,1)
         # QUESTION: when criticality_measure = 0? choose max(criticality_measure,1)
diff --git a/dfols/solver.py b/dfols/solver.py
index ee8b521..eecab88 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -363,7 +363,7 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
                                                    save_poisedness=params("logging.save_poisedness"))
             # norm_J_error is square of Frobenius norm of chgJ
             diagnostic_info.update_interpolation_information(interp_error, ls_interp_cond_num, linalg_resid,
-                                                             sqrt(norm_J_error), LA.norm(gopt), LA.norm(d))
+                                                             sqrt(norm_J_error), np.linalg.norm(gopt), LA.norm(d))
 
         if dnorm < tau * params("general.safety_step_thresh") * control.rho and not finished_growing and params("growing.safety.do_safety_step"):
             if do_logging:
-- 
2.43.0


From bbda848df7925bb15f5c1855c42061a0a10e3edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:06 +0000
Subject: [PATCH 09/46] fix: soft restart swapped number of samples and
 evaluation number when saving the incumbent

---
 dfols/controller.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 73b99d6..eff46a2 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -806,8 +806,8 @@ class Controller(object):
             assert rvec_to_save is not None, "Soft restart: specified x_to_save but not rvec_to_save"
             assert nsamples_to_save is not None, "Soft restart: specified x_to_save but not nsamples_to_save"
             self.model.save_point(x_in_abs_coords_to_save, rvec_to_save, nsamples_to_save, self.nx, x_in_abs_coords=True)
-        self.model.save_point(self.model.xopt(abs_coordinates=True), self.model.ropt(), self.nx,
-                              self.model.nsamples[self.model.kopt], x_in_abs_coords=True)
+        self.model.save_point(self.model.xopt(abs_coordinates=True), self.model.ropt(), self.model.nsamples[self.model.kopt],
+                              self.model.eval_num[self.model.kopt], x_in_abs_coords=True)
 
         if self.do_logging:
             module_logger.info("Soft restart [currently, f = %g after %g function evals]" % (self.model.objopt(), self.nf))
-- 
2.43.0


From 35510c79acc92e61cdf0d37e0f6a82c3daae43bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:11 +0000
Subject: [PATCH 10/46] fix: swap_points did not swap the sample counts

---
 dfols/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dfols/model.py b/dfols/model.py
index d8785a9..c43b4b8 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -207,6 +207,7 @@ class Model(object):
         self.points[[k1, k2], :] = self.points[[k2, k1], :]
         self.fval_v[[k1, k2], :] = self.fval_v[[k2, k1], :]
         self.objval[[k1, k2]] = self.objval[[k2, k1]]
+        self.nsamples[[k1, k2]] = self.nsamples[[k2, k1]]
         self.eval_num[[k1, k2]] = self.eval_num[[k2, k1]]
         if self.kopt == k1:
             self.kopt = k2
-- 
2.43.0


From ee92e19bc01817a2af35b6ba991b6a7880d33253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:17 +0000
Subject: [PATCH 11/46] fix: a NaN objective could displace or hide a finite
 best point in the model

---
 dfols/model.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/dfols/model.py b/dfols/model.py
index c43b4b8..61109a1 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -199,7 +199,7 @@ class Model(object):
         self.eval_num[k] = eval_num
         self.factorisation_current = False
 
-        if allow_kopt_update and self.objval[k] < self.objopt():
+        if allow_kopt_update and (self.objval[k] < self.objopt() or np.isnan(self.objopt())):
             self.kopt = k
         return
 
@@ -227,7 +227,9 @@ class Model(object):
             self.objval[k] += self.h(remove_scaling(self.xbase + self.points[k, :], self.scaling_changes), *self.argsh)
         self.nsamples[k] += 1
 
-        self.kopt = np.argmin(self.objval[:self.npt()])  # make sure kopt is always the best value we have
+        # make sure kopt is always the best value we have (argmin alone would select any NaN)
+        objvals = self.objval[:self.npt()]
+        self.kopt = np.argmin(np.where(np.isnan(objvals), np.inf, objvals))
         return
 
     def add_new_point(self, x, rvec, eval_num):
@@ -242,7 +244,7 @@ class Model(object):
         self.num_pts += 1  # make sure npt is updated
         self.npt_so_far += 1
 
-        if obj < self.objopt():
+        if obj < self.objopt() or np.isnan(self.objopt()):
             self.kopt = self.npt() - 1
 
         self.factorisation_current = False
@@ -266,7 +268,7 @@ class Model(object):
         obj = sumsq(rvec)
         if self.h is not None:
             obj += self.h(remove_scaling(xabs, self.scaling_changes), *self.argsh)
-        if self.objsave is None or obj <= self.objsave:
+        if self.objsave is None or obj <= self.objsave or np.isnan(self.objsave):
             self.xsave = xabs
             self.rsave = rvec.copy()
             self.objsave = obj
@@ -280,7 +282,7 @@ class Model(object):
 
     def get_final_results(self):
         # Return x and objval for optimal point (either from xsave+objsave or kopt)
-        if self.objsave is None or self.objopt() <= self.objsave:  # optimal has changed since xsave+objsave were last set
+        if self.objsave is None or self.objopt() <= self.objsave or np.isnan(self.objsave):  # optimal has changed since xsave+objsave were last set
             return self.xopt(abs_coordinates=True).copy(), self.ropt().copy(), self.objopt(), self.model_jac.copy(), self.nsamples[self.kopt], self.eval_num[self.kopt], self.model_jac_eval_nums
         else:
             return self.xsave.copy(), self.rsave.copy(), self.objsave, self.jacsave, self.nsamples_save, self.eval_num_save, self.jacsave_eval_nums
-- 
2.43.0


From 40b29c82d71bf0fa6090c0730cf9b9c639ed727e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:23 +0000
Subject: [PATCH 12/46] fix: add_new_sample could move the incumbent but keep a
 factorisation centred at the old one

---
 dfols/model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dfols/model.py b/dfols/model.py
index 61109a1..f37e74a 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -229,7 +229,10 @@ class Model(object):
 
         # make sure kopt is always the best value we have (argmin alone would select any NaN)
         objvals = self.objval[:self.npt()]
-        self.kopt = np.argmin(np.where(np.isnan(objvals), np.inf, objvals))
+        kopt_new = np.argmin(np.where(np.isnan(objvals), np.inf, objvals))
+        if kopt_new != self.kopt:
+            self.kopt = kopt_new
+            self.factorisation_current = False  # interpolation system is centred at xopt
         return
 
     def add_new_point(self, x, rvec, eval_num):
-- 
2.43.0


From 3c6fa75addf9246a91d78444edfd07fd21c95f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:28 +0000
Subject: [PATCH 13/46] fix: regulariser was evaluated at points outside the
 bounds, not at the point where the residuals were evaluated

---
 dfols/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dfols/model.py b/dfols/model.py
index f37e74a..bf090cb 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -194,7 +194,7 @@ class Model(object):
         self.fval_v[k, :] = rvec.copy()
         self.objval[k] = sumsq(rvec)
         if self.h is not None:
-            self.objval[k] += self.h(remove_scaling(self.xbase + x, self.scaling_changes), *self.argsh)
+            self.objval[k] += self.h(remove_scaling(self.as_absolute_coordinates(x), self.scaling_changes), *self.argsh)
         self.nsamples[k] = 1
         self.eval_num[k] = eval_num
         self.factorisation_current = False
@@ -224,7 +224,7 @@ class Model(object):
         # NOTE: how to sample when we have h? still at xpt(k), then add h(xpt(k)). Modify test if incorrect!
         self.objval[k] = sumsq(self.fval_v[k, :])
         if self.h is not None:
-            self.objval[k] += self.h(remove_scaling(self.xbase + self.points[k, :], self.scaling_changes), *self.argsh)
+            self.objval[k] += self.h(remove_scaling(self.as_absolute_coordinates(self.points[k, :]), self.scaling_changes), *self.argsh)
         self.nsamples[k] += 1
 
         # make sure kopt is always the best value we have (argmin alone would select any NaN)
@@ -240,7 +240,7 @@ class Model(object):
         self.fval_v = np.append(self.fval_v, rvec.reshape((1, self.m())), axis=0)  # append row to fval_v
         obj = sumsq(rvec)
         if self.h is not None:
-            obj += self.h(remove_scaling(self.xbase + x, self.scaling_changes), *self.argsh)
+            obj += self.h(remove_scaling(self.as_absolute_coordinates(x), self.scaling_changes), *self.argsh)
         self.objval = np.append(self.objval, obj)  # append entry to fval
         self.nsamples = np.append(self.nsamples, 1)  # add new sample number
         self.eval_num = np.append(self.eval_num, eval_num)  # add new evaluation number
-- 
2.43.0


From 65dda40b6b040989f955c49bc6f7d523b5108a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:34 +0000
Subject: [PATCH 14/46] fix: regularised subproblems applied bounds relative to
 xbase to absolute points

---
 dfols/controller.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index eff46a2..c866136 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -494,7 +494,7 @@ class Controller(object):
                                 max_iters=params("func_tol.max_iters"), d_max_iters=params("dykstra.max_iters"), d_tol=params("dykstra.d_tol"),
                                 scaling_changes=self.scaling_changes, sfista_iters_scale=params("sfista.max_iters_scaling"))
         else:
-            proj = lambda x: pbox(x, self.model.sl, self.model.su)
+            proj = lambda x: pbox(x, self.model.xl, self.model.xu)
             d, gnew, crvmin = ctrsbox_sfista(self.model.xopt(abs_coordinates=True), gopt, np.zeros(H.shape), [proj], 1,
                                 self.h, self.lh, self.prox_uh, argsh = self.argsh, argsprox=self.argsprox, func_tol=func_tol, 
                                 max_iters=params("func_tol.max_iters"), d_max_iters=params("dykstra.max_iters"), d_tol=params("dykstra.d_tol"),
@@ -546,7 +546,7 @@ class Controller(object):
             else:
                 # NOTE: alternative way if using trsbox
                 # d, gnew, crvmin = trsbox(self.model.xopt(), gopt, H, self.model.sl, self.model.su, self.delta)
-                proj = lambda x: pbox(x, self.model.sl, self.model.su)
+                proj = lambda x: pbox(x, self.model.xl, self.model.xu)
                 d, gnew, crvmin = ctrsbox_sfista(self.model.xopt(abs_coordinates=True), gopt, H, [proj], self.delta,
                                       self.h, self.lh, self.prox_uh, argsh = self.argsh, argsprox=self.argsprox, func_tol=func_tol,
                                       max_iters=params("func_tol.max_iters"), d_max_iters=params("dykstra.max_iters"), d_tol=params("dykstra.d_tol"),
-- 
2.43.0


From 50ca47cc8e48c2aa27a51b71dc8c910a8842029d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:01 +0000
Subject: [PATCH 15/46] fix: first point of a hard restart was always labelled
 as evaluation point 1

---
 dfols/controller.py | 4 ++--
 dfols/model.py      | 4 ++--
 dfols/solver.py     | 8 +++++---
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index c866136..cbc209a 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -101,7 +101,7 @@ class ExitInformation(object):
 
 class Controller(object):
     def __init__(self, objfun, argsf, x0, r0, r0_nsamples, xl, xu, projections, npt, rhobeg, rhoend, nf, nx, maxfun, params,
-                 scaling_changes, do_logging, h=None, lh=None, argsh = (), prox_uh=None, argsprox = ()):
+                 scaling_changes, do_logging, h=None, lh=None, argsh = (), prox_uh=None, argsprox = (), r0_eval_num=1):
         self.do_logging = do_logging
         self.objfun = objfun
         self.h = h
@@ -112,7 +112,7 @@ class Controller(object):
         self.argsprox = argsprox
         self.maxfun = maxfun
         self.model = Model(npt, x0, r0, xl, xu, projections, r0_nsamples, h=self.h, argsh = argsh, precondition=params("interpolation.precondition"),
-                           abs_tol = params("model.abs_tol"), rel_tol = params("model.rel_tol"), do_logging=do_logging, scaling_changes=scaling_changes)
+                           abs_tol = params("model.abs_tol"), rel_tol = params("model.rel_tol"), do_logging=do_logging, scaling_changes=scaling_changes, r0_eval_num=r0_eval_num)
         self.nf = nf
         self.nx = nx
         self.rhobeg = rhobeg
diff --git a/dfols/model.py b/dfols/model.py
index bf090cb..ba0a52a 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -45,7 +45,7 @@ module_logger = logging.getLogger(__name__)
 
 class Model(object):
     def __init__(self, npt, x0, r0, xl, xu, projections, r0_nsamples, h=None, argsh=(), n=None, m=None, abs_tol=1e-12, rel_tol=1e-20, precondition=True,
-                 do_logging=True, scaling_changes=None):
+                 do_logging=True, scaling_changes=None, r0_eval_num=1):
         if n is None:
             n = len(x0)
         if m is None:
@@ -88,7 +88,7 @@ class Model(object):
         self.nsamples[0] = r0_nsamples
         self.objbeg = self.objval[0]  # f(x0), saved to check for sufficient reduction
         self.eval_num = np.zeros((npt,), dtype=int)  # which evaluation number (1-indexed, nx not nf) is currently stored self.points[k,:]
-        self.eval_num[0] = 1
+        self.eval_num[0] = r0_eval_num
 
         # Termination criteria
         self.abs_tol = abs_tol
diff --git a/dfols/solver.py b/dfols/solver.py
index eecab88..22e8e0c 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -153,7 +153,7 @@ class OptimResults(object):
 
 def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxfun, nruns_so_far, nf_so_far, nx_so_far, nsamples, params,
                diagnostic_info, scaling_changes, h=None, lh=None, argsh=(), prox_uh=None, argsprox=None, r0_avg_old=None, r0_nsamples_old=None, default_growing_method_set_by_user=None,
-               do_logging=True, print_progress=False):
+               do_logging=True, print_progress=False, r0_eval_num_old=None):
     # Evaluate at x0 (keep nf, nx correct and check for f < 1e-12)
     # The hard bit is determining what m = len(r0) should be, and allocating memory appropriately
     if r0_avg_old is None:
@@ -161,6 +161,7 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
         # Evaluate the first time...
         nf = nf_so_far + 1
         nx = nx_so_far + 1
+        r0_eval_num = nx
         r0, obj0 = eval_least_squares_with_regularisation(objfun, remove_scaling(x0, scaling_changes), h, 
                                               argsf=argsf, argsh=argsh, verbose=do_logging, eval_num=nf, pt_num=nx,
                                               full_x_thresh=params("logging.n_to_print_whole_x_vector"),
@@ -210,6 +211,7 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
         num_samples_run = r0_nsamples_old
         nf = nf_so_far
         nx = nx_so_far
+        r0_eval_num = r0_eval_num_old
     
     # On the first run, set default growing method (unless the user has already done this)
     if default_growing_method_set_by_user is not None and (not default_growing_method_set_by_user):
@@ -225,7 +227,7 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
 
     # Initialise controller
     control = Controller(objfun, argsf, x0, r0_avg, num_samples_run, xl, xu, projections, npt, rhobeg, rhoend, nf, nx, maxfun,
-                         params, scaling_changes, do_logging, h=h, lh=lh, argsh=argsh,  prox_uh=prox_uh, argsprox=argsprox)
+                         params, scaling_changes, do_logging, h=h, lh=lh, argsh=argsh,  prox_uh=prox_uh, argsprox=argsprox, r0_eval_num=r0_eval_num)
 
     # Initialise interpolation set
     number_of_samples = max(nsamples(control.delta, control.rho, 0, nruns_so_far), 1)
@@ -1136,7 +1138,7 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
             xmin2, rmin2, objmin2, jacmin2, nsamples2, nf, nx, nruns, exit_info, diagnostic_info, xmin_eval_num2, jacmin_eval_nums2 = \
                 solve_main(objfun, xmin, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxfun, nruns, nf, nx, nsamples, params,
                             diagnostic_info, scaling_changes, h, lh, argsh, prox_uh, argsprox, r0_avg_old=rmin, r0_nsamples_old=nsamples_min,
-                           do_logging=do_logging, print_progress=print_progress)
+                           do_logging=do_logging, print_progress=print_progress, r0_eval_num_old=xmin_eval_num)
         else:
             xmin2, rmin2, objmin2, jacmin2, nsamples2, nf, nx, nruns, exit_info, diagnostic_info, xmin_eval_num2, jacmin_eval_nums2 = \
                 solve_main(objfun, xmin, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxfun, nruns, nf, nx, nsamples, params,
-- 
2.43.0


From 28de7f8259b687004a5975d5259eb44add572145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:07 +0000
Subject: [PATCH 16/46] fix: early exit at x0 returned evaluation point 0, an
 objective without h and a wrong number of runs

---
 dfols/solver.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index 22e8e0c..a38a16e 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -179,7 +179,6 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
         for i in range(1, number_of_samples):  # skip first eval - already did this
             if nf >= maxfun:
                 exit_info = ExitInformation(EXIT_MAXFUN_WARNING, "Objective has been called MAXFUN times")
-                nruns_so_far += 1
                 break  # stop evaluating at x0
 
             nf += 1
@@ -192,17 +191,16 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
 
         r0_avg = np.mean(rvec_list[:num_samples_run, :], axis=0)
         # NOTE: modify objvalue here
-        if h is None:
-            if sumsq(r0_avg) <= params("model.abs_tol"):
-                exit_info = ExitInformation(EXIT_SUCCESS, "Objective is sufficiently small")
-        else:
-            if sumsq(r0_avg) + h(remove_scaling(x0, scaling_changes), *argsh)<= params("model.abs_tol"):
-                exit_info = ExitInformation(EXIT_SUCCESS, "Objective is sufficiently small")
+        obj0_avg = sumsq(r0_avg)
+        if h is not None:
+            obj0_avg += h(remove_scaling(x0, scaling_changes), *argsh)
+        if obj0_avg <= params("model.abs_tol"):
+            exit_info = ExitInformation(EXIT_SUCCESS, "Objective is sufficiently small")
 
         if exit_info is not None:
-            xmin_eval_num = 0
+            xmin_eval_num = nx
             jacmin_eval_nums = np.array([0], dtype=int)
-            return x0, r0_avg, sumsq(r0_avg), None, num_samples_run, nf, nx, nruns_so_far+1, exit_info, diagnostic_info, xmin_eval_num, jacmin_eval_nums
+            return x0, r0_avg, obj0_avg, None, num_samples_run, nf, nx, nruns_so_far+1, exit_info, diagnostic_info, xmin_eval_num, jacmin_eval_nums
 
     else:  # have old r0 information (e.g. from previous restart), use this instead
 
-- 
2.43.0


From 8ebe19b29a0b688a89adf3275eaeee40dfc0a111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:29 +0000
Subject: [PATCH 17/46] fix: parallel initialisation used the last evaluation
 number for every point and lost points after an exit condition

---
 dfols/controller.py | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index cbc209a..d0416be 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -268,23 +268,30 @@ class Controller(object):
                 
                 # Evaluate objective at this new point
                 x = self.model.as_absolute_coordinates(xpts_added[k, :])
-                eval_obj_results.append(self.evaluate_objective(x, number_of_samples, params))
+                eval_obj_results.append(self.evaluate_objective(x, number_of_samples, params) + (self.nx,))
             
             # Evaluations done, now add to the model
+            first_exit_info = None
             for k in range(1, num_directions + 1):
                 x = self.model.as_absolute_coordinates(xpts_added[k, :])
-                rvec_list, obj_list, num_samples_run, exit_info = eval_obj_results[k-1]
+                rvec_list, obj_list, num_samples_run, exit_info, eval_num = eval_obj_results[k-1]
                 # Handle exit conditions (f < min obj value or maxfun reached)
-                if exit_info is not None:
+                # All points have already been evaluated, so don't lose any which come after the first exit condition
+                if first_exit_info is None:
+                    first_exit_info = exit_info
+                if first_exit_info is not None:
                     if num_samples_run > 0:
-                        self.model.save_point(x, np.mean(rvec_list[:num_samples_run, :], axis=0), num_samples_run, self.nx,
+                        self.model.save_point(x, np.mean(rvec_list[:num_samples_run, :], axis=0), num_samples_run, eval_num,
                                               x_in_abs_coords=True)
-                    return exit_info  # return & quit
+                    continue
 
                 # Otherwise, add new results (increments model.npt_so_far)
-                self.model.change_point(k, x - self.model.xbase, rvec_list[0, :], self.nx)  # expect step, not absolute x
+                self.model.change_point(k, x - self.model.xbase, rvec_list[0, :], eval_num)  # expect step, not absolute x
                 for i in range(1, num_samples_run):
                     self.model.add_new_sample(k, rvec_extra=rvec_list[i, :])
+
+            if first_exit_info is not None:
+                return first_exit_info  # return & quit
         else:
             xpts_added = np.zeros((num_directions + 1, self.n()))
             for k in range(1, num_directions + 1):
@@ -374,24 +381,31 @@ class Controller(object):
 
                 # Evaluate objective
                 x = self.model.as_absolute_coordinates(new_point)
-                eval_obj_results.append(self.evaluate_objective(x, number_of_samples, params))
+                eval_obj_results.append(self.evaluate_objective(x, number_of_samples, params) + (self.nx,))
 
+            first_exit_info = None
             for ndirns in range(num_directions):
                 new_point = xopt + dirns[ndirns, :]  # alway base move around best value so far
                 x = self.model.as_absolute_coordinates(new_point)
-                rvec_list, obj_list, num_samples_run, exit_info = eval_obj_results[ndirns]
+                rvec_list, obj_list, num_samples_run, exit_info, eval_num = eval_obj_results[ndirns]
                 # Handle exit conditions (f < min obj value or maxfun reached)
-                if exit_info is not None:
+                # All points have already been evaluated, so don't lose any which come after the first exit condition
+                if first_exit_info is None:
+                    first_exit_info = exit_info
+                if first_exit_info is not None:
                     if num_samples_run > 0:
-                        self.model.save_point(x, np.mean(rvec_list[:num_samples_run, :], axis=0), num_samples_run, self.nx,
+                        self.model.save_point(x, np.mean(rvec_list[:num_samples_run, :], axis=0), num_samples_run, eval_num,
                                               x_in_abs_coords=True)
-                    return exit_info  # return & quit
+                    continue
 
                 # Otherwise, add new results (increments model.npt_so_far)
                 self.model.change_point(1 + ndirns, x - self.model.xbase,
-                                        rvec_list[0, :], self.nx)  # expect step, not absolute x
+                                        rvec_list[0, :], eval_num)  # expect step, not absolute x
                 for i in range(1, num_samples_run):
                     self.model.add_new_sample(1 + ndirns, rvec_extra=rvec_list[i, :])
+
+            if first_exit_info is not None:
+                return first_exit_info  # return & quit
         else:
             for ndirns in range(num_directions):
                 new_point = xopt + dirns[ndirns, :]  # alway base move around best value so far
-- 
2.43.0


From 2990097ce95e9c51c7239757e059f2acc2bb9bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:36 +0000
Subject: [PATCH 18/46] fix: evaluated points were lost when an error exit
 happened before they were added to the model

---
 dfols/controller.py | 2 ++
 dfols/solver.py     | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/dfols/controller.py b/dfols/controller.py
index d0416be..bede576 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -465,6 +465,8 @@ class Controller(object):
 
                 if linalg_error:
                     exit_info = ExitInformation(EXIT_LINALG_ERROR, "Singular matrix when finding kmin (in main loop)")
+                    self.model.save_point(x, np.mean(rvec_list[:num_samples_run, :], axis=0), num_samples_run, self.nx,
+                                          x_in_abs_coords=True)
                     return exit_info  # return & quit
 
             # Otherwise, add new results
diff --git a/dfols/solver.py b/dfols/solver.py
index a38a16e..435ef8b 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -615,6 +615,9 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
             # Estimate f in order to compute 'actual reduction'
             ratio, exit_info = control.calculate_ratio(control.model.xopt(abs_coordinates=True), current_iter, rvec_list[:num_samples_run, :], d, gopt, H)
             if exit_info is not None:
+                # The new point has not been added to the model, so make sure it isn't lost
+                control.model.save_point(x, np.mean(rvec_list[:num_samples_run, :], axis=0), num_samples_run, control.nx,
+                                         x_in_abs_coords=True)
                 if exit_info.able_to_do_restart() and params("restarts.use_restarts") and params(
                         "restarts.use_soft_restarts"):
                     number_of_samples = max(nsamples(control.delta, control.rho, current_iter, nruns_so_far), 1)
@@ -669,6 +672,9 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
                 # Re-select knew, allowing knew=kopt this time
                 knew, exit_info = control.choose_point_to_replace(d, skip_kopt=False)
                 if exit_info is not None:
+                    # The new point has not been added to the model, so make sure it isn't lost
+                    control.model.save_point(x, np.mean(rvec_list[:num_samples_run, :], axis=0), num_samples_run, control.nx,
+                                             x_in_abs_coords=True)
                     if exit_info.able_to_do_restart() and params("restarts.use_restarts") and params(
                             "restarts.use_soft_restarts"):
                         number_of_samples = max(nsamples(control.delta, control.rho, current_iter, nruns_so_far), 1)
-- 
2.43.0


From 3ee12258c890ac33ca159fa89a8d0c26470ffdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:33 +0000
Subject: [PATCH 19/46] fix: actual reduction used h at a point which was not
 evaluated, so the incumbent could be replaced by a worse point

---
 dfols/controller.py | 6 +++---
 dfols/solver.py     | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index bede576..4c7df6a 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -753,15 +753,15 @@ class Controller(object):
         self.last_successful_iter = current_iter  # reset successful iteration check
         return
 
-    def calculate_ratio(self, x, current_iter, rvec_list, d, gopt, H):
+    def calculate_ratio(self, x, xnew, current_iter, rvec_list, d, gopt, H):
         exit_info = None
         # estimate actual objective value
         obj = sumsq(np.mean(rvec_list, axis=0))
         # pred_reduction = - calculate_model_value(gopt, H, d)
         pred_reduction = - model_value(gopt, H, d)
         if self.h is not None:
-            # QUESTION: x+d here correct? rvec_list takes mean value
-            obj += self.h(remove_scaling(x+d, self.scaling_changes), *self.argsh) 
+            # Note: rvec_list was evaluated at xnew, which is not x+d if bounds/projections are active
+            obj += self.h(remove_scaling(xnew, self.scaling_changes), *self.argsh)
             # since m(0) = h(x)
             pred_reduction = self.h(remove_scaling(x, self.scaling_changes), *self.argsh) - model_value(gopt, H, d, x, self.h, self.argsh, self.scaling_changes)
         actual_reduction = self.model.objopt() - obj
diff --git a/dfols/solver.py b/dfols/solver.py
index 435ef8b..b89be71 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -613,7 +613,7 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
                 break  # quit
 
             # Estimate f in order to compute 'actual reduction'
-            ratio, exit_info = control.calculate_ratio(control.model.xopt(abs_coordinates=True), current_iter, rvec_list[:num_samples_run, :], d, gopt, H)
+            ratio, exit_info = control.calculate_ratio(control.model.xopt(abs_coordinates=True), x, current_iter, rvec_list[:num_samples_run, :], d, gopt, H)
             if exit_info is not None:
                 # The new point has not been added to the model, so make sure it isn't lost
                 control.model.save_point(x, np.mean(rvec_list[:num_samples_run, :], axis=0), num_samples_run, control.nx,
-- 
2.43.0


From ff9737ff92e6882ed8ebcc6d8b0a43ba6c931b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:39 +0000
Subject: [PATCH 20/46] fix: geometry steps could overwrite the incumbent if it
 was stored outside the bounds

---
 dfols/controller.py | 10 ++++++----
 dfols/model.py      |  2 +-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 4c7df6a..a07689b 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -893,9 +893,10 @@ class Controller(object):
     def move_furthest_points(self, number_of_samples, num_pts_to_move, params):
         # get points furthest from (new) xopt and move to a good geometry point
         all_sq_dist = self.model.distances_to_xopt()[:self.model.npt()]
-        furthest_points = np.argsort(all_sq_dist)[::-1]  # indices from furthest to closest (last is kopt)
+        furthest_points = np.argsort(all_sq_dist)[::-1]  # indices from furthest to closest
+        furthest_points = furthest_points[furthest_points != self.model.kopt]  # never move kopt, even if other points coincide with it
 
-        for i in range(min(num_pts_to_move, len(furthest_points) - 1)):
+        for i in range(min(num_pts_to_move, len(furthest_points))):
             # Determine which point to update (knew)
             knew = furthest_points[i]
 
@@ -927,12 +928,13 @@ class Controller(object):
 
     def move_furthest_points_momentum(self, d, number_of_samples, num_pts_to_move, params):
         all_sq_dist = self.model.distances_to_xopt()[:self.model.npt()]
-        furthest_points = np.argsort(all_sq_dist)[::-1]  # indices from furthest to closest (last is kopt)
+        furthest_points = np.argsort(all_sq_dist)[::-1]  # indices from furthest to closest
+        furthest_points = furthest_points[furthest_points != self.model.kopt]  # never move kopt, even if other points coincide with it
 
         xopt = self.model.xopt()
         dirns = random_directions_within_bounds(num_pts_to_move, self.delta, self.model.sl - xopt, self.model.su - xopt)
 
-        for i in range(min(num_pts_to_move, len(furthest_points) - 1)):
+        for i in range(min(num_pts_to_move, len(furthest_points))):
             # Determine which point to update (knew)
             knew = furthest_points[i]
             if np.dot(dirns[i, :], d) < 0.0:
diff --git a/dfols/model.py b/dfols/model.py
index ba0a52a..ea282a9 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -179,7 +179,7 @@ class Model(object):
         sq_distances = np.zeros((self.npt(),))
         xopt = self.xopt()
         for k in range(self.npt()):
-            sq_distances[k] = sumsq(self.points[k, :] - xopt)
+            sq_distances[k] = sumsq(self.xpt(k) - xopt)
         return sq_distances
 
     def change_point(self, k, x, rvec, eval_num, allow_kopt_update=True):
-- 
2.43.0


From 7b523a3959b1c64e0e5aa1bad1e94441203498e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:01 +0000
Subject: [PATCH 21/46] fix: IndexError in a soft restart while the initial set
 is still growing

---
 dfols/controller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index a07689b..6222734 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -847,7 +847,7 @@ class Controller(object):
             closest_points = closest_points[1:params("restarts.soft.num_geom_steps")+1]
             upper_limit = self.model.num_pts - 1
 
-        for i in range(min(params("restarts.soft.num_geom_steps"), upper_limit)):
+        for i in range(min(params("restarts.soft.num_geom_steps"), upper_limit, len(closest_points))):  # may still be growing
             # Determine which point to update (knew)
             knew = closest_points[i]
 
-- 
2.43.0


From 7fabbcde6b83306e7f9ee1bdc92a30ecdf6fdc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:07 +0000
Subject: [PATCH 22/46] fix: add_new_point while growing stored the new point
 after unused entries

---
 dfols/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dfols/model.py b/dfols/model.py
index ea282a9..2996205 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -236,6 +236,9 @@ class Model(object):
         return
 
     def add_new_point(self, x, rvec, eval_num):
+        if self.npt_so_far < self.num_pts:  # still growing, so there is already space for the next point
+            return self.change_point(self.npt_so_far, x, rvec, eval_num)
+
         self.points = np.append(self.points, x.reshape((1, self.n())), axis=0)  # append row to xpt
         self.fval_v = np.append(self.fval_v, rvec.reshape((1, self.m())), axis=0)  # append row to fval_v
         obj = sumsq(rvec)
-- 
2.43.0


From 7708c4b7be408211bb75b79b0248899627c68a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:13 +0000
Subject: [PATCH 23/46] fix: solve raised RuntimeError if no suitable initial
 directions exist within the constraints

---
 dfols/controller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 6222734..ff46c4d 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -229,7 +229,7 @@ class Controller(object):
                 i += 1
 
             if D_rank != num_directions:
-                raise RuntimeError("Unable to generate suitable initial directions")
+                return ExitInformation(EXIT_LINALG_ERROR, "Unable to generate suitable initial directions")  # return & quit
 
             # we have a L.I set of interpolation points
             for k in range(0,self.n()):
-- 
2.43.0


From 23684e5ec3f8494db17abc26903f91beea031580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:28 +0000
Subject: [PATCH 24/46] fix: AssertionError when a hard restart increased npt
 above (n+1)(n+2)/2

---
 dfols/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index b89be71..7140ec4 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -231,7 +231,7 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
     number_of_samples = max(nsamples(control.delta, control.rho, 0, nruns_so_far), 1)
     num_directions = min(params("growing.ndirs_initial") + params("restarts.hard.increase_ndirs_initial_amt") * nruns_so_far,
                          npt - 1)  # cap at npt
-    if params("init.random_initial_directions"):
+    if params("init.random_initial_directions") or npt > (len(x0) + 1) * (len(x0) + 2) // 2:  # too many points for coordinate directions
         if do_logging:
             module_logger.info("Initialising (random directions)")
         exit_info = control.initialise_random_directions(number_of_samples, num_directions, params)
-- 
2.43.0


From dd4e2e6b10fc173165c88e26e534152cf016c554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:32 +0000
Subject: [PATCH 25/46] fix: S-FISTA raised OverflowError/ZeroDivisionError for
 very large problems or zero tolerances

---
 dfols/params.py       | 2 +-
 dfols/trust_region.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dfols/params.py b/dfols/params.py
index 7fe9ac2..d6732cf 100644
--- a/dfols/params.py
+++ b/dfols/params.py
@@ -281,7 +281,7 @@ class ParameterList(object):
         elif key == "func_tol.tr_step":
             type_str, nonetype_ok, lower, upper = 'float', False, 0.0, 1.0
         elif key == "func_tol.max_iters":
-            type_str, nonetype_ok, lower, upper = 'int', False, 0, None
+            type_str, nonetype_ok, lower, upper = 'int', False, 1, None
         elif key == "sfista.max_iters_scaling":
             type_str, nonetype_ok, lower, upper = 'float', False, 1.0, None
         else:
diff --git a/dfols/trust_region.py b/dfols/trust_region.py
index e7327ee..000aeb2 100644
--- a/dfols/trust_region.py
+++ b/dfols/trust_region.py
@@ -109,7 +109,7 @@ def ctrsbox_sfista(xopt, g, H, projections, delta, h, L_h, prox_uh, argsh=(), ar
     try:
         MAX_LOOP_ITERS = ceil(sfista_iters_scale * delta * (L_h+sqrt(L_h*L_h+2*k_H*func_tol)) / func_tol)
         MAX_LOOP_ITERS = min(MAX_LOOP_ITERS, max_iters)
-    except ValueError:
+    except (ValueError, OverflowError, ZeroDivisionError):
         MAX_LOOP_ITERS = max_iters
     u =  2 * delta / (MAX_LOOP_ITERS * L_h) # smoothing parameter
     # u = 2 * func_tol / (L_h ** 2 + L_h * sqrt(L_h ** 2 + 2 * k_H * func_tol))  # the above choice works better in practice
-- 
2.43.0


From 0ad8a3faff16ac05db57a47b5627c2638be90b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:36 +0000
Subject: [PATCH 26/46] fix: ZeroDivisionError when growing a set which already
 spans the whole space

---
 dfols/controller.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index ff46c4d..4037e77 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -440,7 +440,7 @@ class Controller(object):
         # Make direction orthogonal
         Y = self.model.xpt_directions(include_kopt=False).T  # columns are the current set of directions
         Q, R = LA.qr(Y, mode='economic')  # columns of Q are orthonormal basis for current set of directions
-        for k in range(Q.shape[1]):
+        for k in range(Q.shape[1] if Q.shape[1] < self.n() else 0):  # no orthogonal directions left if have n already
             qk = Q[:, k]
             for j in range(dirns.shape[0]):
                 dirns[j, :] = dirns[j, :] - np.dot(dirns[j, :], qk) * qk
@@ -483,7 +483,7 @@ class Controller(object):
         # Make direction orthogonal
         Y = self.model.xpt_directions(include_kopt=False).T  # columns are the current set of directions
         Q, R = LA.qr(Y, mode='economic')  # columns of Q are orthonormal basis for current set of directions
-        for k in range(Q.shape[1]):
+        for k in range(Q.shape[1] if Q.shape[1] < self.n() else 0):  # no orthogonal directions left if have n already
             qk = Q[:, k]
             dirn = dirn - np.dot(dirn, qk) * qk
 
-- 
2.43.0


From f446032d061de8cdcd885b8f03e3be8c4e0b98e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:40 +0000
Subject: [PATCH 27/46] fix: ZeroDivisionError with slow.history_for_slow = 0

---
 dfols/controller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 4037e77..68731e4 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -787,7 +787,7 @@ class Controller(object):
             self.last_iters_step_taken = self.last_iters_step_taken[1:] + [current_iter]
             self.last_fopts_step_taken = self.last_fopts_step_taken[1:] + [self.model.objopt()]
             this_iter_slow = (log(self.last_fopts_step_taken[0]) - log(self.model.objopt())) / \
-                             float(params("slow.history_for_slow")) < params("slow.thresh_for_slow")
+                             max(float(params("slow.history_for_slow")), 1.0) < params("slow.thresh_for_slow")
         # Update counter of number of slow iterations
         if this_iter_slow:
             self.num_slow_iters += 1
-- 
2.43.0


From 7cf4454a1de561522bdb81ee72777ab5145b954c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:44 +0000
Subject: [PATCH 28/46] fix: trust region radii could exceed 1e10, become
 non-positive or go below rhoend

---
 dfols/controller.py | 2 +-
 dfols/solver.py     | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 68731e4..dc0a88e 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -746,7 +746,7 @@ class Controller(object):
         elif ratio <= 250.0:
             new_rho = sqrt(ratio) * self.rhoend  # geometric average of rho and rhoend
         else:
-            new_rho = alpha1 * self.rho
+            new_rho = max(alpha1 * self.rho, self.rhoend)
 
         self.delta = max(alpha2 * self.rho, new_rho)  # self.rho = old rho
         self.rho = new_rho
diff --git a/dfols/solver.py b/dfols/solver.py
index 7140ec4..3fce94f 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -344,6 +344,8 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
             d, gopt, H, gnew, crvmin = control.trust_region_step(params, criticality_measure)
             try:
                 tau = min(criticality_measure/(LA.norm(gopt)+lh), 1.0)
+                if not tau > 0.0:  # inexact criticality measure may be zero or negative
+                    tau = 1.0
             except ValueError:
                 # In some instances, gopt can have nan/inf values -- this ultimately calls a safety step and is generally fine
                 # but we need to set a value for tau nonetheless
@@ -646,9 +648,9 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
                 diagnostic_info.update_slow_iter(-1)  # n/a, unless otherwise update
             if ratio < params("tr_radius.eta1"):  # ratio < 0.1
                 if finished_growing:
-                    control.delta = min(params("tr_radius.gamma_dec") * control.delta, dnorm) / tau
+                    control.delta = min(min(params("tr_radius.gamma_dec") * control.delta, dnorm) / tau, 1.0e10)
                 else:
-                    control.delta = min(params("growing.gamma_dec") * control.delta, dnorm) / tau  # different gamma_dec
+                    control.delta = min(min(params("growing.gamma_dec") * control.delta, dnorm) / tau, 1.0e10)  # different gamma_dec
                 if params("logging.save_diagnostic_info"):
                     diagnostic_info.update_iter_type(ITER_ACCEPTABLE_NO_GEOM if ratio > 0.0
                                                      else ITER_UNSUCCESSFUL_NO_GEOM)  # we flag geom update below
-- 
2.43.0


From f0b32887b6d39a380bb99212fba281958e643181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:47 +0000
Subject: [PATCH 29/46] fix: exit flag/message did not describe the outcome
 (success with non-finite objective, unsuccessful restarts without restarts,
 undocumented flag)

---
 dfols/model.py  | 2 ++
 dfols/solver.py | 9 ++++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/dfols/model.py b/dfols/model.py
index 2996205..29e94e4 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -295,6 +295,8 @@ class Model(object):
 
     def min_objective_value(self):
         # Get termination criterion for f small: f <= abs_tol or f <= rel_tol * f0
+        if not np.isfinite(self.objbeg):
+            return self.abs_tol  # cannot measure reduction relative to f0
         return max(self.abs_tol, self.rel_tol * self.objbeg)
 
     def model_value(self, d, d_based_at_xopt=True, with_const_term=False):
diff --git a/dfols/solver.py b/dfols/solver.py
index 3fce94f..19e2089 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -1162,8 +1162,15 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
             if do_logging:
                 module_logger.info("Unsuccessful run with new f = %s compared to old f = %s" % (objmin2, objmin))
 
-    if nruns - last_successful_run >= params("restarts.max_unsuccessful_restarts"):
+    if params("restarts.use_restarts") and not params("restarts.use_soft_restarts") and exit_info.able_to_do_restart() and \
+            nruns - last_successful_run >= params("restarts.max_unsuccessful_restarts"):
         exit_info = ExitInformation(EXIT_SUCCESS, "Reached maximum number of unsuccessful restarts")
+    elif exit_info.flag == EXIT_AUTO_DETECT_RESTART_WARNING:  # wanted to restart, but no budget left
+        exit_info = ExitInformation(EXIT_MAXFUN_WARNING, "Objective has been called MAXFUN times")
+
+    # Never claim success if we don't have a finite objective value
+    if exit_info.flag == EXIT_SUCCESS and not np.isfinite(objmin):
+        exit_info = ExitInformation(EXIT_EVAL_ERROR, "No finite objective value found (%s)" % exit_info.message(with_stem=False))
 
     # Process final return values & package up
     exit_flag = exit_info.flag
-- 
2.43.0


From dfbed468024b9f88a6cb578988784b015d4328b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:32 +0000
Subject: [PATCH 30/46] fix: parameter values which made solve raise or skip
 the projections were accepted (rhoend_scale, dykstra.max_iters)

---
 dfols/params.py | 4 ++--
 dfols/solver.py | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/dfols/params.py b/dfols/params.py
index d6732cf..62121a7 100644
--- a/dfols/params.py
+++ b/dfols/params.py
@@ -211,7 +211,7 @@ class ParameterList(object):
         elif key == "restarts.max_unsuccessful_restarts":
             type_str, nonetype_ok, lower, upper = 'int', False, 0, None
         elif key == "restarts.rhoend_scale":
-            type_str, nonetype_ok, lower, upper = 'float', False, 0.0, None
+            type_str, nonetype_ok, lower, upper = 'float', False, 0.0, 1.0
         elif key == "restarts.use_soft_restarts":
             type_str, nonetype_ok, lower, upper = 'bool', False, None, None
         elif key == "restarts.soft.num_geom_steps":
@@ -273,7 +273,7 @@ class ParameterList(object):
         elif key == "dykstra.d_tol":
             type_str, nonetype_ok, lower, upper = 'float', False, 0.0, None
         elif key == "dykstra.max_iters":
-            type_str, nonetype_ok, lower, upper = 'int', False, 0, None
+            type_str, nonetype_ok, lower, upper = 'int', False, 1, None
         elif key == "matrix_rank.r_tol":
             type_str, nonetype_ok, lower, upper = 'float', False, 0.0, None
         elif key == "func_tol.criticality_measure":
diff --git a/dfols/solver.py b/dfols/solver.py
index 19e2089..afca868 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -1064,6 +1064,9 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
     if exit_info is None and not all_ok:
         exit_info = ExitInformation(EXIT_INPUT_ERROR, "Bad parameters: %s" % str(bad_keys))
 
+    if exit_info is None and params("restarts.rhoend_scale") <= 0.0:
+        exit_info = ExitInformation(EXIT_INPUT_ERROR, "restarts.rhoend_scale must be strictly positive")
+
     if exit_info is None and params("growing.safety.full_geom_step"):
         if params("growing.safety.reduce_delta"):
             exit_info = ExitInformation(EXIT_INPUT_ERROR,
-- 
2.43.0


From 7a2e8536dccf20d7fffdda425ee3f9c48714b6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:38 +0000
Subject: [PATCH 31/46] fix: invalid bounds were not reported when using
 scaling or projections

---
 dfols/solver.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index afca868..2667466 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -985,6 +985,21 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
     if nsamples is None:
         nsamples = lambda delta, rho, iter, nruns: 1  # no averaging
 
+    # Check bounds now, since errors here would be hidden by converting to a projection or scaling below
+    exit_info = None
+    if np.shape(xl) != (n,):
+        exit_info = ExitInformation(EXIT_INPUT_ERROR, "lower bounds must have same shape as x0")
+        xl = -1e20 * np.ones((n,))
+    if np.shape(xu) != (n,):
+        exit_info = ExitInformation(EXIT_INPUT_ERROR, "upper bounds must have same shape as x0")
+        xu = 1e20 * np.ones((n,))
+    if exit_info is None and np.any(xu < xl):
+        exit_info = ExitInformation(EXIT_INPUT_ERROR, "lower bounds must not exceed upper bounds")
+    if exit_info is None and scaling_within_bounds and np.any(xu <= xl):
+        exit_info = ExitInformation(EXIT_INPUT_ERROR, "gap between lower and upper must be strictly positive to use scaling")
+    if exit_info is not None:
+        scaling_within_bounds = False
+
     # If using arbitrary constraints, create projection from bounds
     if projections:
         xlb = xl.copy()
@@ -1018,7 +1033,6 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
     xl = apply_scaling(xl, scaling_changes)
     xu = apply_scaling(xu, scaling_changes)
 
-    exit_info = None
     # Input & parameter checks
     if exit_info is None and h is not None:
         if prox_uh is None:
-- 
2.43.0


From b50d75be40b1fad7d6e37ae14d74c010d0104abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:17 +0000
Subject: [PATCH 32/46] fix: the user's Dykstra settings were ignored when
 projecting evaluation points and geometry steps

---
 dfols/controller.py   | 3 ++-
 dfols/model.py        | 8 +++++---
 dfols/trust_region.py | 4 ++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index dc0a88e..b3f7614 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -112,7 +112,8 @@ class Controller(object):
         self.argsprox = argsprox
         self.maxfun = maxfun
         self.model = Model(npt, x0, r0, xl, xu, projections, r0_nsamples, h=self.h, argsh = argsh, precondition=params("interpolation.precondition"),
-                           abs_tol = params("model.abs_tol"), rel_tol = params("model.rel_tol"), do_logging=do_logging, scaling_changes=scaling_changes, r0_eval_num=r0_eval_num)
+                           abs_tol = params("model.abs_tol"), rel_tol = params("model.rel_tol"), do_logging=do_logging, scaling_changes=scaling_changes, r0_eval_num=r0_eval_num,
+                           d_max_iters=params("dykstra.max_iters"), d_tol=params("dykstra.d_tol"))
         self.nf = nf
         self.nx = nx
         self.rhobeg = rhobeg
diff --git a/dfols/model.py b/dfols/model.py
index 29e94e4..60fe493 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -45,7 +45,7 @@ module_logger = logging.getLogger(__name__)
 
 class Model(object):
     def __init__(self, npt, x0, r0, xl, xu, projections, r0_nsamples, h=None, argsh=(), n=None, m=None, abs_tol=1e-12, rel_tol=1e-20, precondition=True,
-                 do_logging=True, scaling_changes=None, r0_eval_num=1):
+                 do_logging=True, scaling_changes=None, r0_eval_num=1, d_max_iters=100, d_tol=1e-10):
         if n is None:
             n = len(x0)
         if m is None:
@@ -73,6 +73,8 @@ class Model(object):
         self.xl = xl.copy()  # absolute bounds (rounding errors mean xbase + sl may be different to xl)
         self.xu = xu.copy()
         self.projections = projections
+        self.d_max_iters = d_max_iters  # termination settings for Dykstra's algorithm
+        self.d_tol = d_tol
         self.points = np.zeros((npt, n))  # interpolation points w.r.t. xbase
 
         # Function values
@@ -142,7 +144,7 @@ class Model(object):
         else:
             # Apply bounds and convert back to absolute coordinates
             if self.projections:
-                return dykstra(self.projections, self.xbase + self.points[k,:])
+                return dykstra(self.projections, self.xbase + self.points[k,:], max_iter=self.d_max_iters, tol=self.d_tol)
             return self.as_absolute_coordinates(self.points[k, :])
 
     def rvec(self, k):
@@ -156,7 +158,7 @@ class Model(object):
     def as_absolute_coordinates(self, x, full_dykstra=False):
         # If x were an interpolation point, get the absolute coordinates of x
         if self.projections:
-            return dykstra(self.projections, self.xbase + x)
+            return dykstra(self.projections, self.xbase + x, max_iter=self.d_max_iters, tol=self.d_tol)
         xabs = self.xbase + np.minimum(np.maximum(self.sl, x), self.su)
         return np.minimum(np.maximum(self.xl, xabs), self.xu)
 
diff --git a/dfols/trust_region.py b/dfols/trust_region.py
index 000aeb2..ec1cec7 100644
--- a/dfols/trust_region.py
+++ b/dfols/trust_region.py
@@ -690,8 +690,8 @@ def ctrsbox_geometry(xbase, c, g, projections, Delta, d_max_iters=100, d_tol=1e-
     #   max_s  abs(c + g' * s)
     #   s.t.   xbase + s is is feasible w.r.t constraint set C
     #          ||s|| <= Delta
-    smin = ctrsbox_linear(xbase, g, projections, Delta, d_max_iters=100, d_tol=1e-10, use_fortran=use_fortran)  # minimise g' * s
-    smax = ctrsbox_linear(xbase, -g, projections, Delta, d_max_iters=100, d_tol=1e-10, use_fortran=use_fortran)  # maximise g' * s
+    smin = ctrsbox_linear(xbase, g, projections, Delta, d_max_iters=d_max_iters, d_tol=d_tol, use_fortran=use_fortran)  # minimise g' * s
+    smax = ctrsbox_linear(xbase, -g, projections, Delta, d_max_iters=d_max_iters, d_tol=d_tol, use_fortran=use_fortran)  # maximise g' * s
     if abs(c + np.dot(g, smin)) >= abs(c + np.dot(g, smax)):  # choose the one with largest absolute value
         return smin
     else:
-- 
2.43.0


From d31106801b96ced2f46ba56f611cec0b4812f0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:41 +0000
Subject: [PATCH 33/46] fix: ctrsbox_pgd returned a NaN step if the Hessian is
 zero

---
 dfols/trust_region.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dfols/trust_region.py b/dfols/trust_region.py
index ec1cec7..ee92cd0 100644
--- a/dfols/trust_region.py
+++ b/dfols/trust_region.py
@@ -184,6 +184,8 @@ def ctrsbox_pgd(xopt, g, H, projections, delta, d_max_iters=100, d_tol=1e-10, us
 
     # Initial guess of L is norm(Hessian)
     L = np.linalg.norm(H, 2)
+    if L == 0.0:
+        L = 1.0  # avoid division by zero
 
     # trust region is a ball of radius delta around xopt
     trproj = lambda w: pball(w, xopt, delta)
-- 
2.43.0


From 44145a7e49228f23392c89fab313ee2eff023788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:46 +0000
Subject: [PATCH 34/46] fix: rounding errors in the base point could make
 convex-constrained steps longer than the trust region

---
 dfols/trust_region.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dfols/trust_region.py b/dfols/trust_region.py
index ee92cd0..318a729 100644
--- a/dfols/trust_region.py
+++ b/dfols/trust_region.py
@@ -134,7 +134,8 @@ def ctrsbox_sfista(xopt, g, H, projections, delta, h, L_h, prox_uh, argsh=(), ar
         p = dykstra(P, xopt+d0, max_iter=d_max_iters, tol=d_tol)
         # we want the step only, so we subtract xopt
         # from the new point: proj(xk+d) - xk
-        return p - xopt
+        # (project again, since xopt may be so large that rounding errors are not small compared to delta)
+        return pball(p - xopt, np.zeros(n), delta)
 
     # general step
     model_value_best = model_value(g, H, d, xopt, h, argsh, scaling_changes)
@@ -197,7 +198,8 @@ def ctrsbox_pgd(xopt, g, H, projections, delta, d_max_iters=100, d_tol=1e-10, us
         p = dykstra(P, xopt+d0, max_iter=d_max_iters, tol=d_tol)
         # we want the step only, so we subtract xopt
         # from the new point: proj(xk+d) - xk
-        return p - xopt
+        # (project again, since xopt may be so large that rounding errors are not small compared to delta)
+        return pball(p - xopt, np.zeros(n), delta)
 
     MAX_LOOP_ITERS = 100 * n ** 2
 
@@ -599,7 +601,8 @@ def ctrsbox_linear(xbase, g, projections, Delta, d_max_iters=100, d_tol=1e-10, u
         p = dykstra(P, xbase + d0, max_iter=d_max_iters, tol=d_tol)
         # we want the step only, so we subtract
         # xbase from the new point: proj(xk + d) - xk
-        return p - xbase
+        # (project again, since xbase may be so large that rounding errors are not small compared to Delta)
+        return pball(p - xbase, np.zeros(n), Delta)
 
     MAX_LOOP_ITERS = 100 * n ** 2
 
-- 
2.43.0


From 245eec24373aa5ad4fde6b91c936ab5924d66b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:52 +0000
Subject: [PATCH 35/46] fix: coordinate initialisation with projections
 depended on NumPy's global random state

---
 dfols/controller.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index b3f7614..0caee92 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -186,7 +186,8 @@ class Controller(object):
 
             # Try random combination of negatives...
             k = 0
-            slctr = np.random.randint(0, 1+1, self.n()) # generate rand binary "selector" array
+            rng = np.random.RandomState(0)  # not an option using random directions, so results must not depend on global random state
+            slctr = rng.randint(0, 1+1, self.n()) # generate rand binary "selector" array
             D_rank, diag = qr_rank(D,tol=params("matrix_rank.r_tol"))
             while D_rank != num_directions and k < 100*self.n():
                 if slctr[k%self.n()] == 1: # if selector says make -ve, make -ve
@@ -204,7 +205,7 @@ class Controller(object):
                     D_rank = D_rank2
 
                 # Go again
-                slctr = np.random.randint(0, 1+1, self.n())
+                slctr = rng.randint(0, 1+1, self.n())
                 k += 1
 
             # Set still not L.I? Try random directions
@@ -214,7 +215,7 @@ class Controller(object):
                 k = 0
                 while k < self.n():
                     if diag[k] < mr_tol:
-                        p = np.random.normal(size=self.n())
+                        p = rng.normal(size=self.n())
                         p = p/np.linalg.norm(p)
                         p = np.dot(p,min(1,self.delta))
                         yk = dykstra(self.model.projections, self.model.xbase + p, max_iter=params("dykstra.max_iters"), tol=params("dykstra.d_tol"))
-- 
2.43.0


From 075c2858a52acc295aa83d372a25496f21912b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:56 +0000
Subject: [PATCH 36/46] fix: OptimResults.from_dict did not convert a missing
 objective back to NaN

---
 dfols/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index 2667466..9915f1d 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -134,7 +134,7 @@ class OptimResults(object):
         # Note: np.array(mylist, dtype=float) automatically converts None to NaN
         x = np.array(soln_dict['x'], dtype=float) if soln_dict['x'] is not None else None
         resid = np.array(soln_dict['resid'], dtype=float) if soln_dict['resid'] is not None else None
-        obj = soln_dict['obj']
+        obj = soln_dict['obj'] if soln_dict['obj'] is not None else np.nan
         jacobian = np.array(soln_dict['jacobian'], dtype=float) if soln_dict['jacobian'] is not None else None
         nf = soln_dict['nf']
         nx = soln_dict['nx']
-- 
2.43.0


From a08312083082d3f7cd14869cca6eefb5831873e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:04 +0000
Subject: [PATCH 37/46] fix: diagnostic table was not restored by from_dict
 after a JSON round trip, and xk/rk columns were not serializable

---
 dfols/solver.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index 9915f1d..e9524d3 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -119,7 +119,11 @@ class OptimResults(object):
         soln_dict['nruns'] = int(self.nruns)
         soln_dict['flag'] = int(self.flag)
         soln_dict['msg'] = str(self.msg)
-        soln_dict['diagnostic_info'] = self.diagnostic_info.to_dict() if self.diagnostic_info is not None else None
+        soln_dict['diagnostic_info'] = None
+        if self.diagnostic_info is not None:
+            # Columns xk and rk (if saved) have NumPy arrays as entries
+            soln_dict['diagnostic_info'] = {col: {i: (v.tolist() if isinstance(v, np.ndarray) else v) for i, v in vals.items()}
+                                            for col, vals in self.diagnostic_info.to_dict().items()}
         soln_dict['xmin_eval_num'] = int(self.xmin_eval_num)
         soln_dict['jacmin_eval_nums'] = self.jacmin_eval_nums.tolist() if self.jacmin_eval_nums is not None else None
         if replace_nan:
@@ -147,7 +151,14 @@ class OptimResults(object):
         soln = OptimResults(x, resid, obj, jacobian, nf, nx, nruns, flag, msg, xmin_eval_num, jacmin_eval_nums)
         
         if soln_dict['diagnostic_info'] is not None:
-            soln.diagnostic_info = pd.DataFrame.from_dict(soln_dict['diagnostic_info'])
+            df = pd.DataFrame.from_dict(soln_dict['diagnostic_info'])
+            df.index = df.index.astype(int)  # json converts integer keys to strings
+            for col in df.columns:
+                if col in ['xk', 'rk']:
+                    df[col] = [np.array(v, dtype=float) for v in df[col]]
+                elif col != 'iter_type' and df[col].dtype == object:
+                    df[col] = df[col].astype(float)  # None to NaN
+            soln.diagnostic_info = df
         return soln
 
 
-- 
2.43.0


From 63ae51678a3bbe736122011f69a37387e9774057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:10 +0000
Subject: [PATCH 38/46] fix: to_dict did not give valid JSON if there were
 infinite values

---
 dfols/solver.py | 6 +++---
 dfols/util.py   | 2 ++
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index e9524d3..02f045b 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -138,7 +138,7 @@ class OptimResults(object):
         # Note: np.array(mylist, dtype=float) automatically converts None to NaN
         x = np.array(soln_dict['x'], dtype=float) if soln_dict['x'] is not None else None
         resid = np.array(soln_dict['resid'], dtype=float) if soln_dict['resid'] is not None else None
-        obj = soln_dict['obj'] if soln_dict['obj'] is not None else np.nan
+        obj = float(soln_dict['obj']) if soln_dict['obj'] is not None else np.nan
         jacobian = np.array(soln_dict['jacobian'], dtype=float) if soln_dict['jacobian'] is not None else None
         nf = soln_dict['nf']
         nx = soln_dict['nx']
@@ -156,8 +156,8 @@ class OptimResults(object):
             for col in df.columns:
                 if col in ['xk', 'rk']:
                     df[col] = [np.array(v, dtype=float) for v in df[col]]
-                elif col != 'iter_type' and df[col].dtype == object:
-                    df[col] = df[col].astype(float)  # None to NaN
+                elif col != 'iter_type' and not pd.api.types.is_numeric_dtype(df[col]):
+                    df[col] = df[col].astype(float)  # None to NaN, and strings to infinity
             soln.diagnostic_info = df
         return soln
 
diff --git a/dfols/util.py b/dfols/util.py
index 54b1653..97d1439 100644
--- a/dfols/util.py
+++ b/dfols/util.py
@@ -283,5 +283,7 @@ def replace_nan_with_none(d):
         return [replace_nan_with_none(i) for i in d]
     elif isinstance(d, float) and math.isnan(d):
         return None
+    elif isinstance(d, float) and math.isinf(d):
+        return "Infinity" if d > 0 else "-Infinity"  # not valid as a number in JSON, but float("Infinity") is ok
     else:
         return d
\ No newline at end of file
-- 
2.43.0


From a3d8faa11f5a7654bc33488439413ce512cdeacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:46 +0000
Subject: [PATCH 39/46] fix: ZeroDivisionError building the interpolation
 matrix if all points coincide

---
 dfols/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dfols/model.py b/dfols/model.py
index 60fe493..3f5dc72 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -312,6 +312,8 @@ class Model(object):
         W = np.zeros((self.npt(), self.n()+1))
         if self.precondition:
             approx_delta = sqrt(np.max(self.distances_to_xopt()))  # largest distance to xopt ~ delta
+            if approx_delta == 0.0:
+                approx_delta = 1.0  # all points coincide, so no scaling is possible (system is singular)
         else:
             approx_delta = 1.0
 
-- 
2.43.0


From e09be95a548a777b2bc719895d5e4f41c774674c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:20 +0000
Subject: [PATCH 40/46] fix: infinite loop if tr_radius.alpha1 is 1, as rho
 never decreases

---
 dfols/solver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dfols/solver.py b/dfols/solver.py
index 02f045b..1290516 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -1092,6 +1092,9 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
     if exit_info is None and params("restarts.rhoend_scale") <= 0.0:
         exit_info = ExitInformation(EXIT_INPUT_ERROR, "restarts.rhoend_scale must be strictly positive")
 
+    if exit_info is None and params("tr_radius.alpha1") >= 1.0:
+        exit_info = ExitInformation(EXIT_INPUT_ERROR, "tr_radius.alpha1 must be strictly less than 1")  # or rho may never decrease
+
     if exit_info is None and params("growing.safety.full_geom_step"):
         if params("growing.safety.reduce_delta"):
             exit_info = ExitInformation(EXIT_INPUT_ERROR,
-- 
2.43.0


From 14afa0b4383986ed50ca592b367a2a8ae47a9736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:55 +0000
Subject: [PATCH 41/46] fix: random orthogonal directions could be longer than
 delta if bounds are active

---
 dfols/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfols/util.py b/dfols/util.py
index 97d1439..6de7db5 100644
--- a/dfols/util.py
+++ b/dfols/util.py
@@ -150,7 +150,7 @@ def random_orthog_directions_within_bounds(num_pts, delta, lower, upper, with_ne
             idx = idx_active[i]
             sign = 1.0 if idx_l[idx] else -1.0  # desired sign of direction shift
             if upper[idx] - lower[idx] > delta:
-                results[idx, n+ninactive+i] = 2.0 * sign * delta
+                results[idx, n+ninactive+i] = 0.5 * sign * delta  # different to step 2, but still no longer than delta
             else:
                 results[idx, n + ninactive + i] = 0.5 * sign * (upper[idx] - lower[idx])
                 # To get correct scaling, don't use delta any more (too big), use the scaling as given by upper-lower
-- 
2.43.0


From 12e9ad78d0aaf6fe395c7f05e06230294bd43961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:30 +0000
Subject: [PATCH 42/46] fix: NaN could be the incumbent after add_new_sample if
 all other values are infinite

---
 dfols/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dfols/model.py b/dfols/model.py
index 3f5dc72..c449606 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -231,7 +231,8 @@ class Model(object):
 
         # make sure kopt is always the best value we have (argmin alone would select any NaN)
         objvals = self.objval[:self.npt()]
-        kopt_new = np.argmin(np.where(np.isnan(objvals), np.inf, objvals))
+        idx = np.where(np.logical_not(np.isnan(objvals)))[0]
+        kopt_new = idx[np.argmin(objvals[idx])] if len(idx) > 0 else self.kopt
         if kopt_new != self.kopt:
             self.kopt = kopt_new
             self.factorisation_current = False  # interpolation system is centred at xopt
-- 
2.43.0


From 6f18998c4dbe150b67a4e1ffd2728f2fcd515b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:58 +0000
Subject: [PATCH 43/46] fix: AssertionError if growing.delta_scale_new_dirns is
 zero

---
 dfols/solver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dfols/solver.py b/dfols/solver.py
index 1290516..24cbe27 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -1092,6 +1092,9 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
     if exit_info is None and params("restarts.rhoend_scale") <= 0.0:
         exit_info = ExitInformation(EXIT_INPUT_ERROR, "restarts.rhoend_scale must be strictly positive")
 
+    if exit_info is None and params("growing.delta_scale_new_dirns") <= 0.0:
+        exit_info = ExitInformation(EXIT_INPUT_ERROR, "growing.delta_scale_new_dirns must be strictly positive")
+
     if exit_info is None and params("tr_radius.alpha1") >= 1.0:
         exit_info = ExitInformation(EXIT_INPUT_ERROR, "tr_radius.alpha1 must be strictly less than 1")  # or rho may never decrease
 
-- 
2.43.0


From db879e72e85fd06565800a64d9bc9f78e6a5243b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:46 +0000
Subject: [PATCH 44/46] fix: growing models with full rank Jacobian did not
 interpolate, as constant term was not updated

---
 dfols/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dfols/model.py b/dfols/model.py
index c449606..d24ec1d 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -412,6 +412,7 @@ class Model(object):
             s = np.maximum(s, floor_val)
             S = LA.diagsvd(s, k, k)  # s from vector to matrix of correct shape
             self.model_jac = np.dot(U, np.dot(S, Vt))  # reconstruct J from new svd
+            self.model_const = dg[0, :] - np.dot(self.model_jac, xopt)  # constant term must match new J (e.g. still interpolate at xopt)
 
         interp_error = 0.0
         if verbose:
-- 
2.43.0


From b3b29bd51d5dda03d01c74b81bdcd51a5753eb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:26 +0000
Subject: [PATCH 45/46] fix: stored interpolation points differed from
 evaluated points for general constraints, as Dykstra's algorithm was applied
 again

---
 dfols/controller.py |  8 ++++----
 dfols/model.py      | 13 +++++++------
 dfols/solver.py     |  2 +-
 3 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 0caee92..565bdd3 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -472,7 +472,7 @@ class Controller(object):
                     return exit_info  # return & quit
 
             # Otherwise, add new results
-            self.model.change_point(kmin, xnew, rvec_list[0, :], self.nx)  # expect step, not absolute x
+            self.model.change_point(kmin, x - self.model.xbase, rvec_list[0, :], self.nx)  # expect step, not absolute x
             for i in range(1, num_samples_run):
                 self.model.add_new_sample(kmin, rvec_extra=rvec_list[i, :])
 
@@ -608,7 +608,7 @@ class Controller(object):
             return exit_info  # didn't fix geometry - return & quit
 
         # Otherwise, add new results
-        self.model.change_point(knew, xnew, rvec_list[0, :], self.nx)  # expect step, not absolute x
+        self.model.change_point(knew, x - self.model.xbase, rvec_list[0, :], self.nx)  # expect step, not absolute x
         for i in range(1, num_samples_run):
             self.model.add_new_sample(knew, rvec_extra=rvec_list[i, :])
 
@@ -880,7 +880,7 @@ class Controller(object):
                     return exit_info  # return & quit
 
                 # Otherwise, add new results
-                self.model.add_new_point(xnew, rvec_list[0, :], self.nx)  # expect step, not absolute x
+                self.model.add_new_point(x - self.model.xbase, rvec_list[0, :], self.nx)  # expect step, not absolute x
                 for i in range(1, num_samples_run):
                     self.model.add_new_sample(self.model.npt() - 1, rvec_extra=rvec_list[i, :])
 
@@ -963,7 +963,7 @@ class Controller(object):
                 return exit_info  # return & quit
 
             # Otherwise, add new results
-            self.model.change_point(knew, xnew, rvec_list[0, :], self.nx)  # expect step, not absolute x
+            self.model.change_point(knew, x - self.model.xbase, rvec_list[0, :], self.nx)  # expect step, not absolute x
             for i in range(1, num_samples_run):
                 self.model.add_new_sample(knew, rvec_extra=rvec_list[i, :])
         return None
diff --git a/dfols/model.py b/dfols/model.py
index d24ec1d..4c2bd5a 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -144,7 +144,8 @@ class Model(object):
         else:
             # Apply bounds and convert back to absolute coordinates
             if self.projections:
-                return dykstra(self.projections, self.xbase + self.points[k,:], max_iter=self.d_max_iters, tol=self.d_tol)
+                # Interpolation points are already projected (Dykstra's algorithm is inexact, so would move them again)
+                return self.projections[-1](self.xbase + self.points[k,:])
             return self.as_absolute_coordinates(self.points[k, :])
 
     def rvec(self, k):
@@ -196,7 +197,7 @@ class Model(object):
         self.fval_v[k, :] = rvec.copy()
         self.objval[k] = sumsq(rvec)
         if self.h is not None:
-            self.objval[k] += self.h(remove_scaling(self.as_absolute_coordinates(x), self.scaling_changes), *self.argsh)
+            self.objval[k] += self.h(remove_scaling(self.xpt(k, abs_coordinates=True), self.scaling_changes), *self.argsh)
         self.nsamples[k] = 1
         self.eval_num[k] = eval_num
         self.factorisation_current = False
@@ -226,7 +227,7 @@ class Model(object):
         # NOTE: how to sample when we have h? still at xpt(k), then add h(xpt(k)). Modify test if incorrect!
         self.objval[k] = sumsq(self.fval_v[k, :])
         if self.h is not None:
-            self.objval[k] += self.h(remove_scaling(self.as_absolute_coordinates(self.points[k, :]), self.scaling_changes), *self.argsh)
+            self.objval[k] += self.h(remove_scaling(self.xpt(k, abs_coordinates=True), self.scaling_changes), *self.argsh)
         self.nsamples[k] += 1
 
         # make sure kopt is always the best value we have (argmin alone would select any NaN)
@@ -245,13 +246,13 @@ class Model(object):
         self.points = np.append(self.points, x.reshape((1, self.n())), axis=0)  # append row to xpt
         self.fval_v = np.append(self.fval_v, rvec.reshape((1, self.m())), axis=0)  # append row to fval_v
         obj = sumsq(rvec)
+        self.num_pts += 1  # make sure npt is updated
+        self.npt_so_far += 1
         if self.h is not None:
-            obj += self.h(remove_scaling(self.as_absolute_coordinates(x), self.scaling_changes), *self.argsh)
+            obj += self.h(remove_scaling(self.xpt(self.npt() - 1, abs_coordinates=True), self.scaling_changes), *self.argsh)
         self.objval = np.append(self.objval, obj)  # append entry to fval
         self.nsamples = np.append(self.nsamples, 1)  # add new sample number
         self.eval_num = np.append(self.eval_num, eval_num)  # add new evaluation number
-        self.num_pts += 1  # make sure npt is updated
-        self.npt_so_far += 1
 
         if obj < self.objopt() or np.isnan(self.objopt()):
             self.kopt = self.npt() - 1
diff --git a/dfols/solver.py b/dfols/solver.py
index 24cbe27..5a6955b 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -715,7 +715,7 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
 
             if do_logging:
                 module_logger.debug("Updating with knew = %i" % knew)
-            control.model.change_point(knew, xnew, rvec_list[0, :], control.nx)  # expect step, not absolute x
+            control.model.change_point(knew, x - control.model.xbase, rvec_list[0, :], control.nx)  # expect step, not absolute x
             for i in range(1, num_samples_run):
                 control.model.add_new_sample(knew, rvec_extra=rvec_list[i, :])
 
-- 
2.43.0


From 455f0dd275aa1ba5f2b15ef2f2c4d5d192cb5b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:51 +0000
Subject: [PATCH 46/46] fix: a predicted reduction of -0.0 made an increase in
 the objective look like a successful step

---
 dfols/controller.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dfols/controller.py b/dfols/controller.py
index 565bdd3..d09e229 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -775,6 +775,8 @@ class Controller(object):
                 exit_info = ExitInformation(EXIT_TR_INCREASE_WARNING, "Either multiple constraints are active or trust region step gave model increase")
             else:
                 exit_info = ExitInformation(EXIT_TR_INCREASE_ERROR, "Trust region step gave model increase")
+        elif pred_reduction == 0.0:
+            pred_reduction = 0.0  # may be -0.0, which would give an increase in the objective a positive (infinite) ratio
         ratio = actual_reduction / pred_reduction
         return ratio, exit_info
 
-- 
2.43.0

