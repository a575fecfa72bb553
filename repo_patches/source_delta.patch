From 52a8775521d7779c89934fb336347d00bfe49c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:11 +0000
Subject: [PATCH 01/23] fix: shooting uses the sum of all nonlinear forces in
 the acceleration

The state derivative used the force of the last nonlinear force only (and
failed with a NameError when no nonlinear force is attached).
---
 tmdsimpy/vibration_system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tmdsimpy/vibration_system.py b/tmdsimpy/vibration_system.py
index 6747e01..8bcdf20 100644
--- a/tmdsimpy/vibration_system.py
+++ b/tmdsimpy/vibration_system.py
@@ -2090,7 +2090,7 @@ def _shooting_state_space(t, UV_dUVdUV0, vib_sys, Fl, omega):
     # State Derivatives
     Udot = V
     
-    rhs = -(vib_sys.C @ V + vib_sys.K @ U + Fnl) + Fext
+    rhs = -(vib_sys.C @ V + vib_sys.K @ U + Fnltot) + Fext
     Minv = np.linalg.inv(vib_sys.M)
     Vdot = Minv @ rhs
     
-- 
2.43.0


From aefa6a49a7df583cc932e5e4d2d613ee5410283b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:33 +0000
Subject: [PATCH 02/23] fix: silent continuation stops at an unconverged step
 and keeps its verbose setting

---
 tmdsimpy/continuation.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/tmdsimpy/continuation.py b/tmdsimpy/continuation.py
index 6ad73dd..cef3dc4 100644
--- a/tmdsimpy/continuation.py
+++ b/tmdsimpy/continuation.py
@@ -713,8 +713,8 @@ class Continuation:
         # Check about removing all output
         silent = self.config['verbose'] < 0
         
-        if silent:
-            self.config['verbose'] = 0
+        # Local copy, so the setting is still silent for the next call
+        verbose = 0 if silent else self.config['verbose']
         
         # Initialize Memory
         XlamP_full = np.zeros((self.config['MaxSteps'], XlamP0.shape[0]))        
@@ -816,7 +816,7 @@ class Continuation:
                 while (not sol['success']) and ds > self.config['dsmin']:
                     ds = max(ds / 2, self.config['dsmin'])
                     
-                    if self.config['verbose']:
+                    if verbose:
                         print(sol['message'])
                         print('Failed to converge with ds=', 2*ds, 
                               '. Retrying with ds=', ds)
@@ -830,21 +830,22 @@ class Continuation:
             
                 # Break out of loop over FracLam values if have converged
                 if sol['success']:
-                    if fracLam_ind > 0 and self.config['verbose']:
+                    if fracLam_ind > 0 and verbose:
                         print('Succeeded with FracLam index {} with value FracLam={}.'\
                               .format(fracLam_ind, self.config['FracLam']))
                     break
                 
             #} End fracLam loop
             
-            if(not sol['success'] and not silent):
-                print('Stopping since final solution failed to converge.')
+            if not sol['success']:
+                if not silent:
+                    print('Stopping since final solution failed to converge.')
                 break
             
             # Store Iteration and Advance
             XlamP_full[step] = self.CtoP * XlamC
             
-            if self.config['verbose'] and step % self.config['verbose'] == 0:
+            if verbose and step % verbose == 0:
                 print('Step=', step, ' converged: lam=', XlamP_full[step, -1], \
                       ' ds=', ds, ' and nfev=', sol['nfev'])
             
-- 
2.43.0


From ef36d78b47fd3c2403a9ab9c5e2370eb86060135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:07 +0000
Subject: [PATCH 03/23] fix: conditioning_wrapper scales Jacobian rows (not
 columns) by a vector RPtoC

---
 tmdsimpy/solvers.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tmdsimpy/solvers.py b/tmdsimpy/solvers.py
index 2ad936d..a203e30 100644
--- a/tmdsimpy/solvers.py
+++ b/tmdsimpy/solvers.py
@@ -228,8 +228,9 @@ class NonlinearSolver:
             Vector describing conversion from physical coordinates to 
             conditioned coordinates for the unknown vector that is input to 
             `fun`.
-        RPtoC : float, optional
-            Scales the full ouptut residual vector by this magnitude.
+        RPtoC : float or (N,) numpy.ndarray, optional
+            Scales the full ouptut residual vector by this magnitude
+            (each equation individually if a vector is passed).
             The default is 1.0.
 
         Returns
@@ -258,7 +259,7 @@ def _conditioned_fun(Xc, CtoP, RPtoC, calc_grad, fun):
         Conditioned coordinates for the unknown solution.
     CtoP : (N,) numpy.ndarray
         Converstion to physical `Xp` coordinates as `Xp = Xc * CtoP`.
-    RPtoC : float
+    RPtoC : float or (N,) numpy.ndarray
         Scaled value to multiply the returned residual by.
     calc_grad : bool
         Flag for calculating the gradient if true.
@@ -286,7 +287,8 @@ def _conditioned_fun(Xc, CtoP, RPtoC, calc_grad, fun):
         R, dRdXp = fun(Xp)[:2]
         
         Rc = RPtoC * R
-        dRcdXc = RPtoC*dRdXp*CtoP
+        # RPtoC scales the equations (rows), also if it is a vector
+        dRcdXc = (RPtoC*(dRdXp*CtoP).T).T
         
         return (Rc, dRcdXc)
         
-- 
2.43.0


From f6b004ce2973f05348e33a58cf48b1982230c54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:50 +0000
Subject: [PATCH 04/23] fix: match relative step and energy tolerances with
 their own norms in NonlinearSolverOMP

xtol_rel was compared with the relative energy norm and etol_rel with the
relative step norm, so nsolve could report success without the selected
criterion being met.
---
 tmdsimpy/jax/solvers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tmdsimpy/jax/solvers.py b/tmdsimpy/jax/solvers.py
index 5f7ca54..e9c921c 100644
--- a/tmdsimpy/jax/solvers.py
+++ b/tmdsimpy/jax/solvers.py
@@ -788,9 +788,9 @@ def _check_convg(check_list, tol_dict, r_curr, e_curr, u_curr, r_rel, e_rel, u_r
                 'xtol'    : u_curr, 
                 'rtol'    : r_curr,
                 'etol'    : e_curr,
-                'xtol_rel' : e_rel,
+                'xtol_rel' : u_rel,
                 'rtol_rel' : r_rel,
-                'etol_rel' : u_rel,
+                'etol_rel' : e_rel,
                 }
     
     for key in check_list:
-- 
2.43.0


From d54432b0642de631ddeb3b9802158200ed0e8b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:03 +0000
Subject: [PATCH 05/23] fix: NonlinearSolverOMP never reports success for a
 non-finite step

A singular Jacobian gives infinite steps, which the NaN checks let through:
with the residual tolerance the solver returned an infinite X as converged.
---
 tmdsimpy/jax/solvers.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/tmdsimpy/jax/solvers.py b/tmdsimpy/jax/solvers.py
index e9c921c..07955c0 100644
--- a/tmdsimpy/jax/solvers.py
+++ b/tmdsimpy/jax/solvers.py
@@ -592,12 +592,12 @@ class NonlinearSolverOMP(NonlinearSolver):
                 sol['nfev'] += 1
                 sol['njev'] += 1
                 
-                if np.isnan(np.sum(R)):
-                    if verbose: print('Stopping with NaN Residual')
+                if not np.all(np.isfinite(R)):
+                    if verbose: print('Stopping with NaN or Inf Residual')
                     no_nan_vals = False
                     break
-                if np.isnan(np.sum(dRdX)):
-                    if verbose: print('Stopping with NaN Jacobian')
+                if not np.all(np.isfinite(dRdX)):
+                    if verbose: print('Stopping with NaN or Inf Jacobian')
                     no_nan_vals = False
                     break
                 
@@ -615,8 +615,8 @@ class NonlinearSolverOMP(NonlinearSolver):
                 R = fun_R(X)
                 sol['nfev'] += 1
                 
-                if np.isnan(np.sum(R)):
-                    if verbose: print('Stopping with NaN Residual')
+                if not np.all(np.isfinite(R)):
+                    if verbose: print('Stopping with NaN or Inf Residual')
                     no_nan_vals = False
                     break
             
@@ -639,9 +639,9 @@ class NonlinearSolverOMP(NonlinearSolver):
                     deltaX = deltaX + bfgs_s[:, kk]*(alpha[kk] - beta)
                
             ###### # Check Solution Step
-            if np.isnan(np.sum(deltaX)):
+            if not np.all(np.isfinite(deltaX)):
                 no_nan_vals = False
-                if verbose: print('Stopping with NaN Step Direction')
+                if verbose: print('Stopping with NaN or Inf Step Direction')
                 break
             
             ###### # Tolerance Calculations
-- 
2.43.0


From 15eccdc09b7ab4adbe3e166e7ce4f26f7e4a73e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:55 +0000
Subject: [PATCH 06/23] fix: NonlinearSolver.eigs no longer modifies
 subset_by_index

The default list is shared between calls, so after one small problem all
later calls with the default returned too few eigenvalues.
---
 tmdsimpy/solvers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tmdsimpy/solvers.py b/tmdsimpy/solvers.py
index a203e30..8483342 100644
--- a/tmdsimpy/solvers.py
+++ b/tmdsimpy/solvers.py
@@ -205,7 +205,9 @@ class NonlinearSolver:
 
         """
         
-        subset_by_index[1] = min(subset_by_index[1], K.shape[0]-1)
+        # New list, the argument (or the shared default) must not be changed
+        subset_by_index = [subset_by_index[0], 
+                           min(subset_by_index[1], K.shape[0]-1)]
         
         eigvals, eigvecs = scipy.linalg.eigh(K, M, 
                                              subset_by_index=subset_by_index)
-- 
2.43.0


From 6b9922bb63e76c0149e5b9139e5c9a313a536774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:55 +0000
Subject: [PATCH 07/23] fix: Continuation no longer inserts into the
 FracLamList of the caller

The same list used for a second Continuation object accumulated the
FracLam entries of the earlier ones.
---
 tmdsimpy/continuation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tmdsimpy/continuation.py b/tmdsimpy/continuation.py
index cef3dc4..4aadc10 100644
--- a/tmdsimpy/continuation.py
+++ b/tmdsimpy/continuation.py
@@ -209,7 +209,8 @@ class Continuation:
         if len(default_config['FracLamList']) == 0 \
             or not (default_config['FracLamList'][0] == default_config['FracLam']):
             
-            default_config['FracLamList'].insert(0, default_config['FracLam'])
+            default_config['FracLamList'] = [default_config['FracLam']] \
+                + list(default_config['FracLamList'])
             
         self.config = default_config
         
-- 
2.43.0


From 8f231aa68baa86ae5e5c9d6bd7a8a352307cc640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:04 +0000
Subject: [PATCH 08/23] fix: shift_pm_pi wraps with period 2*pi (operator
 precedence)

---
 tmdsimpy/utils/harmonic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tmdsimpy/utils/harmonic.py b/tmdsimpy/utils/harmonic.py
index 2c9c509..8178b3e 100644
--- a/tmdsimpy/utils/harmonic.py
+++ b/tmdsimpy/utils/harmonic.py
@@ -705,7 +705,7 @@ def shift_pm_pi(phase):
     """
     phase = np.copy(phase)
     
-    phase = ((phase + np.pi) % 2*np.pi) - np.pi
+    phase = ((phase + np.pi) % (2*np.pi)) - np.pi
     
     return phase
 
-- 
2.43.0


From c26485173070e54c94be68272d909d3061dabd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:55 +0000
Subject: [PATCH 09/23] fix: linear_frf_base sums the columns of base DOFs that
 move together

---
 tmdsimpy/vibration_system.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/tmdsimpy/vibration_system.py b/tmdsimpy/vibration_system.py
index 8bcdf20..8653e14 100644
--- a/tmdsimpy/vibration_system.py
+++ b/tmdsimpy/vibration_system.py
@@ -997,13 +997,15 @@ class VibrationSystem:
         # modal_fsin = V.T @ f_base_sin.T
         
         # Just using the stiffness/damping matrix column to generate base forces
-        f_base_cos = -self.K[np.logical_not(base_flag),:][:, base_flag]*Ub[0]\
-                      - self.C[np.logical_not(base_flag),:][:, base_flag]*Ub[1]*w
-                     
-         
-        f_base_sin = -self.K[np.logical_not(base_flag),:][:, base_flag]*Ub[1]\
-                      + self.C[np.logical_not(base_flag),:][:, base_flag]*Ub[0]*w
-        
+        # All base DOFs move together, so their columns are summed.
+        Kbase = self.K[np.logical_not(base_flag),:][:, base_flag]\
+                    .sum(axis=1, keepdims=True)
+        Cbase = self.C[np.logical_not(base_flag),:][:, base_flag]\
+                    .sum(axis=1, keepdims=True)
+
+        f_base_cos = -Kbase*Ub[0] - Cbase*Ub[1]*w
+
+        f_base_sin = -Kbase*Ub[1] + Cbase*Ub[0]*w
 
         # Now essentially copied from linear_frf
         # Modal Forcing:
-- 
2.43.0


From f63de41365f6773fa1ef9d3135b89855d4ebd84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:55 +0000
Subject: [PATCH 10/23] fix: linear_frf_base includes the mass coupling of free
 and base DOFs

---
 tmdsimpy/vibration_system.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tmdsimpy/vibration_system.py b/tmdsimpy/vibration_system.py
index 8653e14..06d0e8d 100644
--- a/tmdsimpy/vibration_system.py
+++ b/tmdsimpy/vibration_system.py
@@ -996,16 +996,19 @@ class VibrationSystem:
         # modal_f = V.T @ f_base_cos.T
         # modal_fsin = V.T @ f_base_sin.T
         
-        # Just using the stiffness/damping matrix column to generate base forces
+        # Using the stiffness/damping/mass matrix columns to generate base forces
         # All base DOFs move together, so their columns are summed.
         Kbase = self.K[np.logical_not(base_flag),:][:, base_flag]\
                     .sum(axis=1, keepdims=True)
         Cbase = self.C[np.logical_not(base_flag),:][:, base_flag]\
                     .sum(axis=1, keepdims=True)
 
-        f_base_cos = -Kbase*Ub[0] - Cbase*Ub[1]*w
+        Mbase = self.M[np.logical_not(base_flag),:][:, base_flag]\
+                    .sum(axis=1, keepdims=True)
+
+        f_base_cos = -Kbase*Ub[0] - Cbase*Ub[1]*w + Mbase*Ub[0]*w**2
 
-        f_base_sin = -Kbase*Ub[1] + Cbase*Ub[0]*w
+        f_base_sin = -Kbase*Ub[1] + Cbase*Ub[0]*w + Mbase*Ub[1]*w**2
 
         # Now essentially copied from linear_frf
         # Modal Forcing:
-- 
2.43.0


From bdfbb17978caa19f6861178b2c46f3aa66f8276f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:14 +0000
Subject: [PATCH 11/23] fix: NonlinearSolverOMP.nsolve does not leave its xtol
 in config when fun raises

---
 tmdsimpy/jax/solvers.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/tmdsimpy/jax/solvers.py b/tmdsimpy/jax/solvers.py
index 07955c0..463770c 100644
--- a/tmdsimpy/jax/solvers.py
+++ b/tmdsimpy/jax/solvers.py
@@ -534,10 +534,10 @@ class NonlinearSolverOMP(NonlinearSolver):
         if verbose is None:
             verbose = self.config['verbose']
             
-        # Save out the setting from xtol in config, then will overwrite
-        # here to update to be used for this call. 
-        xtol_setting = self.config['xtol'] 
-        self.config['xtol'] = xtol
+        # Tolerances with the xtol to be used for this call. This is a copy so
+        # that self.config is unchanged even if `fun` raises an exception.
+        tol_dict = dict(self.config)
+        tol_dict['xtol'] = xtol
         
         max_iter = self.config['max_steps']
         
@@ -699,7 +699,7 @@ class NonlinearSolverOMP(NonlinearSolver):
                               curr_iter))
             
             # Check for final convergence
-            converged = _check_convg(self.config['stopping_tol'], self.config, 
+            converged = _check_convg(self.config['stopping_tol'], tol_dict, 
                                      r_curr, e_curr, u_curr, 
                                      r_curr/r0, e_curr/e0, u_curr/u0)
             if converged:
@@ -729,7 +729,7 @@ class NonlinearSolverOMP(NonlinearSolver):
         if no_nan_vals and not sol['success']:
             
             # Check convergence against the second set of tolerances
-            converged = _check_convg(self.config['accepting_tol'], self.config, 
+            converged = _check_convg(self.config['accepting_tol'], tol_dict, 
                                  r_curr, e_curr, u_curr, 
                                  r_curr/r0, e_curr/e0, u_curr/u0)
             
@@ -744,9 +744,6 @@ class NonlinearSolverOMP(NonlinearSolver):
         if(verbose):
             print(sol['message'], ' Nfev=', sol['nfev'], ' Njev=', sol['njev'])
         
-        # Set xtol in config back to the value passed in. 
-        self.config['xtol'] = xtol_setting
-        
         return X, R, dRdX, sol
     
     
-- 
2.43.0


From 5ee943c8448eb660b1d5e25b0a4b5f053fabf588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:31 +0000
Subject: [PATCH 12/23] fix: set_new_C without arguments leaves the damping
 unchanged as documented

---
 tmdsimpy/vibration_system.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tmdsimpy/vibration_system.py b/tmdsimpy/vibration_system.py
index 06d0e8d..ae5bec2 100644
--- a/tmdsimpy/vibration_system.py
+++ b/tmdsimpy/vibration_system.py
@@ -261,9 +261,7 @@ class VibrationSystem:
             C = ab[0]*self.M + ab[1]*self.K
             self.ab = ab
         
-        if C is None:
-            self.C = np.zeros_like(self.M)
-        else:
+        if not (C is None):
             self.C = C
         
         return
-- 
2.43.0


From 177abcaec83254841b5a52946a1bf00d044b0cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:31 +0000
Subject: [PATCH 13/23] fix: document the continuation setting TargetNfev under
 the name that is read

---
 tmdsimpy/continuation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tmdsimpy/continuation.py b/tmdsimpy/continuation.py
index 4aadc10..10869cd 100644
--- a/tmdsimpy/continuation.py
+++ b/tmdsimpy/continuation.py
@@ -45,7 +45,7 @@ class Continuation:
                     Maximum number of allowed solution points in the 
                     continuation.
                     The default is 500.
-                TargetFeval : int, optional
+                TargetNfev : int, optional
                     Target number of function evaluations for each step
                     used to adaptively adjust step size.
                     The default is 20.
@@ -90,7 +90,7 @@ class Continuation:
                 MaxIncrease : float, optional
                     The maximum factor that will multiply the continuation 
                     step between two consecutive steps regardless of how
-                    few interations compared to `TargetFeval` are required
+                    few interations compared to `TargetNfev` are required
                     for the nonlinear solver.
                     Step size does not have any limits on how fast it can
                     decrease.
-- 
2.43.0


From 073d0adbd2bcb6cb6832ac2505d2ed7ac994b507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:09 +0000
Subject: [PATCH 14/23] fix: Continuation.continuation restores
 config['FracLam'] on every exit

---
 tmdsimpy/continuation.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/tmdsimpy/continuation.py b/tmdsimpy/continuation.py
index 10869cd..c580b88 100644
--- a/tmdsimpy/continuation.py
+++ b/tmdsimpy/continuation.py
@@ -711,6 +711,20 @@ class Continuation:
         
         assert return_grad==False, 'Have not implemented this flag yet.'
         
+        # FracLam is changed while trying the values of FracLamList, it is put
+        # back on every exit.
+        FracLam = self.config['FracLam']
+        
+        try:
+            return self._continuation_steps(fun, XlamP0, lam0, lam1)
+        finally:
+            self.config['FracLam'] = FracLam
+    
+    def _continuation_steps(self, fun, XlamP0, lam0, lam1):
+        """
+        Steps of `continuation`, see documentation there.
+        """
+        
         # Check about removing all output
         silent = self.config['verbose'] < 0
         
-- 
2.43.0


From 6e2bf33acae3cdac08c0df6d508a6c353692fdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:28 +0000
Subject: [PATCH 15/23] fix: hysteretic cycle convergence compares with a copy
 of the previous force

---
 tmdsimpy/nlforces/nonlinear_force.py | 2 +-
 tmdsimpy/nlforces/vector_iwan4.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tmdsimpy/nlforces/nonlinear_force.py b/tmdsimpy/nlforces/nonlinear_force.py
index 6ad59e8..2dfd05b 100644
--- a/tmdsimpy/nlforces/nonlinear_force.py
+++ b/tmdsimpy/nlforces/nonlinear_force.py
@@ -536,7 +536,7 @@ class HystereticForce(NonlinearForce):
             acheck = np.abs(ft[ti, :] - fp)
             rcheck = np.abs(acheck / (ft[ti, :]+np.finfo(float).eps) )
             
-            fp = ft[ti, :]
+            fp = np.copy(ft[ti, :])
         
         return ft, dfduh, dfdudh
         
diff --git a/tmdsimpy/nlforces/vector_iwan4.py b/tmdsimpy/nlforces/vector_iwan4.py
index ab42b49..346fbb1 100644
--- a/tmdsimpy/nlforces/vector_iwan4.py
+++ b/tmdsimpy/nlforces/vector_iwan4.py
@@ -191,7 +191,7 @@ class VectorIwan4(Iwan4Force):
             acheck = np.abs(ft[ti, :] - fp)
             rcheck = np.abs(acheck / (ft[ti, :]+np.finfo(float).eps) )
             
-            fp = ft[ti, :]
+            fp = np.copy(ft[ti, :])
         
         return ft, dfduh, dfdudh, fsliders, dfslidersduh
     
-- 
2.43.0


From 48cde29af657a3c38e0db1f5ac74550407d5b02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:28 +0000
Subject: [PATCH 16/23] fix: static elastic dry friction force starts from the
 previous friction force

---
 tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py | 2 +-
 tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py b/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py
index 536296b..faab4e8 100644
--- a/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py
+++ b/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py
@@ -506,7 +506,7 @@ def _local_eldy_force(unl, up, fp, pars, meso_gap):
     fnl = fnl.at[1::2].set(jnp.maximum((unl[1::2]-meso_gap)*kn, 0.0))
     
     # Tangent Force - must use where to get tradient consistently correct
-    fpred = kt*(unl[0::2]-up)
+    fpred = kt*(unl[0::2]-up) + fp
     
     fcurr = jnp.where(fpred < mu*fnl[1::2], fpred, mu*fnl[1::2])
         
diff --git a/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py b/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py
index a521b61..d5c4243 100644
--- a/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py
+++ b/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py
@@ -517,8 +517,8 @@ def _local_eldy_force(unl, up, fp, pars, meso_gap):
     fnl = fnl.at[2::3].set(jnp.maximum((unl[2::3]-meso_gap)*kn, 0.0))
     
     # Tangent Force - must use where to get tradient consistently correct
-    fpredx = kt*(unl[0::3]-up[0::2])
-    fpredy = kt*(unl[1::3]-up[1::2])
+    fpredx = kt*(unl[0::3]-up[0::2]) + fp[0::2]
+    fpredy = kt*(unl[1::3]-up[1::2]) + fp[1::2]
     
     fcurrx = jnp.where(fpredx < mu*fnl[2::3], fpredx, mu*fnl[2::3])
     fcurry = jnp.where(fpredy < mu*fnl[2::3], fpredy, mu*fnl[2::3])
-- 
2.43.0


From 949d13997e3313b87ebbfa8c72144044bdbb4f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:28 +0000
Subject: [PATCH 17/23] fix: local_force_history of elastic dry friction
 accepts a scalar slider position

---
 tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py | 4 ++--
 tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py b/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py
index faab4e8..968990d 100644
--- a/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py
+++ b/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py
@@ -441,7 +441,7 @@ class ElasticDryFriction2D(NonlinearForce):
             # Initialize based on the zeroth harmonic.
             u0 = unlth0
         else:
-            u0 = self.u0*np.ones_like(unlth0[0])
+            u0 = self.u0*np.ones_like(unlth0)
         
         pars = np.array([self.kt, self.kn, self.mu])
         
@@ -454,7 +454,7 @@ class ElasticDryFriction2D(NonlinearForce):
             # Initialize based on the zeroth harmonic.
             u0 = unlth0
         else:
-            u0 = self.u0*np.ones_like(unlth0[0])
+            u0 = self.u0*np.ones_like(unlth0)
 
         pars = np.array([self.kt, self.kn, self.mu])
 
diff --git a/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py b/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py
index d5c4243..dad0645 100644
--- a/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py
+++ b/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py
@@ -452,7 +452,7 @@ class ElasticDryFriction3D(NonlinearForce):
             # Initialize based on the zeroth harmonic.
             u0 = unlth0
         else:
-            u0 = self.u0*np.ones_like(unlth0[0])
+            u0 = self.u0*np.ones_like(unlth0)
         
         pars = np.array([self.kt, self.kn, self.mu])
         
@@ -465,7 +465,7 @@ class ElasticDryFriction3D(NonlinearForce):
             # Initialize based on the zeroth harmonic.
             u0 = unlth0
         else:
-            u0 = self.u0*np.ones_like(unlth0[0])
+            u0 = self.u0*np.ones_like(unlth0)
 
         pars = np.array([self.kt, self.kn, self.mu])
 
-- 
2.43.0


From 1765000d7646bd89008d1a7ba0c99ceb53164a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:57 +0000
Subject: [PATCH 18/23] fix: local_harmonic_forces with scalar or unset initial
 slider positions

---
 tmdsimpy/postprocess/harmonic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tmdsimpy/postprocess/harmonic.py b/tmdsimpy/postprocess/harmonic.py
index 4e2ccbc..5f04bd9 100644
--- a/tmdsimpy/postprocess/harmonic.py
+++ b/tmdsimpy/postprocess/harmonic.py
@@ -84,10 +84,11 @@ def local_harmonic_forces(vibration_system, U, w, h, Nt=128, aft_tol=1e-7):
         if nlforce.nl_force_type() == 1:
             # Hysteretic Nonlinearities
             
-            if hasattr(nlforce, 'u0'):
+            if getattr(nlforce, 'u0', None) is not None:
                 # Generally the rough contact nonlinearity should come here,
                 # and other nonlinear friction type elements.    
-                unlth0 = nlforce.u0
+                # u0 may be a scalar for all local DOFs.
+                unlth0 = nlforce.u0*np.ones_like(Uh[0, :])
             
             else:
                 # Basic hysteretic force initialization
-- 
2.43.0


From b4cb4094eb9ed16dcb010626180b26955dba4e47 Mon Sep 17 00:00:00 2001
From: dev <d@e>
Date: Thu, 19 Nov 2026 02:56:14 +0000
Subject: [PATCH 19/23] fix: zeroth harmonic response amplitude in continuation
 summary callbacks

---
 tmdsimpy/utils/continuation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tmdsimpy/utils/continuation.py b/tmdsimpy/utils/continuation.py
index a021f3a..f4affef 100644
--- a/tmdsimpy/utils/continuation.py
+++ b/tmdsimpy/utils/continuation.py
@@ -769,7 +769,12 @@ def _calc_harmonic_resp(U, w, h, order, output_recov, output_harmonic):
     Nhc_before = hutils.Nhc(h[h < output_harmonic])
     
     amp_cos = output_recov @ U[Nhc_before*Ndof:(Nhc_before+1)*Ndof]
-    amp_sin = output_recov @ U[(Nhc_before+1)*Ndof:(Nhc_before+2)*Ndof]
+    
+    if output_harmonic == 0:
+        # The zeroth harmonic does not have a sine component
+        amp_sin = 0.0
+    else:
+        amp_sin = output_recov @ U[(Nhc_before+1)*Ndof:(Nhc_before+2)*Ndof]
     
     amp = np.sqrt(amp_cos**2 + amp_sin**2) *((output_harmonic*w)**order)
                         
-- 
2.43.0


From b369de99aa7651e961cecb7daf37f1f2861ff2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:14 +0000
Subject: [PATCH 20/23] fix: align second header line of
 print_vprnm_amp_phase_stats with its columns

---
 tmdsimpy/utils/continuation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tmdsimpy/utils/continuation.py b/tmdsimpy/utils/continuation.py
index f4affef..22b719d 100644
--- a/tmdsimpy/utils/continuation.py
+++ b/tmdsimpy/utils/continuation.py
@@ -697,7 +697,8 @@ def print_vprnm_amp_phase_stats(XlamP, dirP_prev, fname, h, control_order,
                                             'Force Sine [N]',
                                             'Frequency [Hz]'))
             
-            harmonic_line = ('{:^18s} & {:^18s} '.format('','')) \
+            harmonic_line = ('{:^18s} & {:^18s} & {:^18s} & {:^18s} '.format(
+                                '','','','')) \
                 + ''.join(['& {:^22s}'.format('dof={}, h={}'.format(ind, rh[1])) \
                            for ind,rh in enumerate(output_recov_harmonic_list)]) \
                 + '\n'
-- 
2.43.0


From 8661849cf32ba00506c5d79c270280b77abc9edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:14 +0000
Subject: [PATCH 21/23] fix: harmonic_wise_conditioning with non-float delta
 and two or more extras per DOF

---
 tmdsimpy/utils/harmonic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tmdsimpy/utils/harmonic.py b/tmdsimpy/utils/harmonic.py
index 8178b3e..6710bf6 100644
--- a/tmdsimpy/utils/harmonic.py
+++ b/tmdsimpy/utils/harmonic.py
@@ -373,8 +373,8 @@ def harmonic_wise_conditioning(X, Ndof, h, delta=1e-4):
         CtoP = CtoP.reshape(-1, order='F')[Ndof*h0:]
         
         if extras:
-            # Trim off extra at end
-            CtoP = CtoP[:(m-2*Ndof)]
+            # Use the single minimum value after the harmonics for each extra
+            CtoP = np.hstack((CtoP[:Nhc(h)*Ndof], CtoP[-1]*np.ones(m)))
         
     # Loop over Harmonics and Potentially increase each harmonic
     haszero = 0
-- 
2.43.0


From 60783a8b917e0c3f3ff4be6fde4637cf34c1a347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:15 +0000
Subject: [PATCH 22/23] fix: set_new_C with a damping matrix forgets the
 previous proportional coefficients

---
 tmdsimpy/vibration_system.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tmdsimpy/vibration_system.py b/tmdsimpy/vibration_system.py
index ae5bec2..932d861 100644
--- a/tmdsimpy/vibration_system.py
+++ b/tmdsimpy/vibration_system.py
@@ -261,6 +261,10 @@ class VibrationSystem:
             C = ab[0]*self.M + ab[1]*self.K
             self.ab = ab
         
+        elif not (C is None):
+            # The previous proportional coefficients do not describe C
+            self.ab = None
+        
         if not (C is None):
             self.C = C
         
-- 
2.43.0


From 65546eaf3e2a7e7ed51ef62367b9afe1a82bf4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:49 +0000
Subject: [PATCH 23/23] fix: test convergence of hysteretic cycles over all
 local DOFs

The measures of a cycle were arrays with one value per local DOF, so that
the loop condition raised for models with several local DOFs.
---
 tmdsimpy/nlforces/nonlinear_force.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tmdsimpy/nlforces/nonlinear_force.py b/tmdsimpy/nlforces/nonlinear_force.py
index 2dfd05b..5ad13fe 100644
--- a/tmdsimpy/nlforces/nonlinear_force.py
+++ b/tmdsimpy/nlforces/nonlinear_force.py
@@ -533,8 +533,10 @@ class HystereticForce(NonlinearForce):
                 
             its = its + 1
             
-            acheck = np.abs(ft[ti, :] - fp)
-            rcheck = np.abs(acheck / (ft[ti, :]+np.finfo(float).eps) )
+            # Largest change over all local DOFs
+            df = np.abs(ft[ti, :] - fp)
+            acheck = np.max(df)
+            rcheck = np.max(np.abs(df / (ft[ti, :]+np.finfo(float).eps) ))
             
             fp = np.copy(ft[ti, :])
         
-- 
2.43.0

