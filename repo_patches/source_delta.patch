From 62b66316f34dafcdd02ee573d8e13c934a05a507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:28 +0000
Subject: [PATCH 01/23] fix: do not modify the FracLamList passed to
 Continuation

---
 tmdsimpy/continuation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tmdsimpy/continuation.py b/tmdsimpy/continuation.py
index 6ad73dd..cfec7e2 100644
--- a/tmdsimpy/continuation.py
+++ b/tmdsimpy/continuation.py
@@ -206,6 +206,9 @@ class Continuation:
             
         # Make sure to always start with the value of 'FracLam' that is passed 
         # in before proceeding to the list of other possible values. 
+        # Copied so that the list passed in is not modified.
+        default_config['FracLamList'] = list(default_config['FracLamList'])
+        
         if len(default_config['FracLamList']) == 0 \
             or not (default_config['FracLamList'][0] == default_config['FracLam']):
             
-- 
2.43.0


From 45f364aaca21c808c8617879ab914adeafd9ce02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:28 +0000
Subject: [PATCH 02/23] fix: stop continuation on a failed step when output is
 suppressed

---
 tmdsimpy/continuation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tmdsimpy/continuation.py b/tmdsimpy/continuation.py
index cfec7e2..aec58ae 100644
--- a/tmdsimpy/continuation.py
+++ b/tmdsimpy/continuation.py
@@ -840,8 +840,9 @@ class Continuation:
                 
             #} End fracLam loop
             
-            if(not sol['success'] and not silent):
-                print('Stopping since final solution failed to converge.')
+            if not sol['success']:
+                if not silent:
+                    print('Stopping since final solution failed to converge.')
                 break
             
             # Store Iteration and Advance
-- 
2.43.0


From 37ba421fd49dffcf49da17b50d80a7f5f40feca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:28 +0000
Subject: [PATCH 03/23] fix: keep continuation silent on repeat calls with
 verbose < 0

---
 tmdsimpy/continuation.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tmdsimpy/continuation.py b/tmdsimpy/continuation.py
index aec58ae..59ea280 100644
--- a/tmdsimpy/continuation.py
+++ b/tmdsimpy/continuation.py
@@ -716,8 +716,8 @@ class Continuation:
         # Check about removing all output
         silent = self.config['verbose'] < 0
         
-        if silent:
-            self.config['verbose'] = 0
+        # Local value so that the object is still silent on later calls
+        verbose = 0 if silent else self.config['verbose']
         
         # Initialize Memory
         XlamP_full = np.zeros((self.config['MaxSteps'], XlamP0.shape[0]))        
@@ -819,7 +819,7 @@ class Continuation:
                 while (not sol['success']) and ds > self.config['dsmin']:
                     ds = max(ds / 2, self.config['dsmin'])
                     
-                    if self.config['verbose']:
+                    if verbose:
                         print(sol['message'])
                         print('Failed to converge with ds=', 2*ds, 
                               '. Retrying with ds=', ds)
@@ -833,7 +833,7 @@ class Continuation:
             
                 # Break out of loop over FracLam values if have converged
                 if sol['success']:
-                    if fracLam_ind > 0 and self.config['verbose']:
+                    if fracLam_ind > 0 and verbose:
                         print('Succeeded with FracLam index {} with value FracLam={}.'\
                               .format(fracLam_ind, self.config['FracLam']))
                     break
@@ -848,7 +848,7 @@ class Continuation:
             # Store Iteration and Advance
             XlamP_full[step] = self.CtoP * XlamC
             
-            if self.config['verbose'] and step % self.config['verbose'] == 0:
+            if verbose and step % verbose == 0:
                 print('Step=', step, ' converged: lam=', XlamP_full[step, -1], \
                       ' ds=', ds, ' and nfev=', sol['nfev'])
             
-- 
2.43.0


From a351f70a59cb57493a9b4dd6f1853632a47ed753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:28 +0000
Subject: [PATCH 04/23] fix: do not modify subset_by_index in
 NonlinearSolver.eigs

---
 tmdsimpy/solvers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tmdsimpy/solvers.py b/tmdsimpy/solvers.py
index 2ad936d..9c2aa36 100644
--- a/tmdsimpy/solvers.py
+++ b/tmdsimpy/solvers.py
@@ -205,7 +205,9 @@ class NonlinearSolver:
 
         """
         
-        subset_by_index[1] = min(subset_by_index[1], K.shape[0]-1)
+        # New list so that neither the default nor the caller's list is modified
+        subset_by_index = [subset_by_index[0], 
+                           min(subset_by_index[1], K.shape[0]-1)]
         
         eigvals, eigvecs = scipy.linalg.eigh(K, M, 
                                              subset_by_index=subset_by_index)
-- 
2.43.0


From 2bcef04ef1fc3740762bd89dd056be301224806b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:28 +0000
Subject: [PATCH 05/23] fix: check xtol_rel against the step size and etol_rel
 against the energy

---
 tmdsimpy/jax/solvers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tmdsimpy/jax/solvers.py b/tmdsimpy/jax/solvers.py
index 5f7ca54..e9c921c 100644
--- a/tmdsimpy/jax/solvers.py
+++ b/tmdsimpy/jax/solvers.py
@@ -788,9 +788,9 @@ def _check_convg(check_list, tol_dict, r_curr, e_curr, u_curr, r_rel, e_rel, u_r
                 'xtol'    : u_curr, 
                 'rtol'    : r_curr,
                 'etol'    : e_curr,
-                'xtol_rel' : e_rel,
+                'xtol_rel' : u_rel,
                 'rtol_rel' : r_rel,
-                'etol_rel' : u_rel,
+                'etol_rel' : e_rel,
                 }
     
     for key in check_list:
-- 
2.43.0


From ccdabe9b8530241cfc999770cbafef7c52f6c000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:28 +0000
Subject: [PATCH 06/23] fix: do not leave the nsolve xtol argument in the
 solver config on an exception

---
 tmdsimpy/jax/solvers.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/tmdsimpy/jax/solvers.py b/tmdsimpy/jax/solvers.py
index e9c921c..e0f3336 100644
--- a/tmdsimpy/jax/solvers.py
+++ b/tmdsimpy/jax/solvers.py
@@ -460,7 +460,7 @@ class NonlinearSolverOMP(NonlinearSolver):
             If None, then `self.config['xtol']` is used. If that is also None, 
             then `1e-6*X0.shape[0]` is used as the x tolerance.
             Passing in a value here does not change the config value 
-            permanently (not parallel safe though).
+            permanently.
             The default is None. 
         
         Returns
@@ -534,10 +534,9 @@ class NonlinearSolverOMP(NonlinearSolver):
         if verbose is None:
             verbose = self.config['verbose']
             
-        # Save out the setting from xtol in config, then will overwrite
-        # here to update to be used for this call. 
-        xtol_setting = self.config['xtol'] 
-        self.config['xtol'] = xtol
+        # Tolerances for this call only. The config is not modified, so an
+        # exception from `fun` cannot leave this value of xtol in it.
+        tol_dict = dict(self.config, xtol=xtol)
         
         max_iter = self.config['max_steps']
         
@@ -699,7 +698,7 @@ class NonlinearSolverOMP(NonlinearSolver):
                               curr_iter))
             
             # Check for final convergence
-            converged = _check_convg(self.config['stopping_tol'], self.config, 
+            converged = _check_convg(self.config['stopping_tol'], tol_dict, 
                                      r_curr, e_curr, u_curr, 
                                      r_curr/r0, e_curr/e0, u_curr/u0)
             if converged:
@@ -729,7 +728,7 @@ class NonlinearSolverOMP(NonlinearSolver):
         if no_nan_vals and not sol['success']:
             
             # Check convergence against the second set of tolerances
-            converged = _check_convg(self.config['accepting_tol'], self.config, 
+            converged = _check_convg(self.config['accepting_tol'], tol_dict, 
                                  r_curr, e_curr, u_curr, 
                                  r_curr/r0, e_curr/e0, u_curr/u0)
             
@@ -744,9 +743,6 @@ class NonlinearSolverOMP(NonlinearSolver):
         if(verbose):
             print(sol['message'], ' Nfev=', sol['nfev'], ' Njev=', sol['njev'])
         
-        # Set xtol in config back to the value passed in. 
-        self.config['xtol'] = xtol_setting
-        
         return X, R, dRdX, sol
     
     
-- 
2.43.0


From 1106f6dca1d944d2906bf7af15941851c2ae1b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:15 +0000
Subject: [PATCH 07/23] fix: include the saved force history in static elastic
 dry friction forces

---
 tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py | 2 +-
 tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py b/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py
index 536296b..faab4e8 100644
--- a/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py
+++ b/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py
@@ -506,7 +506,7 @@ def _local_eldy_force(unl, up, fp, pars, meso_gap):
     fnl = fnl.at[1::2].set(jnp.maximum((unl[1::2]-meso_gap)*kn, 0.0))
     
     # Tangent Force - must use where to get tradient consistently correct
-    fpred = kt*(unl[0::2]-up)
+    fpred = kt*(unl[0::2]-up) + fp
     
     fcurr = jnp.where(fpred < mu*fnl[1::2], fpred, mu*fnl[1::2])
         
diff --git a/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py b/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py
index a521b61..d5c4243 100644
--- a/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py
+++ b/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py
@@ -517,8 +517,8 @@ def _local_eldy_force(unl, up, fp, pars, meso_gap):
     fnl = fnl.at[2::3].set(jnp.maximum((unl[2::3]-meso_gap)*kn, 0.0))
     
     # Tangent Force - must use where to get tradient consistently correct
-    fpredx = kt*(unl[0::3]-up[0::2])
-    fpredy = kt*(unl[1::3]-up[1::2])
+    fpredx = kt*(unl[0::3]-up[0::2]) + fp[0::2]
+    fpredy = kt*(unl[1::3]-up[1::2]) + fp[1::2]
     
     fcurrx = jnp.where(fpredx < mu*fnl[2::3], fpredx, mu*fnl[2::3])
     fcurry = jnp.where(fpredy < mu*fnl[2::3], fpredy, mu*fnl[2::3])
-- 
2.43.0


From 7db34e464a30d8d726b3c0a2f1e12f69f8dc1cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:41 +0000
Subject: [PATCH 08/23] fix: include every nonlinear force in the shooting time
 derivative

---
 tmdsimpy/vibration_system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tmdsimpy/vibration_system.py b/tmdsimpy/vibration_system.py
index 6747e01..8bcdf20 100644
--- a/tmdsimpy/vibration_system.py
+++ b/tmdsimpy/vibration_system.py
@@ -2090,7 +2090,7 @@ def _shooting_state_space(t, UV_dUVdUV0, vib_sys, Fl, omega):
     # State Derivatives
     Udot = V
     
-    rhs = -(vib_sys.C @ V + vib_sys.K @ U + Fnl) + Fext
+    rhs = -(vib_sys.C @ V + vib_sys.K @ U + Fnltot) + Fext
     Minv = np.linalg.inv(vib_sys.M)
     Vdot = Minv @ rhs
     
-- 
2.43.0


From 93c4eb47455024747e21a514817606b0fa200f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:41 +0000
Subject: [PATCH 09/23] fix: do not lose saved continuation solutions when a
 save is interrupted

---
 tmdsimpy/utils/continuation.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/tmdsimpy/utils/continuation.py b/tmdsimpy/utils/continuation.py
index a021f3a..56396b0 100644
--- a/tmdsimpy/utils/continuation.py
+++ b/tmdsimpy/utils/continuation.py
@@ -9,6 +9,7 @@ tmdsimpy.postprocess.continuation :
     Module for post-processing functions from continuation solutions
 """
 
+import os
 from os.path import exists
 import numpy as np
 from . import harmonic as hutils
@@ -98,20 +99,34 @@ def continuation_save(XlamP, dirP_prev, fname):
 
     """
     
+    # Same extension that numpy.savez adds to a file name
+    fname = os.fspath(fname)
+    if not fname.endswith('.npz'):
+        fname = fname + '.npz'
+    
     if exists(fname):
         # Load previous solutions + Augment
-        loaded = np.load(fname, allow_pickle=False)
+        with np.load(fname, allow_pickle=False) as loaded:
         
-        XlamP_full = np.vstack((loaded['XlamP'], XlamP.reshape(1,-1)))
-        dirP_prev_full = np.vstack((loaded['dirP_prev'], dirP_prev.reshape(1,-1)))
+            XlamP_full = np.vstack((loaded['XlamP'], XlamP.reshape(1,-1)))
+            dirP_prev_full = np.vstack((loaded['dirP_prev'], dirP_prev.reshape(1,-1)))
         
     else: 
         # Rename for consistent save line
         XlamP_full = XlamP.reshape(1,-1)
         dirP_prev_full = dirP_prev.reshape(1,-1)
     
-    # Save augmented solutions
-    np.savez(fname, XlamP=XlamP_full, dirP_prev=dirP_prev_full)
+    # Save augmented solutions. The previous file is only replaced once the new
+    # one is complete, so that an interrupted or failed write does not lose the
+    # solutions that are already saved.
+    tmp_fname = fname + '.tmp'
+    
+    with open(tmp_fname, 'wb') as file:
+        np.savez(file, XlamP=XlamP_full, dirP_prev=dirP_prev_full)
+        file.flush()
+        os.fsync(file.fileno())
+        
+    os.replace(tmp_fname, fname)
     
     return
 
-- 
2.43.0


From 410b74f24cfa5fa9dae34e7d71158278292411d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:41 +0000
Subject: [PATCH 10/23] fix: write complete headers and rows to summary files
 after an interrupted run

---
 tmdsimpy/utils/continuation.py | 65 +++++++++++++++++++++++++---------
 1 file changed, 48 insertions(+), 17 deletions(-)

diff --git a/tmdsimpy/utils/continuation.py b/tmdsimpy/utils/continuation.py
index 56396b0..3226074 100644
--- a/tmdsimpy/utils/continuation.py
+++ b/tmdsimpy/utils/continuation.py
@@ -187,8 +187,8 @@ def print_epmc_stats(XlamP, dirP_prev, fname):
 
     """
     
-    # If file doesn't exist, write a header
-    write_header = not exists(fname)
+    # If file doesn't exist (or has nothing in it), write a header
+    write_header, line_start = _summary_file_state(fname)
     
     # Write current stats to file
     with open(fname, 'a') as file:
@@ -205,7 +205,7 @@ def print_epmc_stats(XlamP, dirP_prev, fname):
         freq = XlamP[-3] / 2 / np.pi # Frequency in Hz
         damp = XlamP[-2] / 2 / XlamP[-3] # Zeta (fraction critical damping)
         
-        file.write(body_format.format(Amp, freq, damp))
+        file.write(line_start + body_format.format(Amp, freq, damp))
     
     return
 
@@ -294,8 +294,8 @@ def print_hbm_amp_stats(XlamP, dirP_prev, fname, h, order,
 
     """
     
-    # If file doesn't exist, write a header
-    write_header = not exists(fname)
+    # If file doesn't exist (or has nothing in it), write a header
+    write_header, line_start = _summary_file_state(fname)
     
     # Write current stats to file
     with open(fname, 'a') as file:
@@ -314,7 +314,7 @@ def print_hbm_amp_stats(XlamP, dirP_prev, fname, h, order,
         amp = _calc_harmonic_resp(XlamP, XlamP[-1], h, order, 
                                   output_recov, output_harmonic)
         
-        file.write(body_format.format(freq, force, amp))
+        file.write(line_start + body_format.format(freq, force, amp))
     
     return
 
@@ -438,8 +438,8 @@ def print_hbm_amp_phase_stats(XlamP, dirP_prev, fname, freq, amp, h, order,
     
     """
     
-    # If file doesn't exist, write a header
-    write_header = not exists(fname)
+    # If file doesn't exist (or has nothing in it), write a header
+    write_header, line_start = _summary_file_state(fname)
     
     # Write current stats to file
     with open(fname, 'a') as file:
@@ -460,8 +460,8 @@ def print_hbm_amp_phase_stats(XlamP, dirP_prev, fname, freq, amp, h, order,
         amp_recov = _calc_harmonic_resp(XlamP, freq, h, order, 
                                   output_recov, output_harmonic)
         
-        file.write(body_format.format(freq_hz, amp, XlamP[-3], XlamP[-2],
-                                      amp_recov))
+        file.write(line_start + body_format.format(freq_hz, amp, XlamP[-3], 
+                                                   XlamP[-2], amp_recov))
 
 
 def print_vprnm_stats(XlamP, dirP_prev, fname, h, order,
@@ -552,8 +552,8 @@ def print_vprnm_stats(XlamP, dirP_prev, fname, h, order,
 
     """
     
-    # If file doesn't exist, write a header
-    write_header = not exists(fname)
+    # If file doesn't exist (or has nothing in it), write a header
+    write_header, line_start = _summary_file_state(fname)
     
     # Write current stats to file
     with open(fname, 'a') as file:
@@ -594,7 +594,7 @@ def print_vprnm_stats(XlamP, dirP_prev, fname, h, order,
             
         amp_string = ''.join([amp_subcomponent.format(ampi) for ampi in amp_list])
         
-        file.write(body_format.format(force, freq, amp_string))
+        file.write(line_start + body_format.format(force, freq, amp_string))
    
 def print_vprnm_amp_phase_stats(XlamP, dirP_prev, fname, h, control_order,
                                 output_order, output_recov_harmonic_list):
@@ -694,8 +694,8 @@ def print_vprnm_amp_phase_stats(XlamP, dirP_prev, fname, h, control_order,
     """
     
     
-    # If file doesn't exist, write a header
-    write_header = not exists(fname)
+    # If file doesn't exist (or has nothing in it), write a header
+    write_header, line_start = _summary_file_state(fname)
     
     # Write current stats to file
     with open(fname, 'a') as file:
@@ -742,9 +742,40 @@ def print_vprnm_amp_phase_stats(XlamP, dirP_prev, fname, h, control_order,
             
         amp_string = ''.join([amp_subcomponent.format(ampi) for ampi in amp_list])
         
-        file.write(body_format.format(amp_control, force_cos, force_sin, 
-                                      freq, amp_string))
+        file.write(line_start + body_format.format(amp_control, force_cos, 
+                                                   force_sin, freq, amp_string))
         
+def _summary_file_state(fname):
+    """
+    Function for checking what has to be written before the next row of a 
+    summary text file. 
+
+    Parameters
+    ----------
+    fname : str
+        Filename of the summary file.
+
+    Returns
+    -------
+    write_header : bool
+        True if the file does not exist or is empty (e.g., because an earlier 
+        run was stopped before it wrote anything).
+    line_start : str
+        Text to write before the next row. This is a newline if the file ends
+        in the middle of a line (e.g., because an earlier write was cut short) 
+        and is otherwise empty.
+
+    """
+    
+    if not exists(fname) or os.path.getsize(fname) == 0:
+        return True, ''
+    
+    with open(fname, 'rb') as file:
+        file.seek(-1, os.SEEK_END)
+        last = file.read(1)
+    
+    return False, '' if last == b'\n' else '\n'
+    
 def _calc_harmonic_resp(U, w, h, order, output_recov, output_harmonic):
     """
     Function for calculating the harmonic response at a given harmonic, 
-- 
2.43.0


From a939e257635cc4e0189ae966440d6c351d572508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:41 +0000
Subject: [PATCH 11/23] fix: align harmonic labels with their columns in
 print_vprnm_amp_phase_stats

---
 tmdsimpy/utils/continuation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tmdsimpy/utils/continuation.py b/tmdsimpy/utils/continuation.py
index 3226074..f82f387 100644
--- a/tmdsimpy/utils/continuation.py
+++ b/tmdsimpy/utils/continuation.py
@@ -712,7 +712,8 @@ def print_vprnm_amp_phase_stats(XlamP, dirP_prev, fname, h, control_order,
                                             'Force Sine [N]',
                                             'Frequency [Hz]'))
             
-            harmonic_line = ('{:^18s} & {:^18s} '.format('','')) \
+            harmonic_line = ('{:^18s} & {:^18s} & {:^18s} & {:^18s} '\
+                             .format('','','','')) \
                 + ''.join(['& {:^22s}'.format('dof={}, h={}'.format(ind, rh[1])) \
                            for ind,rh in enumerate(output_recov_harmonic_list)]) \
                 + '\n'
-- 
2.43.0


From 575b985c6385033bdad1eccda59bd5c392697cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:09 +0000
Subject: [PATCH 12/23] fix: stop nsolve on an infinite step instead of
 reporting success at a non-finite point

---
 tmdsimpy/jax/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tmdsimpy/jax/solvers.py b/tmdsimpy/jax/solvers.py
index e0f3336..f229747 100644
--- a/tmdsimpy/jax/solvers.py
+++ b/tmdsimpy/jax/solvers.py
@@ -638,7 +638,7 @@ class NonlinearSolverOMP(NonlinearSolver):
                     deltaX = deltaX + bfgs_s[:, kk]*(alpha[kk] - beta)
                
             ###### # Check Solution Step
-            if np.isnan(np.sum(deltaX)):
+            if not np.all(np.isfinite(deltaX)):
                 no_nan_vals = False
                 if verbose: print('Stopping with NaN Step Direction')
                 break
-- 
2.43.0


From b342b81ac788053034da9f1ba7f777aa8354076a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:51 +0000
Subject: [PATCH 13/23] fix: local force history of elastic dry friction with a
 scalar or unset u0

---
 tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py | 15 +--------------
 tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py | 15 +--------------
 tmdsimpy/postprocess/harmonic.py             |  2 +-
 3 files changed, 3 insertions(+), 29 deletions(-)

diff --git a/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py b/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py
index faab4e8..8bec0cb 100644
--- a/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py
+++ b/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py
@@ -441,23 +441,10 @@ class ElasticDryFriction2D(NonlinearForce):
             # Initialize based on the zeroth harmonic.
             u0 = unlth0
         else:
-            u0 = self.u0*np.ones_like(unlth0[0])
+            u0 = self.u0*np.ones(unlt.shape[1])
         
         pars = np.array([self.kt, self.kn, self.mu])
         
-        fxyn_t = _local_force_history(unlt, pars, u0[::2], self.meso_gap)
-        
-        #########################
-        # Determine Slider Starting Position
-
-        if self.u0 is None:
-            # Initialize based on the zeroth harmonic.
-            u0 = unlth0
-        else:
-            u0 = self.u0*np.ones_like(unlth0[0])
-
-        pars = np.array([self.kt, self.kn, self.mu])
-
         fxyn_t = _local_force_history(unlt, pars, u0[::2], self.meso_gap)
 
         return (fxyn_t,)
diff --git a/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py b/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py
index d5c4243..f859f23 100644
--- a/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py
+++ b/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py
@@ -452,23 +452,10 @@ class ElasticDryFriction3D(NonlinearForce):
             # Initialize based on the zeroth harmonic.
             u0 = unlth0
         else:
-            u0 = self.u0*np.ones_like(unlth0[0])
+            u0 = self.u0*np.ones(unlt.shape[1])
         
         pars = np.array([self.kt, self.kn, self.mu])
         
-        fxyn_t = _local_force_history(unlt, pars, u0[self.ti], self.meso_gap)
-        
-        #########################
-        # Determine Slider Starting Position
-
-        if self.u0 is None:
-            # Initialize based on the zeroth harmonic.
-            u0 = unlth0
-        else:
-            u0 = self.u0*np.ones_like(unlth0[0])
-
-        pars = np.array([self.kt, self.kn, self.mu])
-
         fxyn_t = _local_force_history(unlt, pars, u0[self.ti], self.meso_gap)
 
         return (fxyn_t,)
diff --git a/tmdsimpy/postprocess/harmonic.py b/tmdsimpy/postprocess/harmonic.py
index 4e2ccbc..58c3a05 100644
--- a/tmdsimpy/postprocess/harmonic.py
+++ b/tmdsimpy/postprocess/harmonic.py
@@ -84,7 +84,7 @@ def local_harmonic_forces(vibration_system, U, w, h, Nt=128, aft_tol=1e-7):
         if nlforce.nl_force_type() == 1:
             # Hysteretic Nonlinearities
             
-            if hasattr(nlforce, 'u0'):
+            if getattr(nlforce, 'u0', None) is not None:
                 # Generally the rough contact nonlinearity should come here,
                 # and other nonlinear friction type elements.    
                 unlth0 = nlforce.u0
-- 
2.43.0


From 033f0dc852d02a5a54ba696a9b748ad285e76b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:42 +0000
Subject: [PATCH 14/23] fix: local loops of harmonic sets without the zeroth
 harmonic start from zero mean

---
 tmdsimpy/postprocess/harmonic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tmdsimpy/postprocess/harmonic.py b/tmdsimpy/postprocess/harmonic.py
index 58c3a05..e389dda 100644
--- a/tmdsimpy/postprocess/harmonic.py
+++ b/tmdsimpy/postprocess/harmonic.py
@@ -91,7 +91,8 @@ def local_harmonic_forces(vibration_system, U, w, h, Nt=128, aft_tol=1e-7):
             
             else:
                 # Basic hysteretic force initialization
-                unlth0 = Uh[0, :]
+                # (zeroth harmonic is zero if it is not included in h)
+                unlth0 = Uh[0, :]*(h[0] == 0)
             
             ft = nlforce.local_force_history(ut, unltdot, h, cst, unlth0, 
                                                        atol=aft_tol)[0]
-- 
2.43.0


From 8a5b79fcca0e88e218f39ae63ca2e3343ecc3124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:42 +0000
Subject: [PATCH 15/23] fix: set_new_C without arguments changes nothing, as
 documented

---
 tmdsimpy/vibration_system.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tmdsimpy/vibration_system.py b/tmdsimpy/vibration_system.py
index 8bcdf20..32dfcce 100644
--- a/tmdsimpy/vibration_system.py
+++ b/tmdsimpy/vibration_system.py
@@ -261,9 +261,7 @@ class VibrationSystem:
             C = ab[0]*self.M + ab[1]*self.K
             self.ab = ab
         
-        if C is None:
-            self.C = np.zeros_like(self.M)
-        else:
+        if not (C is None):
             self.C = C
         
         return
-- 
2.43.0


From 4072a59d0f8677adda60880a4e35eb38c5ed8c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:42 +0000
Subject: [PATCH 16/23] fix: linear solves of the JAX solver return numpy
 arrays, as documented

---
 tmdsimpy/jax/solvers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tmdsimpy/jax/solvers.py b/tmdsimpy/jax/solvers.py
index f229747..4e6cce2 100644
--- a/tmdsimpy/jax/solvers.py
+++ b/tmdsimpy/jax/solvers.py
@@ -182,7 +182,7 @@ class NonlinearSolverOMP(NonlinearSolver):
 
         """
         
-        x = jax.numpy.linalg.solve(A,b)
+        x = np.array(jax.numpy.linalg.solve(A,b))
         
         return x
     
@@ -236,7 +236,7 @@ class NonlinearSolverOMP(NonlinearSolver):
         lin_factor :
             Method for factoring matrix prior to this solution.
         """
-        x = jax.scipy.linalg.lu_solve(lu_and_piv, b)
+        x = np.array(jax.scipy.linalg.lu_solve(lu_and_piv, b))
         
         return x
     
-- 
2.43.0


From 74d3ecc7fa2198720b94b50024566942952a6f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:06 +0000
Subject: [PATCH 17/23] fix: start every continuation call from the initial
 conditioning vectors

---
 tmdsimpy/continuation.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tmdsimpy/continuation.py b/tmdsimpy/continuation.py
index 59ea280..f2ba3dd 100644
--- a/tmdsimpy/continuation.py
+++ b/tmdsimpy/continuation.py
@@ -172,6 +172,7 @@ class Continuation:
                 
             self.setCtoPto1 = False
             self.CtoP = np.abs(CtoP)
+            self.CtoP_init = self.CtoP
             
         if RPtoC is None:
             # Needed vector for using RPtoC in initial solve
@@ -181,6 +182,7 @@ class Continuation:
             self.RPtoC = 1
         else:
             self.RPtoC = RPtoC
+            self.RPtoC_init = RPtoC
             self.setRPtoCto1 = False
             
         default_config={'FracLam' : 0.5, 
@@ -728,11 +730,17 @@ class Continuation:
         
         
         # Conditioning up front for static solution
+        # Always start from the initial vectors since these may have been
+        # changed by a previous call.
         if self.setCtoPto1:
             self.CtoP = np.ones_like(XlamP0)
+        else:
+            self.CtoP = self.CtoP_init
             
         if self.setRPtoCto1:
             self.RPtoC = np.ones_like(XlamP0)
+        else:
+            self.RPtoC = self.RPtoC_init
             
         # Make sure that RPtoC is initially a vector for use in 
         # initial solution
-- 
2.43.0


From ce08901fc8d2872a0f4111e0da8e403fbcb7c7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:49 +0000
Subject: [PATCH 18/23] fix: shift_pm_pi computed ((x mod 2)*pi) instead of x
 mod 2*pi

---
 tmdsimpy/utils/harmonic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tmdsimpy/utils/harmonic.py b/tmdsimpy/utils/harmonic.py
index 2c9c509..8178b3e 100644
--- a/tmdsimpy/utils/harmonic.py
+++ b/tmdsimpy/utils/harmonic.py
@@ -705,7 +705,7 @@ def shift_pm_pi(phase):
     """
     phase = np.copy(phase)
     
-    phase = ((phase + np.pi) % 2*np.pi) - np.pi
+    phase = ((phase + np.pi) % (2*np.pi)) - np.pi
     
     return phase
 
-- 
2.43.0


From 49568a49293f06da7a64b4b9526f07415c6aa2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:49 +0000
Subject: [PATCH 19/23] fix: harmonic_wise_conditioning with per-harmonic (or
 non-float scalar) delta lost entries when there are 2*Ndof or more extra
 unknowns

---
 tmdsimpy/utils/harmonic.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/tmdsimpy/utils/harmonic.py b/tmdsimpy/utils/harmonic.py
index 8178b3e..dd89123 100644
--- a/tmdsimpy/utils/harmonic.py
+++ b/tmdsimpy/utils/harmonic.py
@@ -367,14 +367,11 @@ def harmonic_wise_conditioning(X, Ndof, h, delta=1e-4):
     if type(delta) == float:
         CtoP = delta*np.ones_like(X) 
     else: 
-        h0 = h[0] == 0
+        # Minimum value for each harmonic, then one for all extra components
+        delta = np.asarray(delta)*np.ones(h.shape[0]+extras)
+        Nrepeat = np.where(h == 0, Ndof, 2*Ndof)
         
-        CtoP = np.ones((Ndof*2, h.shape[0]+extras))*np.atleast_2d(delta)
-        CtoP = CtoP.reshape(-1, order='F')[Ndof*h0:]
-        
-        if extras:
-            # Trim off extra at end
-            CtoP = CtoP[:(m-2*Ndof)]
+        CtoP = np.repeat(delta, np.append(Nrepeat, m) if extras else Nrepeat)
         
     # Loop over Harmonics and Potentially increase each harmonic
     haszero = 0
-- 
2.43.0


From 2cdb428ccc471348884fe6820ede79ced1b633a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:49 +0000
Subject: [PATCH 20/23] fix: VPRNM ROM compared modal amplitudes with an
 absolute tolerance and failed for models in small units

---
 tmdsimpy/roms/vprnm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tmdsimpy/roms/vprnm.py b/tmdsimpy/roms/vprnm.py
index 0cf3f74..f1bf060 100644
--- a/tmdsimpy/roms/vprnm.py
+++ b/tmdsimpy/roms/vprnm.py
@@ -314,7 +314,7 @@ def constant_h1_displacement(epmc_fund_bb, h_fund, epmc_rhi_bb, h_rhi,
     # this is a check everytime since it is very difficult to write a test
     # for it. This check failed due to bugs with frequency scaling to match
     # the VPRNM frequency.
-    assert np.abs(q_S[super_peak_ind] - q_S_EPMC) <= 1e-12, \
+    assert np.abs(q_S[super_peak_ind] - q_S_EPMC) <= 1e-12*q_S_EPMC, \
         'Superharmonic reconstruction did not recover VPRNM peak.'
     
     h0_rhi = h_rhi[0] == 0
-- 
2.43.0


From 67f11384c5a32ad5179aa7d53f55510b22002b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:49 +0000
Subject: [PATCH 21/23] fix: after set_new_C(C=...) linear_frf went on using
 the previous proportional damping

---
 tmdsimpy/vibration_system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tmdsimpy/vibration_system.py b/tmdsimpy/vibration_system.py
index 32dfcce..f1822f3 100644
--- a/tmdsimpy/vibration_system.py
+++ b/tmdsimpy/vibration_system.py
@@ -259,10 +259,10 @@ class VibrationSystem:
                               + ' damping.')
             
             C = ab[0]*self.M + ab[1]*self.K
-            self.ab = ab
         
         if not (C is None):
             self.C = C
+            self.ab = ab # None if the new matrix is not given by ab
         
         return
     
-- 
2.43.0


From 170ca9c960823926452614489f3aa450d5d6e69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:49 +0000
Subject: [PATCH 22/23] fix: linear_frf_base failed for several base DOFs and
 left out mass coupling between base and free DOFs

---
 tmdsimpy/vibration_system.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/tmdsimpy/vibration_system.py b/tmdsimpy/vibration_system.py
index f1822f3..c3a3458 100644
--- a/tmdsimpy/vibration_system.py
+++ b/tmdsimpy/vibration_system.py
@@ -994,13 +994,17 @@ class VibrationSystem:
         # modal_f = V.T @ f_base_cos.T
         # modal_fsin = V.T @ f_base_sin.T
         
-        # Just using the stiffness/damping matrix column to generate base forces
-        f_base_cos = -self.K[np.logical_not(base_flag),:][:, base_flag]*Ub[0]\
-                      - self.C[np.logical_not(base_flag),:][:, base_flag]*Ub[1]*w
-                     
-         
-        f_base_sin = -self.K[np.logical_not(base_flag),:][:, base_flag]*Ub[1]\
-                      + self.C[np.logical_not(base_flag),:][:, base_flag]*Ub[0]*w
+        # Base forces from the coupling of the free DOFs to the base DOFs, which
+        # all move together
+        free_flag = np.logical_not(base_flag)
+        
+        Mbase = self.M[free_flag, :][:, base_flag].sum(axis=1, keepdims=True)
+        Kbase = self.K[free_flag, :][:, base_flag].sum(axis=1, keepdims=True)
+        Cbase = self.C[free_flag, :][:, base_flag].sum(axis=1, keepdims=True)
+        
+        f_base_cos = -(Kbase - Mbase*w**2)*Ub[0] - Cbase*Ub[1]*w
+        
+        f_base_sin = -(Kbase - Mbase*w**2)*Ub[1] + Cbase*Ub[0]*w
         
 
         # Now essentially copied from linear_frf
-- 
2.43.0


From 88ef38b1acdd6c5b342753aee43b0caa7677922f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:49 +0000
Subject: [PATCH 23/23] fix: linear_frf returned NaN for systems with rigid
 body modes

---
 tmdsimpy/vibration_system.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/tmdsimpy/vibration_system.py b/tmdsimpy/vibration_system.py
index c3a3458..d42a425 100644
--- a/tmdsimpy/vibration_system.py
+++ b/tmdsimpy/vibration_system.py
@@ -620,25 +620,26 @@ class VibrationSystem:
             
         # Calculate Mode Shapes:
         wnsq,V = solver.eigs(self.K, self.M, subset_by_index=[0, neigs-1] )
-        wn = np.sqrt(wnsq)
 
         # Modal Forcing:
         modal_f = V.T @ Fl
         modal_fsin = V.T @ Flsin
-        modal_z = self.ab[0]/wn/2 +  self.ab[1]*wn/2
+        
+        # Modal damping coefficient (2*wn*zeta), finite for rigid body modes
+        modal_c = self.ab[0] + self.ab[1]*wnsq
         
         # Modes in second direction
         modal_f = np.atleast_2d(modal_f).T
         modal_fsin = np.atleast_2d(modal_fsin).T
-        modal_z = np.atleast_2d(modal_z).T
-        wn2d = np.atleast_2d(wn).T
+        modal_c = np.atleast_2d(modal_c).T
+        wnsq2d = np.atleast_2d(wnsq).T
         
         # Rederived by Hand:
-        qcos = ((wn2d**2 - w**2)*modal_f - (2*wn2d*w*modal_z)*modal_fsin)\
-            / ( (wn2d**2 - w**2)**2 + (2*wn2d*w*modal_z)**2 )
+        qcos = ((wnsq2d - w**2)*modal_f - (w*modal_c)*modal_fsin)\
+            / ( (wnsq2d - w**2)**2 + (w*modal_c)**2 )
         
-        qsin = ((2*wn2d*w*modal_z)*modal_f + (wn2d**2 - w**2)*modal_fsin) \
-            / ( (wn2d**2 - w**2)**2 + (2*wn2d*w*modal_z)**2 )
+        qsin = ((w*modal_c)*modal_f + (wnsq2d - w**2)*modal_fsin) \
+            / ( (wnsq2d - w**2)**2 + (w*modal_c)**2 )
         
         Xw = np.vstack((V @ qcos, V @ qsin, w)).T
         
-- 
2.43.0

