From 141d5ea457b26e7a47de3c6c8e88cf9d4cc0368c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:43 +0000
Subject: [PATCH 01/21] fix: smoothly_clipped_line returned NaN for a line with
 zero slope

The clipping points were located in x by dividing by the slope, so every
population model whose slope parameter is exactly zero (for example, all
unbounded slopes set to 0) had NaN means, NaN scatter and NaN galaxies.
Locate the same clipping points in y instead, where no division is needed.
---
 diffstar/diffstarpop/utils.py | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/diffstar/diffstarpop/utils.py b/diffstar/diffstarpop/utils.py
index 1bb6d1c..1a7cc7d 100644
--- a/diffstar/diffstarpop/utils.py
+++ b/diffstar/diffstarpop/utils.py
@@ -179,23 +179,16 @@ def smoothly_clipped_line(x, x0, y0, m, y_lo, y_hi):
         The y-values corresponding to x, smoothly clipped within [y_lo, y_hi].
 
     """
-    x_lo = (y_lo - y0) / m + x0  # value of x at which y=y_lo
-    x_hi = (y_hi - y0) / m + x0  # value of x at which y=y_hi
+    # Clip as a function of y, rather than x, so that m=0 is well behaved
+    y_lo_bound = y_lo + (y0 - y_lo) / 100.0  # value of y=y_lo+ε
+    y_hi_bound = y_hi - (y_hi - y0) / 100.0  # value of y=y_hi-ε
 
-    dx_lo = x0 - x_lo
-    dx_hi = x_hi - x0
-
-    eps_lo = dx_lo / 100.0  # tiny step in x above x_lo
-    eps_hi = dx_hi / 100.0  # tiny step in x below x_hi
-
-    xc_lo = x_lo + eps_lo  # value of x at which y=y_lo+ε
-    xc_hi = x_hi - eps_hi  # value of x at which y=y_hi-ε
-
-    y_lo_bound = y0 + m * (xc_lo - x0)  # value of y=y_lo+ε
-    y_hi_bound = y0 + m * (xc_hi - x0)  # value of y=y_hi-ε
-
-    CLIPPING_K = 20.0 / eps_lo  # Steep transition speed for this Δx
+    CLIPPING_K = 2000.0 / (y0 - y_lo)  # Steep transition speed for this Δy
     y_unclipped = y0 + m * (x - x0)
-    y_clipped_from_below = _sigmoid(x, xc_lo, CLIPPING_K, y_lo_bound, y_unclipped)
-    y_clipped = _sigmoid(x, xc_hi, CLIPPING_K, y_clipped_from_below, y_hi_bound)
+    y_clipped_from_below = _sigmoid(
+        y_unclipped, y_lo_bound, CLIPPING_K, y_lo_bound, y_unclipped
+    )
+    y_clipped = _sigmoid(
+        y_unclipped, y_hi_bound, CLIPPING_K, y_clipped_from_below, y_hi_bound
+    )
     return y_clipped
-- 
2.43.0


From dcde438a11d3b5081bcbc4a4a963f00fbb5de2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:43 +0000
Subject: [PATCH 02/21] fix: extract_galacticus_sfh_tables misplaced rows when
 istart > 0

---
 diffstar/data_loaders/extract_galacticus_sfh_data.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/diffstar/data_loaders/extract_galacticus_sfh_data.py b/diffstar/data_loaders/extract_galacticus_sfh_data.py
index 2b51dca..0103172 100644
--- a/diffstar/data_loaders/extract_galacticus_sfh_data.py
+++ b/diffstar/data_loaders/extract_galacticus_sfh_data.py
@@ -71,8 +71,9 @@ def extract_galacticus_sfh_tables(fn, colname, istart=0, iend=None):
                     [sfh_data_igal[j] for j in range(n_met, 2 * n_met)]
                 )
 
-                delta_mstar_in_situ_table[igal, :] = np.sum(X_sfh_in_situ, axis=0)
-                delta_mstar_tot_table[igal, :] = np.sum(X_sfh_tot, axis=0)
+                irow = igal - istart
+                delta_mstar_in_situ_table[irow, :] = np.sum(X_sfh_in_situ, axis=0)
+                delta_mstar_tot_table[irow, :] = np.sum(X_sfh_tot, axis=0)
 
     return delta_mstar_tot_table, delta_mstar_in_situ_table, tarr
 
-- 
2.43.0


From 402d2197b983ecbc20726ccff243fd8aa187bbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:43 +0000
Subject: [PATCH 03/21] fix: load_fit_sfh could not read the files that
 write_collated_data writes

The fitter has no tau_dep parameter any more, so no fit file has that column.
---
 diffstar/data_loaders/load_smah_data.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/diffstar/data_loaders/load_smah_data.py b/diffstar/data_loaders/load_smah_data.py
index 48aa091..ec30cbb 100644
--- a/diffstar/data_loaders/load_smah_data.py
+++ b/diffstar/data_loaders/load_smah_data.py
@@ -167,7 +167,6 @@ def load_fit_sfh(basename, data_drn=BEBOP):
                 hdf["lgy_at_mcrit"][:],
                 hdf["indx_lo"][:],
                 hdf["indx_hi"][:],
-                hdf["tau_dep"][:],
             ]
         ).T
         q_fit_params = np.array(
-- 
2.43.0


From 0752369f96c4a85a1428778d35c27f611652adbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:44 +0000
Subject: [PATCH 04/21] fix: gas histories crashed on a time grid with two
 points

Same convention as _get_dt_array, which already accepts two points.
---
 diffstar/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diffstar/utils.py b/diffstar/utils.py
index dd9d264..f864b09 100644
--- a/diffstar/utils.py
+++ b/diffstar/utils.py
@@ -21,9 +21,9 @@ def _jax_get_dt_array(t):
     dt = dt.at[1:-1].set(dtmids)
 
     t_lo = t[0] - (t[1] - t[0]) / 2
-    t_hi = t[-1] + dtmids[-1] / 2
-
     dt = dt.at[0].set(tmids[0] - t_lo)
+
+    t_hi = t[-1] + dt[-2] / 2
     dt = dt.at[-1].set(t_hi - tmids[-1])
     return dt
 
-- 
2.43.0


From e8dcccc7e63fcdd519a09db5bc796303c515c896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:27 +0000
Subject: [PATCH 05/21] fix: minimizer_wrapper gave up early when a start had a
 NaN gradient after a NaN loss

np.min of a list holding a NaN is NaN, and NaN > loss_tol is False, so the
remaining restarts were skipped.
---
 diffstar/fitting_helpers/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diffstar/fitting_helpers/utils.py b/diffstar/fitting_helpers/utils.py
index 281586b..4f89100 100644
--- a/diffstar/fitting_helpers/utils.py
+++ b/diffstar/fitting_helpers/utils.py
@@ -142,7 +142,7 @@ def minimizer_wrapper(
             loss_best_list.append(999.99)
             success_list.append(-1)
 
-            loss_best_current = np.min(loss_best_list)
+            loss_best_current = np.nanmin(loss_best_list)
             iter_id += 1
         else:
             res = minimize(
-- 
2.43.0


From 24c2a9701d946f334594d9c13485d095da31fad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:27 +0000
Subject: [PATCH 06/21] fix: minimizer_wrapper reported success for a fit that
 ended with an infinite loss

The docstring promises success=-1 when NaN or inf is encountered; an infinite
loss is now treated in the same way as NaN.
---
 diffstar/fitting_helpers/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diffstar/fitting_helpers/utils.py b/diffstar/fitting_helpers/utils.py
index 4f89100..a84f4f7 100644
--- a/diffstar/fitting_helpers/utils.py
+++ b/diffstar/fitting_helpers/utils.py
@@ -153,7 +153,7 @@ def minimizer_wrapper(
                 args=(loss_data,),
             )
             p_best = res.x
-            loss_best = float(res.fun)
+            loss_best = float(res.fun) if np.isfinite(res.fun) else np.nan
             success = 1
 
             p_best_list.append(p_best)
-- 
2.43.0


From 91fbb873384a3be3e4472c475acd7801e3232204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:57 +0000
Subject: [PATCH 07/21] fix: fitting scripts ignored -fstar_tdelay,
 -mass_fit_min and -ssfrh_floor

The options were parsed into kwargs, which was never given to diffstar_fitter.
---
 scripts/diffstar_fitting_script_umachine.py        | 1 +
 scripts/diffstar_fitting_script_umachine_mgash.py  | 1 +
 scripts/galacticus_diffstar_fitter_script.py       | 2 +-
 scripts/galacticus_diffstar_fitter_script_mgash.py | 2 +-
 scripts/history_fitting_script_TNG_mgash.py        | 2 +-
 5 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/scripts/diffstar_fitting_script_umachine.py b/scripts/diffstar_fitting_script_umachine.py
index 157f9ce..e5abf42 100644
--- a/scripts/diffstar_fitting_script_umachine.py
+++ b/scripts/diffstar_fitting_script_umachine.py
@@ -194,6 +194,7 @@ if __name__ == "__main__":
                         mah_params,
                         lgt0=np.log10(T0_SMDPL),
                         fb=FB_SMDPL,
+                        **kwargs,
                     )
                     sfh_params_best, diffstar_loss, diffstar_fit_success = _res
                     outline = dfh.get_outline(
diff --git a/scripts/diffstar_fitting_script_umachine_mgash.py b/scripts/diffstar_fitting_script_umachine_mgash.py
index e87cf54..30743b7 100644
--- a/scripts/diffstar_fitting_script_umachine_mgash.py
+++ b/scripts/diffstar_fitting_script_umachine_mgash.py
@@ -194,6 +194,7 @@ if __name__ == "__main__":
                         mah_params,
                         lgt0=np.log10(T0_SMDPL),
                         fb=FB_SMDPL,
+                        **kwargs,
                     )
                     sfh_params_best, diffstar_loss, diffstar_fit_success = _res
                     outline = dfh.get_outline(
diff --git a/scripts/galacticus_diffstar_fitter_script.py b/scripts/galacticus_diffstar_fitter_script.py
index 6f11ec3..6881426 100644
--- a/scripts/galacticus_diffstar_fitter_script.py
+++ b/scripts/galacticus_diffstar_fitter_script.py
@@ -144,7 +144,7 @@ if __name__ == "__main__":
 
             if run_fitter:
                 _res = dfh.diffstar_fitter(
-                    tarr, sfh, mah_params, lgt0=np.log10(T0), fb=lgs.FB
+                    tarr, sfh, mah_params, lgt0=np.log10(T0), fb=lgs.FB, **kwargs
                 )
                 sfh_params_best, diffstar_loss, diffstar_fit_success = _res
                 outline = dfh.get_outline(
diff --git a/scripts/galacticus_diffstar_fitter_script_mgash.py b/scripts/galacticus_diffstar_fitter_script_mgash.py
index 6f11ec3..6881426 100644
--- a/scripts/galacticus_diffstar_fitter_script_mgash.py
+++ b/scripts/galacticus_diffstar_fitter_script_mgash.py
@@ -144,7 +144,7 @@ if __name__ == "__main__":
 
             if run_fitter:
                 _res = dfh.diffstar_fitter(
-                    tarr, sfh, mah_params, lgt0=np.log10(T0), fb=lgs.FB
+                    tarr, sfh, mah_params, lgt0=np.log10(T0), fb=lgs.FB, **kwargs
                 )
                 sfh_params_best, diffstar_loss, diffstar_fit_success = _res
                 outline = dfh.get_outline(
diff --git a/scripts/history_fitting_script_TNG_mgash.py b/scripts/history_fitting_script_TNG_mgash.py
index cb634f7..1f8d5a5 100644
--- a/scripts/history_fitting_script_TNG_mgash.py
+++ b/scripts/history_fitting_script_TNG_mgash.py
@@ -125,7 +125,7 @@ if __name__ == "__main__":
             logmp_halo = logmp_for_rank[i]
 
             _res = dfh.diffstar_fitter(
-                tarr, sfrh, mah_params, lgt0=np.log10(T0), fb=FB_TNG
+                tarr, sfrh, mah_params, lgt0=np.log10(T0), fb=FB_TNG, **kwargs
             )
             sfh_params_best, diffstar_loss, diffstar_fit_success = _res
             outline = dfh.get_outline(
-- 
2.43.0


From 2894b3052dbb159a5093ae709b91bbd5058f2d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:57 +0000
Subject: [PATCH 08/21] fix: fitting scripts lost every result when a rank had
 exactly one galaxy

genfromtxt returns a 1-d array for a one-row file, so that np.concatenate or
write_collated_data raised after all of the fits had been done.
---
 scripts/diffstar_fitting_script_umachine.py                     | 2 +-
 scripts/diffstar_fitting_script_umachine_mgash.py               | 2 +-
 scripts/galacticus_analysis/galacticus_diffmah_fitter_script.py | 2 +-
 scripts/galacticus_diffstar_fitter_script.py                    | 2 +-
 scripts/galacticus_diffstar_fitter_script_mgash.py              | 2 +-
 scripts/history_fitting_script_TNG_mgash.py                     | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/scripts/diffstar_fitting_script_umachine.py b/scripts/diffstar_fitting_script_umachine.py
index e5abf42..0ab0d45 100644
--- a/scripts/diffstar_fitting_script_umachine.py
+++ b/scripts/diffstar_fitting_script_umachine.py
@@ -220,7 +220,7 @@ if __name__ == "__main__":
             collector = []
             for fit_fn in fit_data_fnames:
                 assert os.path.isfile(fit_fn)
-                fit_data = np.genfromtxt(fit_fn, dtype="str")
+                fit_data = np.genfromtxt(fit_fn, dtype="str", ndmin=2)
                 collector.append(fit_data)
             subvol_i_fit_results = np.concatenate(collector)
 
diff --git a/scripts/diffstar_fitting_script_umachine_mgash.py b/scripts/diffstar_fitting_script_umachine_mgash.py
index 30743b7..e469e29 100644
--- a/scripts/diffstar_fitting_script_umachine_mgash.py
+++ b/scripts/diffstar_fitting_script_umachine_mgash.py
@@ -220,7 +220,7 @@ if __name__ == "__main__":
             collector = []
             for fit_fn in fit_data_fnames:
                 assert os.path.isfile(fit_fn)
-                fit_data = np.genfromtxt(fit_fn, dtype="str")
+                fit_data = np.genfromtxt(fit_fn, dtype="str", ndmin=2)
                 collector.append(fit_data)
             subvol_i_fit_results = np.concatenate(collector)
 
diff --git a/scripts/galacticus_analysis/galacticus_diffmah_fitter_script.py b/scripts/galacticus_analysis/galacticus_diffmah_fitter_script.py
index 1ebf68f..a16d7ac 100644
--- a/scripts/galacticus_analysis/galacticus_diffmah_fitter_script.py
+++ b/scripts/galacticus_analysis/galacticus_diffmah_fitter_script.py
@@ -121,7 +121,7 @@ if __name__ == "__main__":
         collector = []
         for fit_fn in fit_data_fnames:
             assert os.path.isfile(fit_fn)
-            fit_data = np.genfromtxt(fit_fn, dtype="str")
+            fit_data = np.genfromtxt(fit_fn, dtype="str", ndmin=2)
             collector.append(fit_data)
         chunk_fit_results = np.concatenate(collector)
 
diff --git a/scripts/galacticus_diffstar_fitter_script.py b/scripts/galacticus_diffstar_fitter_script.py
index 6881426..2f1e728 100644
--- a/scripts/galacticus_diffstar_fitter_script.py
+++ b/scripts/galacticus_diffstar_fitter_script.py
@@ -171,7 +171,7 @@ if __name__ == "__main__":
         collector = []
         for fit_fn in fit_data_fnames:
             assert os.path.isfile(fit_fn), fit_fn
-            fit_data = np.genfromtxt(fit_fn, dtype="str")
+            fit_data = np.genfromtxt(fit_fn, dtype="str", ndmin=2)
             collector.append(fit_data)
         subvol_i_fit_results = np.concatenate(collector)
 
diff --git a/scripts/galacticus_diffstar_fitter_script_mgash.py b/scripts/galacticus_diffstar_fitter_script_mgash.py
index 6881426..2f1e728 100644
--- a/scripts/galacticus_diffstar_fitter_script_mgash.py
+++ b/scripts/galacticus_diffstar_fitter_script_mgash.py
@@ -171,7 +171,7 @@ if __name__ == "__main__":
         collector = []
         for fit_fn in fit_data_fnames:
             assert os.path.isfile(fit_fn), fit_fn
-            fit_data = np.genfromtxt(fit_fn, dtype="str")
+            fit_data = np.genfromtxt(fit_fn, dtype="str", ndmin=2)
             collector.append(fit_data)
         subvol_i_fit_results = np.concatenate(collector)
 
diff --git a/scripts/history_fitting_script_TNG_mgash.py b/scripts/history_fitting_script_TNG_mgash.py
index 1f8d5a5..de4dc79 100644
--- a/scripts/history_fitting_script_TNG_mgash.py
+++ b/scripts/history_fitting_script_TNG_mgash.py
@@ -148,7 +148,7 @@ if __name__ == "__main__":
         collector = []
         for fit_fn in fit_data_fnames:
             assert os.path.isfile(fit_fn)
-            fit_data = np.genfromtxt(fit_fn, dtype="str")
+            fit_data = np.genfromtxt(fit_fn, dtype="str", ndmin=2)
             collector.append(fit_data)
         subvol_i_fit_results = np.concatenate(collector)
 
-- 
2.43.0


From 433a83fa1c32124c51e98ca6fb5a100de5ee209c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:21 +0000
Subject: [PATCH 09/21] fix: minimizer_wrapper preferred a failed start over
 fits with loss above 999.99

---
 diffstar/fitting_helpers/utils.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/diffstar/fitting_helpers/utils.py b/diffstar/fitting_helpers/utils.py
index a84f4f7..7b95cd3 100644
--- a/diffstar/fitting_helpers/utils.py
+++ b/diffstar/fitting_helpers/utils.py
@@ -139,11 +139,8 @@ def minimizer_wrapper(
         p_init_run, isnan = return_random_pinit(p_init, loss_data, loss_func_deriv)
         if isnan:
             p_best_list.append(p_init[0])
-            loss_best_list.append(999.99)
+            loss_best_list.append(np.nan)
             success_list.append(-1)
-
-            loss_best_current = np.nanmin(loss_best_list)
-            iter_id += 1
         else:
             res = minimize(
                 loss_func,
@@ -160,12 +157,12 @@ def minimizer_wrapper(
             loss_best_list.append(loss_best)
             success_list.append(success)
 
-            if np.isnan(loss_best_list).all():
-                loss_best_current = np.inf
-            else:
-                loss_best_current = np.nanmin(loss_best_list)
+        if np.isnan(loss_best_list).all():
+            loss_best_current = np.inf
+        else:
+            loss_best_current = np.nanmin(loss_best_list)
 
-            iter_id += 1
+        iter_id += 1
 
     if np.isnan(loss_best_list).all():
         loss_best = 999.99
-- 
2.43.0


From 6ed2d5a73217da104e118b520bf17e6c2d2a37de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:31 +0000
Subject: [PATCH 10/21] fix: get_weights gave double weight to snapshots
 outside the requested fit range

---
 diffstar/fitting_helpers/diffstar_fitting_helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diffstar/fitting_helpers/diffstar_fitting_helpers.py b/diffstar/fitting_helpers/diffstar_fitting_helpers.py
index f5f4352..3c67acc 100644
--- a/diffstar/fitting_helpers/diffstar_fitting_helpers.py
+++ b/diffstar/fitting_helpers/diffstar_fitting_helpers.py
@@ -172,12 +172,12 @@ def get_weights(
 
     weight = np.ones_like(t_table)
     weight[~mask] = 1e10
-    weight[log_smah_sim[-1] - log_smah_sim < 0.1] = 0.5
+    weight[mask & (log_smah_sim[-1] - log_smah_sim < 0.1)] = 0.5
     weight = jnp.array(weight)
 
     weight_fstar = np.ones_like(t_table)
     weight_fstar[~mask] = 1e10
-    weight_fstar[log_fstar_sim.max() - log_fstar_sim < 0.1] = 0.5
+    weight_fstar[mask & (log_fstar_sim.max() - log_fstar_sim < 0.1)] = 0.5
     weight_fstar[weight_fstar == -10.0] = 1e10
     weight_fstar[t_table < fstar_tdelay + 0.01] = 1e10
 
-- 
2.43.0


From f05de196f0778b05229c1ee6b955ecfe2ffbfd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:08 +0000
Subject: [PATCH 11/21] fix: fitting scripts cleaned up through an unquoted
 shell glob

The pattern removed unrelated files of the output directory, and any directory
name with a space or another shell character left the temporary files behind.
---
 scripts/diffstar_fitting_script_umachine.py        | 7 ++-----
 scripts/diffstar_fitting_script_umachine_mgash.py  | 7 ++-----
 scripts/galacticus_diffstar_fitter_script.py       | 4 +---
 scripts/galacticus_diffstar_fitter_script_mgash.py | 4 +---
 scripts/history_fitting_script_TNG_mgash.py        | 9 ++-------
 5 files changed, 8 insertions(+), 23 deletions(-)

diff --git a/scripts/diffstar_fitting_script_umachine.py b/scripts/diffstar_fitting_script_umachine.py
index 0ab0d45..52cf298 100644
--- a/scripts/diffstar_fitting_script_umachine.py
+++ b/scripts/diffstar_fitting_script_umachine.py
@@ -1,6 +1,5 @@
 import argparse
 import os
-import subprocess
 from glob import glob
 from time import time
 
@@ -232,7 +231,5 @@ if __name__ == "__main__":
             dfh.write_collated_data(outfn, subvol_i_fit_results, colnames_out)
 
             # clean up ASCII data for subvol_i
-            bnpat = subvol_str + "*.dat"
-            fnpat = os.path.join(args.outdir, bnpat)
-            command = "rm " + fnpat
-            subprocess.os.system(command)
+            for fn in fit_data_fnames:
+                os.remove(fn)
diff --git a/scripts/diffstar_fitting_script_umachine_mgash.py b/scripts/diffstar_fitting_script_umachine_mgash.py
index e469e29..a7c93ca 100644
--- a/scripts/diffstar_fitting_script_umachine_mgash.py
+++ b/scripts/diffstar_fitting_script_umachine_mgash.py
@@ -1,6 +1,5 @@
 import argparse
 import os
-import subprocess
 from glob import glob
 from time import time
 
@@ -232,7 +231,5 @@ if __name__ == "__main__":
             dfh.write_collated_data(outfn, subvol_i_fit_results, colnames_out)
 
             # clean up ASCII data for subvol_i
-            bnpat = subvol_str + "*.dat"
-            fnpat = os.path.join(args.outdir, bnpat)
-            command = "rm " + fnpat
-            subprocess.os.system(command)
+            for fn in fit_data_fnames:
+                os.remove(fn)
diff --git a/scripts/galacticus_diffstar_fitter_script.py b/scripts/galacticus_diffstar_fitter_script.py
index 2f1e728..7d21f7f 100644
--- a/scripts/galacticus_diffstar_fitter_script.py
+++ b/scripts/galacticus_diffstar_fitter_script.py
@@ -1,6 +1,5 @@
 import argparse
 import os
-import subprocess
 from time import time
 
 import h5py
@@ -183,5 +182,4 @@ if __name__ == "__main__":
 
         # clean up ASCII data for subvol_i
         for fn in fit_data_fnames:
-            command = "rm " + fn
-            subprocess.os.system(command)
+            os.remove(fn)
diff --git a/scripts/galacticus_diffstar_fitter_script_mgash.py b/scripts/galacticus_diffstar_fitter_script_mgash.py
index 2f1e728..7d21f7f 100644
--- a/scripts/galacticus_diffstar_fitter_script_mgash.py
+++ b/scripts/galacticus_diffstar_fitter_script_mgash.py
@@ -1,6 +1,5 @@
 import argparse
 import os
-import subprocess
 from time import time
 
 import h5py
@@ -183,5 +182,4 @@ if __name__ == "__main__":
 
         # clean up ASCII data for subvol_i
         for fn in fit_data_fnames:
-            command = "rm " + fn
-            subprocess.os.system(command)
+            os.remove(fn)
diff --git a/scripts/history_fitting_script_TNG_mgash.py b/scripts/history_fitting_script_TNG_mgash.py
index de4dc79..9313778 100644
--- a/scripts/history_fitting_script_TNG_mgash.py
+++ b/scripts/history_fitting_script_TNG_mgash.py
@@ -1,6 +1,5 @@
 import argparse
 import os
-import subprocess
 from time import time
 
 import numpy as np
@@ -152,7 +151,6 @@ if __name__ == "__main__":
             collector.append(fit_data)
         subvol_i_fit_results = np.concatenate(collector)
 
-        fit_data_bnames = [os.path.basename(fn) for fn in fit_data_fnames]
         outbn = "diffstar_tng_fits.hdf5"
         outfn = os.path.join(outdir, outbn)
 
@@ -160,8 +158,5 @@ if __name__ == "__main__":
         dfh.write_collated_data(outfn, subvol_i_fit_results, colnames_out)
 
         # clean up ASCII data for subvol_i
-        bn = fit_data_bnames[0]
-        bnpat = "_".join(bn.split("_")[:-1]) + "_*.dat"
-        fnpat = os.path.join(outdir, bnpat)
-        command = "rm " + fnpat
-        subprocess.os.system(command)
+        for fn in fit_data_fnames:
+            os.remove(fn)
-- 
2.43.0


From fdcab80986e1819264f8d3e182396060ac43d755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:08 +0000
Subject: [PATCH 12/21] fix: load_smdpl_diffmah_fits did not mark halos with
 too few points in the loss

Their parameters were already replaced by -1, but their loss stayed positive, so
the fitting scripts took them for fitted halos and fitted with the fill values.
---
 diffstar/data_loaders/load_smah_data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/diffstar/data_loaders/load_smah_data.py b/diffstar/data_loaders/load_smah_data.py
index ec30cbb..b7ad089 100644
--- a/diffstar/data_loaders/load_smah_data.py
+++ b/diffstar/data_loaders/load_smah_data.py
@@ -135,6 +135,7 @@ def load_smdpl_diffmah_fits(
     early = np.where(msk_nofit, _zz - 1.0, early)
     late = np.where(msk_nofit, _zz - 1.0, late)
     t_peak = np.where(msk_nofit, _zz - 1.0, t_peak)
+    loss = np.where(msk_nofit, _zz - 1.0, loss)
     mah_params = dk.DEFAULT_MAH_PARAMS._make((logm0, logtc, early, late, t_peak))
 
     return mah_params, logmp0, loss, n_points_per_fit
-- 
2.43.0


From edc14846651f536f6ee7c09e591496fc5d4dccad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:08 +0000
Subject: [PATCH 13/21] fix: TNG script fitted galaxies whose halo has no
 diffmah fit with the fill values

---
 scripts/history_fitting_script_TNG_mgash.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/scripts/history_fitting_script_TNG_mgash.py b/scripts/history_fitting_script_TNG_mgash.py
index 9313778..8ab1417 100644
--- a/scripts/history_fitting_script_TNG_mgash.py
+++ b/scripts/history_fitting_script_TNG_mgash.py
@@ -92,7 +92,7 @@ if __name__ == "__main__":
     diffmah_str = "diffmah_tng_fits.hdf5"
     bn_diffmah = os.path.join(indir_diffmah, diffmah_str)
     _res = load_precomputed_diffmah_fits(bn_diffmah, T0, istart=istart, iend=iend)
-    mah_params_for_rank, logmp_for_rank = _res[:2]
+    mah_params_for_rank, logmp_for_rank, diffmah_loss_for_rank = _res[:3]
 
     halo_ids_for_rank = halo_ids[indx_for_rank]
     log_smahs_for_rank = log_smahs[indx_for_rank]
@@ -123,13 +123,16 @@ if __name__ == "__main__":
             mah_params = DiffmahParams(*[x[i] for x in mah_params_for_rank])
             logmp_halo = logmp_for_rank[i]
 
-            _res = dfh.diffstar_fitter(
-                tarr, sfrh, mah_params, lgt0=np.log10(T0), fb=FB_TNG, **kwargs
-            )
-            sfh_params_best, diffstar_loss, diffstar_fit_success = _res
-            outline = dfh.get_outline(
-                halo_id, sfh_params_best, diffstar_loss, diffstar_fit_success
-            )
+            if diffmah_loss_for_rank[i] > 0:
+                _res = dfh.diffstar_fitter(
+                    tarr, sfrh, mah_params, lgt0=np.log10(T0), fb=FB_TNG, **kwargs
+                )
+                sfh_params_best, diffstar_loss, diffstar_fit_success = _res
+                outline = dfh.get_outline(
+                    halo_id, sfh_params_best, diffstar_loss, diffstar_fit_success
+                )
+            else:
+                outline = dfh.get_outline_nofit(halo_id)
 
             fout.write(outline)
 
-- 
2.43.0


From 917fb3f304e88a1357849a8c56229b4e01a5a96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:53 +0000
Subject: [PATCH 14/21] fix: _jax_get_dt_array truncated the bin widths of an
 integer time grid

---
 diffstar/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diffstar/utils.py b/diffstar/utils.py
index f864b09..760036d 100644
--- a/diffstar/utils.py
+++ b/diffstar/utils.py
@@ -14,8 +14,8 @@ YEAR_PER_GYR = 1e9
 
 @jjit
 def _jax_get_dt_array(t):
-    dt = jnp.zeros_like(t)
     tmids = 0.5 * (t[:-1] + t[1:])
+    dt = jnp.zeros(t.size, dtype=tmids.dtype)
     dtmids = jnp.diff(tmids)
 
     dt = dt.at[1:-1].set(dtmids)
-- 
2.43.0


From c2585e8e816155c9d650739ec4345dd436ee2d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 15/21] fix: SMDPL and Galacticus measurement scripts called
 calc_sfh_galpop without fb

fb is a required keyword, so both scripts ended with a TypeError before measuring
anything. Pass the default baryon fraction, as the TNG script does.
---
 scripts/diffstarpop_scripts/smhm_utils_galacticus_mgash.py | 4 ++--
 scripts/diffstarpop_scripts/smhm_utils_smdpl_mgash.py      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/scripts/diffstarpop_scripts/smhm_utils_galacticus_mgash.py b/scripts/diffstarpop_scripts/smhm_utils_galacticus_mgash.py
index 28fa747..e94b0e8 100644
--- a/scripts/diffstarpop_scripts/smhm_utils_galacticus_mgash.py
+++ b/scripts/diffstarpop_scripts/smhm_utils_galacticus_mgash.py
@@ -6,7 +6,7 @@ import h5py
 import numpy as np
 from diffmah.diffmah_kernels import DEFAULT_MAH_PARAMS, mah_halopop
 from diffsky.diffndhist import tw_ndhist_weighted
-from diffstar.defaults import DEFAULT_DIFFSTAR_PARAMS, LGT0, T_TABLE_MIN
+from diffstar.defaults import DEFAULT_DIFFSTAR_PARAMS, LGT0, T_TABLE_MIN, FB
 from diffstar.sfh_model import calc_sfh_galpop
 from diffstar.data_loaders.load_galacticus_sfh import load_galacticus_diffstar_data
 from scipy.stats import binned_statistic
@@ -71,7 +71,7 @@ def load_diffstar_sfh_tables(
     __, log_mah_table = mah_halopop(mah_params, t_table, LGT0)
 
     sfh_table, smh_table = calc_sfh_galpop(
-        sfh_params, mah_params, t_table, lgt0=LGT0, return_smh=True
+        sfh_params, mah_params, t_table, lgt0=LGT0, fb=FB, return_smh=True
     )
     log_sfh_table = np.log10(sfh_table)
     log_smh_table = np.log10(smh_table)
diff --git a/scripts/diffstarpop_scripts/smhm_utils_smdpl_mgash.py b/scripts/diffstarpop_scripts/smhm_utils_smdpl_mgash.py
index 2ec5211..08b45d8 100644
--- a/scripts/diffstarpop_scripts/smhm_utils_smdpl_mgash.py
+++ b/scripts/diffstarpop_scripts/smhm_utils_smdpl_mgash.py
@@ -6,7 +6,7 @@ import h5py
 import numpy as np
 from diffmah.diffmah_kernels import DEFAULT_MAH_PARAMS, mah_halopop
 from diffsky.diffndhist import tw_ndhist_weighted
-from diffstar.defaults import DEFAULT_DIFFSTAR_PARAMS, LGT0, T_TABLE_MIN
+from diffstar.defaults import DEFAULT_DIFFSTAR_PARAMS, LGT0, T_TABLE_MIN, FB
 from diffstar.sfh_model import calc_sfh_galpop
 from scipy.stats import binned_statistic
 from astropy.cosmology import Planck13
@@ -155,7 +155,7 @@ def load_diffstar_sfh_tables(
     __, log_mah_table = mah_halopop(mah_params, t_table, LGT0)
 
     sfh_table, smh_table = calc_sfh_galpop(
-        sfh_params, mah_params, t_table, lgt0=LGT0, return_smh=True
+        sfh_params, mah_params, t_table, lgt0=LGT0, fb=FB, return_smh=True
     )
     log_sfh_table = np.log10(sfh_table)
     log_smh_table = np.log10(smh_table)
-- 
2.43.0


From 909cd3221a0fc5cc753059eab896d94772634042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:47 +0000
Subject: [PATCH 16/21] fix: measurement scripts cleaned up through an unquoted
 shell glob

The pattern removed unrelated files of the output directory, and any directory
name with a space or another shell character left the temporary files behind.
---
 .../measure_smhm_galacticus_script_mpi_mgash.py             | 6 ++----
 .../measure_smhm_smdpl_script_mpi_mgash.py                  | 6 ++----
 .../measure_smhm_tng_script_mpi_mgash.py                    | 6 ++----
 3 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/scripts/diffstarpop_scripts/measure_smhm_galacticus_script_mpi_mgash.py b/scripts/diffstarpop_scripts/measure_smhm_galacticus_script_mpi_mgash.py
index a7daacf..70f9065 100644
--- a/scripts/diffstarpop_scripts/measure_smhm_galacticus_script_mpi_mgash.py
+++ b/scripts/diffstarpop_scripts/measure_smhm_galacticus_script_mpi_mgash.py
@@ -3,7 +3,6 @@
 import argparse
 import os
 from time import time
-import subprocess
 
 import h5py
 import numpy as np
@@ -227,6 +226,5 @@ if __name__ == "__main__":
             hdfout["age_targets"] = age_targets
 
         # clean up all temporary data
-        bnpat = os.path.join(outdrn, "_tmp_subvol_*")
-        command = "rm " + bnpat
-        subprocess.os.system(command)
+        for i in range(nranks):
+            os.remove(os.path.join(outdrn, TMP_OUTPATH.format(i)))
diff --git a/scripts/diffstarpop_scripts/measure_smhm_smdpl_script_mpi_mgash.py b/scripts/diffstarpop_scripts/measure_smhm_smdpl_script_mpi_mgash.py
index 35365d4..34f84ee 100644
--- a/scripts/diffstarpop_scripts/measure_smhm_smdpl_script_mpi_mgash.py
+++ b/scripts/diffstarpop_scripts/measure_smhm_smdpl_script_mpi_mgash.py
@@ -3,7 +3,6 @@
 import argparse
 import os
 from time import time
-import subprocess
 
 import h5py
 import numpy as np
@@ -286,6 +285,5 @@ if __name__ == "__main__":
         n_used = subvol_used.sum()
 
         # clean up all temporary data
-        bnpat = os.path.join(outdrn, "_tmp_subvol_*")
-        command = "rm " + bnpat
-        subprocess.os.system(command)
+        for i in subvols:
+            os.remove(os.path.join(outdrn, "_tmp_subvol_%d_smdpl_smhm.h5" % i))
diff --git a/scripts/diffstarpop_scripts/measure_smhm_tng_script_mpi_mgash.py b/scripts/diffstarpop_scripts/measure_smhm_tng_script_mpi_mgash.py
index fa0fde1..e4c4c42 100644
--- a/scripts/diffstarpop_scripts/measure_smhm_tng_script_mpi_mgash.py
+++ b/scripts/diffstarpop_scripts/measure_smhm_tng_script_mpi_mgash.py
@@ -3,7 +3,6 @@
 import argparse
 import os
 from time import time
-import subprocess
 
 import h5py
 import numpy as np
@@ -224,6 +223,5 @@ if __name__ == "__main__":
             hdfout["age_targets"] = age_targets
 
         # clean up all temporary data
-        bnpat = os.path.join(outdrn, "_tmp_subvol_*")
-        command = "rm " + bnpat
-        subprocess.os.system(command)
+        for i in range(nranks):
+            os.remove(os.path.join(outdrn, TMP_OUTPATH.format(i)))
-- 
2.43.0


From bc047618c32fbf0952d5564ddb8dcb47aedc4638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:47 +0000
Subject: [PATCH 17/21] fix: SMDPL measurement script failed when a subvolume
 had no data

Such a subvolume is skipped when it is measured, but rank 0 then tried to collect
its results, so the run ended without writing anything.
---
 .../measure_smhm_smdpl_script_mpi_mgash.py               | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/scripts/diffstarpop_scripts/measure_smhm_smdpl_script_mpi_mgash.py b/scripts/diffstarpop_scripts/measure_smhm_smdpl_script_mpi_mgash.py
index 34f84ee..0933974 100644
--- a/scripts/diffstarpop_scripts/measure_smhm_smdpl_script_mpi_mgash.py
+++ b/scripts/diffstarpop_scripts/measure_smhm_smdpl_script_mpi_mgash.py
@@ -174,7 +174,10 @@ if __name__ == "__main__":
             )
         except FileNotFoundError:
             print(f"...NO sumstat counts for subvolume {i}")
-            pass
+            # do not collect what an earlier run may have left for this subvolume
+            fnout = os.path.join(outdrn, "_tmp_subvol_%d_smdpl_smhm.h5" % i)
+            if os.path.isfile(fnout):
+                os.remove(fnout)
 
     comm.Barrier()
 
@@ -197,6 +200,8 @@ if __name__ == "__main__":
 
         for i in subvols:
             fnout = os.path.join(outdrn, "_tmp_subvol_%d_smdpl_smhm.h5" % i)
+            if not os.path.isfile(fnout):
+                continue
             with h5py.File(fnout, "r") as hdfout:
                 wcounts = wcounts + hdfout["wcounts_i"][:]
                 whist = whist + hdfout["whist_i"][:]
@@ -285,5 +290,5 @@ if __name__ == "__main__":
         n_used = subvol_used.sum()
 
         # clean up all temporary data
-        for i in subvols:
+        for i in np.flatnonzero(subvol_used):
             os.remove(os.path.join(outdrn, "_tmp_subvol_%d_smdpl_smhm.h5" % i))
-- 
2.43.0


From c338a0160d8fd7b0b4f6955cda043b65e66c0ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:58 +0000
Subject: [PATCH 18/21] fix: Galacticus diffmah script cleaned up through an
 unquoted shell glob

An output directory whose name has a space or another shell character left
the temporary files behind, and the pattern also removed files of the user
whose names only resemble the temporaries of this run.
---
 .../galacticus_diffmah_fitter_script.py               | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/scripts/galacticus_analysis/galacticus_diffmah_fitter_script.py b/scripts/galacticus_analysis/galacticus_diffmah_fitter_script.py
index a16d7ac..ecad36e 100644
--- a/scripts/galacticus_analysis/galacticus_diffmah_fitter_script.py
+++ b/scripts/galacticus_analysis/galacticus_diffmah_fitter_script.py
@@ -2,7 +2,6 @@
 
 import argparse
 import os
-import subprocess
 from time import time
 
 import numpy as np
@@ -125,14 +124,10 @@ if __name__ == "__main__":
             collector.append(fit_data)
         chunk_fit_results = np.concatenate(collector)
 
-        fit_data_bnames = [os.path.basename(fn) for fn in fit_data_fnames]
         outfn = os.path.join(outdir, outbn)
 
         cfh.write_collated_data(outfn, chunk_fit_results)
 
-        # clean up ASCII data for subvol_i
-        bn = fit_data_bnames[0]
-        bnpat = "_".join(bn.split("_")[:-1]) + "_*.dat"
-        fnpat = os.path.join(outdir, bnpat)
-        command = "rm " + fnpat
-        subprocess.os.system(command)
+        # clean up ASCII data written by each rank
+        for fit_fn in fit_data_fnames:
+            os.remove(fit_fn)
-- 
2.43.0


From 567eceff71f92b84f477261c85d4cadcd0c1c8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:49 +0000
Subject: [PATCH 19/21] fix: get_loss_data_smhm needed a trailing slash in the
 input directory

The other readers of the module join the directory and the file name.
---
 scripts/diffstarpop_scripts/fit_get_loss_helpers_mgash.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scripts/diffstarpop_scripts/fit_get_loss_helpers_mgash.py b/scripts/diffstarpop_scripts/fit_get_loss_helpers_mgash.py
index 8699aa9..3fb01bc 100644
--- a/scripts/diffstarpop_scripts/fit_get_loss_helpers_mgash.py
+++ b/scripts/diffstarpop_scripts/fit_get_loss_helpers_mgash.py
@@ -13,7 +13,8 @@ def get_loss_data_smhm(indir, nhalos, lgt0=LGT0, fb=FB):
     # Load SMHM data ---------------------------------------------
     print("Loading SMHM data...")
 
-    with h5py.File(indir + "smdpl_smhm.h5", "r") as hdf:
+    fname = os.path.join(indir, "smdpl_smhm.h5")
+    with h5py.File(fname, "r") as hdf:
         redshift_targets = hdf["redshift_targets"][:]
         # smhm_diff = hdf["smhm_diff"][:]
         smhm = hdf["smhm"][:]
@@ -32,7 +33,8 @@ def get_loss_data_smhm(indir, nhalos, lgt0=LGT0, fb=FB):
 
     logmh_binsc = 0.5 * (logmh_bins[1:] + logmh_bins[:-1])
 
-    with h5py.File(indir + "smdpl_smhm_samples_haloes.h5", "r") as hdf:
+    fname = os.path.join(indir, "smdpl_smhm_samples_haloes.h5")
+    with h5py.File(fname, "r") as hdf:
         logmh_id = hdf["logmh_id"][:]
         # logmh_val = hdf["logmh_id"][:]
         mah_params_samp = hdf["mah_params_samp"][:]
-- 
2.43.0


From b0bb2d4ec32d75814d8fbffffa139cec36de1759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:49 +0000
Subject: [PATCH 20/21] fix: population fit saved zeros when the first gradient
 was not finite

The starting parameters were put aside as the best ones, but what is saved is
read from params_arr, which had not been filled.
---
 scripts/diffstarpop_scripts/fit_mstar_ssfr_pdfs_mgash.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/diffstarpop_scripts/fit_mstar_ssfr_pdfs_mgash.py b/scripts/diffstarpop_scripts/fit_mstar_ssfr_pdfs_mgash.py
index ef0732f..17a2166 100644
--- a/scripts/diffstarpop_scripts/fit_mstar_ssfr_pdfs_mgash.py
+++ b/scripts/diffstarpop_scripts/fit_mstar_ssfr_pdfs_mgash.py
@@ -194,8 +194,8 @@ if __name__ == "__main__":
                 best_fit_params = params_arr[indx_best]
                 best_fit_loss = loss_arr[indx_best]
             else:
-                best_fit_params = np.copy(p)
-                best_fit_loss = 999.99
+                params_arr[istep, :] = p
+                loss_arr[istep] = 999.99
         else:
             params_arr[istep, :] = p
             loss_arr[istep] = loss
-- 
2.43.0


From a3112c1f5f8f1df5f520620d01afea503c0ed4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:06 +0000
Subject: [PATCH 21/21] fix: quality script treated a star formation rate of
 exactly 1 Msun/yr as missing

---
 .../calculate_quality_diffstar_fits_mgash.py  | 30 +++++++++----------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/scripts/diffstarpop_scripts/calculate_quality_diffstar_fits_mgash.py b/scripts/diffstarpop_scripts/calculate_quality_diffstar_fits_mgash.py
index c2df9cb..be1afa6 100644
--- a/scripts/diffstarpop_scripts/calculate_quality_diffstar_fits_mgash.py
+++ b/scripts/diffstarpop_scripts/calculate_quality_diffstar_fits_mgash.py
@@ -100,7 +100,7 @@ def calculate_plot_smdpl_nomerging(mpeak_bins):
 
         out = load_SMDPL_nomerging_data([subvol], binaries_drn)
         (halo_ids, log_smahs, sfrh, SMDPL_t, log_mahs, logmp0) = out
-        log_sfrh = np.where(sfrh > 0.0, np.log10(sfrh), 0.0)
+        log_sfrh = np.where(sfrh > 0.0, np.log10(sfrh), np.nan)
 
         _log_smahs_data = log_smahs[has_fit]
         _log_sfrh_data = log_sfrh[has_fit]
@@ -109,9 +109,9 @@ def calculate_plot_smdpl_nomerging(mpeak_bins):
         _log_sfrh_fits = jnp_interp_vmap(SMDPL_t, t_table, log_sfh_table)
 
         smahs_fits = np.where(_log_smahs_fits == 0.0, np.nan, 10**_log_smahs_fits)
-        sfrh_fits = np.where(_log_sfrh_fits == 0.0, np.nan, 10**_log_sfrh_fits)
+        sfrh_fits = 10**_log_sfrh_fits
         smahs_data = np.where(_log_smahs_data == 0.0, np.nan, 10**_log_smahs_data)
-        sfrh_data = np.where(_log_sfrh_data == 0.0, np.nan, 10**_log_sfrh_data)
+        sfrh_data = 10**_log_sfrh_data
 
         logmp0_data = logmp0[has_fit]
 
@@ -205,7 +205,7 @@ def calculate_plot_smdpl_dr1(mpeak_bins):
 
         out = load_SMDPL_DR1_data([subvol], binaries_drn)
         (halo_ids, log_smahs, sfrh, SMDPL_t, log_mahs, logmp0) = out
-        log_sfrh = np.where(sfrh > 0.0, np.log10(sfrh), 0.0)
+        log_sfrh = np.where(sfrh > 0.0, np.log10(sfrh), np.nan)
 
         _log_smahs_data = log_smahs[has_fit]
         _log_sfrh_data = log_sfrh[has_fit]
@@ -214,9 +214,9 @@ def calculate_plot_smdpl_dr1(mpeak_bins):
         _log_sfrh_fits = jnp_interp_vmap(SMDPL_t, t_table, log_sfh_table)
 
         smahs_fits = np.where(_log_smahs_fits == 0.0, np.nan, 10**_log_smahs_fits)
-        sfrh_fits = np.where(_log_sfrh_fits == 0.0, np.nan, 10**_log_sfrh_fits)
+        sfrh_fits = 10**_log_sfrh_fits
         smahs_data = np.where(_log_smahs_data == 0.0, np.nan, 10**_log_smahs_data)
-        sfrh_data = np.where(_log_sfrh_data == 0.0, np.nan, 10**_log_sfrh_data)
+        sfrh_data = 10**_log_sfrh_data
 
         logmp0_data = logmp0[has_fit]
 
@@ -266,7 +266,7 @@ def calculate_plot_tng(mpeak_bins):
     mpeak_binsc = 0.5 * (mpeak_bins[1:] + mpeak_bins[:-1])
     out = load_tng_data(binaries_drn)
     (halo_ids, log_smahs, sfrh, tng_t, log_mahs, logmp0) = out
-    log_sfrh = np.where(sfrh > 0.0, np.log10(sfrh), 0.0)
+    log_sfrh = np.where(sfrh > 0.0, np.log10(sfrh), np.nan)
     nt = len(tng_t)
     n_subvol_smdpl = 20
 
@@ -313,9 +313,9 @@ def calculate_plot_tng(mpeak_bins):
         _log_sfrh_fits = jnp_interp_vmap(tng_t, t_table, log_sfh_table)
 
         smahs_fits = np.where(_log_smahs_fits == 0.0, np.nan, 10**_log_smahs_fits)
-        sfrh_fits = np.where(_log_sfrh_fits == 0.0, np.nan, 10**_log_sfrh_fits)
+        sfrh_fits = 10**_log_sfrh_fits
         smahs_data = np.where(_log_smahs_data == 0.0, np.nan, 10**_log_smahs_data)
-        sfrh_data = np.where(_log_sfrh_data == 0.0, np.nan, 10**_log_sfrh_data)
+        sfrh_data = 10**_log_sfrh_data
 
         logmp0_data = logmp0[indx][has_fit]
 
@@ -379,7 +379,7 @@ def calculate_plot_galcus_insitu(mpeak_bins):
     logmp0 = log_mah_fit[:, -1]
 
     # (halo_ids, log_smahs, sfrh, tng_t, log_mahs, logmp0) = out
-    log_sfrh = np.where(sfrh > 0.0, np.log10(sfrh), 0.0)
+    log_sfrh = np.where(sfrh > 0.0, np.log10(sfrh), np.nan)
     nt = len(galcus_t)
 
     mstar_data_mean = np.zeros((len(mpeak_binsc), nt))
@@ -416,9 +416,9 @@ def calculate_plot_galcus_insitu(mpeak_bins):
     _log_sfrh_fits = jnp_interp_vmap(galcus_t, t_table, log_sfh_table)
 
     smahs_fits = np.where(_log_smahs_fits == 0.0, np.nan, 10**_log_smahs_fits)
-    sfrh_fits = np.where(_log_sfrh_fits == 0.0, np.nan, 10**_log_sfrh_fits)
+    sfrh_fits = 10**_log_sfrh_fits
     smahs_data = np.where(_log_smahs_data == 0.0, np.nan, 10**_log_smahs_data)
-    sfrh_data = np.where(_log_sfrh_data == 0.0, np.nan, 10**_log_sfrh_data)
+    sfrh_data = 10**_log_sfrh_data
 
     logmp0_data = logmp0[has_fit]
 
@@ -482,7 +482,7 @@ def calculate_plot_galcus_inplusexsitu(mpeak_bins):
     logmp0 = log_mah_fit[:, -1]
 
     # (halo_ids, log_smahs, sfrh, tng_t, log_mahs, logmp0) = out
-    log_sfrh = np.where(sfrh > 0.0, np.log10(sfrh), 0.0)
+    log_sfrh = np.where(sfrh > 0.0, np.log10(sfrh), np.nan)
     nt = len(galcus_t)
 
     mstar_data_mean = np.zeros((len(mpeak_binsc), nt))
@@ -519,9 +519,9 @@ def calculate_plot_galcus_inplusexsitu(mpeak_bins):
     _log_sfrh_fits = jnp_interp_vmap(galcus_t, t_table, log_sfh_table)
 
     smahs_fits = np.where(_log_smahs_fits == 0.0, np.nan, 10**_log_smahs_fits)
-    sfrh_fits = np.where(_log_sfrh_fits == 0.0, np.nan, 10**_log_sfrh_fits)
+    sfrh_fits = 10**_log_sfrh_fits
     smahs_data = np.where(_log_smahs_data == 0.0, np.nan, 10**_log_smahs_data)
-    sfrh_data = np.where(_log_sfrh_data == 0.0, np.nan, 10**_log_sfrh_data)
+    sfrh_data = 10**_log_sfrh_data
 
     logmp0_data = logmp0[has_fit]
 
-- 
2.43.0

