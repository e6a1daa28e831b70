From 02f586dba1b4f2f935258dab0176f744157ecbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:57 +0000
Subject: [PATCH 01/11] fix: keep early-population late_index parameters in the
 bimodal transforms

get_(un)bounded_late_index_params overwrote the alpha (early) values with
the beta (late) values before packing the output.
---
 diffmah/diffmahpop_kernels/late_index_bimod.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/diffmah/diffmahpop_kernels/late_index_bimod.py b/diffmah/diffmahpop_kernels/late_index_bimod.py
index cce4680..79856f4 100644
--- a/diffmah/diffmahpop_kernels/late_index_bimod.py
+++ b/diffmah/diffmahpop_kernels/late_index_bimod.py
@@ -35,12 +35,12 @@ def _pred_late_index_late(params, lgm_obs):
 
 @jjit
 def get_bounded_late_index_params(u_params):
-    late_u_params = [
+    early_u_params = [
         getattr(u_params, key)
         for key in late_index_alpha.DEFAULT_LATE_INDEX_U_PARAMS._fields
     ]
-    late_u_params = late_index_alpha.LateIndex_UParams(*late_u_params)
-    late_params = late_index_alpha.get_bounded_late_index_params(late_u_params)
+    early_u_params = late_index_alpha.LateIndex_UParams(*early_u_params)
+    early_params = late_index_alpha.get_bounded_late_index_params(early_u_params)
 
     late_u_params = [
         getattr(u_params, key)
@@ -49,24 +49,24 @@ def get_bounded_late_index_params(u_params):
     late_u_params = late_index_beta.LateIndex_UParams(*late_u_params)
     late_params = late_index_beta.get_bounded_late_index_params(late_u_params)
 
-    params = LateIndex_Params(*late_params, *late_params)
+    params = LateIndex_Params(*early_params, *late_params)
     return params
 
 
 @jjit
 def get_unbounded_late_index_params(params):
-    late_pnames = late_index_alpha.LateIndex_Params._fields
+    early_pnames = late_index_alpha.LateIndex_Params._fields
     late_pnames = late_index_beta.LateIndex_Params._fields
 
-    late_params = [getattr(params, key) for key in late_pnames]
-    late_params = late_index_alpha.LateIndex_Params(*late_params)
-    late_u_params = late_index_alpha.get_unbounded_late_index_params(late_params)
+    early_params = [getattr(params, key) for key in early_pnames]
+    early_params = late_index_alpha.LateIndex_Params(*early_params)
+    early_u_params = late_index_alpha.get_unbounded_late_index_params(early_params)
 
     late_params = [getattr(params, key) for key in late_pnames]
     late_params = late_index_beta.LateIndex_Params(*late_params)
     late_u_params = late_index_beta.get_unbounded_late_index_params(late_params)
 
-    u_params = LateIndex_UParams(*late_u_params, *late_u_params)
+    u_params = LateIndex_UParams(*early_u_params, *late_u_params)
     return u_params
 
 
-- 
2.43.0


From 28ae1ab70da5d3d5a1e032a3c0a3ad1ac2ce1bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:57 +0000
Subject: [PATCH 02/11] fix: load_flat_hdf5 column names for nested datasets

Splitting on the first slash returned the name of an inner group, so all
columns of a dataset such as 'a/b' collapsed onto a single key.
---
 diffmah/data_loaders/io_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diffmah/data_loaders/io_utils.py b/diffmah/data_loaders/io_utils.py
index 154a34d..2beb09b 100644
--- a/diffmah/data_loaders/io_utils.py
+++ b/diffmah/data_loaders/io_utils.py
@@ -58,7 +58,7 @@ def load_flat_hdf5(fn, istart=0, iend=None, keys=None, dataset=None):
             if dataset is None:
                 key_out = key_in
             else:
-                key_out = key_in.split("/")[1]
+                key_out = key_in[len(dataset) + 1 :]
 
             if iend is None:
                 data[key_out] = hdf[key_in][istart:]
-- 
2.43.0


From d4af857f65078fe831387796031767c036954d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:27 +0000
Subject: [PATCH 03/11] fix: snapshots at or below lgm_min no longer enter the
 fit

Clipping to EPSILON + 10**lgm_min left clipped points strictly above the
lgm_min cut for lgm_min below about 9, so they were used as target data.
---
 diffmah/fitting_helpers/diffmah_fitter_helpers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/diffmah/fitting_helpers/diffmah_fitter_helpers.py b/diffmah/fitting_helpers/diffmah_fitter_helpers.py
index 8134b52..91eeeab 100644
--- a/diffmah/fitting_helpers/diffmah_fitter_helpers.py
+++ b/diffmah/fitting_helpers/diffmah_fitter_helpers.py
@@ -241,6 +241,8 @@ def _get_clipped_log_mah(mah, lgm_min):
     msk = mah <= 10**lgm_min
     clip = EPSILON + 10**lgm_min
     clipped_log_mah = np.log10(np.where(msk, clip, mah))
+    if np.isfinite(lgm_min):
+        clipped_log_mah = np.where(msk, lgm_min, clipped_log_mah)
     return clipped_log_mah
 
 
-- 
2.43.0


From f244e33aa02cbe749764bce685390107f0e5c112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:38 +0000
Subject: [PATCH 04/11] fix: draw t_peak and the early-type MAH scatter from
 different PRNG keys

The key used for t_peak was jran.split(ran_key, 2)[0], which is the same
key used for the early-type multivariate normal, so the two draws were
perfectly correlated instead of independent.
---
 diffmah/diffmahpop_kernels/mc_bimod_cens.py | 6 +++---
 diffmah/diffmahpop_kernels/mc_bimod_sats.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/diffmah/diffmahpop_kernels/mc_bimod_cens.py b/diffmah/diffmahpop_kernels/mc_bimod_cens.py
index eae8bc4..7d24b68 100644
--- a/diffmah/diffmahpop_kernels/mc_bimod_cens.py
+++ b/diffmah/diffmahpop_kernels/mc_bimod_cens.py
@@ -185,11 +185,12 @@ def _mean_diffmah_params_late_t_peak(
 def mc_diffmah_params_singlecen(
     diffmahpop_params, lgm_obs, t_obs, ran_key, lgt0, t_peak=None
 ):
+    early_key, late_key, mean_key = jran.split(ran_key, 3)
     if t_peak is None:
-        _res = _mean_diffmah_params(diffmahpop_params, lgm_obs, t_obs, ran_key, lgt0)
+        _res = _mean_diffmah_params(diffmahpop_params, lgm_obs, t_obs, mean_key, lgt0)
     else:
         _res = _mean_diffmah_params_t_peak(
-            diffmahpop_params, lgm_obs, t_obs, t_peak, ran_key
+            diffmahpop_params, lgm_obs, t_obs, t_peak, mean_key
         )
 
     mean_mah_params_early, mean_mah_params_late, frac_early_cens = _res
@@ -199,7 +200,6 @@ def mc_diffmah_params_singlecen(
 
     cov = _get_diffmahpop_cov(diffmahpop_params, lgm_obs)
 
-    early_key, late_key = jran.split(ran_key, 2)
     ran_diffmah_u_params_tp_early = jran.multivariate_normal(
         early_key, jnp.array(mean_mah_u_params_early)[:-1], cov, shape=()
     )
diff --git a/diffmah/diffmahpop_kernels/mc_bimod_sats.py b/diffmah/diffmahpop_kernels/mc_bimod_sats.py
index d785a60..d3b279d 100644
--- a/diffmah/diffmahpop_kernels/mc_bimod_sats.py
+++ b/diffmah/diffmahpop_kernels/mc_bimod_sats.py
@@ -185,11 +185,12 @@ def _mean_diffmah_params_late_t_peak(
 def mc_diffmah_params_singlesat(
     diffmahpop_params, lgm_obs, t_obs, ran_key, lgt0, t_peak=None
 ):
+    early_key, late_key, mean_key = jran.split(ran_key, 3)
     if t_peak is None:
-        _res = _mean_diffmah_params(diffmahpop_params, lgm_obs, t_obs, ran_key, lgt0)
+        _res = _mean_diffmah_params(diffmahpop_params, lgm_obs, t_obs, mean_key, lgt0)
     else:
         _res = _mean_diffmah_params_t_peak(
-            diffmahpop_params, lgm_obs, t_obs, t_peak, ran_key
+            diffmahpop_params, lgm_obs, t_obs, t_peak, mean_key
         )
 
     mean_mah_params_early, mean_mah_params_late, frac_early_cens = _res
@@ -199,7 +200,6 @@ def mc_diffmah_params_singlesat(
 
     cov = _get_diffmahpop_cov(diffmahpop_params, lgm_obs)
 
-    early_key, late_key = jran.split(ran_key, 2)
     ran_diffmah_u_params_tp_early = jran.multivariate_normal(
         early_key, jnp.array(mean_mah_u_params_early)[:-1], cov, shape=()
     )
-- 
2.43.0


From f4bb8291c97fad0343a5b1b8832ca5e7c8d97e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:38 +0000
Subject: [PATCH 05/11] fix: fit_terminates and params_arr of jax_adam_wrapper
 after an early stop

A fit stopped by tol, or by a warmup loss at or below tol, contained no NaN
or inf but was flagged fit_terminates=0 because its loss history is shorter
than n_step, and params_arr kept unused rows of zeros.
---
 diffmah/fitting_helpers/fit_utils.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/diffmah/fitting_helpers/fit_utils.py b/diffmah/fitting_helpers/fit_utils.py
index 3715794..4efaac1 100644
--- a/diffmah/fitting_helpers/fit_utils.py
+++ b/diffmah/fitting_helpers/fit_utils.py
@@ -98,11 +98,7 @@ def jax_adam_wrapper(
             loss_and_grad_func, p0, loss_data, n_step, step_size=step_size, tol=tol
         )
 
-    if len(fit_results[2]) < n_step:
-        fit_terminates = 0
-    else:
-        fit_terminates = 1
-    return (*fit_results, fit_terminates)
+    return fit_results
 
 
 def _jax_adam_wrapper(
@@ -148,6 +144,10 @@ def _jax_adam_wrapper(
     params_arr : ndarray of shape (n_step, n_params)
         Stores the value of the model params at each step
 
+    fit_terminates : int
+        0 if NaN or inf is encountered by the fitter, causing termination before n_step
+        1 for a fit that terminates with no such problems
+
     """
     loss_collector = []
     opt_init, opt_update, get_params = jax_opt.adam(step_size)
@@ -178,6 +178,7 @@ def _jax_adam_wrapper(
                 best_fit_loss,
                 np.array(loss_collector[:istep]),
                 params_arr[:istep, :],
+                0,
             )
         else:
             params_arr[istep, :] = p
@@ -185,11 +186,11 @@ def _jax_adam_wrapper(
             if loss < tol:
                 best_fit_params = p
                 loss_arr = np.array(loss_collector)
-                return best_fit_params, loss, loss_arr, params_arr
+                return best_fit_params, loss, loss_arr, params_arr[: istep + 1, :], 1
 
     loss_arr = np.array(loss_collector)
     indx_best = np.nanargmin(loss_arr)
     best_fit_params = params_arr[indx_best]
     loss = loss_arr[indx_best]
 
-    return best_fit_params, loss, loss_arr, params_arr
+    return best_fit_params, loss, loss_arr, params_arr, 1
-- 
2.43.0


From bb3d3114c3de4a73855deaa831e2319043a434c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:38 +0000
Subject: [PATCH 06/11] fix: _attach_samples calls mah_halopop with its current
 signature

t_peak is a field of the MAH parameters, so the four-field parameters and
the extra positional argument raised TypeError for every input.
---
 diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py b/diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py
index 3f9677d..e9be4e0 100644
--- a/diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py
+++ b/diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py
@@ -170,6 +170,7 @@ def _attach_samples(
         "logtc_samples",
         "early_index_samples",
         "late_index_samples",
+        "t_peak_samples",
     )
 
     n_times = cendata["t_table"].shape[1]
@@ -180,9 +181,8 @@ def _attach_samples(
             [cendata[key][ih, :] for key in mah_keys]
         )
         t_table_sample = cendata["t_table"][ih, :]
-        t_peak_cens = cendata["t_peak_samples"][ih]
         __, log_mah_cens = mah_halopop(
-            mah_params_cens, t_table_sample, t_peak_cens, np.log10(13.79)
+            mah_params_cens, t_table_sample, np.log10(13.79)
         )
         log_mah_cens_rescaled = rescale_target_log_mahs(
             log_mah_cens, cendata["lgm_obs"][ih]
@@ -197,9 +197,8 @@ def _attach_samples(
             [satdata[key][ih, :] for key in mah_keys]
         )
         t_table_sample = satdata["t_table"][ih, :]
-        t_peak_sats = satdata["t_peak_samples"][ih]
         __, log_mah_sats = mah_halopop(
-            mah_params_sats, t_table_sample, t_peak_sats, np.log10(13.79)
+            mah_params_sats, t_table_sample, np.log10(13.79)
         )
         log_mah_sats_rescaled = rescale_target_log_mahs(
             log_mah_sats, satdata["lgm_obs"][ih]
-- 
2.43.0


From bd5aae06ca4628e971dacf4358d69295deb1f1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:38 +0000
Subject: [PATCH 07/11] fix: load_diffmahpop_targets counts samples in the
 requested directory

_add_n_sample_column ignored drn and always read the hard-coded default.
---
 diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py b/diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py
index e9be4e0..8694f01 100644
--- a/diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py
+++ b/diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py
@@ -30,7 +30,7 @@ def load_diffmahpop_targets(
 ):
     """Load target mean and variance along with subset of underlying MAH samples"""
     cendata, satdata = _load_diffmahpop_mu_var_targets(drn=drn)
-    cendata, satdata = _add_n_sample_column(cendata, satdata)
+    cendata, satdata = _add_n_sample_column(drn, cendata, satdata)
     cendata, satdata = _attach_samples(
         drn,
         cendata,
@@ -70,7 +70,7 @@ def _load_diffmahpop_mu_var_targets(drn):
     return cendata, satdata
 
 
-def _add_n_sample_column(cendata, satdata):
+def _add_n_sample_column(drn, cendata, satdata):
 
     n_cens = len(cendata["lgm_obs"])
     n_sats = len(satdata["lgm_obs"])
@@ -80,14 +80,14 @@ def _add_n_sample_column(cendata, satdata):
 
     for ih in range(n_cens):
         fn = os.path.join(
-            TASSO_DRN, PAT_CENS.format(cendata["lgm_obs"][ih], cendata["t_obs"][ih])
+            drn, PAT_CENS.format(cendata["lgm_obs"][ih], cendata["t_obs"][ih])
         )
         all_samples_cens = np.load(fn)
         cendata["n_samples"][ih] = all_samples_cens.shape[0]
 
     for ih in range(n_sats):
         fn = os.path.join(
-            TASSO_DRN, PAT_SATS.format(satdata["lgm_obs"][ih], satdata["t_obs"][ih])
+            drn, PAT_SATS.format(satdata["lgm_obs"][ih], satdata["t_obs"][ih])
         )
         all_samples_sats = np.load(fn)
         satdata["n_samples"][ih] = all_samples_sats.shape[0]
-- 
2.43.0


From 072e54641ca9b1742a4d49bee8de52588191fc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:22 +0000
Subject: [PATCH 08/11] fix: trimmed statistics keep values lying on the trim
 percentiles

Strict comparisons dropped the minimum and maximum at p_trim=0 and gave NaN
for samples with ties at the percentiles.
---
 diffmah/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diffmah/utils.py b/diffmah/utils.py
index 3b48e94..7d3a452 100644
--- a/diffmah/utils.py
+++ b/diffmah/utils.py
@@ -157,7 +157,7 @@ def trimmed_mean(x, p_trim):
     """
     xlo = jnp.percentile(x, p_trim * 100.0)
     xhi = jnp.percentile(x, (1.0 - p_trim) * 100.0)
-    xmsk = (x > xlo) & (x < xhi)
+    xmsk = (x >= xlo) & (x <= xhi)
     _weights = jnp.where(xmsk, 1.0, 0.0)
     weights = _weights / _weights.sum()
     trimmed_mean = jnp.sum(x * weights)
@@ -185,7 +185,7 @@ def trimmed_mean_and_variance(x, p_trim):
     """
     xlo = jnp.percentile(x, p_trim * 100.0)
     xhi = jnp.percentile(x, (1.0 - p_trim) * 100.0)
-    xmsk = (x > xlo) & (x < xhi)
+    xmsk = (x >= xlo) & (x <= xhi)
     _weights = jnp.where(xmsk, 1.0, 0.0)
     weights = _weights / _weights.sum()
 
-- 
2.43.0


From 46067ced47abd420d94c15489918a0417d370058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:57 +0000
Subject: [PATCH 09/11] fix: cumulative distribution of central peak times
 reaches one (it was divided by t_0)

---
 diffmah/diffmahpop_kernels/t_peak_kernels/tp_pdf_cens.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diffmah/diffmahpop_kernels/t_peak_kernels/tp_pdf_cens.py b/diffmah/diffmahpop_kernels/t_peak_kernels/tp_pdf_cens.py
index ef4dcb8..e1d7b09 100644
--- a/diffmah/diffmahpop_kernels/t_peak_kernels/tp_pdf_cens.py
+++ b/diffmah/diffmahpop_kernels/t_peak_kernels/tp_pdf_cens.py
@@ -125,8 +125,8 @@ def _t_peak_cens_pdf_kern(params, t_peak, t_0):
 @jjit
 def _t_peak_cens_cdf_kern(params, t_peak, t_0):
     loc, scale = params
-    pdf_pred = tpk._tp_cdf_kern(t_peak / t_0, (loc, scale)) / t_0
-    return pdf_pred
+    cdf_pred = tpk._tp_cdf_kern(t_peak / t_0, (loc, scale))
+    return cdf_pred
 
 
 @jjit
-- 
2.43.0


From f6f1eadb26223174c8bdab8b6f520022cf1f982f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:28 +0000
Subject: [PATCH 10/11] fix: fit_global_c?_model accepts the arrays the
 minimisers pass

---
 diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_early.py | 1 +
 diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_late.py  | 1 +
 diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_early.py | 1 +
 diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_late.py  | 1 +
 diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_early.py    | 1 +
 diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_late.py     | 1 +
 diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_early.py    | 1 +
 diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_late.py     | 1 +
 8 files changed, 8 insertions(+)

diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_early.py b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_early.py
index a991c32..343b3ee 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_early.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_early.py
@@ -68,6 +68,7 @@ def _loss_kern_scalar(params, loss_data):
 
 @jjit
 def global_loss_kern(params, global_loss_data):
+    params = LGM0Pop_C0_Params(*params)
     loss = 0.0
     for loss_data in global_loss_data:
         loss = loss + _loss_kern_scalar(params, loss_data)
diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_late.py b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_late.py
index d7404f5..2e4ec08 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_late.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_late.py
@@ -68,6 +68,7 @@ def _loss_kern_scalar(params, loss_data):
 
 @jjit
 def global_loss_kern(params, global_loss_data):
+    params = LGM0Pop_C0_Params(*params)
     loss = 0.0
     for loss_data in global_loss_data:
         loss = loss + _loss_kern_scalar(params, loss_data)
diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_early.py b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_early.py
index 25dfdc0..db0ddce 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_early.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_early.py
@@ -79,6 +79,7 @@ def _loss_kern_scalar(params, loss_data):
 
 @jjit
 def global_loss_kern(params, global_loss_data):
+    params = LGM0Pop_C1_Params(*params)
     loss = 0.0
     for loss_data in global_loss_data:
         loss = loss + _loss_kern_scalar(params, loss_data)
diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_late.py b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_late.py
index 255bdeb..33af708 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_late.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_late.py
@@ -79,6 +79,7 @@ def _loss_kern_scalar(params, loss_data):
 
 @jjit
 def global_loss_kern(params, global_loss_data):
+    params = LGM0Pop_C1_Params(*params)
     loss = 0.0
     for loss_data in global_loss_data:
         loss = loss + _loss_kern_scalar(params, loss_data)
diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_early.py b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_early.py
index 05585e5..ba673a7 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_early.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_early.py
@@ -71,6 +71,7 @@ def _loss_kern_scalar(params, loss_data):
 
 @jjit
 def global_loss_kern(params, global_loss_data):
+    params = LGM0Pop_C0_Params(*params)
     loss = 0.0
     for loss_data in global_loss_data:
         loss = loss + _loss_kern_scalar(params, loss_data)
diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_late.py b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_late.py
index e097053..8f1e9a0 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_late.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_late.py
@@ -71,6 +71,7 @@ def _loss_kern_scalar(params, loss_data):
 
 @jjit
 def global_loss_kern(params, global_loss_data):
+    params = LGM0Pop_C0_Params(*params)
     loss = 0.0
     for loss_data in global_loss_data:
         loss = loss + _loss_kern_scalar(params, loss_data)
diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_early.py b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_early.py
index 42891bd..cdfad89 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_early.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_early.py
@@ -79,6 +79,7 @@ def _loss_kern_scalar(params, loss_data):
 
 @jjit
 def global_loss_kern(params, global_loss_data):
+    params = LGM0Pop_C1_Params(*params)
     loss = 0.0
     for loss_data in global_loss_data:
         loss = loss + _loss_kern_scalar(params, loss_data)
diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_late.py b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_late.py
index 17f8936..8f11347 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_late.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_late.py
@@ -79,6 +79,7 @@ def _loss_kern_scalar(params, loss_data):
 
 @jjit
 def global_loss_kern(params, global_loss_data):
+    params = LGM0Pop_C1_Params(*params)
     loss = 0.0
     for loss_data in global_loss_data:
         loss = loss + _loss_kern_scalar(params, loss_data)
-- 
2.43.0


From 88c7809d0730b34653d2ef3b30949c5556db2ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:15 +0000
Subject: [PATCH 11/11] fix: trimmed mean and variance are NaN when rounding of
 the interpolated percentile excludes tied values

---
 diffmah/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/diffmah/utils.py b/diffmah/utils.py
index 7d3a452..95dc15c 100644
--- a/diffmah/utils.py
+++ b/diffmah/utils.py
@@ -155,8 +155,8 @@ def trimmed_mean(x, p_trim):
     mu : float
 
     """
-    xlo = jnp.percentile(x, p_trim * 100.0)
-    xhi = jnp.percentile(x, (1.0 - p_trim) * 100.0)
+    xlo = jnp.percentile(x, p_trim * 100.0, method="higher")
+    xhi = jnp.percentile(x, (1.0 - p_trim) * 100.0, method="lower")
     xmsk = (x >= xlo) & (x <= xhi)
     _weights = jnp.where(xmsk, 1.0, 0.0)
     weights = _weights / _weights.sum()
@@ -183,8 +183,8 @@ def trimmed_mean_and_variance(x, p_trim):
     var : float
 
     """
-    xlo = jnp.percentile(x, p_trim * 100.0)
-    xhi = jnp.percentile(x, (1.0 - p_trim) * 100.0)
+    xlo = jnp.percentile(x, p_trim * 100.0, method="higher")
+    xhi = jnp.percentile(x, (1.0 - p_trim) * 100.0, method="lower")
     xmsk = (x >= xlo) & (x <= xhi)
     _weights = jnp.where(xmsk, 1.0, 0.0)
     weights = _weights / _weights.sum()
-- 
2.43.0

