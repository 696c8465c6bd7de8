From 5f8a715d7888272f2ff9c565dbffae85d3e1d180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:38 +0000
Subject: [PATCH 01/43] fix: set_q_n processes chunks in order, each column
 exactly once

---
 emc2/simulator/subcolumn.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/emc2/simulator/subcolumn.py b/emc2/simulator/subcolumn.py
index 303666c..f018ebc 100644
--- a/emc2/simulator/subcolumn.py
+++ b/emc2/simulator/subcolumn.py
@@ -543,16 +543,16 @@ def set_q_n(model, hyd_type, is_conv=True, qc_flag=False, inv_rel_var=None, use_
                     my_tuple = tt_bag.map(_distribute_cl_q_n_sub_cols).compute()
                 else:
                     my_tuple = []
-                    j = t_dim - 1
-                    while j >= 0:
-                        if j + chunk > t_dim:
+                    j = 0
+                    while j < t_dim:
+                        if j + chunk >= t_dim:
                             ind_max = t_dim
                         else:
                             ind_max = j + chunk
                         print("Stage 1 of 2: Processing columns %d-%d out of %d" % (j, ind_max, t_dim))
                         tt_bag = db.from_sequence(np.arange(j, ind_max, 1))
                         my_tuple += tt_bag.map(_distribute_cl_q_n_sub_cols).compute()
-                        j -= chunk
+                        j += chunk
             else:
                 my_tuple = [x for x in map(_distribute_cl_q_n_sub_cols, np.arange(0, t_dim, 1))]
 
-- 
2.43.0


From 0ee4a7489a0db5b08d38d0d69457167c6b025b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:38 +0000
Subject: [PATCH 02/43] fix: precipitation allocation task no longer consumes
 its caller's array

---
 emc2/simulator/subcolumn.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/emc2/simulator/subcolumn.py b/emc2/simulator/subcolumn.py
index f018ebc..da6d58b 100644
--- a/emc2/simulator/subcolumn.py
+++ b/emc2/simulator/subcolumn.py
@@ -687,6 +687,7 @@ def _allocate_precip_sub_col(tt, cond, N_columns, data_frac, PF_val,
                              precip_exist, full_overcast_pl_pi, overlapping_cloud):
     p_strat_profs = np.zeros(
         (N_columns, data_frac[0].shape[1], len(data_frac)), dtype=bool)
+    PF_val = PF_val.copy()  # updated below; keep the caller's array intact (tasks may be re-executed)
 
     for j in range(data_frac[0].shape[1] - 2, -1, -1):  # loop from 2nd penultimate height to sfc
         all_overlap = True
-- 
2.43.0


From e65d572e05806c631200aa79d5a9adcf248b3aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:38 +0000
Subject: [PATCH 03/43] fix: qc distribution no longer loops forever in cloudy
 cells without condensate

---
 emc2/simulator/subcolumn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/simulator/subcolumn.py b/emc2/simulator/subcolumn.py
index da6d58b..1818caa 100644
--- a/emc2/simulator/subcolumn.py
+++ b/emc2/simulator/subcolumn.py
@@ -757,7 +757,7 @@ def _distribute_cl_q_n(tt, sub_data_frac, inv_rel_var, N_columns, tot_hyd_in_sub
         hyd_in_sub_loc = np.where(sub_data_frac[:, tt, j])[0]
         if tot_hyd_in_sub[tt, j] == 1:
             q_profs[hyd_in_sub_loc, j] = q_ic_mean[tt, j]
-        elif tot_hyd_in_sub[tt, j] > 1:
+        elif tot_hyd_in_sub[tt, j] > 1 and q_ic_mean[tt, j] > 0:
             alpha = inv_rel_var[tt, j] / q_ic_mean[tt, j]
             a = inv_rel_var[tt, j]
             b = 1 / alpha
-- 
2.43.0


From 4bf0dad2ed57a29488b47d669a16d97908f5a922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:38 +0000
Subject: [PATCH 04/43] fix: stratiform allocation keeps the overlying
 subcolumns of a class whose partner is absent

---
 emc2/simulator/subcolumn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/simulator/subcolumn.py b/emc2/simulator/subcolumn.py
index 1818caa..4061061 100644
--- a/emc2/simulator/subcolumn.py
+++ b/emc2/simulator/subcolumn.py
@@ -631,8 +631,8 @@ def _allocate_strat_sub_col(tt, cld_2_assigns, I_min, I_max, conv_profs,
                     rand_locs = _randperm(overlying_num.min(), size=cld_2_assign[I_min])
                     inds = locals()["overlying_locs%d" % (Iover_min + 1)][rand_locs]
                     strat_profs[I_min, inds, j] = True
-                    inds = locals()["overlying_locs%d" % (Iover_min + 1)]
-                    strat_profs[I_max, inds, j] = True
+                inds = locals()["overlying_locs%d" % (Iover_min + 1)]
+                strat_profs[I_max, inds, j] = True
                 cld_2_assign[I_min] = 0
                 cld_2_assign[I_max] -= overlying_num[Iover_min]
 
-- 
2.43.0


From b838e49f5409c4fb3b7d3b89f026f42a530944e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:38 +0000
Subject: [PATCH 05/43] fix: convective precipitation uses the model's own
 precipitation classes

---
 emc2/simulator/main.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emc2/simulator/main.py b/emc2/simulator/main.py
index 32f7e3b..473e101 100644
--- a/emc2/simulator/main.py
+++ b/emc2/simulator/main.py
@@ -144,7 +144,8 @@ def make_simulated_data(model, instrument, N_columns, do_classify=False, unstack
                 precip_types=precip_types)
         if model.process_conv:
             model = set_precip_sub_col_frac(
-                model, is_conv=True, use_rad_logic=use_rad_logic, parallel=parallel, chunk=chunk)
+                model, is_conv=True, use_rad_logic=use_rad_logic, parallel=parallel, chunk=chunk,
+                precip_types=precip_types)
         for hyd_type in hydrometeor_classes:
             if hyd_type != 'cl':
                 model = set_q_n(
-- 
2.43.0


From 5b975784a710a6b3c9d06193589a3efc12880dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:38 +0000
Subject: [PATCH 06/43] fix: make_simulated_data honours the ref_rng keyword

---
 emc2/simulator/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/simulator/main.py b/emc2/simulator/main.py
index 473e101..06a01b4 100644
--- a/emc2/simulator/main.py
+++ b/emc2/simulator/main.py
@@ -172,7 +172,7 @@ def make_simulated_data(model, instrument, N_columns, do_classify=False, unstack
         # Radar Simulator
         if instrument.instrument_class.lower() == "radar":
             print("Generating radar moments...")
-            if 'reg_rng' in kwargs.keys():
+            if 'ref_rng' in kwargs.keys():
                 ref_rng = kwargs['ref_rng']
                 del kwargs['ref_rng']
             else:
-- 
2.43.0


From 3ef8deee0a0072431c01baa25a5c99854ef42ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:38 +0000
Subject: [PATCH 07/43] fix: calc_lidar_micro totals do not accumulate onto a
 previous run's totals

---
 emc2/simulator/lidar_moments.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index fb06db6..67fcf91 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -579,18 +579,14 @@ def calc_lidar_micro(instrument, model, z_values, OD_from_sfc=True,
         raise ValueError(f"Unknown radiation scheme family: {model.rad_scheme_family}")
 
     Dims = model.ds["strat_q_subcolumns_cl"].values.shape
+    for key in ["beta_p", "alpha_p", "OD"]:  # always start from 0 so that re-processing does not accumulate
+        model.ds["sub_col_%s_tot_strat" % key] = xr.DataArray(
+            np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
     for hyd_type in hyd_types:
         frac_names = "strat_frac_subcolumns_%s" % hyd_type
         n_names = "strat_n_subcolumns_%s" % hyd_type
         print(f"Generating strat lidar variables for hyd class {hyd_type} "
               f"({model.rad_scheme_family} rad; {model.mcphys_scheme} mcphys; Mie={int(mie_for_ice)})")
-        if not np.isin("sub_col_beta_p_tot_strat", [x for x in model.ds.keys()]):
-            model.ds["sub_col_beta_p_tot_strat"] = xr.DataArray(
-                np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
-            model.ds["sub_col_alpha_p_tot_strat"] = xr.DataArray(
-                np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
-            model.ds["sub_col_OD_tot_strat"] = xr.DataArray(
-                np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
         model.ds["sub_col_beta_p_%s_strat" % hyd_type] = xr.DataArray(
             np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
         model.ds["sub_col_alpha_p_%s_strat" % hyd_type] = xr.DataArray(
-- 
2.43.0


From 867e2f1f9c41e4d109f5589501d5a5a1408dd839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:38 +0000
Subject: [PATCH 08/43] fix: calc_radar_micro totals do not accumulate onto a
 previous run's totals

---
 emc2/simulator/radar_moments.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index 9cce000..f63dfef 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -539,19 +539,15 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
     moment_denom_tot = np.zeros(Dims)
     V_d_numer_tot = np.zeros(Dims)
     sigma_d_numer_tot = np.zeros(Dims)
+    for key in ["Ze", "Vd", "sigma_d"]:  # always start from 0 so that re-processing does not accumulate
+        model.ds["sub_col_%s_tot_strat" % key] = xr.DataArray(
+            np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
 
     for hyd_type in hyd_types:
         print(f"Generating strat radar moemnts for hyd class {hyd_type} "
               f"({model.rad_scheme_family} rad; {model.mcphys_scheme} mcphys; Mie={int(mie_for_ice)})")
         frac_names = "strat_frac_subcolumns_%s" % hyd_type
         n_names = "strat_n_subcolumns_%s" % hyd_type
-        if not np.isin("sub_col_Ze_tot_strat", [x for x in model.ds.keys()]):
-            model.ds["sub_col_Ze_tot_strat"] = xr.DataArray(
-                np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
-            model.ds["sub_col_Vd_tot_strat"] = xr.DataArray(
-                np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
-            model.ds["sub_col_sigma_d_tot_strat"] = xr.DataArray(
-                np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
 
         model.ds["sub_col_Ze_%s_strat" % hyd_type] = xr.DataArray(
             np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
-- 
2.43.0


From c0b82f92d96364ea479d7ed563c326414221ada9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:38 +0000
Subject: [PATCH 09/43] fix: P3 microphysics moments can be calculated more
 than once for a model and instrument

---
 emc2/simulator/lidar_moments.py | 12 ++++++------
 emc2/simulator/radar_moments.py | 14 +++++++-------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index 67fcf91..e37565f 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -631,12 +631,12 @@ def calc_lidar_micro(instrument, model, z_values, OD_from_sfc=True,
                          instrument.scat_table['p3_ice']["rho_r"].values,
                          instrument.scat_table['p3_ice']["p_diam"].values),
                         instrument.scat_table['p3_ice'][lut_key].values, bounds_error=False)
-                i_calc_kws = {"beta_p": model.interpobj["single"][instrument.instrument_str]["beta_p"],
-                              "alpha_p": model.interpobj["single"][instrument.instrument_str]["alpha_p"],
-                              "Fr_in": model.ds["Fr"].values,
-                              "rho_r_in": model.ds["rho_r"].values,
-                              "mie_for_ice": mie_for_ice,
-                             }  # allocate only once
+            i_calc_kws = {"beta_p": model.interpobj["single"][instrument.instrument_str]["beta_p"],
+                          "alpha_p": model.interpobj["single"][instrument.instrument_str]["alpha_p"],
+                          "Fr_in": model.ds["Fr"].values,
+                          "rho_r_in": model.ds["rho_r"].values,
+                          "mie_for_ice": mie_for_ice,
+                         }  # allocate only once
             calc_kws = i_calc_kws
         else:
             calc_kws = None
diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index f63dfef..6d7f74b 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -607,13 +607,13 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
                          instrument.scat_table['p3_ice']["rho_r"].values,
                          instrument.scat_table['p3_ice']["p_diam"].values),
                         instrument.scat_table['p3_ice'][lut_key].values, bounds_error=False)
-                i_calc_kws = {"vt": model.interpobj["single"]["vt"],
-                              "beta_p": model.interpobj["single"][instrument.instrument_str]["beta_p"],
-                              "alpha_p": model.interpobj["single"][instrument.instrument_str]["alpha_p"],
-                              "Fr_in": model.ds["Fr"].values,
-                              "rho_r_in": model.ds["rho_r"].values,
-                              "mie_for_ice": mie_for_ice,
-                             }  # allocate only once
+            i_calc_kws = {"vt": model.interpobj["single"]["vt"],
+                          "beta_p": model.interpobj["single"][instrument.instrument_str]["beta_p"],
+                          "alpha_p": model.interpobj["single"][instrument.instrument_str]["alpha_p"],
+                          "Fr_in": model.ds["Fr"].values,
+                          "rho_r_in": model.ds["rho_r"].values,
+                          "mie_for_ice": mie_for_ice,
+                         }  # allocate only once
             v_tmp = None
             calc_kws = i_calc_kws
         else:
-- 
2.43.0


From f1406bf243d6de5ae2e1f16e708677b630f31f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:38 +0000
Subject: [PATCH 10/43] fix: radar moments for the nssl scheme no longer use an
 unbound variable

---
 emc2/simulator/radar_moments.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index 6d7f74b..48cd090 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -565,6 +565,7 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
 
         beta_pv = None
         kdp_factor = None
+        calc_kws = None
 
         if np.isin(hyd_type, optional_ice_classes):
             if mie_for_ice:
@@ -753,6 +754,7 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
                 p_diam = instrument.mie_table[hyd_type]["p_diam"].values
                 beta_p = instrument.mie_table[hyd_type]["beta_p"].values
                 alpha_p = instrument.mie_table[hyd_type]["alpha_p"].values
+            calc_kws = None
             rhoe = None
             if model.mcphys_scheme == "nssl":
                 rhoe = model.Rho_hyd[hyd_type]
-- 
2.43.0


From 48898188664fa90922a9cb87daf83d8ce5f04828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:23 +0000
Subject: [PATCH 11/43] fix: radar microphysics attenuation accounts for all
 hydrometeor classes

---
 emc2/simulator/radar_moments.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index 48cd090..a234c75 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -539,6 +539,7 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
     moment_denom_tot = np.zeros(Dims)
     V_d_numer_tot = np.zeros(Dims)
     sigma_d_numer_tot = np.zeros(Dims)
+    hyd_ext = np.zeros(Dims)
     for key in ["Ze", "Vd", "sigma_d"]:  # always start from 0 so that re-processing does not accumulate
         model.ds["sub_col_%s_tot_strat" % key] = xr.DataArray(
             np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
@@ -658,7 +659,7 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
                 np.stack([x[0] for x in my_tuple], axis=1))
             moment_denom_tot = np.nan_to_num(
                 np.stack([x[1] for x in my_tuple], axis=1))
-            hyd_ext = np.nan_to_num(np.stack([x[2] for x in my_tuple], axis=1))
+            hyd_ext += np.nan_to_num(np.stack([x[2] for x in my_tuple], axis=1))
 
             model.ds["sub_col_Ze_cl_strat"][:, :, :] = np.stack(
                 [x[3] for x in my_tuple], axis=1)
@@ -701,7 +702,7 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
 
             V_d_numer_tot += np.nan_to_num(np.stack([x[0] for x in my_tuple], axis=1))
             moment_denom_tot += np.nan_to_num(np.stack([x[1] for x in my_tuple], axis=1))
-            hyd_ext = np.nan_to_num(np.stack([x[2] for x in my_tuple], axis=1))
+            hyd_ext += np.nan_to_num(np.stack([x[2] for x in my_tuple], axis=1))
             model.ds["sub_col_Ze_%s_strat" % hyd_type][:, :, :] = np.stack([x[3] for x in my_tuple], axis=1)
             model.ds["sub_col_Vd_%s_strat" % hyd_type][:, :, :] = np.stack([x[4] for x in my_tuple], axis=1)
             if calc_spectral_width:
-- 
2.43.0


From e8d42221ac75b86680f9fe7d2cf10e224fd6e4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:23 +0000
Subject: [PATCH 12/43] fix: total Doppler moments do not depend on the order
 of hydrometeor classes

---
 emc2/simulator/radar_moments.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index a234c75..a227ae7 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -655,9 +655,9 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
                 my_tuple = [x for x in map(
                     _calc_liquid, np.arange(0, Dims[1], 1))]
             
-            V_d_numer_tot = np.nan_to_num(
+            V_d_numer_tot += np.nan_to_num(
                 np.stack([x[0] for x in my_tuple], axis=1))
-            moment_denom_tot = np.nan_to_num(
+            moment_denom_tot += np.nan_to_num(
                 np.stack([x[1] for x in my_tuple], axis=1))
             hyd_ext += np.nan_to_num(np.stack([x[2] for x in my_tuple], axis=1))
 
@@ -803,7 +803,7 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
                 else:
                     sigma_d_numer = [x for x in map(_calc_sigma_d_liq, np.arange(0, Dims[1], 1))]
 
-                sigma_d_numer_tot = np.nan_to_num(np.stack([x[0] for x in sigma_d_numer], axis=1))
+                sigma_d_numer_tot += np.nan_to_num(np.stack([x[0] for x in sigma_d_numer], axis=1))
             else:
                 sub_frac_arr = model.ds["strat_frac_subcolumns_%s" % hyd_type].values
                 _calc_sigma = lambda x: _calc_sigma_d_tot(
-- 
2.43.0


From 1fba5ac7e446fca24e47bc50b97b49a2e0e4ad61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:23 +0000
Subject: [PATCH 13/43] fix: total spectral width uses each class' own air
 density correction

---
 emc2/simulator/radar_moments.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index a227ae7..c021a46 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -772,6 +772,12 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
                 v_tmp = model.vel_param_a[hyd_type] * p_diam ** model.vel_param_b[hyd_type]
                 v_tmp = -v_tmp.magnitude
 
+            # Same air density correction of terminal velocity as used for the class in stage 1
+            rhoa_corr = np.ones(model.ds["rho_a"].shape)
+            if hyd_type in model.Vd_rhoa_scaling_ref.keys():
+                if model.Vd_rhoa_scaling_ref[hyd_type] is not None:
+                    rhoa_corr = (model.Vd_rhoa_scaling_ref[hyd_type] / model.ds["rho_a"].values) ** 0.54
+
             frac_names = "strat_frac_subcolumns_%s" % hyd_type
             n_names = "strat_n_subcolumns_%s" % hyd_type
             total_hydrometeor = model.ds[frac_names] * model.ds[n_names]
-- 
2.43.0


From ae91d21708291b890f6bb3a62fb85ec6c723aabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:23 +0000
Subject: [PATCH 14/43] fix: empirical radar attenuation accounts for all
 liquid classes

---
 emc2/simulator/radar_moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index c021a46..4445f53 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -193,9 +193,9 @@ def calc_radar_empirical(instrument, model, is_conv, p_values, t_values, z_value
     model.ds["sub_col_Ze_tot_%s" % cloud_str] = xr.DataArray(
         np.zeros(Dims), dims=model.ds["%s_q_subcolumns_cl" % cloud_str].dims)
 
+    WC_tot = np.zeros(Dims)
     for hyd_type in hyd_types:
         q_field = "%s_q_subcolumns_%s" % (cloud_str, hyd_type)
-        WC_tot = np.zeros(Dims)
         WC = model.ds["%s_q_subcolumns_%s" % (cloud_str, hyd_type)] * p_values / \
             (instrument.R_d * (t_values + 273.15)) * 1e3
         # Fox and Illingworth (1997)
-- 
2.43.0


From e54781a7cf8e846c6c583ecc8c99f1c81a2d5b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:23 +0000
Subject: [PATCH 15/43] fix: bulk radar attenuation survives subcolumns without
 hydrometeors (CESM and P3 LUTs)

---
 emc2/simulator/radar_moments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index 4445f53..49a2190 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -433,7 +433,7 @@ def calc_radar_bulk(instrument, model, is_conv, p_values, z_values, atm_ext, OD_
             interpolator = LinearNDInterpolator(np.stack((mu_b, lambda_b), axis=1), Qext_bulk.flatten())
             interp_vals = interpolator(mu_array[rel_locs], lambda_array[rel_locs])
             np.place(ext_tmp, rel_locs, interp_vals)
-            hyd_ext += ext_tmp * A_hyd
+            hyd_ext += np.nan_to_num(ext_tmp * A_hyd)
         elif np.all([np.isin(hyd_type, ["ci"]), model.rad_scheme_family in ["P3"]]):  # P3 ice
             print("3-D interpolation of bulk ice radar backscattering using Fr-rho_r-q_norm values")
             back_tmp = np.where(sub_frac_arr, (scat_dict["Q_back_bulk"] * instrument.wavelength ** 4) /
@@ -443,7 +443,7 @@ def calc_radar_bulk(instrument, model, is_conv, p_values, z_values, atm_ext, OD_
             model.ds["sub_col_Ze_%s_%s" % (hyd_type, cloud_str)] = xr.DataArray(
                 back_tmp * A_hyd,
                 dims=model.ds["%s_q_subcolumns_ci" % cloud_str].dims)
-            hyd_ext += ext_tmp * A_hyd
+            hyd_ext += np.nan_to_num(ext_tmp * A_hyd)
         else:
             model.ds["sub_col_Ze_%s_%s" % (hyd_type, cloud_str)] = xr.DataArray(
                 (np.interp(re_array, r_eff_bulk, Qback_bulk) * A_hyd * instrument.wavelength ** 4) /
-- 
2.43.0


From b3fb435b673f4058a4804c1b25508e682f190b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:23 +0000
Subject: [PATCH 16/43] fix: calc_LDR_and_ext supports hyd_types without the
 model's first class

---
 emc2/simulator/lidar_moments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index e37565f..57694bc 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -114,8 +114,8 @@ def calc_LDR_and_ext(model, ext_OD=4., OD_from_sfc=True, LDR_per_hyd=None, hyd_t
     else:
         OD_str = ("layer top", "from TOA")
 
-    numerator_tot = xr.zeros_like(model.ds["sub_col_beta_p_%s_strat" % model.hydrometeor_classes[0]])
-    denominator_tot = xr.zeros_like(model.ds["sub_col_beta_p_%s_strat" % model.hydrometeor_classes[0]])
+    numerator_tot = xr.zeros_like(model.ds["sub_col_beta_p_%s_strat" % hyd_types[0]])
+    denominator_tot = xr.zeros_like(model.ds["sub_col_beta_p_%s_strat" % hyd_types[0]])
     for cloud_str in cld_classes:
         numerator = 0.
         denominator = 0.
-- 
2.43.0


From fe49e5907be1d1d25cbf979a863bcf1649170e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:47 +0000
Subject: [PATCH 17/43] fix: calc_LDR_and_ext honours its LDR_per_hyd argument

---
 emc2/simulator/lidar_moments.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index 57694bc..490255d 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -108,6 +108,7 @@ def calc_LDR_and_ext(model, ext_OD=4., OD_from_sfc=True, LDR_per_hyd=None, hyd_t
 
     if LDR_per_hyd is None:
         LDR_per_hyd = model.LDR_per_hyd
+    LDR_per_hyd = {key: getattr(val, "magnitude", val) for key, val in LDR_per_hyd.items()}
 
     if OD_from_sfc:
         OD_str = ("layer base", "from surface")
@@ -122,7 +123,7 @@ def calc_LDR_and_ext(model, ext_OD=4., OD_from_sfc=True, LDR_per_hyd=None, hyd_t
 
         for hyd_type in hyd_types:
             beta_p_key = "sub_col_beta_p_%s_%s" % (hyd_type, cloud_str)
-            numerator += model.ds[beta_p_key].fillna(0) * model.LDR_per_hyd[hyd_type].magnitude
+            numerator += model.ds[beta_p_key].fillna(0) * LDR_per_hyd[hyd_type]
             denominator += model.ds[beta_p_key].fillna(0)
         denominator_no_zeros = np.where(denominator > 0, denominator, np.nan)
         model.ds["sub_col_LDR_%s" % cloud_str] = numerator / denominator_no_zeros
-- 
2.43.0


From 50c775ca228085cdec98e7bf1bf4105839f91be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:23 +0000
Subject: [PATCH 18/43] fix: nssl fall velocity arguments in the per-column
 tasks are in the right order

---
 emc2/simulator/radar_moments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index 49a2190..0830269 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -1124,7 +1124,7 @@ def _calc_sigma_d_tot(tt, num_subcolumns, v_tmp, N_0, lambdas, mu,
         v_use = v_tmp
         if rhoe is not None:
             if mcphys_scheme.lower() in ["nssl"]:  # NSSL parameterization for fall velocity
-                v_use = calc_velocity_nssl(rhoe[tt, k], p_diam, hyd_type)
+                v_use = calc_velocity_nssl(p_diam, rhoe[tt, k], hyd_type)
         v_use = v_use * rhoa_corr_single
         Calc_tmp2 = (v_use - np.tile(vd_tot[:, tt, k], (num_diam, 1)).T) ** 2 * Calc_tmp.astype('float64')
         Calc_tmp2 = np.trapz(Calc_tmp2, x=p_diam, axis=1)
@@ -1242,7 +1242,7 @@ def _calculate_other_observables(tt, total_hydrometeor, N_0, lambdas, mu,
             Zv[:, k] = np.nan
         if rhoe is not None:
             if mcphys_scheme.lower() in ["nssl"]:  # NSSL parameterization for fall velocity
-                v_tmp = calc_velocity_nssl(rhoe[tt, k], p_diam, hyd_type)
+                v_tmp = calc_velocity_nssl(p_diam, rhoe[tt, k], hyd_type)
         v_use = v_tmp * rhoa_corr_single
         Calc_tmp2 = Calc_tmp * v_use
         V_d_numer = np.trapz(Calc_tmp2, axis=1, x=p_diam)
-- 
2.43.0


From 06a9d82c81c5435e99893692ffeae507f1ac8cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:02 +0000
Subject: [PATCH 19/43] fix: lidar molecular transmittance follows OD_from_sfc

---
 emc2/simulator/lidar_moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index 490255d..f228b46 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -801,7 +801,7 @@ def calc_lidar_moments(instrument, model, is_conv,
     z_values = z_temp.to('meter').magnitude
     del p_temp, t_temp, z_temp
 
-    model = calc_theory_beta_m(model, instrument.wavelength)
+    model = calc_theory_beta_m(model, instrument.wavelength, OD_from_sfc=OD_from_sfc)
     beta_m = np.tile(model.ds['sigma_180_vol'].values, (model.num_subcolumns, 1, 1))
     T = np.tile(model.ds['tau'].values, (model.num_subcolumns, 1, 1))
 
-- 
2.43.0


From 5c36d8b4f89a09cfc5c67bde195e9ee7c3495e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:02 +0000
Subject: [PATCH 20/43] fix: subcolumns_to_netcdf replaces its target
 atomically

---
 emc2/core/model.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/emc2/core/model.py b/emc2/core/model.py
index ff4a8ff..fd37b0b 100644
--- a/emc2/core/model.py
+++ b/emc2/core/model.py
@@ -6,6 +6,7 @@ emc2.core.Model
 This module contains the Model class and example Models for your use.
 
 """
+import os
 import warnings
 
 import xarray as xr
@@ -571,7 +572,17 @@ class Model():
             if np.any([x in my_var for x in vars_to_keep]):
                 var_dict[my_var] = self.ds[my_var]
         out_ds = xr.Dataset(var_dict)
-        out_ds.to_netcdf(file_name)
+        # Write to a temporary file first so that an interrupted save never harms an existing file
+        # or leaves a partial one behind under the requested name.
+        file_name = os.path.realpath(os.path.expanduser(file_name))
+        tmp_name = "%s.%d.tmp" % (file_name, os.getpid())
+        try:
+            out_ds.to_netcdf(tmp_name)
+            os.replace(tmp_name, file_name)
+        except BaseException:
+            if os.path.exists(tmp_name):
+                os.remove(tmp_name)
+            raise
 
     def load_subcolumns_from_netcdf(self, file_name):
         """
-- 
2.43.0


From 56f879ef92c39bdc6c6a935b7bd9e16424f5ec47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:02 +0000
Subject: [PATCH 21/43] fix: load_subcolumns_from_netcdf reads the file before
 closing it

---
 emc2/core/model.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/emc2/core/model.py b/emc2/core/model.py
index fd37b0b..501f6d6 100644
--- a/emc2/core/model.py
+++ b/emc2/core/model.py
@@ -595,9 +595,8 @@ class Model():
         file_name: str
             Name of the file to save.
         """
-        my_file = xr.open_dataset(file_name)
-        self.ds = xr.merge([self.ds, my_file])
-        my_file.close()
+        with xr.open_dataset(file_name) as my_file:
+            self.ds = xr.merge([self.ds, my_file.load()])
 
     @staticmethod
     def set_array_to_valid_range(arr_in, grid_in):
-- 
2.43.0


From dc104cf0554b1602a63eebb54ba8fac04b1f1b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:37 +0000
Subject: [PATCH 22/43] fix: empirical lidar calculations no longer mix
 unit-aware and plain arrays

---
 emc2/simulator/lidar_moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index f228b46..e4b6473 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -257,7 +257,7 @@ def calc_lidar_empirical(instrument, model, is_conv, p_values, t_values, z_value
             empr_array = model.ds[model.strat_re_fields[hyd_type]].values
         if hyd_type == "cl" or hyd_type == "pl":
             model.ds["sub_col_alpha_p_%s_%s" % (hyd_type, cloud_str)] = xr.DataArray(
-                (3 * WC) / (2 * model.Rho_hyd[hyd_type] * 1e-6 *
+                (3 * WC) / (2 * model.Rho_hyd[hyd_type].magnitude * 1e-6 *
                             np.tile(empr_array, (model.num_subcolumns, 1, 1))),
                 dims=model.ds["%s_q_subcolumns_cl" % cloud_str].dims)
         else:
-- 
2.43.0


From 96838b03049f42a21ac6cca0534f80565c12f4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:15 +0000
Subject: [PATCH 23/43] fix: nssl radar moments support the classes with a
 fixed density

---
 emc2/simulator/radar_moments.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index 0830269..fc7da98 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -595,6 +595,7 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
                 v_tmp = 'variable'
             else:
                 v_tmp = calc_velocity_nssl(p_diam, rhoe, hyd_type)
+                rhoe = None  # fixed density: fall velocity is the same in every grid cell
         elif (model.mcphys_scheme == "P3") & (hyd_type == "ci"):
             if instrument.instrument_str not in model.interpobj["single"].keys():
                 model.interpobj["single"][instrument.instrument_str] = {}  # gen scattering interp objects
@@ -764,6 +765,7 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
                     v_tmp = 'variable'
                 else:
                     v_tmp = calc_velocity_nssl(p_diam, rhoe, hyd_type)
+                    rhoe = None  # fixed density: fall velocity is the same in every grid cell
             elif (model.mcphys_scheme == "P3") & (hyd_type == "ci"):
                 v_tmp = None
                 calc_kws = i_calc_kws
-- 
2.43.0


From 04568dd68b8a67e1fdc0afec14017d13a37cc6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:15 +0000
Subject: [PATCH 24/43] fix: convective cloud fractions with a single subcolumn

---
 emc2/simulator/subcolumn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emc2/simulator/subcolumn.py b/emc2/simulator/subcolumn.py
index 4061061..544f974 100644
--- a/emc2/simulator/subcolumn.py
+++ b/emc2/simulator/subcolumn.py
@@ -54,7 +54,8 @@ def set_convective_sub_col_frac(model, hyd_type, N_columns=None, use_rad_logic=T
        print(f"num_subcolumns == 1 (subcolumn generator turned off); setting subcolumns frac "
               f"fields for convective {hyd_type} based on q > {q_trunc_thresh} kg/kg")
        model.ds[("conv_frac_subcolumns_" + hyd_type)] = xr.DataArray(
-           np.where(model.ds[model.q_names_convective[hyd_type]].values > q_trunc_thresh, 1., 0.),
+           np.where(np.tile(model.ds[model.q_names_convective[hyd_type]].values,
+                            (1, 1, 1)) > q_trunc_thresh, 1., 0.),
            dims=('subcolumn', my_dims[0], my_dims[1]))
     else:  # num_subcolumns > 1
         if use_rad_logic:
-- 
2.43.0


From f0fd4a3df34e51a6d52357594126d987d061ace3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:22 +0000
Subject: [PATCH 25/43] fix: bulk lidar moments support classes with a
 predicted density (nssl)

---
 emc2/simulator/lidar_moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index e4b6473..e3ea910 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -421,7 +421,7 @@ def calc_lidar_bulk(instrument, model, is_conv, p_values, z_values, OD_from_sfc=
             rho_b = instrument.rho_i  # bulk ice
             rho_hyd = model.Rho_hyd[hyd_type]
             if rho_hyd == 'variable':
-                rho_hyd = model.ds[model.variable_density[hyd_type]].values
+                rho_hyd = model.ds[model.variable_density[hyd_type]].values * rho_b.units
             if model.fluffy is None:
                 re_array = np.tile(model.ds[re_fields[hyd_type]].values, (n_subcolumns, 1, 1))
             else:
-- 
2.43.0


From 7fc471725e1ac617db04d2bd1d8b7a551765a912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:35 +0000
Subject: [PATCH 26/43] fix: P3 radar moments can be calculated for the ice
 class alone

---
 emc2/simulator/radar_moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index fc7da98..f9634cd 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -841,7 +841,7 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
     else: 
         print("User chose to skip spectral width calculations")
  
-    model.ds = model.ds.drop_vars(("N_0", "lambda", "mu"))
+    model.ds = model.ds.drop_vars(("N_0", "lambda", "mu"), errors="ignore")
 
     if calc_spectral_width:
         model.ds["sub_col_sigma_d_tot_strat"] = xr.DataArray(np.sqrt(sigma_d_numer_tot / moment_denom_tot),
-- 
2.43.0


From e908a92d758088c05f7bfce6d8b04f8dee7607f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:14 +0000
Subject: [PATCH 27/43] fix: total spectral width in the nssl scheme uses the
 class' own cloud droplet velocity

---
 emc2/simulator/radar_moments.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index f9634cd..330f040 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -1075,9 +1075,11 @@ def _calc_sigma_d_tot_cl(tt, N_0, lambdas, mu, instrument,
             instrument.mie_table[hyd_type]["beta_p"].values,
             (num_subcolumns, 1)) * N_D.T
         moment_denom = np.trapz(Calc_tmp, x=p_diam, axis=1).astype('float64')
-        if mcphys_scheme.lower() in ["mg2", "mg", "morrison", "nssl", "p3"]:  # power-law velocity schemes for liquid
+        if mcphys_scheme.lower() in ["nssl"]:  # same fall velocity as in stage 1
+            v_tmp = calc_velocity_nssl(p_diam, None, hyd_type)
+        elif mcphys_scheme.lower() in ["mg2", "mg", "morrison", "p3"]:  # power-law velocity schemes for liquid
             v_tmp = vel_param_a[hyd_type] * p_diam ** vel_param_b[hyd_type]
-        v_tmp = -v_tmp.magnitude.astype('float64')
+            v_tmp = -v_tmp.magnitude.astype('float64')
         v_use = v_tmp * rhoa_corr_single
         Calc_tmp2 = (v_use - np.tile(Vd_tot[:, tt, k], (num_diam, 1)).T) ** 2 * Calc_tmp.astype('float64')
         sigma_d_numer[:, k] = np.trapz(Calc_tmp2, x=p_diam, axis=1)
-- 
2.43.0


From 712eb798e87de101a32127b0f5badfc0b47c0bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:49 +0000
Subject: [PATCH 28/43] fix: keep P3 scattering interpolators only once all of
 them were built

---
 emc2/simulator/lidar_moments.py | 10 ++++++----
 emc2/simulator/radar_moments.py | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index e3ea910..814c8f7 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -378,14 +378,15 @@ def calc_lidar_bulk(instrument, model, is_conv, p_values, z_values, OD_from_sfc=
                     mu_array = np.tile(model.ds[model.mu_field[hyd_type]].values, (model.num_subcolumns, 1, 1))
         elif np.all([np.isin(hyd_type, ["ci"]), model.rad_scheme_family in ["P3"]]):  # P3 ice
             if instrument.instrument_str not in model.interpobj["bulk"].keys():
-                model.interpobj["bulk"][instrument.instrument_str] = {}  # gen scattering interp objects
+                interp_tmp = {}  # gen scattering interp objects
                 scat_vars = ["Q_back_bulk", "Q_ext_bulk", "Q_back_Mie_bulk", "Q_ext_Mie_bulk"]
                 for key in scat_vars:
-                    model.interpobj["bulk"][instrument.instrument_str][key] = RegularGridInterpolator(
+                    interp_tmp[key] = RegularGridInterpolator(
                         (instrument.scat_table['p3_ice']["Fr"].values,
                          instrument.scat_table['p3_ice']["rho_r"].values,
                          instrument.scat_table['p3_ice']["q_norm"].values),
                         instrument.scat_table['p3_ice'][key].values, bounds_error=False)
+                model.interpobj["bulk"][instrument.instrument_str] = interp_tmp
             i_calc_kws = {"Q_back_bulk": model.interpobj["bulk"][instrument.instrument_str]["Q_back_bulk"],
                           "Q_ext_bulk": model.interpobj["bulk"][instrument.instrument_str]["Q_ext_bulk"],
                           "Q_back_Mie_bulk": model.interpobj["bulk"][instrument.instrument_str]["Q_back_Mie_bulk"],
@@ -620,18 +621,19 @@ def calc_lidar_micro(instrument, model, z_values, OD_from_sfc=True,
             alpha_p = instrument.mie_table[hyd_type]["alpha_p"].values
         if (model.mcphys_scheme == "P3") & (hyd_type == "ci"):
             if instrument.instrument_str not in model.interpobj["single"].keys():
-                model.interpobj["single"][instrument.instrument_str] = {}  # gen scattering interp objects
+                interp_tmp = {}  # gen scattering interp objects
                 scat_vars = ["beta_p", "alpha_p"]
                 if model.p3_kws["use_hybrid_scat"] > 0:
                     scat_lut_vars = ["beta_p_eq_V", "alpha_p_eq_V"]
                 else:
                     scat_lut_vars = ["beta_p", "alpha_p"]
                 for lut_key, key in zip(scat_lut_vars, scat_vars):
-                    model.interpobj["single"][instrument.instrument_str][key] = RegularGridInterpolator(
+                    interp_tmp[key] = RegularGridInterpolator(
                         (instrument.scat_table['p3_ice']["Fr"].values,
                          instrument.scat_table['p3_ice']["rho_r"].values,
                          instrument.scat_table['p3_ice']["p_diam"].values),
                         instrument.scat_table['p3_ice'][lut_key].values, bounds_error=False)
+                model.interpobj["single"][instrument.instrument_str] = interp_tmp
             i_calc_kws = {"beta_p": model.interpobj["single"][instrument.instrument_str]["beta_p"],
                           "alpha_p": model.interpobj["single"][instrument.instrument_str]["alpha_p"],
                           "Fr_in": model.ds["Fr"].values,
diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index 330f040..600121b 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -323,14 +323,15 @@ def calc_radar_bulk(instrument, model, is_conv, p_values, z_values, atm_ext, OD_
                     mu_array = np.tile(model.ds[model.mu_field[hyd_type]].values, (model.num_subcolumns, 1, 1))
         elif np.all([np.isin(hyd_type, ["ci"]), model.rad_scheme_family in ["P3"]]):  # P3 ice
             if instrument.instrument_str not in model.interpobj["bulk"].keys():
-                model.interpobj["bulk"][instrument.instrument_str] = {}  # gen scattering interp objects
+                interp_tmp = {}  # gen scattering interp objects
                 scat_vars = ["Q_back_bulk", "Q_ext_bulk", "Q_back_Mie_bulk", "Q_ext_Mie_bulk"]
                 for key in scat_vars:
-                    model.interpobj["bulk"][instrument.instrument_str][key] = RegularGridInterpolator(
+                    interp_tmp[key] = RegularGridInterpolator(
                         (instrument.scat_table['p3_ice']["Fr"].values,
                          instrument.scat_table['p3_ice']["rho_r"].values,
                          instrument.scat_table['p3_ice']["q_norm"].values),
                         instrument.scat_table['p3_ice'][key].values, bounds_error=False)
+                model.interpobj["bulk"][instrument.instrument_str] = interp_tmp
             i_calc_kws = {"Q_back_bulk": model.interpobj["bulk"][instrument.instrument_str]["Q_back_bulk"],
                           "Q_ext_bulk": model.interpobj["bulk"][instrument.instrument_str]["Q_ext_bulk"],
                           "Q_back_Mie_bulk": model.interpobj["bulk"][instrument.instrument_str]["Q_back_Mie_bulk"],
@@ -598,18 +599,19 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
                 rhoe = None  # fixed density: fall velocity is the same in every grid cell
         elif (model.mcphys_scheme == "P3") & (hyd_type == "ci"):
             if instrument.instrument_str not in model.interpobj["single"].keys():
-                model.interpobj["single"][instrument.instrument_str] = {}  # gen scattering interp objects
+                interp_tmp = {}  # gen scattering interp objects
                 scat_vars = ["beta_p", "alpha_p"]
                 if model.p3_kws["use_hybrid_scat"] > 0:
                     scat_lut_vars = ["beta_p_eq_V", "alpha_p_eq_V"]
                 else:
                     scat_lut_vars = ["beta_p", "alpha_p"]
                 for lut_key, key in zip(scat_lut_vars, scat_vars):
-                    model.interpobj["single"][instrument.instrument_str][key] = RegularGridInterpolator(
+                    interp_tmp[key] = RegularGridInterpolator(
                         (instrument.scat_table['p3_ice']["Fr"].values,
                          instrument.scat_table['p3_ice']["rho_r"].values,
                          instrument.scat_table['p3_ice']["p_diam"].values),
                         instrument.scat_table['p3_ice'][lut_key].values, bounds_error=False)
+                model.interpobj["single"][instrument.instrument_str] = interp_tmp
             i_calc_kws = {"vt": model.interpobj["single"]["vt"],
                           "beta_p": model.interpobj["single"][instrument.instrument_str]["beta_p"],
                           "alpha_p": model.interpobj["single"][instrument.instrument_str]["alpha_p"],
-- 
2.43.0


From a8a18560919ddc4bf88e3d679957d8f634638119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:41 +0000
Subject: [PATCH 29/43] fix: _switch_model replaces the displayed dataset
 whatever its name and keeps a deep copy of the model

---
 emc2/plotting/subcol_display.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/plotting/subcol_display.py b/emc2/plotting/subcol_display.py
index 99f2cc2..b893f16 100644
--- a/emc2/plotting/subcol_display.py
+++ b/emc2/plotting/subcol_display.py
@@ -167,8 +167,8 @@ class SubcolumnDisplay(Display):
             A model containing the subcolumn data to relpace the current model data.
 
         """
-        self._ds.pop(self.model.model_name)
-        self.model = model
+        self._ds.pop([x for x in self._ds.keys()][0])
+        self.model = copy.deepcopy(model)
         self._ds.update({self.model.model_name: self.model.ds})
 
     def calc_mean_and_sd(self, variable, use_geom_mean=False, axis=None):
-- 
2.43.0


From 00687f4a05bd1cc64db4956af667f6101385e58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:41 +0000
Subject: [PATCH 30/43] fix: _switch_lat_lon shows the newly selected place
 instead of keeping the first one

---
 emc2/plotting/subcol_display.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/emc2/plotting/subcol_display.py b/emc2/plotting/subcol_display.py
index b893f16..ad89f38 100644
--- a/emc2/plotting/subcol_display.py
+++ b/emc2/plotting/subcol_display.py
@@ -135,9 +135,11 @@ class SubcolumnDisplay(Display):
         """
         if not np.logical_and(lat_sel is None, lon_sel is None):
             self.cropped_lat_lon = [lat_sel, lon_sel]
-            if np.any([x in self.model.ds.dims for x in [self.model.lat_dim, self.model.lon_dim]]):
+            if np.any([x in model.ds.dims for x in [self.model.lat_dim, self.model.lon_dim]]):
                 if deep:
                     self.model.ds = copy.deepcopy(model.ds)
+                else:
+                    self.model.ds = model.ds
                 if self.model.lat_dim in self.model.ds.dims:
                     if isinstance(lat_sel, float):
                         print("cropping lat dim (lat requested = %.2f)" % lat_sel)
@@ -152,6 +154,8 @@ class SubcolumnDisplay(Display):
                     elif isinstance(lon_sel, int):
                         print("cropping lon dim (lon index requested = %d)" % lon_sel)
                         self.model.ds = self.model.ds.isel({self.model.lon_dim: lon_sel})
+                if hasattr(self, '_ds'):
+                    self._ds[[x for x in self._ds.keys()][0]] = self.model.ds
         else:
             print("no alternative lat and lon coords provided - keeping processed dataset as is.")
 
-- 
2.43.0


From 132eae2b2353b40281b52a411f92ba03a0d63f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:41 +0000
Subject: [PATCH 31/43] fix: regridded CF and SR displays no longer write into
 the array they are given

---
 emc2/plotting/subcol_display.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/plotting/subcol_display.py b/emc2/plotting/subcol_display.py
index ad89f38..5d3e796 100644
--- a/emc2/plotting/subcol_display.py
+++ b/emc2/plotting/subcol_display.py
@@ -1255,7 +1255,7 @@ class SubcolumnDisplay(Display):
         x, y = np.meshgrid(x, y)
         
         #  modified    
-        var_array = np.squeeze(var_array_3D[:,:,col_index]).T
+        var_array = np.squeeze(var_array_3D[:,:,col_index]).T.copy()
         var_array[var_array<=0]=np.nan  # can be with blue 
                         
         if y_range is not None:
@@ -1347,7 +1347,7 @@ class SubcolumnDisplay(Display):
         x = my_ds[x_variable].values
         y = newgrid_mid*1000. # from km to m
         x, y = np.meshgrid(x, y)  
-        var_array = np.squeeze(var_array_4D[subcol_index,:,:,col_index]).T   
+        var_array = np.squeeze(var_array_4D[subcol_index,:,:,col_index]).T.copy()
         var_array[var_array==0]=np.nan
                 
         if y_range is not None:
-- 
2.43.0


From 5f807d00000dd006f8378e9904098e5129d2e412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:41 +0000
Subject: [PATCH 32/43] fix: cloud and precipitation mixing ratio plot uses an
 available default colormap

---
 emc2/statistics_LLNL/statistical_plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/statistics_LLNL/statistical_plots.py b/emc2/statistics_LLNL/statistical_plots.py
index 6c5901b..9c54a9c 100755
--- a/emc2/statistics_LLNL/statistical_plots.py
+++ b/emc2/statistics_LLNL/statistical_plots.py
@@ -989,7 +989,7 @@ def plot_every_subcolumn_timeseries_mixingratio_cloud_precipitation(
                         right=0.9, wspace=0.1, hspace=0.2)
     ax = axes.flatten()
     if not 'cmap' in kwargs.keys():
-        cmap = 'act_HomeyerRainbow'
+        cmap = 'Spectral_r'
     else:
         cmap = kwargs.pop('cmap')
 
-- 
2.43.0


From abc0b3edff5b75d9c3c41bb6e24bf9a265425ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:53 +0000
Subject: [PATCH 33/43] fix: subcolumn statistics plots no longer write into
 the model's fields

---
 emc2/statistics_LLNL/statistical_plots.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/emc2/statistics_LLNL/statistical_plots.py b/emc2/statistics_LLNL/statistical_plots.py
index 9c54a9c..034dc6a 100755
--- a/emc2/statistics_LLNL/statistical_plots.py
+++ b/emc2/statistics_LLNL/statistical_plots.py
@@ -388,9 +388,9 @@ def plot_every_subcolumn_timeseries_radarlidarsignal(
                                                     :, :, col_index].values
 
     Ze_att_tot_plt = np.transpose(
-        Ze_att_tot, axes=(2, 1, 0)).reshape(lev_num, -1)
+        Ze_att_tot, axes=(2, 1, 0)).reshape(lev_num, -1).copy()
     beta_att_tot_plt = np.transpose(
-        beta_att_tot, axes=(2, 1, 0)).reshape(lev_num, -1)
+        beta_att_tot, axes=(2, 1, 0)).reshape(lev_num, -1).copy()
 
     x_dateformat = "%b%d-%H"
     x_rotation = 30
@@ -525,8 +525,8 @@ def plot_every_subcolumn_timeseries_nonatt_radarlidarsignal(model, col_index, sa
 
     Ze_tot = model.ds['sub_col_Ze_tot'][:, :, :, col_index].values
     beta_tot = model.ds['sub_col_beta_p_tot'][:, :, :, col_index].values
-    Ze_tot_plt = np.transpose(Ze_tot, axes=(2, 1, 0)).reshape(lev_num, -1)
-    beta_tot_plt = np.transpose(beta_tot, axes=(2, 1, 0)).reshape(lev_num, -1)
+    Ze_tot_plt = np.transpose(Ze_tot, axes=(2, 1, 0)).reshape(lev_num, -1).copy()
+    beta_tot_plt = np.transpose(beta_tot, axes=(2, 1, 0)).reshape(lev_num, -1).copy()
     x_dateformat = "%b%d-%H"
     x_rotation = 30
 
@@ -763,22 +763,22 @@ def plot_every_subcolumn_timeseries_mixingratio(model, col_index, save_flag,
     strat_q_subcolumns_cl = model.ds['strat_q_subcolumns_cl'][
         :, :, :, col_index].values
     strat_q_subcolumns_cl_plt = np.transpose(
-        strat_q_subcolumns_cl, axes=(2, 1, 0)).reshape(lev_num, -1)
+        strat_q_subcolumns_cl, axes=(2, 1, 0)).reshape(lev_num, -1).copy()
 
     strat_q_subcolumns_ci = model.ds['strat_q_subcolumns_ci'][
         :, :, :, col_index].values
     strat_q_subcolumns_ci_plt = np.transpose(
-        strat_q_subcolumns_ci, axes=(2, 1, 0)).reshape(lev_num, -1)
+        strat_q_subcolumns_ci, axes=(2, 1, 0)).reshape(lev_num, -1).copy()
 
     strat_q_subcolumns_pl = model.ds['strat_q_subcolumns_pl'][
         :, :, :, col_index].values
     strat_q_subcolumns_pl_plt = np.transpose(
-        strat_q_subcolumns_pl, axes=(2, 1, 0)).reshape(lev_num, -1)
+        strat_q_subcolumns_pl, axes=(2, 1, 0)).reshape(lev_num, -1).copy()
 
     strat_q_subcolumns_pi = model.ds['strat_q_subcolumns_pi'][
         :, :, :, col_index].values
     strat_q_subcolumns_pi_plt = np.transpose(
-        strat_q_subcolumns_pi, axes=(2, 1, 0)).reshape(lev_num, -1)
+        strat_q_subcolumns_pi, axes=(2, 1, 0)).reshape(lev_num, -1).copy()
 
     # plot
 
-- 
2.43.0


From e71fb20d23219369d2637c28bbb9950dbe879317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:30 +0000
Subject: [PATCH 34/43] fix: statistics plots use the colour limits they are
 given

---
 emc2/statistics_LLNL/statistical_plots.py | 36 ++++++++---------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/emc2/statistics_LLNL/statistical_plots.py b/emc2/statistics_LLNL/statistical_plots.py
index 034dc6a..f59042a 100755
--- a/emc2/statistics_LLNL/statistical_plots.py
+++ b/emc2/statistics_LLNL/statistical_plots.py
@@ -216,14 +216,14 @@ def plot_radar_CFAD(Ze_EDGES, newgrid_mid, cfaddbz35_cal_alltime,
     if not 'vmin' in kwargs.keys():
         vmin = 0.0
     else:
-        vmin = kwargs.pop('vmax')
+        vmin = kwargs.pop('vmin')
 
     if not 'vmax' in kwargs.keys():
-        vmax = 0.0
+        vmax = 0.2
     else:
         vmax = kwargs.pop('vmax')    
     c1 = ax.pcolormesh(Ze_EDGES, levStat_km_add0,
-                       cfaddbz35_cal_alltime, cmap=cmap, vmin=0.0, vmax=0.2,
+                       cfaddbz35_cal_alltime, cmap=cmap, vmin=vmin, vmax=vmax,
                        **kwargs)
     ax.set_xlabel('Ze bins [dBZ]')
     ax.set_ylabel('Height [km]')
@@ -302,10 +302,10 @@ def plot_lidar_SR_CFAD(SR_EDGES, newgrid_mid, cfadSR_cal_alltime,
     if not 'vmin' in kwargs.keys():
         vmin = 0.0
     else:
-        vmin = kwargs.pop('vmax')
+        vmin = kwargs.pop('vmin')
 
     if not 'vmax' in kwargs.keys():
-        vmax = 0.0
+        vmax = 0.2
     else:
         vmax = kwargs.pop('vmax')    
     c1 = ax.pcolormesh(SR_BINS_index, levStat_km_add0,
@@ -410,18 +410,18 @@ def plot_every_subcolumn_timeseries_radarlidarsignal(
     textx, texty = 0.04, 1.03
     ifig = 0
     if not 'vmin' in list(kwargs.keys()):
-        vmin = -50.0
+        vmin = vmin_radar
     else:
         vmin = kwargs.pop('vmin')
 
     if not 'vmax' in list(kwargs.keys()):
-        vmax = 10.0
+        vmax = vmax_radar
     else:
-        vmax = kwargs.pop('vmin')    
+        vmax = kwargs.pop('vmax')
     # var=np.transpose(dbze35_ground_th, axes=(0,2,1)).reshape(lev_ground.shape[0], -1)
     Ze_att_tot_plt[Ze_att_tot_plt <= -1.e+20] = np.nan
     c1 = ax[ifig].pcolormesh(input_time_2d_long, input_height_half_long,
-                             Ze_att_tot_plt, vmin=-50, vmax=10, cmap=cmap, **kwargs)
+                             Ze_att_tot_plt, vmin=vmin, vmax=vmax, cmap=cmap, **kwargs)
     ax[ifig].text(textx, texty, 'Radar', transform=ax[ifig].transAxes)
     y1 = np.array(ax[ifig].get_position())[0, 1]
     ddy = np.array(ax[ifig].get_position())[1, 1] - \
@@ -438,14 +438,11 @@ def plot_every_subcolumn_timeseries_radarlidarsignal(
     for label in ax[subplot_index].get_xticklabels(which='major'):
         label.set(rotation=x_rotation, horizontalalignment='right')
 
-    vmin = 1e-8
-    vmax = 1e-3
-
     ifig = 1
     # var=np.transpose(dbze35_ground_th, axes=(0,2,1)).reshape(lev_ground.shape[0], -1)
     beta_att_tot_plt[beta_att_tot_plt <= -1.e+40] = np.nan
     c1 = ax[ifig].pcolormesh(input_time_2d_long, input_height_half_long,
-                             beta_att_tot_plt, norm=colors.LogNorm(vmin=vmin, vmax=vmax), 
+                             beta_att_tot_plt, norm=colors.LogNorm(vmin=vmin_lidar, vmax=vmax_lidar), 
                              cmap=cmap)
     ax[ifig].text(textx, texty, 'Lidar', transform=ax[ifig].transAxes)
     y1 = np.array(ax[ifig].get_position())[0, 1]
@@ -564,15 +561,6 @@ def plot_every_subcolumn_timeseries_nonatt_radarlidarsignal(model, col_index, sa
     for label in ax[subplot_index].get_xticklabels(which='major'):
         label.set(rotation=x_rotation, horizontalalignment='right')
 
-    if not 'vmin' in kwargs.keys():
-        vmin = 1e-8
-    else:
-        vmin = kwargs.pop('vmin')
-    if not 'vmin' in kwargs.keys():
-        vmin = 1e-3
-    else:
-        vmin = kwargs.pop('vmax')    
-
     ifig = 1
     beta_tot_plt[beta_tot_plt <= -1.e+40] = np.nan
     c1 = ax[ifig].pcolormesh(input_time_2d_long, input_height_half_long,
@@ -677,7 +665,7 @@ def plot_every_subcolumn_timeseries_SR(model, atb_total_4D, atb_mol_4D,
     else:
         vmin = kwargs.pop('vmin')
     if not 'vmax' in kwargs.keys():
-        vmax = 0
+        vmax = None
     else:
         vmax = kwargs.pop('vmax')    
 
@@ -1033,7 +1021,7 @@ def plot_every_subcolumn_timeseries_mixingratio_cloud_precipitation(
     plot_var1[plot_var1 < 0] = np.nan
     c1 = ax[ifig].pcolormesh(
         input_time_2d_long, input_height_half_long / 1000.,
-        plot_var1*1000., vmin=0, vmax=0.1, cmap=cmap)
+        plot_var1*1000., vmin=vmin, vmax=vmax, cmap=cmap)
     ax[ifig].text(textx, texty, '(b) Precipitation',
                   transform=ax[ifig].transAxes)
     y1 = np.array(ax[ifig].get_position())[0, 1]
-- 
2.43.0


From fad0cdfaf54b2da9ed2ebeffec0fb5787d17e16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:27 +0000
Subject: [PATCH 35/43] fix: geometric mean profiles leave masked values out

---
 emc2/plotting/subcol_display.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/emc2/plotting/subcol_display.py b/emc2/plotting/subcol_display.py
index 5d3e796..740505b 100644
--- a/emc2/plotting/subcol_display.py
+++ b/emc2/plotting/subcol_display.py
@@ -197,6 +197,7 @@ class SubcolumnDisplay(Display):
             array of calculated SD.
         """
         if use_geom_mean:
+            variable = np.ma.filled(np.ma.array(variable, dtype=float), np.nan)  # masked values do not count
             if np.any(variable <= 0):
                 print("Negative values exist in array - will be ignored in geomteric SD calculation")
             finite_arr = np.logical_and(np.isfinite(variable), variable > 0)
-- 
2.43.0


From c3f617f8aff70aac91c5e931df0f1513a6b07e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:08 +0000
Subject: [PATCH 36/43] fix: vertical regridding stops at the model top

---
 emc2/statistics_LLNL/statistical_aggregation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/statistics_LLNL/statistical_aggregation.py b/emc2/statistics_LLNL/statistical_aggregation.py
index 3d0062b..a2bbea9 100755
--- a/emc2/statistics_LLNL/statistical_aggregation.py
+++ b/emc2/statistics_LLNL/statistical_aggregation.py
@@ -246,7 +246,7 @@ def COSP_CHANGE_VERTICAL_GRID(Npoints, Ncolumns, Nlevels, zfull, zhalf, y, Nglev
             wt = 0.  # Sum of weights
             # Loop over levels in the old grid and accumulate total for weighted average
             # change do loop in Fortran to while loop in Python
-            while lev < Nlevels:
+            while lev < Nlevels - 1:
                 lev = lev + 1  # return to while loop
                 w = 0.0  # Initialise weight to 0
 
-- 
2.43.0


From 64137cfdfa12b00119ac85c0bcac45b588fcd36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:08 +0000
Subject: [PATCH 37/43] fix: vertical regridding counts the lowest model level
 in every new level it reaches

---
 emc2/statistics_LLNL/statistical_aggregation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/statistics_LLNL/statistical_aggregation.py b/emc2/statistics_LLNL/statistical_aggregation.py
index a2bbea9..236fe13 100755
--- a/emc2/statistics_LLNL/statistical_aggregation.py
+++ b/emc2/statistics_LLNL/statistical_aggregation.py
@@ -287,8 +287,8 @@ def COSP_CHANGE_VERTICAL_GRID(Npoints, Ncolumns, Nlevels, zfull, zhalf, y, Nglev
 
                             r[i, j, k] = r[i, j, k] + w*yp
             lev -= 2
-            if lev < 1:
-                lev = 0
+            if lev < -1:
+                lev = -1
 
             # Calculate average in new grid
             if Nw > 0:
-- 
2.43.0


From 363c808af7cb976180430dd052f83295884fcc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:51 +0000
Subject: [PATCH 38/43] fix: statistics saves keep the reflectivity bins and
 leave the model's dataset alone

assign_coords returns a new dataset; its result was discarded, so the bins never
reached the file, and the statistics were added to the model's own dataset, where
those of one save made the next one (with another binning) fail.
---
 emc2/statistics_LLNL/statistical_output.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/emc2/statistics_LLNL/statistical_output.py b/emc2/statistics_LLNL/statistical_output.py
index ee6899c..912e39b 100755
--- a/emc2/statistics_LLNL/statistical_output.py
+++ b/emc2/statistics_LLNL/statistical_output.py
@@ -30,8 +30,7 @@ def save_cfads_to_nc(model, kazr_DBZE_BINS_ground, CF_3D,
         output file name
     """
 
-    model_ds_add = model.ds
-    model_ds_add.assign_coords({"cosp_dbz": ("cosp_dbz", kazr_DBZE_BINS_ground)})
+    model_ds_add = model.ds.assign_coords({"cosp_dbz": ("cosp_dbz", kazr_DBZE_BINS_ground)})
     model_ds_add["CFAD_Radar"] = (['cosp_ht', 'cosp_ze'], cfaddbz35_cal_alltime)
     model_ds_add["CFAD_SR"] = (['cosp_ht', 'cosp_sr'], cfadSR_cal_alltime)
     print('saved CFADs')
-- 
2.43.0


From 68c414b8e3aa16af0e2f9fa32bab2a6fef8f5ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:18 +0000
Subject: [PATCH 39/43] fix: an interrupted statistics save keeps the earlier
 file and leaves no partial one

---
 emc2/statistics_LLNL/statistical_output.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/emc2/statistics_LLNL/statistical_output.py b/emc2/statistics_LLNL/statistical_output.py
index 912e39b..e3726b7 100755
--- a/emc2/statistics_LLNL/statistical_output.py
+++ b/emc2/statistics_LLNL/statistical_output.py
@@ -1,3 +1,4 @@
+import os
 import warnings
 warnings.filterwarnings("ignore")
 
@@ -37,5 +38,15 @@ def save_cfads_to_nc(model, kazr_DBZE_BINS_ground, CF_3D,
     model_ds_add["cloud_fraction"] = (['time', 'cosp_ht', 'ncol'], CF_3D)
     print('saved CF')
     output_file = f'{outdir}{file_name_array}'
-    model_ds_add.to_netcdf(path=output_file, mode='w', format='NETCDF4')
+    # Write to a temporary file first so that an interrupted save never harms an existing file
+    # or leaves a partial one behind under the requested name.
+    out_name = os.path.realpath(output_file)
+    tmp_name = "%s.%d.tmp" % (out_name, os.getpid())
+    try:
+        model_ds_add.to_netcdf(path=tmp_name, mode='w', format='NETCDF4')
+        os.replace(tmp_name, out_name)
+    except BaseException:
+        if os.path.exists(tmp_name):
+            os.remove(tmp_name)
+        raise
     print('Output saved: ', output_file)
-- 
2.43.0


From d83a8e4d11b27bd19fa1668a39ed57d6a951d3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:54 +0000
Subject: [PATCH 40/43] fix: a WRF bounding box keeps its last row and column

---
 emc2/core/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/core/model.py b/emc2/core/model.py
index 501f6d6..aba89b0 100644
--- a/emc2/core/model.py
+++ b/emc2/core/model.py
@@ -232,8 +232,8 @@ class Model():
         bounding_box_ind[3] = np.argmin(
                np.abs(bounding_box[3] - np.squeeze(XLONG_max.values)))
         input_dict = {}
-        input_dict[self.lat_dim] = slice(bounding_box_ind[0], bounding_box_ind[2])
-        input_dict[self.lon_dim] = slice(bounding_box_ind[1], bounding_box_ind[3])
+        input_dict[self.lat_dim] = slice(bounding_box_ind[0], bounding_box_ind[2] + 1)
+        input_dict[self.lon_dim] = slice(bounding_box_ind[1], bounding_box_ind[3] + 1)
         self.ds = self.ds.isel(input_dict)
 
     def _crop_bounding_box_x_y(self, bounding_box):
-- 
2.43.0


From 0556890e633895f1cdfb78fd9a90014350aaa74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:40 +0000
Subject: [PATCH 41/43] fix: P3 scattering interpolators are those of the
 instrument's own tables and the model's scattering option

---
 emc2/simulator/lidar_moments.py | 19 +++++++++++--------
 emc2/simulator/radar_moments.py | 19 +++++++++++--------
 2 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index 814c8f7..5497869 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -377,8 +377,9 @@ def calc_lidar_bulk(instrument, model, is_conv, p_values, z_values, OD_from_sfc=
                         model.ds[model.lambda_field[hyd_type]].values, (model.num_subcolumns, 1, 1))
                     mu_array = np.tile(model.ds[model.mu_field[hyd_type]].values, (model.num_subcolumns, 1, 1))
         elif np.all([np.isin(hyd_type, ["ci"]), model.rad_scheme_family in ["P3"]]):  # P3 ice
-            if instrument.instrument_str not in model.interpobj["bulk"].keys():
-                interp_tmp = {}  # gen scattering interp objects
+            source = instrument.scat_table['p3_ice']
+            if model.interpobj["bulk"].get(instrument.instrument_str, {}).get("source") is not source:
+                interp_tmp = {"source": source}  # gen scattering interp objects
                 scat_vars = ["Q_back_bulk", "Q_ext_bulk", "Q_back_Mie_bulk", "Q_ext_Mie_bulk"]
                 for key in scat_vars:
                     interp_tmp[key] = RegularGridInterpolator(
@@ -620,13 +621,15 @@ def calc_lidar_micro(instrument, model, z_values, OD_from_sfc=True,
             beta_p = instrument.mie_table[hyd_type]["beta_p"].values
             alpha_p = instrument.mie_table[hyd_type]["alpha_p"].values
         if (model.mcphys_scheme == "P3") & (hyd_type == "ci"):
-            if instrument.instrument_str not in model.interpobj["single"].keys():
-                interp_tmp = {}  # gen scattering interp objects
+            source = instrument.scat_table['p3_ice']
+            if model.p3_kws["use_hybrid_scat"] > 0:
+                scat_lut_vars = ["beta_p_eq_V", "alpha_p_eq_V"]
+            else:
+                scat_lut_vars = ["beta_p", "alpha_p"]
+            interp_tmp = model.interpobj["single"].get(instrument.instrument_str, {})
+            if (interp_tmp.get("source") is not source) or (interp_tmp["scat_lut_vars"] != scat_lut_vars):
+                interp_tmp = {"source": source, "scat_lut_vars": scat_lut_vars}  # gen scattering interp objects
                 scat_vars = ["beta_p", "alpha_p"]
-                if model.p3_kws["use_hybrid_scat"] > 0:
-                    scat_lut_vars = ["beta_p_eq_V", "alpha_p_eq_V"]
-                else:
-                    scat_lut_vars = ["beta_p", "alpha_p"]
                 for lut_key, key in zip(scat_lut_vars, scat_vars):
                     interp_tmp[key] = RegularGridInterpolator(
                         (instrument.scat_table['p3_ice']["Fr"].values,
diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index 600121b..e07c934 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -322,8 +322,9 @@ def calc_radar_bulk(instrument, model, is_conv, p_values, z_values, atm_ext, OD_
                         model.ds[model.lambda_field[hyd_type]].values, (model.num_subcolumns, 1, 1))
                     mu_array = np.tile(model.ds[model.mu_field[hyd_type]].values, (model.num_subcolumns, 1, 1))
         elif np.all([np.isin(hyd_type, ["ci"]), model.rad_scheme_family in ["P3"]]):  # P3 ice
-            if instrument.instrument_str not in model.interpobj["bulk"].keys():
-                interp_tmp = {}  # gen scattering interp objects
+            source = instrument.scat_table['p3_ice']
+            if model.interpobj["bulk"].get(instrument.instrument_str, {}).get("source") is not source:
+                interp_tmp = {"source": source}  # gen scattering interp objects
                 scat_vars = ["Q_back_bulk", "Q_ext_bulk", "Q_back_Mie_bulk", "Q_ext_Mie_bulk"]
                 for key in scat_vars:
                     interp_tmp[key] = RegularGridInterpolator(
@@ -598,13 +599,15 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
                 v_tmp = calc_velocity_nssl(p_diam, rhoe, hyd_type)
                 rhoe = None  # fixed density: fall velocity is the same in every grid cell
         elif (model.mcphys_scheme == "P3") & (hyd_type == "ci"):
-            if instrument.instrument_str not in model.interpobj["single"].keys():
-                interp_tmp = {}  # gen scattering interp objects
+            source = instrument.scat_table['p3_ice']
+            if model.p3_kws["use_hybrid_scat"] > 0:
+                scat_lut_vars = ["beta_p_eq_V", "alpha_p_eq_V"]
+            else:
+                scat_lut_vars = ["beta_p", "alpha_p"]
+            interp_tmp = model.interpobj["single"].get(instrument.instrument_str, {})
+            if (interp_tmp.get("source") is not source) or (interp_tmp["scat_lut_vars"] != scat_lut_vars):
+                interp_tmp = {"source": source, "scat_lut_vars": scat_lut_vars}  # gen scattering interp objects
                 scat_vars = ["beta_p", "alpha_p"]
-                if model.p3_kws["use_hybrid_scat"] > 0:
-                    scat_lut_vars = ["beta_p_eq_V", "alpha_p_eq_V"]
-                else:
-                    scat_lut_vars = ["beta_p", "alpha_p"]
                 for lut_key, key in zip(scat_lut_vars, scat_vars):
                     interp_tmp[key] = RegularGridInterpolator(
                         (instrument.scat_table['p3_ice']["Fr"].values,
-- 
2.43.0


From 4dc7796f80053fcb59a95ab5af80445b24feb485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:03 +0000
Subject: [PATCH 42/43] fix: simultaneous saves to one file name never share a
 temporary file

---
 emc2/core/model.py                         | 3 ++-
 emc2/statistics_LLNL/statistical_output.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/emc2/core/model.py b/emc2/core/model.py
index aba89b0..465154a 100644
--- a/emc2/core/model.py
+++ b/emc2/core/model.py
@@ -7,6 +7,7 @@ This module contains the Model class and example Models for your use.
 
 """
 import os
+import uuid
 import warnings
 
 import xarray as xr
@@ -575,7 +576,7 @@ class Model():
         # Write to a temporary file first so that an interrupted save never harms an existing file
         # or leaves a partial one behind under the requested name.
         file_name = os.path.realpath(os.path.expanduser(file_name))
-        tmp_name = "%s.%d.tmp" % (file_name, os.getpid())
+        tmp_name = "%s.%s.tmp" % (file_name, uuid.uuid4().hex)
         try:
             out_ds.to_netcdf(tmp_name)
             os.replace(tmp_name, file_name)
diff --git a/emc2/statistics_LLNL/statistical_output.py b/emc2/statistics_LLNL/statistical_output.py
index e3726b7..afe3d66 100755
--- a/emc2/statistics_LLNL/statistical_output.py
+++ b/emc2/statistics_LLNL/statistical_output.py
@@ -1,4 +1,5 @@
 import os
+import uuid
 import warnings
 warnings.filterwarnings("ignore")
 
@@ -41,7 +42,7 @@ def save_cfads_to_nc(model, kazr_DBZE_BINS_ground, CF_3D,
     # Write to a temporary file first so that an interrupted save never harms an existing file
     # or leaves a partial one behind under the requested name.
     out_name = os.path.realpath(output_file)
-    tmp_name = "%s.%d.tmp" % (out_name, os.getpid())
+    tmp_name = "%s.%s.tmp" % (out_name, uuid.uuid4().hex)
     try:
         model_ds_add.to_netcdf(path=tmp_name, mode='w', format='NETCDF4')
         os.replace(tmp_name, out_name)
-- 
2.43.0


From b783010ae6891651ec4fa602498ab903c07a786b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:20 +0000
Subject: [PATCH 43/43] fix: rain's bulk scattering no longer depends on which
 classes are processed before it

---
 emc2/simulator/lidar_moments.py | 8 +++++---
 emc2/simulator/radar_moments.py | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index 5497869..3dafe69 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -372,10 +372,12 @@ def calc_lidar_bulk(instrument, model, is_conv, p_values, z_values, OD_from_sfc=
             rho_b = model.Rho_hyd[hyd_type]  # bulk water
             re_array = np.tile(model.ds[re_fields[hyd_type]], (model.num_subcolumns, 1, 1))
             if model.lambda_field is not None:  # assuming my and lambda can be provided only for liq hydrometeors
-                if not model.lambda_field[hyd_type] is None:
+                # classes without PSD parameters of their own (e.g., rain in E3SM) use those of cloud droplets
+                psd_class = "cl" if model.lambda_field[hyd_type] is None else hyd_type
+                if not model.lambda_field[psd_class] is None:
                     lambda_array = np.tile(
-                        model.ds[model.lambda_field[hyd_type]].values, (model.num_subcolumns, 1, 1))
-                    mu_array = np.tile(model.ds[model.mu_field[hyd_type]].values, (model.num_subcolumns, 1, 1))
+                        model.ds[model.lambda_field[psd_class]].values, (model.num_subcolumns, 1, 1))
+                    mu_array = np.tile(model.ds[model.mu_field[psd_class]].values, (model.num_subcolumns, 1, 1))
         elif np.all([np.isin(hyd_type, ["ci"]), model.rad_scheme_family in ["P3"]]):  # P3 ice
             source = instrument.scat_table['p3_ice']
             if model.interpobj["bulk"].get(instrument.instrument_str, {}).get("source") is not source:
diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index e07c934..017e887 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -317,10 +317,12 @@ def calc_radar_bulk(instrument, model, is_conv, p_values, z_values, atm_ext, OD_
             rho_b = model.Rho_hyd[hyd_type]  # bulk water
             re_array = np.tile(model.ds[re_fields[hyd_type]].values, (n_subcolumns, 1, 1))
             if model.lambda_field is not None:  # assuming my and lambda can be provided only for liq hydrometeors
-                if not model.lambda_field[hyd_type] is None:
+                # classes without PSD parameters of their own (e.g., rain in E3SM) use those of cloud droplets
+                psd_class = "cl" if model.lambda_field[hyd_type] is None else hyd_type
+                if not model.lambda_field[psd_class] is None:
                     lambda_array = np.tile(
-                        model.ds[model.lambda_field[hyd_type]].values, (model.num_subcolumns, 1, 1))
-                    mu_array = np.tile(model.ds[model.mu_field[hyd_type]].values, (model.num_subcolumns, 1, 1))
+                        model.ds[model.lambda_field[psd_class]].values, (model.num_subcolumns, 1, 1))
+                    mu_array = np.tile(model.ds[model.mu_field[psd_class]].values, (model.num_subcolumns, 1, 1))
         elif np.all([np.isin(hyd_type, ["ci"]), model.rad_scheme_family in ["P3"]]):  # P3 ice
             source = instrument.scat_table['p3_ice']
             if model.interpobj["bulk"].get(instrument.instrument_str, {}).get("source") is not source:
-- 
2.43.0

