From 41b2a1aac97275feec19a68447ab40da526832ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:00 +0000
Subject: [PATCH 01/65] fix: direct beam and Stokes handling in mean radiance
 and flux output

The direct beam was taken at the top for the first user level and at the
surface for every other one, was added (uninitialised) without a solar
source, and all Stokes parameters were summed into the quadrature.
---
 src/prototypes/xrtm_radiance_p.h |  4 ++--
 src/xrtm_model.c                 | 33 ++++++++++++++++++++++++++------
 src/xrtm_radiance.c              | 22 +++++++++++++--------
 3 files changed, 43 insertions(+), 16 deletions(-)

diff --git a/src/prototypes/xrtm_radiance_p.h b/src/prototypes/xrtm_radiance_p.h
index d8344aa..61a152c 100644
--- a/src/prototypes/xrtm_radiance_p.h
+++ b/src/prototypes/xrtm_radiance_p.h
@@ -4,5 +4,5 @@ void radiance_toa_ref(int n_quad, int n_derivs, double **R_m, double *S_p, doubl
 void radiance_boa_ref(int n_quad, int n_derivs, double **R12_p, double *S12_m, double ***R12_p_l, double **S12_m_l, double **R23_m, double ***R23_m_l, double *I3_p, double **I3_p_l, double *I2_p, double **I2_p_l, double *I2_m, double **I2_m_l, uchar *derivs, work_data work);
 void radiance_toa_all(int n_quad, int n_derivs, double **R_m, double **T_p, double *S_p, double ***R_m_l, double ***T_p_l, double **S_p_l, double *I1_m, double *I2_p, double **I1_m_l, double **I2_p_l, double *I1_p, double *I1m_, double **I1_p_l, double **I1m_l_, uchar *derivs, work_data work);
 void radiance_boa_all(int n_quad, int n_derivs, double **R12_p, double **T12_m, double **R23_m, double *S12_m, double ***R12_p_l, double ***T12_m_l, double ***R23_m_l, double **S12_m_l, double *I3_p, double *I1_m, double **I3_p_l, double **I1_m_l, double *I2_p, double *I2_m, double **I2_p_l, double **I2_m_l, uchar *derivs, save_tree_data save_tree, work_data work);
-double radiance_to_mean(int n_quad, double *qx_v, double *qw_v, double F_0, double mu_0, double btran, double *I);
-double radiance_to_flux(int n_quad, double *qx_v, double *qw_v, double F_0, double mu_0, double btran, double *I);
+double radiance_to_mean(int n_quad, int n_stokes, double *qx_v, double *qw_v, double *I);
+double radiance_to_flux(int n_quad, int n_stokes, double *qx_v, double *qw_v, double *I);
diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 32ff345..b38c5b0 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -6054,6 +6054,27 @@ static int apply_corrections_fourier(xrtm_data *d, int i_four, double **I_p, dou
 
 
 
+/*******************************************************************************
+ * Transmittance of the direct beam from the top of the atmosphere to the user
+ * level i, zero when there is no solar source.
+ ******************************************************************************/
+static double direct_beam_tran(xrtm_data *d, int i) {
+
+     int ii;
+
+     if (! (d->options & XRTM_OPTION_SOURCE_SOLAR))
+          return 0.;
+
+     ii = d->ulevels[i];
+
+     if (! (d->options & XRTM_OPTION_OUTPUT_AT_TAUS))
+          return d->btran[ii];
+
+     return d->btran[ii] * exp(-d->utaus2[i] * d->as_0[ii]);
+}
+
+
+
 /*******************************************************************************
  *
  ******************************************************************************/
@@ -6265,12 +6286,12 @@ static int get_solution_internal(xrtm_data *d, enum xrtm_solver_mask solver, int
            *------------------------------------------------------------------*/
           if (solutions & XRTM_OUTPUT_RADIANCE_MEAN   && i == 0) {
                for (j = 0; j < d->n_ulevels; ++j) {
-                    jj = j == 0 ? 0 : d->n_layers;
+                    a = direct_beam_tran(d, j);
 
                     if (d->options & XRTM_OPTION_UPWELLING_OUTPUT)
-                         mean_p[j] = radiance_to_mean(d->n_quad_v, d->qx_v, d->qw_v, d->F_0, d->mu_0, d->btran[jj], i_p[j]);
+                         mean_p[j] = radiance_to_mean(d->n_quad, d->n_stokes, d->qx_v, d->qw_v, i_p[j]);
                     if (d->options & XRTM_OPTION_DOWNWELLING_OUTPUT)
-                         mean_m[j] = radiance_to_mean(d->n_quad_v, d->qx_v, d->qw_v, d->F_0, d->mu_0, d->btran[jj], i_m[j]) + d->F_0 * d->btran[jj] / (4. * PI);
+                         mean_m[j] = radiance_to_mean(d->n_quad, d->n_stokes, d->qx_v, d->qw_v, i_m[j]) + d->F_0 * a / (4. * PI);
                }
           }
 
@@ -6280,12 +6301,12 @@ static int get_solution_internal(xrtm_data *d, enum xrtm_solver_mask solver, int
            *------------------------------------------------------------------*/
           if (solutions & XRTM_OUTPUT_FLUX            && i == 0) {
                for (j = 0; j < d->n_ulevels; ++j) {
-                    jj = j == 0 ? 0 : d->n_layers;
+                    a = direct_beam_tran(d, j);
 
                     if (d->options & XRTM_OPTION_UPWELLING_OUTPUT)
-                         flux_p[j] = radiance_to_flux(d->n_quad_v, d->qx_v, d->qw_v, d->F_0, d->mu_0, d->btran[jj], i_p[j]);
+                         flux_p[j] = radiance_to_flux(d->n_quad, d->n_stokes, d->qx_v, d->qw_v, i_p[j]);
                     if (d->options & XRTM_OPTION_DOWNWELLING_OUTPUT)
-                         flux_m[j] = radiance_to_flux(d->n_quad_v, d->qx_v, d->qw_v, d->F_0, d->mu_0, d->btran[jj], i_m[j]) + d->F_0 * d->mu_0 * d->btran[jj];
+                         flux_m[j] = radiance_to_flux(d->n_quad, d->n_stokes, d->qx_v, d->qw_v, i_m[j]) + d->F_0 * d->mu_0 * a;
                }
           }
 
diff --git a/src/xrtm_radiance.c b/src/xrtm_radiance.c
index 72041c3..16bd3fd 100644
--- a/src/xrtm_radiance.c
+++ b/src/xrtm_radiance.c
@@ -571,15 +571,18 @@ void radiance_boa_all(int n_quad, int n_derivs,
 /*******************************************************************************
  *
  ******************************************************************************/
-double radiance_to_mean(int n_quad, double *qx_v, double *qw_v,
-                        double F_0, double mu_0, double btran, double *I) {
+double radiance_to_mean(int n_quad, int n_stokes, double *qx_v, double *qw_v, double *I) {
 
      int i;
+     int ii;
 
      double a = 0.;
 
-     for (i = 0; i < n_quad; ++i)
-          a += qw_v[i] * I[i];
+     ii = 0;
+     for (i = 0; i < n_quad; ++i) {
+          a += qw_v[ii] * I[ii];
+          ii += n_stokes;
+     }
 
      return a / 2.; // + F_0 * btran / (4. * PI);
 }
@@ -589,15 +592,18 @@ double radiance_to_mean(int n_quad, double *qx_v, double *qw_v,
 /*******************************************************************************
  *
  ******************************************************************************/
-double radiance_to_flux(int n_quad, double *qx_v, double *qw_v,
-                        double F_0, double mu_0, double btran, double *I) {
+double radiance_to_flux(int n_quad, int n_stokes, double *qx_v, double *qw_v, double *I) {
 
      int i;
+     int ii;
 
      double a = 0.;
 
-     for (i = 0; i < n_quad; ++i)
-          a += qx_v[i] * qw_v[i] * I[i];
+     ii = 0;
+     for (i = 0; i < n_quad; ++i) {
+          a += qx_v[ii] * qw_v[ii] * I[ii];
+          ii += n_stokes;
+     }
 
      return a * 2. * PI; // + F_0 * mu_0 * btran;
 }
-- 
2.43.0


From 3acc3c83cdc60bd5324248b6454f7eaff387a0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:15 +0000
Subject: [PATCH 02/65] fix: four_stream solver called a radiance routine with
 a stale signature

---
 src/xrtm_four_stream.c | 32 --------------------------------
 1 file changed, 32 deletions(-)

diff --git a/src/xrtm_four_stream.c b/src/xrtm_four_stream.c
index f73d873..57ae481 100644
--- a/src/xrtm_four_stream.c
+++ b/src/xrtm_four_stream.c
@@ -925,38 +925,6 @@ if (n_umus == 0) {
 #endif
                }
           }
-
-          void calc_radiance_levels(int n_quad, int n_layers, int n_derivs,
-                                    int n_ulevels, int *ulevels,
-                                    double *ltau, double **ltau_l,
-                                    double *atran, double **atran_l,
-                                    double **nu, double ***X_p, double ***X_m,
-                                    double **F_p, double **F_m,
-                                    double **F0_p, double **F0_m, double **F1_p, double **F1_m,
-                                    double ***nu_l, double ****X_p_l, double ****X_m_l,
-                                    double ***F_p_l, double ***F_m_l,
-                                    double ***F0_p_l, double ***F0_m_l, double ***F1_p_l, double ***F1_m_l,
-                                    double *B, double **B_l,
-                                    double **I_p, double **I_m, double ***I_p_l, double ***I_m_l,
-                                    int thermal,
-                                    uchar **derivs_layers, uchar **derivs_beam,
-                                    save_tree_data save_tree, work_data work);
-
-          calc_radiance_levels(2, n_layers, 0,
-                               n_ulevels, ulevels,
-                               ltau, ltau_l,
-                               atran, atran_l,
-                               nu, X_p, X_m,
-                               F_p, F_m,
-                               NULL, NULL, NULL, NULL,
-                               NULL, NULL, NULL,
-                               NULL, NULL,
-                               NULL, NULL, NULL, NULL,
-                               b, NULL,
-                               I_p, I_m, I_p_l, I_m_l,
-                               0,
-                               NULL, NULL, save_tree, work);
-
      }
 
 
-- 
2.43.0


From c8bf79531cb6a215c88f39e59d6a3d0d10e48217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:27 +0000
Subject: [PATCH 03/65] fix: mean radiance and flux without a solar source and
 their derivatives

---
 src/xrtm_model.c | 55 +++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 45 insertions(+), 10 deletions(-)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index b38c5b0..48ef748 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -6055,10 +6055,10 @@ static int apply_corrections_fourier(xrtm_data *d, int i_four, double **I_p, dou
 
 
 /*******************************************************************************
- * Transmittance of the direct beam from the top of the atmosphere to the user
- * level i, zero when there is no solar source.
+ * Direct beam at user level i (normal to the beam) and its derivatives, zero
+ * when there is no solar source.
  ******************************************************************************/
-static double direct_beam_tran(xrtm_data *d, int i) {
+static double direct_beam(xrtm_data *d, int i) {
 
      int ii;
 
@@ -6068,9 +6068,26 @@ static double direct_beam_tran(xrtm_data *d, int i) {
      ii = d->ulevels[i];
 
      if (! (d->options & XRTM_OPTION_OUTPUT_AT_TAUS))
-          return d->btran[ii];
+          return d->F_0 * d->btran[ii];
 
-     return d->btran[ii] * exp(-d->utaus2[i] * d->as_0[ii]);
+     return d->F_0 * d->btran[ii] * exp(-d->utaus2[i] * d->as_0[ii]);
+}
+
+
+
+static double direct_beam_l(xrtm_data *d, int i, int i_deriv) {
+
+     int ii;
+
+     if (! (d->options & XRTM_OPTION_SOURCE_SOLAR))
+          return 0.;
+
+     ii = d->ulevels[i];
+
+     if (! (d->options & XRTM_OPTION_OUTPUT_AT_TAUS))
+          return d->F_0 * d->btran_l[ii][i_deriv];
+
+     return d->F_0 * (d->btran_l[ii][i_deriv] - d->btran[ii] * d->utaus2[i] * d->as_0_l[ii][i_deriv]) * exp(-d->utaus2[i] * d->as_0[ii]);
 }
 
 
@@ -6286,12 +6303,19 @@ static int get_solution_internal(xrtm_data *d, enum xrtm_solver_mask solver, int
            *------------------------------------------------------------------*/
           if (solutions & XRTM_OUTPUT_RADIANCE_MEAN   && i == 0) {
                for (j = 0; j < d->n_ulevels; ++j) {
-                    a = direct_beam_tran(d, j);
-
                     if (d->options & XRTM_OPTION_UPWELLING_OUTPUT)
                          mean_p[j] = radiance_to_mean(d->n_quad, d->n_stokes, d->qx_v, d->qw_v, i_p[j]);
                     if (d->options & XRTM_OPTION_DOWNWELLING_OUTPUT)
-                         mean_m[j] = radiance_to_mean(d->n_quad, d->n_stokes, d->qx_v, d->qw_v, i_m[j]) + d->F_0 * a / (4. * PI);
+                         mean_m[j] = radiance_to_mean(d->n_quad, d->n_stokes, d->qx_v, d->qw_v, i_m[j]) + direct_beam(d, j) / (4. * PI);
+
+                    if (d->options & XRTM_OPTION_CALC_DERIVS) {
+                         for (k = 0; k < d->n_derivs; ++k) {
+                              if (d->options & XRTM_OPTION_UPWELLING_OUTPUT)
+                                   mean_p_l[j][k] = radiance_to_mean(d->n_quad, d->n_stokes, d->qx_v, d->qw_v, i_p_l[j][k]);
+                              if (d->options & XRTM_OPTION_DOWNWELLING_OUTPUT)
+                                   mean_m_l[j][k] = radiance_to_mean(d->n_quad, d->n_stokes, d->qx_v, d->qw_v, i_m_l[j][k]) + direct_beam_l(d, j, k) / (4. * PI);
+                         }
+                    }
                }
           }
 
@@ -6301,12 +6325,23 @@ static int get_solution_internal(xrtm_data *d, enum xrtm_solver_mask solver, int
            *------------------------------------------------------------------*/
           if (solutions & XRTM_OUTPUT_FLUX            && i == 0) {
                for (j = 0; j < d->n_ulevels; ++j) {
-                    a = direct_beam_tran(d, j);
+                    b = 0.;
+                    if (d->options & XRTM_OPTION_SOURCE_SOLAR)
+                         b = d->mu_0;
 
                     if (d->options & XRTM_OPTION_UPWELLING_OUTPUT)
                          flux_p[j] = radiance_to_flux(d->n_quad, d->n_stokes, d->qx_v, d->qw_v, i_p[j]);
                     if (d->options & XRTM_OPTION_DOWNWELLING_OUTPUT)
-                         flux_m[j] = radiance_to_flux(d->n_quad, d->n_stokes, d->qx_v, d->qw_v, i_m[j]) + d->F_0 * d->mu_0 * a;
+                         flux_m[j] = radiance_to_flux(d->n_quad, d->n_stokes, d->qx_v, d->qw_v, i_m[j]) + b * direct_beam(d, j);
+
+                    if (d->options & XRTM_OPTION_CALC_DERIVS) {
+                         for (k = 0; k < d->n_derivs; ++k) {
+                              if (d->options & XRTM_OPTION_UPWELLING_OUTPUT)
+                                   flux_p_l[j][k] = radiance_to_flux(d->n_quad, d->n_stokes, d->qx_v, d->qw_v, i_p_l[j][k]);
+                              if (d->options & XRTM_OPTION_DOWNWELLING_OUTPUT)
+                                   flux_m_l[j][k] = radiance_to_flux(d->n_quad, d->n_stokes, d->qx_v, d->qw_v, i_m_l[j][k]) + b * direct_beam_l(d, j, k);
+                         }
+                    }
                }
           }
 
-- 
2.43.0


From 67616bf38eb738ff3ed5def40ff84ae1cf17e4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:36 +0000
Subject: [PATCH 04/65] fix: sos surface upwelling and boundary illumination

---
 src/xrtm_sos.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/xrtm_sos.c b/src/xrtm_sos.c
index 03ac50d..3044887 100644
--- a/src/xrtm_sos.c
+++ b/src/xrtm_sos.c
@@ -222,15 +222,15 @@ int rtm_sos(int i_four,
 i_last_ulevel = n_ulevels - 1;
 
 if (ulevels[0] == 0)
-     init_array1_d(I_m[0], n_quad_v, 0.);
+     dvec_copy(I_m[0], I1_m, n_quad_v);
 if (ulevels[i_last_ulevel] == n_layers)
-     init_array1_d(I_p[i_last_ulevel], n_quad_v, 0.);
+     dvec_copy(I_p[i_last_ulevel], In_p, n_quad_v);
 
      if (n_derivs > 0) {
 if (ulevels[0            ] == 0)
-          init_array2_d(I_m_l[0], n_derivs, n_quad_v, 0.);
+          dmat_copy(I_m_l[0], I1_m_l, n_derivs, n_quad_v);
 if (ulevels[i_last_ulevel] == n_layers)
-          init_array2_d(I_p_l[i_last_ulevel], n_derivs, n_quad_v, 0.);
+          dmat_copy(I_p_l[i_last_ulevel], In_p_l, n_derivs, n_quad_v);
      }
 
 
@@ -467,9 +467,14 @@ if (ulevels[0] == 0) {
           if (n_derivs > 0)
                dmat_add(I_p_l[0], i_p_l[i][0], I_p_l[0], n_derivs, n_quad_v);
 }
-          dvec_copy(i_m[i][0], I1_m, n_quad_v);
+if (ulevels[i_last_ulevel] == n_layers) {
+          dvec_add(I_p[i_last_ulevel], i_p[i][n_layers2], I_p[i_last_ulevel], n_quad_v);
+          if (n_derivs > 0)
+               dmat_add(I_p_l[i_last_ulevel], i_p_l[i][n_layers2], I_p_l[i_last_ulevel], n_derivs, n_quad_v);
+}
+          init_array1_d(i_m[i][0], n_quad_v, 0.);
           if (n_derivs > 0)
-               dmat_copy(i_m_l[i][0], I1_m_l, n_derivs, n_quad_v);
+               init_array2_d(i_m_l[i][0], n_derivs, n_quad_v, 0.);
 
           for (j = 0; j < n_layers2; ++j) {
                dm_v_diag_mul(T[j], i_m[i][j], i_m[i][j+1], n_quad_v);
-- 
2.43.0


From fefbf5cd62270d81e2a7c8681a6ca87734231538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:36 +0000
Subject: [PATCH 05/65] fix: compute the quadrature radiances with sfi so that
 mean radiance and flux are defined

---
 src/xrtm_eig_bvp.c    | 124 ++++++++++++++++++++----------------------
 src/xrtm_two_stream.c |   4 +-
 2 files changed, 62 insertions(+), 66 deletions(-)

diff --git a/src/xrtm_eig_bvp.c b/src/xrtm_eig_bvp.c
index 92aab4f..2b3fda6 100644
--- a/src/xrtm_eig_bvp.c
+++ b/src/xrtm_eig_bvp.c
@@ -658,38 +658,36 @@ else {
                      derivs->layers, derivs->beam, derivs->thermal,
                      save_tree, work);
 
-          if (! sfi) {
-               if (! utau_output)
-                    calc_radiance_levels(n_quad_v_x, n_layers, n_derivs,
-                                         n_ulevels, ulevels,
-                                         ltau, ltau_l,
-                                         atran2, atran2_l,
-                                         nu, X_p, X_m,
-                                         Fs_p, Fs_m, Fs1_p, Fs1_m,
-                                         Ft0_p, Ft0_m, Ft1_p, Ft1_m,
-                                         nu_l, X_p_l, X_m_l,
-                                         Fs_p_l, Fs_m_l, Fs1_p_l, Fs1_m_l,
-                                         Ft0_p_l, Ft0_m_l, Ft1_p_l, Ft1_m_l,
-                                         B, B_l,
-                                         I_p, I_m, I_p_l, I_m_l,
-                                         solar, thermal,
-                                         derivs->layers, derivs->beam, derivs->thermal,
-                                         save_tree, work);
-               else
-                    calc_radiance_taus  (n_quad_v_x, n_layers, n_derivs,
-                                         n_ulevels, ulevels, utaus,
-                                         ltau, ltau_l,
-                                         as_0, as_0_l, atran2, atran2_l,
-                                         nu, X_p, X_m,
-                                         Fs_p, Fs_m,
-                                         nu_l, X_p_l, X_m_l,
-                                         Fs_p_l, Fs_m_l,
-                                         B, B_l,
-                                         I_p, I_m, I_p_l, I_m_l,
-                                         solar, thermal,
-                                         derivs->layers, derivs->beam, derivs->thermal,
-                                         save_tree, work);
-          }
+          if (! utau_output)
+               calc_radiance_levels(n_quad_v_x, n_layers, n_derivs,
+                                    n_ulevels, ulevels,
+                                    ltau, ltau_l,
+                                    atran2, atran2_l,
+                                    nu, X_p, X_m,
+                                    Fs_p, Fs_m, Fs1_p, Fs1_m,
+                                    Ft0_p, Ft0_m, Ft1_p, Ft1_m,
+                                    nu_l, X_p_l, X_m_l,
+                                    Fs_p_l, Fs_m_l, Fs1_p_l, Fs1_m_l,
+                                    Ft0_p_l, Ft0_m_l, Ft1_p_l, Ft1_m_l,
+                                    B, B_l,
+                                    I_p, I_m, I_p_l, I_m_l,
+                                    solar, thermal,
+                                    derivs->layers, derivs->beam, derivs->thermal,
+                                    save_tree, work);
+          else
+               calc_radiance_taus  (n_quad_v_x, n_layers, n_derivs,
+                                    n_ulevels, ulevels, utaus,
+                                    ltau, ltau_l,
+                                    as_0, as_0_l, atran2, atran2_l,
+                                    nu, X_p, X_m,
+                                    Fs_p, Fs_m,
+                                    nu_l, X_p_l, X_m_l,
+                                    Fs_p_l, Fs_m_l,
+                                    B, B_l,
+                                    I_p, I_m, I_p_l, I_m_l,
+                                    solar, thermal,
+                                    derivs->layers, derivs->beam, derivs->thermal,
+                                    save_tree, work);
      }
      else {
           solve_bvp2(n_quad_x, n_stokes, n_derivs, n_layers,
@@ -710,38 +708,36 @@ else {
                      derivs->layers, derivs->beam, derivs->thermal,
                      save_tree, work);
 
-          if (! sfi) {
-               if (! utau_output)
-                    calc_radiance_levels2(n_quad_v_x, n_layers, n_derivs,
-                                          n_ulevels, ulevels,
-                                          ltau, ltau_l,
-                                          atran2, atran2_l,
-                                          nu_c, X_p_c, X_m_c,
-                                          Fs_p, Fs_m, Fs1_p, Fs1_m,
-                                          Ft0_p, Ft0_m, Ft1_p, Ft1_m,
-                                          nu_l_c, X_p_l_c, X_m_l_c,
-                                          Fs_p_l, Fs_m_l, Fs1_p_l, Fs1_m_l,
-                                          Ft0_p_l, Ft0_m_l, Ft1_p_l, Ft1_m_l,
-                                          B_c, B_l_c,
-                                          I_p, I_m, I_p_l, I_m_l,
-                                          solar, thermal,
-                                          derivs->layers, derivs->beam, derivs->thermal,
-                                          save_tree, work);
-               else
-                    calc_radiance_taus2  (n_quad_v_x, n_layers, n_derivs,
-                                          n_ulevels, ulevels, utaus,
-                                          ltau, ltau_l,
-                                          as_0, as_0_l, atran2, atran2_l,
-                                          nu_c, X_p_c, X_m_c,
-                                          Fs_p, Fs_m,
-                                          nu_l_c, X_p_l_c, X_m_l_c,
-                                          Fs_p_l, Fs_m_l,
-                                          B_c, B_l_c,
-                                          I_p, I_m, I_p_l, I_m_l,
-                                          solar, thermal,
-                                          derivs->layers, derivs->beam, derivs->thermal,
-                                          save_tree, work);
-               }
+          if (! utau_output)
+               calc_radiance_levels2(n_quad_v_x, n_layers, n_derivs,
+                                     n_ulevels, ulevels,
+                                     ltau, ltau_l,
+                                     atran2, atran2_l,
+                                     nu_c, X_p_c, X_m_c,
+                                     Fs_p, Fs_m, Fs1_p, Fs1_m,
+                                     Ft0_p, Ft0_m, Ft1_p, Ft1_m,
+                                     nu_l_c, X_p_l_c, X_m_l_c,
+                                     Fs_p_l, Fs_m_l, Fs1_p_l, Fs1_m_l,
+                                     Ft0_p_l, Ft0_m_l, Ft1_p_l, Ft1_m_l,
+                                     B_c, B_l_c,
+                                     I_p, I_m, I_p_l, I_m_l,
+                                     solar, thermal,
+                                     derivs->layers, derivs->beam, derivs->thermal,
+                                     save_tree, work);
+          else
+               calc_radiance_taus2  (n_quad_v_x, n_layers, n_derivs,
+                                     n_ulevels, ulevels, utaus,
+                                     ltau, ltau_l,
+                                     as_0, as_0_l, atran2, atran2_l,
+                                     nu_c, X_p_c, X_m_c,
+                                     Fs_p, Fs_m,
+                                     nu_l_c, X_p_l_c, X_m_l_c,
+                                     Fs_p_l, Fs_m_l,
+                                     B_c, B_l_c,
+                                     I_p, I_m, I_p_l, I_m_l,
+                                     solar, thermal,
+                                     derivs->layers, derivs->beam, derivs->thermal,
+                                     save_tree, work);
      }
 
 
diff --git a/src/xrtm_two_stream.c b/src/xrtm_two_stream.c
index 504c6af..9dff98a 100644
--- a/src/xrtm_two_stream.c
+++ b/src/xrtm_two_stream.c
@@ -865,7 +865,7 @@ if (0)
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-     if (n_umus == 0) {
+     {
           if (! utau_output) {
                for (i = 0; i < n_ulevels; ++i) {
                     ii = ulevels[i];
@@ -1028,7 +1028,7 @@ else {
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-     else {
+     if (n_umus != 0) {
           v1      = get_work_d1(&work, n_umus);
           v2      = get_work_d1(&work, n_umus);
           v3      = get_work_d1(&work, n_umus);
-- 
2.43.0


From 0f6d19a386b3a08fa9979c9d220166e6166e689d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:36 +0000
Subject: [PATCH 06/65] fix: four/six_stream and mem_bvp ignored isotropic
 illumination (and four_stream quadrature radiances with sfi)

---
 src/xrtm_four_stream.c | 6 ++++--
 src/xrtm_mem_bvp_x.c   | 4 ++--
 src/xrtm_six_stream.c  | 4 +++-
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/xrtm_four_stream.c b/src/xrtm_four_stream.c
index 57ae481..9f13fab 100644
--- a/src/xrtm_four_stream.c
+++ b/src/xrtm_four_stream.c
@@ -723,7 +723,8 @@ if (thermal) {
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-     insert_vector1_d(2, 0, b, -1., F_m[0]);
+     dvec_sub(I1_m, F_m[0], v1, 2);
+     insert_vector1_d(2, 0, b, 1., v1);
 
      ii = 1;
      for (i = 1; i < n_layers; ++i) {
@@ -740,6 +741,7 @@ if (thermal) {
 
      if (! surface) {
           dvec_scale(-atran[n_layers - 1], F_p[n_layers - 1], v1, 2);
+          dvec_add(In_p, v1, v1, 2);
 
           insert_vector1_d(2, 2 * n_layers - 1, b, 1., v1);
      }
@@ -779,7 +781,7 @@ if (thermal) {
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-if (n_umus == 0) {
+{
      if (! utau_output) {
           for (i = 0; i < n_ulevels; ++i) {
                ii = ulevels[i];
diff --git a/src/xrtm_mem_bvp_x.c b/src/xrtm_mem_bvp_x.c
index 5581202..6c2f4e4 100644
--- a/src/xrtm_mem_bvp_x.c
+++ b/src/xrtm_mem_bvp_x.c
@@ -184,7 +184,7 @@ static void SOLVE_BVP(int n_quad, int n_stokes, int n_derivs, int n_layers,
       *
       *-----------------------------------------------------------------------*/
      for (i = 0; i < n_quad_v; ++i)
-          B[i] = 0.;
+          B[i] = I1_m[i];
 
 
      for (i = 0; i < n_quad_v; ++i)
@@ -334,7 +334,7 @@ static void SOLVE_BVP(int n_quad, int n_stokes, int n_derivs, int n_layers,
           xvec_zero(B_l[m], n_comp);
 
           for (i = 0; i < n_quad_v; ++i)
-               B_l[m][i] = 0.;
+               B_l[m][i] = I1_m_l[m][i];
 
           for (i = 0; i < n_quad_v; ++i) {
                B_l[m][n_comp - n_quad_v + i] = In_p_l[m][i];
diff --git a/src/xrtm_six_stream.c b/src/xrtm_six_stream.c
index 802e099..d6feead 100644
--- a/src/xrtm_six_stream.c
+++ b/src/xrtm_six_stream.c
@@ -954,7 +954,8 @@ if (n_derivs > 0) {
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-     insert_vector1_d(3, 0, b, -1., F_m[0]);
+     dvec_sub(I1_m, F_m[0], v1, 3);
+     insert_vector1_d(3, 0, b, 1., v1);
 
      ii = 1;
      for (i = 1; i < n_layers; ++i) {
@@ -971,6 +972,7 @@ if (n_derivs > 0) {
 
      if (! surface) {
           dvec_scale(-atran[n_layers - 1], F_p[n_layers - 1], v1, 3);
+          dvec_add(In_p, v1, v1, 3);
 
           insert_vector1_d(3, 2 * n_layers - 1, b, 1., v1);
      }
-- 
2.43.0


From c4916c645fb18369df88be2b690416d62fd711b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:27 +0000
Subject: [PATCH 07/65] fix: coefficients beyond a layer's own count were left
 uninitialised for the two/four/six stream solvers

---
 src/xrtm_interface.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index ee7a45d..07bb6f5 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -4070,6 +4070,9 @@ static int xrtm_set_coef_x(xrtm_data *d, double ***coef,
                for (k = 0; k < d->n_coef_layer[i]; ++k) {
                     d->coef0[i][j][k] = coef[ii][j][k];
                }
+               for ( ; k < d->n_coef; ++k) {
+                    d->coef0[i][j][k] = 0.;
+               }
           }
 
           if (d->inputs_initialized)
@@ -4212,6 +4215,9 @@ static int xrtm_set_coef_x_l(xrtm_data *d, void *coef_l, int i_layer, int n_laye
 
                          d->coef0_l[i][j][k][l] = a;
                     }
+                    for ( ; l < d->n_coef; ++l) {
+                         d->coef0_l[i][j][k][l] = 0.;
+                    }
                }
           }
      }
-- 
2.43.0


From 959382c96c7fc8fea364d7596290aed2aff232ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:46 +0000
Subject: [PATCH 08/65] fix: four/six_stream particular solution used 1/mu_0
 instead of the layer average secant (PSA)

---
 src/xrtm_four_stream.c |  8 ++++----
 src/xrtm_six_stream.c  | 10 +++++-----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/xrtm_four_stream.c b/src/xrtm_four_stream.c
index 9f13fab..9176a4d 100644
--- a/src/xrtm_four_stream.c
+++ b/src/xrtm_four_stream.c
@@ -542,8 +542,8 @@ if (solar) {
           h[0] = apb[0][0] * p[0] + apb[0][1] * p[1] + e[0];
           h[1] = apb[1][0] * p[0] + apb[1][1] * p[1] + e[1];
 
-          F_p[i][0] = (mu_0 * h[0] + p[0]) / 2.;
-          F_p[i][1] = (mu_0 * h[1] + p[1]) / 2.;
+          F_p[i][0] = (h[0] / as_0[i] + p[0]) / 2.;
+          F_p[i][1] = (h[1] / as_0[i] + p[1]) / 2.;
 
           F_m[i][0] = F_p[i][0] - p[0];
           F_m[i][1] = F_p[i][1] - p[1];
@@ -558,7 +558,7 @@ if (solar) {
           mat2d_matvec(apb, p, v1);
           vec2d_add(v1, e, h);
 
-          vec2d_scale(mu_0, h, v1);
+          vec2d_scale(1. / as_0[i], h, v1);
           vec2d_add(v1, p, v1);
           vec2d_scale(.5, v1, F_p[i]);
 
@@ -574,7 +574,7 @@ if (solar) {
           dm_v_mul(apb, p, 2, 2, v1);
           dvec_add(v1, e, h, 2);
 
-          dvec_scale(mu_0, h, v1, 2);
+          dvec_scale(1. / as_0[i], h, v1, 2);
           dvec_add(v1, p, v1, 2);
           dvec_scale(.5, v1, F_p[i], 2);
 
diff --git a/src/xrtm_six_stream.c b/src/xrtm_six_stream.c
index d6feead..0b01b70 100644
--- a/src/xrtm_six_stream.c
+++ b/src/xrtm_six_stream.c
@@ -792,9 +792,9 @@ if (n_derivs > 0) {
           h[1] = apb[1][0] * p[0] + apb[1][1] * p[1] + apb[1][2] * p[2] + e[1];
           h[2] = apb[2][0] * p[0] + apb[2][1] * p[1] + apb[2][2] * p[2] + e[2];
 
-          F_p[i][0] = (mu_0 * h[0] + p[0]) / 2.;
-          F_p[i][1] = (mu_0 * h[1] + p[1]) / 2.;
-          F_p[i][2] = (mu_0 * h[2] + p[2]) / 2.;
+          F_p[i][0] = (h[0] / as_0[i] + p[0]) / 2.;
+          F_p[i][1] = (h[1] / as_0[i] + p[1]) / 2.;
+          F_p[i][2] = (h[2] / as_0[i] + p[2]) / 2.;
 
           F_m[i][0] = F_p[i][0] - p[0];
           F_m[i][1] = F_p[i][1] - p[1];
@@ -810,7 +810,7 @@ if (n_derivs > 0) {
           mat3d_matvec(apb, p, v1);
           vec3d_add(v1, e, h);
 
-          vec3d_scale(mu_0, h, v1);
+          vec3d_scale(1. / as_0[i], h, v1);
           vec3d_add(v1, p, v1);
           vec3d_scale(.5, v1, F_p[i]);
 
@@ -826,7 +826,7 @@ if (n_derivs > 0) {
           dm_v_mul(apb, p, 3, 3, v1);
           dvec_add(v1, e, h, 3);
 
-          dvec_scale(mu_0, h, v1, 3);
+          dvec_scale(1. / as_0[i], h, v1, 3);
           dvec_add(v1, p, v1, 3);
           dvec_scale(.5, v1, F_p[i], 3);
 
-- 
2.43.0


From e2a51bef430338e966c0ab4dc2a8d0701ee4e765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:58 +0000
Subject: [PATCH 09/65] fix: four/six_stream ignored the quadrature type

---
 src/xrtm_four_stream.c |  61 -------------------
 src/xrtm_six_stream.c  | 133 -----------------------------------------
 2 files changed, 194 deletions(-)

diff --git a/src/xrtm_four_stream.c b/src/xrtm_four_stream.c
index 9176a4d..3c4a6db 100644
--- a/src/xrtm_four_stream.c
+++ b/src/xrtm_four_stream.c
@@ -51,63 +51,6 @@ void dgbtrs_(const char *, int *, int *, int *, int *, double *, int *, int *, d
 #endif
 
 
-/*******************************************************************************
- *
- ******************************************************************************/
-static void calc_Y_1(int i_four, double *Y) {
-
-     /* This code was automatically generated
-        with function print_Y_x_constant_code() */
-
-     if (i_four == 0) {
-          Y[0] =  1.0000000000000000e+00;
-          Y[1] =  2.1132486540518713e-01;
-          Y[2] = -4.3301270189221930e-01;
-          Y[3] = -2.9339382851364088e-01;
-     }
-     else if (i_four == 1) {
-          Y[1] = -6.9113739634803417e-01;
-          Y[2] = -2.5297384456881489e-01;
-          Y[3] =  3.2872926407690672e-01;
-     }
-     else if (i_four == 2) {
-          Y[2] =  5.8502498576049988e-01;
-          Y[3] =  2.7644581385388761e-01;
-     }
-     else if (i_four == 3) {
-          Y[3] = -5.2199120072772409e-01;
-     }
-}
-
-
-
-static void calc_Y_2(int i_four, double *Y) {
-
-     /* This code was automatically generated
-        with function print_Y_x_constant_code() */
-
-     if (i_four == 0) {
-          Y[0] =  1.0000000000000000e+00;
-          Y[1] =  7.8867513459481287e-01;
-          Y[2] =  4.3301270189221941e-01;
-          Y[3] =  4.3393828513641042e-02;
-     }
-     else if (i_four == 1) {
-          Y[1] = -4.3473643283710062e-01;
-          Y[2] = -5.9386101120610690e-01;
-          Y[3] = -5.6173675511805921e-01;
-     }
-     else if (i_four == 2) {
-          Y[2] =  2.3147159516722612e-01;
-          Y[3] =  4.0820738302757004e-01;
-     }
-     else if (i_four == 3) {
-          Y[3] = -1.2991165542275507e-01;
-     }
-}
-
-
-
 /*******************************************************************************
  *
  ******************************************************************************/
@@ -303,12 +246,8 @@ void rtm_four_stream(int i_four,
 
      exit(1);
 */
-     calc_Y_1(i_four, Y_q[0]);
-     calc_Y_2(i_four, Y_q[1]);
-/*
      calc_Y_x(i_four, qx[0], Y_q[0]);
      calc_Y_x(i_four, qx[1], Y_q[1]);
-*/
      calc_Y_x(i_four, -mu_0, Y_0);
 
 if (n_derivs > 0) {
diff --git a/src/xrtm_six_stream.c b/src/xrtm_six_stream.c
index 0b01b70..43b54af 100644
--- a/src/xrtm_six_stream.c
+++ b/src/xrtm_six_stream.c
@@ -50,134 +50,6 @@ void dgbtrs_(const char *, int *, int *, int *, int *, double *, int *, int *, d
 #endif
 
 
-/*******************************************************************************
- *
- ******************************************************************************/
-static void calc_Y_1(int i_four, double *Y) {
-
-     /* This code was automatically generated
-        with function print_Y_x_constant_code() */
-
-     if (i_four == 0) {
-          Y[0] =  1.0000000000000000e+00;
-          Y[1] =  1.1270166537925830e-01;
-          Y[2] = -4.8094750193111252e-01;
-          Y[3] = -1.6547375096555625e-01;
-          Y[4] =  3.2807458365518544e-01;
-          Y[5] =  1.9893319427622813e-01;
-     }
-     else if (i_four == 1) {
-          Y[1] = -7.0260171314221176e-01;
-          Y[2] = -1.3715137481548439e-01;
-          Y[3] =  4.0292921564868400e-01;
-          Y[4] = -1.8223631786344985e-01;
-          Y[5] =  2.8081218084679899e-01;
-     }
-     else if (i_four == 2) {
-          Y[2] =  6.0459428593010522e-01;
-          Y[3] =  1.5236295047544621e-01;
-          Y[4] = -3.5556492019184532e-01;
-          Y[5] = -1.9387690021392759e-01;
-     }
-     else if (i_four == 3) {
-          Y[3] = -5.4840021642031433e-01;
-          Y[4] =  1.6352229402102095e-01;
-          Y[5] = -3.2126686945422495e-01;
-     }
-     else if (i_four == 4) {
-          Y[4] =  5.0971315964803132e-01;
-          Y[5] =  1.7233656587417068e-01;
-     }
-     else if (i_four == 5) {
-          Y[5] =  4.8047556172276995e-01;
-     }
-}
-
-
-
-static void calc_Y_2(int i_four, double *Y) {
-
-     /* This code was automatically generated
-        with function print_Y_x_constant_code() */
-
-     if (i_four == 0) {
-          Y[0] =  1.0000000000000000e+00;
-          Y[1] =  5.0000000000000000e-01;
-          Y[2] = -1.2500000000000000e-01;
-          Y[3] = -4.3750000000000000e-01;
-          Y[4] = -2.8906250000000000e-01;
-          Y[5] =  8.9843750000000000e-02;
-     }
-     else if (i_four == 1) {
-          Y[1] = -6.1237243569579447e-01;
-          Y[2] = -5.3033008588991071e-01;
-          Y[3] = -9.3750000000000014e-02;
-          Y[4] = -3.0257682392245444e-01;
-          Y[5] = -3.5205044263593283e-01;
-     }
-     else if (i_four == 2) {
-          Y[2] =  4.5927932677184591e-01;
-          Y[3] =  5.1348989766109321e-01;
-          Y[4] =  2.2234764798058917e-01;
-          Y[5] = -1.6982082124440748e-01;
-     }
-     else if (i_four == 3) {
-          Y[3] = -3.6309218870694526e-01;
-          Y[4] =  4.8032581715435607e-01;
-          Y[5] =  3.0020363572147252e-01;
-     }
-     else if (i_four == 4) {
-          Y[4] =  2.9413829057838586e-01;
-          Y[5] =  4.4120743586757882e-01;
-     }
-     else if (i_four == 5) {
-          Y[5] =  2.4165926516368683e-01;
-     }
-}
-
-
-
-static void calc_Y_3(int i_four, double *Y) {
-
-     /* This code was automatically generated
-        with function print_Y_x_constant_code() */
-
-     if (i_four == 0) {
-          Y[0] =  1.0000000000000000e+00;
-          Y[1] =  8.8729833462074170e-01;
-          Y[2] =  6.8094750193111264e-01;
-          Y[3] =  4.1547375096555617e-01;
-          Y[4] =  1.3442541634481442e-01;
-          Y[5] = -1.1768319427622852e-01;
-     }
-     else if (i_four == 1) {
-          Y[1] = -3.2611475386683919e-01;
-          Y[2] = -5.0118808883115185e-01;
-          Y[3] = -5.8642821144342672e-01;
-          Y[4] =  5.7443661482497066e-01;
-          Y[5] =  4.7276033207965390e-01;
-     }
-     else if (i_four == 2) {
-          Y[2] =  1.3025263690484826e-01;
-          Y[3] =  2.5842896765342832e-01;
-          Y[4] =  3.7928200264310813e-01;
-          Y[5] =  4.6559021420497959e-01;
-     }
-     else if (i_four == 3) {
-          Y[3] = -5.4837967049776844e-02;
-          Y[4] =  1.2873600645546979e-01;
-          Y[5] =  2.2073939349622659e-01;
-     }
-     else if (i_four == 4) {
-          Y[4] =  2.3657607267441809e-02;
-          Y[5] =  6.2974066588538019e-02;
-     }
-     else if (i_four == 5) {
-          Y[5] =  1.0350885816619845e-02;
-     }
-}
-
-
 /*******************************************************************************
  *
  ******************************************************************************/
@@ -463,14 +335,9 @@ void rtm_six_stream(int i_four,
 
      exit(1);
 */
-     calc_Y_1(i_four, Y_q[0]);
-     calc_Y_2(i_four, Y_q[1]);
-     calc_Y_3(i_four, Y_q[2]);
-/*
      calc_Y_x(i_four, qx[0], Y_q[0]);
      calc_Y_x(i_four, qx[1], Y_q[1]);
      calc_Y_x(i_four, qx[2], Y_q[2]);
-*/
      calc_Y_x(i_four, -mu_0, Y_0);
 
 if (n_derivs > 0) {
-- 
2.43.0


From ec955d88c5621d481b07853572cf4e9669c28d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:31 +0000
Subject: [PATCH 10/65] fix: four/six_stream sfi radiances ignored isotropic
 illumination

---
 src/prototypes/xrtm_four_stream_p.h | 2 +-
 src/prototypes/xrtm_six_stream_p.h  | 2 +-
 src/xrtm_four_stream.c              | 6 +++---
 src/xrtm_model.c                    | 4 ++--
 src/xrtm_six_stream.c               | 6 +++---
 5 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/prototypes/xrtm_four_stream_p.h b/src/prototypes/xrtm_four_stream_p.h
index 767d103..919f616 100644
--- a/src/prototypes/xrtm_four_stream_p.h
+++ b/src/prototypes/xrtm_four_stream_p.h
@@ -1,2 +1,2 @@
 /* xrtm_four_stream.c */
-void rtm_four_stream(int i_four, int n_derivs, int n_layers, double *qx, double *qw, double F_0, double mu_0, int n_ulevels, int *ulevels, double *utaus, int n_umus, double *umus, double ***coef, double ****coef_l, double *omega, double **omega_l, double *ltau, double **ltau_l, double *btran, double **btran_l, double *as_0, double **as_0_l, double *atran, double **atran_l, double *Rs_q0, double **Rs_q0_l, double **Rs_qq, double ***Rs_qq_l, double *Rs_u0, double **Rs_u0_l, double **Rs_uq, double ***Rs_uq_l, double *I1_m, double **I1_m_l, double *In_p, double **In_p_l, double **I_p, double **I_m, double ***I_p_l, double ***I_m_l, int add_single_scattering, int solar, int thermal, int surface, int upwelling, int downwelling, int utau_output, derivs_data *derivs, save_tree_data save_tree, work_data work);
+void rtm_four_stream(int i_four, int n_derivs, int n_layers, double *qx, double *qw, double F_0, double mu_0, int n_ulevels, int *ulevels, double *utaus, int n_umus, double *umus, double ***coef, double ****coef_l, double *omega, double **omega_l, double *ltau, double **ltau_l, double *btran, double **btran_l, double *as_0, double **as_0_l, double *atran, double **atran_l, double *Rs_q0, double **Rs_q0_l, double **Rs_qq, double ***Rs_qq_l, double *Rs_u0, double **Rs_u0_l, double **Rs_uq, double ***Rs_uq_l, double F_iso_top, double F_iso_bot, double *I1_m, double **I1_m_l, double *In_p, double **In_p_l, double **I_p, double **I_m, double ***I_p_l, double ***I_m_l, int add_single_scattering, int solar, int thermal, int surface, int upwelling, int downwelling, int utau_output, derivs_data *derivs, save_tree_data save_tree, work_data work);
diff --git a/src/prototypes/xrtm_six_stream_p.h b/src/prototypes/xrtm_six_stream_p.h
index 392ac39..b1fe934 100644
--- a/src/prototypes/xrtm_six_stream_p.h
+++ b/src/prototypes/xrtm_six_stream_p.h
@@ -1,2 +1,2 @@
 /* xrtm_six_stream.c */
-void rtm_six_stream(int i_four, int n_derivs, int n_layers, double *qx, double *qw, double F_0, double mu_0, int n_ulevels, int *ulevels, double *utaus, int n_umus, double *umus, double ***coef, double ****coef_l, double *omega, double **omega_l, double *ltau, double **ltau_l, double *btran, double **btran_l, double *as_0, double **as_0_l, double *atran, double **atran_l, double *Rs_q0, double **Rs_q0_l, double **Rs_qq, double ***Rs_qq_l, double *Rs_u0, double **Rs_u0_l, double **Rs_uq, double ***Rs_uq_l, double *I1_m, double **I1_m_l, double *In_p, double **In_p_l, double **I_p, double **I_m, double ***I_p_l, double ***I_m_l, int add_single_scattering, int solar, int thermal, int surface, int upwelling, int downwelling, int utau_output, derivs_data *derivs, save_tree_data save_tree, work_data work);
+void rtm_six_stream(int i_four, int n_derivs, int n_layers, double *qx, double *qw, double F_0, double mu_0, int n_ulevels, int *ulevels, double *utaus, int n_umus, double *umus, double ***coef, double ****coef_l, double *omega, double **omega_l, double *ltau, double **ltau_l, double *btran, double **btran_l, double *as_0, double **as_0_l, double *atran, double **atran_l, double *Rs_q0, double **Rs_q0_l, double **Rs_qq, double ***Rs_qq_l, double *Rs_u0, double **Rs_u0_l, double **Rs_uq, double ***Rs_uq_l, double F_iso_top, double F_iso_bot, double *I1_m, double **I1_m_l, double *In_p, double **In_p_l, double **I_p, double **I_m, double ***I_p_l, double ***I_m_l, int add_single_scattering, int solar, int thermal, int surface, int upwelling, int downwelling, int utau_output, derivs_data *derivs, save_tree_data save_tree, work_data work);
diff --git a/src/xrtm_four_stream.c b/src/xrtm_four_stream.c
index 3c4a6db..441b96b 100644
--- a/src/xrtm_four_stream.c
+++ b/src/xrtm_four_stream.c
@@ -65,7 +65,7 @@ void rtm_four_stream(int i_four,
                      double *as_0, double **as_0_l, double *atran, double **atran_l,
                      double *Rs_q0, double **Rs_q0_l, double **Rs_qq, double ***Rs_qq_l,
                      double *Rs_u0, double **Rs_u0_l, double **Rs_uq, double ***Rs_uq_l,
-                     double *I1_m, double **I1_m_l, double *In_p, double **In_p_l,
+                     double F_iso_top, double F_iso_bot, double *I1_m, double **I1_m_l, double *In_p, double **In_p_l,
                      double **I_p, double **I_m, double ***I_p_l, double ***I_m_l,
                      int add_single_scattering, int solar, int thermal, int surface,
                      int upwelling, int downwelling, int utau_output,
@@ -1161,7 +1161,7 @@ if (n_umus != 0) {
                  NULL, NULL,
                  Rs_u0, Rs_u0_l, Rs_uq, Rs_uq_l,
                  b, NULL,
-                 0., NULL,
+                 F_iso_bot, NULL,
                  I_m2, NULL, I_p, NULL, 2,
                  1, 0, surface, 1, 0, utau_output,
                  NULL, work);
@@ -1189,7 +1189,7 @@ if (n_umus != 0) {
                  NULL, NULL,
                  NULL, NULL,
                  b, NULL,
-                 0., NULL,
+                 F_iso_top, NULL,
                  I_m2, NULL, I_m, NULL, 2,
                  1, 0, 1, 0, utau_output,
                  NULL, work);
diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 48ef748..2de4c0b 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -5302,7 +5302,7 @@ if (! (d->solvers & XRTM_SOLVER_TWO_STREAM)) {
                           d->as_0, d->as_0_l, d->atran, d->atran_l,
                           Rs_q0, Rs_q0_l, Rs_qq, Rs_qq_l,
                           Rs_u0, Rs_u0_l, Rs_uq, Rs_uq_l,
-                          d->I1_m[i_four], I1_m_l, d->In_p[i_four], In_p_l,
+                          d->F_iso_top, d->F_iso_bot, d->I1_m[i_four], I1_m_l, d->In_p[i_four], In_p_l,
                           I_p, I_m, I_p_l, I_m_l,
                           add_single_scattering,
                           solar, thermal, surface,
@@ -5322,7 +5322,7 @@ if (! (d->solvers & XRTM_SOLVER_TWO_STREAM)) {
                           d->as_0, d->as_0_l, d->atran, d->atran_l,
                           Rs_q0, Rs_q0_l, Rs_qq, Rs_qq_l,
                           Rs_u0, Rs_u0_l, Rs_uq, Rs_uq_l,
-                          d->I1_m[i_four], I1_m_l, d->In_p[i_four], In_p_l,
+                          d->F_iso_top, d->F_iso_bot, d->I1_m[i_four], I1_m_l, d->In_p[i_four], In_p_l,
                           I_p, I_m, I_p_l, I_m_l,
                           add_single_scattering,
                           solar, thermal, surface,
diff --git a/src/xrtm_six_stream.c b/src/xrtm_six_stream.c
index 43b54af..e3412f3 100644
--- a/src/xrtm_six_stream.c
+++ b/src/xrtm_six_stream.c
@@ -144,7 +144,7 @@ void rtm_six_stream(int i_four,
                     double *as_0, double **as_0_l, double *atran, double **atran_l,
                     double *Rs_q0, double **Rs_q0_l, double **Rs_qq, double ***Rs_qq_l,
                     double *Rs_u0, double **Rs_u0_l, double **Rs_uq, double ***Rs_uq_l,
-                    double *I1_m, double **I1_m_l, double *In_p, double **In_p_l,
+                    double F_iso_top, double F_iso_bot, double *I1_m, double **I1_m_l, double *In_p, double **In_p_l,
                     double **I_p, double **I_m, double ***I_p_l, double ***I_m_l,
                     int add_single_scattering, int solar, int thermal, int surface,
                     int upwelling, int downwelling, int utau_output,
@@ -1428,7 +1428,7 @@ if (n_umus != 0) {
                  NULL, NULL,
                  Rs_u0, Rs_u0_l, Rs_uq, Rs_uq_l,
                  b, NULL,
-                 0., NULL,
+                 F_iso_bot, NULL,
                  I_m2, NULL, I_p, NULL, 3,
                  1, 0, surface, 1, 0, utau_output,
                  NULL, work);
@@ -1456,7 +1456,7 @@ if (n_umus != 0) {
                  NULL, NULL,
                  NULL, NULL,
                  b, NULL,
-                 0., NULL,
+                 F_iso_top, NULL,
                  I_m2, NULL, I_m, NULL, 3,
                  1, 0, 1, 0, utau_output,
                  NULL, work);
-- 
2.43.0


From fecb7a5acb35fa6b55a26715a33822654d3e0325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:05 +0000
Subject: [PATCH 11/65] fix: two/four/six_stream are scalar solvers and
 returned uninitialized Stokes parameters

---
 src/xrtm_interface.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 07bb6f5..04296b0 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -650,6 +650,11 @@ int xrtm_check_solvers(int options, int solvers, int max_coef, int n_quad, int n
               return XRTM_INT_ERROR;
      }
 
+     if (n_stokes != 1) {
+          if (check_solvers(solvers, 0, report, "option", "n_stokes != 1", XRTM_SOLVER_FOUR_STREAM, XRTM_SOLVER_SIX_STREAM, XRTM_SOLVER_TWO_STREAM, 0))
+              return XRTM_INT_ERROR;
+     }
+
      if (n_theta_0s != 1) {
           if (check_solvers(solvers, 0, report, "option", "n_theta_0s != 1", XRTM_SOLVER_EIG_ADD, XRTM_SOLVER_EIG_BVP, XRTM_SOLVER_FOUR_STREAM, XRTM_SOLVER_MEM_BVP, XRTM_SOLVER_PADE_ADD, XRTM_SOLVER_SINGLE, XRTM_SOLVER_SIX_STREAM, XRTM_SOLVER_SOS, XRTM_SOLVER_TWO_OS, XRTM_SOLVER_TWO_STREAM, 0))
               return XRTM_INT_ERROR;
-- 
2.43.0


From 48f3eefae098adc0364dd9e0e6c8c5f9cf7cb355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:22 +0000
Subject: [PATCH 12/65] fix: four/six_stream have no derivatives and returned
 zeros for them

---
 src/xrtm_interface.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 04296b0..3e4a6e0 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -675,6 +675,11 @@ int xrtm_check_solvers(int options, int solvers, int max_coef, int n_quad, int n
                return XRTM_INT_ERROR;
      }
 
+     if (options & XRTM_OPTION_CALC_DERIVS) {
+          if (check_solvers(solvers, 0, report, "option", xrtm_option_mask_to_name(XRTM_OPTION_CALC_DERIVS), XRTM_SOLVER_FOUR_STREAM, XRTM_SOLVER_SIX_STREAM, 0))
+              return XRTM_INT_ERROR;
+     }
+
      if (options & XRTM_OPTION_N_T_TMS) {
           if (check_solvers(solvers, 0, report, "option", xrtm_option_mask_to_name(XRTM_OPTION_N_T_TMS), XRTM_SOLVER_TWO_OS, 0))
                return XRTM_INT_ERROR;
-- 
2.43.0


From 3003bb61eb06d25d73f30bf1d9ef64d62d939791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:40 +0000
Subject: [PATCH 13/65] fix: single scattering output was initialized with
 swapped angle and azimuth counts (out of bounds)

---
 src/xrtm_model.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 2de4c0b..c410b97 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -4371,10 +4371,10 @@ static void get_single(xrtm_data *d, int n_phis, double **phis, double ****I_p,
 /*
      init_array4_d(I_p, d->n_ulevels, n_phis, n_mus2, d->n_stokes, 0.);
 */
-     init_array4_d(I_m, d->n_ulevels, n_phis, n_mus2, d->n_stokes, 0.);
+     init_array4_d(I_m, d->n_ulevels, n_mus2, n_phis, d->n_stokes, 0.);
 
      if (d->options & XRTM_OPTION_CALC_DERIVS) {
-          init_array5_d(I_p_l, d->n_ulevels, d->n_derivs, n_phis, n_mus2, d->n_stokes, 0.);
+          init_array5_d(I_p_l, d->n_ulevels, d->n_derivs, n_mus2, n_phis, d->n_stokes, 0.);
 /*
           init_array5_d(I_m_l, d->n_ulevels, d->n_derivs, n_phis, n_mus2, d->n_stokes, 0.);
 */
-- 
2.43.0


From 91b663e57298c8de9d51f3b6284d5d2f7a007f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:23 +0000
Subject: [PATCH 14/65] fix: surface kernels: derivatives with respect to
 amplitude used an uninitialised kernel derivative

---
 src/xrtm_brdf.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_brdf.c b/src/xrtm_brdf.c
index 6e5fe1d..0ab26f0 100644
--- a/src/xrtm_brdf.c
+++ b/src/xrtm_brdf.c
@@ -808,8 +808,10 @@ void brdf_build_kernel_vecs(int i_offset, int n_quad, int j_offset, int n_stokes
      }
 
      for (i = 0; i < n_kernels; ++i) {
-          if (flags_or(derivs, n_derivs))
+          if (flags_or(derivs, n_derivs)) {
                params_l2 = params_l[i];
+               init_array1_d(f_l, n_derivs, 0.);
+          }
 
           flag = brdf_needs_fourier(kernels + i, 1);
 
@@ -949,8 +951,10 @@ void brdf_build_kernel_mats(int i_offset, int n_quad1, int j_offset, int n_quad2
      }
 
      for (i = 0; i < n_kernels; ++i) {
-          if (flags_or(derivs, n_derivs))
+          if (flags_or(derivs, n_derivs)) {
                params_l2 = params_l[i];
+               init_array1_d(f_l, n_derivs, 0.);
+          }
 
           flag = brdf_needs_fourier(kernels + i, 1);
 
-- 
2.43.0


From 8ca1efbe6756ab8e2e6cecc9dabd297fd8d92e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:23 +0000
Subject: [PATCH 15/65] fix: direct beam derivative at optical depths ignored
 the change of the depth itself

---
 src/xrtm_model.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index c410b97..4c0dd8b 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -6079,6 +6079,8 @@ static double direct_beam_l(xrtm_data *d, int i, int i_deriv) {
 
      int ii;
 
+     double utau_l;
+
      if (! (d->options & XRTM_OPTION_SOURCE_SOLAR))
           return 0.;
 
@@ -6087,7 +6089,9 @@ static double direct_beam_l(xrtm_data *d, int i, int i_deriv) {
      if (! (d->options & XRTM_OPTION_OUTPUT_AT_TAUS))
           return d->F_0 * d->btran_l[ii][i_deriv];
 
-     return d->F_0 * (d->btran_l[ii][i_deriv] - d->btran[ii] * d->utaus2[i] * d->as_0_l[ii][i_deriv]) * exp(-d->utaus2[i] * d->as_0[ii]);
+     utau_l = d->utaus2[i] * d->ltau_l[ii][i_deriv] / d->ltau[ii];
+
+     return d->F_0 * (d->btran_l[ii][i_deriv] - d->btran[ii] * (utau_l * d->as_0[ii] + d->utaus2[i] * d->as_0_l[ii][i_deriv])) * exp(-d->utaus2[i] * d->as_0[ii]);
 }
 
 
-- 
2.43.0


From 37febeaeb5b1584be973ca20d18f43e5e4892bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:23 +0000
Subject: [PATCH 16/65] fix: two_os: derivatives with respect to a layer
 average secant

---
 src/xrtm_two_os.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/xrtm_two_os.c b/src/xrtm_two_os.c
index 72a3105..426b18e 100644
--- a/src/xrtm_two_os.c
+++ b/src/xrtm_two_os.c
@@ -655,11 +655,11 @@ if (0) {
 
                     for (m = 0; m < n_derivs; ++m) {
                          if (y[k] == x[l])
-                              Phi2_l[j][m][k][l] = (ltau_l[j][m] + ltau[j] * ((-ltau_l[j][m] * (y[k] + as_0[j]) - as_0_l[j][m]))) * b;
+                              Phi2_l[j][m][k][l] = (ltau_l[j][m] + ltau[j] * ((-ltau_l[j][m] * (y[k] + as_0[j]) - ltau[j] * as_0_l[j][m]))) * b;
                          else
                               Phi2_l[j][m][k][l] = ((-ltau_l[j][m] * (y[k] + as_0[j]) - ltau[j] * as_0_l[j][m]) * b - (-ltau_l[j][m] * (x[l] + as_0[j]) - ltau[j] * as_0_l[j][m]) * c) / (x[l] - y[k]);
                          if (as_0[j] == x[l])
-                              Phi3_l[j][m][k][l] = (ltau_l[j][m] + ltau[j] * -ltau[j] * (x[l] + y[k])) * d;
+                              Phi3_l[j][m][k][l] = (ltau_l[j][m] + ltau[j] * (-ltau_l[j][m] * (x[l] + y[k]) - ltau[j] * as_0_l[j][m] / 2.)) * d;
                          else
                               Phi3_l[j][m][k][l] = ((-ltau_l[j][m] * (x[l] + y[k]) * d - (-ltau_l[j][m] * (as_0[j] + y[k]) - ltau[j] * as_0_l[j][m]) * e) - Phi3[j][k][l] * as_0_l[j][m]) / (as_0[j] - x[l]);
                     }
@@ -742,7 +742,7 @@ if (0) {
                     a = 0.;
                     for (l = 0; l < n_quad_v_x; ++l) {
                          a += (Phi3_l[j][m][k][l] * R_p[j+1][k][l] + Phi3[j][k][l] * R_p_l[j+1][m][k][l] +
-                               r_m_l[j][m][k][l] * w4[k][l] + r_m[j][k][l] * w1[k][l] * as_0_l[j][m] * (x[l] + y[k]) / ((y[k] + as_0[j]) * (x[l] + y[k])) * w2[k][l] + w3[k][l] * (- Psi1_l[j][m][k] - as_0_l[j][m] * Phi3[j][k][l] - (y[k] + as_0[j]) * Phi3_l[j][m][k][l])) * t_0[j][l];
+                               r_m_l[j][m][k][l] * w4[k][l] + r_m[j][k][l] * -w1[k][l] * as_0_l[j][m] / (y[k] + as_0[j]) * w2[k][l] + w3[k][l] * (- Psi1_l[j][m][k] - as_0_l[j][m] * Phi3[j][k][l] - (y[k] + as_0[j]) * Phi3_l[j][m][k][l])) * t_0[j][l];
 
                          if (derivs->layers[j][m])
                               a += (Phi3[j][k][l] * R_p[j+1][k][l] + r_m[j][k][l] * w4[k][l]) * t_0_l[j][m][l];
-- 
2.43.0


From bfa0d0aeaaa2233c8789518d742eaee3b6acfe3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:23 +0000
Subject: [PATCH 17/65] fix: two_os: second order scattering used the average
 secant where 1/mu_0 belongs (PSA)

---
 src/xrtm_two_os.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_two_os.c b/src/xrtm_two_os.c
index 426b18e..5232f97 100644
--- a/src/xrtm_two_os.c
+++ b/src/xrtm_two_os.c
@@ -734,7 +734,7 @@ if (0) {
                for (l = 0; l < n_quad_v_x; ++l)
                     v1[k] += (Phi3[j][k][l] * R_p[j+1][k][l] + r_m[j][k][l] * w4[k][l]) * t_0[j][l];
 
-               i_p[i][j][k] += as_0[j] / 4. * v1[k];
+               i_p[i][j][k] += 1. / mu_0 / 4. * v1[k];
           }
 
           for (m = 0; m < n_derivs; ++m) {
@@ -748,7 +748,7 @@ if (0) {
                               a += (Phi3[j][k][l] * R_p[j+1][k][l] + r_m[j][k][l] * w4[k][l]) * t_0_l[j][m][l];
                     }
 
-                    i_p_l[i][j][m][k] += (as_0_l[j][m] * v1[k] + as_0[j] * a) / 4.;
+                    i_p_l[i][j][m][k] += 1. / mu_0 * a / 4.;
                }
           }
      }
-- 
2.43.0


From bce06fa4581f20d001b334d8e27bbd97ae5811ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:07 +0000
Subject: [PATCH 18/65] fix: reverse mode of the boundary value solver saved
 local matrices in buffers sized by the wrong count (out of bounds)

---
 src/xrtm_model.c   | 8 ++++----
 src/xrtm_model_a.c | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 4c0dd8b..95d5fd5 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -5367,12 +5367,12 @@ if (! (d->solvers & XRTM_SOLVER_TWO_STREAM)) {
                     }
                }
 
-               copy_array2_d(save->r_p[i], r_p[i], d->n_umus_v, d->n_quad_v_x);
-               copy_array2_d(save->t_p[i], t_p[i], d->n_umus_v, d->n_quad_v_x);
+               copy_array2_d(save->r_p[i], r_p[i], d->n_quad_v_x, d->n_quad_v_x);
+               copy_array2_d(save->t_p[i], t_p[i], d->n_quad_v_x, d->n_quad_v_x);
 
                if (d->options & XRTM_OPTION_VECTOR) {
-                    copy_array2_d(save->r_m[i], r_m[i], d->n_umus_v, d->n_quad_v_x);
-                    copy_array2_d(save->t_m[i], t_m[i], d->n_umus_v, d->n_quad_v_x);
+                    copy_array2_d(save->r_m[i], r_m[i], d->n_quad_v_x, d->n_quad_v_x);
+                    copy_array2_d(save->t_m[i], t_m[i], d->n_quad_v_x, d->n_quad_v_x);
                }
 
           }
diff --git a/src/xrtm_model_a.c b/src/xrtm_model_a.c
index 69dc4eb..a216d02 100644
--- a/src/xrtm_model_a.c
+++ b/src/xrtm_model_a.c
@@ -2458,12 +2458,12 @@ int forward_save_fourier_get_bvp_alloc(forward_save_fourier_get_bvp_data *d, int
           }
      }
 
-     d->r_p = alloc_array3_d(n_layers, n_umus_v, n_quad_v_x);
-     d->t_p = alloc_array3_d(n_layers, n_umus_v, n_quad_v_x);
+     d->r_p = alloc_array3_d(n_layers, n_quad_v_x, n_quad_v_x);
+     d->t_p = alloc_array3_d(n_layers, n_quad_v_x, n_quad_v_x);
 
      if (options & XRTM_OPTION_VECTOR) {
-          d->r_m = alloc_array3_d(n_layers, n_umus_v, n_quad_v_x);
-          d->t_m = alloc_array3_d(n_layers, n_umus_v, n_quad_v_x);
+          d->r_m = alloc_array3_d(n_layers, n_quad_v_x, n_quad_v_x);
+          d->t_m = alloc_array3_d(n_layers, n_quad_v_x, n_quad_v_x);
      }
 
      if (surface) {
-- 
2.43.0


From 8af4498f8fbee6a6e98b2f40ec8ce05a03bfcd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:06 +0000
Subject: [PATCH 19/65] fix: boundary conditions did not see changes of the
 surface Planck term, of the linearised isotropic sources or of the output
 angles

---
 src/xrtm_model.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 95d5fd5..754da49 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -4161,7 +4161,9 @@ if (d->derivs.layers[d->n_layers][i]) {
 static int diff_bound_input_deps(xrtm_data *d) {
 
      return opt_props_deps(d) | beam_params_deps(d) |
-            DEP_MASK_F_ISO_TOP | DEP_MASK_F_ISO_BOT | DEP_MASK_F_0 | DEP_MASK_MU_0 | DEP_MASK_BRDF | DEP_MASK_BRDF_L;
+            DEP_MASK_F_ISO_TOP | DEP_MASK_F_ISO_TOP_L | DEP_MASK_F_ISO_BOT | DEP_MASK_F_ISO_BOT_L |
+            DEP_MASK_F_0 | DEP_MASK_MU_0 | DEP_MASK_UMUS | DEP_MASK_SURFACE_B | DEP_MASK_SURFACE_B_L |
+            DEP_MASK_BRDF | DEP_MASK_BRDF_L;
 }
 
 
-- 
2.43.0


From 787f138aac2d6e4b0abd25a3606cf1ccbd411c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:33 +0000
Subject: [PATCH 20/65] fix: layers below a changed layer kept the direct beam
 attenuation of the old optical properties

---
 src/xrtm_interface.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 3e4a6e0..2dbc76a 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -442,6 +442,10 @@ static void set_deps(xrtm_data *d, int dep, int i_layer, int n_layers) {
           d->dep_flags_beam_params [i]      |= dep;
      }
 
+     /* the direct beam in all of the layers below depends on these layers too */
+     for (     ; i < d->n_layers; ++i)
+          d->dep_flags_beam_params [i]      |= dep;
+
      for (i = 0; i < d->n_four; ++i) {
           d->dep_flags_total_R_T_S_U_W_V[i] |= dep;
 
@@ -453,6 +457,9 @@ static void set_deps(xrtm_data *d, int dep, int i_layer, int n_layers) {
                d->dep_flags_local_r_t_u_w    [i][j] |= dep;
                d->dep_flags_layer_R_T_S_U_W_V[i][j] |= dep;
           }
+
+          for (     ; j < d->n_layers; ++j)
+               d->dep_flags_layer_R_T_S_U_W_V[i][j] |= dep;
      }
 }
 
-- 
2.43.0


From 0b3d572d0b7220cb4084608cda59e634b221e354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:45 +0000
Subject: [PATCH 21/65] fix: saved layer matrices and source vectors were
 reused after F_0, levels_b or doub_d_tau changed

---
 src/xrtm_model.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 754da49..4b88ccc 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -2091,7 +2091,10 @@ static void call_solver
 static int layer_R_T_S_U_W_V_deps(xrtm_data *d) {
 
      int deps = opt_props_deps(d) | beam_params_deps(d) | phase_vecs_deps_q0(d) |
-                local_r_t_u_w_deps(d);
+                local_r_t_u_w_deps(d) | DEP_MASK_F_0 | DEP_MASK_LEVELS_B | DEP_MASK_LEVELS_B_L;
+
+     if (d->solvers & XRTM_SOLVER_DOUB_ADD)
+          deps |= DEP_MASK_DOUB_D_TAU;
 
      if (d->solvers & XRTM_SOLVER_PADE_ADD)
           deps |= DEP_MASK_PADE_PARAMS;
-- 
2.43.0


From 3c8bc0a67fee555f83161bc95b091a0113cda70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:19 +0000
Subject: [PATCH 22/65] fix: mu_0 going back to its unadjusted value when the
 output angles move away from it was not seen by saved results

---
 src/xrtm_interface.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 2dbc76a..a74465e 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -2672,6 +2672,9 @@ static int mu_0_singularity_adjust(xrtm_data *d) {
      int count;
 
      double a;
+     double mu_0;
+
+     mu_0 = d->mu_0;
 
      d->mu_0 = d->mu_0_0;
 
@@ -2691,7 +2694,7 @@ static int mu_0_singularity_adjust(xrtm_data *d) {
           }
      }
 
-     if (count > 0)
+     if (count > 0 || d->mu_0 != mu_0)
           set_deps(d, DEP_MASK_MU_0, 0, d->n_layers);
 
      return 0;
-- 
2.43.0


From f24c436ee0e306f936a8998d55abd49998f9c73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:22 +0000
Subject: [PATCH 23/65] fix: xrtm_update_varied_layers() left saved linearized
 results that were never calculated for layers that vary now

---
 src/xrtm_interface.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index a74465e..80c28b9 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -5434,6 +5434,12 @@ int xrtm_update_varied_layers(xrtm_data *d) {
      build_derivs_adding_up  (d, d->derivs.layers_m, d->derivs.sources_m, d->derivs.adding_up_m);
 
 
+     /*-------------------------------------------------------------------------
+      * saved linearized results only exist for what varied when they were saved
+      *-----------------------------------------------------------------------*/
+     set_deps(d, DEP_MASK_G_L | DEP_MASK_COEF_L | DEP_MASK_OMEGA_L | DEP_MASK_LTAU_L | DEP_MASK_LEVELS_B_L | DEP_MASK_BRDF_L, 0, d->n_layers);
+
+
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-- 
2.43.0


From e89469c7e6f64a23ac5b2ebea35c3560237a26a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:40 +0000
Subject: [PATCH 24/65] fix: two_stream passes n_umus and F_0 in the right
 order for output at optical depths

The two calls of sfi_layer() for user optical depths had the arguments
swapped with respect to its prototype.
---
 src/xrtm_two_stream.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_two_stream.c b/src/xrtm_two_stream.c
index 9dff98a..6bb1296 100644
--- a/src/xrtm_two_stream.c
+++ b/src/xrtm_two_stream.c
@@ -1715,9 +1715,9 @@ void sfi(int i_four, int n_quad, int n_stokes, int n_derivs, int n_layers, doubl
                          I_u_l2 = I_u_l[i_out_level];
 
                     if (n_derivs == 0)
-                         sfi_layer(i, atau, btau, ptau, i_four, n_derivs, n_umus, F_0, umus, omega[i], NULL, ltau[i], NULL, btran[i], NULL, as_0[i], NULL, atran[i], NULL, P_u0_pm[i], P_uq_pp[i], P_uq_mp[i], nu[i], X_p[i], X_m[i], F_p[i], F_m[i], NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, B, B_l, I_0, I_0_l, offset, I_u[i_out_level], I_u_l2, add_single_scattering, solar, thermal, utau_output, NULL, work, flag);
+                         sfi_layer(i, atau, btau, ptau, i_four, n_derivs, F_0, n_umus, umus, omega[i], NULL, ltau[i], NULL, btran[i], NULL, as_0[i], NULL, atran[i], NULL, P_u0_pm[i], P_uq_pp[i], P_uq_mp[i], nu[i], X_p[i], X_m[i], F_p[i], F_m[i], NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, B, B_l, I_0, I_0_l, offset, I_u[i_out_level], I_u_l2, add_single_scattering, solar, thermal, utau_output, NULL, work, flag);
                     else
-                         sfi_layer(i, atau, btau, ptau, i_four, n_derivs, n_umus, F_0, umus, omega[i], omega_l[i], ltau[i], ltau_l[i], btran[i], btran_l[i], as_0[i], as_0_l[i], atran[i], atran_l[i], P_u0_pm[i], P_uq_pp[i], P_uq_mp[i], nu[i], X_p[i], X_m[i], F_p[i], F_m[i], P_u0_pm_l[i], P_uq_pp_l[i], P_uq_mp_l[i], nu_l[i], X_p_l[i], X_m_l[i], F_p_l[i], F_m_l[i], B, B_l, I_0, I_0_l, offset, I_u[i_out_level], I_u_l2, add_single_scattering, solar, thermal, utau_output, derivs, work, flag);
+                         sfi_layer(i, atau, btau, ptau, i_four, n_derivs, F_0, n_umus, umus, omega[i], omega_l[i], ltau[i], ltau_l[i], btran[i], btran_l[i], as_0[i], as_0_l[i], atran[i], atran_l[i], P_u0_pm[i], P_uq_pp[i], P_uq_mp[i], nu[i], X_p[i], X_m[i], F_p[i], F_m[i], P_u0_pm_l[i], P_uq_pp_l[i], P_uq_mp_l[i], nu_l[i], X_p_l[i], X_m_l[i], F_p_l[i], F_m_l[i], B, B_l, I_0, I_0_l, offset, I_u[i_out_level], I_u_l2, add_single_scattering, solar, thermal, utau_output, derivs, work, flag);
 
                     i_out_level += inc;
                }
-- 
2.43.0


From 36477f16896e74731ba17d69703f85c71d1ae39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:40 +0000
Subject: [PATCH 25/65] fix: eig_bvp adds the thermal particular solution for
 output at optical depths

Radiances (and their derivatives) at user optical depths were missing the
thermal source, which the output at levels has.
---
 src/prototypes/xrtm_eig_bvp_p.h |  4 ++--
 src/xrtm_eig_bvp.c              |  4 ++++
 src/xrtm_eig_bvp_x.c            | 15 +++++++++++++++
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/prototypes/xrtm_eig_bvp_p.h b/src/prototypes/xrtm_eig_bvp_p.h
index 192a73d..9564098 100644
--- a/src/prototypes/xrtm_eig_bvp_p.h
+++ b/src/prototypes/xrtm_eig_bvp_p.h
@@ -1,6 +1,6 @@
 /* xrtm_eig_bvp.c */
 void calc_radiance_levels(int n_quad, int n_layers, int n_derivs, int n_ulevels, int *ulevels, double *ltau, double **ltau_l, double *atran, double **atran_l, double **nu, double ***X_p, double ***X_m, double **Fs_p, double **Fs_m, double **Fs1_p, double **Fs1_m, double **Ft0_p, double **Ft0_m, double **Ft1_p, double **Ft1_m, double ***nu_l, double ****X_p_l, double ****X_m_l, double ***Fs_p_l, double ***Fs_m_l, double ***Fs1_p_l, double ***Fs1_m_l, double ***Ft0_p_l, double ***Ft0_m_l, double ***Ft1_p_l, double ***Ft1_m_l, double *B, double **B_l, double **I_p, double **I_m, double ***I_p_l, double ***I_m_l, int solar, int thermal, uchar **derivs_layers, uchar **derivs_beam, uchar **derivs_thermal, save_tree_data save_tree, work_data work);
-void calc_radiance_taus(int n_quad, int n_layers, int n_derivs, int n_ulevels, int *ulevels, double *utaus, double *ltau, double **ltau_l, double *as_0, double **as_0_l, double *atran, double **atran_l, double **nu, double ***X_p, double ***X_m, double **Fs_p, double **Fs_m, double ***nu_l, double ****X_p_l, double ****X_m_l, double ***Fs_p_l, double ***Fs_m_l, double *B, double **B_l, double **I_p, double **I_m, double ***I_p_l, double ***I_m_l, int solar, int thermal, uchar **derivs_layers, uchar **derivs_beam, uchar **derivs_thermal, save_tree_data save_tree, work_data work);
+void calc_radiance_taus(int n_quad, int n_layers, int n_derivs, int n_ulevels, int *ulevels, double *utaus, double *ltau, double **ltau_l, double *as_0, double **as_0_l, double *atran, double **atran_l, double **nu, double ***X_p, double ***X_m, double **Fs_p, double **Fs_m, double **Ft0_p, double **Ft0_m, double **Ft1_p, double **Ft1_m, double ***nu_l, double ****X_p_l, double ****X_m_l, double ***Fs_p_l, double ***Fs_m_l, double ***Ft0_p_l, double ***Ft0_m_l, double ***Ft1_p_l, double ***Ft1_m_l, double *B, double **B_l, double **I_p, double **I_m, double ***I_p_l, double ***I_m_l, int solar, int thermal, uchar **derivs_layers, uchar **derivs_beam, uchar **derivs_thermal, save_tree_data save_tree, work_data work);
 void calc_radiance_levels2(int n_quad, int n_layers, int n_derivs, int n_ulevels, int *ulevels, double *ltau, double **ltau_l, double *atran, double **atran_l, dcomplex **nu, dcomplex ***X_p, dcomplex ***X_m, double **Fs_p, double **Fs_m, double **Fs1_p, double **Fs1_m, double **Ft0_p, double **Ft0_m, double **Ft1_p, double **Ft1_m, dcomplex ***nu_l, dcomplex ****X_p_l, dcomplex ****X_m_l, double ***Fs_p_l, double ***Fs_m_l, double ***Fs1_p_l, double ***Fs1_m_l, double ***Ft0_p_l, double ***Ft0_m_l, double ***Ft1_p_l, double ***Ft1_m_l, dcomplex *B, dcomplex **B_l, double **I_p, double **I_m, double ***I_p_l, double ***I_m_l, int solar, int thermal, uchar **derivs_layers, uchar **derivs_beam, uchar **derivs_thermal, save_tree_data save_tree, work_data work);
-void calc_radiance_taus2(int n_quad, int n_layers, int n_derivs, int n_ulevels, int *ulevels, double *utaus, double *ltau, double **ltau_l, double *as_0, double **as_0_l, double *atran, double **atran_l, dcomplex **nu, dcomplex ***X_p, dcomplex ***X_m, double **Fs_p, double **Fs_m, dcomplex ***nu_l, dcomplex ****X_p_l, dcomplex ****X_m_l, double ***Fs_p_l, double ***Fs_m_l, dcomplex *B, dcomplex **B_l, double **I_p, double **I_m, double ***I_p_l, double ***I_m_l, int solar, int thermal, uchar **derivs_layers, uchar **derivs_beam, uchar **derivs_thermal, save_tree_data save_tree, work_data work);
+void calc_radiance_taus2(int n_quad, int n_layers, int n_derivs, int n_ulevels, int *ulevels, double *utaus, double *ltau, double **ltau_l, double *as_0, double **as_0_l, double *atran, double **atran_l, dcomplex **nu, dcomplex ***X_p, dcomplex ***X_m, double **Fs_p, double **Fs_m, double **Ft0_p, double **Ft0_m, double **Ft1_p, double **Ft1_m, dcomplex ***nu_l, dcomplex ****X_p_l, dcomplex ****X_m_l, double ***Fs_p_l, double ***Fs_m_l, double ***Ft0_p_l, double ***Ft0_m_l, double ***Ft1_p_l, double ***Ft1_m_l, dcomplex *B, dcomplex **B_l, double **I_p, double **I_m, double ***I_p_l, double ***I_m_l, int solar, int thermal, uchar **derivs_layers, uchar **derivs_beam, uchar **derivs_thermal, save_tree_data save_tree, work_data work);
 void rtm_eig_bvp(int i_four, int n_quad, int n_stokes, int n_derivs, int n_layers, double qf, double *qx_v, double *qw_v, double F_0, double mu_0, int n_ulevels, int *ulevels, double *utaus, int n_umus, double *umus, double *planck, double **planck_l, double *omega, double **omega_l, double *ltau, double **ltau_l, double surface_b, double *surface_b_l, double *btran, double **btran_l, double *as_0, double **as_0_l, double *atran, double **atran_l, double **P_q0_mm, double **P_q0_pm, double **P_u0_mm, double **P_u0_pm, double ***P_uq_pp, double ***P_uq_mp, double ***P_uq_mm, double ***P_uq_pm, double ***r_p, double ***t_p, double ***r_m, double ***t_m, double ***P_q0_mm_l, double ***P_q0_pm_l, double ***P_u0_mm_l, double ***P_u0_pm_l, double ****P_uq_pp_l, double ****P_uq_mp_l, double ****P_uq_mm_l, double ****P_uq_pm_l, double ****r_p_l, double ****t_p_l, double ****r_m_l, double ****t_m_l, double **Rs_qq, double ***Rs_qq_l, double *Rs_u0, double **Rs_u0_l, double **Rs_uq, double ***Rs_uq_l, double *I1_m, double **I1_m_l, double *In_p, double **In_p_l, double F_iso_top, double *F_iso_top_l, double F_iso_bot, double *F_iso_bot_l, double **I_p, double **I_m, double ***I_p_l, double ***I_m_l, int add_single_scattering, int greens, int sfi, int solar, int thermal, int surface, int upwelling, int downwelling, int utau_output, int vector, int eigen_solver_real, int eigen_solver_complex, derivs_data *derivs, save_tree_data save_tree, work_data work);
diff --git a/src/xrtm_eig_bvp.c b/src/xrtm_eig_bvp.c
index 2b3fda6..4c4bd35 100644
--- a/src/xrtm_eig_bvp.c
+++ b/src/xrtm_eig_bvp.c
@@ -681,8 +681,10 @@ else {
                                     as_0, as_0_l, atran2, atran2_l,
                                     nu, X_p, X_m,
                                     Fs_p, Fs_m,
+                                    Ft0_p, Ft0_m, Ft1_p, Ft1_m,
                                     nu_l, X_p_l, X_m_l,
                                     Fs_p_l, Fs_m_l,
+                                    Ft0_p_l, Ft0_m_l, Ft1_p_l, Ft1_m_l,
                                     B, B_l,
                                     I_p, I_m, I_p_l, I_m_l,
                                     solar, thermal,
@@ -731,8 +733,10 @@ else {
                                      as_0, as_0_l, atran2, atran2_l,
                                      nu_c, X_p_c, X_m_c,
                                      Fs_p, Fs_m,
+                                     Ft0_p, Ft0_m, Ft1_p, Ft1_m,
                                      nu_l_c, X_p_l_c, X_m_l_c,
                                      Fs_p_l, Fs_m_l,
+                                     Ft0_p_l, Ft0_m_l, Ft1_p_l, Ft1_m_l,
                                      B_c, B_l_c,
                                      I_p, I_m, I_p_l, I_m_l,
                                      solar, thermal,
diff --git a/src/xrtm_eig_bvp_x.c b/src/xrtm_eig_bvp_x.c
index 3a71343..77c124a 100644
--- a/src/xrtm_eig_bvp_x.c
+++ b/src/xrtm_eig_bvp_x.c
@@ -887,8 +887,10 @@ void CALC_RADIANCE_TAUS(int n_quad, int n_layers, int n_derivs,
                         double *as_0, double **as_0_l, double *atran, double **atran_l,
                         TYPE **nu, TYPE ***X_p, TYPE ***X_m,
                         double **Fs_p, double **Fs_m,
+                        double **Ft0_p, double **Ft0_m, double **Ft1_p, double **Ft1_m,
                         TYPE ***nu_l, TYPE ****X_p_l, TYPE ****X_m_l,
                         double ***Fs_p_l, double ***Fs_m_l,
+                        double ***Ft0_p_l, double ***Ft0_m_l, double ***Ft1_p_l, double ***Ft1_m_l,
                         TYPE *B, TYPE **B_l,
                         double **I_p, double **I_m, double ***I_p_l, double ***I_m_l,
                         int solar, int thermal,
@@ -1006,6 +1008,12 @@ else {
           for (j = 0; j < n_quad; ++j)
                I_m[i][j] = - XREAL(v3[j]) - XREAL(v4[j]) + Fs_m[ii][j] * XEXP(-utaus[i] * as_0[ii]);
 }
+          if (thermal) {
+               for (j = 0; j < n_quad; ++j) {
+                    I_p[i][j] += Ft0_p[ii][j] + (Ft1_p[ii][j] - Ft0_p[ii][j]) * utaus[i] / ltau[ii];
+                    I_m[i][j] += Ft0_m[ii][j] + (Ft1_m[ii][j] - Ft0_m[ii][j]) * utaus[i] / ltau[ii];
+               }
+          }
      }
 
 
@@ -1073,6 +1081,13 @@ else {
                     if (solar && derivs_beam[ii][m])
                          I_m_l[i][m][j] += (double) (Fs_m_l[ii][m][j] * XEXP(-utaus[i] * as_0[ii]) + Fs_m[ii][j] * -(utau_l * as_0[ii] + utaus[i] * as_0_l[ii][m]) * XEXP(-utaus[i] * as_0[ii]));
                }
+
+               if (thermal && derivs_thermal[ii][m]) {
+                    for (j = 0; j < n_quad; ++j) {
+                         I_p_l[i][m][j] += Ft0_p_l[ii][m][j] + (Ft1_p_l[ii][m][j] - Ft0_p_l[ii][m][j]) * utaus[i] / ltau[ii];
+                         I_m_l[i][m][j] += Ft0_m_l[ii][m][j] + (Ft1_m_l[ii][m][j] - Ft0_m_l[ii][m][j]) * utaus[i] / ltau[ii];
+                    }
+               }
           }
      }
 }
-- 
2.43.0


From e10ad0e506d99f491e288372ae8bdbec9a8eb380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:40 +0000
Subject: [PATCH 26/65] fix: sign of the Hovenier rotation of the phase vector
 for relative azimuths beyond 180 degrees

U is odd in the relative azimuth; the singly scattered U kept its sign.
---
 src/xrtm_scatter.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/xrtm_scatter.c b/src/xrtm_scatter.c
index f2d741f..99bfb97 100644
--- a/src/xrtm_scatter.c
+++ b/src/xrtm_scatter.c
@@ -1069,6 +1069,9 @@ void scat_vector_rotate_hovenier(int n_stokes, double mu, double mu_prime, doubl
      else
           S1 = 2.* sqrt(1. - cos_sig1_2) * cos_sig1;
 
+     if (sin(D2R*d_phi) < 0.)
+          S1 = -S1;
+
      if (n_stokes >= 2)
           P2[1] =  P1_01*C1;
      if (n_stokes >= 3)
@@ -1121,6 +1124,9 @@ void scat_vector_rotate_hovenier_a(int n_stokes, double mu, double mu_prime, dou
      else
           S1 = 2.* sqrt(1. - cos_sig1_2) * cos_sig1;
 
+     if (sin(D2R*d_phi) < 0.)
+          S1 = -S1;
+
      if (n_stokes >= 2)
           P1_a[1]  =  P2_a[1]*C1;
      if (n_stokes >= 3)
-- 
2.43.0


From 1e77e11aa097d8d0bacd952e0ec57301abf48159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:40 +0000
Subject: [PATCH 27/65] fix: two_os does not report its top of atmosphere
 radiances at other levels

The method gives upwelling radiances at the top of the atmosphere only but
wrote them for the first requested level whichever that was.
---
 src/xrtm_two_os.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/xrtm_two_os.c b/src/xrtm_two_os.c
index 5232f97..8baa794 100644
--- a/src/xrtm_two_os.c
+++ b/src/xrtm_two_os.c
@@ -767,6 +767,9 @@ if (0) {
       *-----------------------------------------------------------------------*/
      a = F_0 * mu_0 / PI;
 
+     if (ulevels[0] != 0 || (utau_output && utaus[0] != 0.))
+          a = 0.;
+
      for (j = offset; j < offset + n_xmus_v; ++j) {
           I_p[0][j] *= a;
 /*
-- 
2.43.0


From 1ec83ae8771163e193a85fb978118c62fa0be8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:14 +0000
Subject: [PATCH 28/65] fix: diffuse boundary input was not updated for any
 solver of an instance created for two_stream too

The test was on the solvers of the instance instead of the one in use.
---
 src/xrtm_model.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 4b88ccc..e7954ac 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -5117,7 +5117,7 @@ if (d->options & XRTM_OPTION_SOURCE_SOLAR) {
           }
      }
 }
-if (! (d->solvers & XRTM_SOLVER_TWO_STREAM)) {
+if (! (solver & XRTM_SOLVER_TWO_STREAM)) {
      update_diff_bound_input(d, i_four, save_tree, work);
 
      if (d->options & XRTM_OPTION_CALC_DERIVS) {
-- 
2.43.0


From dc3c11c09f6a8670e0c2b0adea348b8e3f33366c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:44 +0000
Subject: [PATCH 29/65] fix: two_os lost all digits for an output angle that
 matches a quadrature angle to rounding only

The removable singularities were only recognised for exactly equal angles.
---
 src/xrtm_two_os.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/xrtm_two_os.c b/src/xrtm_two_os.c
index 8baa794..23674d1 100644
--- a/src/xrtm_two_os.c
+++ b/src/xrtm_two_os.c
@@ -644,21 +644,21 @@ if (0) {
                     c = alpha[j][l] * a;
                     d = beta[j][k] * alpha[j][l];
 
-                    if (y[k] == x[l])
+                    if (fabs(y[k] - x[l]) < 1.e-8 * x[l])
                          Phi2[j][k][l] = ltau[j] * b;
                     else
                          Phi2[j][k][l] = (b - c) / (x[l] - y[k]);
-                    if (as_0[j] == x[l])
+                    if (fabs(as_0[j] - x[l]) < 1.e-8 * x[l])
                          Phi3[j][k][l] = ltau[j] * d;
                     else
                          Phi3[j][k][l] = (d - e) / (as_0[j] - x[l]);
 
                     for (m = 0; m < n_derivs; ++m) {
-                         if (y[k] == x[l])
+                         if (fabs(y[k] - x[l]) < 1.e-8 * x[l])
                               Phi2_l[j][m][k][l] = (ltau_l[j][m] + ltau[j] * ((-ltau_l[j][m] * (y[k] + as_0[j]) - ltau[j] * as_0_l[j][m]))) * b;
                          else
                               Phi2_l[j][m][k][l] = ((-ltau_l[j][m] * (y[k] + as_0[j]) - ltau[j] * as_0_l[j][m]) * b - (-ltau_l[j][m] * (x[l] + as_0[j]) - ltau[j] * as_0_l[j][m]) * c) / (x[l] - y[k]);
-                         if (as_0[j] == x[l])
+                         if (fabs(as_0[j] - x[l]) < 1.e-8 * x[l])
                               Phi3_l[j][m][k][l] = (ltau_l[j][m] + ltau[j] * (-ltau_l[j][m] * (x[l] + y[k]) - ltau[j] * as_0_l[j][m] / 2.)) * d;
                          else
                               Phi3_l[j][m][k][l] = ((-ltau_l[j][m] * (x[l] + y[k]) * d - (-ltau_l[j][m] * (as_0[j] + y[k]) - ltau[j] * as_0_l[j][m]) * e) - Phi3[j][k][l] * as_0_l[j][m]) / (as_0[j] - x[l]);
-- 
2.43.0


From 6462f8948b35f3c4d599471e05d36e7dececd4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:21 +0000
Subject: [PATCH 30/65] fix: rtm_two_os(): apply the surface quadrature
 normalization to the direct beam

---
 src/xrtm_two_os.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_two_os.c b/src/xrtm_two_os.c
index 23674d1..fc25ec7 100644
--- a/src/xrtm_two_os.c
+++ b/src/xrtm_two_os.c
@@ -368,12 +368,12 @@ if (0)
                init_array1_d(i_p_l[0][n_layers][j], n_quad_v_x, 0.);
      }
      else {
-          dvec_copy(i_p[0][n_layers], Rs_q0, n_quad_v_x);
+          dvec_scale(qf, Rs_q0, i_p[0][n_layers], n_quad_v_x);
           for (j = 0; j < n_derivs; ++j) {
                if (! derivs->layers[n_layers][j])
                     init_array1_d(i_p_l[0][n_layers][j], n_quad_v_x, 0.);
                else
-                    dvec_copy(i_p_l[0][n_layers][j], Rs_q0_l[j], n_quad_v_x);
+                    dvec_scale(qf, Rs_q0_l[j], i_p_l[0][n_layers][j], n_quad_v_x);
           }
      }
 
-- 
2.43.0


From b83fb42e625fa71dccfd0867b14ceb5cd7a1ab44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:42 +0000
Subject: [PATCH 31/65] fix: check an index before reading whether its input is
 set

---
 src/xrtm_interface.c | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 80c28b9..4d59639 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -3933,10 +3933,10 @@ double xrtm_get_g(xrtm_data *d, int i_layer) {
           return XRTM_DBL_ERROR;
      }
 
-     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_g[i_layer], xrtm_input_index_to_name(INPUT_G), XRTM_DBL_ERROR);
-
      CHECK_INDEX_RANGE(i_layer, d->n_layers, "i_layer", "n_layers", XRTM_DBL_ERROR);
 
+     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_g[i_layer], xrtm_input_index_to_name(INPUT_G), XRTM_DBL_ERROR);
+
      return d->g0[i_layer];
 }
 
@@ -4157,10 +4157,10 @@ int xrtm_get_n_coef(xrtm_data *d, int i_layer) {
           return XRTM_INT_ERROR;
      }
 
-     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_coef[i_layer], "n_coef", XRTM_INT_ERROR);
-
      CHECK_INDEX_RANGE(i_layer, d->n_layers, "i_layer", "n_layers", XRTM_INT_ERROR);
 
+     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_coef[i_layer], "n_coef", XRTM_INT_ERROR);
+
      return d->n_coef_layer[i_layer];
 }
 
@@ -4173,9 +4173,10 @@ double xrtm_get_coef(xrtm_data *d, int i_layer, int i_elem, int i_coef) {
           return XRTM_DBL_ERROR;
      }
 
+     CHECK_INDEX_RANGE(i_layer, d->n_layers,              "i_layer", "n_layers",              XRTM_DBL_ERROR);
+
      GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_coef[i_layer], xrtm_input_index_to_name(INPUT_COEF), XRTM_DBL_ERROR);
 
-     CHECK_INDEX_RANGE(i_layer, d->n_layers,              "i_layer", "n_layers",              XRTM_DBL_ERROR);
      CHECK_INDEX_RANGE(i_elem,  d->n_elem,                "i_elem",  "n_elem",                XRTM_DBL_ERROR);
      CHECK_INDEX_RANGE(i_coef,  d->n_coef_layer[i_layer], "i_coef",  "n_coef_layer[i_layer]", XRTM_DBL_ERROR);
 
@@ -4394,10 +4395,10 @@ int xrtm_set_omega_n(xrtm_data *d, double *omega) {
 
 double xrtm_get_omega(xrtm_data *d, int i_layer) {
 
-     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_omega[i_layer], xrtm_input_index_to_name(INPUT_OMEGA), XRTM_DBL_ERROR);
-
      CHECK_INDEX_RANGE(i_layer, d->n_layers, "i_layer", "n_layers", XRTM_DBL_ERROR);
 
+     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_omega[i_layer], xrtm_input_index_to_name(INPUT_OMEGA), XRTM_DBL_ERROR);
+
      return d->omega0[i_layer];
 }
 
@@ -4545,10 +4546,10 @@ int xrtm_set_ltau_n(xrtm_data *d, double *ltau) {
 
 double xrtm_get_ltau(xrtm_data *d, int i_layer) {
 
-     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_ltau[i_layer], xrtm_input_index_to_name(INPUT_LTAU), XRTM_DBL_ERROR);
-
      CHECK_INDEX_RANGE(i_layer, d->n_layers, "i_layer", "n_layers", XRTM_DBL_ERROR);
 
+     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_ltau[i_layer], xrtm_input_index_to_name(INPUT_LTAU), XRTM_DBL_ERROR);
+
      return d->ltau0[i_layer];
 }
 
@@ -4664,10 +4665,10 @@ double xrtm_get_kernel_ampfac(xrtm_data *d, int i_kernel) {
 
      CHECK_N_KERNELS_NOT_ZERO(d, XRTM_DBL_ERROR);
 
-     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_kernel_ampfac[i_kernel], xrtm_input_index_to_name(INPUT_KERNEL_AMPFAC),  XRTM_DBL_ERROR);
-
      CHECK_INDEX_RANGE(i_kernel, d->n_kernels, "i_kernel", "n_kernels", XRTM_DBL_ERROR);
 
+     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_kernel_ampfac[i_kernel], xrtm_input_index_to_name(INPUT_KERNEL_AMPFAC),  XRTM_DBL_ERROR);
+
      return d->kernel_ampfac[i_kernel];
 }
 
@@ -4729,14 +4730,14 @@ double xrtm_get_kernel_params(xrtm_data *d, int i_kernel, int i_param) {
 
      CHECK_N_KERNELS_NOT_ZERO(d, XRTM_DBL_ERROR);
 
-     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_kernel_params[i_kernel][i_param], xrtm_input_index_to_name(INPUT_KERNEL_PARAMS), XRTM_DBL_ERROR);
-
      CHECK_INDEX_RANGE(i_kernel, d->n_kernels, "i_kernel", "n_kernels", XRTM_DBL_ERROR);
 
      n_params = kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel]);
 
      CHECK_INDEX_RANGE(i_param,     n_params,  "i_param",  "n_params",  XRTM_DBL_ERROR);
 
+     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_kernel_params[i_kernel][i_param], xrtm_input_index_to_name(INPUT_KERNEL_PARAMS), XRTM_DBL_ERROR);
+
      return d->kernel_params[i_kernel][i_param];
 }
 
-- 
2.43.0


From c1ac443f7a756e590ec480bb801c223a1ec72c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:42 +0000
Subject: [PATCH 32/65] fix: refused out_taus leave those set before alone

---
 src/xrtm_interface.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 4d59639..9358a6b 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -3253,9 +3253,10 @@ int xrtm_set_out_taus(xrtm_data *d, double *out_taus) {
                fprintf(stderr, "ERROR: invalid value for out_taus[%d]: %e, must be >= zero\n", i, out_taus[i]);
                return XRTM_INT_ERROR;
           }
+     }
 
+     for (i = 0; i < d->n_ulevels; ++i)
           d->utaus[i] = out_taus[i];
-     }
 
      d->set_flags_utaus = 1;
 
-- 
2.43.0


From 19c818408e5f26b8cad5ffb18fba3355d281b5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:42 +0000
Subject: [PATCH 33/65] fix: refused phase function coefficients leave those
 set before alone

---
 src/xrtm_interface.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 9358a6b..6102a61 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -4070,6 +4070,15 @@ static int xrtm_set_coef_x(xrtm_data *d, double ***coef,
           }
      }
 
+     for (i = i_layer, ii = 0; i < n_layers; ++i, ++ii) {
+          if ((n_coef_layer ? n_coef_layer[ii] : d->n_coef) > 1) {
+               if (fabs(1. - coef[ii][0][0]) > DBL_EPSILON) {
+                    fprintf(stderr, "ERROR: the first phase function coefficient for layer %d is not = one: %.16e\n", i, coef[ii][0][0]);
+                    return -1;
+               }
+          }
+     }
+
      for (i = i_layer, ii = 0; i < n_layers; ++i, ++ii) {
           if (! n_coef_layer) {
                d->n_coef_layer [i] = d->n_coef;
@@ -4080,13 +4089,6 @@ static int xrtm_set_coef_x(xrtm_data *d, double ***coef,
                d->n_coef_layer2[i] = MIN(n_coef_layer[ii], d->n_coef2);
           }
 
-          if (d->n_coef_layer[i] > 1) {
-               if (fabs(1. - coef[ii][0][0]) > DBL_EPSILON) {
-                    fprintf(stderr, "ERROR: the first phase function coefficient for layer %d is not = one: %.16e\n", i, coef[ii][0][0]);
-                    return -1;
-               }
-          }
-
           for (j = 0; j < d->n_elem; ++j) {
                for (k = 0; k < d->n_coef_layer[i]; ++k) {
                     d->coef0[i][j][k] = coef[ii][j][k];
-- 
2.43.0


From 15ca9a1dd2cbbf3680519dfbefa1a5abf1078100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:42 +0000
Subject: [PATCH 34/65] fix: error values of theta_0, surface_b and kernel
 getters

---
 src/xrtm_interface.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 6102a61..40bd2b1 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -2807,7 +2807,7 @@ int xrtm_get_n_kernel_quad(xrtm_data *d) {
  ******************************************************************************/
 enum xrtm_kernel_type xrtm_get_kernel(xrtm_data *d, int i_kernel) {
 
-     if (i_kernel > d->n_kernels - 1) {
+     if (i_kernel < 0 || i_kernel > d->n_kernels - 1) {
           fprintf(stderr, "ERROR: invalid kernel index: %d\n", i_kernel);
           return XRTM_INT_ERROR;
      }
@@ -3604,7 +3604,7 @@ double xrtm_get_theta_0(xrtm_data *d) {
 
      if (! (d->options & XRTM_OPTION_SOURCE_SOLAR)) {
           fprintf(stderr, "ERROR: model not initialized for solar sources\n");
-          return XRTM_INT_ERROR;
+          return XRTM_DBL_ERROR;
      }
 
      GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_mu_0, xrtm_input_index_to_name(INPUT_THETA_0), XRTM_DBL_ERROR);
@@ -3797,7 +3797,7 @@ double xrtm_get_surface_b(xrtm_data *d) {
 
      if (! (d->options & XRTM_OPTION_SOURCE_THERMAL)) {
           fprintf(stderr, "ERROR: model not initialized for thermal sources\n");
-          return XRTM_INT_ERROR;
+          return XRTM_DBL_ERROR;
      }
 
      GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_surface_b, xrtm_input_index_to_name(INPUT_SURFACE_B), XRTM_DBL_ERROR);
@@ -3852,7 +3852,7 @@ double xrtm_get_surface_b_l(xrtm_data *d, int i_deriv) {
 
      if (! (d->options & XRTM_OPTION_SOURCE_THERMAL)) {
           fprintf(stderr, "ERROR: model not initialized for thermal sources\n");
-          return XRTM_INT_ERROR;
+          return XRTM_DBL_ERROR;
      }
 
      CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", XRTM_DBL_ERROR);
-- 
2.43.0


From f09d3ab7d1993a4e38dafd0e36c4ac566a7b27bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:53 +0000
Subject: [PATCH 35/65] fix: xrtm_solution() refuses flux divergence, which is
 not computed, as xrtm_flux_divergence() does

---
 src/xrtm_interface.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 40bd2b1..42e2241 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -5718,8 +5718,8 @@ int xrtm_solution(xrtm_data *d, enum xrtm_solver_mask solver, int solutions, int
      }
 
      if (solutions & XRTM_OUTPUT_FLUX_DIVERGENCE) {
-          if (check_solvers(solver, 0, 1, "output option", xrtm_output_mask_to_name(XRTM_OUTPUT_FLUX_DIVERGENCE), XRTM_SOLVER_SINGLE, 0))
-               return XRTM_INT_ERROR;
+          fprintf(stderr, "ERROR: flux_divergence not yet supported as an output\n");
+          return XRTM_INT_ERROR;
      }
 
 #ifdef INCLUDE_DEV_SOURCE
-- 
2.43.0


From 4be267d7407d462310f83f1aeff25173a7e15c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:25 +0000
Subject: [PATCH 36/65] fix: option masks from names and values no longer
 truncated to int ('vector' was refused)

---
 misc/gindex_name_value.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/misc/gindex_name_value.c b/misc/gindex_name_value.c
index 4c064a9..617c7b5 100644
--- a/misc/gindex_name_value.c
+++ b/misc/gindex_name_value.c
@@ -186,8 +186,8 @@ long name_list_to_mask(char *s, long *values, const char **names, int n, const c
      char *token;
      char *lasts;
 
-     int temp;
-     int mask;
+     long temp;
+     long mask;
 
      mask = 0;
 
@@ -233,7 +233,7 @@ long value_list_to_mask(long *values, int n_values) {
 
      int i;
 
-     int mask;
+     long mask;
 
      mask = 0;
      for (i = 0; i < n_values; ++i)
-- 
2.43.0


From dd24cd9ec8d690cdb57954876d21cd9bab5b4b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:25 +0000
Subject: [PATCH 37/65] fix: lists made of a mask do not write past a length of
 zero

---
 misc/gindex_name_value.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/misc/gindex_name_value.c b/misc/gindex_name_value.c
index 617c7b5..6c87490 100644
--- a/misc/gindex_name_value.c
+++ b/misc/gindex_name_value.c
@@ -108,11 +108,11 @@ int mask_to_index_list(long mask, long *values, int n_values, int *indexes, int
      ii = 0;
 
      for (i = 0; i < n_values; ++i) {
-          if (mask & values[i])
-               indexes[ii++] = i;
-
           if (ii >= length)
                return ii;
+
+          if (mask & values[i])
+               indexes[ii++] = i;
      }
 
      return ii;
@@ -217,11 +217,11 @@ int mask_to_value_list(long mask, long *values, int n_values, long *values2, int
      ii = 0;
 
      for (i = 0; i < n_values; ++i) {
-          if (mask & values[i])
-               values2[ii++] = values[i];
-
           if (ii >= length)
                return ii;
+
+          if (mask & values[i])
+               values2[ii++] = values[i];
      }
 
      return ii;
-- 
2.43.0


From 2098bdb3fccf278f152653525fa9e81b807fcddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:25 +0000
Subject: [PATCH 38/65] fix: mask_to_name_list() does not write past the end of
 the buffer

---
 misc/gindex_name_value.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/misc/gindex_name_value.c b/misc/gindex_name_value.c
index 6c87490..d131cfc 100644
--- a/misc/gindex_name_value.c
+++ b/misc/gindex_name_value.c
@@ -169,12 +169,17 @@ char *mask_to_name_list(long mask, long *values, int n_values, const char **name
           if (mask & values[i]) {
                if (flag)
                     n += snprintf(s + n, length - n, ",");
-               n += snprintf(s + n, length - n, "%s", names[i]);
+               if (n < length)
+                    n += snprintf(s + n, length - n, "%s", names[i]);
                flag = 1;
+
+               if (n >= length)
+                    return s;
           }
      }
 
-     s[n] = '\0';
+     if (length > 0)
+          s[n] = '\0';
 
      return s;
 }
-- 
2.43.0


From 70681111f77adf933994a401213134146d228025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:42 +0000
Subject: [PATCH 39/65] fix: tables of input and eigensolver names out of step
 with their values

---
 src/xrtm_interface.c | 6 ++++--
 src/xrtm_support.c   | 6 ++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 42e2241..e4f6ce3 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -184,7 +184,7 @@ static const char *xrtm_input_names[] = {
      "kernel_ampfac",
      "kernel_ampfac_l",
      "kernel_params",
-     "kernel_params_l"
+     "kernel_params_l",
      "kernel_funcs"
 };
 
@@ -229,6 +229,7 @@ enum xrtm_input_type {
 };
 
 static long xrtm_input_types[] = {
+     0,
      INPUT_DOUB_D_TAU,
      INPUT_PADE_PARAMS,
      INPUT_SOS_PARAMS,
@@ -261,7 +262,8 @@ static long xrtm_input_types[] = {
      INPUT_KERNEL_AMPFAC,
      INPUT_KERNEL_AMPFAC_L,
      INPUT_KERNEL_PARAMS,
-     INPUT_KERNEL_PARAMS_L
+     INPUT_KERNEL_PARAMS_L,
+     INPUT_KERNEL_FUNCS
 };
 
 
diff --git a/src/xrtm_support.c b/src/xrtm_support.c
index 57f926a..841c426 100644
--- a/src/xrtm_support.c
+++ b/src/xrtm_support.c
@@ -17,8 +17,12 @@
  *
  ******************************************************************************/
 static const char *eigen_solver_gen_real_names[] = {
+#ifdef HAVE_FORTRAN_COMPILER
      "asymtx",
+#endif
+#ifdef HAVE_EISPACK_LIBRARY
      "eispack",
+#endif
      "lapack"
 };
 
@@ -40,7 +44,9 @@ GINDEX_NAME_VALUE_TEMPLATE(eigen_solver_gen_real, "eigen solver general real", N
 
 
 static const char *eigen_solver_gen_complex_names[] = {
+#ifdef HAVE_EISPACK_LIBRARY
      "eispack",
+#endif
      "lapack"
 };
 
-- 
2.43.0


From b08a5277413fe096393bfa49acf42118dd580237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:57 +0000
Subject: [PATCH 40/65] fix: xrtm_fd_set_levels_b_p_1() wrote to an
 uninitialized index

---
 src/xrtm_fd_interface.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_fd_interface.c b/src/xrtm_fd_interface.c
index 3534f0f..ae2107c 100644
--- a/src/xrtm_fd_interface.c
+++ b/src/xrtm_fd_interface.c
@@ -310,7 +310,6 @@ double xrtm_fd_get_F_iso_bot_p(xrtm_fd_data *d, int i_deriv) {
 int xrtm_fd_set_levels_b_p_1(xrtm_fd_data *d, int i_deriv, double *levels_b_p) {
 
      int i;
-     int j;
 
      if (! (d->d->options & XRTM_OPTION_SOURCE_THERMAL)) {
           fprintf(stderr, "ERROR: model not initialized for thermal sources\n");
@@ -319,8 +318,10 @@ int xrtm_fd_set_levels_b_p_1(xrtm_fd_data *d, int i_deriv, double *levels_b_p) {
 /*
      CHECK_INIT_FOR_DERIVS();
 */
+     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", -1);
+
      for (i = 0; i < d->d->n_layers + 1; ++i)
-          d->levels_b_p[i][j] = levels_b_p[i_deriv];
+          d->levels_b_p[i][i_deriv] = levels_b_p[i];
 /*
      set_deps(d, DEP_MASK_LEVELS_B_L, 0, d->n_layers);
 */
-- 
2.43.0


From f7cb6eea9d9ae7928e67649f76c777d115742265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:57 +0000
Subject: [PATCH 41/65] fix: xrtm_fd_get_coef_p() checked i_layer for i_coef

---
 src/xrtm_fd_interface.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_fd_interface.c b/src/xrtm_fd_interface.c
index ae2107c..030a47a 100644
--- a/src/xrtm_fd_interface.c
+++ b/src/xrtm_fd_interface.c
@@ -650,8 +650,8 @@ double xrtm_fd_get_coef_p(xrtm_fd_data *d, int i_layer, int i_deriv, int i_elem,
 
      CHECK_INDEX_RANGE(i_layer, d->d->n_layers,              "i_layer", "n_layers",              XRTM_DBL_ERROR);
      CHECK_INDEX_RANGE(i_deriv, d->n_derivs,                 "i_deriv", "n_derivs",              XRTM_DBL_ERROR);
-     CHECK_INDEX_RANGE(i_elem,  6,                           "i_elem",  "6",                     XRTM_DBL_ERROR);
-     CHECK_INDEX_RANGE(i_layer, d->d->n_coef_layer[i_layer], "i_coef",  "n_coef_layer[i_layer]", XRTM_DBL_ERROR);
+     CHECK_INDEX_RANGE(i_elem,  d->d->n_elem,                "i_elem",  "n_elem",                XRTM_DBL_ERROR);
+     CHECK_INDEX_RANGE(i_coef,  d->d->n_coef_layer[i_layer], "i_coef",  "n_coef_layer[i_layer]", XRTM_DBL_ERROR);
 
      return d->coef_p[i_layer][i_deriv][i_elem][i_coef];
 }
-- 
2.43.0


From 71bb940f4ec9f34b2bb08f57682b4c6b0b8f69b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:57 +0000
Subject: [PATCH 42/65] fix: finite differences ignored perturbed isotropic
 illumination without a thermal source

---
 src/xrtm_fd_interface.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/xrtm_fd_interface.c b/src/xrtm_fd_interface.c
index 030a47a..564cef3 100644
--- a/src/xrtm_fd_interface.c
+++ b/src/xrtm_fd_interface.c
@@ -1001,17 +1001,17 @@ static int perturb_values(xrtm_fd_data *d, int j, enum xrtm_solver_mask solver,
 
      double *levels_b;
 
-     if (d->d->options & XRTM_OPTION_SOURCE_THERMAL) {
-           if (xrtm_set_F_iso_top(d->d, xrtm_get_F_iso_top(d->d) + f * d->F_iso_top_p[j])) {
-                fprintf(stderr, "ERROR: xrtm_set_F_iso_top()\n");
-                return -1;
-           }
+     if (xrtm_set_F_iso_top(d->d, xrtm_get_F_iso_top(d->d) + f * d->F_iso_top_p[j])) {
+          fprintf(stderr, "ERROR: xrtm_set_F_iso_top()\n");
+          return -1;
+     }
 
-           if (xrtm_set_F_iso_bot(d->d, xrtm_get_F_iso_bot(d->d) + f * d->F_iso_bot_p[j])) {
-                fprintf(stderr, "ERROR: xrtm_set_F_iso_bot()\n");
-                return -1;
-           }
+     if (xrtm_set_F_iso_bot(d->d, xrtm_get_F_iso_bot(d->d) + f * d->F_iso_bot_p[j])) {
+          fprintf(stderr, "ERROR: xrtm_set_F_iso_bot()\n");
+          return -1;
+     }
 
+     if (d->d->options & XRTM_OPTION_SOURCE_THERMAL) {
            levels_b = alloc_array1_d(d->d->n_layers + 1);
 
            if (xrtm_get_levels_b(d->d, levels_b)) {
-- 
2.43.0


From b643d7e985dd6cb033dc2a70e90c782d0f957b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:41 +0000
Subject: [PATCH 43/65] fix: one sided finite differences left the perturbation
 behind, and backward differences had the wrong sign

---
 src/xrtm_fd_interface.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_fd_interface.c b/src/xrtm_fd_interface.c
index 564cef3..268568f 100644
--- a/src/xrtm_fd_interface.c
+++ b/src/xrtm_fd_interface.c
@@ -1184,12 +1184,17 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
                     for (k = 0; k < n_mus2; ++k) {
                          for (l = 0; l < n_out_phis; ++l) {
                               for (m = 0; m < d->d->n_stokes; ++m) {
-                                   I_p_l[i][j][k][l][m] = (I_p2[i][k][l][m] - I_p[i][k][l][m]) / d->delta[j];
-                                   I_m_l[i][j][k][l][m] = (I_m2[i][k][l][m] - I_m[i][k][l][m]) / d->delta[j];
+                                   I_p_l[i][j][k][l][m] = f * (I_p2[i][k][l][m] - I_p[i][k][l][m]) / d->delta[j];
+                                   I_m_l[i][j][k][l][m] = f * (I_m2[i][k][l][m] - I_m[i][k][l][m]) / d->delta[j];
                               }
                          }
                     }
                }
+
+               if (perturb_values(d, j, solver, -f, coef)) {
+                    fprintf(stderr, "ERROR: perturb_values()\n");
+                    return -1;
+               }
           }
 
 
-- 
2.43.0


From 1e3bab175e0f4305f26f041d5db0cb2e0eabc4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:52 +0000
Subject: [PATCH 44/65] fix: xrtm_fd_solution() gives the derivatives of mean
 radiances and fluxes, and does not fail when they are asked for

---
 src/xrtm_fd_interface.c | 124 ++++++++++++++++++++++++++++------------
 1 file changed, 87 insertions(+), 37 deletions(-)

diff --git a/src/xrtm_fd_interface.c b/src/xrtm_fd_interface.c
index 268568f..a3f783a 100644
--- a/src/xrtm_fd_interface.c
+++ b/src/xrtm_fd_interface.c
@@ -1100,13 +1100,50 @@ static int perturb_values(xrtm_fd_data *d, int j, enum xrtm_solver_mask solver,
 /*******************************************************************************
  *
  ******************************************************************************/
-int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solutions, enum xrtm_fd_method_type fd_method, int n_out_phis, double **out_phis, double ****I_p, double ****I_m, double *****I_p_l, double *****I_m_l, double *mean_p, double *mean_m, double **mean_p_l, double **mean_m_l, double *flux_p, double *flux_m, double **flux_p_l, double **flux_m_l, double *flux_div, double **flux_div_l) {
+static void difference_add(xrtm_fd_data *d, int solutions, int j, double f, int n_mus2, int n_out_phis, double ****I_p, double ****I_m, double *****I_p_l, double *****I_m_l, double *mean_p, double *mean_m, double **mean_p_l, double **mean_m_l, double *flux_p, double *flux_m, double **flux_p_l, double **flux_m_l) {
 
      int i;
-     int j;
      int k;
      int l;
      int m;
+
+     double a;
+
+     a = f / d->delta[j];
+
+     for (i = 0; i < d->d->n_ulevels; ++i) {
+          if (solutions & XRTM_OUTPUT_RADIANCE) {
+               for (k = 0; k < n_mus2; ++k) {
+                    for (l = 0; l < n_out_phis; ++l) {
+                         for (m = 0; m < d->d->n_stokes; ++m) {
+                              I_p_l[i][j][k][l][m] += I_p[i][k][l][m] * a;
+                              I_m_l[i][j][k][l][m] += I_m[i][k][l][m] * a;
+                         }
+                    }
+               }
+          }
+
+          if (solutions & XRTM_OUTPUT_RADIANCE_MEAN) {
+               mean_p_l[i][j] += mean_p[i] * a;
+               mean_m_l[i][j] += mean_m[i] * a;
+          }
+
+          if (solutions & XRTM_OUTPUT_FLUX) {
+               flux_p_l[i][j] += flux_p[i] * a;
+               flux_m_l[i][j] += flux_m[i] * a;
+          }
+     }
+}
+
+
+
+/*******************************************************************************
+ *
+ ******************************************************************************/
+int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solutions, enum xrtm_fd_method_type fd_method, int n_out_phis, double **out_phis, double ****I_p, double ****I_m, double *****I_p_l, double *****I_m_l, double *mean_p, double *mean_m, double **mean_p_l, double **mean_m_l, double *flux_p, double *flux_m, double **flux_p_l, double **flux_m_l, double *flux_div, double **flux_div_l) {
+
+     int i;
+     int j;
 /*
      int n_quad_x;
 */
@@ -1119,6 +1156,12 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
      double ****I_p2;
      double ****I_m2;
 
+     double *mean_p2;
+     double *mean_m2;
+
+     double *flux_p2;
+     double *flux_m2;
+
 
      /*-------------------------------------------------------------------------
       *
@@ -1139,8 +1182,8 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-     if (xrtm_radiance(d->d, solver, n_out_phis, out_phis, I_p, I_m, NULL, NULL)) {
-          fprintf(stderr, "ERROR: xrtm_radiance()\n");
+     if (xrtm_solution(d->d, solver, solutions, n_out_phis, out_phis, I_p, I_m, NULL, NULL, mean_p, mean_m, NULL, NULL, flux_p, flux_m, NULL, NULL, flux_div, NULL)) {
+          fprintf(stderr, "ERROR: xrtm_solution()\n");
           return -1;
      }
 
@@ -1152,6 +1195,12 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
 
      I_p2 = alloc_array4_d(d->d->n_ulevels, n_mus2, n_out_phis, d->d->n_stokes);
      I_m2 = alloc_array4_d(d->d->n_ulevels, n_mus2, n_out_phis, d->d->n_stokes);
+
+     mean_p2 = alloc_array1_d(d->d->n_ulevels);
+     mean_m2 = alloc_array1_d(d->d->n_ulevels);
+
+     flux_p2 = alloc_array1_d(d->d->n_ulevels);
+     flux_m2 = alloc_array1_d(d->d->n_ulevels);
 /*
      coef = get_work2_d(&work, d->d->n_elem, d->d->n_coef);
 
@@ -1163,6 +1212,27 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
       *
       *-----------------------------------------------------------------------*/
      for (j = 0; j < d->n_derivs; ++j) {
+          for (i = 0; i < d->d->n_ulevels; ++i) {
+               if (solutions & XRTM_OUTPUT_RADIANCE) {
+                    init_array3_d(I_p_l[i][j], n_mus2, n_out_phis, d->d->n_stokes, 0.);
+                    init_array3_d(I_m_l[i][j], n_mus2, n_out_phis, d->d->n_stokes, 0.);
+               }
+
+               if (solutions & XRTM_OUTPUT_RADIANCE_MEAN) {
+                    mean_p_l[i][j] = 0.;
+                    mean_m_l[i][j] = 0.;
+               }
+
+               if (solutions & XRTM_OUTPUT_FLUX) {
+                    flux_p_l[i][j] = 0.;
+                    flux_m_l[i][j] = 0.;
+               }
+          }
+
+
+          /*--------------------------------------------------------------------
+           *
+           *------------------------------------------------------------------*/
           if (fd_method == XRTM_FD_METHOD_FORWARD || fd_method == XRTM_FD_METHOD_BACKWARD) {
                if (fd_method == XRTM_FD_METHOD_FORWARD)
                     f =  1.;
@@ -1175,21 +1245,13 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
                     return -1;
                }
 
-               if (xrtm_solution(d->d, solver, solutions, n_out_phis, out_phis, I_p2, I_m2, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL)) {
+               if (xrtm_solution(d->d, solver, solutions, n_out_phis, out_phis, I_p2, I_m2, NULL, NULL, mean_p2, mean_m2, NULL, NULL, flux_p2, flux_m2, NULL, NULL, NULL, NULL)) {
                     fprintf(stderr, "ERROR: xrtm_solution()\n");
                     return -1;
                }
 
-               for (i = 0; i < d->d->n_ulevels; ++i) {
-                    for (k = 0; k < n_mus2; ++k) {
-                         for (l = 0; l < n_out_phis; ++l) {
-                              for (m = 0; m < d->d->n_stokes; ++m) {
-                                   I_p_l[i][j][k][l][m] = f * (I_p2[i][k][l][m] - I_p[i][k][l][m]) / d->delta[j];
-                                   I_m_l[i][j][k][l][m] = f * (I_m2[i][k][l][m] - I_m[i][k][l][m]) / d->delta[j];
-                              }
-                         }
-                    }
-               }
+               difference_add(d, solutions, j,  f, n_mus2, n_out_phis, I_p2, I_m2, I_p_l, I_m_l, mean_p2, mean_m2, mean_p_l, mean_m_l, flux_p2, flux_m2, flux_p_l, flux_m_l);
+               difference_add(d, solutions, j, -f, n_mus2, n_out_phis, I_p, I_m, I_p_l, I_m_l, mean_p, mean_m, mean_p_l, mean_m_l, flux_p, flux_m, flux_p_l, flux_m_l);
 
                if (perturb_values(d, j, solver, -f, coef)) {
                     fprintf(stderr, "ERROR: perturb_values()\n");
@@ -1207,42 +1269,24 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
                     return -1;
                }
 
-               if (xrtm_solution(d->d, solver, solutions, n_out_phis, out_phis, I_p2, I_m2, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL)) {
+               if (xrtm_solution(d->d, solver, solutions, n_out_phis, out_phis, I_p2, I_m2, NULL, NULL, mean_p2, mean_m2, NULL, NULL, flux_p2, flux_m2, NULL, NULL, NULL, NULL)) {
                     fprintf(stderr, "ERROR: xrtm_solution()\n");
                     return -1;
                }
 
-               for (i = 0; i < d->d->n_ulevels; ++i) {
-                    for (k = 0; k < n_mus2; ++k) {
-                         for (l = 0; l < n_out_phis; ++l) {
-                              for (m = 0; m < d->d->n_stokes; ++m) {
-                                   I_p_l[i][j][k][l][m]  = I_p2[i][k][l][m] / d->delta[j];
-                                   I_m_l[i][j][k][l][m]  = I_m2[i][k][l][m] / d->delta[j];
-                              }
-                         }
-                    }
-               }
+               difference_add(d, solutions, j,  1., n_mus2, n_out_phis, I_p2, I_m2, I_p_l, I_m_l, mean_p2, mean_m2, mean_p_l, mean_m_l, flux_p2, flux_m2, flux_p_l, flux_m_l);
 
                if (perturb_values(d, j, solver, -2., coef)) {
                     fprintf(stderr, "ERROR: perturb_values()\n");
                     return -1;
                }
 
-               if (xrtm_solution(d->d, solver, solutions, n_out_phis, out_phis, I_p2, I_m2, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL)) {
+               if (xrtm_solution(d->d, solver, solutions, n_out_phis, out_phis, I_p2, I_m2, NULL, NULL, mean_p2, mean_m2, NULL, NULL, flux_p2, flux_m2, NULL, NULL, NULL, NULL)) {
                     fprintf(stderr, "ERROR: xrtm_solution()\n");
                     return -1;
                }
 
-               for (i = 0; i < d->d->n_ulevels; ++i) {
-                    for (k = 0; k < n_mus2; ++k) {
-                         for (l = 0; l < n_out_phis; ++l) {
-                              for (m = 0; m < d->d->n_stokes; ++m) {
-                                   I_p_l[i][j][k][l][m] -= I_p2[i][k][l][m] / d->delta[j];
-                                   I_m_l[i][j][k][l][m] -= I_m2[i][k][l][m] / d->delta[j];
-                              }
-                         }
-                    }
-               }
+               difference_add(d, solutions, j, -1., n_mus2, n_out_phis, I_p2, I_m2, I_p_l, I_m_l, mean_p2, mean_m2, mean_p_l, mean_m_l, flux_p2, flux_m2, flux_p_l, flux_m_l);
 
                if (perturb_values(d, j, solver,  1., coef)) {
                     fprintf(stderr, "ERROR: perturb_values()\n");
@@ -1261,6 +1305,12 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
      free_array4_d(I_p2);
      free_array4_d(I_m2);
 
+     free_array1_d(mean_p2);
+     free_array1_d(mean_m2);
+
+     free_array1_d(flux_p2);
+     free_array1_d(flux_m2);
+
 
      return 0;
 }
-- 
2.43.0


From ff472302ecb436889bfe5877fa66485553b65437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:52 +0000
Subject: [PATCH 45/65] fix: extended_trapezoidal_quad() repeated its first
 node, and its one point weight ignored the interval

---
 misc/rtutil_math.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/misc/rtutil_math.c b/misc/rtutil_math.c
index ca385b9..d353217 100644
--- a/misc/rtutil_math.c
+++ b/misc/rtutil_math.c
@@ -47,7 +47,7 @@ void extended_trapezoidal_quad(int n, double a, double b, double *x, double *w)
 
      if (n == 1) {
           x[0] = (a + b) / 2.;
-          w[0] = 1.;
+          w[0] = b - a;
      }
      else {
           dx = (b - a) / (n - 1);
@@ -56,7 +56,7 @@ void extended_trapezoidal_quad(int n, double a, double b, double *x, double *w)
           w[0] = dx / 2.;
 
           for (i = 1; i < n-1; ++i) {
-               x[i] = a + (i - 1) * dx;
+               x[i] = a + i * dx;
                w[i] = dx;
           }
 
-- 
2.43.0


From ef651dba05967cdaeb532d1035410254390ff870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:20 +0000
Subject: [PATCH 46/65] fix: gen_spher_funcs() lost the imaginary functions of
 odd p - q

---
 misc/rtutil_math.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/misc/rtutil_math.c b/misc/rtutil_math.c
index d353217..1808f0d 100644
--- a/misc/rtutil_math.c
+++ b/misc/rtutil_math.c
@@ -654,6 +654,8 @@ void gen_spher_funcs2(int p, int q, int n_mu, int n_l, double *mu, dcomplex **gs
      double apmqd2;
      double appqd2;
 
+     dcomplex dc;
+
      r = MAX(abs(p), abs(q));
 
      p_2 = p * p;
@@ -666,8 +668,8 @@ void gen_spher_funcs2(int p, int q, int n_mu, int n_l, double *mu, dcomplex **gs
      apmqd2 = apmq / 2.;
      appqd2 = appq / 2.;
 
-     da = creal(cpow(-_Complex_I, apmq) / pow(2., r) *
-                sqrt(factorial(2 * r) / (factorial(apmq) * factorial(appq))));
+     dc = cpow(-_Complex_I, apmq) / pow(2., r) *
+          sqrt(factorial(2 * r) / (factorial(apmq) * factorial(appq)));
 
      for (i = 0; i < n_mu; ++i) {
           if (r == 0) {
@@ -684,7 +686,7 @@ void gen_spher_funcs2(int p, int q, int n_mu, int n_l, double *mu, dcomplex **gs
                     gsf[i][j] = 0.;
                }
 
-               gsf[i][r] = da * pow(1. - mu[i], apmqd2) *
+               gsf[i][r] = dc * pow(1. - mu[i], apmqd2) *
                                 pow(1. + mu[i], appqd2);
 
                j = r;
@@ -736,13 +738,15 @@ void gen_spher_funcs_0q_2(int q, int n_mu, int n_l, double *mu, dcomplex **gsf)
 
      double fq;
 
+     dcomplex dc;
+
      qd2 = q / 2.;
 
      q_2 = q * q;
 
      fq  = factorial(q);
 
-     da = creal(cpow(-_Complex_I, q) / pow(2., q) * sqrt(factorial(2 * q) / (fq * fq)));
+     dc = cpow(-_Complex_I, q) / pow(2., q) * sqrt(factorial(2 * q) / (fq * fq));
 
      for (i = 0; i < n_mu; ++i) {
           if (q == 0) {
@@ -759,7 +763,7 @@ void gen_spher_funcs_0q_2(int q, int n_mu, int n_l, double *mu, dcomplex **gsf)
                     gsf[i][j] = 0.;
                }
 
-               gsf[i][q] = da * pow(1. - mu[i], qd2) *
+               gsf[i][q] = dc * pow(1. - mu[i], qd2) *
                                 pow(1. + mu[i], qd2);
 
                j = q;
@@ -809,13 +813,15 @@ void gen_spher_funcs_p0_2(int p, int n_mu, int n_l, double *mu, dcomplex **gsf)
 
      double fp;
 
+     dcomplex dc;
+
      pd2 = p / 2.;
 
      p_2 = p * p;
 
      fp  = factorial(p);
 
-     da = creal(cpow(-_Complex_I, p) / pow(2., p) * sqrt(factorial(2 * p) / (fp * fp)));
+     dc = cpow(-_Complex_I, p) / pow(2., p) * sqrt(factorial(2 * p) / (fp * fp));
 
      for (i = 0; i < n_mu; ++i) {
           if (p == 0) {
@@ -832,7 +838,7 @@ void gen_spher_funcs_p0_2(int p, int n_mu, int n_l, double *mu, dcomplex **gsf)
                     gsf[i][j] = 0.;
                }
 
-               gsf[i][p] = da * pow(1. - mu[i], pd2) *
+               gsf[i][p] = dc * pow(1. - mu[i], pd2) *
                                 pow(1. + mu[i], pd2);
 
                j = p;
-- 
2.43.0


From e665e56c4da951497bf68351cfc2fd3d31561e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:50 +0000
Subject: [PATCH 47/65] fix: derivatives of the thermal surface emission used
 the reflectance of the last stream for all of them

---
 src/xrtm_model.c | 22 ++++++++++++++++++----
 src/xrtm_sfi_x.c | 11 +++++++++--
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index e7954ac..031589d 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -4117,10 +4117,17 @@ if (i_four == 0) {
 
                     if (d->derivs.layers[d->n_layers][i]) {
 */
-                         c = d->surface_b_l[i] * (1. - a);
-
                          jj = 0;
                          for (j = 0; j < d->n_quad_x; ++j) {
+                              a  = 0.;
+                              kk = 0;
+                              for (k = 0; k < d->n_quad_x; ++k) {
+                                   a  += Rs_qq[jj][kk];
+                                   kk += d->n_stokes;
+                              }
+
+                              c  = d->surface_b_l[i] * (1. - a);
+
                               e  = 0.;
                               kk = 0;
 if (d->derivs.layers[d->n_layers][i]) {
@@ -4134,10 +4141,17 @@ if (d->derivs.layers[d->n_layers][i]) {
                               jj += d->n_stokes;
                          }
 
-                         c = d->surface_b_l[i] * (1. - b);
-
                          jjj = jj; jj = 0;
                          for ( ; j < d->n_quad + d->n_umus; ++j) {
+                              b  = 0.;
+                              kk = 0;
+                              for (k = 0; k < d->n_quad_x; ++k) {
+                                   b  += Rs_uq[jj][kk];
+                                   kk += d->n_stokes;
+                              }
+
+                              c  = d->surface_b_l[i] * (1. - b);
+
                               e  = 0.;
                               kk = 0;
 if (d->derivs.layers[d->n_layers][i]) {
diff --git a/src/xrtm_sfi_x.c b/src/xrtm_sfi_x.c
index 592c4ea..069b2e8 100644
--- a/src/xrtm_sfi_x.c
+++ b/src/xrtm_sfi_x.c
@@ -1273,10 +1273,17 @@ void SFI_UP(int i_four,
           }
 
           for (i = 0; i < n_derivs; ++i) {
-               b = surface_b_l[i] * (1. - a);
-
                jj = 0;
                for (j = 0; j < n_umus; ++j) {
+                    a  = 0.;
+                    kk = 0;
+                    for (k = 0; k < n_quad; ++k) {
+                         a  += Rs_uq[jj][kk];
+                         kk += n_stokes;
+                    }
+
+                    b  = surface_b_l[i] * (1. - a);
+
                     c  = 0.;
                     kk = 0;
 
-- 
2.43.0


From 9575afe110410ceaeca74fa913389ac8249548ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:43 +0000
Subject: [PATCH 48/65] fix: two_stream dereferenced unset pointers for
 derivatives that vary no layer

---
 src/xrtm_two_stream.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xrtm_two_stream.c b/src/xrtm_two_stream.c
index 6bb1296..4581136 100644
--- a/src/xrtm_two_stream.c
+++ b/src/xrtm_two_stream.c
@@ -277,7 +277,7 @@ void rtm_two_stream(int i_four,
 #endif
      }
 
-     if (flags_or2(derivs->layers, n_layers, n_derivs)) {
+     if (n_derivs > 0) {
           nu_l      = get_work_d2(&work, n_layers, n_derivs);
 
           X_p_l     = get_work_d2(&work, n_layers, n_derivs);
-- 
2.43.0


From 27c736a3cfa29877f04c7ebf7d2a7cde575b6276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:03 +0000
Subject: [PATCH 49/65] fix: eig_bvp did not attenuate the lower boundary
 Green's function source of the layers below the first

---
 src/xrtm_eig_bvp.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/xrtm_eig_bvp.c b/src/xrtm_eig_bvp.c
index 4c4bd35..8014a7e 100644
--- a/src/xrtm_eig_bvp.c
+++ b/src/xrtm_eig_bvp.c
@@ -526,6 +526,8 @@ else {
                     }
 
                     scale_source_vectors_solar(n_quad_v_x, n_derivs, btran[i], btran_l2, Fs_p[i], Fs_m[i], Fs_p[i], Fs_m[i], Fs_p_l2, Fs_m_l2, Fs_p_l2, Fs_m_l2, derivs_layers2, derivs_beam2, work2);
+                    if (greens)
+                         scale_source_vectors_solar(n_quad_v_x, n_derivs, btran[i], btran_l2, Fs1_p[i], Fs1_m[i], Fs1_p[i], Fs1_m[i], Fs1_p_l2, Fs1_m_l2, Fs1_p_l2, Fs1_m_l2, derivs_layers2, derivs_beam2, work2);
 
                     if (save_tree.t) {
                          copy_array1_d(save->Fs_p2[i], Fs_p[i], n_quad_v_x);
@@ -588,6 +590,8 @@ else {
                     }
 
                     scale_source_vectors_solar(n_quad_v_x, n_derivs, btran[i], btran_l2, Fs_p[i], Fs_m[i], Fs_p[i], Fs_m[i], Fs_p_l2, Fs_m_l2, Fs_p_l2, Fs_m_l2, derivs_layers2, derivs_beam2, work2);
+                    if (greens)
+                         scale_source_vectors_solar(n_quad_v_x, n_derivs, btran[i], btran_l2, Fs1_p[i], Fs1_m[i], Fs1_p[i], Fs1_m[i], Fs1_p_l2, Fs1_m_l2, Fs1_p_l2, Fs1_m_l2, derivs_layers2, derivs_beam2, work2);
                     if (save_tree.t) {
                          copy_array1_d(save->Fs_p2[i], Fs_p[i], n_quad_v_x);
                          copy_array1_d(save->Fs_m2[i], Fs_m[i], n_quad_v_x);
-- 
2.43.0


From d96ac0fc3dd4552482da677c4ef7b8a27d054d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:14 +0000
Subject: [PATCH 50/65] fix: sos tested convergence on the signed instead of
 the absolute intensities

---
 src/xrtm_sos.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/xrtm_sos.c b/src/xrtm_sos.c
index 3044887..0515e28 100644
--- a/src/xrtm_sos.c
+++ b/src/xrtm_sos.c
@@ -449,12 +449,12 @@ if (ulevels[i_last_ulevel] == n_layers) {
                }
           }
 
-          b = i_p[i][0][0];
+          b = fabs(i_p[i][0][0]);
 
           jj = n_stokes;
           for (j = 1; j < n_quad; ++j) {
-               if (i_p[i][0][jj] > b)
-                    b = i_p[i][0][jj];
+               if (fabs(i_p[i][0][jj]) > b)
+                    b = fabs(i_p[i][0][jj]);
                jj += n_stokes;
           }
 if (ulevels[0] == 0) {
@@ -513,12 +513,12 @@ if (ulevels[i_last_ulevel] == n_layers) {
                }
           }
 
-          c = i_m[i][n_layers2][0];
+          c = fabs(i_m[i][n_layers2][0]);
 
           jj = n_stokes;
           for (j = 1; j < n_quad; ++j) {
-               if (i_m[i][n_layers2][jj] > c)
-                    c = i_m[i][n_layers2][jj];
+               if (fabs(i_m[i][n_layers2][jj]) > c)
+                    c = fabs(i_m[i][n_layers2][jj]);
                jj += n_stokes;
           }
 
-- 
2.43.0


From 2d4f10bb1223e0b22bce0e075d675c8648ed2f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:51 +0000
Subject: [PATCH 51/65] fix: four/six_stream did not normalise the reflected
 beam seen by sfi with the quadrature

---
 src/prototypes/xrtm_four_stream_p.h | 2 +-
 src/prototypes/xrtm_six_stream_p.h  | 2 +-
 src/xrtm_four_stream.c              | 6 +++---
 src/xrtm_model.c                    | 4 ++--
 src/xrtm_six_stream.c               | 6 +++---
 5 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/prototypes/xrtm_four_stream_p.h b/src/prototypes/xrtm_four_stream_p.h
index 919f616..f9763aa 100644
--- a/src/prototypes/xrtm_four_stream_p.h
+++ b/src/prototypes/xrtm_four_stream_p.h
@@ -1,2 +1,2 @@
 /* xrtm_four_stream.c */
-void rtm_four_stream(int i_four, int n_derivs, int n_layers, double *qx, double *qw, double F_0, double mu_0, int n_ulevels, int *ulevels, double *utaus, int n_umus, double *umus, double ***coef, double ****coef_l, double *omega, double **omega_l, double *ltau, double **ltau_l, double *btran, double **btran_l, double *as_0, double **as_0_l, double *atran, double **atran_l, double *Rs_q0, double **Rs_q0_l, double **Rs_qq, double ***Rs_qq_l, double *Rs_u0, double **Rs_u0_l, double **Rs_uq, double ***Rs_uq_l, double F_iso_top, double F_iso_bot, double *I1_m, double **I1_m_l, double *In_p, double **In_p_l, double **I_p, double **I_m, double ***I_p_l, double ***I_m_l, int add_single_scattering, int solar, int thermal, int surface, int upwelling, int downwelling, int utau_output, derivs_data *derivs, save_tree_data save_tree, work_data work);
+void rtm_four_stream(int i_four, int n_derivs, int n_layers, double qf, double *qx, double *qw, double F_0, double mu_0, int n_ulevels, int *ulevels, double *utaus, int n_umus, double *umus, double ***coef, double ****coef_l, double *omega, double **omega_l, double *ltau, double **ltau_l, double *btran, double **btran_l, double *as_0, double **as_0_l, double *atran, double **atran_l, double *Rs_q0, double **Rs_q0_l, double **Rs_qq, double ***Rs_qq_l, double *Rs_u0, double **Rs_u0_l, double **Rs_uq, double ***Rs_uq_l, double F_iso_top, double F_iso_bot, double *I1_m, double **I1_m_l, double *In_p, double **In_p_l, double **I_p, double **I_m, double ***I_p_l, double ***I_m_l, int add_single_scattering, int solar, int thermal, int surface, int upwelling, int downwelling, int utau_output, derivs_data *derivs, save_tree_data save_tree, work_data work);
diff --git a/src/prototypes/xrtm_six_stream_p.h b/src/prototypes/xrtm_six_stream_p.h
index b1fe934..7969bf6 100644
--- a/src/prototypes/xrtm_six_stream_p.h
+++ b/src/prototypes/xrtm_six_stream_p.h
@@ -1,2 +1,2 @@
 /* xrtm_six_stream.c */
-void rtm_six_stream(int i_four, int n_derivs, int n_layers, double *qx, double *qw, double F_0, double mu_0, int n_ulevels, int *ulevels, double *utaus, int n_umus, double *umus, double ***coef, double ****coef_l, double *omega, double **omega_l, double *ltau, double **ltau_l, double *btran, double **btran_l, double *as_0, double **as_0_l, double *atran, double **atran_l, double *Rs_q0, double **Rs_q0_l, double **Rs_qq, double ***Rs_qq_l, double *Rs_u0, double **Rs_u0_l, double **Rs_uq, double ***Rs_uq_l, double F_iso_top, double F_iso_bot, double *I1_m, double **I1_m_l, double *In_p, double **In_p_l, double **I_p, double **I_m, double ***I_p_l, double ***I_m_l, int add_single_scattering, int solar, int thermal, int surface, int upwelling, int downwelling, int utau_output, derivs_data *derivs, save_tree_data save_tree, work_data work);
+void rtm_six_stream(int i_four, int n_derivs, int n_layers, double qf, double *qx, double *qw, double F_0, double mu_0, int n_ulevels, int *ulevels, double *utaus, int n_umus, double *umus, double ***coef, double ****coef_l, double *omega, double **omega_l, double *ltau, double **ltau_l, double *btran, double **btran_l, double *as_0, double **as_0_l, double *atran, double **atran_l, double *Rs_q0, double **Rs_q0_l, double **Rs_qq, double ***Rs_qq_l, double *Rs_u0, double **Rs_u0_l, double **Rs_uq, double ***Rs_uq_l, double F_iso_top, double F_iso_bot, double *I1_m, double **I1_m_l, double *In_p, double **In_p_l, double **I_p, double **I_m, double ***I_p_l, double ***I_m_l, int add_single_scattering, int solar, int thermal, int surface, int upwelling, int downwelling, int utau_output, derivs_data *derivs, save_tree_data save_tree, work_data work);
diff --git a/src/xrtm_four_stream.c b/src/xrtm_four_stream.c
index 441b96b..b30d27f 100644
--- a/src/xrtm_four_stream.c
+++ b/src/xrtm_four_stream.c
@@ -56,7 +56,7 @@ void dgbtrs_(const char *, int *, int *, int *, int *, double *, int *, int *, d
  ******************************************************************************/
 void rtm_four_stream(int i_four,
                      int n_derivs, int n_layers,
-                     double *qx, double *qw, double F_0, double mu_0,
+                     double qf, double *qx, double *qw, double F_0, double mu_0,
                      int n_ulevels, int *ulevels, double *utaus,
                      int n_umus, double *umus,
                      double ***coef, double ****coef_l,
@@ -1139,7 +1139,7 @@ if (n_umus != 0) {
      if (upwelling)
           sfi_up(i_four,
                  2, 1, 0, n_layers,
-                 1., qx, qw, F_0, mu_0,
+                 qf, qx, qw, F_0, mu_0,
                  n_ulevels, ulevels, utaus, n_umus, umus,
                  omega, omega_l, ltau, ltau_l,
                  0., NULL,
@@ -1169,7 +1169,7 @@ if (n_umus != 0) {
      if (downwelling)
           sfi_dn(i_four,
                  2, 1, 0, n_layers,
-                 1., qx, qw, F_0,
+                 qf, qx, qw, F_0,
                  n_ulevels, ulevels, utaus, n_umus, umus,
                  omega, omega_l, ltau, ltau_l,
                  NULL, NULL,
diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 031589d..15ef268 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -5313,7 +5313,7 @@ if (! (solver & XRTM_SOLVER_TWO_STREAM)) {
      if (solver & XRTM_SOLVER_FOUR_STREAM)
           rtm_four_stream(i_four,
                           d->n_derivs, d->n_layers,
-                          d->qx, d->qw, d->F_0, d->mu_0,
+                          d->qf, d->qx, d->qw, d->F_0, d->mu_0,
                           d->n_ulevels, d->ulevels, d->utaus2,
                           d->n_umus, d->umus,
                           d->coef, d->coef_l, d->omega, d->omega_l, d->ltau, d->ltau_l,
@@ -5332,7 +5332,7 @@ if (! (solver & XRTM_SOLVER_TWO_STREAM)) {
      if (solver & XRTM_SOLVER_SIX_STREAM)
           rtm_six_stream (i_four,
                           d->n_derivs, d->n_layers,
-                          d->qx, d->qw, d->F_0, d->mu_0,
+                          d->qf, d->qx, d->qw, d->F_0, d->mu_0,
                           d->n_ulevels, d->ulevels, d->utaus2,
                           d->n_umus, d->umus,
                           d->coef, d->coef_l,
diff --git a/src/xrtm_six_stream.c b/src/xrtm_six_stream.c
index e3412f3..8ee2512 100644
--- a/src/xrtm_six_stream.c
+++ b/src/xrtm_six_stream.c
@@ -135,7 +135,7 @@ static void cubic_roots_cardano(double a, double b, double c, double d, double *
  ******************************************************************************/
 void rtm_six_stream(int i_four,
                     int n_derivs, int n_layers,
-                    double *qx, double *qw, double F_0, double mu_0,
+                    double qf, double *qx, double *qw, double F_0, double mu_0,
                     int n_ulevels, int *ulevels, double *utaus,
                     int n_umus, double *umus,
                     double ***coef, double ****coef_l,
@@ -1406,7 +1406,7 @@ if (n_umus != 0) {
      if (upwelling)
           sfi_up(i_four,
                  3, 1, 0, n_layers,
-                 1., qx, qw, F_0, mu_0,
+                 qf, qx, qw, F_0, mu_0,
                  n_ulevels, ulevels, utaus, n_umus, umus,
                  omega, omega_l, ltau, ltau_l,
                  0., NULL,
@@ -1436,7 +1436,7 @@ if (n_umus != 0) {
      if (downwelling)
           sfi_dn(i_four,
                  3, 1, 0, n_layers,
-                 1., qx, qw, F_0,
+                 qf, qx, qw, F_0,
                  n_ulevels, ulevels, utaus, n_umus, umus,
                  omega, omega_l, ltau, ltau_l,
                  NULL, NULL,
-- 
2.43.0


From 1d9f12717fa40e590339213f81f3e91d9e96077a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:42 +0000
Subject: [PATCH 52/65] fix: two_stream ignored isotropic illumination and the
 quadrature normalisation of the reflected beam

---
 src/prototypes/xrtm_two_stream_p.h |  2 +-
 src/xrtm_model.c                   |  3 ++-
 src/xrtm_two_stream.c              | 35 ++++++++++++++++++++++++++++--
 3 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/src/prototypes/xrtm_two_stream_p.h b/src/prototypes/xrtm_two_stream_p.h
index 2580fb4..60e8fd8 100644
--- a/src/prototypes/xrtm_two_stream_p.h
+++ b/src/prototypes/xrtm_two_stream_p.h
@@ -1,4 +1,4 @@
 /* xrtm_two_stream.c */
-void rtm_two_stream(int i_four, int n_derivs, int n_layers, double qx, double F_0, double mu_0, int n_ulevels, int *ulevels, double *utaus, int n_umus, double *umus, double ***coef, double ****coef_l, double *omega, double **omega_l, double *ltau, double **ltau_l, double *btran, double **btran_l, double *as_0, double **as_0_l, double *atran, double **atran_l, double *Rs_q0, double **Rs_q0_l, double **Rs_qq, double ***Rs_qq_l, double *Rs_u0, double **Rs_u0_l, double **Rs_uq, double ***Rs_uq_l, double **I_p, double **I_m, double ***I_p_l, double ***I_m_l, int add_single_scattering, int solar, int thermal, int surface, int upwelling, int downwelling, int utau_output, derivs_data *derivs, save_tree_data save_tree, work_data work);
+void rtm_two_stream(int i_four, int n_derivs, int n_layers, double qf, double qx, double F_0, double mu_0, int n_ulevels, int *ulevels, double *utaus, int n_umus, double *umus, double ***coef, double ****coef_l, double *omega, double **omega_l, double *ltau, double **ltau_l, double *btran, double **btran_l, double *as_0, double **as_0_l, double *atran, double **atran_l, double *Rs_q0, double **Rs_q0_l, double **Rs_qq, double ***Rs_qq_l, double *Rs_u0, double **Rs_u0_l, double **Rs_uq, double ***Rs_uq_l, double F_iso_top, double *F_iso_top_l, double F_iso_bot, double *F_iso_bot_l, double **I_p, double **I_m, double ***I_p_l, double ***I_m_l, int add_single_scattering, int solar, int thermal, int surface, int upwelling, int downwelling, int utau_output, derivs_data *derivs, save_tree_data save_tree, work_data work);
 void calc_level_radiance(int i_const, int n_derivs, double atran, double *atran_l, double Lambda1, double Lambda2, double X_p, double X_m, double F_p, double F_m, double *Lambda1_l, double *Lambda2_l, double *X_p_l, double *X_m_l, double *F_p_l, double *F_m_l, double *x, double **x_l, double *I_p, double *I_m, double **I_p_l, double **I_m_l, derivs_data *derivs);
 void sfi(int i_four, int n_quad, int n_stokes, int n_derivs, int n_layers, double F_0, int n_ulevels, int *ulevels, double *utaus, int n_umus, double *umus, double *omega, double **omega_l, double *ltau, double **ltau_l, double *btran, double **btran_l, double *as_0, double **as_0_l, double *atran, double **atran_l, double **P_u0_pm, double **P_uq_pp, double **P_uq_mp, double *nu, double *X_p, double *X_m, double *F_p, double *F_m, double ***P_u0_pm_l, double ***P_uq_pp_l, double ***P_uq_mp_l, double **nu_l, double **X_p_l, double **X_m_l, double **F_p_l, double **F_m_l, double *B, double **B_l, double *I_0, double **I_0_l, int offset, double **I_u, double ***I_u_l, int add_single_scattering, int solar, int thermal, int utau_output, derivs_data *derivs, work_data work, int flag);
diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 15ef268..843c30b 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -5293,7 +5293,7 @@ if (! (solver & XRTM_SOLVER_TWO_STREAM)) {
 #endif
           rtm_two_stream(i_four,
                          d->n_derivs, d->n_layers,
-                         d->qx[0], d->F_0, d->mu_0,
+                         d->qf, d->qx[0], d->F_0, d->mu_0,
                          d->n_ulevels, d->ulevels, d->utaus2,
                          d->n_umus, d->umus,
                          d->coef, d->coef_l, d->omega, d->omega_l, d->ltau, d->ltau_l,
@@ -5301,6 +5301,7 @@ if (! (solver & XRTM_SOLVER_TWO_STREAM)) {
                          d->as_0, d->as_0_l, d->atran, d->atran_l,
                          Rs_q0, Rs_q0_l, Rs_qq, Rs_qq_l,
                          Rs_u0, Rs_u0_l, Rs_uq, Rs_uq_l,
+                         d->F_iso_top, d->F_iso_top_l, d->F_iso_bot, d->F_iso_bot_l,
                          I_p, I_m, I_p_l, I_m_l,
                          add_single_scattering,
                          solar, thermal, surface,
diff --git a/src/xrtm_two_stream.c b/src/xrtm_two_stream.c
index 4581136..e829e3f 100644
--- a/src/xrtm_two_stream.c
+++ b/src/xrtm_two_stream.c
@@ -49,7 +49,7 @@ void pentdag2_(double *a, double *b, double *c, double *f, double *u, double *p,
  ******************************************************************************/
 void rtm_two_stream(int i_four,
                     int n_derivs, int n_layers,
-                    double qx, double F_0, double mu_0,
+                    double qf, double qx, double F_0, double mu_0,
                     int n_ulevels, int *ulevels, double *utaus,
                     int n_umus, double *umus,
                     double ***coef, double ****coef_l,
@@ -58,6 +58,7 @@ void rtm_two_stream(int i_four,
                     double *as_0, double **as_0_l, double *atran, double **atran_l,
                     double *Rs_q0, double **Rs_q0_l, double **Rs_qq, double ***Rs_qq_l,
                     double *Rs_u0, double **Rs_u0_l, double **Rs_uq, double ***Rs_uq_l,
+                    double F_iso_top, double *F_iso_top_l, double F_iso_bot, double *F_iso_bot_l,
                     double **I_p, double **I_m, double ***I_p_l, double ***I_m_l,
                     int add_single_scattering, int solar, int thermal, int surface,
                     int upwelling, int downwelling, int utau_output,
@@ -297,7 +298,7 @@ void rtm_two_stream(int i_four,
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-     solfac = F_0 * mu_0 / PI;
+     solfac = qf * F_0 * mu_0 / PI;
 
 
      /*-------------------------------------------------------------------------
@@ -667,6 +668,11 @@ if (solar) {
      b[2 * n_layers - 1] = a1 - a2 * atran[n_layers - 1];
 }
 
+     if (i_four == 0) {
+          b[0]                += F_iso_top;
+          b[2 * n_layers - 1] += F_iso_bot;
+     }
+
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
@@ -829,6 +835,11 @@ if (solar) {
 if (0)
           b_l[j][2 * n_layers - 1] = a1_l - a2_l * atran[n_layers - 1] - a2 * atran_l[n_layers - 1][j] - (V_p_l * Lambda[n_layers - 1] + V_p * Lambda_l[n_layers - 1][j]) * x[2 * n_layers - 1 - 1] - V_m_l * x[2 * n_layers - 1];
 
+          if (i_four == 0) {
+               b_l[j][0]                += F_iso_top_l[j];
+               b_l[j][2 * n_layers - 1] += F_iso_bot_l[j];
+          }
+
 
           /*--------------------------------------------------------------------
            *
@@ -1180,6 +1191,16 @@ if (add_single_scattering) {
                }
           }
 
+          if (i_four == 0) {
+               for (i = 0; i < n_umus; ++i)
+                    I_0[i] += F_iso_bot;
+
+               for (i = 0; i < n_derivs; ++i) {
+                    for (j = 0; j < n_umus; ++j)
+                         I_0_l[i][j] += F_iso_bot_l[i];
+               }
+          }
+
           sfi(i_four, 1, 1, n_derivs, n_layers, F_0,
               n_ulevels, ulevels, utaus, n_umus, umus,
               omega, omega_l, ltau, ltau_l,
@@ -1209,6 +1230,16 @@ if (downwelling) {
                     I_0_l[i][j] = 0.;
           }
 
+          if (i_four == 0) {
+               for (i = 0; i < n_umus; ++i)
+                    I_0[i] += F_iso_top;
+
+               for (i = 0; i < n_derivs; ++i) {
+                    for (j = 0; j < n_umus; ++j)
+                         I_0_l[i][j] += F_iso_top_l[i];
+               }
+          }
+
           sfi(i_four, 1, 1, n_derivs, n_layers, F_0,
               n_ulevels, ulevels, utaus, n_umus, umus,
               omega, omega_l, ltau, ltau_l,
-- 
2.43.0


From 6e959579798e66e0369b9969601f7ca87d7ea662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:13 +0000
Subject: [PATCH 53/65] fix: sfi derivatives ignored the change of the average
 secant due to layers above (PSA)

---
 src/xrtm_sfi_x.c      | 22 +++++++++++++++-------
 src/xrtm_two_stream.c | 23 ++++++++++++++++-------
 2 files changed, 31 insertions(+), 14 deletions(-)

diff --git a/src/xrtm_sfi_x.c b/src/xrtm_sfi_x.c
index 069b2e8..8e958f4 100644
--- a/src/xrtm_sfi_x.c
+++ b/src/xrtm_sfi_x.c
@@ -128,18 +128,26 @@ static void SFI_SOURCE_SOLAR_CLASSIC(double ptau, double *ptau_l,
                          Fu_0_l[k] +=                      omega * (u3[k] + a2 * P_u0_pm     [k]);
           }
 
-          if (derivs_layers[j])
-               e2_l = (-ptau_l[j] * as_0 - ptau * as_0_l[j]) * e2;
+          if (derivs_beam[j]) {
+               e2_l = -ptau * as_0_l[j] * e2;
 
-          for (k = 0; k < n_umus_v; ++k) {
-               if (derivs_beam[j])
+               if (derivs_layers[j])
+                    e2_l += -ptau_l[j] * as_0 * e2;
+
+               for (k = 0; k < n_umus_v; ++k) {
                     I_u_l[j][offset + k] += Fu_0_l[k] * Eu_0[k];
 
-               if (derivs_layers[j]) {
                     if (! flag)
-                         Eu_0_l = ((e2_l - atran_l[j] * e1[k] - atran * e1_l[j][k]) - Eu_0[k] * ( umus[k] * as_0_l[j])) / (1. + umus[k] * as_0);
+                         Eu_0_l = ((e2_l - atran_l[j] * e1[k]) - Eu_0[k] * ( umus[k] * as_0_l[j])) / (1. + umus[k] * as_0);
                     else
-                         Eu_0_l = ((e2_l -                              e1_l[j][k]) - Eu_0[k] * (-umus[k] * as_0_l[j])) / (1. - umus[k] * as_0);
+                         Eu_0_l = ( e2_l                       - Eu_0[k] * (-umus[k] * as_0_l[j])) / (1. - umus[k] * as_0);
+
+                    if (derivs_layers[j]) {
+                         if (! flag)
+                              Eu_0_l -= atran * e1_l[j][k] / (1. + umus[k] * as_0);
+                         else
+                              Eu_0_l -=         e1_l[j][k] / (1. - umus[k] * as_0);
+                    }
 
                     I_u_l[j][offset + k] += Fu_0[k] * Eu_0_l;
                }
diff --git a/src/xrtm_two_stream.c b/src/xrtm_two_stream.c
index e829e3f..46fcd51 100644
--- a/src/xrtm_two_stream.c
+++ b/src/xrtm_two_stream.c
@@ -1514,19 +1514,28 @@ if (! add_single_scattering)
 else
                     Gu_0[k] += omega_l[j] * u1[k] + omega * (a1 * P_u0_pm_l[j][k] + u2[k]);
                }
-
-               e2_l = (-ptau_l[j] * as_0 - ptau * as_0_l[j]) * e2;
           }
 
-          for (k = 0; k < n_umus; ++k) {
-               if (derivs->beam[i_layer][j])
+          if (derivs->beam[i_layer][j]) {
+               e2_l = -ptau * as_0_l[j] * e2;
+
+               if (derivs->layers[i_layer][j])
+                    e2_l += -ptau_l[j] * as_0 * e2;
+
+               for (k = 0; k < n_umus; ++k) {
                     I_u_l[j][offset + k] += Gu_0[k] * Du_0[k];
 
-               if (derivs->layers[i_layer][j]) {
                     if (! flag)
-                         Eu_0 = ((e2_l - atran_l[j] * e1[k] - atran * e1_l[j][k]) - Du_0[k] * ( umus[k] * as_0_l[j])) / (1. + umus[k] * as_0);
+                         Eu_0 = ((e2_l - atran_l[j] * e1[k]) - Du_0[k] * ( umus[k] * as_0_l[j])) / (1. + umus[k] * as_0);
                     else
-                         Eu_0 = ((e2_l -                              e1_l[j][k]) - Du_0[k] * (-umus[k] * as_0_l[j])) / (1. - umus[k] * as_0);
+                         Eu_0 = ( e2_l                       - Du_0[k] * (-umus[k] * as_0_l[j])) / (1. - umus[k] * as_0);
+
+                    if (derivs->layers[i_layer][j]) {
+                         if (! flag)
+                              Eu_0 -= atran * e1_l[j][k] / (1. + umus[k] * as_0);
+                         else
+                              Eu_0 -=         e1_l[j][k] / (1. - umus[k] * as_0);
+                    }
 
                     I_u_l[j][offset + k] += Fu_0[k] * Eu_0;
                }
-- 
2.43.0


From 6b54158c2128ebcd70f495722ca5e478ee40c1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:31 +0000
Subject: [PATCH 54/65] fix: derivatives of bottom of atmosphere radiances
 undefined for thermal source combinations (adding)

---
 src/xrtm_radiance.c | 292 ++++++--------------------------------------
 1 file changed, 34 insertions(+), 258 deletions(-)

diff --git a/src/xrtm_radiance.c b/src/xrtm_radiance.c
index 16bd3fd..5d97328 100644
--- a/src/xrtm_radiance.c
+++ b/src/xrtm_radiance.c
@@ -161,8 +161,6 @@ void radiance_boa_ref(int n_quad, int n_derivs,
      double *v2;
 
      double **w1;
-     double **w2;
-     double **w3;
 
      i1 = get_work1(&work, WORK_IX);
 
@@ -185,120 +183,30 @@ void radiance_boa_ref(int n_quad, int n_derivs,
 /*
      if (flags_or(derivs, n_derivs)) {
 */
-          w2 = get_work1(&work, WORK_DXX);
-          w3 = get_work1(&work, WORK_DXX);
-
           for (i = 0; i < n_derivs; ++i) {
-               if (derivs[i] == ADDING_U_U) {
-                    dm_v_mul(R12_p, I3_p_l[i], n_quad, n_quad, I2_m_l[i]);
-
-                    dmat_getrs(w1, &I2_m_l[i], n_quad, 1, i1);
-
-                    dm_v_mul(R23_m, I2_m_l[i], n_quad, n_quad, I2_p_l[i]);
-
-                    dvec_add(I2_p_l[i], I3_p_l[i], I2_p_l[i], n_quad);
-               }
-               else
-               if (derivs[i] == ADDING_U_L || derivs[i] == ADDING_U_B) {
-                    dmat_mul(R12_p, R23_m_l[i], n_quad, n_quad, n_quad, w2);
-
-                    dm_v_mul(w2, I2_m, n_quad, n_quad, v1);
-
-                    dm_v_mul(R12_p, I3_p_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, I2_m_l[i], n_quad);
-
-                    dmat_getrs(w1, &I2_m_l[i], n_quad, 1, i1);
-
-                    dm_v_mul(R23_m_l[i], I2_m, n_quad, n_quad, v1);
-                    dm_v_mul(R23_m, I2_m_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, I2_p_l[i], n_quad);
-
-                    dvec_add(I2_p_l[i], I3_p_l[i], I2_p_l[i], n_quad);
-               }
-               else
-               if (derivs[i] == ADDING_L_U) {
-                    dmat_mul(R12_p_l[i], R23_m, n_quad, n_quad, n_quad, w2);
-
-                    dm_v_mul(w2, I2_m, n_quad, n_quad, v1);
-
-                    dm_v_mul(R12_p_l[i], I3_p, n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dm_v_mul(R12_p, I3_p_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, I2_m_l[i], n_quad);
-
-                    dmat_getrs(w1, &I2_m_l[i], n_quad, 1, i1);
-
-                    dm_v_mul(R23_m, I2_m_l[i], n_quad, n_quad, I2_p_l[i]);
+               dm_v_mul(R12_p, I3_p_l[i], n_quad, n_quad, I2_m_l[i]);
 
-                    dvec_add(I2_p_l[i], I3_p_l[i], I2_p_l[i], n_quad);
-               }
-               else
-               if (derivs[i] == ADDING_L_L) {
-                    dmat_mul(R12_p_l[i], R23_m, n_quad, n_quad, n_quad, w2);
-                    dmat_mul(R12_p, R23_m_l[i], n_quad, n_quad, n_quad, w3);
-                    dmat_add(w2, w3, w2,  n_quad, n_quad);
-
-                    dm_v_mul(w2, I2_m, n_quad, n_quad, v1);
-
-                    dm_v_mul(R12_p_l[i], I3_p, n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dm_v_mul(R12_p, I3_p_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, I2_m_l[i], n_quad);
-
-                    dmat_getrs(w1, &I2_m_l[i], n_quad, 1, i1);
+               if (derivs[i] & DERIV_TOP_S)
+                    dvec_add(I2_m_l[i], S12_m_l[i], I2_m_l[i], n_quad);
 
-                    dm_v_mul(R23_m_l[i], I2_m, n_quad, n_quad, v1);
-                    dm_v_mul(R23_m, I2_m_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, I2_p_l[i], n_quad);
-
-                    dvec_add(I2_p_l[i], I3_p_l[i], I2_p_l[i], n_quad);
+               if (derivs[i] & DERIV_TOP_L) {
+                    dm_v_mul(R12_p_l[i], I2_p, n_quad, n_quad, v1);
+                    dvec_add(I2_m_l[i], v1, I2_m_l[i], n_quad);
                }
-               else
-               if (derivs[i] == ADDING_B_U || derivs[i] == ADDING_B_S) {
-                    dmat_mul(R12_p_l[i], R23_m, n_quad, n_quad, n_quad, w2);
-
-                    dm_v_mul(w2, I2_m, n_quad, n_quad, v1);
-
-                    dm_v_mul(R12_p_l[i], I3_p, n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dm_v_mul(R12_p, I3_p_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dvec_add(v1, S12_m_l[i], I2_m_l[i], n_quad);
-
-                    dmat_getrs(w1, &I2_m_l[i], n_quad, 1, i1);
 
-                    dm_v_mul(R23_m, I2_m_l[i], n_quad, n_quad, I2_p_l[i]);
-
-                    dvec_add(I2_p_l[i], I3_p_l[i], I2_p_l[i], n_quad);
+               if (derivs[i] & DERIV_BOTTOM_L) {
+                    dm_v_mul(R23_m_l[i], I2_m, n_quad, n_quad, v2);
+                    dm_v_mul(R12_p, v2, n_quad, n_quad, v1);
+                    dvec_add(I2_m_l[i], v1, I2_m_l[i], n_quad);
                }
-               else
-               if (derivs[i] == ADDING_B_L || derivs[i] == ADDING_B_B) {
-                    dmat_mul(R12_p_l[i], R23_m, n_quad, n_quad, n_quad, w2);
-                    dmat_mul(R12_p, R23_m_l[i], n_quad, n_quad, n_quad, w3);
-                    dmat_add(w2, w3, w2,  n_quad, n_quad);
-
-                    dm_v_mul(w2, I2_m, n_quad, n_quad, v1);
 
-                    dm_v_mul(R12_p_l[i], I3_p, n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dm_v_mul(R12_p, I3_p_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dvec_add(v1, S12_m_l[i], I2_m_l[i], n_quad);
+               dmat_getrs(w1, &I2_m_l[i], n_quad, 1, i1);
 
-                    dmat_getrs(w1, &I2_m_l[i], n_quad, 1, i1);
+               dm_v_mul(R23_m, I2_m_l[i], n_quad, n_quad, v1);
+               dvec_add(v1, I3_p_l[i], I2_p_l[i], n_quad);
 
-                    dm_v_mul(R23_m_l[i], I2_m, n_quad, n_quad, v1);
-                    dm_v_mul(R23_m, I2_m_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, I2_p_l[i], n_quad);
-
-                    dvec_add(I2_p_l[i], I3_p_l[i], I2_p_l[i], n_quad);
-               }
-#ifdef DEBUG
-               else {
-                    fprintf(stderr, "ERROR: radiance_boa_ref(), invalid adding combination: %d\n", derivs[i]);
-                    exit(1);
-               }
-#endif
+               if (derivs[i] & DERIV_BOTTOM_L)
+                    dvec_add(I2_p_l[i], v2, I2_p_l[i], n_quad);
           }
 /*
      }
@@ -348,8 +256,6 @@ void radiance_boa_all(int n_quad, int n_derivs,
      double *v2;
 
      double **w1;
-     double **w2;
-     double **w3;
 
      forward_save_radiance_boa_all_data *save;
 
@@ -401,165 +307,35 @@ void radiance_boa_all(int n_quad, int n_derivs,
 /*
      if (flags_or(derivs, n_derivs)) {
 */
-          w2 = get_work1(&work, WORK_DXX);
-          w3 = get_work1(&work, WORK_DXX);
-
           for (i = 0; i < n_derivs; ++i) {
-               if (derivs[i] == ADDING_U_U || derivs[i] == ADDING_U_S) {
-                    dm_v_mul(R12_p, I3_p_l[i], n_quad, n_quad, v1);
-                    dm_v_mul(T12_m, I1_m_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, I2_m_l[i], n_quad);
-
-                    dmat_getrs(w1, &I2_m_l[i], n_quad, 1, i1);
-
-                    dm_v_mul(R23_m, I2_m_l[i], n_quad, n_quad, I2_p_l[i]);
-
-                    dvec_add(I2_p_l[i], I3_p_l[i], I2_p_l[i], n_quad);
-               }
-               else
-               if (derivs[i] == ADDING_U_L || derivs[i] == ADDING_U_B) {
-                    dmat_mul(R12_p, R23_m_l[i], n_quad, n_quad, n_quad, w2);
-
-                    dm_v_mul(w2, I2_m, n_quad, n_quad, v1);
+               dm_v_mul(R12_p, I3_p_l[i], n_quad, n_quad, v1);
+               dm_v_mul(T12_m, I1_m_l[i], n_quad, n_quad, v2);
+               dvec_add(v1, v2, I2_m_l[i], n_quad);
 
-                    dm_v_mul(R12_p, I3_p_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dm_v_mul(T12_m, I1_m_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, I2_m_l[i], n_quad);
+               if (derivs[i] & DERIV_TOP_S)
+                    dvec_add(I2_m_l[i], S12_m_l[i], I2_m_l[i], n_quad);
 
-                    dmat_getrs(w1, &I2_m_l[i], n_quad, 1, i1);
+               if (derivs[i] & DERIV_TOP_L) {
+                    dm_v_mul(R12_p_l[i], I2_p, n_quad, n_quad, v1);
+                    dvec_add(I2_m_l[i], v1, I2_m_l[i], n_quad);
 
-                    dm_v_mul(R23_m_l[i], I2_m, n_quad, n_quad, v1);
-                    dm_v_mul(R23_m, I2_m_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, I2_p_l[i], n_quad);
-
-                    dvec_add(I2_p_l[i], I3_p_l[i], I2_p_l[i], n_quad);
+                    dm_v_mul(T12_m_l[i], I1_m, n_quad, n_quad, v1);
+                    dvec_add(I2_m_l[i], v1, I2_m_l[i], n_quad);
                }
-               else
-               if (derivs[i] == ADDING_S_U) {
-/*
-                    dmat_mul(R12_p_l[i], R23_m, n_quad, n_quad, n_quad, w2);
-
-                    dm_v_mul(w2, I2_m, n_quad, n_quad, v1);
-
-                    dm_v_mul(R12_p_l[i], I3_p, n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dm_v_mul(R12_p, I3_p_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dm_v_mul(T12_m_l[i], I1_m, n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dm_v_mul(T12_m, I1_m_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dvec_add(v1, S12_m_l[i], I2_m_l[i], n_quad);
-
-                    dmat_getrs(w1, &I2_m_l[i], n_quad, 1, i1);
-
-                    dm_v_mul(R23_m, I2_m_l[i], n_quad, n_quad, I2_p_l[i]);
-
-                    dvec_add(I2_p_l[i], I3_p_l[i], I2_p_l[i], n_quad);
-*/
-                    dvec_copy(I2_m_l[i], S12_m_l[i], n_quad);
-
-                    dmat_getrs(w1, &I2_m_l[i], n_quad, 1, i1);
 
-                    dm_v_mul(R23_m, I2_m_l[i], n_quad, n_quad, I2_p_l[i]);
+               if (derivs[i] & DERIV_BOTTOM_L) {
+                    dm_v_mul(R23_m_l[i], I2_m, n_quad, n_quad, v2);
+                    dm_v_mul(R12_p, v2, n_quad, n_quad, v1);
+                    dvec_add(I2_m_l[i], v1, I2_m_l[i], n_quad);
                }
-               else
-               if (derivs[i] == ADDING_L_U) {
-                    dmat_mul(R12_p_l[i], R23_m, n_quad, n_quad, n_quad, w2);
 
-                    dm_v_mul(w2, I2_m, n_quad, n_quad, v1);
+               dmat_getrs(w1, &I2_m_l[i], n_quad, 1, i1);
 
-                    dm_v_mul(R12_p_l[i], I3_p, n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dm_v_mul(R12_p, I3_p_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dm_v_mul(T12_m_l[i], I1_m, n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dm_v_mul(T12_m, I1_m_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, I2_m_l[i], n_quad);
+               dm_v_mul(R23_m, I2_m_l[i], n_quad, n_quad, v1);
+               dvec_add(v1, I3_p_l[i], I2_p_l[i], n_quad);
 
-                    dmat_getrs(w1, &I2_m_l[i], n_quad, 1, i1);
-
-                    dm_v_mul(R23_m, I2_m_l[i], n_quad, n_quad, I2_p_l[i]);
-
-                    dvec_add(I2_p_l[i], I3_p_l[i], I2_p_l[i], n_quad);
-               }
-               else
-               if (derivs[i] == ADDING_L_L) {
-                    dmat_mul(R12_p_l[i], R23_m, n_quad, n_quad, n_quad, w2);
-                    dmat_mul(R12_p, R23_m_l[i], n_quad, n_quad, n_quad, w3);
-                    dmat_add(w2, w3, w2,  n_quad, n_quad);
-
-                    dm_v_mul(w2, I2_m, n_quad, n_quad, v1);
-
-                    dm_v_mul(R12_p_l[i], I3_p, n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dm_v_mul(T12_m_l[i], I1_m, n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dm_v_mul(T12_m, I1_m_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, I2_m_l[i], n_quad);
-
-                    dmat_getrs(w1, &I2_m_l[i], n_quad, 1, i1);
-
-                    dm_v_mul(R23_m_l[i], I2_m, n_quad, n_quad, v1);
-                    dm_v_mul(R23_m, I2_m_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, I2_p_l[i], n_quad);
-               }
-               else
-               if (derivs[i] == ADDING_B_U || derivs[i] == ADDING_B_S) {
-                    dmat_mul(R12_p_l[i], R23_m, n_quad, n_quad, n_quad, w2);
-
-                    dm_v_mul(w2, I2_m, n_quad, n_quad, v1);
-
-                    dm_v_mul(R12_p_l[i], I3_p, n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dm_v_mul(R12_p, I3_p_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dm_v_mul(T12_m_l[i], I1_m, n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dm_v_mul(T12_m, I1_m_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dvec_add(v1, S12_m_l[i], I2_m_l[i], n_quad);
-
-                    dmat_getrs(w1, &I2_m_l[i], n_quad, 1, i1);
-
-                    dm_v_mul(R23_m, I2_m_l[i], n_quad, n_quad, I2_p_l[i]);
-
-                    dvec_add(I2_p_l[i], I3_p_l[i], I2_p_l[i], n_quad);
-               }
-               else
-               if (derivs[i] == ADDING_B_L || derivs[i] == ADDING_B_B) {
-                    dmat_mul(R12_p_l[i], R23_m, n_quad, n_quad, n_quad, w2);
-                    dmat_mul(R12_p, R23_m_l[i], n_quad, n_quad, n_quad, w3);
-                    dmat_add(w2, w3, w2,  n_quad, n_quad);
-
-                    dm_v_mul(w2, I2_m, n_quad, n_quad, v1);
-
-                    dm_v_mul(R12_p_l[i], I3_p, n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dm_v_mul(R12_p, I3_p_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dm_v_mul(T12_m_l[i], I1_m, n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dm_v_mul(T12_m, I1_m_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dvec_add(v1, S12_m_l[i], I2_m_l[i], n_quad);
-
-                    dmat_getrs(w1, &I2_m_l[i], n_quad, 1, i1);
-
-                    dm_v_mul(R23_m_l[i], I2_m, n_quad, n_quad, v1);
-                    dm_v_mul(R23_m, I2_m_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, I2_p_l[i], n_quad);
-
-                    dvec_add(I2_p_l[i], I3_p_l[i], I2_p_l[i], n_quad);
-               }
-#ifdef DEBUG
-               else {
-                    fprintf(stderr, "ERROR: radiance_boa_all(), invalid adding combination: %d\n", derivs[i]);
-                    exit(1);
-               }
-#endif
+               if (derivs[i] & DERIV_BOTTOM_L)
+                    dvec_add(I2_p_l[i], v2, I2_p_l[i], n_quad);
           }
 /*
      }
-- 
2.43.0


From a822c8952c64f0a6998cac1f955b4d75c11c2c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:41 +0000
Subject: [PATCH 55/65] fix: xrtm_get_levels_b_l() is declared and reports
 errors as the int function its callers take it for; xrtm_kernel_qx()/qw()
 without kernels

---
 src/prototypes/xrtm_interface_p.h |  2 +-
 src/xrtm_interface.c              | 16 +++++++++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/prototypes/xrtm_interface_p.h b/src/prototypes/xrtm_interface_p.h
index c7ff6f8..2995ed6 100644
--- a/src/prototypes/xrtm_interface_p.h
+++ b/src/prototypes/xrtm_interface_p.h
@@ -104,7 +104,7 @@ int xrtm_set_levels_b(xrtm_data *d, double *levels_b);
 int xrtm_get_levels_b(xrtm_data *d, double *levels_b);
 int xrtm_set_levels_b_l_1(xrtm_data *d, int i_deriv, double *levels_b_l);
 int xrtm_set_levels_b_l_n(xrtm_data *d, double **levels_b_l);
-double xrtm_get_levels_b_l(xrtm_data *d, int i_deriv, double *levels_b_l);
+int xrtm_get_levels_b_l(xrtm_data *d, int i_deriv, double *levels_b_l);
 int xrtm_set_surface_b(xrtm_data *d, double surface_b);
 double xrtm_get_surface_b(xrtm_data *d);
 int xrtm_set_surface_b_l_1(xrtm_data *d, int i_deriv, double surface_b_l);
diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index e4f6ce3..3dd1cba 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -3749,16 +3749,16 @@ int xrtm_set_levels_b_l_n(xrtm_data *d, double **levels_b_l) {
 
 
 
-double xrtm_get_levels_b_l(xrtm_data *d, int i_deriv, double *levels_b_l) {
+int xrtm_get_levels_b_l(xrtm_data *d, int i_deriv, double *levels_b_l) {
 
      int i;
 
      if (! (d->options & XRTM_OPTION_SOURCE_THERMAL)) {
           fprintf(stderr, "ERROR: model not initialized for thermal sources\n");
-          return XRTM_DBL_ERROR;
+          return XRTM_INT_ERROR;
      }
 
-     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", XRTM_DBL_ERROR);
+     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", XRTM_INT_ERROR);
 
      for (i = 0; i < d->n_layers + 1; ++i)
           levels_b_l[i] = d->levels_b_l[i][i_deriv];
@@ -5564,6 +5564,11 @@ int xrtm_kernel_qx(xrtm_data *d, double *kernel_qx) {
 /*
      SOLUTION_PREPROCESS();
 */
+     if (! (d->solvers & XRTM_SOLVERS_INTERNAL && d->n_kernels > 0)) {
+          fprintf(stderr, "ERROR: model not initialized for surface kernels\n");
+          return XRTM_INT_ERROR;
+     }
+
      for (i = 0; i < d->n_kernel_quad; ++i)
           kernel_qx[i] = d->kernel_qx[i];
 
@@ -5578,6 +5583,11 @@ int xrtm_kernel_qw(xrtm_data *d, double *kernel_qw) {
 /*
      SOLUTION_PREPROCESS();
 */
+     if (! (d->solvers & XRTM_SOLVERS_INTERNAL && d->n_kernels > 0)) {
+          fprintf(stderr, "ERROR: model not initialized for surface kernels\n");
+          return XRTM_INT_ERROR;
+     }
+
      for (i = 0; i < d->n_kernel_quad; ++i)
           kernel_qw[i] = d->kernel_qw[i];
 
-- 
2.43.0


From 91d13d24c93bb727b8b19266744b29460f09f5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:02 +0000
Subject: [PATCH 56/65] fix: public functions report refused derivative inputs
 and failed preprocessing with XRTM_INT_ERROR like every other error

---
 src/xrtm_interface.c | 8 ++++----
 src/xrtm_support.h   | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 3dd1cba..51840ba 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -5863,7 +5863,7 @@ int xrtm_solution_2(xrtm_data *d, enum xrtm_solver_mask solver, int solutions, i
      if (solver & XRTM_SOLVERS_EXT_EXTERNAL) {
           if (get_solution(d, solver, solutions, n_out_phis, out_phis, I_p, I_m, I_p_l, I_m_l, mean_p, mean_m, mean_p_l, mean_m_l, flux_p, flux_m, flux_p_l, flux_m_l, flux_div, flux_div_l, d->save_tree, work2)) {
                fprintf(stderr, "ERROR: get_solution()\n");
-               return -1;
+               return XRTM_INT_ERROR;
           }
 
           return 0;
@@ -5875,12 +5875,12 @@ int xrtm_solution_2(xrtm_data *d, enum xrtm_solver_mask solver, int solutions, i
       *-----------------------------------------------------------------------*/
      if (! (d->options & XRTM_OPTION_CALC_DERIVS)) {
           fprintf(stderr, "ERROR: xrtm_solution() requires option \"%s\"\n", xrtm_option_mask_to_name(XRTM_OPTION_CALC_DERIVS));
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      if (! (d->options & XRTM_OPTION_REVERSE_DERIVS)) {
           fprintf(stderr, "ERROR: xrtm_solution() requires option \"%s\"\n", xrtm_option_mask_to_name(XRTM_OPTION_REVERSE_DERIVS));
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
 
@@ -5908,7 +5908,7 @@ int xrtm_solution_2(xrtm_data *d, enum xrtm_solver_mask solver, int solutions, i
 
      if (get_solution(d, solver, solutions, n_out_phis, out_phis, I_p, I_m, NULL, NULL, mean_p, mean_m, NULL, NULL, flux_p, flux_m, NULL, NULL, flux_div, NULL, d->save_tree, work2)) {
           fprintf(stderr, "ERROR: get_solution2()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      d->options  = options;
diff --git a/src/xrtm_support.h b/src/xrtm_support.h
index 3eaf101..37e86ae 100644
--- a/src/xrtm_support.h
+++ b/src/xrtm_support.h
@@ -169,7 +169,7 @@ extern "C" {
      if (! (d->options & XRTM_OPTION_CALC_DERIVS)) {				\
           fprintf(stderr, "ERROR: can't set linearized inputs when model is "		\
                   "not initialized to evaluate derivatives\n");			\
-          return -1;								\
+          return XRTM_INT_ERROR;							\
      }										\
 } while (0)
 
@@ -191,7 +191,7 @@ extern "C" {
 #define SOLUTION_PREPROCESS()  do {						\
      if (solution_preprocess(d)) {						\
           fprintf(stderr, "ERROR: solution_preprocess()\n");				\
-          return -1;								\
+          return XRTM_INT_ERROR;							\
      }										\
 } while (0)
 
-- 
2.43.0


From 0e9293ea87c89b52045895acf30e2d359b4d41e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:28 +0000
Subject: [PATCH 57/65] fix: language interfaces looked up the size of an array
 argument with an unchecked layer or kernel index

---
 interfaces/xrtm_int_f77_util.c | 12 ++++++++++++
 interfaces/xrtm_int_f90_util.c | 12 ++++++++++++
 interfaces/xrtm_int_jl_util.c  | 10 ++++++++++
 interfaces/xrtm_int_py.c       | 20 ++++++++++++++++++++
 4 files changed, 54 insertions(+)

diff --git a/interfaces/xrtm_int_f77_util.c b/interfaces/xrtm_int_f77_util.c
index 5c06d9a..c6afd7a 100644
--- a/interfaces/xrtm_int_f77_util.c
+++ b/interfaces/xrtm_int_f77_util.c
@@ -870,6 +870,10 @@ int xrtm_set_coef_l_11_bindx_f77_(xrtm_data *d, int *i_layer_, int *i_deriv_, do
      double **coef_l2;
      i_layer = *i_layer_;
      i_deriv = *i_deriv_;
+     if (i_layer < 0 || i_layer >= d->n_layers) {
+          fprintf(stderr, "ERROR: invalid value for i_layer: %d\n", i_layer);
+          return -1;
+     }
      coef_l2 = array_from_mem2_d(coef_l, d->n_elem, d->n_coef_layer[i_layer]);
      if (xrtm_set_coef_l_11(d, i_layer, i_deriv, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_set_coef_l_11()\n");
@@ -900,6 +904,10 @@ int xrtm_set_coef_l_1n_bindx_f77_(xrtm_data *d, int *i_layer_, double *coef_l)
      int i_layer;
      double ***coef_l2;
      i_layer = *i_layer_;
+     if (i_layer < 0 || i_layer >= d->n_layers) {
+          fprintf(stderr, "ERROR: invalid value for i_layer: %d\n", i_layer);
+          return -1;
+     }
      coef_l2 = array_from_mem3_d(coef_l, d->n_derivs, d->n_elem, d->n_coef_layer[i_layer]);
      if (xrtm_set_coef_l_1n(d, i_layer, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_set_coef_l_1n()\n");
@@ -1308,6 +1316,10 @@ int xrtm_set_kernel_params_l_nn_bindx_f77_(xrtm_data *d, int *i_kernel_, double
      int i_kernel;
      double **params_l2;
      i_kernel = *i_kernel_;
+     if (i_kernel < 0 || i_kernel >= d->n_kernels) {
+          fprintf(stderr, "ERROR: invalid value for i_kernel: %d\n", i_kernel);
+          return -1;
+     }
      params_l2 = array_from_mem2_d(params_l, d->n_derivs, kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel]));
      if (xrtm_set_kernel_params_l_nn(d, i_kernel, params_l2)) {
           fprintf(stderr, "ERROR: xrtm_set_kernel_params_l_nn()\n");
diff --git a/interfaces/xrtm_int_f90_util.c b/interfaces/xrtm_int_f90_util.c
index 2739885..32198c7 100644
--- a/interfaces/xrtm_int_f90_util.c
+++ b/interfaces/xrtm_int_f90_util.c
@@ -66,6 +66,10 @@ int xrtm_set_coef_n_bindx_f90(xrtm_data *d, int *n_coef_layer, double *coef)
 int xrtm_set_coef_l_11_bindx_f90(xrtm_data *d, int i_layer, int i_deriv, double *coef_l)
 {
      double **coef_l2;
+     if (i_layer < 0 || i_layer >= d->n_layers) {
+          fprintf(stderr, "ERROR: invalid value for i_layer: %d\n", i_layer);
+          return -1;
+     }
      coef_l2 = array_from_mem2_d(coef_l, d->n_elem, d->n_coef_layer[i_layer]);
      if (xrtm_set_coef_l_11(d, i_layer, i_deriv, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_set_coef_l_11()\n");
@@ -92,6 +96,10 @@ int xrtm_set_coef_l_n1_bindx_f90(xrtm_data *d, int i_deriv, double *coef_l)
 int xrtm_set_coef_l_1n_bindx_f90(xrtm_data *d, int i_layer, double *coef_l)
 {
      double ***coef_l2;
+     if (i_layer < 0 || i_layer >= d->n_layers) {
+          fprintf(stderr, "ERROR: invalid value for i_layer: %d\n", i_layer);
+          return -1;
+     }
      coef_l2 = array_from_mem3_d(coef_l, d->n_derivs, d->n_elem, d->n_coef_layer[i_layer]);
      if (xrtm_set_coef_l_1n(d, i_layer, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_set_coef_l_1n()\n");
@@ -144,6 +152,10 @@ int xrtm_set_ltau_l_nn_bindx_f90(xrtm_data *d, double *ltau_l)
 int xrtm_set_kernel_params_l_nn_bindx_f90(xrtm_data *d, int i_kernel, double *params_l)
 {
      double **params_l2;
+     if (i_kernel < 0 || i_kernel >= d->n_kernels) {
+          fprintf(stderr, "ERROR: invalid value for i_kernel: %d\n", i_kernel);
+          return -1;
+     }
      params_l2 = array_from_mem2_d(params_l, d->n_derivs, kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel]));
      if (xrtm_set_kernel_params_l_nn(d, i_kernel, params_l2)) {
           fprintf(stderr, "ERROR: xrtm_set_kernel_params_l_nn()\n");
diff --git a/interfaces/xrtm_int_jl_util.c b/interfaces/xrtm_int_jl_util.c
index 3d09b5f..159dad6 100644
--- a/interfaces/xrtm_int_jl_util.c
+++ b/interfaces/xrtm_int_jl_util.c
@@ -179,6 +179,8 @@ int set_coef_n_coef_dims(xrtm_data *d, int *n_coef_layer, double ***coef, size_t
 
 int set_coef_l_11_coef_l_dims(xrtm_data *d, int i_layer, int i_deriv, double **coef_l, size_t *dims)
 {
+    if (i_layer < 0 || i_layer >= d->n_layers)
+        return -1;
     dims[0] = d->n_elem;
     dims[1] = d->n_coef_layer[i_layer];
     return 0;
@@ -196,6 +198,8 @@ int set_coef_l_n1_coef_l_dims(xrtm_data *d, int i_deriv, double ***coef_l, size_
 
 int set_coef_l_1n_coef_l_dims(xrtm_data *d, int i_layer, double ***coef_l, size_t *dims)
 {
+    if (i_layer < 0 || i_layer >= d->n_layers)
+        return -1;
     dims[0] = d->n_derivs;
     dims[1] = d->n_elem;
     dims[2] = d->n_coef_layer[i_layer];
@@ -273,6 +277,8 @@ int set_ltau_l_nn_ltau_l_dims(xrtm_data *d, double **ltau_l, size_t *dims)
 
 int set_kernel_params_n_params_dims(xrtm_data *d, int i_kernel, double *params, size_t *dims)
 {
+    if (i_kernel < 0 || i_kernel >= d->n_kernels)
+        return -1;
     dims[0] = kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel]);
     return 0;
 }
@@ -287,6 +293,8 @@ int set_kernel_ampfac_l_n_ampfac_l_dims(xrtm_data *d, int i_kernel, double *ampf
 
 int set_kernel_params_l_1n_params_l_dims(xrtm_data *d, int i_kernel, int i_deriv, double *params_l, size_t *dims)
 {
+    if (i_kernel < 0 || i_kernel >= d->n_kernels)
+        return -1;
     dims[0] = kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel]);
     return 0;
 }
@@ -301,6 +309,8 @@ int set_kernel_params_l_n1_params_l_dims(xrtm_data *d, int i_kernel, int i_param
 
 int set_kernel_params_l_nn_params_l_dims(xrtm_data *d, int i_kernel, double **params_l, size_t *dims)
 {
+    if (i_kernel < 0 || i_kernel >= d->n_kernels)
+        return -1;
     dims[0] = d->n_derivs;
     dims[1] = kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel]);
     return 0;
diff --git a/interfaces/xrtm_int_py.c b/interfaces/xrtm_int_py.c
index 82b0302..eec745c 100644
--- a/interfaces/xrtm_int_py.c
+++ b/interfaces/xrtm_int_py.c
@@ -1535,6 +1535,10 @@ static PyObject *xrtm_set_coef_l_11_py(xrtm_data_py *self, PyObject *args)
      coef_l_ndarray = PyArray_FROM_OTF(coef_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (coef_l_ndarray == NULL)
           return NULL;
+     if (i_layer < 0 || i_layer >= d->n_layers) {
+          PyErr_Format(XRTMError, "ERROR: invalid value for i_layer: %d", i_layer);
+          return NULL;
+     }
      if (check_pyarray_shape(coef_l_ndarray, "coef_l", 2, d->n_elem, d->n_coef_layer[i_layer]) < 0)
           return NULL;
      coef_l = (double **) array_from_ndarray(coef_l_ndarray, 8);
@@ -1589,6 +1593,10 @@ static PyObject *xrtm_set_coef_l_1n_py(xrtm_data_py *self, PyObject *args)
      coef_l_ndarray = PyArray_FROM_OTF(coef_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (coef_l_ndarray == NULL)
           return NULL;
+     if (i_layer < 0 || i_layer >= d->n_layers) {
+          PyErr_Format(XRTMError, "ERROR: invalid value for i_layer: %d", i_layer);
+          return NULL;
+     }
      if (check_pyarray_shape(coef_l_ndarray, "coef_l", 3, d->n_derivs, d->n_elem, d->n_coef_layer[i_layer]) < 0)
           return NULL;
      coef_l = (double ***) array_from_ndarray(coef_l_ndarray, 8);
@@ -2054,6 +2062,10 @@ static PyObject *xrtm_set_kernel_params_n_py(xrtm_data_py *self, PyObject *args)
      params_ndarray = PyArray_FROM_OTF(params_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (params_ndarray == NULL)
           return NULL;
+     if (i_kernel < 0 || i_kernel >= d->n_kernels) {
+          PyErr_Format(XRTMError, "ERROR: invalid value for i_kernel: %d", i_kernel);
+          return NULL;
+     }
      if (check_pyarray_shape(params_ndarray, "params", 1, kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel])) < 0)
           return NULL;
      params = (double *) array_from_ndarray(params_ndarray, 8);
@@ -2178,6 +2190,10 @@ static PyObject *xrtm_set_kernel_params_l_1n_py(xrtm_data_py *self, PyObject *ar
      params_l_ndarray = PyArray_FROM_OTF(params_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (params_l_ndarray == NULL)
           return NULL;
+     if (i_kernel < 0 || i_kernel >= d->n_kernels) {
+          PyErr_Format(XRTMError, "ERROR: invalid value for i_kernel: %d", i_kernel);
+          return NULL;
+     }
      if (check_pyarray_shape(params_l_ndarray, "params_l", 1, kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel])) < 0)
           return NULL;
      params_l = (double *) array_from_ndarray(params_l_ndarray, 8);
@@ -2231,6 +2247,10 @@ static PyObject *xrtm_set_kernel_params_l_nn_py(xrtm_data_py *self, PyObject *ar
      params_l_ndarray = PyArray_FROM_OTF(params_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (params_l_ndarray == NULL)
           return NULL;
+     if (i_kernel < 0 || i_kernel >= d->n_kernels) {
+          PyErr_Format(XRTMError, "ERROR: invalid value for i_kernel: %d", i_kernel);
+          return NULL;
+     }
      if (check_pyarray_shape(params_l_ndarray, "params_l", 2, d->n_derivs, kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel])) < 0)
           return NULL;
      params_l = (double **) array_from_ndarray(params_l_ndarray, 8);
-- 
2.43.0


From 6a46bc6603401b8d713b1ac1ca5db87821c3535a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:28 +0000
Subject: [PATCH 58/65] fix: language interfaces lost out_phis when output is
 at the quadrature angles (dimension is n_out_thetas_2)

---
 interfaces/xrtm_int_f77_util.c | 12 ++++++------
 interfaces/xrtm_int_f90_util.c |  4 ++--
 interfaces/xrtm_int_idl.c      | 12 ++++++------
 interfaces/xrtm_int_jl_util.c  |  4 ++--
 interfaces/xrtm_int_py.c       |  4 ++--
 interfaces/xrtm_interface.def  |  4 ++--
 6 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/interfaces/xrtm_int_f77_util.c b/interfaces/xrtm_int_f77_util.c
index c6afd7a..b81ad01 100644
--- a/interfaces/xrtm_int_f77_util.c
+++ b/interfaces/xrtm_int_f77_util.c
@@ -179,11 +179,11 @@ int xrtm_get_n_out_thetas_bindx_f77_(xrtm_data *d)
 
 int xrtm_get_n_out_thetas_2_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_out_thetas_2(d)) {
+     int r;
+     r = xrtm_get_n_out_thetas_2(d);
+     if (r == XRTM_INT_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_n_out_thetas_2()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -1414,7 +1414,7 @@ int xrtm_solution_bindx_f77_(xrtm_data *d, enum xrtm_solver_mask *solver_, int *
      solver = *solver_;
      solutions = *solutions_;
      n_out_phis = *n_out_phis_;
-     out_phis2 = array_from_mem2_d(out_phis, d->n_out_thetas, n_out_phis);
+     out_phis2 = array_from_mem2_d(out_phis, d->n_out_thetas_2, n_out_phis);
      I_p2 = array_from_mem4_d(I_p, d->n_out_levels, d->n_out_thetas_2, n_out_phis, d->n_stokes);
      I_m2 = array_from_mem4_d(I_m, d->n_out_levels, d->n_out_thetas_2, n_out_phis, d->n_stokes);
      K_p2 = array_from_mem5_d(K_p, d->n_out_levels, d->n_derivs, d->n_out_thetas_2, n_out_phis, d->n_stokes);
@@ -1453,7 +1453,7 @@ int xrtm_radiance_bindx_f77_(xrtm_data *d, enum xrtm_solver_mask *solver_, int *
      double *****K_m2;
      solver = *solver_;
      n_out_phis = *n_out_phis_;
-     out_phis2 = array_from_mem2_d(out_phis, d->n_out_thetas, n_out_phis);
+     out_phis2 = array_from_mem2_d(out_phis, d->n_out_thetas_2, n_out_phis);
      I_p2 = array_from_mem4_d(I_p, d->n_out_levels, d->n_out_thetas_2, n_out_phis, d->n_stokes);
      I_m2 = array_from_mem4_d(I_m, d->n_out_levels, d->n_out_thetas_2, n_out_phis, d->n_stokes);
      K_p2 = array_from_mem5_d(K_p, d->n_out_levels, d->n_derivs, d->n_out_thetas_2, n_out_phis, d->n_stokes);
diff --git a/interfaces/xrtm_int_f90_util.c b/interfaces/xrtm_int_f90_util.c
index 32198c7..6b76340 100644
--- a/interfaces/xrtm_int_f90_util.c
+++ b/interfaces/xrtm_int_f90_util.c
@@ -178,7 +178,7 @@ int xrtm_solution_bindx_f90(xrtm_data *d, enum xrtm_solver_mask solver, int solu
      double **flux_p_l2;
      double **flux_m_l2;
      double **flux_div_l2;
-     out_phis2 = array_from_mem2_d(out_phis, d->n_out_thetas, n_out_phis);
+     out_phis2 = array_from_mem2_d(out_phis, d->n_out_thetas_2, n_out_phis);
      I_p2 = array_from_mem4_d(I_p, d->n_out_levels, d->n_out_thetas_2, n_out_phis, d->n_stokes);
      I_m2 = array_from_mem4_d(I_m, d->n_out_levels, d->n_out_thetas_2, n_out_phis, d->n_stokes);
      K_p2 = array_from_mem5_d(K_p, d->n_out_levels, d->n_derivs, d->n_out_thetas_2, n_out_phis, d->n_stokes);
@@ -213,7 +213,7 @@ int xrtm_radiance_bindx_f90(xrtm_data *d, enum xrtm_solver_mask solver, int n_ou
      double ****I_m2;
      double *****K_p2;
      double *****K_m2;
-     out_phis2 = array_from_mem2_d(out_phis, d->n_out_thetas, n_out_phis);
+     out_phis2 = array_from_mem2_d(out_phis, d->n_out_thetas_2, n_out_phis);
      I_p2 = array_from_mem4_d(I_p, d->n_out_levels, d->n_out_thetas_2, n_out_phis, d->n_stokes);
      I_m2 = array_from_mem4_d(I_m, d->n_out_levels, d->n_out_thetas_2, n_out_phis, d->n_stokes);
      K_p2 = array_from_mem5_d(K_p, d->n_out_levels, d->n_derivs, d->n_out_thetas_2, n_out_phis, d->n_stokes);
diff --git a/interfaces/xrtm_int_idl.c b/interfaces/xrtm_int_idl.c
index 2d8529e..c0618d5 100644
--- a/interfaces/xrtm_int_idl.c
+++ b/interfaces/xrtm_int_idl.c
@@ -3836,11 +3836,11 @@ void IDL_CDECL xrtm_solution_dlm(int argc, IDL_VPTR argv[], char *argk)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: out_phis must be of type double");
      if (argv[4]->value.arr->n_dim != 2)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: out_phis must be an array with 2 dimensions");
-     if (argv[4]->value.arr->dim[1] != (d->n_out_thetas))
-          IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: out_phis dimension 2 must have d->n_out_thetas elements");
+     if (argv[4]->value.arr->dim[1] != (d->n_out_thetas_2))
+          IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: out_phis dimension 2 must have d->n_out_thetas_2 elements");
      if (argv[4]->value.arr->dim[0] != (n_out_phis))
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: out_phis dimension 1 must have n_out_phis elements");
-     dim[0] = d->n_out_thetas;
+     dim[0] = d->n_out_thetas_2;
      dim[1] = n_out_phis;
      out_phis = (double **) array_from_mem((void *) argv[4]->value.arr->data, 2, dim, sizeof(double), 1);
      I_p_data = malloc((d->n_out_levels) * (d->n_out_thetas_2) * (n_out_phis) * (d->n_stokes) * sizeof(double));
@@ -4012,11 +4012,11 @@ void IDL_CDECL xrtm_radiance_dlm(int argc, IDL_VPTR argv[], char *argk)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: out_phis must be of type double");
      if (argv[3]->value.arr->n_dim != 2)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: out_phis must be an array with 2 dimensions");
-     if (argv[3]->value.arr->dim[1] != (d->n_out_thetas))
-          IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: out_phis dimension 2 must have d->n_out_thetas elements");
+     if (argv[3]->value.arr->dim[1] != (d->n_out_thetas_2))
+          IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: out_phis dimension 2 must have d->n_out_thetas_2 elements");
      if (argv[3]->value.arr->dim[0] != (n_out_phis))
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: out_phis dimension 1 must have n_out_phis elements");
-     dim[0] = d->n_out_thetas;
+     dim[0] = d->n_out_thetas_2;
      dim[1] = n_out_phis;
      out_phis = (double **) array_from_mem((void *) argv[3]->value.arr->data, 2, dim, sizeof(double), 1);
      I_p_data = malloc((d->n_out_levels) * (d->n_out_thetas_2) * (n_out_phis) * (d->n_stokes) * sizeof(double));
diff --git a/interfaces/xrtm_int_jl_util.c b/interfaces/xrtm_int_jl_util.c
index 159dad6..84fd557 100644
--- a/interfaces/xrtm_int_jl_util.c
+++ b/interfaces/xrtm_int_jl_util.c
@@ -347,7 +347,7 @@ int kernel_qw_kernel_qw_dims(xrtm_data *d, size_t *dims)
 
 int solution_out_phis_dims(xrtm_data *d, enum xrtm_solver_mask solver, int solutions, int n_out_phis, double **out_phis, size_t *dims)
 {
-    dims[0] = d->n_out_thetas;
+    dims[0] = d->n_out_thetas_2;
     dims[1] = n_out_phis;
     return 0;
 }
@@ -472,7 +472,7 @@ int solution_flux_div_l_dims(xrtm_data *d, enum xrtm_solver_mask solver, int sol
 
 int radiance_out_phis_dims(xrtm_data *d, enum xrtm_solver_mask solver, int n_out_phis, double **out_phis, size_t *dims)
 {
-    dims[0] = d->n_out_thetas;
+    dims[0] = d->n_out_thetas_2;
     dims[1] = n_out_phis;
     return 0;
 }
diff --git a/interfaces/xrtm_int_py.c b/interfaces/xrtm_int_py.c
index eec745c..61e595d 100644
--- a/interfaces/xrtm_int_py.c
+++ b/interfaces/xrtm_int_py.c
@@ -2440,7 +2440,7 @@ static PyObject *xrtm_solution_py(xrtm_data_py *self, PyObject *args)
      out_phis_ndarray = PyArray_FROM_OTF(out_phis_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (out_phis_ndarray == NULL)
           return NULL;
-     if (check_pyarray_shape(out_phis_ndarray, "out_phis", 2, d->n_out_thetas, n_out_phis) < 0)
+     if (check_pyarray_shape(out_phis_ndarray, "out_phis", 2, d->n_out_thetas_2, n_out_phis) < 0)
           return NULL;
      out_phis = (double **) array_from_ndarray(out_phis_ndarray, 8);
      dims[0] = d->n_out_levels;
@@ -2581,7 +2581,7 @@ static PyObject *xrtm_radiance_py(xrtm_data_py *self, PyObject *args)
      out_phis_ndarray = PyArray_FROM_OTF(out_phis_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (out_phis_ndarray == NULL)
           return NULL;
-     if (check_pyarray_shape(out_phis_ndarray, "out_phis", 2, d->n_out_thetas, n_out_phis) < 0)
+     if (check_pyarray_shape(out_phis_ndarray, "out_phis", 2, d->n_out_thetas_2, n_out_phis) < 0)
           return NULL;
      out_phis = (double **) array_from_ndarray(out_phis_ndarray, 8);
      dims[0] = d->n_out_levels;
diff --git a/interfaces/xrtm_interface.def b/interfaces/xrtm_interface.def
index fd16cac..2f4a1d0 100644
--- a/interfaces/xrtm_interface.def
+++ b/interfaces/xrtm_interface.def
@@ -119,8 +119,8 @@ subprogram_general int 0 qx			        0, double 1 "d->n_quad" qx out;
 subprogram_general int 0 qw			        0, double 1 "d->n_quad" qw out;
 subprogram_general int 0 kernel_qx			0, double 1 "d->n_kernel_quad" kernel_qx out;
 subprogram_general int 0 kernel_qw			0, double 1 "d->n_kernel_quad" kernel_qw out;
-subprogram_general int 0 solution			0, enum solver_mask 0 solver in enum_mask xrtm_solver_name_to_mask, int 0 solutions in, int 0 n_out_phis in, double 2 "d->n_out_thetas" "n_out_phis" out_phis in, double 4 "d->n_out_levels" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" I_p out, double 4 "d->n_out_levels" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" I_m out, double 5 "d->n_out_levels" "d->n_derivs" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" K_p out, double 5 "d->n_out_levels" "d->n_derivs" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" K_m out, double 1 "d->n_out_levels" mean_p out, double 1 "d->n_out_levels" mean_m out, double 2 "d->n_out_levels" "d->n_derivs" mean_p_l out, double 2 "d->n_out_levels" "d->n_derivs" mean_m_l out, double 1 "d->n_out_levels" flux_p out, double 1 "d->n_out_levels" flux_m out, double 2 "d->n_out_levels" "d->n_derivs" flux_p_l out, double 2 "d->n_out_levels" "d->n_derivs" flux_m_l out, double 1 "d->n_out_levels" flux_div out, double 2 "d->n_out_levels" "d->n_derivs" flux_div_l out;
-subprogram_general int 0 radiance			0, enum solver_mask 0 solver in enum_mask xrtm_solver_name_to_mask, int 0 n_out_phis in, double 2 "d->n_out_thetas" "n_out_phis" out_phis in, double 4 "d->n_out_levels" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" I_p out, double 4 "d->n_out_levels" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" I_m out, double 5 "d->n_out_levels" "d->n_derivs" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" K_p out, double 5 "d->n_out_levels" "d->n_derivs" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" K_m out;
+subprogram_general int 0 solution			0, enum solver_mask 0 solver in enum_mask xrtm_solver_name_to_mask, int 0 solutions in, int 0 n_out_phis in, double 2 "d->n_out_thetas_2" "n_out_phis" out_phis in, double 4 "d->n_out_levels" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" I_p out, double 4 "d->n_out_levels" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" I_m out, double 5 "d->n_out_levels" "d->n_derivs" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" K_p out, double 5 "d->n_out_levels" "d->n_derivs" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" K_m out, double 1 "d->n_out_levels" mean_p out, double 1 "d->n_out_levels" mean_m out, double 2 "d->n_out_levels" "d->n_derivs" mean_p_l out, double 2 "d->n_out_levels" "d->n_derivs" mean_m_l out, double 1 "d->n_out_levels" flux_p out, double 1 "d->n_out_levels" flux_m out, double 2 "d->n_out_levels" "d->n_derivs" flux_p_l out, double 2 "d->n_out_levels" "d->n_derivs" flux_m_l out, double 1 "d->n_out_levels" flux_div out, double 2 "d->n_out_levels" "d->n_derivs" flux_div_l out;
+subprogram_general int 0 radiance			0, enum solver_mask 0 solver in enum_mask xrtm_solver_name_to_mask, int 0 n_out_phis in, double 2 "d->n_out_thetas_2" "n_out_phis" out_phis in, double 4 "d->n_out_levels" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" I_p out, double 4 "d->n_out_levels" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" I_m out, double 5 "d->n_out_levels" "d->n_derivs" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" K_p out, double 5 "d->n_out_levels" "d->n_derivs" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" K_m out;
 subprogram_general int 0 mean_radiance			0, enum solver_mask 0 solver in enum_mask xrtm_solver_name_to_mask, double 1 "d->n_out_levels" mean_p out, double 1 "d->n_out_levels" mean_m out, double 2 "d->n_out_levels" "d->n_derivs" mean_p_l out, double 2 "d->n_out_levels" "d->n_derivs" mean_m_l out;
 subprogram_general int 0 flux				0, enum solver_mask 0 solver in enum_mask xrtm_solver_name_to_mask, double 1 "d->n_out_levels" flux_p out, double 1 "d->n_out_levels" flux_m out, double 2 "d->n_out_levels" "d->n_derivs" flux_p_l out, double 2 "d->n_out_levels" "d->n_derivs" flux_m_l out;
 subprogram_general int 0 flux_divergence		0, enum solver_mask 0 solver in enum_mask xrtm_solver_name_to_mask, double 1 "d->n_out_levels" flux_div out, double 2 "d->n_out_levels" "d->n_derivs" flux_div_l out;
-- 
2.43.0


From 32c3974e5268945ead1e63c47ce1d1f9102ba684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:28 +0000
Subject: [PATCH 59/65] fix: qx and qw wrappers allocated n_quad values for the
 n_quad + n_out_thetas xrtm_qx() and xrtm_qw() return

---
 interfaces/xrtm_int_idl.c     | 4 ++--
 interfaces/xrtm_int_jl_util.c | 4 ++--
 interfaces/xrtm_int_py.c      | 4 ++--
 interfaces/xrtm_interface.def | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/interfaces/xrtm_int_idl.c b/interfaces/xrtm_int_idl.c
index c0618d5..ca33cf5 100644
--- a/interfaces/xrtm_int_idl.c
+++ b/interfaces/xrtm_int_idl.c
@@ -3700,7 +3700,7 @@ void IDL_CDECL xrtm_qx_dlm(int argc, IDL_VPTR argv[], char *argk)
      r = xrtm_qx(d, qx);
      if (r == XRTM_INT_ERROR)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: xrtm_qx()");
-     dim_idl[0] = d->n_quad;
+     dim_idl[0] = d->n_quad + d->n_umus;
      ptr = IDL_ImportArray(1, (IDL_MEMINT *) dim_idl, IDL_TYP_DOUBLE, (UCHAR *) qx, 0, NULL);
      IDL_VarCopy((IDL_VPTR) ptr, argv[1]);
      return;
@@ -3722,7 +3722,7 @@ void IDL_CDECL xrtm_qw_dlm(int argc, IDL_VPTR argv[], char *argk)
      r = xrtm_qw(d, qw);
      if (r == XRTM_INT_ERROR)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: xrtm_qw()");
-     dim_idl[0] = d->n_quad;
+     dim_idl[0] = d->n_quad + d->n_umus;
      ptr = IDL_ImportArray(1, (IDL_MEMINT *) dim_idl, IDL_TYP_DOUBLE, (UCHAR *) qw, 0, NULL);
      IDL_VarCopy((IDL_VPTR) ptr, argv[1]);
      return;
diff --git a/interfaces/xrtm_int_jl_util.c b/interfaces/xrtm_int_jl_util.c
index 84fd557..6202673 100644
--- a/interfaces/xrtm_int_jl_util.c
+++ b/interfaces/xrtm_int_jl_util.c
@@ -319,14 +319,14 @@ int set_kernel_params_l_nn_params_l_dims(xrtm_data *d, int i_kernel, double **pa
 
 int qx_qx_dims(xrtm_data *d, size_t *dims)
 {
-    dims[0] = d->n_quad;
+    dims[0] = d->n_quad + d->n_umus;
     return 0;
 }
 
 
 int qw_qw_dims(xrtm_data *d, size_t *dims)
 {
-    dims[0] = d->n_quad;
+    dims[0] = d->n_quad + d->n_umus;
     return 0;
 }
 
diff --git a/interfaces/xrtm_int_py.c b/interfaces/xrtm_int_py.c
index 61e595d..456dbd0 100644
--- a/interfaces/xrtm_int_py.c
+++ b/interfaces/xrtm_int_py.c
@@ -2307,7 +2307,7 @@ static PyObject *xrtm_qx_py(xrtm_data_py *self, PyObject *args)
      double *qx;
      if (! PyArg_ParseTuple(args, ""))
           return NULL;
-     dims[0] = d->n_quad;
+     dims[0] = d->n_quad + d->n_umus;
      qx_ndarray = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
      if (qx_ndarray == NULL)
           return NULL;
@@ -2330,7 +2330,7 @@ static PyObject *xrtm_qw_py(xrtm_data_py *self, PyObject *args)
      double *qw;
      if (! PyArg_ParseTuple(args, ""))
           return NULL;
-     dims[0] = d->n_quad;
+     dims[0] = d->n_quad + d->n_umus;
      qw_ndarray = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
      if (qw_ndarray == NULL)
           return NULL;
diff --git a/interfaces/xrtm_interface.def b/interfaces/xrtm_interface.def
index 2f4a1d0..8311d6b 100644
--- a/interfaces/xrtm_interface.def
+++ b/interfaces/xrtm_interface.def
@@ -115,8 +115,8 @@ subprogram_general int 0 set_kernel_params_l_nn		0, int 0 i_kernel in, double 2
 subprogram_general double 0 get_kernel_params_l		1, int 0 i_kernel in, int 0 i_deriv in, int 0 i_param in;
 subprogram_general int 0 update_varied_layers		0;
 
-subprogram_general int 0 qx			        0, double 1 "d->n_quad" qx out;
-subprogram_general int 0 qw			        0, double 1 "d->n_quad" qw out;
+subprogram_general int 0 qx			        0, double 1 "d->n_quad + d->n_umus" qx out;
+subprogram_general int 0 qw			        0, double 1 "d->n_quad + d->n_umus" qw out;
 subprogram_general int 0 kernel_qx			0, double 1 "d->n_kernel_quad" kernel_qx out;
 subprogram_general int 0 kernel_qw			0, double 1 "d->n_kernel_quad" kernel_qw out;
 subprogram_general int 0 solution			0, enum solver_mask 0 solver in enum_mask xrtm_solver_name_to_mask, int 0 solutions in, int 0 n_out_phis in, double 2 "d->n_out_thetas_2" "n_out_phis" out_phis in, double 4 "d->n_out_levels" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" I_p out, double 4 "d->n_out_levels" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" I_m out, double 5 "d->n_out_levels" "d->n_derivs" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" K_p out, double 5 "d->n_out_levels" "d->n_derivs" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" K_m out, double 1 "d->n_out_levels" mean_p out, double 1 "d->n_out_levels" mean_m out, double 2 "d->n_out_levels" "d->n_derivs" mean_p_l out, double 2 "d->n_out_levels" "d->n_derivs" mean_m_l out, double 1 "d->n_out_levels" flux_p out, double 1 "d->n_out_levels" flux_m out, double 2 "d->n_out_levels" "d->n_derivs" flux_p_l out, double 2 "d->n_out_levels" "d->n_derivs" flux_m_l out, double 1 "d->n_out_levels" flux_div out, double 2 "d->n_out_levels" "d->n_derivs" flux_div_l out;
-- 
2.43.0


From b764c8311f94fd4c95aeb8258a16a9af797ba24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:28 +0000
Subject: [PATCH 60/65] fix: Python and IDL thermal source wrappers sized the
 level arrays by the number of output levels or derivatives

---
 interfaces/xrtm_int_idl.c | 22 +++++++++++-----------
 interfaces/xrtm_int_py.c  | 10 +++++-----
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/interfaces/xrtm_int_idl.c b/interfaces/xrtm_int_idl.c
index ca33cf5..f48de51 100644
--- a/interfaces/xrtm_int_idl.c
+++ b/interfaces/xrtm_int_idl.c
@@ -1776,8 +1776,8 @@ void IDL_CDECL xrtm_set_levels_b_dlm(int argc, IDL_VPTR argv[], char *argk)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: levels_b must be of type double");
      if (argv[1]->value.arr->n_dim != 1)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: levels_b must be an array with 2 dimensions");
-     if (argv[1]->value.arr->dim[0] != (d->n_out_levels))
-          IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: levels_b dimension 1 must have d->n_out_levels elements");
+     if (argv[1]->value.arr->dim[0] != (d->n_layers + 1))
+          IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: levels_b dimension 1 must have d->n_layers + 1 elements");
      levels_b = (double *) argv[1]->value.arr->data;
      r = xrtm_set_levels_b(d, levels_b);
      if (r == XRTM_INT_ERROR)
@@ -1797,11 +1797,11 @@ void IDL_CDECL xrtm_get_levels_b_dlm(int argc, IDL_VPTR argv[], char *argk)
      if (argv[0]->type != IDL_TYP_BYTE)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: Invalid xrtm instance");
      d = (xrtm_data *) argv[0]->value.arr->data;
-     levels_b = malloc((d->n_out_levels) * sizeof(double));
+     levels_b = malloc((d->n_layers + 1) * sizeof(double));
      r = xrtm_get_levels_b(d, levels_b);
      if (r == XRTM_INT_ERROR)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: xrtm_get_levels_b()");
-     dim_idl[0] = d->n_out_levels;
+     dim_idl[0] = d->n_layers + 1;
      ptr = IDL_ImportArray(1, (IDL_MEMINT *) dim_idl, IDL_TYP_DOUBLE, (UCHAR *) levels_b, 0, NULL);
      IDL_VarCopy((IDL_VPTR) ptr, argv[1]);
      return;
@@ -1830,8 +1830,8 @@ void IDL_CDECL xrtm_set_levels_b_l_1_dlm(int argc, IDL_VPTR argv[], char *argk)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: levels_b_l must be of type double");
      if (argv[2]->value.arr->n_dim != 1)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: levels_b_l must be an array with 2 dimensions");
-     if (argv[2]->value.arr->dim[0] != (d->n_derivs))
-          IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: levels_b_l dimension 1 must have d->n_derivs elements");
+     if (argv[2]->value.arr->dim[0] != (d->n_layers + 1))
+          IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: levels_b_l dimension 1 must have d->n_layers + 1 elements");
      levels_b_l = (double *) argv[2]->value.arr->data;
      r = xrtm_set_levels_b_l_1(d, i_deriv, levels_b_l);
      if (r == XRTM_INT_ERROR)
@@ -1855,11 +1855,11 @@ void IDL_CDECL xrtm_set_levels_b_l_n_dlm(int argc, IDL_VPTR argv[], char *argk)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: levels_b_l must be of type double");
      if (argv[1]->value.arr->n_dim != 2)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: levels_b_l must be an array with 2 dimensions");
-     if (argv[1]->value.arr->dim[1] != (d->n_out_levels))
-          IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: levels_b_l dimension 2 must have d->n_out_levels elements");
+     if (argv[1]->value.arr->dim[1] != (d->n_layers + 1))
+          IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: levels_b_l dimension 2 must have d->n_layers + 1 elements");
      if (argv[1]->value.arr->dim[0] != (d->n_derivs))
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: levels_b_l dimension 1 must have d->n_derivs elements");
-     dim[0] = d->n_out_levels;
+     dim[0] = d->n_layers + 1;
      dim[1] = d->n_derivs;
      levels_b_l = (double **) array_from_mem((void *) argv[1]->value.arr->data, 2, dim, sizeof(double), 1);
      r = xrtm_set_levels_b_l_n(d, levels_b_l);
@@ -1889,11 +1889,11 @@ void IDL_CDECL xrtm_get_levels_b_l_dlm(int argc, IDL_VPTR argv[], char *argk)
           i_deriv = argv[1]->value.l;
      else
           i_deriv = argv[1]->value.i;
-     levels_b_l = malloc((d->n_out_levels) * sizeof(double));
+     levels_b_l = malloc((d->n_layers + 1) * sizeof(double));
      r = xrtm_get_levels_b_l(d, i_deriv, levels_b_l);
      if (r == XRTM_INT_ERROR)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: xrtm_get_levels_b_l()");
-     dim_idl[0] = d->n_out_levels;
+     dim_idl[0] = d->n_layers + 1;
      ptr = IDL_ImportArray(1, (IDL_MEMINT *) dim_idl, IDL_TYP_DOUBLE, (UCHAR *) levels_b_l, 0, NULL);
      IDL_VarCopy((IDL_VPTR) ptr, argv[2]);
      return;
diff --git a/interfaces/xrtm_int_py.c b/interfaces/xrtm_int_py.c
index 456dbd0..e71a5b3 100644
--- a/interfaces/xrtm_int_py.c
+++ b/interfaces/xrtm_int_py.c
@@ -1051,7 +1051,7 @@ static PyObject *xrtm_set_levels_b_py(xrtm_data_py *self, PyObject *args)
      levels_b_ndarray = PyArray_FROM_OTF(levels_b_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (levels_b_ndarray == NULL)
           return NULL;
-     if (check_pyarray_shape(levels_b_ndarray, "levels_b", 1, d->n_out_levels) < 0)
+     if (check_pyarray_shape(levels_b_ndarray, "levels_b", 1, d->n_layers + 1) < 0)
           return NULL;
      levels_b = (double *) array_from_ndarray(levels_b_ndarray, 8);
      r = xrtm_set_levels_b(d, levels_b);
@@ -1073,7 +1073,7 @@ static PyObject *xrtm_get_levels_b_py(xrtm_data_py *self, PyObject *args)
      double *levels_b;
      if (! PyArg_ParseTuple(args, ""))
           return NULL;
-     dims[0] = d->n_out_levels;
+     dims[0] = d->n_layers + 1;
      levels_b_ndarray = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
      if (levels_b_ndarray == NULL)
           return NULL;
@@ -1100,7 +1100,7 @@ static PyObject *xrtm_set_levels_b_l_1_py(xrtm_data_py *self, PyObject *args)
      levels_b_l_ndarray = PyArray_FROM_OTF(levels_b_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (levels_b_l_ndarray == NULL)
           return NULL;
-     if (check_pyarray_shape(levels_b_l_ndarray, "levels_b_l", 1, d->n_derivs) < 0)
+     if (check_pyarray_shape(levels_b_l_ndarray, "levels_b_l", 1, d->n_layers + 1) < 0)
           return NULL;
      levels_b_l = (double *) array_from_ndarray(levels_b_l_ndarray, 8);
      r = xrtm_set_levels_b_l_1(d, i_deriv, levels_b_l);
@@ -1125,7 +1125,7 @@ static PyObject *xrtm_set_levels_b_l_n_py(xrtm_data_py *self, PyObject *args)
      levels_b_l_ndarray = PyArray_FROM_OTF(levels_b_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (levels_b_l_ndarray == NULL)
           return NULL;
-     if (check_pyarray_shape(levels_b_l_ndarray, "levels_b_l", 2, d->n_out_levels, d->n_derivs) < 0)
+     if (check_pyarray_shape(levels_b_l_ndarray, "levels_b_l", 2, d->n_layers + 1, d->n_derivs) < 0)
           return NULL;
      levels_b_l = (double **) array_from_ndarray(levels_b_l_ndarray, 8);
      r = xrtm_set_levels_b_l_n(d, levels_b_l);
@@ -1149,7 +1149,7 @@ static PyObject *xrtm_get_levels_b_l_py(xrtm_data_py *self, PyObject *args)
      double *levels_b_l;
      if (! PyArg_ParseTuple(args, "i", &i_deriv))
           return NULL;
-     dims[0] = d->n_out_levels;
+     dims[0] = d->n_layers + 1;
      levels_b_l_ndarray = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
      if (levels_b_l_ndarray == NULL)
           return NULL;
-- 
2.43.0


From 628a420bc1039b523d75b033cd3c102338442f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:28 +0000
Subject: [PATCH 61/65] fix: Python get_kernel() passed an enum where a string
 was expected; shape error without its last argument

---
 interfaces/xrtm_int_py.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interfaces/xrtm_int_py.c b/interfaces/xrtm_int_py.c
index e71a5b3..f83b74b 100644
--- a/interfaces/xrtm_int_py.c
+++ b/interfaces/xrtm_int_py.c
@@ -98,7 +98,7 @@ static int check_pyarray_shape(PyObject *array, const char *name, int n, ...)
      va_list valist;
      n_py = PyArray_NDIM((PyArrayObject *) array);
      if (n_py != n) {
-          PyErr_Format(XRTMError, "ERROR: Number of dimensions for %s input (%d) must be == %d", name, n_py);
+          PyErr_Format(XRTMError, "ERROR: Number of dimensions for %s input (%d) must be == %d", name, n_py, n);
           return -1;
      }
      va_start(valist, n);
@@ -333,7 +333,7 @@ static PyObject *xrtm_get_kernel_py(xrtm_data_py *self, PyObject *args)
           PyErr_SetString(XRTMError, "ERROR: xrtm_get_kernel()");
           return NULL;
      }
-     return Py_BuildValue("s", r);
+     return Py_BuildValue("s", xrtm_kernel_value_to_name((enum xrtm_kernel_type) r));
 }
 
 
-- 
2.43.0


From 5e7cf84e5723ab4b1633b6f75185caefa9090f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:29 +0000
Subject: [PATCH 62/65] fix: Fortran 77 getters returned -1 instead of the
 value; double getters were declared integer

---
 interfaces/xrtm_int_f77.f      |  50 +++---
 interfaces/xrtm_int_f77_util.c | 304 ++++++++++++++++-----------------
 2 files changed, 177 insertions(+), 177 deletions(-)

diff --git a/interfaces/xrtm_int_f77.f b/interfaces/xrtm_int_f77.f
index a82190d..a66cec7 100644
--- a/interfaces/xrtm_int_f77.f
+++ b/interfaces/xrtm_int_f77.f
@@ -156,7 +156,7 @@ c***********************************************************************
       real*8 function xrtm_get_doub_d_tau_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_doub_d_tau_bindx_f77
+      real*8 xrtm_get_doub_d_tau_bindx_f77
       xrtm_get_doub_d_tau_f77 = xrtm_get_doub_d_tau_bindx_f77(d)
       end function xrtm_get_doub_d_tau_f77
 
@@ -222,7 +222,7 @@ c***********************************************************************
       real*8 function xrtm_get_fourier_tol_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_fourier_tol_bindx_f77
+      real*8 xrtm_get_fourier_tol_bindx_f77
       xrtm_get_fourier_tol_f77 = xrtm_get_fourier_tol_bindx_f77(d)
       end function xrtm_get_fourier_tol_f77
 
@@ -240,7 +240,7 @@ c***********************************************************************
       real*8 function xrtm_get_lambda_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_lambda_bindx_f77
+      real*8 xrtm_get_lambda_bindx_f77
       xrtm_get_lambda_f77 = xrtm_get_lambda_bindx_f77(d)
       end function xrtm_get_lambda_f77
 
@@ -258,7 +258,7 @@ c***********************************************************************
       real*8 function xrtm_get_planet_r_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_planet_r_bindx_f77
+      real*8 xrtm_get_planet_r_bindx_f77
       xrtm_get_planet_r_f77 = xrtm_get_planet_r_bindx_f77(d)
       end function xrtm_get_planet_r_f77
 
@@ -356,7 +356,7 @@ c***********************************************************************
       real*8 function xrtm_get_F_iso_top_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_F_iso_top_bindx_f77
+      real*8 xrtm_get_F_iso_top_bindx_f77
       xrtm_get_F_iso_top_f77 = xrtm_get_F_iso_top_bindx_f77(d)
       end function xrtm_get_F_iso_top_f77
 
@@ -387,7 +387,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_deriv
-      integer xrtm_get_F_iso_top_l_bindx_f77
+      real*8 xrtm_get_F_iso_top_l_bindx_f77
       xrtm_get_F_iso_top_l_f77 = xrtm_get_F_iso_top_l_bindx_f77(d,
      &i_deriv)
       end function xrtm_get_F_iso_top_l_f77
@@ -406,7 +406,7 @@ c***********************************************************************
       real*8 function xrtm_get_F_iso_bot_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_F_iso_bot_bindx_f77
+      real*8 xrtm_get_F_iso_bot_bindx_f77
       xrtm_get_F_iso_bot_f77 = xrtm_get_F_iso_bot_bindx_f77(d)
       end function xrtm_get_F_iso_bot_f77
 
@@ -437,7 +437,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_deriv
-      integer xrtm_get_F_iso_bot_l_bindx_f77
+      real*8 xrtm_get_F_iso_bot_l_bindx_f77
       xrtm_get_F_iso_bot_l_f77 = xrtm_get_F_iso_bot_l_bindx_f77(d,
      &i_deriv)
       end function xrtm_get_F_iso_bot_l_f77
@@ -456,7 +456,7 @@ c***********************************************************************
       real*8 function xrtm_get_F_0_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_F_0_bindx_f77
+      real*8 xrtm_get_F_0_bindx_f77
       xrtm_get_F_0_f77 = xrtm_get_F_0_bindx_f77(d)
       end function xrtm_get_F_0_f77
 
@@ -474,7 +474,7 @@ c***********************************************************************
       real*8 function xrtm_get_theta_0_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_theta_0_bindx_f77
+      real*8 xrtm_get_theta_0_bindx_f77
       xrtm_get_theta_0_f77 = xrtm_get_theta_0_bindx_f77(d)
       end function xrtm_get_theta_0_f77
 
@@ -492,7 +492,7 @@ c***********************************************************************
       real*8 function xrtm_get_phi_0_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_phi_0_bindx_f77
+      real*8 xrtm_get_phi_0_bindx_f77
       xrtm_get_phi_0_f77 = xrtm_get_phi_0_bindx_f77(d)
       end function xrtm_get_phi_0_f77
 
@@ -563,7 +563,7 @@ c***********************************************************************
       real*8 function xrtm_get_surface_b_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_surface_b_bindx_f77
+      real*8 xrtm_get_surface_b_bindx_f77
       xrtm_get_surface_b_f77 = xrtm_get_surface_b_bindx_f77(d)
       end function xrtm_get_surface_b_f77
 
@@ -594,7 +594,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_deriv
-      integer xrtm_get_surface_b_l_bindx_f77
+      real*8 xrtm_get_surface_b_l_bindx_f77
       xrtm_get_surface_b_l_f77 = xrtm_get_surface_b_l_bindx_f77(d,
      &i_deriv)
       end function xrtm_get_surface_b_l_f77
@@ -625,7 +625,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_layer
-      integer xrtm_get_g_bindx_f77
+      real*8 xrtm_get_g_bindx_f77
       xrtm_get_g_f77 = xrtm_get_g_bindx_f77(d, i_layer)
       end function xrtm_get_g_f77
 
@@ -679,7 +679,7 @@ c***********************************************************************
       byte d(*)
       integer i_layer
       integer i_deriv
-      integer xrtm_get_g_l_bindx_f77
+      real*8 xrtm_get_g_l_bindx_f77
       xrtm_get_g_l_f77 = xrtm_get_g_l_bindx_f77(d, i_layer, i_deriv)
       end function xrtm_get_g_l_f77
 
@@ -723,7 +723,7 @@ c***********************************************************************
       integer i_layer
       integer i_elem
       integer i_coef
-      integer xrtm_get_coef_bindx_f77
+      real*8 xrtm_get_coef_bindx_f77
       xrtm_get_coef_f77 = xrtm_get_coef_bindx_f77(d, i_layer, i_elem,
      &i_coef)
       end function xrtm_get_coef_f77
@@ -782,7 +782,7 @@ c***********************************************************************
       integer i_deriv
       integer i_elem
       integer i_coef
-      integer xrtm_get_coef_l_bindx_f77
+      real*8 xrtm_get_coef_l_bindx_f77
       xrtm_get_coef_l_f77 = xrtm_get_coef_l_bindx_f77(d, i_layer,
      &i_deriv, i_elem, i_coef)
       end function xrtm_get_coef_l_f77
@@ -813,7 +813,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_layer
-      integer xrtm_get_omega_bindx_f77
+      real*8 xrtm_get_omega_bindx_f77
       xrtm_get_omega_f77 = xrtm_get_omega_bindx_f77(d, i_layer)
       end function xrtm_get_omega_f77
 
@@ -869,7 +869,7 @@ c***********************************************************************
       byte d(*)
       integer i_layer
       integer i_deriv
-      integer xrtm_get_omega_l_bindx_f77
+      real*8 xrtm_get_omega_l_bindx_f77
       xrtm_get_omega_l_f77 = xrtm_get_omega_l_bindx_f77(d, i_layer,
      &i_deriv)
       end function xrtm_get_omega_l_f77
@@ -900,7 +900,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_layer
-      integer xrtm_get_ltau_bindx_f77
+      real*8 xrtm_get_ltau_bindx_f77
       xrtm_get_ltau_f77 = xrtm_get_ltau_bindx_f77(d, i_layer)
       end function xrtm_get_ltau_f77
 
@@ -955,7 +955,7 @@ c***********************************************************************
       byte d(*)
       integer i_layer
       integer i_deriv
-      integer xrtm_get_ltau_l_bindx_f77
+      real*8 xrtm_get_ltau_l_bindx_f77
       xrtm_get_ltau_l_f77 = xrtm_get_ltau_l_bindx_f77(d, i_layer,
      &i_deriv)
       end function xrtm_get_ltau_l_f77
@@ -976,7 +976,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_kernel
-      integer xrtm_get_kernel_ampfac_bindx_f77
+      real*8 xrtm_get_kernel_ampfac_bindx_f77
       xrtm_get_kernel_ampfac_f77 = xrtm_get_kernel_ampfac_bindx_f77(d,
      &i_kernel)
       end function xrtm_get_kernel_ampfac_f77
@@ -1013,7 +1013,7 @@ c***********************************************************************
       byte d(*)
       integer i_kernel
       integer i_param
-      integer xrtm_get_kernel_params_bindx_f77
+      real*8 xrtm_get_kernel_params_bindx_f77
       xrtm_get_kernel_params_f77 = xrtm_get_kernel_params_bindx_f77(d,
      &i_kernel, i_param)
       end function xrtm_get_kernel_params_f77
@@ -1051,7 +1051,7 @@ c***********************************************************************
       byte d(*)
       integer i_kernel
       integer i_deriv
-      integer xrtm_get_kernel_ampfac_l_bindx_f77
+      real*8 xrtm_get_kernel_ampfac_l_bindx_f77
       xrtm_get_kernel_ampfac_l_f77 =
      &xrtm_get_kernel_ampfac_l_bindx_f77(d, i_kernel, i_deriv)
       end function xrtm_get_kernel_ampfac_l_f77
@@ -1120,7 +1120,7 @@ c***********************************************************************
       integer i_kernel
       integer i_deriv
       integer i_param
-      integer xrtm_get_kernel_params_l_bindx_f77
+      real*8 xrtm_get_kernel_params_l_bindx_f77
       xrtm_get_kernel_params_l_f77 =
      &xrtm_get_kernel_params_l_bindx_f77(d, i_kernel, i_deriv, i_param)
       end function xrtm_get_kernel_params_l_f77
diff --git a/interfaces/xrtm_int_f77_util.c b/interfaces/xrtm_int_f77_util.c
index b81ad01..693d350 100644
--- a/interfaces/xrtm_int_f77_util.c
+++ b/interfaces/xrtm_int_f77_util.c
@@ -57,123 +57,123 @@ int xrtm_destroy_bindx_f77_(xrtm_data *d)
 
 int xrtm_get_options_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_options(d)) {
+     int r;
+     r = xrtm_get_options(d);
+     if (r == XRTM_INT_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_options()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
 int xrtm_get_solvers_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_solvers(d)) {
+     int r;
+     r = xrtm_get_solvers(d);
+     if (r == XRTM_INT_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_solvers()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
 int xrtm_get_max_coef_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_max_coef(d)) {
+     int r;
+     r = xrtm_get_max_coef(d);
+     if (r == XRTM_INT_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_max_coef()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
 int xrtm_get_n_quad_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_quad(d)) {
+     int r;
+     r = xrtm_get_n_quad(d);
+     if (r == XRTM_INT_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_n_quad()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
 int xrtm_get_n_stokes_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_stokes(d)) {
+     int r;
+     r = xrtm_get_n_stokes(d);
+     if (r == XRTM_INT_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_n_stokes()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
 int xrtm_get_n_derivs_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_derivs(d)) {
+     int r;
+     r = xrtm_get_n_derivs(d);
+     if (r == XRTM_INT_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_n_derivs()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
 int xrtm_get_n_layers_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_layers(d)) {
+     int r;
+     r = xrtm_get_n_layers(d);
+     if (r == XRTM_INT_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_n_layers()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
 int xrtm_get_n_kernels_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_kernels(d)) {
+     int r;
+     r = xrtm_get_n_kernels(d);
+     if (r == XRTM_INT_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_n_kernels()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
 int xrtm_get_n_kernel_quad_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_kernel_quad(d)) {
+     int r;
+     r = xrtm_get_n_kernel_quad(d);
+     if (r == XRTM_INT_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_n_kernel_quad()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
 enum xrtm_kernel_type xrtm_get_kernel_bindx_f77_(xrtm_data *d, int *i_kernel_)
 {
+     enum xrtm_kernel_type r;
      int i_kernel;
      i_kernel = *i_kernel_;
-     if (xrtm_get_kernel(d, i_kernel)) {
+     r = xrtm_get_kernel(d, i_kernel);
+     if ((int) r == XRTM_INT_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_kernel()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
 int xrtm_get_n_out_levels_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_out_levels(d)) {
+     int r;
+     r = xrtm_get_n_out_levels(d);
+     if (r == XRTM_INT_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_n_out_levels()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
 int xrtm_get_n_out_thetas_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_out_thetas(d)) {
+     int r;
+     r = xrtm_get_n_out_thetas(d);
+     if (r == XRTM_INT_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_n_out_thetas()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -201,11 +201,11 @@ int xrtm_set_doub_d_tau_bindx_f77_(xrtm_data *d, double *d_tau_)
 
 double xrtm_get_doub_d_tau_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_doub_d_tau(d)) {
+     double r;
+     r = xrtm_get_doub_d_tau(d);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_doub_d_tau()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -273,11 +273,11 @@ int xrtm_set_fourier_tol_bindx_f77_(xrtm_data *d, double *fourier_tol_)
 
 double xrtm_get_fourier_tol_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_fourier_tol(d)) {
+     double r;
+     r = xrtm_get_fourier_tol(d);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_fourier_tol()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -295,11 +295,11 @@ int xrtm_set_lambda_bindx_f77_(xrtm_data *d, double *lambda_)
 
 double xrtm_get_lambda_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_lambda(d)) {
+     double r;
+     r = xrtm_get_lambda(d);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_lambda()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -317,11 +317,11 @@ int xrtm_set_planet_r_bindx_f77_(xrtm_data *d, double *planet_r_)
 
 double xrtm_get_planet_r_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_planet_r(d)) {
+     double r;
+     r = xrtm_get_planet_r(d);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_planet_r()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -419,11 +419,11 @@ int xrtm_set_f_iso_top_bindx_f77_(xrtm_data *d, double *F_iso_top_)
 
 double xrtm_get_f_iso_top_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_F_iso_top(d)) {
+     double r;
+     r = xrtm_get_F_iso_top(d);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_F_iso_top()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -453,13 +453,13 @@ int xrtm_set_f_iso_top_l_n_bindx_f77_(xrtm_data *d, double *F_iso_top_l)
 
 double xrtm_get_f_iso_top_l_bindx_f77_(xrtm_data *d, int *i_deriv_)
 {
+     double r;
      int i_deriv;
      i_deriv = *i_deriv_;
-     if (xrtm_get_F_iso_top_l(d, i_deriv)) {
+     r = xrtm_get_F_iso_top_l(d, i_deriv);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_F_iso_top_l()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -477,11 +477,11 @@ int xrtm_set_f_iso_bot_bindx_f77_(xrtm_data *d, double *F_iso_bot_)
 
 double xrtm_get_f_iso_bot_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_F_iso_bot(d)) {
+     double r;
+     r = xrtm_get_F_iso_bot(d);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_F_iso_bot()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -511,13 +511,13 @@ int xrtm_set_f_iso_bot_l_n_bindx_f77_(xrtm_data *d, double *F_iso_bot_l)
 
 double xrtm_get_f_iso_bot_l_bindx_f77_(xrtm_data *d, int *i_deriv_)
 {
+     double r;
      int i_deriv;
      i_deriv = *i_deriv_;
-     if (xrtm_get_F_iso_bot_l(d, i_deriv)) {
+     r = xrtm_get_F_iso_bot_l(d, i_deriv);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_F_iso_bot_l()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -535,11 +535,11 @@ int xrtm_set_f_0_bindx_f77_(xrtm_data *d, double *F_0_)
 
 double xrtm_get_f_0_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_F_0(d)) {
+     double r;
+     r = xrtm_get_F_0(d);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_F_0()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -557,11 +557,11 @@ int xrtm_set_theta_0_bindx_f77_(xrtm_data *d, double *theta_0_)
 
 double xrtm_get_theta_0_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_theta_0(d)) {
+     double r;
+     r = xrtm_get_theta_0(d);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_theta_0()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -579,11 +579,11 @@ int xrtm_set_phi_0_bindx_f77_(xrtm_data *d, double *phi_0_)
 
 double xrtm_get_phi_0_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_phi_0(d)) {
+     double r;
+     r = xrtm_get_phi_0(d);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_phi_0()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -658,11 +658,11 @@ int xrtm_set_surface_b_bindx_f77_(xrtm_data *d, double *surface_b_)
 
 double xrtm_get_surface_b_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_surface_b(d)) {
+     double r;
+     r = xrtm_get_surface_b(d);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_surface_b()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -692,13 +692,13 @@ int xrtm_set_surface_b_l_n_bindx_f77_(xrtm_data *d, double *surface_b_l)
 
 double xrtm_get_surface_b_l_bindx_f77_(xrtm_data *d, int *i_deriv_)
 {
+     double r;
      int i_deriv;
      i_deriv = *i_deriv_;
-     if (xrtm_get_surface_b_l(d, i_deriv)) {
+     r = xrtm_get_surface_b_l(d, i_deriv);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_surface_b_l()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -728,13 +728,13 @@ int xrtm_set_g_n_bindx_f77_(xrtm_data *d, double *g)
 
 double xrtm_get_g_bindx_f77_(xrtm_data *d, int *i_layer_)
 {
+     double r;
      int i_layer;
      i_layer = *i_layer_;
-     if (xrtm_get_g(d, i_layer)) {
+     r = xrtm_get_g(d, i_layer);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_g()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -793,15 +793,15 @@ int xrtm_set_g_l_nn_bindx_f77_(xrtm_data *d, double *g_l)
 
 double xrtm_get_g_l_bindx_f77_(xrtm_data *d, int *i_layer_, int *i_deriv_)
 {
+     double r;
      int i_layer;
      int i_deriv;
      i_layer = *i_layer_;
      i_deriv = *i_deriv_;
-     if (xrtm_get_g_l(d, i_layer, i_deriv)) {
+     r = xrtm_get_g_l(d, i_layer, i_deriv);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_g_l()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -837,29 +837,29 @@ int xrtm_set_coef_n_bindx_f77_(xrtm_data *d, int *n_coef_layer, double *coef)
 
 int xrtm_get_n_coef_bindx_f77_(xrtm_data *d, int *i_layer_)
 {
+     int r;
      int i_layer;
      i_layer = *i_layer_;
-     if (xrtm_get_n_coef(d, i_layer)) {
+     r = xrtm_get_n_coef(d, i_layer);
+     if (r == XRTM_INT_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_n_coef()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
 double xrtm_get_coef_bindx_f77_(xrtm_data *d, int *i_layer_, int *i_elem_, int *i_coef_)
 {
+     double r;
      int i_layer;
      int i_elem;
      int i_coef;
      i_layer = *i_layer_;
      i_elem = *i_elem_;
      i_coef = *i_coef_;
-     if (xrtm_get_coef(d, i_layer, i_elem, i_coef)) {
+     r = xrtm_get_coef(d, i_layer, i_elem, i_coef);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_coef()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -933,6 +933,7 @@ int xrtm_set_coef_l_nn_bindx_f77_(xrtm_data *d, double *coef_l)
 
 double xrtm_get_coef_l_bindx_f77_(xrtm_data *d, int *i_layer_, int *i_deriv_, int *i_elem_, int *i_coef_)
 {
+     double r;
      int i_layer;
      int i_deriv;
      int i_elem;
@@ -941,11 +942,10 @@ double xrtm_get_coef_l_bindx_f77_(xrtm_data *d, int *i_layer_, int *i_deriv_, in
      i_deriv = *i_deriv_;
      i_elem = *i_elem_;
      i_coef = *i_coef_;
-     if (xrtm_get_coef_l(d, i_layer, i_deriv, i_elem, i_coef)) {
+     r = xrtm_get_coef_l(d, i_layer, i_deriv, i_elem, i_coef);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_coef_l()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -975,13 +975,13 @@ int xrtm_set_omega_n_bindx_f77_(xrtm_data *d, double *omega)
 
 double xrtm_get_omega_bindx_f77_(xrtm_data *d, int *i_layer_)
 {
+     double r;
      int i_layer;
      i_layer = *i_layer_;
-     if (xrtm_get_omega(d, i_layer)) {
+     r = xrtm_get_omega(d, i_layer);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_omega()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -1040,15 +1040,15 @@ int xrtm_set_omega_l_nn_bindx_f77_(xrtm_data *d, double *omega_l)
 
 double xrtm_get_omega_l_bindx_f77_(xrtm_data *d, int *i_layer_, int *i_deriv_)
 {
+     double r;
      int i_layer;
      int i_deriv;
      i_layer = *i_layer_;
      i_deriv = *i_deriv_;
-     if (xrtm_get_omega_l(d, i_layer, i_deriv)) {
+     r = xrtm_get_omega_l(d, i_layer, i_deriv);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_omega_l()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -1078,13 +1078,13 @@ int xrtm_set_ltau_n_bindx_f77_(xrtm_data *d, double *ltau)
 
 double xrtm_get_ltau_bindx_f77_(xrtm_data *d, int *i_layer_)
 {
+     double r;
      int i_layer;
      i_layer = *i_layer_;
-     if (xrtm_get_ltau(d, i_layer)) {
+     r = xrtm_get_ltau(d, i_layer);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_ltau()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -1143,15 +1143,15 @@ int xrtm_set_ltau_l_nn_bindx_f77_(xrtm_data *d, double *ltau_l)
 
 double xrtm_get_ltau_l_bindx_f77_(xrtm_data *d, int *i_layer_, int *i_deriv_)
 {
+     double r;
      int i_layer;
      int i_deriv;
      i_layer = *i_layer_;
      i_deriv = *i_deriv_;
-     if (xrtm_get_ltau_l(d, i_layer, i_deriv)) {
+     r = xrtm_get_ltau_l(d, i_layer, i_deriv);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_ltau_l()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -1171,13 +1171,13 @@ int xrtm_set_kernel_ampfac_bindx_f77_(xrtm_data *d, int *i_kernel_, double *ampf
 
 double xrtm_get_kernel_ampfac_bindx_f77_(xrtm_data *d, int *i_kernel_)
 {
+     double r;
      int i_kernel;
      i_kernel = *i_kernel_;
-     if (xrtm_get_kernel_ampfac(d, i_kernel)) {
+     r = xrtm_get_kernel_ampfac(d, i_kernel);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_kernel_ampfac()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -1211,15 +1211,15 @@ int xrtm_set_kernel_params_n_bindx_f77_(xrtm_data *d, int *i_kernel_, double *pa
 
 double xrtm_get_kernel_params_bindx_f77_(xrtm_data *d, int *i_kernel_, int *i_param_)
 {
+     double r;
      int i_kernel;
      int i_param;
      i_kernel = *i_kernel_;
      i_param = *i_param_;
-     if (xrtm_get_kernel_params(d, i_kernel, i_param)) {
+     r = xrtm_get_kernel_params(d, i_kernel, i_param);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_kernel_params()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -1253,15 +1253,15 @@ int xrtm_set_kernel_ampfac_l_n_bindx_f77_(xrtm_data *d, int *i_kernel_, double *
 
 double xrtm_get_kernel_ampfac_l_bindx_f77_(xrtm_data *d, int *i_kernel_, int *i_deriv_)
 {
+     double r;
      int i_kernel;
      int i_deriv;
      i_kernel = *i_kernel_;
      i_deriv = *i_deriv_;
-     if (xrtm_get_kernel_ampfac_l(d, i_kernel, i_deriv)) {
+     r = xrtm_get_kernel_ampfac_l(d, i_kernel, i_deriv);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_kernel_ampfac_l()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
@@ -1332,17 +1332,17 @@ int xrtm_set_kernel_params_l_nn_bindx_f77_(xrtm_data *d, int *i_kernel_, double
 
 double xrtm_get_kernel_params_l_bindx_f77_(xrtm_data *d, int *i_kernel_, int *i_deriv_, int *i_param_)
 {
+     double r;
      int i_kernel;
      int i_deriv;
      int i_param;
      i_kernel = *i_kernel_;
      i_deriv = *i_deriv_;
      i_param = *i_param_;
-     if (xrtm_get_kernel_params_l(d, i_kernel, i_deriv, i_param)) {
+     r = xrtm_get_kernel_params_l(d, i_kernel, i_deriv, i_param);
+     if (r == XRTM_DBL_ERROR)
           fprintf(stderr, "ERROR: xrtm_get_kernel_params_l()\n");
-          return -1;
-     }
-     return 0;
+     return r;
 }
 
 
-- 
2.43.0


From 49f61c6c950f7e58a7a77507ce2bb50a42d7646a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:28 +0000
Subject: [PATCH 63/65] fix: saved layer and total R, T and S of one solver
 were used by the next

---
 src/xrtm_interface.c |  2 ++
 src/xrtm_interface.h |  2 ++
 src/xrtm_model.c     | 19 +++++++++++++++++++
 3 files changed, 23 insertions(+)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 51840ba..81b66f9 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -1753,6 +1753,8 @@ int xrtm_create_misc(xrtm_data *d, int options, int solvers, int max_coef, int n
      d->inputs_initialized = 1;
      d->varied_layers_updated = 1;
 
+     d->misc_output.layer_solver = 0;
+
 
      /*-------------------------------------------------------------------------
       *
diff --git a/src/xrtm_interface.h b/src/xrtm_interface.h
index 24f59f2..eebd43a 100644
--- a/src/xrtm_interface.h
+++ b/src/xrtm_interface.h
@@ -172,6 +172,8 @@ typedef struct {
 typedef struct {
      int fourier_count;
 
+     int layer_solver; /* the solver the saved R, T and S of the layers are from */
+
      double pade_condition;
 } misc_output_data;
 
diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 843c30b..416676b 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -6475,6 +6475,25 @@ static int get_solution_internal(xrtm_data *d, enum xrtm_solver_mask solver, int
  ******************************************************************************/
 int get_solution(xrtm_data *d, enum xrtm_solver_mask solver, int solutions, int n_phis, double **phis, double ****I_p, double ****I_m, double *****I_p_l, double *****I_m_l, double *mean_p, double *mean_m, double **mean_p_l, double **mean_m_l, double *flux_p, double *flux_m, double **flux_p_l, double **flux_m_l, double *flux_div, double **flux_div_l, save_tree_data save_tree, work_data work) {
 
+     int i;
+     int j;
+
+     int deps;
+
+     /* saved R, T and S of layers and stacks are those of the solver that saved them */
+     if (solver & XRTM_SOLVERS_ADDING && (int) solver != d->misc_output.layer_solver) {
+          deps = layer_R_T_S_U_W_V_deps(d);
+
+          for (i = 0; i < d->n_four; ++i) {
+               d->dep_flags_total_R_T_S_U_W_V[i] |= deps;
+
+               for (j = 0; j < d->n_layers; ++j)
+                    d->dep_flags_layer_R_T_S_U_W_V[i][j] |= deps;
+          }
+
+          d->misc_output.layer_solver = solver;
+     }
+
      if (solver & XRTM_SOLVERS_INTERNAL) {
           if (get_solution_internal(d, solver, solutions, n_phis, phis, I_p, I_m, I_p_l, I_m_l, mean_p, mean_m, mean_p_l, mean_m_l, flux_p, flux_m, flux_p_l, flux_m_l, flux_div, flux_div_l, save_tree, work)) {
                fprintf(stderr, "ERROR: get_radiance_internal()\n");
-- 
2.43.0


From 4bbf5175b58d649059927a8f5fdf777b60e62351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:38 +0000
Subject: [PATCH 64/65] fix: stacks reused in adding left out or misread
 derivatives of thermal sources

The stacks only keep source derivatives that come from the solar beam, so a
thermal source that varies in a layer whose optics do not was dropped (or read
from a work array that was never set).
---
 src/xrtm_model.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 416676b..c6bb9fa 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -4698,7 +4698,7 @@ static int fourier_get_add_bottom_up(xrtm_data *d, int i_four, int solver, doubl
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-     if ( ! (d->options & XRTM_OPTION_CALC_DERIVS) || ! (d->options & XRTM_OPTION_STACK_REUSE_ADDING)) {
+     if ( ! (d->options & XRTM_OPTION_CALC_DERIVS) || ! (d->options & XRTM_OPTION_STACK_REUSE_ADDING) || d->options & XRTM_OPTION_SOURCE_THERMAL) {
           if (get_total_TOA_R_S_U_V  (d, i_four, solver, Rs_qq, d->In_p[i_four], Rs_qq_l, In_p_l, &R_m, &S_p, &R_m_l, &S_p_l, surface, 1, save_tree, &work)) {
                fprintf(stderr, "ERROR: get_total_TOA_R_S_U_V()\n");
                return -1;
@@ -4826,7 +4826,8 @@ static int fourier_get_add_both_ways(xrtm_data *d, int i_four, int solver, doubl
       *
       *-----------------------------------------------------------------------*/
      if ( ! (d->options & XRTM_OPTION_CALC_DERIVS) ||
-          ! (d->options & XRTM_OPTION_STACK_REUSE_ADDING)) {
+          ! (d->options & XRTM_OPTION_STACK_REUSE_ADDING) ||
+          d->options & XRTM_OPTION_SOURCE_THERMAL) {
           if (get_total_R_T_S_U_W_V  (d, i_four, solver, &R_p, &T_p, &R_m, &T_m, &S_p, &S_m, &R_p_l, &T_p_l, &R_m_l, &T_m_l, &S_p_l, &S_m_l, 1, save_tree, &work)) {
                fprintf(stderr, "ERROR: get_total_R_T_S_U_W_V()\n");
                return -1;
-- 
2.43.0


From 65e2b08397eb280f30138274af80159e5a590b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:57 +0000
Subject: [PATCH 65/65] fix: adjoint derivatives with reused stacks were those
 of the boundaries only

The adjoint of the stack reuse routines does not exist and was silently left
out.
---
 src/xrtm_model.c   |  4 ++--
 src/xrtm_model_a.c | 23 ++++++-----------------
 2 files changed, 8 insertions(+), 19 deletions(-)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index c6bb9fa..148ea88 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -4698,7 +4698,7 @@ static int fourier_get_add_bottom_up(xrtm_data *d, int i_four, int solver, doubl
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-     if ( ! (d->options & XRTM_OPTION_CALC_DERIVS) || ! (d->options & XRTM_OPTION_STACK_REUSE_ADDING) || d->options & XRTM_OPTION_SOURCE_THERMAL) {
+     if ( ! (d->options & XRTM_OPTION_CALC_DERIVS) || ! (d->options & XRTM_OPTION_STACK_REUSE_ADDING) || d->options & (XRTM_OPTION_SOURCE_THERMAL | XRTM_OPTION_REVERSE_DERIVS)) {
           if (get_total_TOA_R_S_U_V  (d, i_four, solver, Rs_qq, d->In_p[i_four], Rs_qq_l, In_p_l, &R_m, &S_p, &R_m_l, &S_p_l, surface, 1, save_tree, &work)) {
                fprintf(stderr, "ERROR: get_total_TOA_R_S_U_V()\n");
                return -1;
@@ -4827,7 +4827,7 @@ static int fourier_get_add_both_ways(xrtm_data *d, int i_four, int solver, doubl
       *-----------------------------------------------------------------------*/
      if ( ! (d->options & XRTM_OPTION_CALC_DERIVS) ||
           ! (d->options & XRTM_OPTION_STACK_REUSE_ADDING) ||
-          d->options & XRTM_OPTION_SOURCE_THERMAL) {
+          d->options & (XRTM_OPTION_SOURCE_THERMAL | XRTM_OPTION_REVERSE_DERIVS)) {
           if (get_total_R_T_S_U_W_V  (d, i_four, solver, &R_p, &T_p, &R_m, &T_m, &S_p, &S_m, &R_p_l, &T_p_l, &R_m_l, &T_m_l, &S_p_l, &S_m_l, 1, save_tree, &work)) {
                fprintf(stderr, "ERROR: get_total_R_T_S_U_W_V()\n");
                return -1;
diff --git a/src/xrtm_model_a.c b/src/xrtm_model_a.c
index a216d02..aa6f78e 100644
--- a/src/xrtm_model_a.c
+++ b/src/xrtm_model_a.c
@@ -2189,14 +2189,9 @@ static int fourier_get_add_bottom_up_a(xrtm_data *d, int i_four, int solver, dou
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-     if ( ! (d->options & XRTM_OPTION_CALC_DERIVS) || ! (d->options & XRTM_OPTION_STACK_REUSE_ADDING)) {
-          if (get_total_TOA_R_S_U_V_a(d, i_four, solver, save->Rs_qq, d->In_p[i_four], Rs_qq_a, d->In_p_a[i_four], save->R_m, save->S_p, R_m_a, S_p_a, surface, 1, save_tree, &work)) {
-               fprintf(stderr, "ERROR: get_total_TOA_R_S_U_V_a()\n");
-               return -1;
-          }
-     }
-     else {
-
+     if (get_total_TOA_R_S_U_V_a(d, i_four, solver, save->Rs_qq, d->In_p[i_four], Rs_qq_a, d->In_p_a[i_four], save->R_m, save->S_p, R_m_a, S_p_a, surface, 1, save_tree, &work)) {
+          fprintf(stderr, "ERROR: get_total_TOA_R_S_U_V_a()\n");
+          return -1;
      }
 
 
@@ -2394,15 +2389,9 @@ static int fourier_get_add_both_ways_a(xrtm_data *d, int i_four, int solver, dou
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-     if ( ! (d->options & XRTM_OPTION_CALC_DERIVS) ||
-          ! (d->options & XRTM_OPTION_STACK_REUSE_ADDING)) {
-          if (get_total_R_T_S_U_W_V_a(d, i_four, solver, save->R_p, save->T_p, save->R_m, save->T_m, save->S_p, save->S_m, R_p_a, T_p_a, R_m_a, T_m_a, S_p_a, S_m_a, 1, save_tree, &work)) {
-               fprintf(stderr, "ERROR: get_total_R_T_S_U_W_V_a()\n");
-               return -1;
-          }
-     }
-     else {
-
+     if (get_total_R_T_S_U_W_V_a(d, i_four, solver, save->R_p, save->T_p, save->R_m, save->T_m, save->S_p, save->S_m, R_p_a, T_p_a, R_m_a, T_m_a, S_p_a, S_m_a, 1, save_tree, &work)) {
+          fprintf(stderr, "ERROR: get_total_R_T_S_U_W_V_a()\n");
+          return -1;
      }
 
 
-- 
2.43.0

