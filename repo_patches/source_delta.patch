From dcd4ca21e5766ff563ba04262987f348f86924df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:15 +0000
Subject: [PATCH 01/63] fix: store the thermal band of the cloud-fallback fit
 at its own observation

inefficientobs_procedure() wrote band 7 to index n_sn (always 0) instead of
n_clr, so the thermal series of the fallback fit was uninitialised memory.
---
 src/cxx/cold.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cxx/cold.c b/src/cxx/cold.c
index 8ff799a..c81b15f 100644
--- a/src/cxx/cold.c
+++ b/src/cxx/cold.c
@@ -5183,10 +5183,10 @@ int inefficientobs_procedure
                         clry[k][n_clr] = (float)buf_s2[i];
                     else if(k == 6){
                         if (b_c2 == TRUE){
-                            clry[k][n_sn] = 0;
+                            clry[k][n_clr] = 0;
                         }
                         else{
-                            clry[k][n_sn] = (float)(buf_t[i] * 10 - 27320);
+                            clry[k][n_clr] = (float)(buf_t[i] * 10 - 27320);
                         }
                    }
                 }
-- 
2.43.0


From 7f1894f8f6220ce60ec3689b3b6e70d2b614a239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:15 +0000
Subject: [PATCH 02/63] fix: keep the green band aligned with its dates in the
 cloud-fallback fit

The median of the green band was taken by sorting clry[1] in place, so the
screening and the fit of that band used values of other observations.
---
 src/cxx/cold.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cxx/cold.c b/src/cxx/cold.c
index c81b15f..93a39c4 100644
--- a/src/cxx/cold.c
+++ b/src/cxx/cold.c
@@ -5206,8 +5206,10 @@ int inefficientobs_procedure
 
         n_clr = 0;
         float band2_median; // probably not good practice to declare here....
-        quick_sort_float(clry[1], 0, end - 1);
-        matlab_2d_float_median(clry, 1, end, &band2_median);
+        // sort a copy: clry[1] has to stay aligned with clrx and the other bands
+        memcpy(temp_v_dif[1], clry[1], end * sizeof(float));
+        quick_sort_float(temp_v_dif[1], 0, end - 1);
+        matlab_2d_float_median(temp_v_dif, 1, end, &band2_median);
 
         n_clr = 0;
         for (i = 0; i < end; i++)
-- 
2.43.0


From bdb3699d4c5bb9e7d4c945bbb79c27ca02b9a539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:04 +0000
Subject: [PATCH 03/63] fix: fit each band of the snow fallback on that band's
 own dates

---
 src/cxx/cold.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/cxx/cold.c b/src/cxx/cold.c
index 93a39c4..cd5294a 100644
--- a/src/cxx/cold.c
+++ b/src/cxx/cold.c
@@ -4868,6 +4868,7 @@ int inefficientobs_procedure
     int i_start;
     int i_span;
     int *clrx;                       /* clear pixel curve in X direction (date)    */
+    int *clrx_band;                   /* dates of the usable observations of one band        */
     float **clry;                    /* clear pixel curve in Y direction (spectralbands)    */
     float **fit_cft;                 /* Fitted coefficients 2-D array.        */
     float *rmse;                     /* Root Mean Squared Error array.        */
@@ -5000,6 +5001,12 @@ int inefficientobs_procedure
 //            printf ("Fit permanent snow observations, now pixel = %f\n",
 //                   100.0 * sn_pct);
 
+        clrx_band = malloc(n_sn * sizeof(int));
+        if (clrx_band == NULL)
+        {
+            RETURN_ERROR ("Allocating clrx_band memory", FUNC_NAME, FAILURE);
+        }
+
         i_start = 1; /* the first observation for TSFit */
 
         /**********************************************************/
@@ -5018,7 +5025,7 @@ int inefficientobs_procedure
                 {
                     if (clry[k][i] > 0.0 && clry[k][i] < 10000.0)
                     {
-                        clrx[i_span] = clrx[i];
+                        clrx_band[i_span] = clrx[i];
                         clry[k][i_span] = clry[k][i];
                         i_span++;
                     }
@@ -5031,7 +5038,7 @@ int inefficientobs_procedure
                 }
                 else
                 {
-                    status = auto_ts_fit_float(clrx, clry, k, k, 0, i_span-1, MIN_NUM_C,
+                    status = auto_ts_fit_float(clrx_band, clry, k, k, 0, i_span-1, MIN_NUM_C,
                              fit_cft, &rmse[k], temp_v_dif);
 
                     if (status != SUCCESS)
@@ -5047,13 +5054,13 @@ int inefficientobs_procedure
                     //printf("clry: %f\n", (float)clry[k][i]);
                     if (clry[k][i] > -9320 && clry[k][i] < 7070)
                     {
-                        clrx[i_span] = clrx[i];
+                        clrx_band[i_span] = clrx[i];
                         clry[k][i_span] = clry[k][i];
                         i_span++;
                     }
                  }
 
-                status = auto_ts_fit_float(clrx, clry, k, k, 0, i_span-1, MIN_NUM_C,
+                status = auto_ts_fit_float(clrx_band, clry, k, k, 0, i_span-1, MIN_NUM_C,
                          fit_cft, &rmse[k], temp_v_dif);
 
                 if (status != SUCCESS)
@@ -5062,6 +5069,7 @@ int inefficientobs_procedure
 
               }
         }
+        free(clrx_band);
 
 
         /**********************************************************/
-- 
2.43.0


From 1e900f469d57d572e3d8db181a2704a59a1ae2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:36 +0000
Subject: [PATCH 04/63] fix: size the segment arrays for every possible segment
 instead of reallocating memory owned by numpy

---
 src/cxx/cold.c                      | 106 ----------------------------
 src/python/pycold/_colds_cython.pyx |  13 ++--
 2 files changed, 8 insertions(+), 111 deletions(-)

diff --git a/src/cxx/cold.c b/src/cxx/cold.c
index cd5294a..bb83517 100644
--- a/src/cxx/cold.c
+++ b/src/cxx/cold.c
@@ -1354,21 +1354,6 @@ int stand_procedure_fixeddays
                     /**********************************************/
 
                     *num_fc = *num_fc + 1;
-                    if (*num_fc >= NUM_FC)
-                    {
-                        /******************************************/
-                        /*                                        */
-                        /* Reallocate memory for rec_cg.          */
-                        /*                                        */
-                        /******************************************/
-
-                        rec_cg = realloc(rec_cg, (*num_fc + 1) * sizeof(Output_t));
-                        if (rec_cg == NULL)
-                        {
-                            RETURN_ERROR("ERROR allocating rec_cg memory",
-                                         FUNC_NAME, FAILURE);
-                        }
-                    }
                 }
             } /* end of initializing model */
 
@@ -2032,21 +2017,6 @@ int stand_procedure_fixeddays
 
                     *num_fc = *num_fc + 1;
 
-                    if (*num_fc >= NUM_FC)
-                    {
-                        /******************************************/
-                        /*                                        */
-                        /* Reallocate memory for rec_cg.          */
-                        /*                                        */
-                        /******************************************/
-
-                        rec_cg = realloc(rec_cg, (*num_fc + 1) * sizeof(Output_t));
-                        if (rec_cg == NULL)
-                        {
-                            RETURN_ERROR("ERROR allocating rec_cg memory",
-                                                 FUNC_NAME, FAILURE);
-                        }
-                    }
 
                     /**********************************************/
                     /*                                            */
@@ -2462,21 +2432,6 @@ int stand_procedure_fixeddays
              }
 
             //*num_fc = *num_fc + 1;
-            if (*num_fc >= NUM_FC)
-            {
-                /**************************************************/
-                /*                                                */
-                /* Reallocate memory for rec_cg.                  */
-                /*                                                */
-                /**************************************************/
-
-                rec_cg = realloc(rec_cg, (*num_fc + 1) * sizeof(Output_t));
-                if (rec_cg == NULL)
-                {
-                    RETURN_ERROR("ERROR allocating rec_cg memory",
-                                 FUNC_NAME, FAILURE);
-                }
-            }
         }else{
            *num_fc = *num_fc - 1;
         }
@@ -3754,21 +3709,6 @@ int stand_procedure
                     /**********************************************/
 
                     *num_fc = *num_fc + 1;
-                    if (*num_fc >= NUM_FC)
-                    {
-                        /******************************************/
-                        /*                                        */
-                        /* Reallocate memory for rec_cg.          */
-                        /*                                        */
-                        /******************************************/
-
-                        rec_cg = realloc(rec_cg, (*num_fc + 1) * sizeof(Output_t));
-                        if (rec_cg == NULL)
-                        {
-                            RETURN_ERROR("ERROR allocating rec_cg memory",
-                                         FUNC_NAME, FAILURE);
-                        }
-                    }
                 }
             } /* end of initializing model */
 
@@ -4353,21 +4293,6 @@ int stand_procedure
 
                     *num_fc = *num_fc + 1;
 
-                    if (*num_fc >= NUM_FC)
-                    {
-                        /******************************************/
-                        /*                                        */
-                        /* Reallocate memory for rec_cg.          */
-                        /*                                        */
-                        /******************************************/
-
-                        rec_cg = realloc(rec_cg, (*num_fc + 1) * sizeof(Output_t));
-                        if (rec_cg == NULL)
-                        {
-                            RETURN_ERROR("ERROR allocating rec_cg memory",
-                                                 FUNC_NAME, FAILURE);
-                        }
-                    }
 
                     /**********************************************/
                     /*                                            */
@@ -4704,21 +4629,6 @@ int stand_procedure
              }
 
             //*num_fc = *num_fc + 1;
-            if (*num_fc >= NUM_FC)
-            {
-                /**************************************************/
-                /*                                                */
-                /* Reallocate memory for rec_cg.                  */
-                /*                                                */
-                /**************************************************/
-
-                rec_cg = realloc(rec_cg, (*num_fc + 1) * sizeof(Output_t));
-                if (rec_cg == NULL)
-                {
-                    RETURN_ERROR("ERROR allocating rec_cg memory",
-                                 FUNC_NAME, FAILURE);
-                }
-            }
         }else{
            *num_fc = *num_fc - 1;
         }
@@ -5142,22 +5052,6 @@ int inefficientobs_procedure
         }
 
 
-        if (*num_fc >= NUM_FC)
-        {
-
-            /******************************************************/
-            /*                                                    */
-            /* Reallocate memory for rec_cg.                      */
-            /*                                                    */
-            /******************************************************/
-
-            rec_cg = realloc(rec_cg, (*num_fc + 1) * sizeof(Output_t));
-            if (rec_cg == NULL)
-            {
-                RETURN_ERROR("ERROR allocating rec_cg memory",
-                             FUNC_NAME, FAILURE);
-            }
-        }
     }  // if sn_pct > T_SN
 
     else
diff --git a/src/python/pycold/_colds_cython.pyx b/src/python/pycold/_colds_cython.pyx
index 1add35a..221d473 100644
--- a/src/python/pycold/_colds_cython.pyx
+++ b/src/python/pycold/_colds_cython.pyx
@@ -172,7 +172,8 @@ cpdef _cold_detect(np.ndarray[np.int64_t, ndim=1, mode='c'] dates, np.ndarray[np
     # allocate memory for rec_cg
     cdef int num_fc = 0
     cdef Output_t t
-    rec_cg = np.zeros(NUM_FC, dtype=reccg_dt)
+    # segments never share an observation, so there cannot be more of them than observations
+    rec_cg = np.zeros(max(NUM_FC, valid_num_scenes + 1), dtype=reccg_dt)
 
     cdef long [:] dates_view = dates
     cdef long [:] ts_b_view = ts_b
@@ -258,7 +259,8 @@ cpdef _obcold_reconstruct(np.ndarray[np.int64_t, ndim=1, mode='c'] dates,
     # allocate memory for rec_cg
     cdef int num_fc = 0
     cdef Output_t t
-    rec_cg = np.zeros(NUM_FC, dtype=reccg_dt)
+    # segments never share an observation, so there cannot be more of them than observations
+    rec_cg = np.zeros(max(NUM_FC, valid_num_scenes + 1), dtype=reccg_dt)
 
     cdef long [:] dates_view = dates
     cdef long [:] ts_b_view = ts_b
@@ -336,10 +338,11 @@ cpdef _sccd_detect(np.ndarray[np.int64_t, ndim=1, mode='c'] dates,
     cdef int num_fc = 0
     cdef int num_nrt_queue = 0
     cdef int num_fc_pinpoint = 0
-    rec_cg = np.zeros(NUM_FC_SCCD, dtype=sccd_dt)
+    # segments never share an observation, so there cannot be more of them than observations
+    rec_cg = np.zeros(max(NUM_FC_SCCD, valid_num_scenes + 1), dtype=sccd_dt)
     nrt_queue = np.zeros(NUM_NRT_QUEUE, dtype=nrtqueue_dt)
     nrt_model = np.zeros(1, dtype=nrtmodel_dt)
-    rec_cg_pinpoint = np.zeros(NUM_FC_SCCD, dtype=pinpoint_dt)
+    rec_cg_pinpoint = np.zeros(max(NUM_FC_SCCD, valid_num_scenes + 1), dtype=pinpoint_dt)
     cdef int nrt_mode = 0
 
     if dates[-1] - dates[0] < 365.25:
@@ -471,7 +474,7 @@ cpdef _sccd_update(sccd_pack,
     cdef Output_sccd_pinpoint* rec_cg_pinpoint = <Output_sccd_pinpoint*> PyMem_Malloc(sizeof(t4))
 
     # grab inputs from the input
-    rec_cg_new = np.empty(NUM_FC_SCCD, dtype=sccd_dt)
+    rec_cg_new = np.empty(NUM_FC_SCCD + num_fc + num_nrt_queue + valid_num_scenes, dtype=sccd_dt)
     if num_fc > 0:
         rec_cg_new[0:num_fc] = sccd_pack.rec_cg[0:num_fc]
 
-- 
2.43.0


From 0f09a82e33c3c50605282fb63d4ee367e72c6d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:36 +0000
Subject: [PATCH 05/63] fix: count exactly the fitted observations in early and
 reconstructed segments

---
 src/cxx/cold.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cxx/cold.c b/src/cxx/cold.c
index bb83517..c072c0d 100644
--- a/src/cxx/cold.c
+++ b/src/cxx/cold.c
@@ -3659,7 +3659,7 @@ int stand_procedure
                     rec_cg[*num_fc].category = 10 + MIN_NUM_C;
                     rec_cg[*num_fc].change_prob = 100;
                     rec_cg[*num_fc].t_start = clrx[i_dense-1];
-                    rec_cg[*num_fc].num_obs = i_start - i_dense + 1;  //SY 09182018
+                    rec_cg[*num_fc].num_obs = i_start - i_dense;  //SY 09182018
 
 //                    if ((i_start - 1 + adj_conse) < end)
 //                        rec_cg[*num_fc].t_confirmed = clrx[i_start + adj_conse - 1];
@@ -5677,7 +5677,7 @@ int obcold_reconstruction_procedure
             rec_cg[*num_fc].t_end = clrx[i_break - 1];
 
             // rec_cg[*num_fc].t_confirmed = 0;
-            rec_cg[*num_fc].num_obs = i_break - i_last_break + 1;
+            rec_cg[*num_fc].num_obs = i_break - i_last_break;
             rec_cg[*num_fc].category = 0 + update_num_c;
 
             /* note that each time we calculate change magnitude for the last curve, not current curve*/
-- 
2.43.0


From 7eeb73c14c59e286e82a2b521139c389fa881de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:36 +0000
Subject: [PATCH 06/63] fix: do not use observation 0 of the cloud fallback
 when no observation is valid

---
 src/cxx/cold.c | 9 ++++++---
 src/cxx/misc.c | 6 ++++++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/cxx/cold.c b/src/cxx/cold.c
index c072c0d..3b2e784 100644
--- a/src/cxx/cold.c
+++ b/src/cxx/cold.c
@@ -5109,9 +5109,12 @@ int inefficientobs_procedure
         n_clr = 0;
         float band2_median; // probably not good practice to declare here....
         // sort a copy: clry[1] has to stay aligned with clrx and the other bands
-        memcpy(temp_v_dif[1], clry[1], end * sizeof(float));
-        quick_sort_float(temp_v_dif[1], 0, end - 1);
-        matlab_2d_float_median(temp_v_dif, 1, end, &band2_median);
+        if (end > 0)
+        {
+            memcpy(temp_v_dif[1], clry[1], end * sizeof(float));
+            quick_sort_float(temp_v_dif[1], 0, end - 1);
+            matlab_2d_float_median(temp_v_dif, 1, end, &band2_median);
+        }
 
         n_clr = 0;
         for (i = 0; i < end; i++)
diff --git a/src/cxx/misc.c b/src/cxx/misc.c
index 97c4a0b..7924b03 100644
--- a/src/cxx/misc.c
+++ b/src/cxx/misc.c
@@ -1191,6 +1191,12 @@ void matlab_unique
     int k, b;
     int k_new = 0;
 
+    if (nums <= 0)
+    {
+        *new_nums = 0;
+        return;
+    }
+
     for (k = 1, k_new = 1; k < nums; k++)
     {
         if (clrx[k] == clrx[k-1])
-- 
2.43.0


From 1007ed01d07fce7a23e211da0e5670604688cb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:36 +0000
Subject: [PATCH 07/63] fix: keep the angle between parallel change vectors
 finite

---
 src/cxx/misc.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cxx/misc.c b/src/cxx/misc.c
index 7924b03..eb8526a 100644
--- a/src/cxx/misc.c
+++ b/src/cxx/misc.c
@@ -3036,7 +3036,13 @@ float MeanAngl_float
                 norm1 += v_diff[j][i] * v_diff[j][i];
                 norm2 += v_diff[j][i+1] * v_diff[j][i+1];
             }
-            tmp = acosf(product / (sqrtf(norm1) * sqrtf(norm2)));
+            /* rounding can push the cosine of parallel vectors beyond 1 */
+            tmp = product / (sqrtf(norm1) * sqrtf(norm2));
+            if (tmp > 1.0)
+                tmp = 1.0;
+            else if (tmp < -1.0)
+                tmp = -1.0;
+            tmp = acosf(tmp);
             angl_sum += (tmp * 180.0)/PI;
         }
         y = angl_sum/(i_count-1);
-- 
2.43.0


From 767f49359538967538f47551aba70c4f945ee23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:52 +0000
Subject: [PATCH 08/63] fix: do not fit the thermal band of a snow pixel
 without enough usable values

---
 src/cxx/cold.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/cxx/cold.c b/src/cxx/cold.c
index 3b2e784..9928f25 100644
--- a/src/cxx/cold.c
+++ b/src/cxx/cold.c
@@ -4970,12 +4970,20 @@ int inefficientobs_procedure
                     }
                  }
 
-                status = auto_ts_fit_float(clrx_band, clry, k, k, 0, i_span-1, MIN_NUM_C,
-                         fit_cft, &rmse[k], temp_v_dif);
+                if (i_span < MIN_NUM_C * N_TIMES){
+                    fit_cft[k][0] = 10000; // same fixed value as for the optical bands
+                    for(i = 1; i < MAX_NUM_C; i++)
+                        fit_cft[k][i] = 0;
+                }
+                else
+                {
+                    status = auto_ts_fit_float(clrx_band, clry, k, k, 0, i_span-1, MIN_NUM_C,
+                             fit_cft, &rmse[k], temp_v_dif);
 
-                if (status != SUCCESS)
-                    RETURN_ERROR ("Calling auto_ts_fit_float\n",
-                           FUNC_NAME, EXIT_FAILURE);
+                    if (status != SUCCESS)
+                        RETURN_ERROR ("Calling auto_ts_fit_float\n",
+                               FUNC_NAME, EXIT_FAILURE);
+                }
 
               }
         }
-- 
2.43.0


From 583c48c53ab5dd3c507da7ebab780339990b2db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:52 +0000
Subject: [PATCH 09/63] fix: compute the snow fraction used by the
 reconstruction fallback

---
 src/cxx/cold.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cxx/cold.c b/src/cxx/cold.c
index 9928f25..5db55df 100644
--- a/src/cxx/cold.c
+++ b/src/cxx/cold.c
@@ -5416,6 +5416,8 @@ int obcold_reconstruction_procedure
         RETURN_ERROR("Error for preprocessing.", FUNC_NAME, ERROR);
     }
 
+    sn_pct = (float) sn_sum/ (float) (sn_sum + clear_sum + 0.01);
+
     for (i = 0; i < valid_num_scenes; i++)
     {
         if ((fmask_buf[i] < 2) && (id_range[i] == 1))
-- 
2.43.0


From b037bc270a5e93850d07f4999b3c892514b1b41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:04 +0000
Subject: [PATCH 10/63] fix: return a defined index when a reconstructed pixel
 has no valid observation

---
 src/cxx/utilities.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxx/utilities.c b/src/cxx/utilities.c
index c416b4c..b0e1b02 100644
--- a/src/cxx/utilities.c
+++ b/src/cxx/utilities.c
@@ -1115,7 +1115,7 @@ int find_index_clrx
     int i;
     bool find_success = FALSE;
     int min_abs_diff = 9999999;
-    int minabsdiff_i_record ;
+    int minabsdiff_i_record = 0;
     for(i = 0; i < end; i++){
         if (clrx[i] == input_ordinal_date){
            find_success = TRUE;
-- 
2.43.0


From dc176335ecef86a49a1fddac0a945fa83b6b9237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:40 +0000
Subject: [PATCH 11/63] fix: resume standard monitoring from the saved window
 only, not from its unused slots

---
 src/cxx/s_ccd.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cxx/s_ccd.c b/src/cxx/s_ccd.c
index 82fd1f0..4af7542 100644
--- a/src/cxx/s_ccd.c
+++ b/src/cxx/s_ccd.c
@@ -77,6 +77,7 @@ int sccd(
     float min_rmse_float[TOTAL_IMAGE_BANDS_SCCD];
     int len_clrx; /* length of clrx  */
     int n_clr_record;
+    int n_saved; /* number of observations saved in the monitoring window */
     int valid_nrt_mode[] = {0, 1, 2, 3, 4, 5, 11, 12};
     bool isinvalid_nrtmode = TRUE;
     int arrLen = sizeof valid_nrt_mode / sizeof valid_nrt_mode[0];
@@ -165,7 +166,12 @@ int sccd(
     else if ((*nrt_mode == NRT_MONITOR_SNOW) | (*nrt_mode % 10 == NRT_MONITOR_STANDARD))
     {
         //  if monitor mode, will append output_nrtmodel default conse-1 obs
-        for (k = 0; k < DEFAULT_CONSE_SCCD; k++)
+        //  (the standard mode only fills the first conse slots)
+        if (*nrt_mode == NRT_MONITOR_SNOW)
+            n_saved = DEFAULT_CONSE_SCCD;
+        else
+            n_saved = conse;
+        for (k = 0; k < n_saved; k++)
         {
             for (i_b = 0; i_b < TOTAL_IMAGE_BANDS_SCCD; i_b++)
             {
-- 
2.43.0


From 11e70685330b38ee313c09b154b274835349bbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:40 +0000
Subject: [PATCH 12/63] fix: reject a window longer than the saved one in
 sccd_update as sccd_detect does

---
 src/python/pycold/_colds_cython.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/python/pycold/_colds_cython.pyx b/src/python/pycold/_colds_cython.pyx
index 221d473..f8f1ace 100644
--- a/src/python/pycold/_colds_cython.pyx
+++ b/src/python/pycold/_colds_cython.pyx
@@ -459,6 +459,9 @@ cpdef _sccd_update(sccd_pack,
             nrt_queue: obs queue if queue mode, empty if monitor mode
     """
 
+    if conse > DEFAULT_CONSE:
+        raise RuntimeError("The inputted conse is longer than the maximum conse for S-CCD: {}".format(DEFAULT_CONSE))
+
     cdef int valid_num_scenes = qas.shape[0]
     # allocate memory for rec_cg
     # cdef int num_fc = 0
-- 
2.43.0


From bf4d5741f2551b9edd784d01530d0be8f326ad25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:40 +0000
Subject: [PATCH 13/63] fix: do not write the new minimum rmse into the
 caller's saved state

---
 src/python/pycold/_colds_cython.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/_colds_cython.pyx b/src/python/pycold/_colds_cython.pyx
index f8f1ace..f3f3b42 100644
--- a/src/python/pycold/_colds_cython.pyx
+++ b/src/python/pycold/_colds_cython.pyx
@@ -490,7 +490,7 @@ cpdef _sccd_update(sccd_pack,
     else:
         nrt_model_new = np.empty(1, dtype=nrtmodel_dt)
 
-    min_rmse = sccd_pack.min_rmse
+    min_rmse = sccd_pack.min_rmse.copy()
 
     # memory view
     cdef Output_sccd [:] rec_cg_view = rec_cg_new
-- 
2.43.0


From 2eabd535db81bf10913d8b124ceddfa89648cc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:40 +0000
Subject: [PATCH 14/63] fix: keep the newest observations when the S-CCD queue
 is full

---
 src/cxx/s_ccd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxx/s_ccd.c b/src/cxx/s_ccd.c
index 4af7542..f563baf 100644
--- a/src/cxx/s_ccd.c
+++ b/src/cxx/s_ccd.c
@@ -2512,7 +2512,7 @@ int step3_processing_end(
         *num_obs_queue = *n_clr - prev_i_break;
         if (*num_obs_queue > MAX_OBS_QUEUE)
         {
-            istart_queue = *n_clr - 1 - MAX_OBS_QUEUE;
+            istart_queue = *n_clr - MAX_OBS_QUEUE;
             *num_obs_queue = MAX_OBS_QUEUE;
         }
         else
-- 
2.43.0


From 87a16c4a7805693b53bedb0e951b0687c9de67f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:40 +0000
Subject: [PATCH 15/63] fix: do not read past the series when a pinpoint break
 lies near its end

---
 src/cxx/s_ccd.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cxx/s_ccd.c b/src/cxx/s_ccd.c
index f563baf..b487a4f 100644
--- a/src/cxx/s_ccd.c
+++ b/src/cxx/s_ccd.c
@@ -1885,9 +1885,9 @@ int step2_KF_ChangeDetection(
                     {
                         for (i_b = 0; i_b < TOTAL_IMAGE_BANDS_SCCD; i_b++)
                         {
-                            rec_cg_pinpoint[current_pinpoint].obs[i_b][k] = (short int)clry[i_b][cur_i + k];
+                            rec_cg_pinpoint[current_pinpoint].obs[i_b][k] = (cur_i + k < *n_clr) ? (short int)clry[i_b][cur_i + k] : 0;
                         }
-                        rec_cg_pinpoint[current_pinpoint].obs_date_since1982[k] = (short int)(clrx[cur_i + k] - ORDINAL_LANDSAT4_LAUNCH);
+                        rec_cg_pinpoint[current_pinpoint].obs_date_since1982[k] = (cur_i + k < *n_clr) ? (short int)(clrx[cur_i + k] - ORDINAL_LANDSAT4_LAUNCH) : 0;
                     }
                     for (i_b = 0; i_b < TOTAL_IMAGE_BANDS_SCCD; i_b++)
                     {
-- 
2.43.0


From be84702b09a03a3d3ebf90f8ed494644350ae347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:08 +0000
Subject: [PATCH 16/63] fix: keep the window of the first S-CCD curve inside
 the series

---
 src/cxx/s_ccd.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cxx/s_ccd.c b/src/cxx/s_ccd.c
index b487a4f..0500464 100644
--- a/src/cxx/s_ccd.c
+++ b/src/cxx/s_ccd.c
@@ -1350,7 +1350,8 @@ int step1_cold_initialize(
             }
         }
 
-        ini_conse = conse;
+        // no observation before i_dense belongs to this curve
+        ini_conse = min(conse, *i_start - *i_dense);
 
         v_dif_magg = (float **)allocate_2d_array(TOTAL_IMAGE_BANDS_SCCD,
                                                  ini_conse, sizeof(float));
-- 
2.43.0


From 69e23b3d78f75f256c08b6ae4b4167a608657f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:08 +0000
Subject: [PATCH 17/63] fix: reject change-magnitude slots that do not cover
 the observations

---
 src/python/pycold/_colds_cython.pyx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/python/pycold/_colds_cython.pyx b/src/python/pycold/_colds_cython.pyx
index f3f3b42..65a5c62 100644
--- a/src/python/pycold/_colds_cython.pyx
+++ b/src/python/pycold/_colds_cython.pyx
@@ -192,8 +192,14 @@ cpdef _cold_detect(np.ndarray[np.int64_t, ndim=1, mode='c'] dates, np.ndarray[np
            cm_output_interval = 60
         if starting_date == 0:
            starting_date = dates[0]
+        if cm_output_interval < 0:
+           raise ValueError("cm_output_interval must not be negative, got {}".format(cm_output_interval))
+        if starting_date > dates[0]:
+           raise ValueError("starting_date {} is later than the first observation {} for pos = {}".format(starting_date, dates[0], pos))
         if n_cm == 0:
            n_cm = math.ceil((dates[valid_num_scenes-1] - starting_date + 1) / cm_output_interval) + 1
+        if (dates[valid_num_scenes-1] - starting_date) // cm_output_interval >= n_cm:
+           raise ValueError("n_cm {} is too small to cover the observations for pos = {}".format(n_cm, pos))
         cm_outputs = np.full(n_cm, -9999, dtype=np.short)
         cm_outputs_date = np.full(n_cm, -9999, dtype=np.short)
     # set the length to 1 to save memory, as they won't be assigned values
-- 
2.43.0


From e67fb8026574ca5846d7f165dbfe09a4a027a013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:35 +0000
Subject: [PATCH 18/63] fix: validate b_c2, b_monitor_init, cm_output_interval
 and the thermal band like the other arguments

---
 src/python/pycold/colds.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/python/pycold/colds.py b/src/python/pycold/colds.py
index 14bdd61..cd51da6 100644
--- a/src/python/pycold/colds.py
+++ b/src/python/pycold/colds.py
@@ -19,7 +19,10 @@ _parameter_constraints: dict = {
     "n_cm": [Interval(Integral, 0, None, closed="left")],
     "conse": [Interval(Integral, 0, 12, closed="neither")],
     "b_output_cm": ["boolean"],
+    "cm_output_interval": [Interval(Integral, 0, None, closed="left")],
+    "b_c2": ["boolean"],
     "gap_days": [Interval(Real, 0.0, None, closed="left")],
+    "b_monitor_init": ["boolean"],
     "b_pinpoint": ["boolean"],
     "gate_tcg": [Interval(Real, 0.0, None, closed="neither")],
     "predictability_tcg": [Interval(Real, 0.0, None, closed="neither")],
@@ -79,6 +82,7 @@ def _validate_data(dates, ts_b, ts_g, ts_r, ts_n, ts_s1, ts_s2, ts_t, qas, break
     check_1d(ts_n, "ts_n")
     check_1d(ts_s1, "ts_s1")
     check_1d(ts_s2, "ts_s2")
+    check_1d(ts_t, "ts_t")
     check_1d(qas, "qas")
     if break_dates is not None:
         check_1d(break_dates, "break_dates")
-- 
2.43.0


From 811c0f90bf651aa3def0ef2b7b00789bb07faba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:35 +0000
Subject: [PATCH 19/63] fix: sccd_identify reports no disturbance for a void
 pack instead of failing

---
 src/python/pycold/colds.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/python/pycold/colds.py b/src/python/pycold/colds.py
index cd51da6..839dfde 100644
--- a/src/python/pycold/colds.py
+++ b/src/python/pycold/colds.py
@@ -511,6 +511,7 @@ def sccd_identify(
         sccd_pack.nrt_mode == defaults["SCCD"]["NRT_MONITOR_SNOW"]
         or sccd_pack.nrt_mode == defaults["SCCD"]["NRT_QUEUE_SNOW"]
         or int(sccd_pack.nrt_mode / 10) == 1
+        or len(sccd_pack.nrt_model) == 0  # void: nothing was monitored yet
     ):
         return sccd_pack, 0
 
-- 
2.43.0


From fe132e21ef2ad841be844e7dc9c7ba08e94b6366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:24 +0000
Subject: [PATCH 20/63] fix: keep large and undefined change magnitudes from
 overflowing the integer conversion

---
 src/cxx/cold.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/cxx/cold.c b/src/cxx/cold.c
index 5db55df..59c0c94 100644
--- a/src/cxx/cold.c
+++ b/src/cxx/cold.c
@@ -321,7 +321,7 @@ int stand_procedure_fixeddays
     int pre_end;
     // short int tmp_max_prob = 0;
     short int tmp_CM = 0;
-    int tmp;
+    double tmp;
     int current_CM_n;
     float prob_angle; // change probability for angle
     int i_span_skip = 0;
@@ -1191,7 +1191,7 @@ int stand_procedure_fixeddays
                                 tmp = round(prob_angle * vec_magg_min * 100);
                                 if (tmp > MAX_SHORT) // MAX_SHORT is upper limit of short 16
                                     tmp = MAX_SHORT;
-                                tmp_CM = (short int) (tmp);
+                                tmp_CM = isnan(tmp) ? 0 : (short int) (tmp);  // a constant series has no direction
                                 if(tmp_CM > CM_outputs[current_CM_n])
                                 {
                                     CM_outputs[current_CM_n] = tmp_CM;
@@ -1960,7 +1960,7 @@ int stand_procedure_fixeddays
                     tmp = round(prob_angle * break_mag * 100);
                     if (tmp > MAX_SHORT) // MAX_SHORT is upper limit of short 16
                         tmp = MAX_SHORT;
-                    tmp_CM = (short int) (tmp);
+                    tmp_CM = isnan(tmp) ? 0 : (short int) (tmp);  // a constant series has no direction
 
                     /*********************************************/
                     /*      change direction by majority vote    */
@@ -2653,7 +2653,7 @@ int stand_procedure
     int pre_end;
     // short int tmp_max_prob = 0;
     short int tmp_CM = 0;
-    int tmp;
+    double tmp;
     int current_CM_n;
     float prob_angle; // change probability for angle
     int i_span_skip = 0;
@@ -3524,7 +3524,7 @@ int stand_procedure
                                 tmp = round(prob_angle * vec_magg_min * 100);
                                 if (tmp > MAX_SHORT) // MAX_SHORT is upper limit of short 16
                                     tmp = MAX_SHORT;
-                                tmp_CM = (short int) (tmp);
+                                tmp_CM = isnan(tmp) ? 0 : (short int) (tmp);  // a constant series has no direction
                                 if(tmp_CM > CM_outputs[current_CM_n])
                                 {
                                     /*********************************************/
@@ -4219,7 +4219,7 @@ int stand_procedure
                     tmp = round(prob_angle * break_mag * 100);
                     if (tmp > MAX_SHORT) // MAX_SHORT is upper limit of short 16
                         tmp = MAX_SHORT;
-                    tmp_CM = (short int) (tmp);
+                    tmp_CM = isnan(tmp) ? 0 : (short int) (tmp);  // a constant series has no direction
 
                     /*********************************************/
                     /*      change direction by majority vote    */
-- 
2.43.0


From 5d18d6963090eab3104fffdeeb32c5ba195eafdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:24 +0000
Subject: [PATCH 21/63] fix: saturate the S-CCD sum of squares and convert
 undefined change metrics explicitly

---
 src/cxx/s_ccd.c | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/src/cxx/s_ccd.c b/src/cxx/s_ccd.c
index 0500464..d3102e5 100644
--- a/src/cxx/s_ccd.c
+++ b/src/cxx/s_ccd.c
@@ -11,11 +11,27 @@
 #include "s_ccd.h"
 #include "distribution_math.h"
 #include <time.h>
+#include <limits.h>
 #define N_Columns 8
 #define Max_DOF 30
 
 int lasso_blist_sccd[NUM_LASSO_BANDS] = {1, 2, 3, 4, 5};
 
+/* add a squared residual to a stored sum; the sum stays at its largest value instead of wrapping */
+static unsigned int add_square(unsigned int sum, double residual)
+{
+    double total = (double)sum + residual * residual;
+    return total < (double)UINT_MAX ? (unsigned int)total : UINT_MAX;
+}
+
+/* short form of a change metric; the angle and magnitude of a constant series are undefined */
+static short int metric_short(float value)
+{
+    if (isnan(value))
+        return 0;
+    return (short int)(value > MAX_SHORT ? MAX_SHORT : value);
+}
+
 /******************************************************************************
 MODULE:  sccd_offline
 
@@ -486,7 +502,7 @@ int step1_ssm_initialize(
     {
         KF_ts_filter_regular(instance, clrx_extend, clry_extend, cov_p, fit_cft, i, i_b, &vt, FALSE);
         if (i > stable_nobs - 1)
-            *sum_square_vt = *sum_square_vt + (unsigned int)(vt * vt);
+            *sum_square_vt = add_square(*sum_square_vt, vt);
     }
 
     //    for(i = 0; i < stable_nobs + EXTEND_OBS; i++){
@@ -1880,8 +1896,8 @@ int step2_KF_ChangeDetection(
                         min_cm = MAX_SHORT;
                     if (mean_angle_pinpoint > MAX_SHORT)
                         mean_angle_pinpoint = MAX_SHORT;
-                    rec_cg_pinpoint[current_pinpoint].cm_angle[conse_last - 1] = (short int)mean_angle_pinpoint;
-                    rec_cg_pinpoint[current_pinpoint].norm_cm[conse_last - 1] = (short int)min_cm;
+                    rec_cg_pinpoint[current_pinpoint].cm_angle[conse_last - 1] = metric_short(mean_angle_pinpoint);
+                    rec_cg_pinpoint[current_pinpoint].norm_cm[conse_last - 1] = metric_short(min_cm);
                     for (k = 0; k < DEFAULT_CONSE_SCCD; k++)
                     {
                         for (i_b = 0; i_b < TOTAL_IMAGE_BANDS_SCCD; i_b++)
@@ -1973,11 +1989,11 @@ int step2_KF_ChangeDetection(
         tmp = (mean_angle * 100);
         if (tmp > MAX_SHORT)
             tmp = MAX_SHORT;
-        *mean_angle_scale100 = tmp;
+        *mean_angle_scale100 = metric_short(tmp);
         tmp = break_mag * 100;
         if (tmp > MAX_SHORT)
             tmp = MAX_SHORT;
-        *norm_cm_scale100 = tmp;
+        *norm_cm_scale100 = metric_short(tmp);
 
         for (i_b = 0; i_b < TOTAL_IMAGE_BANDS_SCCD; i_b++)
         {
@@ -2059,7 +2075,7 @@ int step2_KF_ChangeDetection(
         {
             KF_ts_filter_regular(&instance[i_b], clrx, clry[i_b], cov_p[i_b],
                                  fit_cft, cur_i, i_b, &vt, steady);
-            sum_square_vt[i_b] = sum_square_vt[i_b] + vt * vt;
+            sum_square_vt[i_b] = add_square(sum_square_vt[i_b], vt);
         }
         *num_obs_processed = *num_obs_processed + 1;
 
@@ -2439,7 +2455,7 @@ int step3_processing_end(
                         if (mean_angle_scale100 > MAX_SHORT)
                             mean_angle_scale100 = MAX_SHORT;
 
-                        nrt_model->norm_cm = (short int)(min_cm);
+                        nrt_model->norm_cm = metric_short(min_cm);
                         //                        for(i_b = 0; i_b < TOTAL_IMAGE_BANDS_SCCD; i_b++)
                         //                        {
                         //                            quick_sort_float(v_dif_mag_tmp[i_b], 0, conse_last - 1);
@@ -2448,7 +2464,7 @@ int step3_processing_end(
                         //                            nrt_model->cm_bands[i_b] = (short int) (tmp);
                         //                        }
                         nrt_model->conse_last = conse_last - 1; // meaning change happens in the last obs, so conse_last - 1
-                        nrt_model->cm_angle = (short int)mean_angle_scale100;
+                        nrt_model->cm_angle = metric_short(mean_angle_scale100);
                     }
 
                     status = free_2d_array((void **)v_diff_tmp);
@@ -2479,8 +2495,8 @@ int step3_processing_end(
                         if (mean_angle_scale100 > MAX_SHORT)
                             mean_angle_scale100 = MAX_SHORT;
 
-                        nrt_model->norm_cm = (short int)min_cm;
-                        nrt_model->cm_angle = (short int)mean_angle_scale100;
+                        nrt_model->norm_cm = metric_short(min_cm);
+                        nrt_model->cm_angle = metric_short(mean_angle_scale100);
                         //                        for(i_b = 0; i_b < TOTAL_IMAGE_BANDS_SCCD; i_b++)
                         //                        {
                         //                            quick_sort_float(v_dif_mag_tmp[i_b], 0, conse_last - 1);
@@ -3316,7 +3332,7 @@ int sccd_snow(
             for (i = 0; i < n_clr - DEFAULT_CONSE_SCCD; i++)
             {
                 KF_ts_filter_regular(&instance[i_b], clrx, clry[i_b], cov_p[i_b], fit_cft, i, i_b, &vt, FALSE);
-                sum_square_vt[i_b] = sum_square_vt[i_b] + (unsigned int)(vt * vt);
+                sum_square_vt[i_b] = add_square(sum_square_vt[i_b], vt);
             }
         }
     }
-- 
2.43.0


From 9d22f1e3984cdf007459541026c16a50e2d50fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:24 +0000
Subject: [PATCH 22/63] fix: reconstruct without breaks when the break list is
 empty

---
 src/python/pycold/_colds_cython.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/python/pycold/_colds_cython.pyx b/src/python/pycold/_colds_cython.pyx
index 65a5c62..f07a77b 100644
--- a/src/python/pycold/_colds_cython.pyx
+++ b/src/python/pycold/_colds_cython.pyx
@@ -260,6 +260,8 @@ cpdef _obcold_reconstruct(np.ndarray[np.int64_t, ndim=1, mode='c'] dates,
         change records: the COLD outputs that characterizes each temporal segment
     """
 
+    if break_dates.shape[0] == 0:
+        break_dates = np.zeros(1, dtype=np.int64)  # 0 means no break
     cdef int valid_num_scenes = qas.shape[0]
     cdef int break_date_len = break_dates.shape[0]
     # allocate memory for rec_cg
-- 
2.43.0


From d8f45c9ec38858aa6cdd2d71a9f1712c9d8c52a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:47 +0000
Subject: [PATCH 23/63] fix: reconstruct a missing Collection 2 thermal value
 as detection does

---
 src/cxx/cold.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cxx/cold.c b/src/cxx/cold.c
index 59c0c94..fc744b4 100644
--- a/src/cxx/cold.c
+++ b/src/cxx/cold.c
@@ -5444,7 +5444,12 @@ int obcold_reconstruction_procedure
                     else if (k == 5)
                         clry[k][n_clr] = (float)buf_s2[i];
                     else if (k == 6)
-                        clry[k][n_clr] = (float)(buf_t[i] * 10 - 27320);
+                    {
+                        if ((b_c2 == TRUE) && (buf_t[i] == 0))
+                            clry[k][n_clr] = 0;
+                        else
+                            clry[k][n_clr] = (float)(buf_t[i] * 10 - 27320);
+                    }
                     //printf("%3.2f\n", clry[k][n_clr]);
                 }
                 n_clr++;
-- 
2.43.0


From 26d664a0b14d5ba4a03726b6c3172ac6b15ddf3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:44 +0000
Subject: [PATCH 24/63] fix: return the documented pinpoint pack for a void
 pixel

---
 src/python/pycold/_colds_cython.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/_colds_cython.pyx b/src/python/pycold/_colds_cython.pyx
index f07a77b..c91b1e7 100644
--- a/src/python/pycold/_colds_cython.pyx
+++ b/src/python/pycold/_colds_cython.pyx
@@ -418,7 +418,7 @@ cpdef _sccd_detect(np.ndarray[np.int64_t, ndim=1, mode='c'] dates,
                                    SccdReccgPinpoint(pos, output_rec_cg_pinpoint)]
             elif nrt_mode == 0:  # void mode
                 return [SccdOutput(pos, np.array([]), min_rmse, nrt_mode, np.array([]),
-                                   np.array([])), output_rec_cg_pinpoint]
+                                   np.array([])), SccdReccgPinpoint(pos, output_rec_cg_pinpoint)]
             else:
                 raise RuntimeError("No correct nrt_mode (mode={}) returned for pos = {} ".format(nrt_mode, pos))
 
-- 
2.43.0


From 53e7c1f0cb0d1f7984200b5e4ae956146dad11b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:50 +0000
Subject: [PATCH 25/63] fix: locate the tail of the saved window for every
 window length in sccd_identify

---
 src/python/pycold/colds.py |  4 ++--
 src/python/pycold/utils.py | 20 ++++++++++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/python/pycold/colds.py b/src/python/pycold/colds.py
index 839dfde..afc8024 100644
--- a/src/python/pycold/colds.py
+++ b/src/python/pycold/colds.py
@@ -9,7 +9,7 @@ from ._param_validation import (
     check_consistent_length,
     check_1d,
 )
-from .utils import calculate_sccd_cm
+from .utils import calculate_sccd_cm, sccd_window_length
 from .app import defaults
 
 _parameter_constraints: dict = {
@@ -538,7 +538,7 @@ def sccd_identify(
             return (
                 sccd_pack,
                 sccd_pack.nrt_model[0]["obs_date_since1982"][
-                    defaults["SCCD"]["DEFAULT_CONSE"] - sccd_pack.nrt_model[0]["conse_last"]
+                    sccd_window_length(sccd_pack) - sccd_pack.nrt_model[0]["conse_last"]
                 ]
                 + defaults["COMMON"]["JULIAN_LANDSAT4_LAUNCH"],
             )
diff --git a/src/python/pycold/utils.py b/src/python/pycold/utils.py
index 2be7943..267c664 100644
--- a/src/python/pycold/utils.py
+++ b/src/python/pycold/utils.py
@@ -533,6 +533,21 @@ def generate_rowcolimage(ref_image_path, out_path):
     del ref_image
 
 
+def sccd_window_length(sccd_pack):
+    """
+    the number of observations saved in the monitoring window (the conse used for detection);
+    slots beyond the window have the date 0
+    Parameters
+    ----------
+    sccd_pack
+
+    Returns
+    -------
+    int
+    """
+    return int(np.count_nonzero(sccd_pack.nrt_model[0]["obs_date_since1982"]))
+
+
 def calculate_sccd_cm(sccd_pack):
     """
     Parameters
@@ -543,7 +558,8 @@ def calculate_sccd_cm(sccd_pack):
     -------
 
     """
-    start_index = defaults["SCCD"]["NRT_BAND"] - sccd_pack.nrt_model[0]["conse_last"]
+    n_window = sccd_window_length(sccd_pack)
+    start_index = n_window - sccd_pack.nrt_model[0]["conse_last"]
     pred_ref = np.asarray(
         [
             [
@@ -558,7 +574,7 @@ def calculate_sccd_cm(sccd_pack):
         ]
     )
     cm = (
-        sccd_pack.nrt_model[0]["obs"][:, start_index : defaults["SCCD"]["DEFAULT_CONSE"]] - pred_ref
+        sccd_pack.nrt_model[0]["obs"][:, start_index:n_window] - pred_ref
     )
     return np.median(cm, axis=1)
 
-- 
2.43.0


From c4167325f5b6df9a8c65a25fa9aa62f0408e01e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:12 +0000
Subject: [PATCH 26/63] fix: define the variogram of fewer than two
 observations for every band

---
 src/cxx/misc.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/cxx/misc.c b/src/cxx/misc.c
index eb8526a..87767ce 100644
--- a/src/cxx/misc.c
+++ b/src/cxx/misc.c
@@ -109,18 +109,21 @@ int adjust_median_variogram
        for(i = 0; i < dim1_len; i++)
        {
            output_array[i] = 0;
+       }
        *date_vario = 0;
+       *max_neighdate_diff = 0;
        return (SUCCESS);
-       }
     }
     if (dim2_len == 1)
     {
+        /* one observation has no neighbour to differ from */
         for (i = 0; i < dim1_len; i++)
         {
-            output_array[i] = array[i][dim2_start];
-            *date_vario = clrx[dim2_start];
-            return (SUCCESS);
+            output_array[i] = 0;
         }
+        *date_vario = clrx[dim2_start];
+        *max_neighdate_diff = 0;
+        return (SUCCESS);
     }
 
     var = (float*)malloc((dim2_len-1) * sizeof(float));
-- 
2.43.0


From c042e4a3619ae9a9daaa933a1e970786444852c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:22 +0000
Subject: [PATCH 27/63] fix: reject unordered dates in stochastic detection as
 in continuous detection

---
 src/cxx/s_ccd.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cxx/s_ccd.c b/src/cxx/s_ccd.c
index d3102e5..e112c0f 100644
--- a/src/cxx/s_ccd.c
+++ b/src/cxx/s_ccd.c
@@ -112,6 +112,14 @@ int sccd(
         RETURN_ERROR("Invalid nrt_mode", FUNC_NAME, ERROR);
     }
 
+    for (i = 0; i < valid_num_scenes - 1; i++)
+    {
+        if (valid_date_array[i] > valid_date_array[i + 1])
+        {
+            RETURN_ERROR("The inputted data does not follow an ascending order!", FUNC_NAME, ERROR);
+        }
+    }
+
     // mode update condition 1: replace NRT_MONITOR2QUEUE with NRT_QUEUE_STANDARD as input
     // if (*nrt_mode % 10 == NRT_MONITOR2QUEUE)
     //     *nrt_mode = 10 + NRT_QUEUE_STANDARD;
-- 
2.43.0


From 886a746f175c9cbd3d7b82b6a5937473f83d939e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:11 +0000
Subject: [PATCH 28/63] fix: assemble change-magnitude maps by the number of
 blocks per row in assemble_cmmaps

---
 src/python/pycold/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/utils.py b/src/python/pycold/utils.py
index 267c664..6b7cdf0 100644
--- a/src/python/pycold/utils.py
+++ b/src/python/pycold/utils.py
@@ -124,7 +124,7 @@ def assemble_cmmaps(
     ]
     for iblock in range(dataset_info.nblocks):
         current_block_y = int(np.floor(iblock / dataset_info.n_block_x)) + 1
-        current_block_x = iblock % dataset_info.n_block_y + 1
+        current_block_x = iblock % dataset_info.n_block_x + 1
         try:
             cm_block = np.load(
                 join(result_path, "{}_x{}_y{}.npy".format(prefix, current_block_x, current_block_y))
-- 
2.43.0


From ccd385d3210c704e3ab75be4aa43876a6f56d6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:11 +0000
Subject: [PATCH 29/63] fix: leave the fill value where the CM file of a block
 is missing

---
 src/python/pycold/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/utils.py b/src/python/pycold/utils.py
index 6b7cdf0..c65ad61 100644
--- a/src/python/pycold/utils.py
+++ b/src/python/pycold/utils.py
@@ -131,7 +131,7 @@ def assemble_cmmaps(
             ).astype(output_type)
         except OSError as e:
             print("Reading CM files fails: {}".format(e))
-        #    continue
+            continue
 
         # if prefix == "CM_date":
         #    cm_block_copy = cm_block.copy()
-- 
2.43.0


From 9828968078753b18dd85b6751f4f1e043afe2302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:11 +0000
Subject: [PATCH 30/63] fix: split assembled blocks by rows of blocks in
 assemble_array

---
 src/python/pycold/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/utils.py b/src/python/pycold/utils.py
index c65ad61..f18f85b 100644
--- a/src/python/pycold/utils.py
+++ b/src/python/pycold/utils.py
@@ -312,7 +312,7 @@ def assemble_array(array_list, n_block_x):
     """
     full_feature_array = np.hstack(array_list)
     full_feature_array = np.vstack(
-        np.hsplit(full_feature_array, n_block_x)
+        np.hsplit(full_feature_array, len(array_list) // n_block_x)
     )  # (nrows, ncols, nfeatures)
     return full_feature_array
 
-- 
2.43.0


From 0647870563485cd9b8fb93afa526a0547fecc121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:11 +0000
Subject: [PATCH 31/63] fix: create the row-column image with its own width and
 height

---
 src/python/pycold/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/utils.py b/src/python/pycold/utils.py
index f18f85b..f9a4768 100644
--- a/src/python/pycold/utils.py
+++ b/src/python/pycold/utils.py
@@ -523,7 +523,7 @@ def generate_rowcolimage(ref_image_path, out_path):
     index = (i + 1) * 10000 + j + 1
 
     outdriver1 = gdal.GetDriverByName("GTiff")
-    outdata = outdriver1.Create(out_path, rows, cols, 1, gdal.GDT_Int32)
+    outdata = outdriver1.Create(out_path, cols, rows, 1, gdal.GDT_Int32)
     outdata.GetRasterBand(1).WriteArray(index)
     outdata.FlushCache()
     outdata.SetGeoTransform(trans)
-- 
2.43.0


From f7e7c1a6bd00e29877dc170cd5f03602dbbd809c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:11 +0000
Subject: [PATCH 32/63] fix: save classification maps in the requested
 output_path

---
 src/python/pycold/pyclassifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/pyclassifier.py b/src/python/pycold/pyclassifier.py
index 010b10f..21b0ba7 100644
--- a/src/python/pycold/pyclassifier.py
+++ b/src/python/pycold/pyclassifier.py
@@ -364,7 +364,7 @@ class PyClassifierHPC(PyClassifier):
         if output_path is None:
             self.output_path = join(record_path, "feature_maps")  # default path
         else:
-            self.output_path = self.tmp_path
+            self.output_path = output_path
 
         self.n_features = band_num * len(feature_outputs)
 
-- 
2.43.0


From 1e537be1c7afd3c5cd1ea28484b6bee593bf9617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:11 +0000
Subject: [PATCH 33/63] fix: do not count unlabelled pixels (0) as the last
 land-cover category

---
 src/python/pycold/pyclassifier.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/pycold/pyclassifier.py b/src/python/pycold/pyclassifier.py
index 21b0ba7..adc4177 100644
--- a/src/python/pycold/pyclassifier.py
+++ b/src/python/pycold/pyclassifier.py
@@ -113,7 +113,8 @@ def generate_sample_num(label, sample_parameters):
 
     """
     unique_category, unique_counts_category = np.unique(
-        label[label <= sample_parameters["total_landcover_category"]], return_counts=True
+        label[(label >= 1) & (label <= sample_parameters["total_landcover_category"])],
+        return_counts=True,
     )
     counts_category = np.array([0] * sample_parameters["total_landcover_category"])
     for x in range(len(unique_counts_category)):
-- 
2.43.0


From 37e7725b5f8fae4f4c9cf9c05da3b80b002b70f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:33 +0000
Subject: [PATCH 34/63] fix: read a block's stack with the block's own size in
 reconstruct_reccg

---
 src/python/pycold/ob_analyst.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/python/pycold/ob_analyst.py b/src/python/pycold/ob_analyst.py
index 7cb1b7b..6bca1fc 100644
--- a/src/python/pycold/ob_analyst.py
+++ b/src/python/pycold/ob_analyst.py
@@ -1106,7 +1106,9 @@ class ObjectAnalystHPC:
         if img_stack is None and img_dates_sorted is None:
             block_folder = join(self.stack_path, "block_x{}_y{}".format(block_x, block_y))
             img_stack, img_dates_sorted = read_blockdata(
-                block_folder, self.dataset_info.n_cols * self.dataset_info.n_rows, self.band_num + 1
+                block_folder,
+                self.dataset_info.block_width * self.dataset_info.block_height,
+                self.band_num + 1,
             )
         obia_breaks = self.get_allobiaresult_asarray(block_x, block_y)
         result_collect = []
-- 
2.43.0


From 80a4685d0304f7990f0df07b5b3b2b37df88d51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:33 +0000
Subject: [PATCH 35/63] fix: keep the dimension of the mode in mode_median_by
 as modeby does

---
 src/python/pycold/ob_analyst.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/ob_analyst.py b/src/python/pycold/ob_analyst.py
index 6bca1fc..506309c 100644
--- a/src/python/pycold/ob_analyst.py
+++ b/src/python/pycold/ob_analyst.py
@@ -267,7 +267,7 @@ def mode_median_by(input_array_mode, input_array_median, index_array):
     # Split input array with those start, stop ones
     split_mode = [a1_sorted[i:j] for i, j in zip(cut_idx[:-1], cut_idx[1:])]
     split_median = [a2_sorted[i:j] for i, j in zip(cut_idx[:-1], cut_idx[1:])]
-    mode_list = [stats.mode(x)[0][0] for x in split_mode]
+    mode_list = [stats.mode(x, keepdims=True)[0][0] for x in split_mode]
     median_list = [np.median(x[~np.isnan(x)]) for x in split_median]
     return mode_list, median_list
 
-- 
2.43.0


From a2c87b8034acb482ce11a39dfb4c8a151cc0448b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:33 +0000
Subject: [PATCH 36/63] fix: hand the requested floodfill_ratio to the
 segmentation in obia_execute

---
 src/python/pycold/ob_analyst.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/pycold/ob_analyst.py b/src/python/pycold/ob_analyst.py
index 506309c..cf064c4 100644
--- a/src/python/pycold/ob_analyst.py
+++ b/src/python/pycold/ob_analyst.py
@@ -930,7 +930,8 @@ class ObjectAnalystHPC:
                             cmname_fromdate(date - cm_output_interval) + ".npy",
                         )
                     ),
-                    date_array_last
+                    date_array_last,
+                    floodfill_ratio=floodfill_ratio,
                 )
             elif method == "slic":
                 [object_map_s1, cm_date_array_updated, object_map_s2, s1_info] = segmentation_slic(
-- 
2.43.0


From 6d9643bfa828e353e4fb83983c77f4c8d1e4b738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:33 +0000
Subject: [PATCH 37/63] fix: reconstruct with the same thermal-band rule (b_c2)
 as the detection of the tile

---
 src/python/pycold/imagetool/tile_processing.py | 1 +
 src/python/pycold/ob_analyst.py                | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/src/python/pycold/imagetool/tile_processing.py b/src/python/pycold/imagetool/tile_processing.py
index 184cd8d..4102172 100644
--- a/src/python/pycold/imagetool/tile_processing.py
+++ b/src/python/pycold/imagetool/tile_processing.py
@@ -737,6 +737,7 @@ def main(
                 img_stack=img_tstack,
                 img_dates_sorted=img_dates_sorted,
                 conse=conse,
+                b_c2=b_c2,
             )
             ob_analyst.save_obcoldrecords(block_id=block_id, result_collect=result_collect)
 
diff --git a/src/python/pycold/ob_analyst.py b/src/python/pycold/ob_analyst.py
index cf064c4..bf1f75e 100644
--- a/src/python/pycold/ob_analyst.py
+++ b/src/python/pycold/ob_analyst.py
@@ -1081,6 +1081,7 @@ class ObjectAnalystHPC:
         img_dates_sorted: Optional[np.ndarray] = None,
         logger: Optional[Logger] = None,
         conse: int = 6,
+        b_c2: bool = False,
     ) -> Union[List[Any], None]:
         """
         the third step of OBCOLD, it reconstructs the new temporal segment based on the new spatially adjusted break
@@ -1089,6 +1090,7 @@ class ObjectAnalystHPC:
             img_stack: time series block-based dataset
             img_dates_sorted: the new break dates from obiaresult_{}.npy
             logger: logger handle
+            b_c2: indicate if it is c2 or hls (thermal bands are not considered for observation selection)
         Returns:
             change records
         """
@@ -1133,6 +1135,7 @@ class ObjectAnalystHPC:
                     img_stack[pos, 7, :].astype(np.int64),
                     obia_breaks[:, pos].astype(np.int64),
                     conse=conse,
+                    b_c2=b_c2,
                     pos=self.dataset_info.n_cols * (original_row - 1) + original_col,
                 )
             except RuntimeError:
-- 
2.43.0


From 5539e8870e77d722c050096f82e55e95b1c1f550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:54 +0000
Subject: [PATCH 38/63] fix: reconstruct from the images within the requested
 date bounds as detection does

---
 src/python/pycold/imagetool/tile_processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/imagetool/tile_processing.py b/src/python/pycold/imagetool/tile_processing.py
index 4102172..8948cc5 100644
--- a/src/python/pycold/imagetool/tile_processing.py
+++ b/src/python/pycold/imagetool/tile_processing.py
@@ -730,7 +730,7 @@ def main(
             block_y = int((block_id - 1) / dataset_info.n_block_x) + 1
             block_x = int((block_id - 1) % dataset_info.n_block_x) + 1
             img_tstack, img_dates_sorted = get_stack_date(
-                dataset_info, block_x, block_y, stack_path
+                dataset_info, block_x, block_y, stack_path, low_datebound, upper_datebound
             )
             result_collect = ob_analyst.reconstruct_reccg(
                 block_id=block_id,
-- 
2.43.0


From c35281c45f29dd3c26598a941c4f25a99999192e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:54 +0000
Subject: [PATCH 39/63] fix: a block without images or without any record does
 not stop the reconstruction of a tile

---
 src/python/pycold/imagetool/tile_processing.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/python/pycold/imagetool/tile_processing.py b/src/python/pycold/imagetool/tile_processing.py
index 8948cc5..473eb77 100644
--- a/src/python/pycold/imagetool/tile_processing.py
+++ b/src/python/pycold/imagetool/tile_processing.py
@@ -732,6 +732,8 @@ def main(
             img_tstack, img_dates_sorted = get_stack_date(
                 dataset_info, block_x, block_y, stack_path, low_datebound, upper_datebound
             )
+            if img_tstack is None:  # empty block
+                continue
             result_collect = ob_analyst.reconstruct_reccg(
                 block_id=block_id,
                 img_stack=img_tstack,
@@ -739,7 +741,8 @@ def main(
                 conse=conse,
                 b_c2=b_c2,
             )
-            ob_analyst.save_obcoldrecords(block_id=block_id, result_collect=result_collect)
+            if len(result_collect) > 0:
+                ob_analyst.save_obcoldrecords(block_id=block_id, result_collect=result_collect)
 
     if rank == 1:
         # tile_based report
-- 
2.43.0


From c67f44911a2df148fa323ee9a37354f7281e96b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:54 +0000
Subject: [PATCH 40/63] fix: a block without images within the date bounds is
 an empty block

---
 src/python/pycold/imagetool/tile_processing.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/python/pycold/imagetool/tile_processing.py b/src/python/pycold/imagetool/tile_processing.py
index 473eb77..5a58f1b 100644
--- a/src/python/pycold/imagetool/tile_processing.py
+++ b/src/python/pycold/imagetool/tile_processing.py
@@ -238,15 +238,13 @@ def get_stack_date(
         )
         for folder_name in img_files
     ]
+    files_date_zip = sorted(zip(img_dates, img_files))
     if low_datebound > 0:
-        img_dates, img_files = zip(
-            *filter(lambda x: x[0] >= low_datebound, zip(img_dates, img_files))
-        )
+        files_date_zip = [x for x in files_date_zip if x[0] >= low_datebound]
     if high_datebound > 0:
-        img_dates, img_files = zip(
-            *filter(lambda x: x[0] <= high_datebound, zip(img_dates, img_files))
-        )
-    files_date_zip = sorted(zip(img_dates, img_files))
+        files_date_zip = [x for x in files_date_zip if x[0] <= high_datebound]
+    if len(files_date_zip) == 0:
+        return None, None
     img_files_sorted = [x[1] for x in files_date_zip]
     img_dates_sorted = np.asarray([x[0] for x in files_date_zip])
     img_tstack = np.dstack(
-- 
2.43.0


From b462b29a4136e223cc4955751226a1130a498d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:54 +0000
Subject: [PATCH 41/63] fix: report a failed pixel instead of stopping the
 worker

---
 src/python/pycold/imagetool/tile_processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/imagetool/tile_processing.py b/src/python/pycold/imagetool/tile_processing.py
index 5a58f1b..120222b 100644
--- a/src/python/pycold/imagetool/tile_processing.py
+++ b/src/python/pycold/imagetool/tile_processing.py
@@ -532,7 +532,7 @@ def main(
                             "COLD fails at original_row {}, original_col {} ({})".format(
                                 original_row,
                                 original_col,
-                                datetime.now.strftime("%Y-%m-%d %H:%M:%S"),
+                                datetime.now(TZ).strftime("%Y-%m-%d %H:%M:%S"),
                             )
                         )
                     except Exception:
-- 
2.43.0


From e4dd6cc6cbcf13b1ed977170af78ed712d13fb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:54 +0000
Subject: [PATCH 42/63] fix: a failed pixel gets fill change magnitudes, not
 those of the pixel before it

---
 src/python/pycold/imagetool/tile_processing.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/python/pycold/imagetool/tile_processing.py b/src/python/pycold/imagetool/tile_processing.py
index 120222b..efb2c0b 100644
--- a/src/python/pycold/imagetool/tile_processing.py
+++ b/src/python/pycold/imagetool/tile_processing.py
@@ -491,6 +491,9 @@ def main(
                     original_row, original_col = get_rowcol_intile(
                         pos, dataset_info.block_width, dataset_info.block_height, block_x, block_y
                     )
+                    if method == "OBCOLD":  # fill values if the pixel fails
+                        CM = np.full(n_cm_maps, -9999, dtype=np.short)
+                        CM_date = np.full(n_cm_maps, -9999, dtype=np.short)
                     try:
                         if method == "OBCOLD":
                             [cold_result, CM, CM_date] = cold_detect(
@@ -536,9 +539,7 @@ def main(
                             )
                         )
                     except Exception:
-                        if method == "OBCOLD":
-                            CM = np.full(n_cm_maps, -9999, dtype=np.short)
-                            CM_date = np.full(n_cm_maps, -9999, dtype=np.short)
+                        pass
                     else:
                         result_collect.append(cold_result)
                     finally:
-- 
2.43.0


From 18b0bec1db894c23fe12866fb6d32cb9c8c2cb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:54 +0000
Subject: [PATCH 43/63] fix: assemble the change dates also when fewer than 16
 cores are used

---
 src/python/pycold/imagetool/tile_processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/imagetool/tile_processing.py b/src/python/pycold/imagetool/tile_processing.py
index efb2c0b..e1faa7d 100644
--- a/src/python/pycold/imagetool/tile_processing.py
+++ b/src/python/pycold/imagetool/tile_processing.py
@@ -632,7 +632,7 @@ def main(
                     cm_output_interval,
                     clean=False,
                 )
-            if rank == 16:
+            if rank == min(n_cores, 16):
                 assemble_cmmaps(
                     dataset_info,
                     result_path,
-- 
2.43.0


From e0d6b960401587a495ffdeea0d32dc0641b62be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:54 +0000
Subject: [PATCH 44/63] fix: create the result folders in whichever worker
 starts first

---
 src/python/pycold/imagetool/tile_processing.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/python/pycold/imagetool/tile_processing.py b/src/python/pycold/imagetool/tile_processing.py
index e1faa7d..4751b21 100644
--- a/src/python/pycold/imagetool/tile_processing.py
+++ b/src/python/pycold/imagetool/tile_processing.py
@@ -368,13 +368,11 @@ def main(
             print("reading start dates errors: {}".format(start_time.strftime("%Y-%m-%d %H:%M:%S")))
             exit()
 
-    # logging and folder preparation
+    # logging and folder preparation (workers may start in any order)
+    os.makedirs(result_path, exist_ok=True)
+    if method == "OBCOLD":
+        os.makedirs(join(result_path, "cm_maps"), exist_ok=True)
     if rank == 1:
-        if not os.path.exists(result_path):
-            os.makedirs(result_path)
-        if method == "OBCOLD":
-            if not os.path.exists(join(result_path, "cm_maps")):
-                os.makedirs(join(result_path, "cm_maps"))
         print(
             "The per-pixel time series processing begins: {}".format(
                 start_time.strftime("%Y-%m-%d %H:%M:%S")
-- 
2.43.0


From eaa6006ff2988a9e7be9cec4b7badc5db833bf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:10 +0000
Subject: [PATCH 45/63] fix: publish maps and the classification model only
 when they are completely written

---
 src/python/pycold/pyclassifier.py | 16 +++++++++++++---
 src/python/pycold/utils.py        | 17 ++++++++++++++++-
 2 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/python/pycold/pyclassifier.py b/src/python/pycold/pyclassifier.py
index adc4177..f810524 100644
--- a/src/python/pycold/pyclassifier.py
+++ b/src/python/pycold/pyclassifier.py
@@ -12,7 +12,14 @@ from sklearn.ensemble import RandomForestClassifier
 from osgeo import gdal_array
 from typing import Optional
 from pycold.app import defaults
-from pycold.utils import get_block_y, get_block_x, get_col_index, get_row_index, assemble_array
+from pycold.utils import (
+    get_block_y,
+    get_block_x,
+    get_col_index,
+    get_row_index,
+    assemble_array,
+    save_array,
+)
 from pycold.common import DatasetInfo
 
 
@@ -440,7 +447,10 @@ class PyClassifierHPC(PyClassifier):
 
     @staticmethod
     def _save_rf_model(rf_model, rf_path):
-        joblib.dump(rf_model, rf_path, compress=3)
+        # the existence of the file tells the other workers that the model is complete
+        tmp_path = "{}.tmp{}".format(os.fspath(rf_path), os.getpid())
+        joblib.dump(rf_model, tmp_path, compress=3)
+        os.replace(tmp_path, rf_path)
 
     def _is_finished_step2_train_rfmodel(self):
         return exists(self.rf_path)
@@ -466,7 +476,7 @@ class PyClassifierHPC(PyClassifier):
         return True
 
     def _save_covermaps(self, full_yearlyclass_array, year):
-        np.save(
+        save_array(
             join(self.output_path, "yearlyclassification_{}.npy".format(year)),
             full_yearlyclass_array,
         )
diff --git a/src/python/pycold/utils.py b/src/python/pycold/utils.py
index f9a4768..6446e72 100644
--- a/src/python/pycold/utils.py
+++ b/src/python/pycold/utils.py
@@ -70,6 +70,21 @@ def get_row_index(pos, n_cols, current_block_y, block_height):
     return int((pos - 1) / n_cols) - (current_block_y - 1) * block_height
 
 
+def save_array(path, array):
+    """
+    save an array so that the file only appears when it is complete; other workers, or a restart after
+    an interruption, take its existence as the sign that it is finished
+    Parameters
+    ----------
+    path: string
+    array
+    """
+    tmp_path = "{}.tmp{}".format(path, os.getpid())
+    with open(tmp_path, "wb") as f:
+        np.save(f, array)
+    os.replace(tmp_path, path)
+
+
 def assemble_cmmaps(
     dataset_info: DatasetInfo,
     result_path: str,
@@ -165,7 +180,7 @@ def assemble_cmmaps(
                 get_doy(ordinal_date),
             ),
         )
-        np.save(outfile, cm_map)
+        save_array(outfile, cm_map)
 
     if clean is True:
         tmp_filenames = [file for file in os.listdir(result_path) if file.startswith(prefix + "_x")]
-- 
2.43.0


From 59e3092dab7fff194c85f156ad4ff921931cbb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:10 +0000
Subject: [PATCH 46/63] fix: process every block when the tile script runs with
 its default rank

---
 src/python/pycold/imagetool/tile_processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/imagetool/tile_processing.py b/src/python/pycold/imagetool/tile_processing.py
index 4751b21..dab318d 100644
--- a/src/python/pycold/imagetool/tile_processing.py
+++ b/src/python/pycold/imagetool/tile_processing.py
@@ -259,7 +259,7 @@ def get_stack_date(
 
 
 @click.command()
-@click.option("--rank", type=int, default=0, help="the rank id")
+@click.option("--rank", type=int, default=1, help="the rank id (from 1 to n_cores)")
 @click.option("--n_cores", type=int, default=1, help="the total cores assigned")
 @click.option("--stack_path", type=str, help="the path for stack data")
 @click.option("--result_path", type=str, help="the path for storing results")
-- 
2.43.0


From b9b218c7c5a9dd817e6e4ff48cf2c9d985814bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:30 +0000
Subject: [PATCH 47/63] fix: export reads the current layout of the saved
 monitoring state

---
 src/python/pycold/imagetool/export_change_map.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/python/pycold/imagetool/export_change_map.py b/src/python/pycold/imagetool/export_change_map.py
index a6c5353..e91ee8d 100644
--- a/src/python/pycold/imagetool/export_change_map.py
+++ b/src/python/pycold/imagetool/export_change_map.py
@@ -32,14 +32,15 @@ output_nrtmodel = np.dtype(
     [
         ("t_start_since1982", np.short),
         ("num_obs", np.short),
-        ("obs", np.short, (6, 5)),
-        ("obs_date_since1982", np.short, 5),
+        ("obs", np.short, (6, 8)),
+        ("obs_date_since1982", np.short, 8),
         ("covariance", np.float32, (6, 36)),
-        ("nrt_coefPs", np.float32, (6, 6)),
+        ("nrt_coefs", np.float32, (6, 6)),
         ("H", np.float32, 6),
         ("rmse_sum", np.uint32, 6),
-        ("cm_outputs", np.short),
-        ("cm_outputs_date", np.short),
+        ("norm_cm", np.short),
+        ("cm_angle", np.short),
+        ("conse_last", np.ubyte),
     ],
     align=True,
 )
-- 
2.43.0


From 15a6c14ffa9b5ff5878007e505a5fa68de15bedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:30 +0000
Subject: [PATCH 48/63] fix: judge a pixel's break by its own segments only and
 keep the break of the last record of a block

---
 src/python/pycold/imagetool/export_change_map.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/python/pycold/imagetool/export_change_map.py b/src/python/pycold/imagetool/export_change_map.py
index e91ee8d..08ca10a 100644
--- a/src/python/pycold/imagetool/export_change_map.py
+++ b/src/python/pycold/imagetool/export_change_map.py
@@ -199,7 +199,9 @@ def getcategory_cold(cold_plot, i_curve):
         and cold_plot[i_curve]["magnitude"][4] < -t_c
     ):
         if (
-            cold_plot[i_curve + 1]["coefs"][3, 1] > np.abs(cold_plot[i_curve]["coefs"][3, 1])
+            i_curve + 1 < len(cold_plot)
+            and cold_plot[i_curve + 1]["pos"] == cold_plot[i_curve]["pos"]
+            and cold_plot[i_curve + 1]["coefs"][3, 1] > np.abs(cold_plot[i_curve]["coefs"][3, 1])
             and cold_plot[i_curve + 1]["coefs"][2, 1] < -np.abs(cold_plot[i_curve]["coefs"][2, 1])
             and cold_plot[i_curve + 1]["coefs"][4, 1] < -np.abs(cold_plot[i_curve]["coefs"][4, 1])
         ):
@@ -218,7 +220,9 @@ def getcategory_obcold(cold_plot, i_curve, last_dist_type):
         and cold_plot[i_curve]["magnitude"][4] < -t_c
     ):
         if (
-            cold_plot[i_curve + 1]["coefs"][3, 1] > np.abs(cold_plot[i_curve]["coefs"][3, 1])
+            i_curve + 1 < len(cold_plot)
+            and cold_plot[i_curve + 1]["pos"] == cold_plot[i_curve]["pos"]
+            and cold_plot[i_curve + 1]["coefs"][3, 1] > np.abs(cold_plot[i_curve]["coefs"][3, 1])
             and cold_plot[i_curve + 1]["coefs"][2, 1] < -np.abs(cold_plot[i_curve]["coefs"][2, 1])
             and cold_plot[i_curve + 1]["coefs"][4, 1] < -np.abs(cold_plot[i_curve]["coefs"][4, 1])
         ):
@@ -494,11 +498,7 @@ def main(
                     current_processing_pos = curve["pos"]
                     current_dist_type = 0
 
-                if (
-                    curve["change_prob"] < 100
-                    or curve["t_break"] == 0
-                    or count == (len(cold_block) - 1)
-                ):  # last segment
+                if curve["change_prob"] < 100 or curve["t_break"] == 0:  # last segment
                     continue
 
                 i_col = (
-- 
2.43.0


From caef78b3223beab55b5d0b69f708aa0912957072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:30 +0000
Subject: [PATCH 49/63] fix: keep the breaks of the last pixel of a block in
 stochastic change maps

---
 src/python/pycold/imagetool/export_change_map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/imagetool/export_change_map.py b/src/python/pycold/imagetool/export_change_map.py
index 08ca10a..e521509 100644
--- a/src/python/pycold/imagetool/export_change_map.py
+++ b/src/python/pycold/imagetool/export_change_map.py
@@ -457,7 +457,7 @@ def main(
         if method == "SCCDOFFLINE":
             for count, plot in enumerate(cold_block):
                 for i_count, curve in enumerate(plot.rec_cg):
-                    if curve["t_break"] == 0 or count == (len(cold_block) - 1):  # last segment
+                    if curve["t_break"] == 0:  # last segment
                         continue
 
                     i_col = (
-- 
2.43.0


From 7f39da5b50807b07d56aff5f774da148cea6c95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:30 +0000
Subject: [PATCH 50/63] fix: save the per-block maps of the stochastic method
 too

---
 .../pycold/imagetool/export_change_map.py      | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/python/pycold/imagetool/export_change_map.py b/src/python/pycold/imagetool/export_change_map.py
index e521509..0f73973 100644
--- a/src/python/pycold/imagetool/export_change_map.py
+++ b/src/python/pycold/imagetool/export_change_map.py
@@ -557,15 +557,15 @@ def main(
                                 :
                             ] = feature_row[index]
 
-            # save the temp dataset out
-            for year in range(year_lowbound, year_uppbound + 1):
-                outfile = os.path.join(out_path, "tmp_map_block{}_{}.npy".format(iblock + 1, year))
-                np.save(outfile, results_block[year - year_lowbound])
-                if coefs is not None:
-                    outfile = os.path.join(
-                        out_path, "tmp_coefmap_block{}_{}.npy".format(iblock + 1, year)
-                    )
-                    np.save(outfile, results_block_coefs[:, :, :, year - year_lowbound])
+        # save the temp dataset out
+        for year in range(year_lowbound, year_uppbound + 1):
+            outfile = os.path.join(out_path, "tmp_map_block{}_{}.npy".format(iblock + 1, year))
+            np.save(outfile, results_block[year - year_lowbound])
+            if coefs is not None:
+                outfile = os.path.join(
+                    out_path, "tmp_coefmap_block{}_{}.npy".format(iblock + 1, year)
+                )
+                np.save(outfile, results_block_coefs[:, :, :, year - year_lowbound])
 
     # wait for all processes
     comm.Barrier()
-- 
2.43.0


From e4741596d9770a5dfc4c91da346d9b0c07ca340b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:30 +0000
Subject: [PATCH 51/63] fix: a missing block gets fill coefficients instead of
 stopping the export

---
 src/python/pycold/imagetool/export_change_map.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/python/pycold/imagetool/export_change_map.py b/src/python/pycold/imagetool/export_change_map.py
index 0f73973..0ec0e27 100644
--- a/src/python/pycold/imagetool/export_change_map.py
+++ b/src/python/pycold/imagetool/export_change_map.py
@@ -435,6 +435,11 @@ def main(
             for year in range(year_lowbound, year_uppbound + 1):
                 outfile = os.path.join(out_path, "tmp_map_block{}_{}.npy".format(iblock + 1, year))
                 np.save(outfile, results_block[year - year_lowbound])
+                if coefs is not None:
+                    outfile = os.path.join(
+                        out_path, "tmp_coefmap_block{}_{}.npy".format(iblock + 1, year)
+                    )
+                    np.save(outfile, results_block_coefs[:, :, :, year - year_lowbound])
             continue
         if method == "SCCDOFFLINE":
             file = open(os.path.join(reccg_path, filename), "rb")
-- 
2.43.0


From 9af1f5f589962604cbc7bce7584e151cc3b4e922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:30 +0000
Subject: [PATCH 52/63] fix: export rasters with the tile's own width and
 height

---
 src/python/pycold/imagetool/export_change_map.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/python/pycold/imagetool/export_change_map.py b/src/python/pycold/imagetool/export_change_map.py
index 0ec0e27..7f05a9b 100644
--- a/src/python/pycold/imagetool/export_change_map.py
+++ b/src/python/pycold/imagetool/export_change_map.py
@@ -592,7 +592,7 @@ def main(
             outname = "{}_{}.tif".format(mode_string, method)
             outfile = os.path.join(out_path, outname)
             outdriver1 = gdal.GetDriverByName("GTiff")
-            outdata = outdriver1.Create(outfile, rows, cols, 1, gdal.GDT_Int16)
+            outdata = outdriver1.Create(outfile, cols, rows, 1, gdal.GDT_Int16)
             outdata.GetRasterBand(1).WriteArray(results)
             outdata.FlushCache()
             outdata.SetGeoTransform(trans)
@@ -618,7 +618,7 @@ def main(
                         outname = "{}_{}_{}_{}.tif".format(mode_string, method, band_name, coef)
                         outfile = os.path.join(out_path, outname)
                         outdriver1 = gdal.GetDriverByName("GTiff")
-                        outdata = outdriver1.Create(outfile, rows, cols, 1, gdal.GDT_Float32)
+                        outdata = outdriver1.Create(outfile, cols, rows, 1, gdal.GDT_Float32)
                         outdata.GetRasterBand(1).WriteArray(results[:, :, ninput])
                         outdata.FlushCache()
                         outdata.SetGeoTransform(trans)
@@ -643,7 +643,7 @@ def main(
         outname = "{}_{}.tif".format(mode_string, method)
         outfile = os.path.join(out_path, outname)
         outdriver1 = gdal.GetDriverByName("GTiff")
-        outdata = outdriver1.Create(outfile, rows, cols, 1, gdal.GDT_Int16)
+        outdata = outdriver1.Create(outfile, cols, rows, 1, gdal.GDT_Int16)
         outdata.GetRasterBand(1).WriteArray(recent_dist)
         outdata.FlushCache()
         outdata.SetGeoTransform(trans)
@@ -661,7 +661,7 @@ def main(
         outname = "{}_{}.tif".format(mode_string, method)
         outfile = os.path.join(out_path, outname)
         outdriver1 = gdal.GetDriverByName("GTiff")
-        outdata = outdriver1.Create(outfile, rows, cols, 1, gdal.GDT_Int16)
+        outdata = outdriver1.Create(outfile, cols, rows, 1, gdal.GDT_Int16)
         outdata.GetRasterBand(1).WriteArray(first_dist)
         outdata.FlushCache()
         outdata.SetGeoTransform(trans)
-- 
2.43.0


From e12dab4bcb313c347c9166886d161f28fb610ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:30 +0000
Subject: [PATCH 53/63] fix: assemble exported maps by rows of blocks

---
 src/python/pycold/imagetool/export_change_map.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/pycold/imagetool/export_change_map.py b/src/python/pycold/imagetool/export_change_map.py
index 7f05a9b..336d784 100644
--- a/src/python/pycold/imagetool/export_change_map.py
+++ b/src/python/pycold/imagetool/export_change_map.py
@@ -584,7 +584,7 @@ def main(
             ]
 
             results = np.hstack(tmp_map_blocks)
-            results = np.vstack(np.hsplit(results, config["n_block_x"]))
+            results = np.vstack(np.hsplit(results, config["n_block_y"]))
 
             for x in range(config["n_blocks"]):
                 os.remove(os.path.join(out_path, "tmp_map_block{}_{}.npy".format(x + 1, year)))
@@ -610,7 +610,7 @@ def main(
                 ]
 
                 results = np.hstack(tmp_map_blocks)
-                results = np.vstack(np.hsplit(results, config["n_block_x"]))
+                results = np.vstack(np.hsplit(results, config["n_block_y"]))
                 ninput = 0
                 for band_idx, band_name in enumerate(coefs_bands):
                     for coef_index, coef in enumerate(coefs):
-- 
2.43.0


From 73bd9abb93cdfcbd0f57fa5348083fa8c0249903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:30 +0000
Subject: [PATCH 54/63] fix: accept the documented spelling of the coefs option
 with blanks

---
 src/python/pycold/imagetool/export_change_map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/imagetool/export_change_map.py b/src/python/pycold/imagetool/export_change_map.py
index 336d784..b3cb0c6 100644
--- a/src/python/pycold/imagetool/export_change_map.py
+++ b/src/python/pycold/imagetool/export_change_map.py
@@ -322,7 +322,7 @@ def main(
     if coefs is not None:
         try:
             coefs = list(coefs.split(","))
-            coefs = [str(coef) for coef in coefs]
+            coefs = [str(coef).strip() for coef in coefs]
         except ValueError:
             print(
                 "Illegal coefs inputs: example, --coefs='a0, c1, a1, b1, a2, b2, a3, b3, cv, rmse'"
-- 
2.43.0


From c59031c25e61e39f39fe76ae16fbaf23952f74d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 55/63] fix: read the Sentinel-2 scenes of a block too, as
 detection does

---
 src/python/pycold/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/utils.py b/src/python/pycold/utils.py
index 6446e72..c9b2309 100644
--- a/src/python/pycold/utils.py
+++ b/src/python/pycold/utils.py
@@ -333,7 +333,7 @@ def assemble_array(array_list, n_block_x):
 
 
 def read_blockdata(block_folder, total_pixels, total_bands):
-    img_files = [f for f in os.listdir(block_folder) if f.startswith("L")]
+    img_files = [f for f in os.listdir(block_folder) if f.startswith("L") or f.startswith("S")]
 
     # sort image files by dates
     img_dates = [
-- 
2.43.0


From 7c1dce3f992e4e128416f46fc1b44a8522efc071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:12 +0000
Subject: [PATCH 56/63] fix: take the ordinal of a plain date without pandas,
 which does not accept it

---
 src/python/pycold/imagetool/export_change_map.py | 6 +++---
 src/python/pycold/utils.py                       | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/python/pycold/imagetool/export_change_map.py b/src/python/pycold/imagetool/export_change_map.py
index b3cb0c6..a1d1812 100644
--- a/src/python/pycold/imagetool/export_change_map.py
+++ b/src/python/pycold/imagetool/export_change_map.py
@@ -487,7 +487,7 @@ def main(
                     results_block[break_year - year_lowbound][i_row][i_col] = (
                         current_dist_type * 1000
                         + curve["t_break"]
-                        - (pd.Timestamp.toordinal(datetime.date(break_year, 1, 1)))
+                        - datetime.date(break_year, 1, 1).toordinal()
                         + 1
                     )
         else:
@@ -496,7 +496,7 @@ def main(
             current_dist_type = 0
             year_list_to_predict = list(range(year_lowbound, year_uppbound + 1))
             ordinal_day_list = [
-                pd.Timestamp.toordinal(datetime.date(year, 7, 1)) for year in year_list_to_predict
+                datetime.date(year, 7, 1).toordinal() for year in year_list_to_predict
             ]
             for count, curve in enumerate(cold_block):
                 if curve["pos"] != current_processing_pos:
@@ -533,7 +533,7 @@ def main(
                 results_block[break_year - year_lowbound][i_row][i_col] = (
                     current_dist_type * 1000
                     + curve["t_break"]
-                    - (pd.Timestamp.toordinal(datetime.date(break_year, 1, 1)))
+                    - datetime.date(break_year, 1, 1).toordinal()
                     + 1
                 )
                 # e.g., 1315 means that disturbance happens at doy of 315
diff --git a/src/python/pycold/utils.py b/src/python/pycold/utils.py
index c9b2309..8470c4a 100644
--- a/src/python/pycold/utils.py
+++ b/src/python/pycold/utils.py
@@ -365,7 +365,7 @@ def read_data(path):
 
 
 def date2matordinal(year, month, day):
-    return pd.Timestamp.toordinal(dt.date(year, month, day))
+    return dt.date(year, month, day).toordinal()
 
 
 def matordinal2date(ordinal):
-- 
2.43.0


From 08c989a71bd5048302cc6bfd0366e4626b54acfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:53 +0000
Subject: [PATCH 57/63] fix: give slic a one-channel image, as it no longer
 takes a plain 2-d one

---
 src/python/pycold/ob_analyst.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/ob_analyst.py b/src/python/pycold/ob_analyst.py
index bf1f75e..58fc9eb 100644
--- a/src/python/pycold/ob_analyst.py
+++ b/src/python/pycold/ob_analyst.py
@@ -540,7 +540,7 @@ def segmentation_slic(
         object_map_s1 = np.full_like(mask, 0)
     else:
         object_map_s1 = slic(
-            cm_stack,
+            cm_stack[:, :, np.newaxis],  # one channel
             mask=mask,
             n_segments=n_segments,
             compactness=0.01,
-- 
2.43.0


From 1d7ae3acb3fd44d0dbc562636020fe199cfb98ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:23 +0000
Subject: [PATCH 58/63] fix: scale SWIR2 as reflectance and the thermal band as
 temperature in collection 2

---
 src/python/pycold/imagetool/prepare_ard.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/python/pycold/imagetool/prepare_ard.py b/src/python/pycold/imagetool/prepare_ard.py
index 75ed6a1..1217640 100644
--- a/src/python/pycold/imagetool/prepare_ard.py
+++ b/src/python/pycold/imagetool/prepare_ard.py
@@ -1009,8 +1009,8 @@ def single_image_stacking(
             B3 = (10000 * (B3 * 2.75e-05 - 0.2)).astype(np.int16)
             B4 = (10000 * (B4 * 2.75e-05 - 0.2)).astype(np.int16)
             B5 = (10000 * (B5 * 2.75e-05 - 0.2)).astype(np.int16)
-            B7 = (10000 * (B7 * 2.75e-05 - 0.2)).astype(np.int16)
-            B6 = (10 * (B6 * 0.00341802 + 149)).astype(np.int16)
+            B6 = (10000 * (B6 * 2.75e-05 - 0.2)).astype(np.int16)
+            B7 = (10 * (B7 * 0.00341802 + 149)).astype(np.int16)
 
         # if path_array is not None, we will eliminate those observation that has different path with its assigned path
         if path_array is not None:  # meaning that single-path processing
@@ -1491,8 +1491,8 @@ def single_image_stacking_collection2(
         B3 = (10000 * (B3 * 2.75e-05 - 0.2)).astype(np.int16)
         B4 = (10000 * (B4 * 2.75e-05 - 0.2)).astype(np.int16)
         B5 = (10000 * (B5 * 2.75e-05 - 0.2)).astype(np.int16)
-        B7 = (10000 * (B7 * 2.75e-05 - 0.2)).astype(np.int16)
-        B6 = (10 * (B6 * 0.00341802 + 149)).astype(np.int16)
+        B6 = (10000 * (B6 * 2.75e-05 - 0.2)).astype(np.int16)
+        B7 = (10 * (B7 * 0.00341802 + 149)).astype(np.int16)
 
         if is_partition is True:
             # width of a block
-- 
2.43.0


From 4c8eeda8854c41179f6531a3ef96b8a90b553daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:23 +0000
Subject: [PATCH 59/63] fix: skip a scene only when it is less clear than the
 threshold, as documented

---
 src/python/pycold/imagetool/prepare_ard.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/python/pycold/imagetool/prepare_ard.py b/src/python/pycold/imagetool/prepare_ard.py
index 1217640..6e8b880 100644
--- a/src/python/pycold/imagetool/prepare_ard.py
+++ b/src/python/pycold/imagetool/prepare_ard.py
@@ -235,7 +235,7 @@ def single_image_stacking_hls(
     else:
         clear_ratio = 1
 
-    if clear_ratio > clear_threshold:
+    if clear_ratio >= clear_threshold:
         [collection, sensor, tile_id, imagetime, version1, version2] = folder.rsplit(".")
         year = imagetime[0:4]
         doy = imagetime[4:7]
@@ -521,7 +521,7 @@ def single_image_stacking_hls14(
     else:
         clear_ratio = 1
 
-    if clear_ratio > clear_threshold:
+    if clear_ratio >= clear_threshold:
         [collection, sensor, tile_id, imagetime, version1, version2, ext] = folder.split("/")[
             -1
         ].rsplit(".")
@@ -837,7 +837,7 @@ def single_image_stacking(
     else:
         clear_ratio = 1
 
-    if clear_ratio > clear_threshold:
+    if clear_ratio >= clear_threshold:
         if folder[3] == "5":
             sensor = "LT5"
         elif folder[3] == "7":
@@ -1287,7 +1287,7 @@ def single_image_stacking_collection2(
     else:
         clear_ratio = 1
 
-    if clear_ratio > clear_threshold:
+    if clear_ratio >= clear_threshold:
         if folder[3] == "5":
             sensor = "LT5"
         elif folder[3] == "7":
-- 
2.43.0


From aff3b5e2fe156561d09a7144a6aa772fb5fab676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:23 +0000
Subject: [PATCH 60/63] fix: give a stacked scene its name only when it is
 completely written

---
 src/python/pycold/imagetool/prepare_ard.py | 31 ++++++++++++++++------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/python/pycold/imagetool/prepare_ard.py b/src/python/pycold/imagetool/prepare_ard.py
index 6e8b880..039f475 100644
--- a/src/python/pycold/imagetool/prepare_ard.py
+++ b/src/python/pycold/imagetool/prepare_ard.py
@@ -160,6 +160,21 @@ def qabitval_array_c2(packedint_array: np.ndarray):
     return unpacked
 
 
+def save_scene(path, scene):
+    """
+    save a stacked scene; it gets the name that the readers look for only when it is completely written
+
+    Args:
+        path: path of the scene without the extension
+        scene: the scene array
+    """
+    folder, name = os.path.split(path)
+    tmp_path = join(folder, ".{}.tmp{}".format(name, os.getpid()))
+    with open(tmp_path, "wb") as tmp_file:
+        np.save(tmp_file, scene)
+    os.replace(tmp_path, path + ".npy")
+
+
 # def load_data(file_name, gdal_driver='GTiff'):
 #     '''
 #     Converts a GDAL compatable file into a numpy array and associated geodata.
@@ -451,7 +466,7 @@ def single_image_stacking_hls(
                         continue
 
                     block_folder = "block_x{}_y{}".format(j + 1, i + 1)
-                    np.save(
+                    save_scene(
                         join(join(out_dir, block_folder), file_name),
                         np.dstack(
                             [
@@ -468,7 +483,7 @@ def single_image_stacking_hls(
                     )
 
         else:
-            np.save(
+            save_scene(
                 join(out_dir, file_name),
                 np.dstack([B1, B2, B3, B4, B5, B6, B7, QA_band_unpacked]).astype(np.int16),
             )
@@ -716,7 +731,7 @@ def single_image_stacking_hls14(
                         continue
 
                     block_folder = "block_x{}_y{}".format(j + 1, i + 1)
-                    np.save(
+                    save_scene(
                         join(join(out_dir, block_folder), file_name),
                         np.dstack(
                             [
@@ -733,7 +748,7 @@ def single_image_stacking_hls14(
                     )
 
         else:
-            np.save(
+            save_scene(
                 join(out_dir, file_name),
                 np.dstack([B1, B2, B3, B4, B5, B6, B7, QA_band_unpacked]).astype(np.int16),
             )
@@ -1187,7 +1202,7 @@ def single_image_stacking(
                         continue
 
                     block_folder = "block_x{}_y{}".format(j + 1, i + 1)
-                    np.save(
+                    save_scene(
                         join(join(out_dir, block_folder), file_name),
                         np.dstack(
                             [
@@ -1204,7 +1219,7 @@ def single_image_stacking(
                     )
 
         else:
-            np.save(
+            save_scene(
                 join(out_dir, file_name),
                 np.dstack([B1, B2, B3, B4, B5, B6, B7, QA_band_unpacked]).astype(np.int16),
             )
@@ -1635,7 +1650,7 @@ def single_image_stacking_collection2(
                         continue
 
                     block_folder = "block_x{}_y{}".format(j + 1, i + 1)
-                    np.save(
+                    save_scene(
                         join(join(out_dir, block_folder), file_name),
                         np.dstack(
                             [
@@ -1652,7 +1667,7 @@ def single_image_stacking_collection2(
                     )
 
         else:
-            np.save(
+            save_scene(
                 join(out_dir, file_name),
                 np.dstack([B1, B2, B3, B4, B5, B6, B7, QA_band_unpacked]).astype(np.int16),
             )
-- 
2.43.0


From 2207a6d9e7ef3f284f63cfd93f7bf41614bf7d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:47 +0000
Subject: [PATCH 61/63] fix: publish object and classification results of a
 block only when they are completely written

---
 src/python/pycold/ob_analyst.py   | 10 ++++++++--
 src/python/pycold/pyclassifier.py |  4 ++--
 src/python/pycold/utils.py        |  4 +++-
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/python/pycold/ob_analyst.py b/src/python/pycold/ob_analyst.py
index 58fc9eb..2aca013 100644
--- a/src/python/pycold/ob_analyst.py
+++ b/src/python/pycold/ob_analyst.py
@@ -12,7 +12,13 @@ from scipy import stats
 from scipy.stats import chi2
 from os.path import join, exists
 from logging import Logger
-from pycold.utils import get_block_x, get_block_y, read_blockdata, get_rowcol_intile
+from pycold.utils import (
+    get_block_x,
+    get_block_y,
+    read_blockdata,
+    get_rowcol_intile,
+    save_array,
+)
 from pycold.app import defaults
 from pycold import obcold_reconstruct
 from skimage.segmentation import slic
@@ -1017,7 +1023,7 @@ class ObjectAnalystHPC:
         )
         for i in range(self.dataset_info.n_block_y):
             for j in range(self.dataset_info.n_block_x):
-                np.save(
+                save_array(
                     join(self.obia_path, filenm + "_x{}_y{}.npy".format(j + 1, i + 1)),
                     result_blocks[i][j],
                 )
diff --git a/src/python/pycold/pyclassifier.py b/src/python/pycold/pyclassifier.py
index f810524..7970b50 100644
--- a/src/python/pycold/pyclassifier.py
+++ b/src/python/pycold/pyclassifier.py
@@ -430,7 +430,7 @@ class PyClassifierHPC(PyClassifier):
 
         """
         for id, year in enumerate(self.year_list_to_predict):
-            np.save(
+            save_array(
                 os.path.join(self.tmp_path, "tmp_feature_year{}_block{}.npy").format(
                     year, block_id
                 ),
@@ -462,7 +462,7 @@ class PyClassifierHPC(PyClassifier):
         outfile = join(
             self.tmp_path, "tmp_yearlyclassification{}_block{}.npy".format(year, block_id)
         )
-        np.save(outfile, cmap)
+        save_array(outfile, cmap)
 
     def _is_finished_step3_classification(self):
         """
diff --git a/src/python/pycold/utils.py b/src/python/pycold/utils.py
index 8470c4a..5121afc 100644
--- a/src/python/pycold/utils.py
+++ b/src/python/pycold/utils.py
@@ -79,7 +79,9 @@ def save_array(path, array):
     path: string
     array
     """
-    tmp_path = "{}.tmp{}".format(path, os.getpid())
+    # a name that no listing of the folder takes for a result
+    folder, name = os.path.split(path)
+    tmp_path = join(folder, ".{}.tmp{}".format(name, os.getpid()))
     with open(tmp_path, "wb") as f:
         np.save(f, array)
     os.replace(tmp_path, path)
-- 
2.43.0


From bafc3b17daff3dd2bb9051257157ff9840897af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:58 +0000
Subject: [PATCH 62/63] fix: do not classify a block again whose maps may be
 assembled and cleaned meanwhile

---
 src/python/pycold/imagetool/tile_processing.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/python/pycold/imagetool/tile_processing.py b/src/python/pycold/imagetool/tile_processing.py
index dab318d..5a55457 100644
--- a/src/python/pycold/imagetool/tile_processing.py
+++ b/src/python/pycold/imagetool/tile_processing.py
@@ -675,6 +675,17 @@ def main(
                 for i in range(nblock_eachcore):
                     if n_cores * i + rank > dataset_info.n_block_x * dataset_info.n_block_y:
                         break
+                    # after a restart, the block may have been classified before and the maps may be
+                    # assembled and the intermediate files cleaned by the first worker at any time
+                    if os.path.exists(
+                        join(
+                            pyclassifier.tmp_path,
+                            "tmp_step3_classification_{}_finished.txt".format(n_cores * i + rank),
+                        )
+                    ):
+                        continue
+                    if pyclassifier.is_finished_step4_assemble():
+                        break
                     pyclassifier.step3_classification(block_id=n_cores * i + rank)
 
                 if rank == 1:  # serial mode for assemble
-- 
2.43.0


From e9e8cc369f42264416e91e7231224e9cc8376874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:21 +0000
Subject: [PATCH 63/63] fix: start a new S-CCD segment from the initial
 covariance, not from the previous segment's

---
 src/cxx/s_ccd.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cxx/s_ccd.c b/src/cxx/s_ccd.c
index e112c0f..8464dab 100644
--- a/src/cxx/s_ccd.c
+++ b/src/cxx/s_ccd.c
@@ -483,6 +483,9 @@ int step1_ssm_initialize(
     // ini_p = caculate_ini_p(instance->m, state_a, instance->Z);
     ini_p = INI_P;
 
+    /* the matrix may still hold the covariance of the previous segment */
+    gsl_matrix_set_zero(cov_p);
+
     for (k = 0; k < instance->m; k++)
     {
         if (k == 1)
-- 
2.43.0

