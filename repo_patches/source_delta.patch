From fa5d22601a107fcd6b3a031efad8ca285c05ae5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:54 +0000
Subject: [PATCH 01/31] fix: keep the most likely paths when pruning the RM
 list

---
 dtrm_glp/dtrm_glp_inner.c | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/dtrm_glp/dtrm_glp_inner.c b/dtrm_glp/dtrm_glp_inner.c
index 2637f02..95fa704 100644
--- a/dtrm_glp/dtrm_glp_inner.c
+++ b/dtrm_glp/dtrm_glp_inner.c
@@ -188,13 +188,6 @@ void print_list(char rem[]) {
 static void qpartition(int *v, int len, int k) {
   int i, st, tmp;
 
-  if (k == len - 1) return;
-
-  if (len == 2) {
-    if (slist[v[0]] < slist[v[1]]) SWAP(0, 1)
-    return;
-  }
-
   for (st = i = 0; i < len - 1; i++) {
     if (slist[v[i]] < slist[v[len - 1]]) continue;
     SWAP(i, st);
-- 
2.43.0


From c4096d88e93b1a52f5cefce8c857824def2501f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:49 +0000
Subject: [PATCH 02/31] fix: keep symbol reliabilities finite at high
 signal-to-noise ratios

exp() overflowed for large positive channel LLRs and the epsilon became NaN.
---
 formats/formats.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/formats/formats.h b/formats/formats.h
index bb90a32..2ea9028 100644
--- a/formats/formats.h
+++ b/formats/formats.h
@@ -85,8 +85,7 @@
 #define VY_TO_FORMAT(y, e, n) { \
    int i; \
    for (i = 0; i < n; i++) { \
-      e[i] = exp(y[i]); \
-      e[i] = (1.0 - e[i]) / (1.0 + e[i]); \
+      e[i] = -tanh(0.5 * y[i]); \
       FORMAT_CLIP(e[i]); \
    } \
 }
@@ -96,8 +95,7 @@
 #define VY_TO_FORMAT(y, e, n) { \
    int i; \
    for (i = 0; i < n; i++) { \
-      e[i] = exp(y[i]); \
-      e[i] = (1.0 - e[i]) / (1.0 + e[i]); \
+      e[i] = -tanh(0.5 * y[i]); \
    } \
 }
 #endif // if not FORMAT_USE_CLIPPING
-- 
2.43.0


From 10a680c0d787a17cef2e1b1ff0a55640900d42c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:36 +0000
Subject: [PATCH 03/31] fix: no overflow in the LLR formats at high
 reliabilities

---
 formats/format_rho1.h | 9 ++++++---
 formats/format_rho5.h | 5 +++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/formats/format_rho1.h b/formats/format_rho1.h
index 00d1223..32918dd 100644
--- a/formats/format_rho1.h
+++ b/formats/format_rho1.h
@@ -31,8 +31,9 @@
 #define YLDEC0 1.0
 #define YLDEC1 (-1.0)
 
-#define RHO1LOGP0(e) (-log(1.0 + exp(-(e))))
-#define RHO1LOGP1(e) (-log(1.0 + exp(e)))
+// The exponents below are never positive, so that nothing overflows.
+#define RHO1LOGP0(e) (((e) > 0.0 ? 0.0 : (e)) - log1p(exp(-fabs(e))))
+#define RHO1LOGP1(e) (((e) > 0.0 ? -(e) : 0.0) - log1p(exp(-fabs(e))))
 
 // True if estimate votes for 0.
 #define CHECK_EST0(y) ((y) > 0.0)
@@ -65,7 +66,9 @@
 // Convert estimate to log likelihood ratio.
 #define EST2LLR(e) (e)
 
-#define XOR_EST(y1, y2) log((1.0 + exp((y1) + (y2))) / (exp(y1) + exp(y2)))
+// log((1.0 + exp((y1) + (y2))) / (exp(y1) + exp(y2))).
+#define XOR_EST(y1, y2) (0.5 * (fabs((y1) + (y2)) - fabs((y1) - (y2))) \
+   + log1p(exp(-fabs((y1) + (y2)))) - log1p(exp(-fabs((y1) - (y2)))))
 //#define XOR_EST_ZZ(y1, y2) log((1.0 + exp((y1) + (y2))) / (exp(y1) + exp(y2)))
 //#define XOR_EST_PP(y1, y2) ((y1) + (y2))
 //#define XOR_EST_MM(y1, y2) ((y1) + (y2))
diff --git a/formats/format_rho5.h b/formats/format_rho5.h
index a95f835..1b9097e 100644
--- a/formats/format_rho5.h
+++ b/formats/format_rho5.h
@@ -38,8 +38,9 @@
 #define YLDEC0 1.0
 #define YLDEC1 (-1.0)
 
-#define RHO2LOGP0(e) (-log(1.0 + exp(-(e))))
-#define RHO2LOGP1(e) (-log(1.0 + exp(e)))
+// The exponents below are never positive, so that nothing overflows.
+#define RHO2LOGP0(e) (((e) > 0.0 ? 0.0 : (e)) - log1p(exp(-fabs(e))))
+#define RHO2LOGP1(e) (((e) > 0.0 ? -(e) : 0.0) - log1p(exp(-fabs(e))))
 
 // True if estimate votes for 0.
 #define CHECK_EST0(y) ((y) > 0.0)
-- 
2.43.0


From e2f702124def7661d4b8c7bc69db63b83b73edfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:44 +0000
Subject: [PATCH 04/31] fix: release the CRC when CA-polar initialisation fails

---
 polar_scl/ca_polar_scl_main.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/polar_scl/ca_polar_scl_main.c b/polar_scl/ca_polar_scl_main.c
index d507819..3597c0f 100644
--- a/polar_scl/ca_polar_scl_main.c
+++ b/polar_scl/ca_polar_scl_main.c
@@ -341,6 +341,7 @@ ret_err:
    if (str1 != NULL) free(str1);
    if (dd != NULL) {
       if (dd->dc.mem_buf != NULL) free(dd->dc.mem_buf);
+      if (dd->crc != NULL) free(dd->crc);
       if (dd->dc.pxarr != NULL) free(dd->dc.pxarr);
       if (dd->dc.pyarr != NULL) free(dd->dc.pyarr);
       if (dd->dc.node_table != NULL) free(dd->dc.node_table);
-- 
2.43.0


From 2bbe98dc513ddb016e24af7c5da927ef169bf7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:36 +0000
Subject: [PATCH 05/31] fix: report missing values, unclosed and too long
 groups in parameter strings

---
 Octave/loadsrf.c              | 28 +++---------
 common/spf_par.c              | 18 ++++----
 common/spf_par.h              | 76 +++++++++++++++++++------------
 dtrm_glp/dtrm_glp_main.c      | 14 +++---
 polar_scl/ca_polar_scl_main.c | 16 +++----
 simulators/sim_bg.c           | 85 ++++++++++++++++++++++-------------
 6 files changed, 129 insertions(+), 108 deletions(-)

diff --git a/Octave/loadsrf.c b/Octave/loadsrf.c
index 40a1736..6315ea4 100644
--- a/Octave/loadsrf.c
+++ b/Octave/loadsrf.c
@@ -32,26 +32,6 @@
 // Max # of SNR values.
 #define SNR_NUM_MAX        50
 
-#define MEX_TRYGET_GRDOUBLE_TOKEN(tk, tk_samp, x, n, nmax, erstr) { \
-   if (strcmp((tk), (tk_samp)) == 0) { \
-      int i = 0; \
-      (tk) = strtok(NULL, tk_seps_prepared); \
-      if ((tk)[0] == GROUP_CHAR_BEGIN) { \
-         (tk) = strtok(NULL, tk_seps_prepared); \
-         while (((tk)[0] != GROUP_CHAR_END) && (i < (nmax))) { \
-            (x)[i++] = atof(tk); \
-            (tk) = strtok(NULL, tk_seps_prepared); \
-         } \
-      } \
-      else { \
-         err_msg(erstr); \
-      } \
-      (n) = i; \
-      (tk) = strtok(NULL, tk_seps_prepared); \
-      continue; \
-   } \
-}
-
 //-----------------------------------------------------------------------------
 // Functions.
 
@@ -98,7 +78,7 @@ mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]) {
   while (token != NULL) {
     TRYGET_INT_TOKEN(token, code_n_token, c_n)
     TRYGET_INT_TOKEN(token, code_k_token, c_k)
-    MEX_TRYGET_GRDOUBLE_TOKEN(token, SNR_token, snr_db, snr_num, SNR_NUM_MAX, err_reading_msg)
+    TRYGET_GRDOUBLE_TOKEN(token, SNR_token, snr_db, snr_num, SNR_NUM_MAX, err_reading_msg)
     if (tryread_group_int_param(&token, tr_num_token, trn, sizeof(int), &trn_n, SNR_NUM_MAX, err_reading_msg) == RC_OK) continue;
     if (tryread_group_int_param(&token, en_bit_token, en_bit, sizeof(int), &en_bit_n, SNR_NUM_MAX, err_reading_msg) == RC_OK) continue;
     if (tryread_group_int_param(&token, en_bl_token, en_bl, sizeof(int), &en_bl_n, SNR_NUM_MAX, err_reading_msg) == RC_OK) continue;
@@ -158,4 +138,10 @@ mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]) {
   if (nlhs > 0) {
     plhs[0] = res;
   }
+  return;
+
+ret_err:
+
+  free(str1);
+  err_msg(err_reading_msg);
 }
\ No newline at end of file
diff --git a/common/spf_par.c b/common/spf_par.c
index a05f989..374e189 100644
--- a/common/spf_par.c
+++ b/common/spf_par.c
@@ -254,16 +254,18 @@ int tryread_group_int_param(
   if (strcmp(*inout_tk, param_key) == 0) {
     int i = 0;
     char *tk = strtok(NULL, tk_seps_prepared);
-    if (tk[0] == GROUP_CHAR_BEGIN) {
+    if ((tk == NULL) || (tk[0] != GROUP_CHAR_BEGIN)) {
+      err_msg(erstr);
+      return RC_ERROR;
+    }
+    tk = strtok(NULL, tk_seps_prepared);
+    while ((tk != NULL) && (tk[0] != GROUP_CHAR_END) && (i < max_n)) {
+      *x = atoi(tk);
+      x = (int *)((unsigned char *)x + step_size);
       tk = strtok(NULL, tk_seps_prepared);
-      while ((tk[0] != GROUP_CHAR_END) && (i < max_n)) {
-        *x = atoi(tk);
-        x = (int *)((unsigned char *)x + step_size);
-        tk = strtok(NULL, tk_seps_prepared);
-        i++;
-      }
+      i++;
     }
-    else {
+    if ((tk == NULL) || (tk[0] != GROUP_CHAR_END)) {
       err_msg(erstr);
       return RC_ERROR;
     }
diff --git a/common/spf_par.h b/common/spf_par.h
index ce2e6a5..e220647 100644
--- a/common/spf_par.h
+++ b/common/spf_par.h
@@ -41,9 +41,21 @@
 
 #define RC_SPF_UNKNOWN (RC_CUSTOM + 1)
 
+// The macros below jump to the label ret_err of the calling function when the
+// parameters string ends too early or a group is not correct.
+
+// Get the next token, which has to be there.
+#define SPF_NEXT_TOKEN(tk) { \
+   (tk) = strtok(NULL, tk_seps_prepared); \
+   if ((tk) == NULL) { \
+      err_msg("parameters file: unexpected end."); \
+      goto ret_err; \
+   } \
+}
+
 #define TRYGET_INT_TOKEN(tk, tk_samp, x) { \
    if (strcmp((tk), (tk_samp)) == 0) { \
-      (tk) = strtok(NULL, tk_seps_prepared); \
+      SPF_NEXT_TOKEN(tk); \
       (x) = atoi(tk); \
       (tk) = strtok(NULL, tk_seps_prepared); \
       continue; \
@@ -52,7 +64,7 @@
 
 #define TRYGET_FLOAT_TOKEN(tk, tk_samp, x) { \
    if (strcmp((tk), (tk_samp)) == 0) { \
-      (tk) = strtok(NULL, tk_seps_prepared); \
+      SPF_NEXT_TOKEN(tk); \
       (x) = atof(tk); \
       (tk) = strtok(NULL, tk_seps_prepared); \
       continue; \
@@ -61,7 +73,7 @@
 
 #define TRYGET_ONOFF_TOKEN(tk, tk_samp, x) { \
    if (strcmp((tk), (tk_samp)) == 0) { \
-      (tk) = strtok(NULL, tk_seps_prepared); \
+      SPF_NEXT_TOKEN(tk); \
       (x) = (!strcmp(tk, switch_on_token)) ? 1 : 0; \
       (tk) = strtok(NULL, tk_seps_prepared); \
       continue; \
@@ -71,17 +83,19 @@
 #define TRYGET_GRDOUBLE_TOKEN(tk, tk_samp, x, n, nmax, erstr) { \
    if (strcmp((tk), (tk_samp)) == 0) { \
       int i = 0; \
-      (tk) = strtok(NULL, tk_seps_prepared); \
-      if ((tk)[0] == GROUP_CHAR_BEGIN) { \
-         (tk) = strtok(NULL, tk_seps_prepared); \
-         while (((tk)[0] != GROUP_CHAR_END) && (i < (nmax))) { \
-            (x)[i++] = atof(tk); \
-            (tk) = strtok(NULL, tk_seps_prepared); \
-         } \
-      } \
-      else { \
+      SPF_NEXT_TOKEN(tk); \
+      if ((tk)[0] != GROUP_CHAR_BEGIN) { \
          err_msg(erstr); \
-         return 1; \
+         goto ret_err; \
+      } \
+      SPF_NEXT_TOKEN(tk); \
+      while ((tk)[0] != GROUP_CHAR_END) { \
+         if (i >= (nmax)) { \
+            err_msg(erstr); \
+            goto ret_err; \
+         } \
+         (x)[i++] = atof(tk); \
+         SPF_NEXT_TOKEN(tk); \
       } \
       (n) = i; \
       (tk) = strtok(NULL, tk_seps_prepared); \
@@ -92,19 +106,25 @@
 #define TRYGET_GRINTDOUBLE_TOKEN(tk, tk_samp, x, y, n, nmax, erstr) { \
    if (strcmp((tk), (tk_samp)) == 0) { \
       int i = 0; \
-      (tk) = strtok(NULL, tk_seps_prepared); \
-      if ((tk)[0] == GROUP_CHAR_BEGIN) { \
-         (tk) = strtok(NULL, tk_seps_prepared); \
-         while (((tk)[0] != GROUP_CHAR_END) && (i < (nmax))) { \
-            (x)[i] = atoi(tk); \
-            (tk) = strtok(NULL, tk_seps_prepared); \
-            (y)[i++] = atof(tk); \
-            (tk) = strtok(NULL, tk_seps_prepared); \
-         } \
-      } \
-      else { \
+      SPF_NEXT_TOKEN(tk); \
+      if ((tk)[0] != GROUP_CHAR_BEGIN) { \
          err_msg(erstr); \
-         return 1; \
+         goto ret_err; \
+      } \
+      SPF_NEXT_TOKEN(tk); \
+      while ((tk)[0] != GROUP_CHAR_END) { \
+         if (i >= (nmax)) { \
+            err_msg(erstr); \
+            goto ret_err; \
+         } \
+         (x)[i] = atoi(tk); \
+         SPF_NEXT_TOKEN(tk); \
+         if ((tk)[0] == GROUP_CHAR_END) { \
+            err_msg(erstr); \
+            goto ret_err; \
+         } \
+         (y)[i++] = atof(tk); \
+         SPF_NEXT_TOKEN(tk); \
       } \
       (n) = i; \
       (tk) = strtok(NULL, tk_seps_prepared); \
@@ -113,11 +133,9 @@
 }
 
 #define SPF_SKIP_UNKNOWN_PARAMETER(tk) { \
-   (tk) = strtok(NULL, tk_seps_prepared); \
+   SPF_NEXT_TOKEN(tk); \
    if ((tk)[0] == GROUP_CHAR_BEGIN) { \
-      (tk) = strtok(NULL, tk_seps_prepared); \
-      while (((tk)[strlen(tk) - 1] != GROUP_CHAR_END) && ((tk) != NULL)) \
-         (tk) = strtok(NULL, tk_seps_prepared); \
+      while ((tk)[strlen(tk) - 1] != GROUP_CHAR_END) SPF_NEXT_TOKEN(tk); \
    } \
    (tk) = strtok(NULL, tk_seps_prepared); \
 }
diff --git a/dtrm_glp/dtrm_glp_main.c b/dtrm_glp/dtrm_glp_main.c
index ae9bf34..1012f40 100644
--- a/dtrm_glp/dtrm_glp_main.c
+++ b/dtrm_glp/dtrm_glp_main.c
@@ -124,7 +124,7 @@ cdc_init(
       TRYGET_INT_TOKEN(token, "RM_m", c_m);
       TRYGET_INT_TOKEN(token, "RM_r", c_r);
       if (strcmp(token, "border_node_mask") == 0) {
-         token = strtok(NULL, tk_seps_prepared);
+         SPF_NEXT_TOKEN(token);
          dd->dc.node_table_len = strlen(token);
          dd->dc.node_table = (uint32 *)malloc(dd->dc.node_table_len * 4);
          if (dd->dc.node_table == NULL) {
@@ -137,7 +137,7 @@ cdc_init(
          continue;
       }
       if (strcmp(token, "border_node_lsize") == 0) {
-         token = strtok(NULL, tk_seps_prepared);
+         SPF_NEXT_TOKEN(token);
          dd->dc.peak_lsiz = atoi(token);
          token = strtok(NULL, tk_seps_prepared);
          continue;
@@ -147,19 +147,15 @@ cdc_init(
             err_msg("cdc_init(): parameters file: RM_m must be specified before permutations.");
             goto ret_err;
          }
-         token = strtok(NULL, tk_seps_prepared);
+         SPF_NEXT_TOKEN(token);
          if (token[0] == GROUP_CHAR_BEGIN) {
-            token = strtok(NULL, tk_seps_prepared);
+            SPF_NEXT_TOKEN(token);
             i1 = 0;
             p_num = 0;
             while (token[0] != GROUP_CHAR_END) {
                for (i = 0; i < c_m; i++) {
                   p_info[i1++] = atoi(token);
-                  token = strtok(NULL, tk_seps_prepared);
-                  if (token == NULL) {
-                     err_msg("cdc_init(): parameters file: permutations.");
-                     goto ret_err;
-                  }
+                  SPF_NEXT_TOKEN(token);
                }
                p_num++;
             }
diff --git a/polar_scl/ca_polar_scl_main.c b/polar_scl/ca_polar_scl_main.c
index 3597c0f..bb02083 100644
--- a/polar_scl/ca_polar_scl_main.c
+++ b/polar_scl/ca_polar_scl_main.c
@@ -173,7 +173,7 @@ cdc_init(
 
       TRYGET_INT_TOKEN(token, "c_m", c_m);
       if (strcmp(token, "info_bits_mask") == 0) {
-         token = strtok(NULL, tk_seps_prepared);
+         SPF_NEXT_TOKEN(token);
          dd->dc.node_table_len = strlen(token);
          dd->dc.node_table = (uint32 *)malloc(dd->dc.node_table_len * 4);
          if (dd->dc.node_table == NULL) {
@@ -186,7 +186,7 @@ cdc_init(
          continue;
       }
       if (strcmp(token, "ca_polar_crc") == 0) {
-         token = strtok(NULL, tk_seps_prepared);
+         SPF_NEXT_TOKEN(token);
          dd->crc_len = strlen(token);
          dd->crc = (int *)malloc(dd->crc_len * sizeof(int));
          if (dd->crc == NULL) {
@@ -199,7 +199,7 @@ cdc_init(
          continue;
       }
       if (strcmp(token, "list_size") == 0) {
-         token = strtok(NULL, tk_seps_prepared);
+         SPF_NEXT_TOKEN(token);
          dd->dc.peak_lsiz = atoi(token);
          token = strtok(NULL, tk_seps_prepared);
          continue;
@@ -210,19 +210,15 @@ cdc_init(
             err_msg("cdc_init(): parameters file: c_m must be specified before permutations.");
             goto ret_err;
          }
-         token = strtok(NULL, tk_seps_prepared);
+         SPF_NEXT_TOKEN(token);
          if (token[0] == GROUP_CHAR_BEGIN) {
-            token = strtok(NULL, tk_seps_prepared);
+            SPF_NEXT_TOKEN(token);
             i1 = 0;
             p_num = 0;
             while (token[0] != GROUP_CHAR_END) {
                for (i = 0; i < c_m; i++) {
                   p_info[i1++] = atoi(token);
-                  token = strtok(NULL, tk_seps_prepared);
-                  if (token == NULL) {
-                     err_msg("cdc_init(): parameters file: permutations.");
-                     goto ret_err;
-                  }
+                  SPF_NEXT_TOKEN(token);
                }
                p_num++;
             }
diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index e5d82a1..8dba387 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -188,10 +188,10 @@ int sim_init(
   sim_init_params *sp, // Simulation parameters.
   void **inst // Simulation instance.
 ) {
-  char *sp_str; // Simulation parameters string.
-  sim_bg_inst *sim; // Simulator instance.
+  char *sp_str = NULL; // Simulation parameters string.
+  sim_bg_inst *sim = NULL; // Simulator instance.
   // Temporary variables.
-  char *token, *str1;
+  char *token, *str1 = NULL;
 
   // Read and preparse simulation parameters.
   if (spf_read_preparse(sp->spf_name, &sp_str) != RC_OK) return RC_ERROR;
@@ -200,7 +200,7 @@ int sim_init(
   sim = (sim_bg_inst *)malloc(sizeof(sim_bg_inst));
   if (sim == NULL) {
     err_msg("sim_bg init error: short of memory!");
-    return RC_ERROR;
+    goto ret_err;
   }
   memset(sim, 0, sizeof(sim_bg_inst));
 
@@ -208,7 +208,7 @@ int sim_init(
   str1 = (char *)malloc(SP_STR_MAX);
   if (str1 == NULL) {
     err_msg("sim_bg init error: short of memory!");
-    return RC_ERROR;
+    goto ret_err;
   }
   str1[0] = 0;
 
@@ -218,10 +218,10 @@ int sim_init(
   while (token != NULL) {
 
     if (strcmp(token, res_file_token) == 0) {
-      token = strtok(NULL, tk_seps_prepared);
+      SPF_NEXT_TOKEN(token);
       if (strlen(token) >= FN_LEN_MAX) {
         err_msg("sim_bg init error: output file name is too long.");
-        return RC_ERROR;
+        goto ret_err;
       }
       strcpy(sim->rf_name, token);
       token = strtok(NULL, tk_seps_prepared);
@@ -230,19 +230,25 @@ int sim_init(
     if (sim->snr_num < 1) {
       if (strcmp(token, snr_val_trn_token) == 0) {
         int i = 0;
-        token = strtok(NULL, tk_seps_prepared);
-        if (token[0] == GROUP_CHAR_BEGIN) {
-          token = strtok(NULL, tk_seps_prepared);
-          while ((token[0] != GROUP_CHAR_END) && (i < SNR_NUM_MAX)) {
-            sim->snr_db[i] = atof(token);
-            token = strtok(NULL, tk_seps_prepared);
-            sim->trn_req[i++] = atoi(token);
-            token = strtok(NULL, tk_seps_prepared);
-          }
-        }
-        else {
+        SPF_NEXT_TOKEN(token);
+        if (token[0] != GROUP_CHAR_BEGIN) {
           err_msg("sim_bg init error: cannot read SNR_val_trn.");
-          return RC_ERROR;
+          goto ret_err;
+        }
+        SPF_NEXT_TOKEN(token);
+        while (token[0] != GROUP_CHAR_END) {
+          if (i >= SNR_NUM_MAX) {
+            err_msg("sim_bg init error: too many SNR values!");
+            goto ret_err;
+          }
+          sim->snr_db[i] = atof(token);
+          SPF_NEXT_TOKEN(token);
+          if (token[0] == GROUP_CHAR_END) {
+            err_msg("sim_bg init error: cannot read SNR_val_trn.");
+            goto ret_err;
+          }
+          sim->trn_req[i++] = atoi(token);
+          SPF_NEXT_TOKEN(token);
         }
         sim->snr_num = i;
         token = strtok(NULL, tk_seps_prepared);
@@ -266,7 +272,7 @@ int sim_init(
   strcpy(str1, sp_str);
   if (cdc_init(str1, &(sim->dc_inst))) {
     err_msg("sim_bg init error: cannot init codec.");
-    return RC_ERROR;
+    goto ret_err;
   }
 
   sim->code_n = cdc_get_n(sim->dc_inst);
@@ -275,7 +281,7 @@ int sim_init(
   // Check if all necessary parameters are specified.
   if (sim->snr_num < 1) {
     err_msg("sim_bg init error: no SNR values are specified.");
-    return RC_ERROR;
+    goto ret_err;
   }
   if (sim->min_trn <= 0) {
     sim->min_trn = 1;
@@ -285,7 +291,7 @@ int sim_init(
   }
   if ((sim->code_n == 0) || (sim->code_k == 0)) {
     err_msg("sim_bg init error: code_n or code_k are not specified.");
-    return RC_ERROR;
+    goto ret_err;
   }
 
   // Assign other settings and init counters in the simulation instance.
@@ -305,6 +311,16 @@ int sim_init(
   (*inst) = sim;
 
   return RC_OK;
+
+ret_err:
+
+  free(str1);
+  free(sp_str);
+  if (sim != NULL) {
+    cdc_close(sim->dc_inst);
+    free(sim);
+  }
+  return RC_ERROR;
 }
 
 // Delete simulation instance.
@@ -543,7 +559,7 @@ sim_save_res(
   sim_bg_inst *sim;
   FILE *fp;
   char bsyfn[FN_LEN_MAX]; // Busy flag file name.
-  char *str1, *token; // For old res file parsing.
+  char *str1 = NULL, *token; // For old res file parsing.
   int snr_num = 0;
   double snr_db[SNR_NUM_MAX];
   sim_point pt_file[SNR_NUM_MAX];
@@ -593,41 +609,42 @@ sim_save_res(
         &token, tr_num_token, &pt_file[0].trn, sizeof(sim_point), &trn_n, SNR_NUM_MAX, err_reading_str
       );
       if (rc == RC_OK) continue;
-      if (rc == RC_ERROR) return RC_ERROR;
+      if (rc == RC_ERROR) goto ret_err;
       rc = tryread_group_int_param(
         &token, en_bit_token, &pt_file[0].en_bit, sizeof(sim_point), &en_bit_n, SNR_NUM_MAX, err_reading_str
       );
       if (rc == RC_OK) continue;
-      if (rc == RC_ERROR) return RC_ERROR;
+      if (rc == RC_ERROR) goto ret_err;
       rc = tryread_group_int_param(
         &token, en_bl_token, &pt_file[0].en_bl, sizeof(sim_point), &en_bl_n, SNR_NUM_MAX, err_reading_str
       );
       if (rc == RC_OK) continue;
-      if (rc == RC_ERROR) return RC_ERROR;
+      if (rc == RC_ERROR) goto ret_err;
       rc = tryread_group_int_param(
         &token, er_n_token, &pt_file[0].er_n, sizeof(sim_point), &er_n_n, SNR_NUM_MAX, err_reading_str
       );
       if (rc == RC_OK) continue;
-      if (rc == RC_ERROR) return RC_ERROR;
+      if (rc == RC_ERROR) goto ret_err;
       rc = tryread_group_int_param(
         &token, ml_tr_num_token, &pt_file[0].trn_ml, sizeof(sim_point), &ml_trn_n, SNR_NUM_MAX, err_reading_str
       );
       if (rc == RC_OK) continue;
-      if (rc == RC_ERROR) return RC_ERROR;
+      if (rc == RC_ERROR) goto ret_err;
       rc = tryread_group_int_param(
         &token, enml_bl_token, &pt_file[0].enml_bl, sizeof(sim_point), &enml_bl_n, SNR_NUM_MAX, err_reading_str
       );
       if (rc == RC_OK) continue;
-      if (rc == RC_ERROR) return RC_ERROR;
+      if (rc == RC_ERROR) goto ret_err;
       SPF_SKIP_UNKNOWN_PARAMETER(token);
     }
     free(str1);
+    str1 = NULL;
 
     // Check validity of the data.
     if ((snr_num != trn_n) || (en_bit_n != trn_n) || (en_bl_n != trn_n) || (er_n_n != trn_n)
         || (enml_bl_n != trn_n) || (ml_trn_n != trn_n)) {
       err_msg("sim_bg saving error: invalid old res file.");
-      return RC_ERROR;
+      goto ret_err;
     }
 
     // Update the data.
@@ -671,7 +688,7 @@ sim_save_res(
   fp = fopen(sim->rf_name, "wt");
   if (fp == NULL) {
     err_msg("sim_bg saving error: cannot open file to save results.");
-    return RC_ERROR;
+    goto ret_err;
   }
 
   fprintf(fp, "code_n %d\ncode_k %d\n\n", sim->code_n, sim->code_k);
@@ -734,6 +751,12 @@ sim_save_res(
 
   fclose(fp);
   return RC_OK;
+
+ret_err:
+
+  free(str1);
+  remove(bsyfn);
+  return RC_ERROR;
 }
 
 // Control simulation parameters "on the fly".
-- 
2.43.0


From e1418b9f3609e11d4619a8dd6cf959310745c970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:33 +0000
Subject: [PATCH 06/31] fix: read includes, comments and group brackets at any
 place of parameter files

---
 common/spf_par.c              | 81 +++++++++++++++++++++--------------
 dtrm/dtrm0.c                  |  2 +-
 dtrm/dtrm1.c                  |  2 +-
 dtrm_glp/dtrm_glp_main.c      |  2 +-
 polar_scl/ca_polar_scl_main.c |  2 +-
 simulators/sim_bg.c           |  2 +-
 6 files changed, 54 insertions(+), 37 deletions(-)

diff --git a/common/spf_par.c b/common/spf_par.c
index 374e189..23c1944 100644
--- a/common/spf_par.c
+++ b/common/spf_par.c
@@ -100,6 +100,8 @@ spf_read_preparse_ext(
    FILE *sp_file; // Simulation parameters file.
    char *sp_str, *str1, *str2, *token;
    int sp_str_len, str2_len, i1;
+   int in_group = 0; // 1 inside a group.
+   int group_end;
 
    // Read simulation parameters file to str1.
    if ((sp_file = fopen(spf_name, "rb")) == NULL) {
@@ -120,15 +122,16 @@ spf_read_preparse_ext(
       return RC_ERROR;
    }
    fclose(sp_file);
-   if (i1 >= SP_STR_MAX) {
+   if (i1 >= SP_STR_MAX - 1) {
       err_msg("spf_read_preparse(): file is too huge.");
       free(str1);
       return RC_ERROR;
    }
+   str1[i1++] = LF_CHAR; // The last token and comment have to end too.
    str1[i1] = 0;
 
-   // Allocate future sp_str.
-   sp_str = (char *)malloc(SP_STR_MAX);
+   // Allocate future sp_str. Separating the brackets may make it longer.
+   sp_str = (char *)malloc(SP_STR_MAX * 2);
    if (sp_str == NULL) {
       err_msg("spf_read_preparse(): short of memory!");
       free(str1);
@@ -148,7 +151,7 @@ spf_read_preparse_ext(
       // Includes.
       if (strcmp(token, include_token) == 0) {
          token = strtok(NULL, token_seps);
-         if ((sp_file = fopen(token, "rb")) == NULL) {
+         if ((token == NULL) || ((sp_file = fopen(token, "rb")) == NULL)) {
             err_msg("spf_read_preparse(): can't open include file.");
             free(sp_str);
             free(str1);
@@ -162,7 +165,13 @@ spf_read_preparse_ext(
             return RC_ERROR;
          }
          fclose(sp_file);
-         str1[i1++] = ' ';
+         if (i1 >= SP_STR_MAX - 1) {
+            err_msg("spf_read_preparse(): include file is too huge.");
+            free(sp_str);
+            free(str1);
+            return RC_ERROR;
+         }
+         str1[i1++] = LF_CHAR; // The last token and comment have to end here.
          str1[i1] = 0;
          i1 = strcpy_strip_comments(str1, i1, 1, str1);
          if (i1 + str2_len >= SP_STR_MAX) {
@@ -181,45 +190,53 @@ spf_read_preparse_ext(
       }
       
       // Group begins.
-      if (token[0] == GROUP_CHAR_BEGIN) {
+      if ((token[0] == GROUP_CHAR_BEGIN) && (in_group == 0)) {
+         in_group = 1;
          sp_str[sp_str_len++] = GROUP_CHAR_BEGIN;
          sp_str[sp_str_len++] = TOKEN_SEP_CHAR;
-         sp_str[sp_str_len] = 0;
-         if (strlen(token) > 1) {
-            strcat(sp_str, token + 1);
-            sp_str_len += strlen(token) - 1;
-            sp_str[sp_str_len++] = TOKEN_SEP_CHAR;
-            sp_str[sp_str_len] = 0;
-         }
-         token = strtok(NULL, token_seps);
-         continue;
+         token++;
       }
 
-      // Group ends.
-      if (token[strlen(token) - 1] == GROUP_CHAR_END) {
-         if (strlen(token) > 1) {
-            token[strlen(token) - 1] = 0;
-            strcat(sp_str, token);
-            sp_str_len += strlen(token);
-            sp_str[sp_str_len++] = TOKEN_SEP_CHAR;
-            sp_str[sp_str_len] = 0;
+      // Group ends after this token.
+      i1 = strlen(token);
+      group_end = ((in_group == 1) && (i1 > 0) && (token[i1 - 1] == GROUP_CHAR_END));
+      if (group_end) token[--i1] = 0;
+
+      if (i1 > 0) {
+         if ((token[0] == GROUP_CHAR_BEGIN) || (token[0] == GROUP_CHAR_END) || (token[i1 - 1] == GROUP_CHAR_END)) {
+            err_msg("spf_read_preparse(): unbalanced group brackets.");
+            free(sp_str);
+            free(str1);
+            return RC_ERROR;
          }
-         sp_str[sp_str_len++] = GROUP_CHAR_END;
+         memcpy(sp_str + sp_str_len, token, i1);
+         sp_str_len += i1;
          sp_str[sp_str_len++] = TOKEN_SEP_CHAR;
-         sp_str[sp_str_len] = 0;
-         token = strtok(NULL, token_seps);
-         continue;
       }
 
-      // All other tokens.
-      strcat(sp_str, token);
-      sp_str_len += strlen(token);
-      sp_str[sp_str_len++] = TOKEN_SEP_CHAR;
+      if (group_end) {
+         in_group = 0;
+         sp_str[sp_str_len++] = GROUP_CHAR_END;
+         sp_str[sp_str_len++] = TOKEN_SEP_CHAR;
+      }
       sp_str[sp_str_len] = 0;
-      
+
       token = strtok(NULL, token_seps);
    }
 
+   if (in_group == 1) {
+      err_msg("spf_read_preparse(): a group is not closed.");
+      free(sp_str);
+      free(str1);
+      return RC_ERROR;
+   }
+   if (sp_str_len >= SP_STR_MAX) {
+      err_msg("spf_read_preparse(): file is too huge.");
+      free(sp_str);
+      free(str1);
+      return RC_ERROR;
+   }
+
    free(str1);
    (*out_str) = sp_str;
 
diff --git a/dtrm/dtrm0.c b/dtrm/dtrm0.c
index 8f832d3..1115b86 100644
--- a/dtrm/dtrm0.c
+++ b/dtrm/dtrm0.c
@@ -161,7 +161,7 @@ cdc_init(
    memset(dd, 0, sizeof(cdc_inst_type));
 
    // Allocate temporary string for parsing.
-   str1 = (char *)malloc(SP_STR_MAX);
+   str1 = (char *)malloc(strlen(param_str) + 1);
    if (str1 == NULL) {
       err_msg("cdc_init: Short of memory!");
       goto ret_err;
diff --git a/dtrm/dtrm1.c b/dtrm/dtrm1.c
index 44577ea..37a9ee1 100644
--- a/dtrm/dtrm1.c
+++ b/dtrm/dtrm1.c
@@ -168,7 +168,7 @@ cdc_init(
    memset(dd, 0, sizeof(cdc_inst_type));
 
    // Allocate temporary string for parsing.
-   str1 = (char *)malloc(SP_STR_MAX);
+   str1 = (char *)malloc(strlen(param_str) + 1);
    if (str1 == NULL) {
       err_msg("cdc_init: Short of memory!");
       goto ret_err;
diff --git a/dtrm_glp/dtrm_glp_main.c b/dtrm_glp/dtrm_glp_main.c
index 1012f40..dd1ba0a 100644
--- a/dtrm_glp/dtrm_glp_main.c
+++ b/dtrm_glp/dtrm_glp_main.c
@@ -108,7 +108,7 @@ cdc_init(
    memset(dd, 0, sizeof(cdc_inst_type));
 
    // Allocate temporary string for parsing.
-   str1 = (char *)malloc(SP_STR_MAX);
+   str1 = (char *)malloc(strlen(param_str) + 1);
    if (str1 == NULL) {
       err_msg("cdc_init: Short of memory!");
       goto ret_err;
diff --git a/polar_scl/ca_polar_scl_main.c b/polar_scl/ca_polar_scl_main.c
index bb02083..28a5e10 100644
--- a/polar_scl/ca_polar_scl_main.c
+++ b/polar_scl/ca_polar_scl_main.c
@@ -158,7 +158,7 @@ cdc_init(
    memset(dd, 0, sizeof(cdc_inst_type));
 
    // Allocate temporary string for parsing.
-   str1 = (char *)malloc(SP_STR_MAX);
+   str1 = (char *)malloc(strlen(param_str) + 1);
    if (str1 == NULL) {
       err_msg("cdc_init: Short of memory!");
       goto ret_err;
diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 8dba387..53a344a 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -205,7 +205,7 @@ int sim_init(
   memset(sim, 0, sizeof(sim_bg_inst));
 
   // Allocate temporary string for parsing.
-  str1 = (char *)malloc(SP_STR_MAX);
+  str1 = (char *)malloc(strlen(sp_str) + 1);
   if (str1 == NULL) {
     err_msg("sim_bg init error: short of memory!");
     goto ret_err;
-- 
2.43.0


From 07faa4e44f3197ac59604228f1a3435cd3de6fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:26 +0000
Subject: [PATCH 07/31] fix: decode long (m, m) and (1, m) nodes without fixed
 size buffers

---
 dtrm/dtrm0.c | 7 +++----
 dtrm/dtrm1.c | 9 +++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/dtrm/dtrm0.c b/dtrm/dtrm0.c
index 1115b86..9fe571e 100644
--- a/dtrm/dtrm0.c
+++ b/dtrm/dtrm0.c
@@ -92,19 +92,18 @@ tri0_dec(
 
    // RM(m, m) case.
    if (r == m) {
-      int tmp[1024];
       (*x_dec_len) = n; // n information bits.
       for (i = 0; i < n; i++) {
          if (CHECK_EST0(y_in[i])) {
-            tmp[i] = 0;
+            x_dec[i] = 0;
             y_dec[i] = YLDEC0;
          }
          else {
-            tmp[i] = 1;
+            x_dec[i] = 1;
             y_dec[i] = YLDEC1;
          }
       }
-      mrm_enc_mm_bsc(m, tmp, x_dec);
+      mrm_enc_mm_bsc(m, x_dec, x_dec);
       return 0;
    }
 
diff --git a/dtrm/dtrm1.c b/dtrm/dtrm1.c
index 37a9ee1..59b70d2 100644
--- a/dtrm/dtrm1.c
+++ b/dtrm/dtrm1.c
@@ -75,7 +75,7 @@ tri1_dec(
 )
 {
    int i, n2, cur_x_dec_len;
-   int tmp[4096];
+   int *tmp;
    double *y1, *y2, *y_dec1, *y_dec2;
 
    // RM(m, m) case.
@@ -85,15 +85,15 @@ tri1_dec(
 
       for (i = 0; i < n; i++) {
          if (y_in[i] > 0) {
-            tmp[i] = 0;
+            x_dec[i] = 0;
             y_dec[i] = 1.0;
          }
          else {
-            tmp[i] = 1;
+            x_dec[i] = 1;
             y_dec[i] = -1.0;
          }
       }
-      mrm_enc_mm_bsc(m, tmp, x_dec);
+      mrm_enc_mm_bsc(m, x_dec, x_dec);
 
       return 0;
 
@@ -107,6 +107,7 @@ tri1_dec(
 #else
       if (rm1_dec_sh_finp(m, y_in, x_dec)) return 1;
 #endif
+      tmp = (int *)aux_buf; // n items are available.
       mrm_enc_bsc(m, r, x_dec, tmp);
       for (i = 0; i < n; i++) y_dec[i] = (double)(1 - (tmp[i] << 1));
       return 0;
-- 
2.43.0


From 32bf143bb3614e158288cde17d50b48dbd07646a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:27 +0000
Subject: [PATCH 08/31] fix: reject code parameters that are out of range

---
 common/srm_utils.h            | 5 +++++
 dtrm/dtrm0.c                  | 4 ++++
 dtrm/dtrm1.c                  | 4 ++++
 dtrm_glp/dtrm_glp_main.c      | 5 +++++
 polar_scl/ca_polar_scl_main.c | 4 ++++
 5 files changed, 22 insertions(+)

diff --git a/common/srm_utils.h b/common/srm_utils.h
index 9daf2ae..4f6ea84 100644
--- a/common/srm_utils.h
+++ b/common/srm_utils.h
@@ -25,6 +25,11 @@
 
 #include "typedefs.h"
 
+//-----------------------------------------------------------------------------
+// Defines
+
+#define RM_M_MAX 20 // Max supported RM m parameter.
+
 //-----------------------------------------------------------------------------
 // Prototypes.
 
diff --git a/dtrm/dtrm0.c b/dtrm/dtrm0.c
index 9fe571e..f0fe99a 100644
--- a/dtrm/dtrm0.c
+++ b/dtrm/dtrm0.c
@@ -187,6 +187,10 @@ cdc_init(
       err_msg("cdc_init: RM_m or RM_r are not specified.");
       goto ret_err;
    }
+   if ((c_m > RM_M_MAX) || (c_r < 1) || (c_r > c_m)) {
+      err_msg("cdc_init: RM_m or RM_r are out of range.");
+      goto ret_err;
+   }
 
    // Complete settings.
    dd->c_n = c_n = 1 << c_m;
diff --git a/dtrm/dtrm1.c b/dtrm/dtrm1.c
index 59b70d2..82bcab1 100644
--- a/dtrm/dtrm1.c
+++ b/dtrm/dtrm1.c
@@ -196,6 +196,10 @@ cdc_init(
       err_msg("cdc_init: RM_m or RM_r are not specified.");
       goto ret_err;
    }
+   if ((c_m > RM_M_MAX) || (c_r < 1) || (c_r > c_m)) {
+      err_msg("cdc_init: RM_m or RM_r are out of range.");
+      goto ret_err;
+   }
 
    // Complete settings.
    dd->c_n = c_n = 1 << c_m;
diff --git a/dtrm_glp/dtrm_glp_main.c b/dtrm_glp/dtrm_glp_main.c
index dd1ba0a..6b24ce2 100644
--- a/dtrm_glp/dtrm_glp_main.c
+++ b/dtrm_glp/dtrm_glp_main.c
@@ -185,6 +185,11 @@ cdc_init(
       err_msg("cdc_init: RM_m or RM_r are not specified.");
       goto ret_err;
    }
+   // Decoding starts below the root, so (1, m) and (m, m) are not supported.
+   if ((c_m > RM_M_MAX) || (c_r < 2) || (c_r >= c_m)) {
+      err_msg("cdc_init: RM_m or RM_r are out of range.");
+      goto ret_err;
+   }
    if (dd->dc.node_table_len == 0) {
       err_msg("cdc_init: No border nodes map.");
       goto ret_err;
diff --git a/polar_scl/ca_polar_scl_main.c b/polar_scl/ca_polar_scl_main.c
index 28a5e10..b488d89 100644
--- a/polar_scl/ca_polar_scl_main.c
+++ b/polar_scl/ca_polar_scl_main.c
@@ -243,6 +243,10 @@ cdc_init(
       err_msg("cdc_init: c_m is not specified.");
       goto ret_err;
    }
+   if ((c_m < 1) || (c_m > RM_M_MAX)) {
+      err_msg("cdc_init: c_m is out of range.");
+      goto ret_err;
+   }
    if (dd->dc.node_table_len == 0) {
       err_msg("cdc_init: No info_bits_mask.");
       goto ret_err;
-- 
2.43.0


From 4805224dda28ddc1ffd546fdeb653b6a1553b4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:27 +0000
Subject: [PATCH 09/31] fix: reject masks and CRCs that do not match the code

---
 common/srm_utils.c            |  6 ++++++
 common/srm_utils.h            |  3 +++
 dtrm_glp/dtrm_glp_main.c      |  9 +++++++++
 polar_scl/ca_polar_scl_main.c | 10 ++++++++++
 4 files changed, 28 insertions(+)

diff --git a/common/srm_utils.c b/common/srm_utils.c
index fac66a3..e7d4775 100644
--- a/common/srm_utils.c
+++ b/common/srm_utils.c
@@ -51,6 +51,12 @@ int calc_rm_k(int m, int r) {
    return calc_rm_k(m - 1, r - 1) + calc_rm_k(m - 1, r);
 }
 
+// Calculate the number of border nodes, (0, m) and (m, m), of RM(r, m) code.
+int calc_border_nodes_num(int m, int r) {
+   if ((r == 0) || (m == r)) return 1;
+   return calc_border_nodes_num(m - 1, r - 1) + calc_border_nodes_num(m - 1, r);
+}
+
 // Encode (m, m) code (for BSC).
 // (Or decode, since the inverse matrix is the same.)
 // Modified generator matrix.
diff --git a/common/srm_utils.h b/common/srm_utils.h
index 4f6ea84..4a78c5b 100644
--- a/common/srm_utils.h
+++ b/common/srm_utils.h
@@ -37,6 +37,9 @@
 // \sum_0^r {m \choose i}.
 int calc_rm_k(int m, int r);
 
+// Calculate the number of border nodes, (0, m) and (m, m), of RM(r, m) code.
+int calc_border_nodes_num(int m, int r);
+
 // Encode (m, m) code (for BSC).
 // (Or decode, since the inverse matrix is the same.)
 // Modified generator matrix.
diff --git a/dtrm_glp/dtrm_glp_main.c b/dtrm_glp/dtrm_glp_main.c
index 6b24ce2..2ca68bc 100644
--- a/dtrm_glp/dtrm_glp_main.c
+++ b/dtrm_glp/dtrm_glp_main.c
@@ -125,6 +125,7 @@ cdc_init(
       TRYGET_INT_TOKEN(token, "RM_r", c_r);
       if (strcmp(token, "border_node_mask") == 0) {
          SPF_NEXT_TOKEN(token);
+         if (dd->dc.node_table != NULL) free(dd->dc.node_table); // In case it is repeated.
          dd->dc.node_table_len = strlen(token);
          dd->dc.node_table = (uint32 *)malloc(dd->dc.node_table_len * 4);
          if (dd->dc.node_table == NULL) {
@@ -194,6 +195,10 @@ cdc_init(
       err_msg("cdc_init: No border nodes map.");
       goto ret_err;
    }
+   if (dd->dc.node_table_len != calc_border_nodes_num(c_m, c_r)) {
+      err_msg("cdc_init: border_node_mask length does not match the code.");
+      goto ret_err;
+   }
    if (dd->dc.peak_lsiz == 0) {
       err_msg("cdc_init: No list size.");
       goto ret_err;
@@ -208,6 +213,10 @@ cdc_init(
    for (i = 0; i < dd->dc.node_table_len; i++)
       dd->dc.node_table[i] = (dd->dc.node_table[i] == 0) ? 0 : dd->dc.peak_lsiz;
    dd->c_k = dd->dc.c_k = c_k = calc_srm_k(c_m, c_r, dd->dc.node_table);
+   if (c_k < 1) {
+      err_msg("cdc_init: no information bits.");
+      goto ret_err;
+   }
 
    // Generate permutations.
    if (p_num == 0) {
diff --git a/polar_scl/ca_polar_scl_main.c b/polar_scl/ca_polar_scl_main.c
index b488d89..b1d62bd 100644
--- a/polar_scl/ca_polar_scl_main.c
+++ b/polar_scl/ca_polar_scl_main.c
@@ -174,6 +174,7 @@ cdc_init(
       TRYGET_INT_TOKEN(token, "c_m", c_m);
       if (strcmp(token, "info_bits_mask") == 0) {
          SPF_NEXT_TOKEN(token);
+         if (dd->dc.node_table != NULL) free(dd->dc.node_table); // In case it is repeated.
          dd->dc.node_table_len = strlen(token);
          dd->dc.node_table = (uint32 *)malloc(dd->dc.node_table_len * 4);
          if (dd->dc.node_table == NULL) {
@@ -187,6 +188,7 @@ cdc_init(
       }
       if (strcmp(token, "ca_polar_crc") == 0) {
          SPF_NEXT_TOKEN(token);
+         if (dd->crc != NULL) free(dd->crc); // In case it is repeated.
          dd->crc_len = strlen(token);
          dd->crc = (int *)malloc(dd->crc_len * sizeof(int));
          if (dd->crc == NULL) {
@@ -251,6 +253,10 @@ cdc_init(
       err_msg("cdc_init: No info_bits_mask.");
       goto ret_err;
    }
+   if (dd->dc.node_table_len != (1 << c_m)) {
+      err_msg("cdc_init: info_bits_mask length does not match the code.");
+      goto ret_err;
+   }
    if (dd->dc.peak_lsiz == 0) {
       err_msg("cdc_init: No list size.");
       goto ret_err;
@@ -260,6 +266,10 @@ cdc_init(
    dd->c_n = dd->dc.c_n = c_n = 1 << c_m;
    dd->c_k = dd->dc.c_k = c_k = get_k_from_node_table(c_n, dd->dc.node_table);
    dd->eff_k = c_k - dd->crc_len;
+   if ((dd->eff_k < 1) || (dd->eff_k < dd->crc_len)) {
+      err_msg("cdc_init: too few information bits.");
+      goto ret_err;
+   }
    dd->dc.ret_list = (dd->crc_len > 0) ? 1 : 0;
    for (i = 0; i < dd->dc.node_table_len; i++)
       dd->dc.node_table[i] = (dd->dc.node_table[i] == 0) ? 0 : dd->dc.peak_lsiz;
-- 
2.43.0


From 5c7435a952a157e95fa0263896192c0b7766ecce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:15 +0000
Subject: [PATCH 10/31] fix: reject invalid permutations and accept any number
 of valid ones

---
 common/srm_utils.c            | 12 ++++++++
 common/srm_utils.h            |  4 +++
 dtrm_glp/dtrm_glp_main.c      | 54 +++++++++++++++++++++++++++++------
 polar_scl/ca_polar_scl_main.c | 52 +++++++++++++++++++++++++++------
 4 files changed, 105 insertions(+), 17 deletions(-)

diff --git a/common/srm_utils.c b/common/srm_utils.c
index e7d4775..a5a01af 100644
--- a/common/srm_utils.c
+++ b/common/srm_utils.c
@@ -57,6 +57,18 @@ int calc_border_nodes_num(int m, int r) {
    return calc_border_nodes_num(m - 1, r - 1) + calc_border_nodes_num(m - 1, r);
 }
 
+// Check a permutation of 0 ... m - 1.
+// Return: 0 - not a permutation, 1 - identity, 2 - any other permutation.
+int check_permutation(int m, int *p) {
+   int i, found = 0, res = 1;
+   for (i = 0; i < m; i++) {
+      if ((p[i] < 0) || (p[i] >= m) || ((found >> p[i]) & 1)) return 0;
+      found |= 1 << p[i];
+      if (p[i] != i) res = 2;
+   }
+   return res;
+}
+
 // Encode (m, m) code (for BSC).
 // (Or decode, since the inverse matrix is the same.)
 // Modified generator matrix.
diff --git a/common/srm_utils.h b/common/srm_utils.h
index 4a78c5b..a98f9b1 100644
--- a/common/srm_utils.h
+++ b/common/srm_utils.h
@@ -40,6 +40,10 @@ int calc_rm_k(int m, int r);
 // Calculate the number of border nodes, (0, m) and (m, m), of RM(r, m) code.
 int calc_border_nodes_num(int m, int r);
 
+// Check a permutation of 0 ... m - 1.
+// Return: 0 - not a permutation, 1 - identity, 2 - any other permutation.
+int check_permutation(int m, int *p);
+
 // Encode (m, m) code (for BSC).
 // (Or decode, since the inverse matrix is the same.)
 // Modified generator matrix.
diff --git a/dtrm_glp/dtrm_glp_main.c b/dtrm_glp/dtrm_glp_main.c
index 2ca68bc..454bd22 100644
--- a/dtrm_glp/dtrm_glp_main.c
+++ b/dtrm_glp/dtrm_glp_main.c
@@ -96,8 +96,8 @@ cdc_init(
    int c_n = 0, c_k = 0, c_m = 0, c_r = 0;
    int i, j, i1, i2, pn;
    int *p1, *px, *py;
-   int p_info[10000], inf_coeff[2048];
-   int p_num = 0;
+   int *p_info = NULL, *inf_coeff = NULL, *inf_pos;
+   int p_num = 0, p_info_len = 0;
 
    // Allocate decoder instance.
    dd = (cdc_inst_type *)malloc(sizeof(cdc_inst_type));
@@ -115,6 +115,13 @@ cdc_init(
    }
    str1[0] = 0;
 
+   // Permutations: there are at most strlen / 2 numbers.
+   p_info = (int *)malloc((strlen(param_str) / 2 + RM_M_MAX) * sizeof(int));
+   if (p_info == NULL) {
+      err_msg("cdc_init: Short of memory!");
+      goto ret_err;
+   }
+
    // ----- Parse parameters.
    strcpy(str1, param_str);
 
@@ -144,7 +151,7 @@ cdc_init(
          continue;
       }
       if (strcmp(token, "permutations") == 0) {
-         if (c_m == 0) {
+         if ((c_m < 1) || (c_m > RM_M_MAX)) {
             err_msg("cdc_init(): parameters file: RM_m must be specified before permutations.");
             goto ret_err;
          }
@@ -155,11 +162,16 @@ cdc_init(
             p_num = 0;
             while (token[0] != GROUP_CHAR_END) {
                for (i = 0; i < c_m; i++) {
+                  if (token[0] == GROUP_CHAR_END) {
+                     err_msg("cdc_init(): parameters file: permutations.");
+                     goto ret_err;
+                  }
                   p_info[i1++] = atoi(token);
                   SPF_NEXT_TOKEN(token);
                }
                p_num++;
             }
+            p_info_len = i1;
          }
          else {
             err_msg("cdc_init(): parameters file: permutations.");
@@ -225,11 +237,23 @@ cdc_init(
       for (i = 0; i < c_m; i++) p_info[i] = i;
       p_num = 1;
    }
+   else if (p_info_len != p_num * c_m) {
+      err_msg("cdc_init: permutations do not match RM_m.");
+      goto ret_err;
+   }
+   for (pn = 0; pn < p_num; pn++) {
+      i = check_permutation(c_m, p_info + pn * c_m);
+      // Permutations do not preserve subcodes.
+      if ((i == 0) || ((i != 1) && (c_k != calc_rm_k(c_m, c_r)))) {
+         err_msg("cdc_init: invalid permutation.");
+         goto ret_err;
+      }
+   }
    dd->dc.p_num = p_num;
    if (p_num > 0) {
-      dd->dc.pxarr = (int *)malloc(p_num * c_k * sizeof(int));
-      dd->dc.pyarr = (int *)malloc(p_num * c_n * sizeof(int));
-      if ((dd->dc.pxarr == NULL) || (dd->dc.pxarr == NULL)) {
+      dd->dc.pxarr = (int *)malloc((size_t)p_num * c_k * sizeof(int));
+      dd->dc.pyarr = (int *)malloc((size_t)p_num * c_n * sizeof(int));
+      if ((dd->dc.pxarr == NULL) || (dd->dc.pyarr == NULL)) {
          err_msg("cdc_init: Short of memory.");
          goto ret_err;
       }
@@ -237,6 +261,12 @@ cdc_init(
       py = dd->dc.pyarr;
       p1 = p_info;
    }
+   inf_coeff = (int *)malloc(2 * c_n * sizeof(int));
+   if (inf_coeff == NULL) {
+      err_msg("cdc_init: Short of memory.");
+      goto ret_err;
+   }
+   inf_pos = inf_coeff + c_n; // Inverse of inf_coeff[].
    // Calculate inf_coeff[]. It contains all integers with weight <= c_r
    // in reverse lexicographic order.
    i1 = 0;
@@ -244,7 +274,10 @@ cdc_init(
       // i2 <-- weight(i);
       i2 = i & 1;
       for (j = 1; j < c_m; j++) i2 += (i >> j) & 1;
-      if (i2 <= c_r) inf_coeff[i1++] = i;
+      if (i2 <= c_r) {
+         inf_pos[i] = i1;
+         inf_coeff[i1++] = i;
+      }
    }
    // Generate permutation arrays.
    for (pn = 0; pn < p_num; pn++) {
@@ -262,14 +295,15 @@ cdc_init(
          i1 = 0;
          i2 = inf_coeff[i];
          for (j = 0; j < c_m; j++) i1 |= ((i2 >> j) & 1) << p1[j];
-         for (j = 0; j < c_k; j++) if (inf_coeff[j] == i1) break;
-         px[i] = j;
+         px[i] = inf_pos[i1];
       }
       // for (i = 0; i < c_k; i++) msg_printf("%d ", px[i]); // DDD
       // msg_printf("\n"); // DDD
       px += c_k;
       p1 += c_m;
    }
+   free(inf_coeff); inf_coeff = NULL;
+   free(p_info); p_info = NULL;
 
 #ifdef FORMAT_Q
    if (dec_tables_init()) {
@@ -292,6 +326,8 @@ cdc_init(
 ret_err:
 
    if (str1 != NULL) free(str1);
+   if (inf_coeff != NULL) free(inf_coeff);
+   if (p_info != NULL) free(p_info);
    if (dd != NULL) {
       if (dd->dc.mem_buf != NULL) free(dd->dc.mem_buf);
       if (dd->dc.pxarr != NULL) free(dd->dc.pxarr);
diff --git a/polar_scl/ca_polar_scl_main.c b/polar_scl/ca_polar_scl_main.c
index b1d62bd..4fe5093 100644
--- a/polar_scl/ca_polar_scl_main.c
+++ b/polar_scl/ca_polar_scl_main.c
@@ -146,8 +146,8 @@ cdc_init(
    int c_n = 0, c_k = 0, c_m = 0;
    int i, j, i1, i2, pn;
    int *p1, *px, *py;
-   int p_info[10000], inf_coeff[2048];
-   int p_num = 0;
+   int *p_info = NULL, *inf_coeff = NULL, *inf_pos;
+   int p_num = 0, p_info_len = 0;
 
    // Allocate decoder instance.
    dd = (cdc_inst_type *)malloc(sizeof(cdc_inst_type));
@@ -165,6 +165,13 @@ cdc_init(
    }
    str1[0] = 0;
 
+   // Permutations: there are at most strlen / 2 numbers.
+   p_info = (int *)malloc((strlen(param_str) / 2 + RM_M_MAX) * sizeof(int));
+   if (p_info == NULL) {
+      err_msg("cdc_init: Short of memory!");
+      goto ret_err;
+   }
+
    // ----- Parse parameters.
    strcpy(str1, param_str);
 
@@ -208,7 +215,7 @@ cdc_init(
       }
       if (strcmp(token, "permutations") == 0) {
          // TODO: Permutations that were used for RM codes are not usable with Polar, but let's leave it here for now.
-         if (c_m == 0) {
+         if ((c_m < 1) || (c_m > RM_M_MAX)) {
             err_msg("cdc_init(): parameters file: c_m must be specified before permutations.");
             goto ret_err;
          }
@@ -219,11 +226,16 @@ cdc_init(
             p_num = 0;
             while (token[0] != GROUP_CHAR_END) {
                for (i = 0; i < c_m; i++) {
+                  if (token[0] == GROUP_CHAR_END) {
+                     err_msg("cdc_init(): parameters file: permutations.");
+                     goto ret_err;
+                  }
                   p_info[i1++] = atoi(token);
                   SPF_NEXT_TOKEN(token);
                }
                p_num++;
             }
+            p_info_len = i1;
          }
          else {
             err_msg("cdc_init(): parameters file: permutations.");
@@ -282,10 +294,22 @@ cdc_init(
       for (i = 0; i < c_m; i++) p_info[i] = i;
       p_num = 1;
    }
+   else if (p_info_len != p_num * c_m) {
+      err_msg("cdc_init: permutations do not match c_m.");
+      goto ret_err;
+   }
+   for (pn = 0; pn < p_num; pn++) {
+      i = check_permutation(c_m, p_info + pn * c_m);
+      // Permutations do not preserve subcodes.
+      if ((i == 0) || ((i != 1) && (c_k != c_n))) {
+         err_msg("cdc_init: invalid permutation.");
+         goto ret_err;
+      }
+   }
    dd->dc.p_num = p_num;
    if (p_num > 0) {
-      dd->dc.pxarr = (int *)malloc(p_num * c_k * sizeof(int));
-      dd->dc.pyarr = (int *)malloc(p_num * c_n * sizeof(int));
+      dd->dc.pxarr = (int *)malloc((size_t)p_num * c_k * sizeof(int));
+      dd->dc.pyarr = (int *)malloc((size_t)p_num * c_n * sizeof(int));
       if ((dd->dc.pxarr == NULL) || (dd->dc.pyarr == NULL)) {
          err_msg("cdc_init: Short of memory.");
          goto ret_err;
@@ -294,6 +318,12 @@ cdc_init(
       py = dd->dc.pyarr;
       p1 = p_info;
    }
+   inf_coeff = (int *)malloc(2 * c_n * sizeof(int));
+   if (inf_coeff == NULL) {
+      err_msg("cdc_init: Short of memory.");
+      goto ret_err;
+   }
+   inf_pos = inf_coeff + c_n; // Inverse of inf_coeff[].
    // Calculate inf_coeff[]. It contains all integers with weight <= c_r
    // in reverse lexicographic order.
    i1 = 0;
@@ -301,7 +331,10 @@ cdc_init(
       // i2 <-- weight(i);
       i2 = i & 1;
       for (j = 1; j < c_m; j++) i2 += (i >> j) & 1;
-      if (i2 <= c_m) inf_coeff[i1++] = i;
+      if (i2 <= c_m) {
+         inf_pos[i] = i1;
+         inf_coeff[i1++] = i;
+      }
    }
    // Generate permutation arrays.
    for (pn = 0; pn < p_num; pn++) {
@@ -319,14 +352,15 @@ cdc_init(
          i1 = 0;
          i2 = inf_coeff[i];
          for (j = 0; j < c_m; j++) i1 |= ((i2 >> j) & 1) << p1[j];
-         for (j = 0; j < c_k; j++) if (inf_coeff[j] == i1) break;
-         px[i] = j;
+         px[i] = inf_pos[i1];
       }
       // for (i = 0; i < c_k; i++) msg_printf("%d ", px[i]); // DDD
       // msg_printf("\n"); // DDD
       px += c_k;
       p1 += c_m;
    }
+   free(inf_coeff); inf_coeff = NULL;
+   free(p_info); p_info = NULL;
 
 #ifdef FORMAT_Q
    if (dec_tables_init()) {
@@ -349,6 +383,8 @@ cdc_init(
 ret_err:
 
    if (str1 != NULL) free(str1);
+   if (inf_coeff != NULL) free(inf_coeff);
+   if (p_info != NULL) free(p_info);
    if (dd != NULL) {
       if (dd->dc.mem_buf != NULL) free(dd->dc.mem_buf);
       if (dd->crc != NULL) free(dd->crc);
-- 
2.43.0


From 1176615a4acb0f6596d0e97e78039fbc00ecaa42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:15 +0000
Subject: [PATCH 11/31] fix: reject list sizes that are not positive or do not
 fit in memory

---
 dtrm_glp/dtrm_glp_main.c      | 16 ++++++++++------
 polar_scl/ca_polar_scl_main.c | 16 ++++++++++------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/dtrm_glp/dtrm_glp_main.c b/dtrm_glp/dtrm_glp_main.c
index 454bd22..6b65e79 100644
--- a/dtrm_glp/dtrm_glp_main.c
+++ b/dtrm_glp/dtrm_glp_main.c
@@ -61,9 +61,9 @@ typedef struct {
 //-----------------------------------------------------------------------------
 // Internal functions.
 
-int get_membuf_size(decoder_type *dd) {
-   int flsiz = MAX(dd->peak_lsiz, dd->p_num) * FLSIZ_MULT;
-   int mem_buf_size = 0;
+double get_membuf_size(decoder_type *dd) {
+   double flsiz = (double)MAX(dd->peak_lsiz, dd->p_num) * FLSIZ_MULT;
+   double mem_buf_size = 0; // May exceed the integer range.
 
    mem_buf_size += dd->c_n * sizeof(ylitem); // y_in
    mem_buf_size += flsiz * sizeof(int); // frind
@@ -71,7 +71,7 @@ int get_membuf_size(decoder_type *dd) {
    mem_buf_size += (dd->c_k * flsiz + 1) * sizeof(xlist_item); // xlist
    mem_buf_size += flsiz * sizeof(xlist_item *); // lind2xl
    mem_buf_size += dd->c_m * flsiz * sizeof(ylitem *); // ylist
-   mem_buf_size += dd->c_m * sizeof(ylitem *) + (dd->c_n - 1) * MAX(dd->peak_lsiz, dd->p_num) * 4 * sizeof(ylitem); // yitems
+   mem_buf_size += dd->c_m * sizeof(ylitem *) + (dd->c_n - 1.0) * MAX(dd->peak_lsiz, dd->p_num) * 4 * sizeof(ylitem); // yitems
    mem_buf_size += flsiz * sizeof(slitem); // slist
    mem_buf_size += flsiz * sizeof(int); // plist.
    mem_buf_size += dd->c_n * sizeof(xlitem); // xtmp.
@@ -211,7 +211,7 @@ cdc_init(
       err_msg("cdc_init: border_node_mask length does not match the code.");
       goto ret_err;
    }
-   if (dd->dc.peak_lsiz == 0) {
+   if (dd->dc.peak_lsiz <= 0) {
       err_msg("cdc_init: No list size.");
       goto ret_err;
    }
@@ -313,7 +313,11 @@ cdc_init(
 #endif // FORMAT_Q
 
    // Allocate decoder memory buffer
-   dd->dc.mem_buf = (uint8 *)malloc(get_membuf_size(&(dd->dc)));
+   if (get_membuf_size(&(dd->dc)) > 0x7FFFFFFF) {
+      err_msg("cdc_init: list is too large.");
+      goto ret_err;
+   }
+   dd->dc.mem_buf = (uint8 *)malloc((size_t)get_membuf_size(&(dd->dc)));
    if (dd->dc.mem_buf == NULL) {
       err_msg("cdc_init: Short of memory.");
       goto ret_err;
diff --git a/polar_scl/ca_polar_scl_main.c b/polar_scl/ca_polar_scl_main.c
index 4fe5093..dba2796 100644
--- a/polar_scl/ca_polar_scl_main.c
+++ b/polar_scl/ca_polar_scl_main.c
@@ -63,9 +63,9 @@ typedef struct {
 //-----------------------------------------------------------------------------
 // Internal functions.
 
-int get_membuf_size(decoder_type *dd) {
-   int flsiz = MAX(dd->peak_lsiz, dd->p_num) * FLSIZ_MULT;
-   int mem_buf_size = 0;
+double get_membuf_size(decoder_type *dd) {
+   double flsiz = (double)MAX(dd->peak_lsiz, dd->p_num) * FLSIZ_MULT;
+   double mem_buf_size = 0; // May exceed the integer range.
 
    mem_buf_size += dd->c_n * sizeof(ylitem); // y_in
    mem_buf_size += flsiz * sizeof(int); // frind
@@ -73,7 +73,7 @@ int get_membuf_size(decoder_type *dd) {
    mem_buf_size += (dd->c_k * flsiz + 1) * sizeof(xlist_item); // xlist
    mem_buf_size += flsiz * sizeof(xlist_item *); // lind2xl
    mem_buf_size += dd->c_m * flsiz * sizeof(ylitem *); // ylist
-   mem_buf_size += dd->c_m * sizeof(ylitem *) + (dd->c_n - 1) * MAX(dd->peak_lsiz, dd->p_num) * 4 * sizeof(ylitem); // yitems
+   mem_buf_size += dd->c_m * sizeof(ylitem *) + (dd->c_n - 1.0) * MAX(dd->peak_lsiz, dd->p_num) * 4 * sizeof(ylitem); // yitems
    mem_buf_size += flsiz * sizeof(slitem); // slist
    mem_buf_size += flsiz * sizeof(int); // plist.
    mem_buf_size += dd->c_n * sizeof(xlitem); // xtmp.
@@ -269,7 +269,7 @@ cdc_init(
       err_msg("cdc_init: info_bits_mask length does not match the code.");
       goto ret_err;
    }
-   if (dd->dc.peak_lsiz == 0) {
+   if (dd->dc.peak_lsiz <= 0) {
       err_msg("cdc_init: No list size.");
       goto ret_err;
    }
@@ -370,7 +370,11 @@ cdc_init(
 #endif // FORMAT_Q
 
    // Allocate decoder memory buffer
-   dd->dc.mem_buf = (uint8 *)malloc(get_membuf_size(&(dd->dc)));
+   if (get_membuf_size(&(dd->dc)) > 0x7FFFFFFF) {
+      err_msg("cdc_init: list is too large.");
+      goto ret_err;
+   }
+   dd->dc.mem_buf = (uint8 *)malloc((size_t)get_membuf_size(&(dd->dc)));
    if (dd->dc.mem_buf == NULL) {
       err_msg("cdc_init: Short of memory.");
       goto ret_err;
-- 
2.43.0


From b20659ab650c9b574b763ce21e71378cddbf3830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:16 +0000
Subject: [PATCH 12/31] fix: reject variable list sizes the decoder has no
 memory for

---
 dtrm_glp/dtrm_glp_main.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dtrm_glp/dtrm_glp_main.c b/dtrm_glp/dtrm_glp_main.c
index 6b65e79..01a59ad 100644
--- a/dtrm_glp/dtrm_glp_main.c
+++ b/dtrm_glp/dtrm_glp_main.c
@@ -219,6 +219,13 @@ cdc_init(
       err_msg("cdc_init: No distance_threshold.");
       goto ret_err;
    }
+   for (i = 0; (i < dd->dist_t_n) && (dd->use_var_list != 0); i++) {
+      // The decoder buffer is allocated for border_node_lsize.
+      if ((dd->lsiz[i] < 1) || (dd->lsiz[i] > dd->dc.peak_lsiz)) {
+         err_msg("cdc_init: wrong list size in distance_threshold.");
+         goto ret_err;
+      }
+   }
 
    // Complete settings.
    dd->c_n = dd->dc.c_n = c_n = 1 << c_m;
-- 
2.43.0


From 65c29ae132cced9eb486ec744b7ca6d5d62be4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 13/31] fix: never simulate less trials than requested for a
 point

---
 simulators/sim_bg.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 53a344a..8d16b45 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -44,7 +44,7 @@
 // Max # of SNR values.
 #define SNR_NUM_MAX        50
 
-#define MAX_TRIALS_PER_SNR 1e10
+#define MAX_TRIALS_PER_SNR 2e9
 
 // Minimum number of observed block errors to estimate required number of trials.
 #define MIN_EN_FOR_TRN_ESTIMATION 20
@@ -90,7 +90,8 @@ typedef struct {
   double snr_db[SNR_NUM_MAX];
   int min_trn;
   int min_en_bl;
-  int trn_req[SNR_NUM_MAX];
+  int trn_min[SNR_NUM_MAX]; // Requested number of trials.
+  int trn_req[SNR_NUM_MAX]; // Current estimate of the required number of trials.
   int do_ml; // If 1 evaluate ML LB.
   int do_ml_hd; // If 1 evaluate ML LB for hard dec. decoder.
   sim_point pt[SNR_NUM_MAX];
@@ -299,6 +300,7 @@ int sim_init(
     if (sim->trn_req[i] < 1) {
       sim->trn_req[i] = sim->min_trn;
     }
+    sim->trn_min[i] = sim->trn_req[i];
   }
   sim->csnrn = 0;
   sim->ret_int = sp->ret_int;
@@ -342,12 +344,12 @@ static void update_trn_req(
     double estimate;
     if (sim->pt[csnrn].en_bl > MIN_EN_FOR_TRN_ESTIMATION) {
       estimate = (double)sim->pt[csnrn].trn * sim->min_en_bl / sim->pt[csnrn].en_bl;
-      sim->trn_req[csnrn] = (int)MAX(sim->min_trn, MIN(estimate + 0.5, MAX_TRIALS_PER_SNR));
+      sim->trn_req[csnrn] = (int)MAX(sim->trn_min[csnrn], MIN(estimate + 0.5, MAX_TRIALS_PER_SNR));
       return;
     }
     if (sim->pt[csnrn].trn > sim->trn_req[csnrn] / 2) {
       estimate = sim->pt[csnrn].trn * 1.5;
-      sim->trn_req[csnrn] = (int)MIN(estimate + 0.5, MAX_TRIALS_PER_SNR);
+      sim->trn_req[csnrn] = (int)MAX(sim->trn_min[csnrn], MIN(estimate + 0.5, MAX_TRIALS_PER_SNR));
     }
   }
 }
@@ -777,6 +779,7 @@ void sim_control(
     case SIM_CTRL_CUR_LESS :
       sim->trn_req[csnrn] -= sim->trn_req[csnrn] / 3;
       if (sim->trn_req[csnrn] < sim->pt[csnrn].trn) sim->trn_req[csnrn] = sim->pt[csnrn].trn;
+      if (sim->trn_min[csnrn] > sim->trn_req[csnrn]) sim->trn_min[csnrn] = sim->trn_req[csnrn];
       break;
     case SIM_CTRL_CUR_NEXT :
       sim->trn_req[csnrn] = sim->pt[csnrn].trn;
-- 
2.43.0


From 8a81194a549c67da1dc5e45f5dc7ada5b3406422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 14/31] fix: reject a missing results file name, SNR values and
 rates out of range

---
 simulators/sim_bg.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 8d16b45..350db2c 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -44,6 +44,9 @@
 // Max # of SNR values.
 #define SNR_NUM_MAX        50
 
+// Max absolute SNR value (dB).
+#define SNR_DB_MAX         1000.0
+
 #define MAX_TRIALS_PER_SNR 2e9
 
 // Minimum number of observed block errors to estimate required number of trials.
@@ -280,10 +283,24 @@ int sim_init(
   sim->code_k = cdc_get_k(sim->dc_inst);
 
   // Check if all necessary parameters are specified.
+  if (sim->rf_name[0] == 0) {
+    err_msg("sim_bg init error: output file name is not specified.");
+    goto ret_err;
+  }
   if (sim->snr_num < 1) {
     err_msg("sim_bg init error: no SNR values are specified.");
     goto ret_err;
   }
+  for (int i = 0; i < sim->snr_num; i++) {
+    if (!(fabs(sim->snr_db[i]) <= SNR_DB_MAX)) {
+      err_msg("sim_bg init error: SNR value is out of range.");
+      goto ret_err;
+    }
+  }
+  if (!((sim->fixedR >= 0.0) && (sim->fixedR <= 1e6))) {
+    err_msg("sim_bg init error: invalid fixed_R.");
+    goto ret_err;
+  }
   if (sim->min_trn <= 0) {
     sim->min_trn = 1;
   }
-- 
2.43.0


From 09ebcc554476cc09243e1b94f4a4d14e9d916e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 15/31] fix: no integer overflow in the displayed bit error
 rate

---
 simulators/sim_bg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 350db2c..69fa133 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -549,7 +549,7 @@ sim_cur_res_str(
       sprintf(str1,
         "\n%3.2f\t %.3e\t %.3e\t %.3e",
         sim->snr_db[n],
-        (double)(sim->pt[n].en_bit) / (sim->pt[n].trn * sim->code_k),
+        (double)(sim->pt[n].en_bit) / ((double)sim->pt[n].trn * sim->code_k),
         (double)(sim->pt[n].en_bl) / sim->pt[n].trn,
         sim->pt[n].trn_ml ? (double)(sim->pt[n].enml_bl) / sim->pt[n].trn_ml : 0
       );
@@ -562,7 +562,7 @@ sim_cur_res_str(
       sprintf(str1,
         "\n%3.2f\t %.3e\t %.3e",
         sim->snr_db[n],
-        (double)(sim->pt[n].en_bit) / (sim->pt[n].trn * sim->code_k),
+        (double)(sim->pt[n].en_bit) / ((double)sim->pt[n].trn * sim->code_k),
         (double)(sim->pt[n].en_bl) / sim->pt[n].trn
       );
       strcat(ds, str1);
-- 
2.43.0


From 87c89d5c08080b764be819005ebc7c0406759b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 16/31] fix: wait for a busy results file in milliseconds, not
 in clock ticks

---
 simulators/sim_bg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 69fa133..da2a9ff 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -133,7 +133,7 @@ static void set_rnd_seed(long s) {
 /* Pauses for a specified number of milliseconds. */
 static void sleep(clock_t wait) {
   clock_t goal;
-  goal = wait + clock();
+  goal = wait * (CLOCKS_PER_SEC / 1000) + clock();
   while (goal > clock());
 }
 
-- 
2.43.0


From 559dfa975dfd138359d971560a42e8f5f52bb913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 17/31] fix: claim the busy flag of the results file atomically

---
 simulators/sim_bg.c | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index da2a9ff..4726fb2 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -27,6 +27,7 @@
 //-----------------------------------------------------------------------------
 // Includes.
 
+#include <errno.h>
 #include <math.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -577,7 +578,7 @@ sim_save_res(
 ) {
   sim_bg_inst *sim;
   FILE *fp;
-  char bsyfn[FN_LEN_MAX]; // Busy flag file name.
+  char bsyfn[FN_LEN_MAX + 4]; // Busy flag file name.
   char *str1 = NULL, *token; // For old res file parsing.
   int snr_num = 0;
   double snr_db[SNR_NUM_MAX];
@@ -593,24 +594,21 @@ sim_save_res(
 
   sim = (sim_bg_inst *)inst;
 
-  // Check if the file is busy.
+  // Create the busy flag. Wait if the file is busy.
   strcpy(bsyfn, sim->rf_name);
   strcat(bsyfn, ".bsy");
   n = 0;
-  while ((fp = fopen(bsyfn, "r")) != NULL) {
-    fclose(fp);
+  while ((fp = fopen(bsyfn, "wx")) == NULL) {
+    if (errno != EEXIST) {
+      err_msg("sim_bg saving error: cannot create busy flag file.");
+      return RC_ERROR;
+    }
     if (n++ > 30) {
       err_msg("sim_bg saving error: output file is busy too long.");
       return RC_ERROR;
     }
     sleep(1000);
   }
-
-  // Create the busy flag.
-  if ((fp = fopen(bsyfn, "w")) == NULL) {
-    err_msg("sim_bg saving error: cannot create busy flag file.");
-    return RC_ERROR;
-  }
   fprintf(fp, "Busy");
   fclose(fp);
 
@@ -765,10 +763,11 @@ sim_save_res(
     );
   }
 
+  fclose(fp);
+
   // Delete busy flag file.
   remove(bsyfn);
 
-  fclose(fp);
   return RC_OK;
 
 ret_err:
-- 
2.43.0


From b5ffe7ae7a59ef82f8560a71196bb9456a4fc789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 18/31] fix: refuse an unreadable or invalid old results file
 instead of overwriting it

---
 common/spf_par.c    |  4 ++--
 simulators/sim_bg.c | 25 ++++++++++++++++++++++---
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/common/spf_par.c b/common/spf_par.c
index 23c1944..aea0c49 100644
--- a/common/spf_par.c
+++ b/common/spf_par.c
@@ -115,7 +115,7 @@ spf_read_preparse_ext(
       return RC_ERROR;
    }
    str2 = str1 + SP_STR_MAX;
-   if ((i1 = fread(str1, 1, SP_STR_MAX, sp_file)) == 0) {
+   if (((i1 = fread(str1, 1, SP_STR_MAX, sp_file)) == 0) || ferror(sp_file)) {
       err_msg("spf_read_preparse(): can't read file.");
       free(str1);
       fclose(sp_file);
@@ -157,7 +157,7 @@ spf_read_preparse_ext(
             free(str1);
             return RC_ERROR;
          }
-         if ((i1 = fread(str1, 1, SP_STR_MAX - 1, sp_file)) == 0) {
+         if (((i1 = fread(str1, 1, SP_STR_MAX - 1, sp_file)) == 0) || ferror(sp_file)) {
             err_msg("spf_read_preparse(): can't read include file.");
             fclose(sp_file);
             free(sp_str);
diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 4726fb2..a785374 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -591,6 +591,7 @@ sim_save_res(
   int enml_bl_n = 0;
   char err_reading_str[] = "sim_bg saving error: error reading old res file.";
   int i, j, n, snrs_to_save;
+  int new_file; // 1 if there is no old res file.
 
   sim = (sim_bg_inst *)inst;
 
@@ -612,8 +613,26 @@ sim_save_res(
   fprintf(fp, "Busy");
   fclose(fp);
 
-  // Try to read and preparse old res file.
-  if (spf_tryread_preparse(sim->rf_name, &str1) == 0) {
+  // Check if there is an old res file with some content.
+  new_file = 1;
+  if ((fp = fopen(sim->rf_name, "rb")) != NULL) {
+    if (fgetc(fp) != EOF) new_file = 0;
+    n = ferror(fp);
+    fclose(fp);
+  }
+  else n = (errno != ENOENT);
+  if (n) {
+    err_msg(err_reading_str);
+    goto ret_err;
+  }
+
+  if (!new_file) {
+
+    // Read and preparse old res file.
+    if (spf_read_preparse(sim->rf_name, &str1) != RC_OK) {
+      err_msg(err_reading_str);
+      goto ret_err;
+    }
 
     // Get old data.
     token = strtok(str1, tk_seps_prepared);
@@ -689,7 +708,7 @@ sim_save_res(
   }
   else {
 
-    // Assume there was no old res file.
+    // There was no old res file.
     snrs_to_save = (sim->csnrn < sim->snr_num) ? sim->csnrn + 1 : sim->snr_num;
     for (n = 0; n < snrs_to_save; n++) {
       snr_db[n] = sim->snr_db[n];
-- 
2.43.0


From ae6346c819e435ddc45a798dfd4e73916415a461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 19/31] fix: keep one results row per SNR value in ascending
 order

---
 simulators/sim_bg.c | 65 ++++++++++++++++++++++++++-------------------
 1 file changed, 37 insertions(+), 28 deletions(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index a785374..c89e300 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -683,38 +683,41 @@ sim_save_res(
       goto ret_err;
     }
 
-    // Update the data.
-    for (i = 0; (i <= sim->csnrn) && (i < sim->snr_num); i++) {
-      if (sim->pt[i].trn == sim->pt_saved[i].trn) continue;
-      n = 0;
-      while ((snr_db[n] < sim->snr_db[i]) && (n < snr_num)) n++;
-      if ((snr_db[n] > sim->snr_db[i]) || (n >= snr_num)) {
-        // Make room for the new at n if required.
-        for (j = snr_num; j > n; j--) {
-          snr_db[j] = snr_db[j - 1];
-          copy_sim_point(&pt_file[j], &pt_file[j - 1]);
-        }
-        snr_num++;
-        // Add new at n.
-        snr_db[n] = sim->snr_db[i];
-        init_sim_point(&pt_file[n]);
-      }
-      // Update at n.
-      sim_point tmppt;
-      sub_sim_points(&tmppt, &sim->pt[i], &sim->pt_saved[i]);
-      add_sim_points(&pt_file[n], &pt_file[n], &tmppt);
-    }
-    snrs_to_save = snr_num;
   }
   else {
 
-    // There was no old res file.
-    snrs_to_save = (sim->csnrn < sim->snr_num) ? sim->csnrn + 1 : sim->snr_num;
-    for (n = 0; n < snrs_to_save; n++) {
-      snr_db[n] = sim->snr_db[n];
-      copy_sim_point(&pt_file[n], &sim->pt[n]);
+    // There was no old res file. Nothing is saved in it.
+    memset(sim->pt_saved, 0, sizeof(sim->pt_saved));
+  }
+
+  // Update the data.
+  for (i = 0; (i <= sim->csnrn) && (i < sim->snr_num); i++) {
+    if (sim->pt[i].trn == sim->pt_saved[i].trn) continue;
+    n = 0;
+    while ((n < snr_num) && (snr_db[n] != sim->snr_db[i])) n++;
+    if (n >= snr_num) {
+      if (snr_num >= SNR_NUM_MAX) {
+        err_msg("sim_bg saving error: too many SNR values in the res file.");
+        goto ret_err;
+      }
+      // Make room for the new at n if required.
+      n = 0;
+      while ((n < snr_num) && (snr_db[n] < sim->snr_db[i])) n++;
+      for (j = snr_num; j > n; j--) {
+        snr_db[j] = snr_db[j - 1];
+        copy_sim_point(&pt_file[j], &pt_file[j - 1]);
+      }
+      snr_num++;
+      // Add new at n.
+      snr_db[n] = sim->snr_db[i];
+      init_sim_point(&pt_file[n]);
     }
+    // Update at n.
+    sim_point tmppt;
+    sub_sim_points(&tmppt, &sim->pt[i], &sim->pt_saved[i]);
+    add_sim_points(&pt_file[n], &pt_file[n], &tmppt);
   }
+  snrs_to_save = snr_num;
   for (i = 0; (i <= sim->csnrn) && (i < sim->snr_num); i++) {
     copy_sim_point(&sim->pt_saved[i], &sim->pt[i]);
   }
@@ -730,7 +733,13 @@ sim_save_res(
   fprintf(fp, "code_n %d\ncode_k %d\n\n", sim->code_n, sim->code_k);
 
   fprintf(fp, "SNR { ");
-  for (n = 0; n < snrs_to_save; n++) fprintf(fp, "%g ", snr_db[n]);
+  for (n = 0; n < snrs_to_save; n++) {
+    // Use as many digits as necessary to read the same value back.
+    char snr_str[40];
+    sprintf(snr_str, "%.15g", snr_db[n]);
+    if (atof(snr_str) != snr_db[n]) sprintf(snr_str, "%.17g", snr_db[n]);
+    fprintf(fp, "%s ", snr_str);
+  }
   fprintf(fp, "}\n");
 
   fprintf(fp, "%s { ", tr_num_token);
-- 
2.43.0


From 414f51e598cbda58db6d54cecd0e0698e8473edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 20/31] fix: replace the results file only after the new one is
 written completely

---
 simulators/sim_bg.c | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index c89e300..989805c 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -718,13 +718,10 @@ sim_save_res(
     add_sim_points(&pt_file[n], &pt_file[n], &tmppt);
   }
   snrs_to_save = snr_num;
-  for (i = 0; (i <= sim->csnrn) && (i < sim->snr_num); i++) {
-    copy_sim_point(&sim->pt_saved[i], &sim->pt[i]);
-  }
 
-  // Save updated data.
+  // Save updated data to the busy flag file.
 
-  fp = fopen(sim->rf_name, "wt");
+  fp = fopen(bsyfn, "wt");
   if (fp == NULL) {
     err_msg("sim_bg saving error: cannot open file to save results.");
     goto ret_err;
@@ -791,10 +788,25 @@ sim_save_res(
     );
   }
 
-  fclose(fp);
+  n = ferror(fp);
+  if (fclose(fp)) n = 1;
+  if (n) {
+    err_msg("sim_bg saving error: cannot write results.");
+    goto ret_err;
+  }
 
-  // Delete busy flag file.
-  remove(bsyfn);
+  // Replace the old res file. This deletes the busy flag file as well.
+#ifdef WIN32
+  remove(sim->rf_name);
+#endif // WIN32
+  if (rename(bsyfn, sim->rf_name)) {
+    err_msg("sim_bg saving error: cannot replace res file.");
+    goto ret_err;
+  }
+
+  for (i = 0; (i <= sim->csnrn) && (i < sim->snr_num); i++) {
+    copy_sim_point(&sim->pt_saved[i], &sim->pt[i]);
+  }
 
   return RC_OK;
 
-- 
2.43.0


From 75a1ab3fbd753f302fdc0fdbf905f6097f3d7941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 21/31] fix: report decoding and saving errors by the exit
 status

---
 simulators/main_txt.c |  7 ++++---
 simulators/sim_bg.c   | 13 +++++++++++--
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/simulators/main_txt.c b/simulators/main_txt.c
index 29387d7..5fb6114 100644
--- a/simulators/main_txt.c
+++ b/simulators/main_txt.c
@@ -123,13 +123,14 @@ int main(int argc, char **argv) {
    }
    msg_printf("\n");
 
-   show_msg("Simulation is over.");
+   if (rc == RC_OK) show_msg("Simulation is over.");
+   else err_msg("Simulation is stopped.");
    sim_cur_res_str(sim_inst, msg_str);
    show_msg(msg_str);
 
-   sim_save_res(sim_inst);
+   if (sim_save_res(sim_inst) != RC_OK) rc = RC_ERROR;
 
    sim_close(sim_inst);
 
-   return RC_OK;
+   return (rc == RC_OK) ? RC_OK : RC_ERROR;
 }
\ No newline at end of file
diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 989805c..7889da1 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -408,6 +408,10 @@ int sim_run(
   c_out = (double *)malloc(c_n * sizeof(double));
   if ((x == NULL) || (x_dec == NULL) || (c_in == NULL) || (c_out == NULL)) {
     err_msg("sim_bg run error: short of memory.");
+    free(c_out);
+    free(c_in);
+    free(x_dec);
+    free(x);
     return RC_ERROR;
   }
 
@@ -428,8 +432,6 @@ int sim_run(
 
     while (sim->pt[csnrn].trn < sim->trn_req[csnrn]) {
 
-      sim->pt[csnrn].trn++;
-
       // Generate random or zero code word.
       if (sim->use_rndcw) {
         for (i = 0; i < c_k; i++) x[i] = (RND > 0.5) ? 1 : 0;
@@ -449,9 +451,15 @@ int sim_run(
       int rc = dec_bpsk(sim->dc_inst, c_out, x_dec);
       if (rc == RC_ERROR) {
         err_msg("sim_bg run error: error while decoding.");
+        free(c_out);
+        free(c_in);
+        free(x_dec);
+        free(x);
         return RC_ERROR;
       }
 
+      sim->pt[csnrn].trn++;
+
       // Count the number of incorrect information bits.
       en = 0;
       for (i = 0; i < c_k; i++) if (x_dec[i] != x[i]) en++;
@@ -544,6 +552,7 @@ sim_cur_res_str(
 
   sim = (sim_bg_inst *)inst;
   snrs_to_show = (sim->csnrn < sim->snr_num) ? sim->csnrn + 1 : sim->snr_num;
+  if ((snrs_to_show > 0) && (sim->pt[snrs_to_show - 1].trn == 0)) snrs_to_show--;
   if (sim->do_ml) {
     sprintf(ds, "SNR\t ep_bit\t\t ep_bl\t\t epml_bl");
     for (n = 0; n < snrs_to_show; n++) {
-- 
2.43.0


From 6f3937d3df5cb1f003a53a4415661631b3ca4571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 22/31] fix: no crash when the value of the last option is
 missing

---
 simulators/main_txt.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simulators/main_txt.c b/simulators/main_txt.c
index 5fb6114..6a1dbf7 100644
--- a/simulators/main_txt.c
+++ b/simulators/main_txt.c
@@ -68,6 +68,10 @@ int main(int argc, char **argv) {
    sp.ret_int = DEFAULT_RET_INT;
 
    for (i = 2; i < argc; i++) {
+      if ((i + 1 >= argc) && ((strcmp(argv[i], "-si") == 0) || (strcmp(argv[i], "-ri") == 0))) {
+         err_msg("Option value is missing.");
+         return RC_ERROR;
+      }
       if (strcmp(argv[i], "-nr") == 0) sp.dont_randomize = 1;
       if (strcmp(argv[i], "-si") == 0) save_int = atoi(argv[++i]);
       if (strcmp(argv[i], "-ri") == 0) sp.ret_int = atoi(argv[++i]);
-- 
2.43.0


From bbd28570db6b397877f283a928fa9726967c18bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 23/31] fix: no buffer overflow by long messages

---
 common/ui_txt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/ui_txt.c b/common/ui_txt.c
index 1ba6472..358eed9 100644
--- a/common/ui_txt.c
+++ b/common/ui_txt.c
@@ -46,7 +46,7 @@ void msg_printf(
    va_list args;
 
    va_start(args, msgf);
-   vsprintf(str_buf, msgf, args);
+   vsnprintf(str_buf, sizeof(str_buf), msgf, args);
    va_end(args);
 
    printf("%s", str_buf);
-- 
2.43.0


From c94bbad0bed281f785ece31a96f483ad84293b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:21 +0000
Subject: [PATCH 24/31] fix: no integer overflow in the loaded bit error rate,
 no crash without a file name

---
 Octave/loadsrf.c       | 4 ++--
 Octave/ui_octave_txt.c | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/Octave/loadsrf.c b/Octave/loadsrf.c
index 6315ea4..895a87c 100644
--- a/Octave/loadsrf.c
+++ b/Octave/loadsrf.c
@@ -70,7 +70,7 @@ mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]) {
 
   // Get data from the SRF file.
   char *infName = mxArrayToString(prhs[0]);
-  if (spf_read_preparse(infName, &str1) != 0) {
+  if ((infName == NULL) || (spf_read_preparse(infName, &str1) != 0)) {
     err_msg(err_reading_msg);
     return;
   }
@@ -110,7 +110,7 @@ mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]) {
   mxArr = mxCreateDoubleMatrix(1, snr_num, mxREAL);
   d = mxGetPr(mxArr);
   for (n = 0; n < snr_num; n++) {
-    d[n] = (trn[n] > 0) ? (double)(en_bit[n]) / (trn[n] * c_k) : 0.0;
+    d[n] = (trn[n] > 0) ? (double)(en_bit[n]) / ((double)trn[n] * c_k) : 0.0;
   }
   mxSetFieldByNumber(res, 0, 3, mxArr);
 
diff --git a/Octave/ui_octave_txt.c b/Octave/ui_octave_txt.c
index 9e10357..351d95d 100644
--- a/Octave/ui_octave_txt.c
+++ b/Octave/ui_octave_txt.c
@@ -46,7 +46,7 @@ void msg_printf(
   va_list args;
 
   va_start(args, msgf);
-  vsprintf(str_buf, msgf, args);
+  vsnprintf(str_buf, sizeof(str_buf), msgf, args);
   va_end(args);
 
   mexPrintf("%s", str_buf);
-- 
2.43.0


From 6172c2115d4aa14c0b8b07afb9c6382a71f9576e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 25/31] fix: name the comment character the parser uses in the
 documentation

---
 README.md | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/README.md b/README.md
index d12850e..f1584cd 100644
--- a/README.md
+++ b/README.md
@@ -46,7 +46,7 @@ Common options are:
 
 These are plain text with the following structure:
 * Empty lines are skipped.
-* Lines starting with `#` are considered to be comments and ignored.
+* Everything from `%` to the end of the line is considered to be a comment and ignored.
 * Each parameter is a key/value pair separated by one or more spaces.
 * Parameter may have a group value surrounded by curly brackets (`{}`).
 * Any parameter with unknown key is ignored. 
-- 
2.43.0


From ca14f64c7ad8e1764d3fb134bda42976219540f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:54 +0000
Subject: [PATCH 26/31] fix: dimension stated in rm0209.txt

---
 work/codes/rm/rm0209.txt | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/work/codes/rm/rm0209.txt b/work/codes/rm/rm0209.txt
index 2aba862..19bdb83 100644
--- a/work/codes/rm/rm0209.txt
+++ b/work/codes/rm/rm0209.txt
@@ -1,7 +1,7 @@
 % code_name "RM(2, 9)"
 
 code_n 512
-code_k 45
+code_k 46
 
 RM_m 9
 RM_r 2
-- 
2.43.0


From a2199443e66ca4fec15b787f853494dcd38a0ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:50 +0000
Subject: [PATCH 27/31] fix: report encoding and decoding failures when memory
 runs out

---
 dtrm/dtrm1.c                  | 14 +++++++++-----
 polar_scl/ca_polar_scl_main.c | 12 +++++++++---
 simulators/sim_bg.c           | 21 +++++++++++++++++++--
 3 files changed, 37 insertions(+), 10 deletions(-)

diff --git a/dtrm/dtrm1.c b/dtrm/dtrm1.c
index 82bcab1..e0ab799 100644
--- a/dtrm/dtrm1.c
+++ b/dtrm/dtrm1.c
@@ -124,10 +124,10 @@ tri1_dec(
    // Decode u1.
    // [x_dec1, y_dec1] = dtrm01_she(r - 1, m - 1, y1 .* y2);
    for (i = 0; i < n2; i++) aux_buf[i] = y1[i] * y2[i];
-   tri1_dec(
+   if (tri1_dec(
       aux_buf, r - 1, m - 1, n2,
       y_dec1, x_dec, &cur_x_dec_len, aux_buf + n2
-   );
+   )) return 1;
    (*x_dec_len) = cur_x_dec_len;
 
    // Decode u2.
@@ -135,10 +135,10 @@ tri1_dec(
    for (i = 0; i < n2; i++) y1[i] *= y_dec1[i];
    VADD_EST(y1, y2, aux_buf, n2);
    // ADD_EST_EPS(y1, y2, aux_buf, n2);
-   tri1_dec(
+   if (tri1_dec(
       aux_buf, r, m - 1, n2,
       y_dec2, x_dec + cur_x_dec_len, &cur_x_dec_len, aux_buf + n2
-   );
+   )) return 1;
    (*x_dec_len) += cur_x_dec_len;
 
    // y_dec = [y_dec1 .* y_dec2, y_dec2];
@@ -312,7 +312,11 @@ dec_bpsk(
    for (i = 0; i < dd->c_n; i++) dec_input[i] = c_out[i] * dd->sg22;
    VY_TO_FORMAT(dec_input, dec_input, dd->c_n);
 
-   tri1_dec(dec_input, dd->c_r, dd->c_m, dd->c_n, y_dec, x_dec, &i, aux_buf);
+   if (tri1_dec(dec_input, dd->c_r, dd->c_m, dd->c_n, y_dec, x_dec, &i, aux_buf)) {
+      err_msg("dec_bpsk: Short of memory.");
+      free(mem_buf);
+      return -1;
+   }
 
    free(mem_buf);
 
diff --git a/polar_scl/ca_polar_scl_main.c b/polar_scl/ca_polar_scl_main.c
index dba2796..97fda0b 100644
--- a/polar_scl/ca_polar_scl_main.c
+++ b/polar_scl/ca_polar_scl_main.c
@@ -108,7 +108,7 @@ int get_best_in_list(
     int i;
     int *tmp = (int *)malloc(x_len * sizeof(int));
     if (tmp == NULL) {
-      return 0;
+      return -2;
     }
     for (i = 0; i < lsiz; i++) {
       if (is_valid_crc(x + i * sum_len, x_len, crc, crc_len, tmp)) {
@@ -460,6 +460,7 @@ enc_bpsk(
 {
    cdc_inst_type *dd;
    int *x_crc;
+   int rc;
 
    dd = (cdc_inst_type *)cdc;
 
@@ -471,9 +472,9 @@ enc_bpsk(
       }
       calc_crc(x, dd->eff_k, dd->crc, dd->crc_len, x_crc + dd->crc_len);
       memcpy(x_crc, x, dd->eff_k * sizeof(int));
-      smrm_par0_enc_bpsk(dd->c_m, dd->c_m, dd->dc.node_table, x_crc, y);
+      rc = smrm_par0_enc_bpsk(dd->c_m, dd->c_m, dd->dc.node_table, x_crc, y);
       free(x_crc);
-      return dd->eff_k;
+      return rc;
    }
    else {
       return smrm_par0_enc_bpsk(dd->c_m, dd->c_m, dd->dc.node_table, x, y);
@@ -525,6 +526,11 @@ dec_bpsk(
 #ifdef DBG
       printf("best_ind: %d\n", best_ind);
 #endif
+      if (best_ind == -2) {
+        err_msg("dec_bpsk: Short of memory.");
+        free(mem_buf);
+        return RC_ERROR;
+      }
       if (best_ind < 0) {
         is_erasure = 1;
         best_ind = 0;
diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 7889da1..a3df8bc 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -391,6 +391,7 @@ int sim_run(
   time_t start_time;
   int en = 0;
   int i;
+  sim_point pt_prev; // Counters before the current trial.
 
   sim = (sim_bg_inst *)inst;
 
@@ -435,7 +436,14 @@ int sim_run(
       // Generate random or zero code word.
       if (sim->use_rndcw) {
         for (i = 0; i < c_k; i++) x[i] = (RND > 0.5) ? 1 : 0;
-        enc_bpsk(sim->dc_inst, x, c_in);
+        if (enc_bpsk(sim->dc_inst, x, c_in) != RC_OK) {
+          err_msg("sim_bg run error: error while encoding.");
+          free(c_out);
+          free(c_in);
+          free(x_dec);
+          free(x);
+          return RC_ERROR;
+        }
       }
       else {
         for (i = 0; i < c_k; i++) x[i] = 0;
@@ -458,6 +466,7 @@ int sim_run(
         return RC_ERROR;
       }
 
+      copy_sim_point(&pt_prev, &(sim->pt[csnrn]));
       sim->pt[csnrn].trn++;
 
       // Count the number of incorrect information bits.
@@ -483,7 +492,15 @@ int sim_run(
         // d1 <-- dist(c_in, c_out).
         for (i = 0; i < c_n; i++) d1 += (c_in[i] - c_out[i]) * (c_in[i] - c_out[i]);
         // d2 <-- dist[encode(x_dec), c_out].
-        enc_bpsk(sim->dc_inst, x_dec, c_in);
+        if (enc_bpsk(sim->dc_inst, x_dec, c_in) != RC_OK) {
+          copy_sim_point(&(sim->pt[csnrn]), &pt_prev); // The trial is not complete.
+          err_msg("sim_bg run error: error while encoding.");
+          free(c_out);
+          free(c_in);
+          free(x_dec);
+          free(x);
+          return RC_ERROR;
+        }
         for (i = 0; i < c_n; i++) d2 += (c_in[i] - c_out[i]) * (c_in[i] - c_out[i]);
         if (d1 > d2) sim->pt[csnrn].enml_bl++;
       }
-- 
2.43.0


From 1e2aaf1841113a34225b694ca02c69c1504ac995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:40 +0000
Subject: [PATCH 28/31] fix: no integer overflow when more trials are requested

---
 simulators/sim_bg.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index a3df8bc..711740f 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -856,7 +856,9 @@ void sim_control(
 
   switch (ctrl_code) {
     case SIM_CTRL_CUR_MORE :
-      sim->trn_req[csnrn] += sim->trn_req[csnrn] / 2;
+      if (sim->trn_req[csnrn] < MAX_TRIALS_PER_SNR) {
+        sim->trn_req[csnrn] = (int)MIN(sim->trn_req[csnrn] * 1.5, MAX_TRIALS_PER_SNR);
+      }
       break;
     case SIM_CTRL_CUR_LESS :
       sim->trn_req[csnrn] -= sim->trn_req[csnrn] / 3;
-- 
2.43.0


From 820a484146da71df31cd34a673aeb4b9fa281990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:07 +0000
Subject: [PATCH 29/31] fix: counters of more than 2^31 - 1 trials or errors
 overflowed

Results accumulate over sessions, and the number of erroneous bits grows faster than the number of trials.
---
 Octave/loadsrf.c    | 24 ++++++++++++------------
 common/spf_par.c    |  6 +++---
 common/spf_par.h    |  4 ++--
 simulators/sim_bg.c | 28 ++++++++++++++--------------
 4 files changed, 31 insertions(+), 31 deletions(-)

diff --git a/Octave/loadsrf.c b/Octave/loadsrf.c
index 895a87c..b208926 100644
--- a/Octave/loadsrf.c
+++ b/Octave/loadsrf.c
@@ -42,12 +42,12 @@ mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]) {
   int c_n = 0, c_k = 0;
   int snr_num = 0;
   double snr_db[SNR_NUM_MAX];
-  int trn[SNR_NUM_MAX];
-  int ml_trn[SNR_NUM_MAX];
-  int en_bit[SNR_NUM_MAX];
-  int en_bl[SNR_NUM_MAX];
-  int er_n[SNR_NUM_MAX];
-  int enml_bl[SNR_NUM_MAX];
+  long long trn[SNR_NUM_MAX];
+  long long ml_trn[SNR_NUM_MAX];
+  long long en_bit[SNR_NUM_MAX];
+  long long en_bl[SNR_NUM_MAX];
+  long long er_n[SNR_NUM_MAX];
+  long long enml_bl[SNR_NUM_MAX];
   int trn_n = 0;
   int ml_trn_n = 0;
   int en_bit_n = 0;
@@ -79,12 +79,12 @@ mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]) {
     TRYGET_INT_TOKEN(token, code_n_token, c_n)
     TRYGET_INT_TOKEN(token, code_k_token, c_k)
     TRYGET_GRDOUBLE_TOKEN(token, SNR_token, snr_db, snr_num, SNR_NUM_MAX, err_reading_msg)
-    if (tryread_group_int_param(&token, tr_num_token, trn, sizeof(int), &trn_n, SNR_NUM_MAX, err_reading_msg) == RC_OK) continue;
-    if (tryread_group_int_param(&token, en_bit_token, en_bit, sizeof(int), &en_bit_n, SNR_NUM_MAX, err_reading_msg) == RC_OK) continue;
-    if (tryread_group_int_param(&token, en_bl_token, en_bl, sizeof(int), &en_bl_n, SNR_NUM_MAX, err_reading_msg) == RC_OK) continue;
-    if (tryread_group_int_param(&token, er_n_token, er_n, sizeof(int), &er_n_n, SNR_NUM_MAX, err_reading_msg) == RC_OK) continue;
-    if (tryread_group_int_param(&token, ml_tr_num_token, ml_trn, sizeof(int), &ml_trn_n, SNR_NUM_MAX, err_reading_msg) == RC_OK) continue;
-    if (tryread_group_int_param(&token, enml_bl_token, enml_bl, sizeof(int), &enml_bl_n, SNR_NUM_MAX, err_reading_msg) == RC_OK) continue;
+    if (tryread_group_int_param(&token, tr_num_token, trn, sizeof(long long), &trn_n, SNR_NUM_MAX, err_reading_msg) == RC_OK) continue;
+    if (tryread_group_int_param(&token, en_bit_token, en_bit, sizeof(long long), &en_bit_n, SNR_NUM_MAX, err_reading_msg) == RC_OK) continue;
+    if (tryread_group_int_param(&token, en_bl_token, en_bl, sizeof(long long), &en_bl_n, SNR_NUM_MAX, err_reading_msg) == RC_OK) continue;
+    if (tryread_group_int_param(&token, er_n_token, er_n, sizeof(long long), &er_n_n, SNR_NUM_MAX, err_reading_msg) == RC_OK) continue;
+    if (tryread_group_int_param(&token, ml_tr_num_token, ml_trn, sizeof(long long), &ml_trn_n, SNR_NUM_MAX, err_reading_msg) == RC_OK) continue;
+    if (tryread_group_int_param(&token, enml_bl_token, enml_bl, sizeof(long long), &enml_bl_n, SNR_NUM_MAX, err_reading_msg) == RC_OK) continue;
     SPF_SKIP_UNKNOWN_PARAMETER(token)
   }
   free(str1);
diff --git a/common/spf_par.c b/common/spf_par.c
index aea0c49..a5c6d8d 100644
--- a/common/spf_par.c
+++ b/common/spf_par.c
@@ -262,7 +262,7 @@ spf_tryread_preparse(
 int tryread_group_int_param(
   char **inout_tk,
   char *param_key,
-  int *x,
+  long long *x,
   size_t step_size,
   int *n,
   int max_n,
@@ -277,8 +277,8 @@ int tryread_group_int_param(
     }
     tk = strtok(NULL, tk_seps_prepared);
     while ((tk != NULL) && (tk[0] != GROUP_CHAR_END) && (i < max_n)) {
-      *x = atoi(tk);
-      x = (int *)((unsigned char *)x + step_size);
+      *x = strtoll(tk, NULL, 10);
+      x = (long long *)((unsigned char *)x + step_size);
       tk = strtok(NULL, tk_seps_prepared);
       i++;
     }
diff --git a/common/spf_par.h b/common/spf_par.h
index e220647..3aa391e 100644
--- a/common/spf_par.h
+++ b/common/spf_par.h
@@ -214,8 +214,8 @@ int spf_tryread_preparse(
 int tryread_group_int_param(
   char **inout_tk,
   char *param_key,
-  int *x, // output array
-  size_t step_size, // x step size (e.g. sizeof(int) for a plain int array)
+  long long *x, // output array
+  size_t step_size, // x step size (e.g. sizeof(long long) for a plain array)
   int *n, // number of read items
   int max_n,
   char *erstr
diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 711740f..498667f 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -73,12 +73,12 @@
 // Internal typedefs.
 
 typedef struct {
-  int trn;
-  int en_bit;
-  int en_bl;
-  int er_n;
-  int trn_ml;
-  int enml_bl;
+  long long trn;
+  long long en_bit;
+  long long en_bl;
+  long long er_n;
+  long long trn_ml;
+  long long enml_bl;
 } sim_point;
 
 typedef struct {
@@ -541,7 +541,7 @@ sim_state_str(
   n = sim->csnrn;
   if (sim->do_ml) {
     sprintf(ds,
-      "SNR: %3.2f (%d / %d), trn: %d / %d, en: %d, ML en: %d.",
+      "SNR: %3.2f (%d / %d), trn: %lld / %d, en: %lld, ML en: %lld.",
       sim->snr_db[n], n + 1, sim->snr_num,
       sim->pt[n].trn, sim->trn_req[n],
       sim->pt[n].en_bl, sim->pt[n].enml_bl
@@ -549,7 +549,7 @@ sim_state_str(
   }
   else {
     sprintf(ds,
-      "SNR: %3.2f (%d / %d), trn: %d / %d, en: %d.",
+      "SNR: %3.2f (%d / %d), trn: %lld / %d, en: %lld.",
       sim->snr_db[n], n + 1, sim->snr_num,
       sim->pt[n].trn, sim->trn_req[n],
       sim->pt[n].en_bl
@@ -766,19 +766,19 @@ sim_save_res(
   fprintf(fp, "}\n");
 
   fprintf(fp, "%s { ", tr_num_token);
-  for (n = 0; n < snrs_to_save; n++) fprintf(fp, "%d ", pt_file[n].trn);
+  for (n = 0; n < snrs_to_save; n++) fprintf(fp, "%lld ", pt_file[n].trn);
   fprintf(fp, "}\n");
 
   fprintf(fp, "%s { ", en_bit_token);
-  for (n = 0; n < snrs_to_save; n++) fprintf(fp, "%d ", pt_file[n].en_bit);
+  for (n = 0; n < snrs_to_save; n++) fprintf(fp, "%lld ", pt_file[n].en_bit);
   fprintf(fp, "}\n");
 
   fprintf(fp, "%s { ", en_bl_token);
-  for (n = 0; n < snrs_to_save; n++) fprintf(fp, "%d ", pt_file[n].en_bl);
+  for (n = 0; n < snrs_to_save; n++) fprintf(fp, "%lld ", pt_file[n].en_bl);
   fprintf(fp, "}\n");
 
   fprintf(fp, "%s { ", er_n_token);
-  for (n = 0; n < snrs_to_save; n++) fprintf(fp, "%d ", pt_file[n].er_n);
+  for (n = 0; n < snrs_to_save; n++) fprintf(fp, "%lld ", pt_file[n].er_n);
   fprintf(fp, "}\n");
 
   fprintf(fp, "WER { ");
@@ -790,11 +790,11 @@ sim_save_res(
   fprintf(fp, "}\n");
 
   fprintf(fp, "%s { ", ml_tr_num_token);
-  for (n = 0; n < snrs_to_save; n++) fprintf(fp, "%d ", pt_file[n].trn_ml);
+  for (n = 0; n < snrs_to_save; n++) fprintf(fp, "%lld ", pt_file[n].trn_ml);
   fprintf(fp, "}\n");
 
   fprintf(fp, "%s { ", enml_bl_token);
-  for (n = 0; n < snrs_to_save; n++) fprintf(fp, "%d ", pt_file[n].enml_bl);
+  for (n = 0; n < snrs_to_save; n++) fprintf(fp, "%lld ", pt_file[n].enml_bl);
   fprintf(fp, "}\n");
 
   fprintf(fp, "MLER { ");
-- 
2.43.0


From c90f9ee6a5a16a078985f867586542ac3a0faa8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:48 +0000
Subject: [PATCH 30/31] fix: list decoder overflowed an array for (m, m) nodes
 of more than 2^15 symbols

---
 dtrm_glp/dtrm_glp_inner.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dtrm_glp/dtrm_glp_inner.c b/dtrm_glp/dtrm_glp_inner.c
index 95fa704..8690ebe 100644
--- a/dtrm_glp/dtrm_glp_inner.c
+++ b/dtrm_glp/dtrm_glp_inner.c
@@ -41,6 +41,7 @@
 #include <math.h>
 #include "../common/typedefs.h"
 #include "../common/std_defs.h"
+#include "../common/srm_utils.h"
 #include "dtrm_glp_inner.h"
 
 
@@ -201,10 +202,10 @@ static void qpartition(int *v, int len, int k) {
   else qpartition(v + st, len - st, k - st);
 }
 
-// n <= 2^15.
+// n <= 2^RM_M_MAX.
 void code_mm(int n, xlitem *x, xlitem *y) {
   int cur_depth = 0;
-  int states[] = {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0};
+  int states[RM_M_MAX] = { 0 };
   int i, n2;
 
   while (cur_depth >= 0) {
-- 
2.43.0


From 7b60edeb8790d90eb88b396f6ff6b573977ad11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:27 +0000
Subject: [PATCH 31/31] fix: variable list decoding ignored that memory ran out
 while it encoded

---
 dtrm_glp/dtrm_glp_main.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dtrm_glp/dtrm_glp_main.c b/dtrm_glp/dtrm_glp_main.c
index 01a59ad..fcea031 100644
--- a/dtrm_glp/dtrm_glp_main.c
+++ b/dtrm_glp/dtrm_glp_main.c
@@ -463,7 +463,10 @@ dec_bpsk(
          for (j = 0; j < dd->dc.node_table_len; j++)
             dd->dc.node_table[j] = (dd->dc.node_table[j] == 0) ? 0 : dd->lsiz[i];
          rm_dec(&(dd->dc), dec_input, x_dec, NULL);
-         enc_bpsk(cdc, x_dec, y_dec);
+         if (enc_bpsk(cdc, x_dec, y_dec)) {
+            free(mem_buf);
+            return -1;
+         }
          d1 = 0.0;
          // d1 <-- dist(dec_input, y_dec).
          for (j = 0; j < dd->c_n; j++)
-- 
2.43.0

