From 4648ceb904ef45106733aa4aedf31a8a526f363a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:31 +0000
Subject: [PATCH 01/36] fix: use the F4 tracer only with the linear algebra
 variant that supports it

With -l 1 over the rationals the learning phase recorded no matrix data,
so applying the trace failed for every prime ("Problem with F4" for -g 2,
heap corruption when solving).
---
 src/neogb/f4.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/neogb/f4.c b/src/neogb/f4.c
index 2237798..f9c6b02 100644
--- a/src/neogb/f4.c
+++ b/src/neogb/f4.c
@@ -360,7 +360,8 @@ static int32_t initialize_f4(
     if (gmd->fc != fc) {
         reset_function_pointers(fc, md->laopt);
         bs = copy_basis_mod_p(gbs, md);
-        if (md->laopt < 40) {
+        /* the tracer is only implemented for exact sparse linear algebra */
+        if (md->laopt == 2) {
             if (md->trace_level != APPLY_TRACER) {
                 md->trace_level = LEARN_TRACER;
             }
-- 
2.43.0


From 0a13de9fb41ebb3a841f15ae6e1d8e51951e6a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:27 +0000
Subject: [PATCH 02/36] fix: enlarge a completely filled hash table before
 adding trace multipliers

The table may be filled up to eld == esz by convert_hashes routines; the test
for eld == esz-1 then never triggers and insertion runs past the end.
---
 src/neogb/symbol.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/neogb/symbol.c b/src/neogb/symbol.c
index 62d069f..d02c946 100644
--- a/src/neogb/symbol.c
+++ b/src/neogb/symbol.c
@@ -121,7 +121,7 @@ static void select_all_spairs(
         /* track trace information ? */
         if (tht != NULL) { 
            rrows[nrr][BINDEX]  = prev;
-            if (tht->eld == tht->esz-1) {
+            if (tht->eld >= tht->esz-1) {
                 enlarge_hash_table(tht);
             }
             rrows[nrr][MULT]    = insert_in_hash_table(etmp, tht);
@@ -157,7 +157,7 @@ static void select_all_spairs(
             /* track trace information ? */
             if (tht != NULL) {
                 trows[ntr][BINDEX]  = prev;
-                if (tht->eld == tht->esz-1) {
+                if (tht->eld >= tht->esz-1) {
                     enlarge_hash_table(tht);
                 }
                 trows[ntr][MULT]    = insert_in_hash_table(etmp, tht);
@@ -326,7 +326,7 @@ static int32_t select_spairs_by_minimal_degree(
         /* track trace information ? */
         if (md->trace_level == LEARN_TRACER) { 
            rrows[nrr][BINDEX]  = prev;
-            if (bs->ht->eld == bs->ht->esz-1) {
+            if (bs->ht->eld >= bs->ht->esz-1) {
                 enlarge_hash_table(bs->ht);
             }
 #if PARALLEL_HASHING
@@ -361,7 +361,7 @@ static int32_t select_spairs_by_minimal_degree(
             /* track trace information ? */
             if (md->trace_level == LEARN_TRACER) {
                 trows[ntr][BINDEX]  = prev;
-                if (bs->ht->eld == bs->ht->esz-1) {
+                if (bs->ht->eld >= bs->ht->esz-1) {
                     enlarge_hash_table(bs->ht);
                 }
 #if PARALLEL_HASHING
@@ -539,7 +539,7 @@ start:
         /* track trace information ? */
         if (md->trace_level == LEARN_TRACER) {
             rows[rr][BINDEX]  = lmps[i];
-            if (bht->eld == bht->esz-1) {
+            if (bht->eld >= bht->esz-1) {
                 enlarge_hash_table(bht);
             }
 #if PARALLEL_HASHING
-- 
2.43.0


From e3194b117d7de88e39f2ea2ee018f6c0f70f9dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:27 +0000
Subject: [PATCH 03/36] fix: keep parametrization slots and avoid double frees
 when primes are bad

secondary_modular_steps dropped the parametrization buffer of a bad prime,
which the next round dereferenced; the restart path freed recdata twice and
an uninitialised pointer when there are no linear forms.
---
 src/msolve/msolve.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/msolve/msolve.c b/src/msolve/msolve.c
index f94692e..4c37849 100644
--- a/src/msolve/msolve.c
+++ b/src/msolve/msolve.c
@@ -1727,7 +1727,6 @@ static void secondary_modular_steps(sp_matfglm_t **bmatrix,
                 free(bs[i]);
                 bs[i] = NULL;
             }
-            nmod_params[i] = NULL;
             bad_primes[i] = 1;
             continue;
         }
@@ -2427,10 +2426,11 @@ int msolve_trace_qq(mpz_param_t *mpz_paramp,
         if (nbadprimes > nprimes) {
           free(linvars);
           free(bnlins);
-          free(lineqs_ptr[0]);
+          if (nlins) {
+            free(lineqs_ptr[0]);
+          }
           free(lineqs_ptr);
           free(squvars);
-          free_rrec_data(recdata);
           mpz_clear(prod_crt);
           trace_det_clear(trace_det);
           free_rrec_data(recdata);
-- 
2.43.0


From 8ac79768a9df47ac8bbc71d018425dfbbdf02a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:27 +0000
Subject: [PATCH 04/36] fix: recover from bad primes in the multi-modular
 Groebner basis computation

bad_primes was reset over st->nprimes (0) entries, so a single bad prime made
all later ones bad; the restart reused the trace and modular data of the prime
given up and recursed for ever.
---
 src/msolve/lifting-gb.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/msolve/lifting-gb.c b/src/msolve/lifting-gb.c
index 07ebb22..896d706 100644
--- a/src/msolve/lifting-gb.c
+++ b/src/msolve/lifting-gb.c
@@ -742,17 +742,17 @@ static void gb_modular_trace_application(gb_modpoly_t modgbs,
   /* F4 and FGLM are run using a single thread */
   /* st->nthrds is reset to its original value afterwards */
   /*at the moment multi-threading is not supprted here*/
-  memset(bad_primes, 0, (unsigned long)st->nprimes * sizeof(int));
+  memset(bad_primes, 0, (unsigned long)st->nthrds * sizeof(int));
 
   bs_t *bs = NULL;
   int32_t error = 0;
   bs = core_gba(bs_qq, st, &error, lp->p[0]);
   *stf4 = realtime()-rt;
-  ht_t **bht = &(bs->ht);
-  if (bs == NULL) {
+  if (error > 0 || bs == NULL) {
       bad_primes[0] = 1;
       return;
   }
+  ht_t **bht = &(bs->ht);
   int32_t lml = bs->lml;
   if (st->nev > 0) {
       int32_t j = 0;
@@ -769,6 +769,7 @@ static void gb_modular_trace_application(gb_modpoly_t modgbs,
       if (bs != NULL) {
         free_basis_and_only_local_hash_table_data(&bs);
       }
+      bad_primes[0] = 1;
       return;
   }
 
@@ -1421,6 +1422,13 @@ gb_modpoly_t *core_groebner_qq(
         free_rrec_data(recdata1);
         free_rrec_data(recdata2);
 
+        /* the trace was learned with the prime we give up: learn a new one */
+        if (st->trace_level == APPLY_TRACER) {
+          free_trace(&(st->tr));
+          st->trace_level = NO_TRACER;
+        }
+        gb_modpoly_clear((*modgbsp));
+
         return core_groebner_qq(modgbsp, bs, msd, st, errp, fc, print_gb); 
 
       }
-- 
2.43.0


From 4fffb16484856783600ca09c99a94cccb1f63020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:19 +0000
Subject: [PATCH 05/36] fix: do not lift an empty basis when the elimination
 ideal is zero

array_nbdegrees and the lifting data were read out of bounds when -e left no
basis element over the rationals.
---
 src/msolve/lifting-gb.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/msolve/lifting-gb.c b/src/msolve/lifting-gb.c
index 896d706..9d252a8 100644
--- a/src/msolve/lifting-gb.c
+++ b/src/msolve/lifting-gb.c
@@ -1229,7 +1229,8 @@ gb_modpoly_t *core_groebner_qq(
                                                  maxbitsize,
                                                  &success);
     /*lmb_ori can be NULL when gb = [1]*/
-    if(lmb_ori == NULL || print_gb == 1){
+    /*there is nothing to lift when the elimination ideal is zero*/
+    if(lmb_ori == NULL || print_gb == 1 || msd->num_gb[0] == 0){
       if(dlinit){
         data_lift_clear(dlift);
       }
-- 
2.43.0


From 505da38e8701bb170fc1d16ad367945bb39289a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:19 +0000
Subject: [PATCH 06/36] fix: do not read the lifting data before it is
 initialised

---
 src/msolve/lifting-gb.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/msolve/lifting-gb.c b/src/msolve/lifting-gb.c
index 9d252a8..cf5c85d 100644
--- a/src/msolve/lifting-gb.c
+++ b/src/msolve/lifting-gb.c
@@ -1242,7 +1242,7 @@ gb_modpoly_t *core_groebner_qq(
 
     apply = 1;
 
-    gb_modpoly_realloc((*modgbsp), 1, dlift->S);
+    gb_modpoly_realloc((*modgbsp), 1, dlinit ? dlift->S : 0);
 
 #ifdef DEBUGGBLIFT
     display_gbmodpoly_cf_32(stderr, (*modgbsp));
-- 
2.43.0


From ce74793e8d54038b029dd722c4c680b8a1ade357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:22 +0000
Subject: [PATCH 07/36] fix: monomial_basis_enlarged read before its input for
 a zero ideal

---
 src/msolve/hilbert.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/msolve/hilbert.c b/src/msolve/hilbert.c
index 579b7fe..aa3b56c 100644
--- a/src/msolve/hilbert.c
+++ b/src/msolve/hilbert.c
@@ -1310,7 +1310,7 @@ static inline void copy_nf_in_matrix_from_bs_32(sp_matfglm_t* matrix,
 static inline int32_t *monomial_basis_enlarged(long length, long nvars,
                                                int32_t *bexp_lm, long *dquot){
 
-  int32_t maxdeg = sum(bexp_lm+(length-1)*(nvars), nvars);
+  int32_t maxdeg = length > 0 ? sum(bexp_lm+(length-1)*(nvars), nvars) : 0;
 
   /* basis will contain the monomial basis */
   int32_t *basis = calloc(nvars, sizeof(int32_t));
-- 
2.43.0


From 1fcda3b56ad7b1a2398c591b6cc4e83874847916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:10 +0000
Subject: [PATCH 08/36] fix: make room in the basis hash table for the terms of
 normal forms

---
 src/neogb/hash.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/neogb/hash.c b/src/neogb/hash.c
index 0693514..7eae3b7 100644
--- a/src/neogb/hash.c
+++ b/src/neogb/hash.c
@@ -1069,9 +1069,9 @@ static inline void insert_in_basis_hash_table_pivots(
 {
     len_t l;
 
-    /* while (bht->esz - bht->eld < row[LENGTH]) {
+    while (bht->esz - bht->eld < row[LENGTH]) {
         enlarge_hash_table(bht);
-    } */
+    }
 
     const len_t len = row[LENGTH]+OFFSET;
     const len_t evl = bht->evl;
-- 
2.43.0


From 52cfc6cc06ca23743f90377fec648c7447ccf0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:30 +0000
Subject: [PATCH 09/36] fix: print the linear form in use after a random one
 was not generic

---
 src/msolve/msolve.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/msolve/msolve.c b/src/msolve/msolve.c
index 4c37849..aca698a 100644
--- a/src/msolve/msolve.c
+++ b/src/msolve/msolve.c
@@ -606,6 +606,8 @@ static int add_linear_form_to_input_system(data_gens_ff_t *gens,
     }
     mpz_set_si(*(gens->mpz_cfs[2 * (len_new - 1)]), 1);
   }
+  /* a random linear form tried before is no longer the one in use */
+  gens->rand_linear = 0;
   return 1;
 }
 
-- 
2.43.0


From 745f53451b3a25d11a7f4468fad10e3bf9af635f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:28 +0000
Subject: [PATCH 10/36] fix: heap overflow when a coordinate vanishes and the
 eliminating polynomial is linear

---
 src/fglm/fglm_core.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fglm/fglm_core.c b/src/fglm/fglm_core.c
index ae04cbe..8e19121 100644
--- a/src/fglm/fglm_core.c
+++ b/src/fglm/fglm_core.c
@@ -1263,9 +1263,9 @@ int compute_parametrizations_non_shape_position_case(param_t *param,
           nmod_poly_fit_length(param->coords[nvars-2-nc],
                                param->elim->length-1 );
           param->coords[nvars-2-nc]->length = data_bms->BMS->R1->length ;
-          param->coords[nvars-2-nc]->coeffs[0] = 0;
-          param->coords[nvars-2-nc]->coeffs[1] = 0;
-
+          for(long i = 0; i < param->elim->length-1 ; i++){
+            param->coords[nvars-2-nc]->coeffs[i] = 0;
+          }
         }
 
 #if DEBUGFGLM > 0
-- 
2.43.0


From e1555660c68e32d461c99f75096220b6d4215781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:05 +0000
Subject: [PATCH 11/36] fix: with -d 3/4, do not parametrize by a variable that
 is no basis monomial

---
 src/msolve/hilbert.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/msolve/hilbert.c b/src/msolve/hilbert.c
index aa3b56c..ade9fad 100644
--- a/src/msolve/hilbert.c
+++ b/src/msolve/hilbert.c
@@ -3602,7 +3602,9 @@ static inline sp_matfglm_t * build_matrixn_unstable_from_bs_trace(int32_t **bdiv
     break;
   }
 
-  if (count_not_lm > threshold) {
+  /* fglm reads the coordinates off the monomial basis assuming that x_n, its
+   * smallest element besides 1, is in there */
+  if (count_not_lm > threshold || (dquot > 1 && lmb[nv + nv - 1] == 0)) {
     if(info_level){
       fprintf(stderr, "Staircase is not generic\n");
       fprintf(stderr, "and too many normal forms need to be computed\n");
-- 
2.43.0


From 99ee19668749a5db65e4372beff94fbd7d512892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:45 +0000
Subject: [PATCH 12/36] fix: verify the parametrization when squares of
 variables are no basis monomials

---
 src/fglm/fglm.h      |  1 +
 src/fglm/fglm_core.c | 70 ++++++++++++++++++++++++++++++++++++++++++++
 src/msolve/msolve.c  |  3 ++
 3 files changed, 74 insertions(+)

diff --git a/src/fglm/fglm.h b/src/fglm/fglm.h
index d89c530..5125c34 100644
--- a/src/fglm/fglm.h
+++ b/src/fglm/fglm.h
@@ -33,6 +33,7 @@ param_t *nmod_fglm_compute_trace_data(sp_matfglm_t *, mod_t, szmat_t,
                                       uint32_t *,
                                       nvars_t*,
                                       int,
+                                      int,
                                       fglm_data_t **,
                                       fglm_bms_data_t **,
                                       int *,
diff --git a/src/fglm/fglm_core.c b/src/fglm/fglm_core.c
index 8e19121..8e93c34 100644
--- a/src/fglm/fglm_core.c
+++ b/src/fglm/fglm_core.c
@@ -1508,6 +1508,54 @@ static inline long initialize_fglm_colon_data(sp_matfglmcol_t *matrix,
 
 
 
+/*
+  Computes the parametrization of the radical again, with another random linear
+  functional, and returns 1 if it equals param. When the last variable takes the
+  same value at several solutions this fails with high probability.
+*/
+static int check_parametrizations_non_shape_position_case(param_t *param,
+                                                          sp_matfglm_t *matrix,
+                                                          fglm_data_t *data,
+                                                          szmat_t block_size,
+                                                          nvars_t nlins,
+                                                          nvars_t *linvars,
+                                                          uint32_t *lineqs,
+                                                          nvars_t *squvars,
+                                                          long nvars,
+                                                          mod_t prime,
+                                                          md_t *st){
+  const szmat_t dimquot = matrix->ncols;
+  param_t *par = allocate_fglm_param(prime, nvars);
+  fglm_bms_data_t *data_bms = allocate_fglm_bms_data(dimquot, prime);
+
+  for(szmat_t i = 0; i < dimquot; i++){
+    data->vecinit[i] = (CF_t)rand() % prime;
+  }
+  data->res[0] = data->vecinit[0];
+  for(szmat_t i = 1; i < block_size; i++){
+    data->res[i] = data->vecinit[i+1];
+  }
+  generate_sequence_verif(matrix, data, block_size, dimquot,
+                          squvars, linvars, nvars, prime, st);
+  long dim = 0;
+  compute_minpoly(par, data, data_bms, dimquot, linvars, lineqs,
+                  nvars, &dim, 0);
+  int equal = nmod_poly_equal(par->elim, param->elim)
+    && compute_parametrizations_non_shape_position_case(par, data, data_bms,
+                                                        dimquot, block_size,
+                                                        nlins, linvars, lineqs,
+                                                        squvars, nvars, prime,
+                                                        0) != 0;
+  for(long i = 0; equal && i < nvars-1; i++){
+    if(linvars[i] == 0){
+      equal = nmod_poly_equal(par->coords[i], param->coords[i]);
+    }
+  }
+  free_fglm_bms_data(data_bms);
+  free_fglm_param(par);
+  return equal;
+}
+
 param_t *nmod_fglm_compute_trace_data(sp_matfglm_t *matrix, mod_t prime,
                                       szmat_t nvars,
                                       szmat_t block_size, //taille de bloc dans data->res
@@ -1515,6 +1563,7 @@ param_t *nmod_fglm_compute_trace_data(sp_matfglm_t *matrix, mod_t prime,
                                       nvars_t *linvars,
                                       uint32_t *lineqs,
                                       nvars_t *squvars,
+                                      int check_separation,
                                       int info_level,
                                       fglm_data_t **bdata,
                                       fglm_bms_data_t **bdata_bms,
@@ -1694,6 +1743,27 @@ param_t *nmod_fglm_compute_trace_data(sp_matfglm_t *matrix, mod_t prime,
             }
             *success = 0;
           }
+    /* variables whose squares are not in the monomial basis have not been
+     * verified above */
+    if (check_separation && *success) {
+      int unverified = 0;
+      for (szmat_t i = 0; i < nvars-1; i++) {
+        unverified |= (linvars[i] == 0 && squvars[i] == 0);
+      }
+      if (unverified
+          && check_parametrizations_non_shape_position_case(param, matrix,
+                                                            *bdata, block_size,
+                                                            nlins, linvars,
+                                                            lineqs, squvars,
+                                                            nvars, prime,
+                                                            st) == 0) {
+        if(info_level){
+          fprintf(stderr,
+                  "Ideal not in generic position, parametrizations are not correct\n");
+        }
+        *success = 0;
+      }
+    }
   }
   st->fglm_rtime = realtime() - st->fglm_rtime;
   st->fglm_ctime = cputime() - st->fglm_ctime;
diff --git a/src/msolve/msolve.c b/src/msolve/msolve.c
index aca698a..1690dcc 100644
--- a/src/msolve/msolve.c
+++ b/src/msolve/msolve.c
@@ -1645,6 +1645,9 @@ static int32_t *initial_modular_step(
                     dquot, gens->nvars);
             *bparam = nmod_fglm_compute_trace_data(*bmatrix, fc, bs->ht->nv,
                     *bsz, *nlins_ptr, linvars, lineqs_ptr[0], squvars,
+                    /* over small fields there may be no separating form */
+                    gens->linear_form_base_coef > 0 &&
+                    (gens->field_char == 0 || gens->field_char > 1 << 16),
                     md->info_level, bdata_fglm, bdata_bms, success, md);
         }
         free_basis_without_hash_table(&(bs));
-- 
2.43.0


From 0745d8c1cac2e214ea11cb8392ef462ce66f1f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:43 +0000
Subject: [PATCH 13/36] fix: keep the shared hash table when a prime yields
 another number of leading monomials

---
 src/msolve/msolve.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/msolve/msolve.c b/src/msolve/msolve.c
index 1690dcc..c69e90f 100644
--- a/src/msolve/msolve.c
+++ b/src/msolve/msolve.c
@@ -1749,7 +1749,7 @@ static void secondary_modular_steps(sp_matfglm_t **bmatrix,
         }
         if(lml != num_gb[i]){
             if (bs[i] != NULL) {
-                free_basis(&(bs[i]));
+                free_basis_and_only_local_hash_table_data(&(bs[i]));
             }
             /* nmod_params[i] = NULL; */
             bad_primes[i] = 1;
-- 
2.43.0


From 6aca8c17bee36474a458574a746d37af7bb01e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:26 +0000
Subject: [PATCH 14/36] fix: zero generators must not make other generators
 disappear

validate_input_data() already subtracted the number of zero generators from
the number of generators; check_and_set_meta_data() subtracted it again and
only looked at the first generators. Keep the number of generators and count
invalid elements only where they are.
---
 src/neogb/engine.c | 9 ++++++++-
 src/neogb/io.c     | 6 ++----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/neogb/engine.c b/src/neogb/engine.c
index 4f641e1..d38209b 100644
--- a/src/neogb/engine.c
+++ b/src/neogb/engine.c
@@ -59,8 +59,15 @@ int initialize_gba_input_data(
             &max_nr_pairs, &reset_ht, &la_option, &use_signatures,
             &reduce_gb, &truncate_lifting, &info_level);
 
+    if (res == 0) {
+        return 0;
+    }
+    int32_t nr_valid    =   0;
+    for (int32_t i = 0; i < nr_gens; ++i) {
+        nr_valid    +=  invalid_gens[i] == 0;
+    }
     /* not enough elements available for normal form computations resp. saturation */
-    if (nr_gens <= nr_nf) {
+    if (nr_valid <= nr_nf) {
         return 0;
     }
     /* all data is corrupt */
diff --git a/src/neogb/io.c b/src/neogb/io.c
index e20805b..5e2953c 100644
--- a/src/neogb/io.c
+++ b/src/neogb/io.c
@@ -752,11 +752,9 @@ int validate_input_data(
         return 1;
     }
 
-    *nr_gensp   -=  ctr;
-
     /* recheck number of generators, if the input was only (0) then
      * no more generators are left over. */
-    if (*nr_gensp < 1) {
+    if (*nr_gensp - ctr < 1) {
         return -1;
     }
 
@@ -801,7 +799,7 @@ int32_t check_and_set_meta_data(
     }
 
     long ctr    =   0;
-    for (int i = 0; i < nr_gens; ++i) {
+    for (int i = 0; i < nr_gens - nr_nf; ++i) {
         ctr +=  invalid_gens[i];
     }
 
-- 
2.43.0


From dbcc4a23f7465a15abf871f0165ae44cae0ebef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:39 +0000
Subject: [PATCH 15/36] fix: separate generators by commata, not by lines

The README documents commata as separators and polynomials spreading over
several lines. The generators were counted by lines, so several generators in
one line were silently dropped and a polynomial over two lines crashed.
---
 src/msolve/iofiles.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/msolve/iofiles.c b/src/msolve/iofiles.c
index 3c5bea0..459dc71 100644
--- a/src/msolve/iofiles.c
+++ b/src/msolve/iofiles.c
@@ -415,9 +415,10 @@ static int32_t get_ngenerators(char *fn)
         || getline(&line, &len, fh) == -1)
         ngens = -1;
 
-    /* go through subsequent lines, not counting empty ones */
+    /* generators are separated by commata and may spread over several lines,
+     * do not count an empty one */
     else
-        while(getline(&line, &len, fh) != -1)
+        while(getdelim(&line, &len, ',', fh) != -1)
             if (! is_line_empty(line))
                 ngens++;
 
@@ -555,7 +556,7 @@ static void get_nterms_and_all_nterms(FILE *fh, char **linep,
     char *line  = *linep;
     int32_t i = 0, j = 0, k = 0;
     size_t len = 0;
-    while(getdelim(&line, &len, ',', fh) != -1) {
+    while(i < *nr_gens && getdelim(&line, &len, ',', fh) != -1) {
         for (k = 0, j = 0; j < len; ++j) {
             if (line[j] != '\r' && line[j] != '\n' && line[j] != ' ') {
                 line[k++] = line[j];
-- 
2.43.0


From 69f765cbecfbef7539365b35e70b016fa011f98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:17 +0000
Subject: [PATCH 16/36] fix: read coefficients over prime fields modulo the
 characteristic, ignore zero terms

The first coefficient of a polynomial was truncated to 32 bit and not reduced, a
coefficient 0 was read as 1, and a term whose coefficient is divisible by the
characteristic (or is 0 over the rationals) made the whole generator invalid,
that is it was dropped silently.
---
 src/msolve/iofiles.c | 91 ++++++++++++++++++++++++++++----------------
 1 file changed, 58 insertions(+), 33 deletions(-)

diff --git a/src/msolve/iofiles.c b/src/msolve/iofiles.c
index 459dc71..e24161c 100644
--- a/src/msolve/iofiles.c
+++ b/src/msolve/iofiles.c
@@ -654,53 +654,40 @@ static inline void get_term(const char *line, char **prev_pos,
 }
 
 
-/*assumes that coeffs in file fit in word size */
+/* coefficient of term modulo the field characteristic, terms without
+ * a number in front have coefficient 1 resp. -1 */
+static int32_t get_coefficient_ff(const char *term, const int32_t field_char){
+  const int neg = term[0] == '-';
+  int64_t cf = 0;
+  if (term[0] == '-' || term[0] == '+') {
+    term++;
+  }
+  if (isdigit((unsigned char)*term)) {
+    for (; isdigit((unsigned char)*term); term++) {
+      cf = (10 * cf + (*term - '0')) % field_char;
+    }
+  } else {
+    cf = 1;
+  }
+  return (int32_t)(neg && cf ? field_char - cf : cf);
+}
+
 static int get_coefficient_ff_and_term_from_line(char *line, int32_t nterms,
                                           int32_t field_char,
                                           data_gens_ff_t *gens, int32_t pos){
   char *prev_pos = NULL;
   size_t term_size = 50000;
   char *term  = (char *)malloc(term_size * sizeof(char));
-  int64_t cf_tmp  = 0; /** temp for coefficient value, possibly coeff is negative. */
 
   prev_pos = line;
   get_term(line, &prev_pos, &term, &term_size);
   if(term != NULL){
-    int32_t iv_tmp  = (int32_t)strtol(term, NULL, 10);
-    if (iv_tmp == 0) {
-      switch (term[0]) {
-          case '0':
-            iv_tmp = 0;
-            break;
-          case '-':
-            iv_tmp = -1;
-            break;
-          default:
-            iv_tmp = 1;
-            break;
-      }
-    }
-    while (iv_tmp < 0) {
-      iv_tmp  +=  field_char; //MS change int -> long int
-    }
-    gens->cfs[pos]  = (int32_t)iv_tmp;
+    gens->cfs[pos]  = get_coefficient_ff(term, field_char);
     store_exponent(term, gens, pos*gens->nvars);
     for(int j = 1; j < nterms; j++){
       get_term(line, &prev_pos, &term, &term_size);
       if (term != NULL) {
-        cf_tmp  = (int64_t)strtol(term, NULL, 10);
-
-        if (cf_tmp == 0) {
-          if (term[0] == '-') {
-            cf_tmp = -1;
-          } else {
-            cf_tmp = 1;
-          }
-        }
-        while (cf_tmp < 0) {
-          cf_tmp  += field_char;
-        }
-        gens->cfs[pos+j] = (int32_t)(cf_tmp % field_char);
+        gens->cfs[pos+j] = get_coefficient_ff(term, field_char);
         store_exponent(term, gens, (pos+j)*gens->nvars);
       }
       //      store_exponent(term, basis, ht);
@@ -887,6 +874,43 @@ static void get_coeffs_and_exponents_mpz(FILE *fh, char **linep, nelts_t all_nte
 
 
 
+/* removes terms with coefficient zero; of a zero polynomial one term is kept,
+ * it marks an invalid generator */
+static void remove_zero_terms(data_gens_ff_t *gens){
+  const nelts_t nv = gens->nvars;
+  nelts_t r = 0, w = 0;
+  for (int32_t i = 0; i < gens->ngens; i++) {
+    const int32_t len = gens->lens[i];
+    int32_t nlen = 0;
+    for (int32_t j = 0; j < len; j++, r++) {
+      const int zero = gens->field_char ? gens->cfs[r] == 0
+        : mpz_sgn(*(gens->mpz_cfs[2*r])) == 0;
+      if (zero && (nlen > 0 || j < len-1)) {
+        continue;
+      }
+      if (w != r) {
+        if (gens->field_char) {
+          gens->cfs[w] = gens->cfs[r];
+        } else {
+          mpz_swap(*(gens->mpz_cfs[2*w]), *(gens->mpz_cfs[2*r]));
+          mpz_swap(*(gens->mpz_cfs[2*w+1]), *(gens->mpz_cfs[2*r+1]));
+        }
+        memcpy(gens->exps + w*nv, gens->exps + r*nv, (size_t)nv * sizeof(int32_t));
+      }
+      nlen++;
+      w++;
+    }
+    gens->lens[i] = nlen;
+  }
+  if (gens->field_char == 0) {
+    for (nelts_t i = 2*w; i < 2*r; i++) {
+      mpz_clear(*(gens->mpz_cfs[i]));
+      free(gens->mpz_cfs[i]);
+    }
+  }
+  gens->nterms = w;
+}
+
 static inline void initialize_data_gens(int32_t nvars, int32_t ngens, int32_t field_char, data_gens_ff_t *gens){
   gens->nvars = nvars;
   gens->ngens = ngens;
@@ -954,6 +978,7 @@ static inline void get_data_from_file(char *fn, int32_t *nr_vars,
   else{
     get_coeffs_and_exponents_mpz(fh, &line, all_nterms, nr_gens, gens);
   }
+  remove_zero_terms(gens);
 
   free(line);
   fclose(fh);
-- 
2.43.0


From b13520e3a5f8ced97ab11e97b37e918b17859d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:36 +0000
Subject: [PATCH 17/36] fix: rational coefficients in prime field input

The README documents coefficients a/b; over prime fields the denominator was
ignored.
---
 src/msolve/iofiles.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/msolve/iofiles.c b/src/msolve/iofiles.c
index e24161c..851d649 100644
--- a/src/msolve/iofiles.c
+++ b/src/msolve/iofiles.c
@@ -654,20 +654,33 @@ static inline void get_term(const char *line, char **prev_pos,
 }
 
 
+static int64_t get_number_ff(const char **pos, const int32_t field_char){
+  int64_t nr = 0;
+  for (; isdigit((unsigned char)**pos); (*pos)++) {
+    nr = (10 * nr + (**pos - '0')) % field_char;
+  }
+  return nr;
+}
+
 /* coefficient of term modulo the field characteristic, terms without
  * a number in front have coefficient 1 resp. -1 */
 static int32_t get_coefficient_ff(const char *term, const int32_t field_char){
   const int neg = term[0] == '-';
-  int64_t cf = 0;
+  int64_t cf = 1;
   if (term[0] == '-' || term[0] == '+') {
     term++;
   }
   if (isdigit((unsigned char)*term)) {
-    for (; isdigit((unsigned char)*term); term++) {
-      cf = (10 * cf + (*term - '0')) % field_char;
+    cf = get_number_ff(&term, field_char);
+    if (*term == '/') {
+      term++;
+      const int64_t den = get_number_ff(&term, field_char);
+      if (den == 0) {
+        fprintf(stderr, "Denominator in input vanishes modulo the field characteristic, exit...\n");
+        exit(1);
+      }
+      cf = cf * mod_p_inverse_32(den, field_char) % field_char;
     }
-  } else {
-    cf = 1;
   }
   return (int32_t)(neg && cf ? field_char - cf : cf);
 }
-- 
2.43.0


From 91c0c300443d25cd37dcde7a08b851060decd626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:24 +0000
Subject: [PATCH 18/36] fix: heap overflow for variable names of 50 and more
 characters

---
 src/msolve/iofiles.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/msolve/iofiles.c b/src/msolve/iofiles.c
index 851d649..2d3ae96 100644
--- a/src/msolve/iofiles.c
+++ b/src/msolve/iofiles.c
@@ -433,7 +433,7 @@ static inline char *get_variable_name(const char *line, char **prev_pos)
 {
   const char comma_splicer  = ',';
 
-  char *tmp_var   = (char *)malloc(50 * sizeof(char));
+  char *tmp_var   = (char *)malloc((strlen(*prev_pos)+2) * sizeof(char));
   char *curr_pos  = strchr(*prev_pos, comma_splicer);
   if (curr_pos != NULL) {
     size_t var_diff   = (size_t)(curr_pos - *prev_pos);
-- 
2.43.0


From 075e89132f9811e8299ce4ab3bf156f77874e4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:08 +0000
Subject: [PATCH 19/36] fix: heap overflow after the saturation test of f4sat

---
 src/neogb/f4sat.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/neogb/f4sat.c b/src/neogb/f4sat.c
index a0216b7..0b1612b 100644
--- a/src/neogb/f4sat.c
+++ b/src/neogb/f4sat.c
@@ -118,8 +118,8 @@ static int is_already_saturated(
     memcpy(lm, bs->lm, (unsigned long)lml * sizeof(sdm_t));
     bl_t *lmps      = (bl_t *)malloc((unsigned long)lml * sizeof(bl_t));
     memcpy(lmps, bs->lmps, (unsigned long)lml * sizeof(bl_t));
-    int8_t *red     = (int8_t *)malloc((unsigned long)bs->sz * sizeof(int8_t));
-    memcpy(red, bs->red, (unsigned long)bs->sz * sizeof(int8_t));
+    int8_t *red     = (int8_t *)malloc((unsigned long)bld * sizeof(int8_t));
+    memcpy(red, bs->red, (unsigned long)bld * sizeof(int8_t));
     
     ps_t *ps = st->ps;
 
@@ -189,13 +189,15 @@ static int is_already_saturated(
     /* reset infolevel */
     st->info_level  = infolevel;
 
-    free(bs->lm);
-    bs->lm    = lm;
-    free(bs->lmps);
-    bs->lmps  = lmps;
+    /* copy the saved data back, the arrays of bs must keep their size bs->sz */
+    memcpy(bs->lm, lm, (unsigned long)lml * sizeof(sdm_t));
+    free(lm);
+    memcpy(bs->lmps, lmps, (unsigned long)lml * sizeof(bl_t));
+    free(lmps);
     bs->lml   = lml;
-    free(bs->red);
-    bs->red   = red;
+    memset(bs->red, 0, (unsigned long)bs->sz * sizeof(int8_t));
+    memcpy(bs->red, red, (unsigned long)bld * sizeof(int8_t));
+    free(red);
 
     /* *hcmp = hcm; */
     *bhtp = bht;
-- 
2.43.0


From 19dbee87e075c2c4ed64f76ec950f05c96036432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:51 +0000
Subject: [PATCH 20/36] fix: incomplete saturation in f4sat

The saturation step was skipped if there were no S-pairs left after the
input or after adding kernel elements, the test for being saturated used a
non-monic element and counted pure powers of one variable several times, and
in the zero dimensional case the search for kernel elements stopped at a too
small degree.
---
 src/neogb/f4sat.c | 98 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 67 insertions(+), 31 deletions(-)

diff --git a/src/neogb/f4sat.c b/src/neogb/f4sat.c
index 0b1612b..05345e2 100644
--- a/src/neogb/f4sat.c
+++ b/src/neogb/f4sat.c
@@ -61,28 +61,44 @@ static inline int is_pure_power(
     return 0;
 }
 
-static inline int is_zero_dimensional(
+/* Returns 0 if the ideal of the leading monomials of bs is not zero
+ * dimensional, otherwise 1 plus a bound for the degrees of the monomials
+ * in the quotient basis. */
+static deg_t is_zero_dimensional(
         const bs_t * const bs,
         const ht_t * const ht
         )
 {
-    len_t i;
+    len_t i, j;
 
-    len_t ctr = 0;
-    
-    const len_t nv  = ht->nv;
-    const len_t lml = bs->lml;
+    const len_t ebl = ht->ebl;
+    const len_t evl = ht->evl;
 
-    for (i = 0; i < lml; ++i) {
-        if (is_pure_power(ht->ev[bs->hm[bs->lmps[i]][OFFSET]], ht)) {
-            ctr ++;
+    /* minimal pure powers, several elements may be pure powers
+     * of the same variable */
+    exp_t mp[evl];
+    memset(mp, 0, (unsigned long)evl * sizeof(exp_t));
+    deg_t bound = 1;
+
+    for (i = 0; i < bs->lml; ++i) {
+        const exp_t * const ev = ht->ev[bs->hm[bs->lmps[i]][OFFSET]];
+        if (is_pure_power(ev, ht)) {
+            for (j = 1; j < evl; ++j) {
+                if (j != ebl && ev[j] != 0 && (mp[j] == 0 || ev[j] < mp[j])) {
+                    mp[j] = ev[j];
+                }
+            }
         }
     }
-    
-    if (ctr == nv) {
-        return 1;
+    for (j = 1; j < evl; ++j) {
+        if (j != ebl) {
+            if (mp[j] == 0) {
+                return 0;
+            }
+            bound +=  mp[j] - 1;
+        }
     }
-    return 0;
+    return bound;
 }
 
 static int is_already_saturated(
@@ -127,6 +143,9 @@ static int is_already_saturated(
             (unsigned long)sat->hm[0][LENGTH] * sizeof(cf32_t));
     memcpy(cf, sat->cf_32[sat->hm[0][COEFFS]],
             (unsigned long)sat->hm[0][LENGTH] * sizeof(cf32_t));
+    /* the elements of bs have to be monic */
+    normalize_sparse_matrix_row_ff_32(
+            cf, sat->hm[0][PRELOOP], sat->hm[0][LENGTH], st->fc);
     hm_t *hm  = (hm_t *)malloc(
             (unsigned long)(sat->hm[0][LENGTH]+OFFSET) * sizeof(hm_t));
     memcpy(hm, sat->hm[0],
@@ -509,6 +528,9 @@ int core_f4sat(
 
     /* global saturation data */
     len_t sat_test  = 0;
+    /* set if the current basis has to be checked for saturation
+     * even if there is no spair left to be handled */
+    len_t sat_todo  = 1;
     deg_t next_deg  = 0;
     deg_t sat_deg   = 0;
 
@@ -556,13 +578,18 @@ int core_f4sat(
      * always check redundancy since input generators may be redundant
      * even so they are homogeneous. */
     update_basis_f4(ps, bs, bht, st, st->ngens);
+    for (i = 0; i < bs->ld; ++i) {
+        if (bht->hd[bs->hm[i][OFFSET]].deg == 0) {
+            bs->constant = 1;
+        }
+    }
 
     /* let's start the f4 rounds,  we are done when no more spairs
      * are left in the pairset */
     print_round_information_header(stdout, st);
     round = 1;
 end_sat_step:
-    for (; ps->ld > 0; ++round) {
+    for (; ps->ld > 0 || (sat_todo == 1 && bs->constant == 0); ++round) {
         rrt = realtime();
         crt = cputime();
         st->max_bht_size  = st->max_bht_size > bht->esz ?
@@ -570,20 +597,23 @@ end_sat_step:
         st->current_rd  = round;
 
         /* preprocess data for next reduction round */
-        select_spairs_by_minimal_degree(mat, bs, st);
-        symbolic_preprocessing(mat, bs, st);
-        convert_hashes_to_columns(mat, st, sht);
-        sort_matrix_rows_decreasing(mat->rr, mat->nru);
-        sort_matrix_rows_increasing(mat->tr, mat->nrl);
-        /* linear algebra, depending on choice, see set_function_pointers() */
-        linear_algebra(mat, bs, bs, st);
-        /* columns indices are mapped back to exponent hashes */
-        if (mat->np > 0) {
-            convert_sparse_matrix_rows_to_basis_elements(
-                    -1, mat, bs, bht, sht, st);
-            sat_test++;
+        mat->np = 0;
+        if (ps->ld > 0) {
+            select_spairs_by_minimal_degree(mat, bs, st);
+            symbolic_preprocessing(mat, bs, st);
+            convert_hashes_to_columns(mat, st, sht);
+            sort_matrix_rows_decreasing(mat->rr, mat->nru);
+            sort_matrix_rows_increasing(mat->tr, mat->nrl);
+            /* linear algebra, depending on choice, see set_function_pointers() */
+            linear_algebra(mat, bs, bs, st);
+            /* columns indices are mapped back to exponent hashes */
+            if (mat->np > 0) {
+                convert_sparse_matrix_rows_to_basis_elements(
+                        -1, mat, bs, bht, sht, st);
+                sat_test++;
+            }
+            clean_hash_table(sht);
         }
-        clean_hash_table(sht);
         /* add lead monomials to trace, stores hashes in basis hash
          * table which is used in all upcoming F4 runs */
         /* if (mat->np > 0) {
@@ -609,10 +639,10 @@ end_sat_step:
         if ((bs->mltdeg >= sat->hm[0][DEG] && sat_test != 0) || ps->ld == 0) {
         /* if (bs->mltdeg - next_deg == 0 || ps->ld == 0) { */
         /* if (sat_done == 0 && (sat_test % 3 == 0 || ps->ld == 0)) { */
-            if (st->nr_kernel_elts > 0 &&
-                    ps->ld == 0 &&
-                    is_zero_dimensional(bs, bht) &&
-                    is_already_saturated(
+            sat_todo = 0;
+            const deg_t zero_dim  = ps->ld == 0 ?
+                is_zero_dimensional(bs, bht) : 0;
+            if (zero_dim > 0 && is_already_saturated(
                         bs, sat, mat, &bht, &sht, st)) {
                 /* sat_done  = 1; */
                 goto end_sat_step;
@@ -623,6 +653,11 @@ end_sat_step:
                 sat_deg = 2*bs->mltdeg/3;
             } else {
                 sat_deg = bs->mltdeg;
+                /* not saturated, thus in the zero dimensional case there is
+                 * a new kernel element supported on the quotient basis */
+                if (sat_deg < zero_dim) {
+                    sat_deg = zero_dim;
+                }
             }
             len_t bld = bs->ld;
 
@@ -719,6 +754,7 @@ end_sat_step:
                 print_sat_round_timings(stdout, st, rrt, crt);
                 if (bld != bs->ld) {
                     next_deg  = ii;
+                    sat_todo  = 1;
                     goto end_sat_step;
                 }
             }
-- 
2.43.0


From 226146fdbd5fe13235cfad16dea1472a2cbef30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:18 +0000
Subject: [PATCH 21/36] fix: heap overflow in the kernel computation of f4sat
 with more multipliers than columns

---
 src/neogb/la_ff_32.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/neogb/la_ff_32.c b/src/neogb/la_ff_32.c
index 6cbe615..1787689 100644
--- a/src/neogb/la_ff_32.c
+++ b/src/neogb/la_ff_32.c
@@ -2900,9 +2900,9 @@ static void exact_sparse_reduced_echelon_form_sat_ff_32(
  *     printf("not trivial! "); */
     /* if kernel is not trivial really compute it */
     /* dense row for multipliers */
-    hm_t **mulh     = (hm_t **)calloc((unsigned long)ncols, sizeof(hm_t *));
-    cf32_t **mulcf  = (cf32_t **)calloc((unsigned long)ncols, sizeof(cf32_t *));
-    cf32_t **pivcf  = (cf32_t **)calloc((unsigned long)ncols, sizeof(cf32_t *));
+    hm_t **mulh     = (hm_t **)calloc((unsigned long)sat->ld, sizeof(hm_t *));
+    cf32_t **mulcf  = (cf32_t **)calloc((unsigned long)sat->ld, sizeof(cf32_t *));
+    cf32_t **pivcf  = (cf32_t **)calloc((unsigned long)sat->ld, sizeof(cf32_t *));
     int64_t *drm    = calloc((unsigned long)sat->ld, sizeof(int64_t));
     /* now we do a ususal F4 reduction with updated pivs, but we have
      * to track the reduction steps when reducing each row from upivs */
@@ -2975,7 +2975,7 @@ static void exact_sparse_reduced_echelon_form_sat_ff_32(
         free(pivs[i]);
         pivs[i] = NULL;
     }
-    for (i = 0; i < ncols; ++i) {
+    for (i = 0; i < sat->ld; ++i) {
         free(mulcf[i]);
         mulcf[i]  = NULL;
         free(pivcf[i]);
-- 
2.43.0


From c6b9ee44ff202f8e6881f17614f346d708f8f532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:18 +0000
Subject: [PATCH 22/36] fix: kernel elements of f4sat missed without reducers
 or in the last degree

---
 src/neogb/f4sat.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/neogb/f4sat.c b/src/neogb/f4sat.c
index 05345e2..4179b32 100644
--- a/src/neogb/f4sat.c
+++ b/src/neogb/f4sat.c
@@ -658,6 +658,9 @@ end_sat_step:
                 if (sat_deg < zero_dim) {
                     sat_deg = zero_dim;
                 }
+                if (zero_dim > 0 && sat_deg <= next_deg) {
+                    sat_deg = next_deg + 1;
+                }
             }
             len_t bld = bs->ld;
 
@@ -671,9 +674,10 @@ end_sat_step:
 
                 symbolic_preprocessing(mat, bs, st);
 
-                /* It may happen that there is no reducer at all for the
-                 * saturation elements, then nothing has to be done. */
-                if (mat->nru > 0) {
+                /* Even if there is no reducer at all for the saturation
+                 * elements they may be linearly dependent, since they are
+                 * multiples of already reduced elements. */
+                if (mat->nc > 0) {
                     if (st->info_level > 1) {
                         /* printf("kernel computation "); */
                         printf("%3u  compute kernel", sat_deg);
-- 
2.43.0


From 7f2b1c9da6a8b5971c729b8c4e89f403063fe0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:28 +0000
Subject: [PATCH 23/36] fix: zero polynomials to be reduced must not make the
 input invalid

Only the generators of the ideal have to contain a nonzero polynomial; the
last nr_nf input polynomials may be zero. Return -1 when all generators are
zero and check the result before using it.
---
 src/msolve/lifting-gb.c |  4 ++++
 src/msolve/msolve.c     |  2 +-
 src/neogb/engine.c      | 12 +++++-------
 3 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/msolve/lifting-gb.c b/src/msolve/lifting-gb.c
index cf5c85d..b44cd64 100644
--- a/src/msolve/lifting-gb.c
+++ b/src/msolve/lifting-gb.c
@@ -1701,6 +1701,10 @@ void print_msolve_gbtrace_qq(data_gens_ff_t *gens,
  // msolve_gbtrace_qq(modgbs, gens, flags);
 
   modgbsp = groebner_qq(gens, flags);
+  if (modgbsp == NULL) {
+    fprintf(stderr, "Invalid input generators, msolve now terminates.\n");
+    exit(1);
+  }
 
   FILE *ofile;
   if (flags->files->out_file != NULL) {
diff --git a/src/msolve/msolve.c b/src/msolve/msolve.c
index c69e90f..81ac740 100644
--- a/src/msolve/msolve.c
+++ b/src/msolve/msolve.c
@@ -4187,11 +4187,11 @@ restart:
                     update_ht, la_option, use_signatures, 1 /* reduce_gb */, 0,
                     0 /*truncate_lifting */, info_level);
 
-            st->gfc  = gens->field_char;
             if (!success) {
                 printf("Bad input data, stopped computation.\n");
                 exit(1);
             }
+            st->gfc  = gens->field_char;
 
             if (is_gb == 1) {
                 for (len_t k = 0; k < bs->ld; ++k) {
diff --git a/src/neogb/engine.c b/src/neogb/engine.c
index d38209b..7b8181a 100644
--- a/src/neogb/engine.c
+++ b/src/neogb/engine.c
@@ -62,18 +62,16 @@ int initialize_gba_input_data(
     if (res == 0) {
         return 0;
     }
+    /* the last nr_nf elements are to be reduced resp. used for saturation,
+     * they may be zero, the others generate the ideal */
     int32_t nr_valid    =   0;
-    for (int32_t i = 0; i < nr_gens; ++i) {
+    for (int32_t i = 0; i < nr_gens - nr_nf; ++i) {
         nr_valid    +=  invalid_gens[i] == 0;
     }
-    /* not enough elements available for normal form computations resp. saturation */
-    if (nr_valid <= nr_nf) {
-        return 0;
-    }
     /* all data is corrupt */
-    if (res == -1) {
+    if (nr_valid == 0) {
         free(invalid_gens);
-        return res;
+        return nr_nf > 0 ? 0 : -1;
     }
 
     /* checks and set all meta data. if a nonzero value is returned then
-- 
2.43.0


From 7017db1fee61b25ebb25fb42354a2faaf5cfa789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:28 +0000
Subject: [PATCH 24/36] fix: return_zero() must return something

The library functions for Groebner bases and normal forms call it when all
generators are zero, but it never stored the zero polynomial it allocates.
---
 src/neogb/io.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/neogb/io.c b/src/neogb/io.c
index 5e2953c..d64ed7b 100644
--- a/src/neogb/io.c
+++ b/src/neogb/io.c
@@ -469,12 +469,19 @@ void return_zero(
             (unsigned long)1 * (unsigned long)(nr_vars) * sizeof(int32_t));
     memset(exp, 0, (unsigned long)nr_vars * sizeof(int32_t));
     if (field_char > 0) {
-    int32_t *cf   = (int32_t *)(*mallocp)(
-            (unsigned long)1 * sizeof(int32_t));
-    cf[0]   =   0;
+        int32_t *cf   = (int32_t *)(*mallocp)(
+                (unsigned long)1 * sizeof(int32_t));
+        cf[0]   =   0;
+        *bcf    =   (void *)cf;
     } else {
-        fprintf(stderr, "We only support finite fields.\n");
+        mpz_t *cf     = (mpz_t *)(*mallocp)(
+                (unsigned long)1 * sizeof(mpz_t));
+        mpz_init(cf[0]);
+        *bcf    =   (void *)cf;
     }
+    *bload  =   1;
+    *blen   =   len;
+    *bexp   =   exp;
 }
 
 static int64_t export_data(
-- 
2.43.0


From 5dc150fe462122d962981ccb0e8cf0ec44201deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:28 +0000
Subject: [PATCH 25/36] fix: sort terms decreasingly for the lexicographical
 order

initial_gens_cmp_lex() sorted the terms of imported polynomials increasingly,
the leading term came last.
---
 src/neogb/order.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neogb/order.c b/src/neogb/order.c
index 0f114bd..0dc8a96 100644
--- a/src/neogb/order.c
+++ b/src/neogb/order.c
@@ -263,7 +263,7 @@ static int initial_gens_cmp_lex(
     while(i < evl-1 && ea[i] == eb[i]) {
         ++i;
     }
-    return ea[i] - eb[i];
+    return eb[i] - ea[i];
 }
 
 static int monomial_cmp_pivots_lex(
-- 
2.43.0


From 74ddee9c5f3ef3d1399022d58b01439ccb96b16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:28 +0000
Subject: [PATCH 26/36] fix: heap overflow when exporting zero polynomials with
 elimination orders

With a block order exponent vectors hold two degrees, a zero polynomial was
exported with one exponent too many.
---
 src/neogb/io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neogb/io.c b/src/neogb/io.c
index d64ed7b..11e9993 100644
--- a/src/neogb/io.c
+++ b/src/neogb/io.c
@@ -547,7 +547,7 @@ static int64_t export_data(
             } else {
                 ((int32_t *)cf+cc)[0] = (int32_t)0;
             }
-            for (k = 1; k < evl; ++k) {
+            for (k = 0; k < nv; ++k) {
                 exp[ce++] = (int32_t)0;
             }
             cc += 1;
-- 
2.43.0


From 592389782c76353824ef6f515b2095167dbe3b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:28 +0000
Subject: [PATCH 27/36] fix: terminate the variable names in msolve_julia()

---
 src/msolve/msolve.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/msolve/msolve.c b/src/msolve/msolve.c
index 81ac740..70eeac8 100644
--- a/src/msolve/msolve.c
+++ b/src/msolve/msolve.c
@@ -5017,7 +5017,7 @@ void msolve_julia(
     /* gens->vnames                = var_names; */
     gens->vnames  = (char **)malloc((unsigned long)nr_vars * sizeof(char *));
     for (i = 0; i < nr_vars; ++i) {
-        gens->vnames[i] = calloc((unsigned long)strlen(var_names[i]), sizeof(char));
+        gens->vnames[i] = calloc((unsigned long)strlen(var_names[i]) + 1, sizeof(char));
         memcpy(gens->vnames[i], var_names[i], (unsigned long)strlen(var_names[i]) * sizeof(char));
     }
     /* gens->lens                  = lens; */
-- 
2.43.0


From 09f767590678df34a452b6074489fd294c213376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:09 +0000
Subject: [PATCH 28/36] fix: exact linear algebra for normal forms over small
 fields

export_nf() always used the probabilistic linear algebra, which misses basis
elements with probability about 1/p.
---
 src/neogb/nf.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/neogb/nf.c b/src/neogb/nf.c
index c470579..9a73e7c 100644
--- a/src/neogb/nf.c
+++ b/src/neogb/nf.c
@@ -149,11 +149,15 @@ int64_t export_nf(
     int32_t err = 0;
     int success = 0;
 
+    /* the failure probability of the probabilistic linear algebra is about the
+     * inverse of the field characteristic, do not use it for small fields */
+    const int32_t la_option = field_char < ((uint32_t)1 << 16) ? 2 : 44;
+
     /* get polys w.r.t. which we reduce */
     success = initialize_gba_input_data(&bs, &bht, &md,
             bs_lens, bs_exps, bs_cfs, field_char, mon_order, elim_block_len,
             nr_vars, nr_bs_gens, 0, 17,
-            nr_threads, 0, 0, 44, 0,
+            nr_threads, 0, 0, la_option, 0,
             1, 0, 0, info_level);
 
     /* all input generators are invalid */
-- 
2.43.0


From a76192d4e5e064e6da09ad6b80e6fa935bbd65a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:34 +0000
Subject: [PATCH 29/36] fix: random multipliers of probabilistic linear algebra
 had 15 bits only

---
 src/neogb/la_ff_32.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/neogb/la_ff_32.c b/src/neogb/la_ff_32.c
index 1787689..b30d116 100644
--- a/src/neogb/la_ff_32.c
+++ b/src/neogb/la_ff_32.c
@@ -2328,7 +2328,7 @@ static void probabilistic_sparse_reduced_echelon_form_ff_32(
      * We can have fc > 2^31, so shifting the result of random multiplier
      * and coefficient may lead to elements of size > 2^63 which cannot
      * be represented by int64_t anymore. Thus we restrict the multiplier
-     * via masking with mask to < 2^31. Then, after subtracting the
+     * via masking with mask to < 2^30. Then, after subtracting the
      * multiplied values we have to check if at some point the result gets
      * negative as int64_t, i.e. if drl[i] >> 63 is 1. If so, we add a
      * corresponding multiple of fc. Again, if fc > 2^31 we cannot just
@@ -2346,7 +2346,7 @@ static void probabilistic_sparse_reduced_echelon_form_ff_32(
     const len_t rem = (nrl % nb == 0) ? 0 : 1;
     const len_t rpb = (nrl / nb) + rem;
     /* const int64_t mask  = pow(2,(uint32_t)(ceil(log((double)st->max_uht_size)/log(2))))-1; */
-    const int64_t mask  = pow(2,15)-1;
+    const int64_t mask  = ((int64_t)1 << 30) - 1;
 
     int64_t *dr   = (int64_t *)malloc(
         (unsigned long)(st->nthrds * ncols) * sizeof(int64_t));
@@ -2375,7 +2375,7 @@ static void probabilistic_sparse_reduced_echelon_form_ff_32(
 
                 /* fill random value array */
                 for (j = 0; j < nrbl; ++j) {
-                    mull[j] = (int64_t)rand() & mask;
+                    mull[j] = ((int64_t)rand() % fc) & mask;
                 }
                 /* generate one dense row as random linear combination
                  * of the rows of the block */
-- 
2.43.0


From 582ed607ceff098b4a71c19d988af6a146c0fcaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:20 +0000
Subject: [PATCH 30/36] fix: leading monomial 1 was not printed

---
 src/msolve/iofiles.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/msolve/iofiles.c b/src/msolve/iofiles.c
index 2d3ae96..6d4bca7 100644
--- a/src/msolve/iofiles.c
+++ b/src/msolve/iofiles.c
@@ -244,6 +244,9 @@ static void print_msolve_polynomials_ff(
                         fprintf(file, "*%s^%u",vnames[k], ht->ev[hm[0]][evi[k]]);
                     }
                 }
+                if (ctr == 0) {
+                    fprintf(file, "1");
+                }
                 if (i < to-1) {
                     fprintf(file, ",\n");
                 } else {
-- 
2.43.0


From 51235e6c8ae00e2986bcd96398f390f45a0d8fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:25 +0000
Subject: [PATCH 31/36] fix: data race in the multiplication of polynomials
 during root isolation

---
 src/usolve/univmultiply.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/usolve/univmultiply.c b/src/usolve/univmultiply.c
index 239f6b7..0dde035 100644
--- a/src/usolve/univmultiply.c
+++ b/src/usolve/univmultiply.c
@@ -63,8 +63,10 @@ static void mpz_2_fmpz_poly(fmpz_poly_t poly_flint, const mpz_t *poly_gmp,
   unsigned long int i;
 #pragma omp parallel for private(i) num_threads(nthreads)
   for(i = 0; i <= deg; i++){
-    fmpz_poly_set_coeff_mpz2(poly_flint, ((slong)i),poly_gmp[i]);
+    /* do not touch the length of poly_flint in parallel */
+    fmpz_set_mpz(poly_flint->coeffs + i, poly_gmp[i]);
   }
+  _fmpz_poly_normalise(poly_flint);
 }
 
 
-- 
2.43.0


From fbbd29654637aae906c8c69a077c9d4fecee538f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:28 +0000
Subject: [PATCH 32/36] fix: heap over-read when duplicating leading monomials
 for several threads in elimination

---
 src/msolve/duplicate.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/msolve/duplicate.c b/src/msolve/duplicate.c
index f1db24f..5cf3742 100644
--- a/src/msolve/duplicate.c
+++ b/src/msolve/duplicate.c
@@ -394,7 +394,7 @@ static inline void duplicate_data_mthread_gbtrace(int nthreads,
                                                   trace_t **btrace){
 
 
-  const len_t len = num_gb[0] * (st->nvars);
+  const len_t len = num_gb[0] * (st->nvars - st->nev);
 
   for(int i = 0; i < nthreads; i++){
     leadmons_current[i] = (int32_t *)calloc(len, sizeof(int32_t));
-- 
2.43.0


From 98ce3bf6762cb7b170402f2ee9374df2b6a2aded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:30 +0000
Subject: [PATCH 33/36] fix: saturation looked up degrees of new multiples in
 the wrong hash table and clobbered the divisor index

---
 src/neogb/f4sat.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/neogb/f4sat.c b/src/neogb/f4sat.c
index 4179b32..7ecea83 100644
--- a/src/neogb/f4sat.c
+++ b/src/neogb/f4sat.c
@@ -468,12 +468,13 @@ sat_restart:
         sat->hm[i]        = multiplied_poly_to_matrix_row(
                 sht, bht, h, etmp, sat->hm[j]);
         sat->hm[i][MULT] = qb[i];
-        deg_t deg = bht->hd[sat->hm[i][OFFSET]].deg;
+        /* the monomials of the new elements are stored in sht */
+        deg_t deg = sht->hd[sat->hm[i][OFFSET]].deg;
         if (st->nev > 0) {
             const len_t len = sat->hm[i][LENGTH]+OFFSET;
-            for (j = OFFSET+1; j < len; ++j) {
-                if (deg < bht->hd[sat->hm[i][j]].deg) {
-                    deg = bht->hd[sat->hm[i][j]].deg;
+            for (k = OFFSET+1; k < len; ++k) {
+                if (deg < sht->hd[sat->hm[i][k]].deg) {
+                    deg = sht->hd[sat->hm[i][k]].deg;
                 }
             }
         }
-- 
2.43.0


From 34958b20aa0e18e5c56cebcdf95a969dca48de74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:16 +0000
Subject: [PATCH 34/36] fix: a root next to an exact root was replaced by that
 root while extracting coordinates

---
 src/msolve/msolve.c    |  4 ++--
 src/usolve/libusolve.h |  2 ++
 src/usolve/refine.c    | 18 ++++++++++++++++++
 3 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/msolve/msolve.c b/src/msolve/msolve.c
index 70eeac8..b89869a 100644
--- a/src/msolve/msolve.c
+++ b/src/msolve/msolve.c
@@ -2961,7 +2961,7 @@ void lazy_single_real_root_param(mpz_param_t param, mpz_t *polelim,
 
     /* root is positive */
     if (mpz_sgn(rt->numer) >= 0) {
-      get_values_at_bounds(param->elim->coeffs, ns, rt, tab);
+      remove_roots_at_bounds(polelim, &ns, rt, tab);
       refine_QIR_positive_root(polelim, &ns, rt, tab, 2 * (rt->k), info_level);
     } else {
       /* root is negative */
@@ -2975,7 +2975,7 @@ void lazy_single_real_root_param(mpz_param_t param, mpz_t *polelim,
           mpz_neg(polelim[i], polelim[i]);
         }
       }
-      get_values_at_bounds(polelim, ns, pos_root, tab);
+      remove_roots_at_bounds(polelim, &ns, pos_root, tab);
       refine_QIR_positive_root(polelim, &ns, pos_root, tab,
                                2 * (pos_root->k) + ns, info_level);
       for (long i = 0; i <= ns; i++) {
diff --git a/src/usolve/libusolve.h b/src/usolve/libusolve.h
index 02c503d..64ba819 100644
--- a/src/usolve/libusolve.h
+++ b/src/usolve/libusolve.h
@@ -46,6 +46,8 @@ void mpz_poly_eval_2exp_naive2(mpz_t *,
 
 void get_values_at_bounds(mpz_t *, unsigned long int, interval *, mpz_t *);
 
+void remove_roots_at_bounds(mpz_t *, long int *, interval *, mpz_t *);
+
 void refine_QIR_positive_root(mpz_t *, long int *, interval *,
                                      mpz_t *, int, int);
 
diff --git a/src/usolve/refine.c b/src/usolve/refine.c
index 347f32f..51d14f3 100644
--- a/src/usolve/refine.c
+++ b/src/usolve/refine.c
@@ -664,6 +664,24 @@ void get_values_at_bounds(mpz_t *upol, unsigned long int deg,
   }
 }
 
+/* divides upol by the factors whose roots are bounds of the interval rt (these are */
+/* other, exact roots of upol), then computes the values of upol at these bounds */
+void remove_roots_at_bounds(mpz_t *upol, unsigned long int *deg_ptr,
+                            interval *rt, mpz_t *tab){
+  const long k = rt->k > 0 ? rt->k : 0;
+
+  get_values_at_bounds(upol, *deg_ptr, rt, tab);
+  if(mpz_sgn(tab[0]) == 0){
+    USOLVEnumer_quotient(upol, deg_ptr, rt->numer, k);
+    get_values_at_bounds(upol, *deg_ptr, rt, tab);
+  }
+  if(mpz_sgn(tab[1]) == 0){
+    /* get_values_at_bounds puts the right bound in tab[3] */
+    USOLVEnumer_quotient(upol, deg_ptr, tab[3], k);
+    get_values_at_bounds(upol, *deg_ptr, rt, tab);
+  }
+}
+
 static void refine_root_naive(mpz_t *upol, unsigned long int deg,
                               interval *rt, mpz_t *middle, int calgo){
   if(rt->isexact == 1){
-- 
2.43.0


From 29d868971e8b02334c98e60d89252884db5faf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:16 +0000
Subject: [PATCH 35/36] fix: coordinates of close real solutions were printed
 with arbitrarily large intervals

---
 src/msolve/msolve.c | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/msolve/msolve.c b/src/msolve/msolve.c
index b89869a..aa3df48 100644
--- a/src/msolve/msolve.c
+++ b/src/msolve/msolve.c
@@ -2932,6 +2932,18 @@ int newvalue_denom(mpz_t *denom, long deg, mpz_t r, long k, mpz_t *xdo,
   return (boo || (mpz_sgn(den_do)==0) || (mpz_sgn(den_up)==0));
 }
 
+/* returns 1 when the coordinate in [val_do / 2^dec, val_up / 2^dec] is known with less
+   than prec bits (when prec > 64, less than max(64, prec / 2) bits) else it returns 0 ;
+   this is relative for coordinates of absolute value greater than 1 */
+static int coord_is_too_wide(mpz_t val_do, mpz_t val_up, const long dec,
+                             const long prec, mpz_t tmp) {
+  const long bits = MIN(prec, MAX(64, prec / 2));
+  const long size = MIN(mpz_sizeinbase(val_do, 2), mpz_sizeinbase(val_up, 2));
+  mpz_sub(tmp, val_up, val_do);
+  mpz_sub_ui(tmp, tmp, 1);
+  return (long)mpz_sizeinbase(tmp, 2) > MAX(dec, size) - bits + 1;
+}
+
 void lazy_single_real_root_param(mpz_param_t param, mpz_t *polelim,
                                  interval *rt, long nb, interval *pos_root,
                                  mpz_t *xdo, mpz_t *xup, mpz_t den_up,
@@ -2954,10 +2966,15 @@ void lazy_single_real_root_param(mpz_param_t param, mpz_t *polelim,
   /* checks whether the abs. value of the root is greater than 1 */
 
   generate_table_values_full(rt, c, ns, b, corr, xdo, xup);
+
+  /* becomes 1 when a coordinate is too wide: the root is refined again */
+  int toowide = 0;
+refine:
   while (rt->isexact == 0 && 
-          newvalue_denom(param->denom->coeffs, param->denom->length - 1,
+          (newvalue_denom(param->denom->coeffs, param->denom->length - 1,
                         rt->numer, rt->k, xdo, xup, tmp, den_do, den_up, corr,
-                        s)) {
+                        s) || toowide)) {
+    toowide = 0;
 
     /* root is positive */
     if (mpz_sgn(rt->numer) >= 0) {
@@ -3099,6 +3116,13 @@ void lazy_single_real_root_param(mpz_param_t param, mpz_t *polelim,
     mpz_set(val_do, v1);
     mpz_set(val_up, v2);
 
+    if (coord_is_too_wide(val_do, val_up, dec, prec, tmp)) {
+      toowide = 1;
+      mpz_clear(v1);
+      mpz_clear(v2);
+      goto refine;
+    }
+
     mpz_set(pt->coords[nv]->val_up, val_up);
     mpz_set(pt->coords[nv]->val_do, val_do);
 
-- 
2.43.0


From 7ec71703d19aaecff1c614e3568ba1461ef10ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:16 +0000
Subject: [PATCH 36/36] fix: normal forms changed the linear algebra of other
 threads

core_nf() selected exact linear algebra by overwriting the global function
pointer linear_algebra. With several threads, a run of F4 with probabilistic
linear algebra in another thread switches the pointer back in between, and
the normal forms are computed with a variant that ignores the polynomials
to be reduced: crash or wrong parametrization.
---
 src/neogb/nf.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/neogb/nf.c b/src/neogb/nf.c
index 9a73e7c..d2c8853 100644
--- a/src/neogb/nf.c
+++ b/src/neogb/nf.c
@@ -67,7 +67,6 @@ bs_t *core_nf(
 
     /* reset to exact linear algebra for normal form computation */
     md->laopt = 2;
-    set_function_pointers(md);
 
     /* matrix holding sparse information generated
      * during symbolic preprocessing */
@@ -83,8 +82,13 @@ bs_t *core_nf(
     convert_hashes_to_columns(mat, md, md->ht);
     sort_matrix_rows_decreasing(mat->rr, mat->nru);
 
-    /* linear algebra, depending on choice, see set_function_pointers() */
-    linear_algebra(mat, tbr, bs, md);
+    /* exact linear algebra, do not change the global function pointer
+     * linear_algebra: other threads may run F4 with another variant */
+    if (md->ff_bits == 0) {
+        exact_sparse_linear_algebra_qq(mat, tbr, bs, md);
+    } else {
+        exact_linear_algebra(mat, tbr, bs, md);
+    }
     /* columns indices are mapped back to exponent hashes */
     return_normal_forms_to_basis(
             mat, tbr, bht, md->ht, md->hcm, md);
-- 
2.43.0

