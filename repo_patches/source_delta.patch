From 5b5d55404b91ee0821e6b170b051d7e4153ccd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:39 +0000
Subject: [PATCH 01/15] fix: zero the column pointers of the transpose of an
 empty sparse matrix

transposeSparseMatrix returned a matrix with uninitialised column pointers
when the input had no non-zeros, so ECOS_setup read garbage (and returned
NULL or crashed) for problems whose G or A has rows but no entries.
---
 src/splamm.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/splamm.c b/src/splamm.c
index a3308ee..ab91e7c 100644
--- a/src/splamm.c
+++ b/src/splamm.c
@@ -68,7 +68,11 @@ spmat* transposeSparseMatrix(spmat* M, idxint* MtoMt)
 	idxint* w;
   
   spmat* A = newSparseMatrix(M->n, M->m, M->nnz);
-  if (M->nnz == 0) return A;
+  if (M->nnz == 0) {
+    /* all columns of M' are empty */
+    for( i=0; i <= M->m; i++ ) { A->jc[i] = 0; }
+    return A;
+  }
   
 	w = (idxint *)MALLOC(M->m*sizeof(idxint));
 
-- 
2.43.0


From fff1c64784f82d3446cff8b664be1a215cbf5f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:48 +0000
Subject: [PATCH 02/15] fix: do not accept infeasibility certificates whose
 residual is not small relative to the objective they prove

---
 include/ecos.h |  2 ++
 src/ecos.c     | 15 ++++++++++++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/ecos.h b/include/ecos.h
index 8c0385c..146d91b 100644
--- a/include/ecos.h
+++ b/include/ecos.h
@@ -62,6 +62,8 @@ extern "C" {
 #define SIGMAMAX   (1.0)         /* never fully center                   */
 #define STEPMIN    (1E-6)        /* smallest step that we do take        */
 #define STEPMAX    (0.999)  /* largest step allowed, also in affine dir. */
+#define CERTTOL    (1E-4)        /* largest residual of an infeasibility
+                                    certificate relative to its objective */
 #define SAFEGUARD  (500)         /* Maximum increase in PRES before
                                                 ECOS_NUMERICS is thrown. */
 /*Ecos exponential cone default settings*/
diff --git a/src/ecos.c b/src/ecos.c
index e5e321d..48af401 100644
--- a/src/ecos.c
+++ b/src/ecos.c
@@ -181,6 +181,13 @@ idxint checkExitConditions(pwork* w, idxint mode)
     pfloat feastol;
     pfloat abstol;
     pfloat reltol;
+    pfloat dinfscale, pinfscale;
+
+    /* The infeasibility measures are absolute, so they are also met by vectors that merely vanish
+     * (x,s -> 0 when only the primal is infeasible, y,z -> 0 when only the dual is). A certificate
+     * must in addition have a residual that is small compared to the objective it proves. */
+    dinfscale = MAX(norm2(w->x, w->n) + norm2(w->s, w->m), 1);
+    pinfscale = MAX(norm2(w->y, w->p) + norm2(w->z, w->m), 1);
 
     /* set accuracy against which to check */
     if( mode == 0) {
@@ -214,7 +221,8 @@ idxint checkExitConditions(pwork* w, idxint mode)
     }
 
     /* Dual infeasible? */
-    else if( (w->info->dinfres != ECOS_NAN) && (w->info->dinfres < feastol) && (w->tau < w->kap) ){
+    else if( (w->info->dinfres != ECOS_NAN) && (w->info->dinfres < feastol) && (w->tau < w->kap) &&
+             (w->info->dinfres * dinfscale < -CERTTOL * w->cx) ){
 #if PRINTLEVEL > 0
         if( w->stgs->verbose ) {
             if( mode == 0) {
@@ -230,8 +238,9 @@ idxint checkExitConditions(pwork* w, idxint mode)
     }
 
     /* Primal infeasible? */
-    else if( ((w->info->pinfres != ECOS_NAN && w->info->pinfres < feastol) && (w->tau < w->kap)) ||
-            ( w->tau < w->stgs->feastol && w->kap < w->stgs->feastol && w->info->pinfres < w->stgs->feastol) ){
+    else if( (((w->info->pinfres != ECOS_NAN && w->info->pinfres < feastol) && (w->tau < w->kap)) ||
+            ( w->tau < w->stgs->feastol && w->kap < w->stgs->feastol && w->info->pinfres < w->stgs->feastol)) &&
+            (w->info->pinfres * pinfscale < -CERTTOL * (w->hz + w->by)) ){
 #if PRINTLEVEL > 0
         if( w->stgs->verbose ) {
             if( mode == 0) {
-- 
2.43.0


From d5998bfd4473ff768706bf2e2a821c6ed686a37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:02 +0000
Subject: [PATCH 03/15] fix: ECOS_updateData dereferenced a missing A and took
 adjacent or empty arrays for overlapping ones

---
 src/ecos.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ecos.c b/src/ecos.c
index 48af401..3cd4382 100644
--- a/src/ecos.c
+++ b/src/ecos.c
@@ -1664,11 +1664,11 @@ void ECOS_updateData(pwork *w, pfloat *Gpr, pfloat *Apr,
     /* Only unequilibrate the old data if the new data is in a different location in memory. */
     /* This is required for backward compatibility since existing code might need this step. */
     if (
-        ((Gpr + w->G->nnz < w->G->pr) || (w->G->pr + w->G->nnz < Gpr)) &&
-        ((Apr + w->A->nnz < w->A->pr) || (w->A->pr + w->A->nnz < Apr)) &&
-        ((c + w->n < w->c) || (w->c + w->n < c)) &&
-        ((h + w->m < w->h) || (w->h + w->m < h)) &&
-        ((b + w->p < w->b) || (w->b + w->p < b))
+        ((Gpr + w->G->nnz <= w->G->pr) || (w->G->pr + w->G->nnz <= Gpr)) &&
+        (!w->A || (Apr + w->A->nnz <= w->A->pr) || (w->A->pr + w->A->nnz <= Apr)) &&
+        ((c + w->n <= w->c) || (w->c + w->n <= c)) &&
+        ((h + w->m <= w->h) || (w->h + w->m <= h)) &&
+        ((b + w->p <= w->b) || (w->b + w->p <= b))
     ){
     unset_equilibration(w);
     }
-- 
2.43.0


From dda2d0937077497d573788e626dfb2bbaf8bdd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:02 +0000
Subject: [PATCH 04/15] fix: restore the cost vector, the iterate's scale and
 the signal handler when ECOS_solve leaves early

---
 src/ecos.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/ecos.c b/src/ecos.c
index 3cd4382..17fc0e8 100644
--- a/src/ecos.c
+++ b/src/ecos.c
@@ -1123,6 +1123,13 @@ idxint ECOS_solve(pwork* w)
 	if( initcode == ECOS_FATAL ){
 #if PRINTLEVEL > 0
         if( w->stgs->verbose ) PRINTTEXT("\nFatal error during initialization, aborting.");
+#endif
+        /* undo what has been done so far to the caller's data and signal handling */
+#if defined EQUILIBRATE && EQUILIBRATE > 0
+        for(i = 0; i <w->n; i++) { w->c[i] *= w->xequil[i]; }
+#endif
+#if CTRLC > 0
+        remove_ctrlc();
 #endif
         return ECOS_FATAL;
     }
@@ -1313,11 +1320,9 @@ idxint ECOS_solve(pwork* w)
 #if PRINTLEVEL > 0
                 if( w->stgs->verbose ) PRINTTEXT("\nNUMERICAL PROBLEMS (reached feastol=%3.1e, reltol=%3.1e, abstol=%3.1e).", MAX(w->info->dres, w->info->pres), w->info->relgap, w->info->gap);
 #endif
-                return ECOS_OUTCONE;
-
-            } else {
-                break;
+                exitcode = ECOS_OUTCONE;
             }
+            break;
         }
 
 		/* Update KKT matrix with scalings */
@@ -1348,7 +1353,8 @@ idxint ECOS_solve(pwork* w)
 #if PRINTLEVEL > 0
 	    if( w->stgs->verbose ) PRINTTEXT("\nProblem in factoring KKT system, aborting.");
 #endif
-	        return ECOS_FATAL;
+	        exitcode = ECOS_FATAL;
+	        break;
 	    }
 
 		/* Solve for RHS1, which is used later also in combined direction */
-- 
2.43.0


From 67c24100786dced898ef039cbbb02d52e94007e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:16 +0000
Subject: [PATCH 05/15] fix: do not recover a best iterate before one has been
 saved (stop at iteration 0)

---
 src/ecos.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecos.c b/src/ecos.c
index 17fc0e8..95fa727 100644
--- a/src/ecos.c
+++ b/src/ecos.c
@@ -1221,7 +1221,7 @@ idxint ECOS_solve(pwork* w)
                 const char *what = interrupted ? "SIGINT intercepted" : "Maximum number of iterations reached";
 #endif
                 /* Determine whether current iterate is better than what we had so far */
-                if( compareStatistics( w->info, w->best_info) ){
+                if( w->info->iter == 0 || compareStatistics( w->info, w->best_info) ){
 #if PRINTLEVEL > 0
                     if( w->stgs->verbose )
                         PRINTTEXT("%s, stopping.\n",what);
@@ -1254,7 +1254,7 @@ idxint ECOS_solve(pwork* w)
                 const char *what = "Reached NAN dead end";
 #endif
                 /* Determine whether current iterate is better than what we had so far */
-                if( compareStatistics( w->info, w->best_info) ){
+                if( w->info->iter == 0 || compareStatistics( w->info, w->best_info) ){
 #if PRINTLEVEL > 0
                     if( w->stgs->verbose )
                         PRINTTEXT("%s, stopping.\n",what);
-- 
2.43.0


From 92f794e2d16907a311f63a5252c3d3dee4d456cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:30 +0000
Subject: [PATCH 06/15] fix: ECOS_BB bound rows follow the order of the index
 lists, not of the columns

---
 ecos_bb/ecos_bb_preproc.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/ecos_bb/ecos_bb_preproc.c b/ecos_bb/ecos_bb_preproc.c
index f052e6f..1e311f1 100644
--- a/ecos_bb/ecos_bb_preproc.c
+++ b/ecos_bb/ecos_bb_preproc.c
@@ -54,6 +54,19 @@ static int contains(idxint idx, idxint num_int, idxint *bool_vars_idx)
     return (int)ans;
 }
 
+/* Position of idx in the list, or -1. The bound rows of a variable are at the position its list gives it,
+ * which is where the branch and bound code looks for them. */
+static idxint position(idxint idx, idxint num, idxint *vars_idx)
+{
+    idxint i;
+    for (i = 0; i < num; ++i)
+    {
+        if (vars_idx[i] == idx)
+            return i;
+    }
+    return -1;
+}
+
 /* Augments the G and b arrays to take lb and ub constraints
  * for all of the variables marked integer
  * USES MALLOC
@@ -74,11 +87,11 @@ static void socp_to_ecos_bb(
         Gjc_out[i] = Gjc_in[i];
     }
 
-    j = 0;
     for (i = 0; i < n; ++i)
     {
         if (contains(i, num_bool_vars, bool_vars_idx))
         {
+            j = position(i, num_bool_vars, bool_vars_idx);
             Gpr_out[Gjc_out[i]] = -1;
             Gpr_out[Gjc_out[i] + 1] = 1;
 
@@ -103,11 +116,10 @@ static void socp_to_ecos_bb(
                 Gpr_out[Gjc_out[i] + 2 + k] = Gpr_in[Gjc_in[i] + k];
                 Gir_out[Gjc_out[i] + 2 + k] = Gir_in[Gjc_in[i] + k] + 2 * num_bool_vars + 2 * num_int_vars;
             }
-
-            ++j;
         }
         else if (contains(i, num_int_vars, int_vars_idx))
         {
+            j = num_bool_vars + position(i, num_int_vars, int_vars_idx);
             Gpr_out[Gjc_out[i]] = -1;
             Gpr_out[Gjc_out[i] + 1] = 1;
 
@@ -132,8 +144,6 @@ static void socp_to_ecos_bb(
                 Gpr_out[Gjc_out[i] + 2 + k] = Gpr_in[Gjc_in[i] + k];
                 Gir_out[Gjc_out[i] + 2 + k] = Gir_in[Gjc_in[i] + k] + 2 * num_bool_vars + 2 * num_int_vars;
             }
-
-            ++j;
         }
         else
         {
-- 
2.43.0


From 55896cb3095c51d324f38c58cabb202214e75011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:30 +0000
Subject: [PATCH 07/15] fix: updateDataEntry_h of ECOS_BB skipped only the
 bound rows of the boolean variables

---
 ecos_bb/ecos_bb.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecos_bb/ecos_bb.c b/ecos_bb/ecos_bb.c
index 1a76213..a845e3b 100644
--- a/ecos_bb/ecos_bb.c
+++ b/ecos_bb/ecos_bb.c
@@ -1184,7 +1184,7 @@ idxint ECOS_BB_solve(ecos_bb_pwork *prob)
 
 void updateDataEntry_h(ecos_bb_pwork *w, idxint idx, pfloat value)
 {
-    ecos_updateDataEntry_h(w->ecos_prob, idx + (2 * w->num_bool_vars), value);
+    ecos_updateDataEntry_h(w->ecos_prob, idx + 2 * (w->num_bool_vars + w->num_int_vars), value);
 }
 
 void updateDataEntry_c(ecos_bb_pwork *w, idxint idx, pfloat value)
-- 
2.43.0


From 5e8b757bed8f15208dd932f02c0e4a45a2c0a4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:30 +0000
Subject: [PATCH 08/15] fix: ECOS_BB_solve forgot the incumbent found by
 rounding at the root node

---
 ecos_bb/ecos_bb.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/ecos_bb/ecos_bb.c b/ecos_bb/ecos_bb.c
index a845e3b..9732243 100644
--- a/ecos_bb/ecos_bb.c
+++ b/ecos_bb/ecos_bb.c
@@ -1143,7 +1143,6 @@ idxint ECOS_BB_solve(ecos_bb_pwork *prob)
     get_bounds(curr_node_idx, prob);
 
     prob->global_L = prob->nodes[curr_node_idx].L;
-    prob->global_U = prob->nodes[curr_node_idx].U;
 
     while (should_continue(prob, curr_node_idx))
     {
-- 
2.43.0


From a9cdcebe7a3575f1f7e225abfef987539fad99a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:30 +0000
Subject: [PATCH 09/15] fix: ECOS_BB_solve copied an uninitialised incumbent
 when it found no solution

---
 ecos_bb/ecos_bb.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ecos_bb/ecos_bb.c b/ecos_bb/ecos_bb.c
index 9732243..2bc7d2e 100644
--- a/ecos_bb/ecos_bb.c
+++ b/ecos_bb/ecos_bb.c
@@ -1170,7 +1170,10 @@ idxint ECOS_BB_solve(ecos_bb_pwork *prob)
 
         curr_node_idx = get_next_node(prob);
     }
-    load_solution(prob);
+    if (prob->global_U < ECOS_INFINITY)
+    {
+        load_solution(prob);
+    }
 
 #if MI_PRINTLEVEL > 0
     if (prob->stgs->verbose)
-- 
2.43.0


From 775e496b2cd93a28750b0a7f508ecf30389a6be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:30 +0000
Subject: [PATCH 10/15] fix: reliability branching split on a stale variable or
 value after probing other candidates

---
 ecos_bb/ecos_bb.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ecos_bb/ecos_bb.c b/ecos_bb/ecos_bb.c
index 2bc7d2e..839cd72 100644
--- a/ecos_bb/ecos_bb.c
+++ b/ecos_bb/ecos_bb.c
@@ -753,6 +753,11 @@ static void get_branch_var_reliability_branching(ecos_bb_pwork *problem, idxint
     idxint ecos_result;
     pfloat q;
     pfloat *x_values = NULL;
+    /* strong branching overwrites the solution of the node's relaxation */
+    pfloat *x_node = MALLOC(sizeof(pfloat) * problem->ecos_prob->n);
+    memcpy(x_node, problem->ecos_prob->x, sizeof(pfloat) * problem->ecos_prob->n);
+    /* set split idx to something impossible */
+    *split_idx = -1;
 
     idxint *random_idx = get_shuffled_array(problem->num_bool_vars + problem->num_int_vars);
     idxint rand_i;
@@ -769,7 +774,7 @@ static void get_branch_var_reliability_branching(ecos_bb_pwork *problem, idxint
             var_idx = problem->int_vars_idx[(i - problem->num_bool_vars)];
         }
 
-        const pfloat y = problem->ecos_prob->x[var_idx];
+        const pfloat y = x_node[var_idx];
         if (float_eqls(y, pfloat_floor(y, problem->stgs->integer_tol), problem->stgs->integer_tol) ||
             float_eqls(y, pfloat_ceil(y, problem->stgs->integer_tol), problem->stgs->integer_tol))
         {
@@ -843,6 +848,7 @@ static void get_branch_var_reliability_branching(ecos_bb_pwork *problem, idxint
     }
     free(random_idx);
     free(x_values);
+    free(x_node);
 #if MI_PRINTLEVEL > 1
     PRINTTEXT("split_idx:%u, split_val:%f\n", *split_idx, *split_val);
 #endif
-- 
2.43.0


From fbdee5c5aa7c60c86b433253fd247ccde077bff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:12 +0000
Subject: [PATCH 11/15] fix: ECOS_setup leaked the workspace when it rejects
 inconsistent cone dimensions

---
 src/preproc.c | 40 +++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/src/preproc.c b/src/preproc.c
index b0e57aa..c51fb70 100644
--- a/src/preproc.c
+++ b/src/preproc.c
@@ -612,6 +612,27 @@ pwork* ECOS_setup(idxint n, idxint m, idxint p, idxint l, idxint ncones, idxint*
 #endif
     PRINTTEXT("\n");
 
+#endif
+
+    /* The number of conic variables has to equal l+sum(q)+3*nexp else terminate*/
+    cidx = 0;
+    for( i=0; i<ncones; i++ ){ cidx += q[i]; }
+#ifdef EXPCONE
+    if(cidx+l+3*nexc!=m)
+    {
+#if PRINTLEVEL > 2
+        PRINTTEXT("Number of conic variables does not match l+sum(q)+3*nexc\n");
+#endif
+        return NULL;
+    }
+#else
+    if(cidx+l!=m)
+    {
+#if PRINTLEVEL > 2
+        PRINTTEXT("Number of conic variables does not match l+sum(q)\n");
+#endif
+        return NULL;
+    }
 #endif
 
 	/* get work data structure */
@@ -715,25 +736,6 @@ pwork* ECOS_setup(idxint n, idxint m, idxint p, idxint l, idxint ncones, idxint*
 #endif
 #endif
 
-    /* The number of conic variables has to equal l+sum(q)+3*nexp else terminate*/
-#ifdef EXPCONE
-    if(cidx+l+3*nexc!=m)
-    {
-#if PRINTLEVEL > 2
-        PRINTTEXT("Number of conic variables does not match l+sum(q)+3*nexc\n");
-#endif
-        return NULL;
-    }
-#else
-    if(cidx+l!=m)
-    {
-#if PRINTLEVEL > 2
-        PRINTTEXT("Number of conic variables does not match l+sum(q)\n");
-#endif
-        return NULL;
-    }
-#endif
-
 	/* info struct */
     mywork->info = (stats *)MALLOC(sizeof(stats));
 #if PROFILING > 1
-- 
2.43.0


From 5327683c1dd0f0ecc207fbdca18e305b84441a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:12 +0000
Subject: [PATCH 12/15] fix: ECOS_BB_setup dereferenced NULL when ECOS_setup
 rejects the problem

---
 ecos_bb/ecos_bb_preproc.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ecos_bb/ecos_bb_preproc.c b/ecos_bb/ecos_bb_preproc.c
index 1e311f1..f25103b 100644
--- a/ecos_bb/ecos_bb_preproc.c
+++ b/ecos_bb/ecos_bb_preproc.c
@@ -291,6 +291,11 @@ ecos_bb_pwork *ECOS_BB_setup(
         prob->Gpr_new, prob->Gjc_new, prob->Gir_new,
         Apr, Ajc, Air,
         c, prob->h_new, b);
+    if (prob->ecos_prob == NULL)
+    {
+        ECOS_BB_cleanup(prob, 0);
+        return NULL;
+    }
 
     /* Store the number of integer variables in the problem*/
     prob->num_bool_vars = num_bool_vars;
@@ -337,7 +342,10 @@ ecos_bb_pwork *ECOS_BB_setup(
 void ECOS_BB_cleanup(ecos_bb_pwork *prob, idxint num_vars_keep)
 {
     /* FREE solver memory*/
-    ECOS_cleanup(prob->ecos_prob, num_vars_keep);
+    if (prob->ecos_prob)
+    {
+        ECOS_cleanup(prob->ecos_prob, num_vars_keep);
+    }
     FREE(prob->tmp_bool_node_id);
     FREE(prob->tmp_int_node_id);
     FREE(prob->tmp_branching_bool_node_id);
-- 
2.43.0


From 17ca1c7d6e8539684d03dc7d5f7e81c4c5591f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:23 +0000
Subject: [PATCH 13/15] fix: iterates outside the symmetric cones had barrier
 -infinity and were accepted by the exponential line search

---
 src/cone.c | 12 +++++++-----
 src/ecos.c |  4 +++-
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/cone.c b/src/cone.c
index fca4eb8..7213115 100644
--- a/src/cone.c
+++ b/src/cone.c
@@ -162,7 +162,7 @@ idxint updateScalings(cone* C, pfloat* s, pfloat* z, pfloat* lambda)
 
 		/* check residuals and quit if they're negative */
 		sres = socres(sk, p);  zres = socres(zk, p);
-        if( sres <= 0 || zres <= 0 ){ return OUTSIDE_CONE; }
+        if( sres <= 0 || zres <= 0 || sk[0] <= 0 || zk[0] <= 0 ){ return OUTSIDE_CONE; }
 
 		/* normalize variables */
 		snorm = sqrt(sres);    znorm = sqrt(zres);
@@ -242,9 +242,10 @@ pfloat evalSymmetricBarrierValue(pfloat* siter, pfloat *ziter, pfloat tauIter, p
    idxint socDim;
    /* Positive orthant barrier */
    for(k=0;k<C->lpc->p;k++)
-        barrier -= (siter[k]<=0||ziter[k]<=0)? ECOS_INFINITY : (log(siter[k])+log(ziter[k]));
+        barrier -= (siter[k]<=0||ziter[k]<=0)? -ECOS_INFINITY : (log(siter[k])+log(ziter[k]));
 
-    barrier-= (tauIter<=0||kapIter<=0) ? ECOS_INFINITY : (log(tauIter)+log(kapIter));
+    if( tauIter<=0 ){ return ECOS_INFINITY; }
+    barrier-= (kapIter<=0) ? ECOS_INFINITY : (log(tauIter)+log(kapIter)); /* kappa vanishes on a full affine step */
     /* Socp cones */
     for(l=0;l<C->nsoc;l++)
     {
@@ -253,6 +254,7 @@ pfloat evalSymmetricBarrierValue(pfloat* siter, pfloat *ziter, pfloat tauIter, p
         normAccumZ = 0.0;
         normAccumS = siter[k]*siter[k]; /* Root variable of the socp cone */
         normAccumZ = ziter[k]*ziter[k];
+        if( siter[k]<=0 || ziter[k]<=0 ){ return ECOS_INFINITY; } /* the opposite cone has the same residual */
         k++;
         for(j=1;j<socDim;j++)
         {
@@ -260,8 +262,8 @@ pfloat evalSymmetricBarrierValue(pfloat* siter, pfloat *ziter, pfloat tauIter, p
             normAccumZ -= ziter[k]*ziter[k];
             k++;
         }
-        barrier-= normAccumS<=0.0? ECOS_INFINITY : 0.5*log(normAccumS);
-        barrier-= normAccumZ<=0.0? ECOS_INFINITY : 0.5*log(normAccumZ);
+        barrier-= normAccumS<=0.0? -ECOS_INFINITY : 0.5*log(normAccumS);
+        barrier-= normAccumZ<=0.0? -ECOS_INFINITY : 0.5*log(normAccumZ);
 
     }
     return barrier-D-1;
diff --git a/src/ecos.c b/src/ecos.c
index 95fa727..b0efd38 100644
--- a/src/ecos.c
+++ b/src/ecos.c
@@ -1006,8 +1006,10 @@ pfloat lineSearch(pfloat* lambda, pfloat* ds, pfloat* dz, pfloat tau, pfloat dta
 
 		/* normalize */
 		lknorm2 = lk[0]*lk[0] - eddot(conesize-1, lk+1, lk+1);
-		if (lknorm2 <= 0.0)
+		if (lknorm2 <= 0.0) {
+			cone_start += conesize;
 			continue;
+		}
 
 		lknorm = sqrt( lknorm2 );
 		for( j=0; j < conesize; j++ ){ lkbar[j] = lk[j] / lknorm; }
-- 
2.43.0


From 3570ff430fadbe863cdb7171ea77a36a6b69734d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:13 +0000
Subject: [PATCH 14/15] fix: an interrupted relaxation must not decide
 ECOS_BB's verdict

---
 ecos_bb/ecos_bb.c | 25 ++++++++++++++++++++-----
 include/ecos_bb.h |  3 +++
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/ecos_bb/ecos_bb.c b/ecos_bb/ecos_bb.c
index 839cd72..87e861e 100644
--- a/ecos_bb/ecos_bb.c
+++ b/ecos_bb/ecos_bb.c
@@ -391,13 +391,27 @@ static void initialize_strong_branching(ecos_bb_pwork *problem, idxint node_idx)
     memcpy(problem->tmp_branching_int_node_id, get_int_node_id(node_idx, problem), int_node_size);
 }
 
+/*
+ * Solves the current relaxation and remembers if that was interrupted by the user:
+ * the result of an interrupted solve says nothing about the node
+ */
+static idxint solve_relaxation(ecos_bb_pwork *prob)
+{
+    const idxint ret_code = ECOS_solve(prob->ecos_prob);
+    if (ret_code == ECOS_SIGINT)
+    {
+        prob->interrupted = 1;
+    }
+    return ret_code;
+}
+
 /*
  * Calculates the relaxation (and ecos_result) for the tmp_branching node
  */
 static void calc_tmp_branching_problem(ecos_bb_pwork *problem, pfloat *relaxation, idxint *ecos_result)
 {
     set_prob(problem, problem->tmp_branching_bool_node_id, problem->tmp_branching_int_node_id);
-    *ecos_result = ECOS_solve(problem->ecos_prob);
+    *ecos_result = solve_relaxation(problem);
     *relaxation = eddot(problem->ecos_prob->n, problem->ecos_prob->x, problem->ecos_prob->c);
 }
 
@@ -898,7 +912,7 @@ static void get_bounds(idxint node_idx, ecos_bb_pwork *prob)
     viable_rounded_sol = 0;
 
     set_prob(prob, get_bool_node_id(node_idx, prob), get_int_node_id(node_idx, prob));
-    ret_code = ECOS_solve(prob->ecos_prob);
+    ret_code = solve_relaxation(prob);
 
 #if MI_PRINTLEVEL > 1
     if (prob->stgs->verbose)
@@ -1009,7 +1023,7 @@ static void get_bounds(idxint node_idx, ecos_bb_pwork *prob)
             }
 #endif
             set_prob(prob, prob->tmp_bool_node_id, prob->tmp_int_node_id);
-            ret_code = ECOS_solve(prob->ecos_prob);
+            ret_code = solve_relaxation(prob);
 
 #if MI_PRINTLEVEL > 1
             if (prob->stgs->verbose)
@@ -1071,12 +1085,12 @@ static void get_bounds(idxint node_idx, ecos_bb_pwork *prob)
 
 static idxint should_continue(ecos_bb_pwork *prob, idxint curr_node_idx)
 {
-    return (prob->global_U - prob->global_L) > prob->stgs->abs_tol_gap && abs_2(prob->global_U / prob->global_L - 1.0) > prob->stgs->rel_tol_gap && curr_node_idx >= 0 && prob->iter < (prob->stgs->maxit - 1);
+    return (prob->global_U - prob->global_L) > prob->stgs->abs_tol_gap && abs_2(prob->global_U / prob->global_L - 1.0) > prob->stgs->rel_tol_gap && curr_node_idx >= 0 && prob->iter < (prob->stgs->maxit - 1) && !prob->interrupted;
 }
 
 static int get_ret_code(ecos_bb_pwork *prob)
 {
-    if (prob->iter < prob->stgs->maxit - 1)
+    if (prob->iter < prob->stgs->maxit - 1 && !prob->interrupted)
     {
         if (isinf(prob->global_U))
         {
@@ -1144,6 +1158,7 @@ idxint ECOS_BB_solve(ecos_bb_pwork *prob)
     /* of http://stanford.edu/class/ee364b/lectures/bb_slides.pdf*/
     prob->iter = 0;
     prob->dive_node_id = 0;
+    prob->interrupted = 0;
     initialize_root(prob);
     /*print_node(prob, curr_node_idx);*/
     get_bounds(curr_node_idx, prob);
diff --git a/include/ecos_bb.h b/include/ecos_bb.h
index b1fa622..f35566b 100644
--- a/include/ecos_bb.h
+++ b/include/ecos_bb.h
@@ -179,6 +179,9 @@ extern "C"
 		settings_bb *stgs;
 		idxint default_settings;
 
+		/* a relaxation was stopped by SIGINT */
+		idxint interrupted;
+
 	} ecos_bb_pwork;
 
 	ecos_bb_pwork *ECOS_BB_setup(
-- 
2.43.0


From 2996f2e60f70bec9dffa71c987be6448ec5116f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:32 +0000
Subject: [PATCH 15/15] fix: rounding a relaxed integer variable far outside
 its bounds is well defined

The point of a relaxation that ended undecided (exit -1 or -2) may lie far
outside of [0,1]. Converting it to char is undefined and -1 came out as
MI_STAR, other values as no setting at all: the "rounded" relaxation then
had free or stale bounds.
---
 ecos_bb/ecos_bb.c | 6 ++++--
 include/ecos_bb.h | 6 +++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/ecos_bb/ecos_bb.c b/ecos_bb/ecos_bb.c
index 87e861e..79b1888 100644
--- a/ecos_bb/ecos_bb.c
+++ b/ecos_bb/ecos_bb.c
@@ -974,8 +974,10 @@ static void get_bounds(idxint node_idx, ecos_bb_pwork *prob)
         branchable = 1;
         for (i = 0; i < prob->num_bool_vars; ++i)
         {
-            prob->tmp_bool_node_id[i] = (char)pfloat_round(prob->ecos_prob->x[prob->bool_vars_idx[i]]);
-            branchable &= float_eqls(prob->ecos_prob->x[prob->bool_vars_idx[i]], (pfloat)prob->tmp_bool_node_id[i], prob->stgs->integer_tol);
+            const pfloat rounded = pfloat_round(prob->ecos_prob->x[prob->bool_vars_idx[i]]);
+            /* the point of an unsolved relaxation may lie outside of [0,1] */
+            prob->tmp_bool_node_id[i] = rounded >= 1.0 ? MI_ONE : MI_ZERO;
+            branchable &= float_eqls(prob->ecos_prob->x[prob->bool_vars_idx[i]], rounded, prob->stgs->integer_tol);
         }
         for (i = 0; i < prob->num_int_vars; ++i)
         {
diff --git a/include/ecos_bb.h b/include/ecos_bb.h
index f35566b..16f3328 100644
--- a/include/ecos_bb.h
+++ b/include/ecos_bb.h
@@ -222,17 +222,17 @@ extern "C"
 
 	static pfloat pfloat_round(pfloat number)
 	{
-		return (number >= 0) ? (int)(number + 0.5) : (int)(number - 0.5);
+		return (number >= 0) ? floor(number + 0.5) : ceil(number - 0.5);
 	}
 
 	static pfloat pfloat_ceil(pfloat number, pfloat integer_tol)
 	{
-		return (pfloat)(number < 0 ? (int)number : (int)(number + (1 - integer_tol)));
+		return number < 0 ? ceil(number) : floor(number + (1 - integer_tol));
 	}
 
 	static pfloat pfloat_floor(pfloat number, pfloat integer_tol)
 	{
-		return (pfloat)(number < 0 ? (int)(number - (1 - integer_tol)) : (int)number);
+		return number < 0 ? ceil(number - (1 - integer_tol)) : floor(number);
 	}
 
 	static idxint float_eqls(pfloat a, pfloat b, pfloat integer_tol)
-- 
2.43.0

