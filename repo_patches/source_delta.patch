From 07122c6e7fc095c44c91c89a66f59552968c8a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:29 +0000
Subject: [PATCH 01/28] fix: initialise the column pointers of the transpose of
 a matrix without entries

---
 src/splamm.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/splamm.c b/src/splamm.c
index a3308ee..66b4b24 100644
--- a/src/splamm.c
+++ b/src/splamm.c
@@ -68,7 +68,11 @@ spmat* transposeSparseMatrix(spmat* M, idxint* MtoMt)
 	idxint* w;
   
   spmat* A = newSparseMatrix(M->n, M->m, M->nnz);
-  if (M->nnz == 0) return A;
+  if (M->nnz == 0) {
+    /* no entries: all columns of the transpose are empty */
+    for( i=0; i <= M->m; i++ ) { A->jc[i] = 0; }
+    return A;
+  }
   
 	w = (idxint *)MALLOC(M->m*sizeof(idxint));
 
-- 
2.43.0


From 6e3062249f8b9e898ec14de0ace705cfc733ecc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:52 +0000
Subject: [PATCH 02/28] fix: make the infeasibility residuals relative to the
 size of the certificate

---
 src/ecos.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecos.c b/src/ecos.c
index e5e321d..81f1cfb 100644
--- a/src/ecos.c
+++ b/src/ecos.c
@@ -530,8 +530,8 @@ void updateStatistics(pwork* w)
      * info->pinfres = w->hz + w->by < 0 ? w->hresx / w->resx0 / (-w->hz - w->by) : NAN;
      * info->dinfres = w->cx < 0 ? MAX(w->hresy/w->resy0, w->hresz/w->resz0) / (-w->cx) : NAN;
      */
-    info->pinfres = (w->hz + w->by)/MAX(w->ny+w->nz,1) < -w->stgs->reltol ? w->hresx / MAX(w->ny+w->nz,1) : ECOS_NAN;
-    info->dinfres = w->cx/MAX(w->nx,1) < -w->stgs->reltol ? MAX(w->hresy/MAX(w->nx,1), w->hresz/MAX(w->nx+w->ns,1)) : ECOS_NAN;
+    info->pinfres = (w->hz + w->by) < -w->stgs->reltol*(w->ny+w->nz) ? w->hresx / (w->ny+w->nz) : ECOS_NAN;
+    info->dinfres = w->cx < -w->stgs->reltol*w->nx ? MAX(w->hresy/w->nx, w->hresz/(w->nx+w->ns)) : ECOS_NAN;
 
 
 
-- 
2.43.0


From d3e44bbfeca6b48ca33ff9f2829afd4fd0cba31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:26 +0000
Subject: [PATCH 03/28] fix: keep the first iterate as the best one before any
 exit can ask for it

With an iteration limit of 0, an interrupt in iteration 0 or NANs in iteration 0 the
solver compared with, and restored, best_* fields that were never written in this solve:
heap garbage, or the answer of the previous solve with other data.
---
 src/ecos.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/ecos.c b/src/ecos.c
index 81f1cfb..65263b6 100644
--- a/src/ecos.c
+++ b/src/ecos.c
@@ -1165,6 +1165,8 @@ idxint ECOS_solve(pwork* w)
         }
         pres_prev = w->info->pres;
 
+        /* The first iterate is the best one seen so far (every exit below may have to recover it) */
+        if( w->info->iter == 0 ) saveIterateAsBest( w );
 
 		/* Check termination criteria to full precision and exit if necessary */
 		exitcode = checkExitConditions( w, 0 );
@@ -1276,10 +1278,7 @@ idxint ECOS_solve(pwork* w)
          * Check whether current iterate is worth keeping as the best solution so far,
          * before doing another iteration
          */
-        if (w->info->iter == 0) {
-            /* we're at the first iterate, so there's nothing to compare yet */
-            saveIterateAsBest( w );
-        } else if( compareStatistics( w->info, w->best_info) ){
+        if( compareStatistics( w->info, w->best_info) ){
             /* PRINTTEXT("Better solution found, saving as best so far \n"); */
             saveIterateAsBest( w );
         }
-- 
2.43.0


From 5db9f055a264fa4788c03bb723ed287418b60d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:26 +0000
Subject: [PATCH 04/28] fix: ECOS_updateData without equality constraints, and
 with adjacent arrays

w->A is NULL when there are no equality constraints; and arrays that touch but do not
overlap (NULL b with p = 0 included) are different locations.
---
 src/ecos.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/ecos.c b/src/ecos.c
index 65263b6..4c682c1 100644
--- a/src/ecos.c
+++ b/src/ecos.c
@@ -1649,16 +1649,18 @@ void ECOS_updateData(pwork *w, pfloat *Gpr, pfloat *Apr,
 {
 
     idxint k;
+    idxint nnzA = w->A ? w->A->nnz : 0;
+    pfloat *oldApr = w->A ? w->A->pr : NULL;
 
 #if defined EQUILIBRATE && EQUILIBRATE > 0
     /* Only unequilibrate the old data if the new data is in a different location in memory. */
     /* This is required for backward compatibility since existing code might need this step. */
     if (
-        ((Gpr + w->G->nnz < w->G->pr) || (w->G->pr + w->G->nnz < Gpr)) &&
-        ((Apr + w->A->nnz < w->A->pr) || (w->A->pr + w->A->nnz < Apr)) &&
-        ((c + w->n < w->c) || (w->c + w->n < c)) &&
-        ((h + w->m < w->h) || (w->h + w->m < h)) &&
-        ((b + w->p < w->b) || (w->b + w->p < b))
+        ((Gpr + w->G->nnz <= w->G->pr) || (w->G->pr + w->G->nnz <= Gpr)) &&
+        ((Apr + nnzA <= oldApr) || (oldApr + nnzA <= Apr)) &&
+        ((c + w->n <= w->c) || (w->c + w->n <= c)) &&
+        ((h + w->m <= w->h) || (w->h + w->m <= h)) &&
+        ((b + w->p <= w->b) || (w->b + w->p <= b))
     ){
     unset_equilibration(w);
     }
-- 
2.43.0


From 43f9641e6d46d3a1cc6b39c299952de867bd3456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:10 +0000
Subject: [PATCH 05/28] fix: do not leak the workspace when ECOS_setup refuses
 the cone dimensions

---
 src/preproc.c | 40 +++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/src/preproc.c b/src/preproc.c
index b0e57aa..c51fb70 100644
--- a/src/preproc.c
+++ b/src/preproc.c
@@ -612,6 +612,27 @@ pwork* ECOS_setup(idxint n, idxint m, idxint p, idxint l, idxint ncones, idxint*
 #endif
     PRINTTEXT("\n");
 
+#endif
+
+    /* The number of conic variables has to equal l+sum(q)+3*nexp else terminate*/
+    cidx = 0;
+    for( i=0; i<ncones; i++ ){ cidx += q[i]; }
+#ifdef EXPCONE
+    if(cidx+l+3*nexc!=m)
+    {
+#if PRINTLEVEL > 2
+        PRINTTEXT("Number of conic variables does not match l+sum(q)+3*nexc\n");
+#endif
+        return NULL;
+    }
+#else
+    if(cidx+l!=m)
+    {
+#if PRINTLEVEL > 2
+        PRINTTEXT("Number of conic variables does not match l+sum(q)\n");
+#endif
+        return NULL;
+    }
 #endif
 
 	/* get work data structure */
@@ -715,25 +736,6 @@ pwork* ECOS_setup(idxint n, idxint m, idxint p, idxint l, idxint ncones, idxint*
 #endif
 #endif
 
-    /* The number of conic variables has to equal l+sum(q)+3*nexp else terminate*/
-#ifdef EXPCONE
-    if(cidx+l+3*nexc!=m)
-    {
-#if PRINTLEVEL > 2
-        PRINTTEXT("Number of conic variables does not match l+sum(q)+3*nexc\n");
-#endif
-        return NULL;
-    }
-#else
-    if(cidx+l!=m)
-    {
-#if PRINTLEVEL > 2
-        PRINTTEXT("Number of conic variables does not match l+sum(q)\n");
-#endif
-        return NULL;
-    }
-#endif
-
 	/* info struct */
     mywork->info = (stats *)MALLOC(sizeof(stats));
 #if PROFILING > 1
-- 
2.43.0


From bba9966d0b0a8a7a27e5776516ee4e487e06299c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 06/28] fix: every exit of ECOS_solve restores the SIGINT
 handler and the scaling

Leaving the cone or failing to factor returned early: the interrupt handler stayed
installed, c stayed equilibrated (so the next solve used a wrong objective and cleanup
gave a scaled c back), and x, y, z, s were left in the scaled space.
---
 src/ecos.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/ecos.c b/src/ecos.c
index 4c682c1..410ce19 100644
--- a/src/ecos.c
+++ b/src/ecos.c
@@ -1114,6 +1114,13 @@ idxint ECOS_solve(pwork* w)
 	if( initcode == ECOS_FATAL ){
 #if PRINTLEVEL > 0
         if( w->stgs->verbose ) PRINTTEXT("\nFatal error during initialization, aborting.");
+#endif
+#if defined EQUILIBRATE && EQUILIBRATE > 0
+        /* give the objective back unscaled */
+        for(i = 0; i <w->n; i++) { w->c[i] *= w->xequil[i]; }
+#endif
+#if CTRLC > 0
+        remove_ctrlc();
 #endif
         return ECOS_FATAL;
     }
@@ -1303,11 +1310,9 @@ idxint ECOS_solve(pwork* w)
 #if PRINTLEVEL > 0
                 if( w->stgs->verbose ) PRINTTEXT("\nNUMERICAL PROBLEMS (reached feastol=%3.1e, reltol=%3.1e, abstol=%3.1e).", MAX(w->info->dres, w->info->pres), w->info->relgap, w->info->gap);
 #endif
-                return ECOS_OUTCONE;
-
-            } else {
-                break;
+                exitcode = ECOS_OUTCONE;
             }
+            break;
         }
 
 		/* Update KKT matrix with scalings */
@@ -1338,7 +1343,8 @@ idxint ECOS_solve(pwork* w)
 #if PRINTLEVEL > 0
 	    if( w->stgs->verbose ) PRINTTEXT("\nProblem in factoring KKT system, aborting.");
 #endif
-	        return ECOS_FATAL;
+	        exitcode = ECOS_FATAL;
+	        break;
 	    }
 
 		/* Solve for RHS1, which is used later also in combined direction */
-- 
2.43.0


From 60c4770600bbab3327d7774397677559c0c2f914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:42 +0000
Subject: [PATCH 07/28] fix: release everything and unscale the data when the
 fill-reducing ordering rejects the matrix

---
 src/preproc.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/preproc.c b/src/preproc.c
index c51fb70..62913c9 100644
--- a/src/preproc.c
+++ b/src/preproc.c
@@ -940,6 +940,23 @@ pwork* ECOS_setup(idxint n, idxint m, idxint p, idxint l, idxint ncones, idxint*
 		PRINTTEXT("Problem in AMD ordering, exiting.\n");
         AMD_info(Info);
 #endif
+        /* give the caller's data back unscaled and free everything allocated so far */
+        mywork->KKT->P = P;
+        mywork->KKT->L = ecoscreateSparseMatrix(nK, nK, 0, NULL, NULL, NULL);
+        mywork->rx = NULL;
+        mywork->ry = NULL;
+        mywork->rz = NULL;
+        FREE(Sign);
+        if(At) {
+            freeSparseMatrix(At);
+            FREE(AtoAt);
+            FREE(AttoK);
+        }
+        freeSparseMatrix(Gt);
+        freeSparseMatrix(KU);
+        FREE(GtoGt);
+        FREE(GttoK);
+        ECOS_cleanup(mywork, 0);
         return NULL;
 	}
 
-- 
2.43.0


From d2027792f32886afe881c2b87ff638ab98ebea62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:50 +0000
Subject: [PATCH 08/28] fix: reliability branching uses the solution of the
 node, not of the last trial

---
 ecos_bb/ecos_bb.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ecos_bb/ecos_bb.c b/ecos_bb/ecos_bb.c
index 1a76213..47a94c4 100644
--- a/ecos_bb/ecos_bb.c
+++ b/ecos_bb/ecos_bb.c
@@ -752,7 +752,13 @@ static void get_branch_var_reliability_branching(ecos_bb_pwork *problem, idxint
 
     idxint ecos_result;
     pfloat q;
-    pfloat *x_values = NULL;
+
+    /* the solution of the node's relaxation, strong branching overwrites ecos_prob->x */
+    pfloat *x_values = MALLOC(sizeof(pfloat) * problem->ecos_prob->n);
+    memcpy(x_values, problem->ecos_prob->x, sizeof(pfloat) * problem->ecos_prob->n);
+
+    /* set split idx to something impossible */
+    *split_idx = -1;
 
     idxint *random_idx = get_shuffled_array(problem->num_bool_vars + problem->num_int_vars);
     idxint rand_i;
@@ -769,7 +775,7 @@ static void get_branch_var_reliability_branching(ecos_bb_pwork *problem, idxint
             var_idx = problem->int_vars_idx[(i - problem->num_bool_vars)];
         }
 
-        const pfloat y = problem->ecos_prob->x[var_idx];
+        const pfloat y = x_values[var_idx];
         if (float_eqls(y, pfloat_floor(y, problem->stgs->integer_tol), problem->stgs->integer_tol) ||
             float_eqls(y, pfloat_ceil(y, problem->stgs->integer_tol), problem->stgs->integer_tol))
         {
@@ -793,8 +799,6 @@ static void get_branch_var_reliability_branching(ecos_bb_pwork *problem, idxint
                 strong_initialized = 1;
 
                 calc_tmp_branching_problem(problem, &q, &ecos_result);
-                x_values = MALLOC(sizeof(pfloat) * problem->ecos_prob->n);
-                memcpy(x_values, problem->ecos_prob->x, sizeof(pfloat) * problem->ecos_prob->n);
             }
 
             var_idx = i;
-- 
2.43.0


From 99b9bcf97f5d75a704788034a324803de9f935cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 09/28] fix: branch and bound reports unbounded problems as
 unbounded, not infeasible

---
 ecos_bb/ecos_bb.c | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/ecos_bb/ecos_bb.c b/ecos_bb/ecos_bb.c
index 47a94c4..83213aa 100644
--- a/ecos_bb/ecos_bb.c
+++ b/ecos_bb/ecos_bb.c
@@ -1059,6 +1059,11 @@ static void get_bounds(idxint node_idx, ecos_bb_pwork *prob)
             prob->nodes[node_idx].status = MI_SOLVED_NON_BRANCHABLE;
         }
     }
+    else if (node_idx == 0 && (ret_code == ECOS_DINF || ret_code == ECOS_DINF + ECOS_INACC_OFFSET))
+    { /* The relaxation is unbounded */
+        prob->nodes[node_idx].U = -ECOS_INFINITY;
+        prob->nodes[node_idx].status = MI_SOLVED_NON_BRANCHABLE;
+    }
     else
     { /*Assume node infeasible*/
         prob->nodes[node_idx].L = ECOS_INFINITY;
@@ -1126,6 +1131,34 @@ static void initialize_root(ecos_bb_pwork *prob)
     }
 }
 
+/*
+ * Called when the relaxation is unbounded. The integer variables are bounded, so
+ * the problem is unbounded if and only if it has an integer feasible point, which
+ * is looked for with a zero objective.
+ */
+static idxint solve_unbounded(ecos_bb_pwork *prob)
+{
+    idxint i, ret_code;
+    pfloat *c = MALLOC(sizeof(pfloat) * prob->ecos_prob->n);
+    for (i = 0; i < prob->ecos_prob->n; ++i)
+    {
+        c[i] = prob->ecos_prob->c[i];
+        prob->ecos_prob->c[i] = 0.0;
+    }
+    ret_code = ECOS_BB_solve(prob);
+    for (i = 0; i < prob->ecos_prob->n; ++i)
+        prob->ecos_prob->c[i] = c[i];
+    free(c);
+
+    if (ret_code == MI_OPTIMAL_SOLN || ret_code == MI_MAXITER_FEASIBLE_SOLN)
+    {
+        prob->global_L = -ECOS_INFINITY;
+        prob->global_U = -ECOS_INFINITY;
+        return MI_UNBOUNDED;
+    }
+    return ret_code;
+}
+
 idxint ECOS_BB_solve(ecos_bb_pwork *prob)
 {
     idxint curr_node_idx = 0;
@@ -1146,6 +1179,9 @@ idxint ECOS_BB_solve(ecos_bb_pwork *prob)
     /*print_node(prob, curr_node_idx);*/
     get_bounds(curr_node_idx, prob);
 
+    if (prob->nodes[curr_node_idx].U == -ECOS_INFINITY)
+        return solve_unbounded(prob);
+
     prob->global_L = prob->nodes[curr_node_idx].L;
     prob->global_U = prob->nodes[curr_node_idx].U;
 
-- 
2.43.0


From 1abf578324f52d263f9385017396c7e1e6e3d66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:35 +0000
Subject: [PATCH 10/28] fix: branch and bound does not take unsolved
 relaxations for bounds, solutions or infeasibility proofs

---
 ecos_bb/ecos_bb.c | 88 +++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 73 insertions(+), 15 deletions(-)

diff --git a/ecos_bb/ecos_bb.c b/ecos_bb/ecos_bb.c
index 83213aa..ba48c8b 100644
--- a/ecos_bb/ecos_bb.c
+++ b/ecos_bb/ecos_bb.c
@@ -408,7 +408,7 @@ static int check_infeasible_bool_var(ecos_bb_pwork *problem, const idxint ecos_r
                                      const char other_val, const idxint var_idx, idxint *split_idx, pfloat *split_val,
                                      const pfloat current_value)
 {
-    if (is_infeasible(ecos_result) || relaxation > problem->global_U)
+    if (is_infeasible(ecos_result) || (ecos_result == ECOS_OPTIMAL && relaxation > problem->global_U))
     {
         //fix value to MI_ONE, no branching needed
         get_bool_node_id(node_idx, problem)[var_idx] = other_val;
@@ -434,7 +434,7 @@ static int check_infeasible_int_var(ecos_bb_pwork *problem, const idxint ecos_re
                                     const int fix_lb, const idxint var_idx, idxint *split_idx, pfloat *split_val,
                                     const pfloat current_value)
 {
-    if (is_infeasible(ecos_result) || relaxation > problem->global_U)
+    if (is_infeasible(ecos_result) || (ecos_result == ECOS_OPTIMAL && relaxation > problem->global_U))
     {
         // fix lower bound
         const pfloat fix_val = fix_lb
@@ -852,6 +852,39 @@ static void get_branch_var_reliability_branching(ecos_bb_pwork *problem, idxint
 #endif
 }
 
+/*
+ * Function to return the next var to split on when the relaxation could not be
+ * solved: the first one the node does not fix, split next to its current value.
+ * Returns 0 if the node fixes all of them.
+ */
+static idxint get_branch_var_unfixed(ecos_bb_pwork *prob, idxint *split_idx, pfloat *split_val, const idxint node_idx)
+{
+    idxint i;
+    for (i = 0; i < prob->num_bool_vars; ++i)
+    {
+        if (get_bool_node_id(node_idx, prob)[i] == MI_STAR)
+        {
+            *split_idx = i;
+            *split_val = 0.5;
+            return 1;
+        }
+    }
+    for (i = 0; i < prob->num_int_vars; ++i)
+    {
+        const pfloat lb = -get_int_node_id(node_idx, prob)[2 * i];
+        const pfloat ub = get_int_node_id(node_idx, prob)[2 * i + 1];
+        if (lb < ub)
+        {
+            pfloat y = prob->ecos_prob->x[prob->int_vars_idx[i]];
+            y = y < lb ? lb : (y > ub - 1.0 ? ub - 1.0 : y);
+            *split_idx = i + prob->num_bool_vars;
+            *split_val = pfloat_floor(y, prob->stgs->integer_tol) + 0.5;
+            return 1;
+        }
+    }
+    return 0;
+}
+
 /*
  * Stores the ecos solution to the array inside ecos_bb
  */
@@ -892,7 +925,7 @@ static void load_solution(ecos_bb_pwork *prob)
 
 static void get_bounds(idxint node_idx, ecos_bb_pwork *prob)
 {
-    idxint i, ret_code, branchable, viable_rounded_sol;
+    idxint i, ret_code, branchable, viable_rounded_sol, solved;
     viable_rounded_sol = 0;
 
     set_prob(prob, get_bool_node_id(node_idx, prob), get_int_node_id(node_idx, prob));
@@ -914,7 +947,13 @@ static void get_bounds(idxint node_idx, ecos_bb_pwork *prob)
         ret_code == ECOS_MAXIT ||
         ret_code == ECOS_NUMERICS)
     {
-        prob->nodes[node_idx].L = eddot(prob->ecos_prob->n, prob->ecos_prob->x, prob->ecos_prob->c);
+        /* Without an accurate solution of the relaxation the bound of the parent stays in force;
+           reduced accuracy will do where the node leaves nothing to branch on */
+        solved = ret_code == ECOS_OPTIMAL ||
+                 (ret_code == ECOS_OPTIMAL + ECOS_INACC_OFFSET &&
+                  !get_branch_var_unfixed(prob, &(prob->nodes[node_idx].split_idx), &(prob->nodes[node_idx].split_val), node_idx));
+        if (solved)
+            prob->nodes[node_idx].L = eddot(prob->ecos_prob->n, prob->ecos_prob->x, prob->ecos_prob->c);
 
         // if global best known solution is better than our lower
         if (prob->global_U < prob->nodes[node_idx].L)
@@ -926,7 +965,7 @@ static void get_bounds(idxint node_idx, ecos_bb_pwork *prob)
         prob->nodes[node_idx].relaxation = eddot(prob->ecos_prob->n, prob->ecos_prob->x, prob->ecos_prob->c);
 
         // update pseudocost_values
-        if (prob->nodes[node_idx].prev_split_idx >= 0)
+        if (solved && prob->nodes[node_idx].prev_split_idx >= 0)
         {
             idxint split_idx = prob->nodes[node_idx].prev_split_idx;
             const idxint offset = prob->nodes[node_idx].up_branch_node ? 1 : 0;
@@ -976,7 +1015,12 @@ static void get_bounds(idxint node_idx, ecos_bb_pwork *prob)
         }
 #endif
 
-        if (branchable)
+        if (!solved)
+        {
+            branchable = get_branch_var_unfixed(prob, &(prob->nodes[node_idx].split_idx), &(prob->nodes[node_idx].split_val), node_idx);
+            prob->nodes[node_idx].status = branchable ? MI_SOLVED_BRANCHABLE : MI_SOLVED_NON_BRANCHABLE;
+        }
+        else if (branchable)
         { /* pfloat_round and check feasibility*/
             switch (prob->stgs->branching_strategy)
             {
@@ -1006,6 +1050,15 @@ static void get_bounds(idxint node_idx, ecos_bb_pwork *prob)
                 PRINTTEXT("Rounded Solution:\n");
             }
 #endif
+        }
+        else
+        { /* This is already an integer solution*/
+            prob->nodes[node_idx].status = MI_SOLVED_NON_BRANCHABLE;
+            prob->nodes[node_idx].U = eddot(prob->ecos_prob->n, prob->ecos_prob->x, prob->ecos_prob->c);
+        }
+
+        if (branchable || !solved)
+        {
             set_prob(prob, prob->tmp_bool_node_id, prob->tmp_int_node_id);
             ret_code = ECOS_solve(prob->ecos_prob);
 
@@ -1026,11 +1079,6 @@ static void get_bounds(idxint node_idx, ecos_bb_pwork *prob)
                 viable_rounded_sol = 1;
             }
         }
-        else
-        { /* This is already an integer solution*/
-            prob->nodes[node_idx].status = MI_SOLVED_NON_BRANCHABLE;
-            prob->nodes[node_idx].U = eddot(prob->ecos_prob->n, prob->ecos_prob->x, prob->ecos_prob->c);
-        }
 
         if (prob->nodes[node_idx].U < prob->global_U)
         {
@@ -1064,22 +1112,32 @@ static void get_bounds(idxint node_idx, ecos_bb_pwork *prob)
         prob->nodes[node_idx].U = -ECOS_INFINITY;
         prob->nodes[node_idx].status = MI_SOLVED_NON_BRANCHABLE;
     }
-    else
-    { /*Assume node infeasible*/
+    else if (is_infeasible(ret_code))
+    {
         prob->nodes[node_idx].L = ECOS_INFINITY;
         prob->nodes[node_idx].U = ECOS_INFINITY;
         prob->nodes[node_idx].status = MI_SOLVED_NON_BRANCHABLE;
     }
+    else
+    { /* Nothing is known about this node: the bound of the parent stays in force */
+        prob->nodes[node_idx].status = MI_SOLVED_NON_BRANCHABLE;
+    }
+}
+
+static idxint gap_closed(ecos_bb_pwork *prob)
+{
+    return (prob->global_U - prob->global_L) <= prob->stgs->abs_tol_gap || abs_2(prob->global_U / prob->global_L - 1.0) <= prob->stgs->rel_tol_gap;
 }
 
 static idxint should_continue(ecos_bb_pwork *prob, idxint curr_node_idx)
 {
-    return (prob->global_U - prob->global_L) > prob->stgs->abs_tol_gap && abs_2(prob->global_U / prob->global_L - 1.0) > prob->stgs->rel_tol_gap && curr_node_idx >= 0 && prob->iter < (prob->stgs->maxit - 1);
+    return !gap_closed(prob) && curr_node_idx >= 0 && prob->iter < (prob->stgs->maxit - 1);
 }
 
 static int get_ret_code(ecos_bb_pwork *prob)
 {
-    if (prob->iter < prob->stgs->maxit - 1)
+    /* proven: no open node can improve on global_U, or all nodes are infeasible */
+    if (gap_closed(prob) || prob->global_L == ECOS_INFINITY)
     {
         if (isinf(prob->global_U))
         {
-- 
2.43.0


From f76631475c8efe553cce61869a33f269b7a231fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:27 +0000
Subject: [PATCH 11/28] fix: updateDataEntry_h skips the bound rows of the
 integer variables too

---
 ecos_bb/ecos_bb.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecos_bb/ecos_bb.c b/ecos_bb/ecos_bb.c
index ba48c8b..59fcd93 100644
--- a/ecos_bb/ecos_bb.c
+++ b/ecos_bb/ecos_bb.c
@@ -1282,7 +1282,7 @@ idxint ECOS_BB_solve(ecos_bb_pwork *prob)
 
 void updateDataEntry_h(ecos_bb_pwork *w, idxint idx, pfloat value)
 {
-    ecos_updateDataEntry_h(w->ecos_prob, idx + (2 * w->num_bool_vars), value);
+    ecos_updateDataEntry_h(w->ecos_prob, idx + 2 * (w->num_bool_vars + w->num_int_vars), value);
 }
 
 void updateDataEntry_c(ecos_bb_pwork *w, idxint idx, pfloat value)
-- 
2.43.0


From 9326e67704c6cf9828c65f29271d04a9d17c45d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:27 +0000
Subject: [PATCH 12/28] fix: bound rows of boolean and integer variables follow
 the order of the index lists

---
 ecos_bb/ecos_bb_preproc.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/ecos_bb/ecos_bb_preproc.c b/ecos_bb/ecos_bb_preproc.c
index f052e6f..e1c447e 100644
--- a/ecos_bb/ecos_bb_preproc.c
+++ b/ecos_bb/ecos_bb_preproc.c
@@ -54,6 +54,14 @@ static int contains(idxint idx, idxint num_int, idxint *bool_vars_idx)
     return (int)ans;
 }
 
+static idxint position(idxint idx, idxint num_vars, idxint *vars_idx)
+{
+    idxint i;
+    for (i = 0; i < num_vars && vars_idx[i] != idx; ++i)
+        ;
+    return i;
+}
+
 /* Augments the G and b arrays to take lb and ub constraints
  * for all of the variables marked integer
  * USES MALLOC
@@ -74,11 +82,12 @@ static void socp_to_ecos_bb(
         Gjc_out[i] = Gjc_in[i];
     }
 
-    j = 0;
+    /* The bound rows are those of bool_vars_idx, then those of int_vars_idx, in the order of the lists */
     for (i = 0; i < n; ++i)
     {
         if (contains(i, num_bool_vars, bool_vars_idx))
         {
+            j = position(i, num_bool_vars, bool_vars_idx);
             Gpr_out[Gjc_out[i]] = -1;
             Gpr_out[Gjc_out[i] + 1] = 1;
 
@@ -103,11 +112,10 @@ static void socp_to_ecos_bb(
                 Gpr_out[Gjc_out[i] + 2 + k] = Gpr_in[Gjc_in[i] + k];
                 Gir_out[Gjc_out[i] + 2 + k] = Gir_in[Gjc_in[i] + k] + 2 * num_bool_vars + 2 * num_int_vars;
             }
-
-            ++j;
         }
         else if (contains(i, num_int_vars, int_vars_idx))
         {
+            j = num_bool_vars + position(i, num_int_vars, int_vars_idx);
             Gpr_out[Gjc_out[i]] = -1;
             Gpr_out[Gjc_out[i] + 1] = 1;
 
@@ -132,8 +140,6 @@ static void socp_to_ecos_bb(
                 Gpr_out[Gjc_out[i] + 2 + k] = Gpr_in[Gjc_in[i] + k];
                 Gir_out[Gjc_out[i] + 2 + k] = Gir_in[Gjc_in[i] + k] + 2 * num_bool_vars + 2 * num_int_vars;
             }
-
-            ++j;
         }
         else
         {
-- 
2.43.0


From a3b2774af9748277a57eb72354d03f65ed3ceab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:27 +0000
Subject: [PATCH 13/28] fix: ECOS_BB_setup returns NULL, and leaks nothing,
 when ECOS_setup refuses the problem

---
 ecos_bb/ecos_bb_preproc.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ecos_bb/ecos_bb_preproc.c b/ecos_bb/ecos_bb_preproc.c
index e1c447e..3d7f341 100644
--- a/ecos_bb/ecos_bb_preproc.c
+++ b/ecos_bb/ecos_bb_preproc.c
@@ -287,6 +287,11 @@ ecos_bb_pwork *ECOS_BB_setup(
         prob->Gpr_new, prob->Gjc_new, prob->Gir_new,
         Apr, Ajc, Air,
         c, prob->h_new, b);
+    if (prob->ecos_prob == NULL)
+    {
+        ECOS_BB_cleanup(prob, 0);
+        return NULL;
+    }
 
     /* Store the number of integer variables in the problem*/
     prob->num_bool_vars = num_bool_vars;
@@ -333,7 +338,8 @@ ecos_bb_pwork *ECOS_BB_setup(
 void ECOS_BB_cleanup(ecos_bb_pwork *prob, idxint num_vars_keep)
 {
     /* FREE solver memory*/
-    ECOS_cleanup(prob->ecos_prob, num_vars_keep);
+    if (prob->ecos_prob != NULL)
+        ECOS_cleanup(prob->ecos_prob, num_vars_keep);
     FREE(prob->tmp_bool_node_id);
     FREE(prob->tmp_int_node_id);
     FREE(prob->tmp_branching_bool_node_id);
-- 
2.43.0


From abb2608b4737f7a50acbafaabe36b7b5de178616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:27 +0000
Subject: [PATCH 14/28] fix: keep the solution found by rounding the root
 relaxation

---
 ecos_bb/ecos_bb.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/ecos_bb/ecos_bb.c b/ecos_bb/ecos_bb.c
index 59fcd93..77ffa7d 100644
--- a/ecos_bb/ecos_bb.c
+++ b/ecos_bb/ecos_bb.c
@@ -1241,7 +1241,6 @@ idxint ECOS_BB_solve(ecos_bb_pwork *prob)
         return solve_unbounded(prob);
 
     prob->global_L = prob->nodes[curr_node_idx].L;
-    prob->global_U = prob->nodes[curr_node_idx].U;
 
     while (should_continue(prob, curr_node_idx))
     {
-- 
2.43.0


From 250a0fe9191768dce53bab65f04f95d964b42ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:27 +0000
Subject: [PATCH 15/28] fix: no uninitialised or outdated solution when branch
 and bound finds none

---
 ecos_bb/ecos_bb.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ecos_bb/ecos_bb.c b/ecos_bb/ecos_bb.c
index 77ffa7d..e22b845 100644
--- a/ecos_bb/ecos_bb.c
+++ b/ecos_bb/ecos_bb.c
@@ -1268,6 +1268,8 @@ idxint ECOS_BB_solve(ecos_bb_pwork *prob)
 
         curr_node_idx = get_next_node(prob);
     }
+    if (isinf(prob->global_U)) /* no solution: leave the last relaxation, not uninitialised memory */
+        store_solution(prob);
     load_solution(prob);
 
 #if MI_PRINTLEVEL > 0
-- 
2.43.0


From 25f2921f96b215ff8029957474362508781131a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:57 +0000
Subject: [PATCH 16/28] fix: ctrl-c ends the branch and bound search instead of
 making nodes infeasible

---
 ecos_bb/ecos_bb.c | 27 ++++++++++++++++++++++-----
 include/ecos_bb.h |  4 ++++
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/ecos_bb/ecos_bb.c b/ecos_bb/ecos_bb.c
index e22b845..d1e4dff 100644
--- a/ecos_bb/ecos_bb.c
+++ b/ecos_bb/ecos_bb.c
@@ -326,6 +326,20 @@ static void set_prob(ecos_bb_pwork *prob, char *bool_node_id, pfloat *int_node_i
 #endif
 }
 
+/*
+ * Solves the relaxation set by set_prob. Once interrupted nothing is solved any more
+ */
+static idxint solve_relaxation(ecos_bb_pwork *prob)
+{
+    idxint ret_code;
+    if (prob->interrupted)
+        return ECOS_SIGINT;
+    ret_code = ECOS_solve(prob->ecos_prob);
+    if (check_ctrlc())
+        prob->interrupted = 1;
+    return ret_code;
+}
+
 static char is_infeasible(idxint ecos_result)
 {
     if (ecos_result == ECOS_DINF ||
@@ -397,7 +411,7 @@ static void initialize_strong_branching(ecos_bb_pwork *problem, idxint node_idx)
 static void calc_tmp_branching_problem(ecos_bb_pwork *problem, pfloat *relaxation, idxint *ecos_result)
 {
     set_prob(problem, problem->tmp_branching_bool_node_id, problem->tmp_branching_int_node_id);
-    *ecos_result = ECOS_solve(problem->ecos_prob);
+    *ecos_result = solve_relaxation(problem);
     *relaxation = eddot(problem->ecos_prob->n, problem->ecos_prob->x, problem->ecos_prob->c);
 }
 
@@ -929,7 +943,7 @@ static void get_bounds(idxint node_idx, ecos_bb_pwork *prob)
     viable_rounded_sol = 0;
 
     set_prob(prob, get_bool_node_id(node_idx, prob), get_int_node_id(node_idx, prob));
-    ret_code = ECOS_solve(prob->ecos_prob);
+    ret_code = solve_relaxation(prob);
 
 #if MI_PRINTLEVEL > 1
     if (prob->stgs->verbose)
@@ -1060,7 +1074,7 @@ static void get_bounds(idxint node_idx, ecos_bb_pwork *prob)
         if (branchable || !solved)
         {
             set_prob(prob, prob->tmp_bool_node_id, prob->tmp_int_node_id);
-            ret_code = ECOS_solve(prob->ecos_prob);
+            ret_code = solve_relaxation(prob);
 
 #if MI_PRINTLEVEL > 1
             if (prob->stgs->verbose)
@@ -1107,7 +1121,7 @@ static void get_bounds(idxint node_idx, ecos_bb_pwork *prob)
             prob->nodes[node_idx].status = MI_SOLVED_NON_BRANCHABLE;
         }
     }
-    else if (node_idx == 0 && (ret_code == ECOS_DINF || ret_code == ECOS_DINF + ECOS_INACC_OFFSET))
+    else if (node_idx == 0 && !prob->interrupted && (ret_code == ECOS_DINF || ret_code == ECOS_DINF + ECOS_INACC_OFFSET))
     { /* The relaxation is unbounded */
         prob->nodes[node_idx].U = -ECOS_INFINITY;
         prob->nodes[node_idx].status = MI_SOLVED_NON_BRANCHABLE;
@@ -1131,7 +1145,7 @@ static idxint gap_closed(ecos_bb_pwork *prob)
 
 static idxint should_continue(ecos_bb_pwork *prob, idxint curr_node_idx)
 {
-    return !gap_closed(prob) && curr_node_idx >= 0 && prob->iter < (prob->stgs->maxit - 1);
+    return !prob->interrupted && !gap_closed(prob) && curr_node_idx >= 0 && prob->iter < (prob->stgs->maxit - 1);
 }
 
 static int get_ret_code(ecos_bb_pwork *prob)
@@ -1153,6 +1167,8 @@ static int get_ret_code(ecos_bb_pwork *prob)
         else
             return MI_OPTIMAL_SOLN;
     }
+    else if (prob->interrupted)
+        return MI_SIGINT;
     else
     {
         if (isinf(prob->global_U))
@@ -1178,6 +1194,7 @@ static void initialize_root(ecos_bb_pwork *prob)
     prob->nodes[0].L = -ECOS_INFINITY;
     prob->nodes[0].U = ECOS_INFINITY;
     prob->nodes[0].prev_split_idx = -1;
+    prob->interrupted = 0;
     prob->global_L = -ECOS_INFINITY;
     prob->global_U = ECOS_INFINITY;
     for (i = 0; i < prob->num_bool_vars; ++i)
diff --git a/include/ecos_bb.h b/include/ecos_bb.h
index b1fa622..3ad1ff7 100644
--- a/include/ecos_bb.h
+++ b/include/ecos_bb.h
@@ -64,6 +64,8 @@
 #define MI_MAXITER_NO_SOLN (ECOS_PINF + ECOS_INACC_OFFSET)
 /*ECOS_BB hit maximum iterations without finding a feasible solution that was unbounded*/
 #define MI_MAXITER_UNBOUNDED (ECOS_DINF + ECOS_INACC_OFFSET)
+/*ECOS_BB was interrupted (ctrl-c); the best solution seen so far, if any, is returned*/
+#define MI_SIGINT (ECOS_SIGINT)
 
 /* Max integer and all smaller integer representable by single precision */
 #define MAX_FLOAT_INT (8388608)
@@ -179,6 +181,8 @@ extern "C"
 		settings_bb *stgs;
 		idxint default_settings;
 
+		idxint interrupted; /* ctrl-c during one of the relaxations */
+
 	} ecos_bb_pwork;
 
 	ecos_bb_pwork *ECOS_BB_setup(
-- 
2.43.0


From 8bf73d01d86a3fea527ecc1a199dc499549c2738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:03 +0000
Subject: [PATCH 17/28] fix: the node limit never exceeds the memory allocated
 for nodes, and 0 is a limit

---
 ecos_bb/ecos_bb.c         | 2 +-
 ecos_bb/ecos_bb_preproc.c | 7 ++++---
 include/ecos_bb.h         | 1 +
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/ecos_bb/ecos_bb.c b/ecos_bb/ecos_bb.c
index d1e4dff..cd2f28b 100644
--- a/ecos_bb/ecos_bb.c
+++ b/ecos_bb/ecos_bb.c
@@ -1145,7 +1145,7 @@ static idxint gap_closed(ecos_bb_pwork *prob)
 
 static idxint should_continue(ecos_bb_pwork *prob, idxint curr_node_idx)
 {
-    return !prob->interrupted && !gap_closed(prob) && curr_node_idx >= 0 && prob->iter < (prob->stgs->maxit - 1);
+    return !prob->interrupted && !gap_closed(prob) && curr_node_idx >= 0 && prob->iter < (MIN(prob->stgs->maxit, prob->max_nodes) - 1);
 }
 
 static int get_ret_code(ecos_bb_pwork *prob)
diff --git a/ecos_bb/ecos_bb_preproc.c b/ecos_bb/ecos_bb_preproc.c
index 3d7f341..4ae5491 100644
--- a/ecos_bb/ecos_bb_preproc.c
+++ b/ecos_bb/ecos_bb_preproc.c
@@ -250,11 +250,12 @@ ecos_bb_pwork *ECOS_BB_setup(
     l += 2 * (num_bool_vars + num_int_vars);
 
     /* MALLOC the initial node's book keeping data #(2*maxIter)*/
-    prob->nodes = (node *)CALLOC(prob->stgs->maxit, sizeof(node));
+    prob->max_nodes = prob->stgs->maxit > 1 ? prob->stgs->maxit : 1; /* the root is always there */
+    prob->nodes = (node *)CALLOC(prob->max_nodes, sizeof(node));
 
     /* MALLOC the id arrays*/
-    prob->bool_node_ids = (char *)MALLOC(prob->stgs->maxit * num_bool_vars * sizeof(char));
-    prob->int_node_ids = (pfloat *)MALLOC(2 * prob->stgs->maxit * num_int_vars * sizeof(pfloat));
+    prob->bool_node_ids = (char *)MALLOC(prob->max_nodes * num_bool_vars * sizeof(char));
+    prob->int_node_ids = (pfloat *)MALLOC(2 * prob->max_nodes * num_int_vars * sizeof(pfloat));
 
     /* MALLOC the tmp node id*/
     prob->tmp_bool_node_id = (char *)MALLOC(num_bool_vars * sizeof(char));
diff --git a/include/ecos_bb.h b/include/ecos_bb.h
index 3ad1ff7..9fb6f99 100644
--- a/include/ecos_bb.h
+++ b/include/ecos_bb.h
@@ -181,6 +181,7 @@ extern "C"
 		settings_bb *stgs;
 		idxint default_settings;
 
+		idxint max_nodes;   /* nodes there is memory for           */
 		idxint interrupted; /* ctrl-c during one of the relaxations */
 
 	} ecos_bb_pwork;
-- 
2.43.0


From cbbce9a03eb2070d106014634ef9b1762398bc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:06 +0000
Subject: [PATCH 18/28] fix: an interrupted unbounded relaxation does not make
 the problem infeasible

---
 ecos_bb/ecos_bb.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ecos_bb/ecos_bb.c b/ecos_bb/ecos_bb.c
index cd2f28b..b4ce035 100644
--- a/ecos_bb/ecos_bb.c
+++ b/ecos_bb/ecos_bb.c
@@ -1121,9 +1121,10 @@ static void get_bounds(idxint node_idx, ecos_bb_pwork *prob)
             prob->nodes[node_idx].status = MI_SOLVED_NON_BRANCHABLE;
         }
     }
-    else if (node_idx == 0 && !prob->interrupted && (ret_code == ECOS_DINF || ret_code == ECOS_DINF + ECOS_INACC_OFFSET))
+    else if (node_idx == 0 && (ret_code == ECOS_DINF || ret_code == ECOS_DINF + ECOS_INACC_OFFSET))
     { /* The relaxation is unbounded */
-        prob->nodes[node_idx].U = -ECOS_INFINITY;
+        if (!prob->interrupted)
+            prob->nodes[node_idx].U = -ECOS_INFINITY;
         prob->nodes[node_idx].status = MI_SOLVED_NON_BRANCHABLE;
     }
     else if (is_infeasible(ret_code))
-- 
2.43.0


From 48d09aa0ad85aa7f70e0c1d76c92de21392e80a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:14 +0000
Subject: [PATCH 19/28] fix: branch and bound does not branch on a root that
 has nothing to branch on

---
 ecos_bb/ecos_bb.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ecos_bb/ecos_bb.c b/ecos_bb/ecos_bb.c
index b4ce035..33e459a 100644
--- a/ecos_bb/ecos_bb.c
+++ b/ecos_bb/ecos_bb.c
@@ -1259,6 +1259,8 @@ idxint ECOS_BB_solve(ecos_bb_pwork *prob)
         return solve_unbounded(prob);
 
     prob->global_L = prob->nodes[curr_node_idx].L;
+    if (prob->nodes[curr_node_idx].status != MI_SOLVED_BRANCHABLE)
+        curr_node_idx = -1; /* nothing to branch on */
 
     while (should_continue(prob, curr_node_idx))
     {
-- 
2.43.0


From be92e4f7a58c33bdbad8aedea8476f19754d6d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:16 +0000
Subject: [PATCH 20/28] fix: line search looks at the right rows after a cone
 it cannot scale

---
 src/ecos.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ecos.c b/src/ecos.c
index 410ce19..816d826 100644
--- a/src/ecos.c
+++ b/src/ecos.c
@@ -997,8 +997,10 @@ pfloat lineSearch(pfloat* lambda, pfloat* ds, pfloat* dz, pfloat tau, pfloat dta
 
 		/* normalize */
 		lknorm2 = lk[0]*lk[0] - eddot(conesize-1, lk+1, lk+1);
-		if (lknorm2 <= 0.0)
+		if (lknorm2 <= 0.0) {
+			cone_start += conesize;
 			continue;
+		}
 
 		lknorm = sqrt( lknorm2 );
 		for( j=0; j < conesize; j++ ){ lkbar[j] = lk[j] / lknorm; }
-- 
2.43.0


From d722ee0e628038275a31acb9abd337542e13dd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:54 +0000
Subject: [PATCH 21/28] fix: branch and bound builds without the interrupt
 handler

---
 ecos_bb/ecos_bb.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecos_bb/ecos_bb.c b/ecos_bb/ecos_bb.c
index 33e459a..7584b19 100644
--- a/ecos_bb/ecos_bb.c
+++ b/ecos_bb/ecos_bb.c
@@ -31,6 +31,7 @@
 #include "math.h"
 #include "equil.h"
 #include "spla.h"
+#include "ctrlc.h"
 
 #include <string.h>
 
-- 
2.43.0


From fe03469068ca8573e5a9799ab7cff32eb15ade18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:53 +0000
Subject: [PATCH 22/28] fix: branch and bound compiles at print level 3

---
 ecos_bb/ecos_bb.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecos_bb/ecos_bb.c b/ecos_bb/ecos_bb.c
index 7584b19..32706ab 100644
--- a/ecos_bb/ecos_bb.c
+++ b/ecos_bb/ecos_bb.c
@@ -429,7 +429,7 @@ static int check_infeasible_bool_var(ecos_bb_pwork *problem, const idxint ecos_r
         get_bool_node_id(node_idx, problem)[var_idx] = other_val;
         problem->tmp_branching_bool_node_id[var_idx] = other_val;
 #if PRINTLEVEL >= 3
-        PRINTTEXT("Found infeasible node path for down-branching in node [%d] in var [%d]\n", node_idx, i);
+        PRINTTEXT("Found infeasible node path for down-branching in node [%d] in var [%d]\n", (int)node_idx, (int)var_idx);
 #endif
         // prevent to have no branching variable set because of continuing
         if (*split_idx == -1)
@@ -458,7 +458,7 @@ static int check_infeasible_int_var(ecos_bb_pwork *problem, const idxint ecos_re
         get_int_node_id(node_idx, problem)[2 * var_idx + (fix_lb ? 0 : 1)] = fix_val;
         problem->tmp_branching_int_node_id[2 * var_idx + (fix_lb ? 0 : 1)] = fix_val;
 #if PRINTLEVEL >= 3
-        PRINTTEXT("Found infeasible node path for down-branching in node [%d] in var [%d]\n", node_idx, i);
+        PRINTTEXT("Found infeasible node path for down-branching in node [%d] in var [%d]\n", (int)node_idx, (int)var_idx);
 #endif
         // prevent to have no branching variable set because of continuing
         if (*split_idx == -1)
-- 
2.43.0


From bc1df30426fce9895db31bf54fdf588ff21ca248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:11 +0000
Subject: [PATCH 23/28] fix: branch and bound compiles without exponential cone
 support

---
 ecos_bb/ecos_bb.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ecos_bb/ecos_bb.c b/ecos_bb/ecos_bb.c
index 32706ab..6282789 100644
--- a/ecos_bb/ecos_bb.c
+++ b/ecos_bb/ecos_bb.c
@@ -558,7 +558,9 @@ static void get_branch_var_strong_branching(ecos_bb_pwork *problem, idxint *spli
     pfloat best_q_down = 0.0, best_q_up = 0.0;
 
     idxint orig_maxit = problem->ecos_prob->stgs->maxit;
+#ifdef EXPCONE
     idxint orig_maxit_bk = problem->ecos_prob->stgs->max_bk_iter;
+#endif
     /* set split idx to something impossible */
     *split_idx = -1;
 
@@ -610,7 +612,9 @@ static void get_branch_var_strong_branching(ecos_bb_pwork *problem, idxint *spli
     free(x_values);
     free(random_idx);
     problem->ecos_prob->stgs->maxit = orig_maxit;
+#ifdef EXPCONE
     problem->ecos_prob->stgs->max_bk_iter = orig_maxit_bk;
+#endif
 
 #if MI_PRINTLEVEL >= 3
     PRINTTEXT("split_idx: %u, split_val: %f,q: %f, q_down: %f, q_up: %f\n", *split_idx, *split_val, q, best_q_down, best_q_up);
-- 
2.43.0


From 13b17d427a98406b2601448fa33954b7972e8965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:27 +0000
Subject: [PATCH 24/28] fix: norms of very small vectors do not underflow to
 zero

---
 src/spla.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/spla.c b/src/spla.c
index 3b92c31..3e6cfbf 100644
--- a/src/spla.c
+++ b/src/spla.c
@@ -133,6 +133,15 @@ pfloat norm2(pfloat* v, idxint n)
 	idxint i;
 	pfloat normsquare = 0;
 	for( i=0; i<n; i++ ){ normsquare += v[i]*v[i]; }
+	if( normsquare < DBL_MIN/DBL_EPSILON ){
+		/* the squares of very small entries underflow, so scale the entries first */
+		pfloat scale = norminf(v, n);
+		if( scale > 0 ){
+			normsquare = 0;
+			for( i=0; i<n; i++ ){ normsquare += (v[i]/scale)*(v[i]/scale); }
+			return scale*sqrt(normsquare);
+		}
+	}
 	return sqrt(normsquare);
 }
 
-- 
2.43.0


From ba985dbe860ed55265082a0a004003b585033e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:11 +0000
Subject: [PATCH 25/28] fix: a point on the wrong side of a second-order cone
 is outside it

---
 src/cone.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cone.c b/src/cone.c
index fca4eb8..d70c7a4 100644
--- a/src/cone.c
+++ b/src/cone.c
@@ -162,7 +162,7 @@ idxint updateScalings(cone* C, pfloat* s, pfloat* z, pfloat* lambda)
 
 		/* check residuals and quit if they're negative */
 		sres = socres(sk, p);  zres = socres(zk, p);
-        if( sres <= 0 || zres <= 0 ){ return OUTSIDE_CONE; }
+        if( sres <= 0 || zres <= 0 || sk[0] <= 0 || zk[0] <= 0 ){ return OUTSIDE_CONE; }
 
 		/* normalize variables */
 		snorm = sqrt(sres);    znorm = sqrt(zres);
-- 
2.43.0


From bf0f9562aaf2cdb381256e8a1ce329b82991a1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:15 +0000
Subject: [PATCH 26/28] fix: an iterate with negative tau is not accepted

---
 src/ecos.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ecos.c b/src/ecos.c
index 816d826..7f226d4 100644
--- a/src/ecos.c
+++ b/src/ecos.c
@@ -1145,13 +1145,14 @@ idxint ECOS_solve(pwork* w)
 
         /* SAFEGUARD: Backtrack to best previously seen iterate if
          *
-         * - the update was bad such that the primal residual PRES has increased by a factor of SAFEGUARD, or
-         * - the gap became negative
+         * - the update was bad such that the primal residual PRES has increased by a factor of SAFEGUARD,
+         * - the gap became negative, or
+         * - tau became negative (the smallest step was still too long)
          *
          * If the safeguard is activated, the solver tests if reduced precision has been reached, and reports
          * accordingly. If not even reduced precision is reached, ECOS returns the flag ECOS_NUMERICS.
          */
-        if( w->info->iter > 0 && (w->info->pres > SAFEGUARD*pres_prev || w->info->gap < 0) ){
+        if( w->info->iter > 0 && (w->info->pres > SAFEGUARD*pres_prev || w->info->gap < 0 || w->tau <= 0) ){
 #if PRINTLEVEL > 1
             if( w->stgs->verbose ) deleteLastProgressLine( w->info );
             if( w->stgs->verbose ) PRINTTEXT("Unreliable search direction detected, recovering best iterate (%i) and stopping.\n", (int)w->best_info->iter);
-- 
2.43.0


From bf2204a3f7c79b77a3c80e7b2c1138ad64e7be11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:38 +0000
Subject: [PATCH 27/28] fix: the huge bounds of integer variables do not loosen
 the feasibility test of branch and bound

---
 ecos_bb/ecos_bb.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/ecos_bb/ecos_bb.c b/ecos_bb/ecos_bb.c
index 6282789..bf65d18 100644
--- a/ecos_bb/ecos_bb.c
+++ b/ecos_bb/ecos_bb.c
@@ -341,6 +341,17 @@ static idxint solve_relaxation(ecos_bb_pwork *prob)
     return ret_code;
 }
 
+/*
+ * The bounds of the integer variables are huge before they are tightened, and they enter the norm
+ * that the primal residual is compared with. Returns 1 if the residual is small for the other rows, too
+ */
+static idxint is_accurate(ecos_bb_pwork *prob)
+{
+    const pwork *w = prob->ecos_prob;
+    const idxint num_bounds = 2 * (prob->num_bool_vars + prob->num_int_vars);
+    return norm2(w->rz, w->m) <= 100 * w->stgs->feastol * w->tau * (1.0 + norm2(w->h + num_bounds, w->m - num_bounds) + norm2(w->x, w->n));
+}
+
 static char is_infeasible(idxint ecos_result)
 {
     if (ecos_result == ECOS_DINF ||
@@ -968,7 +979,7 @@ static void get_bounds(idxint node_idx, ecos_bb_pwork *prob)
     {
         /* Without an accurate solution of the relaxation the bound of the parent stays in force;
            reduced accuracy will do where the node leaves nothing to branch on */
-        solved = ret_code == ECOS_OPTIMAL ||
+        solved = (ret_code == ECOS_OPTIMAL && is_accurate(prob)) ||
                  (ret_code == ECOS_OPTIMAL + ECOS_INACC_OFFSET &&
                   !get_branch_var_unfixed(prob, &(prob->nodes[node_idx].split_idx), &(prob->nodes[node_idx].split_val), node_idx));
         if (solved)
-- 
2.43.0


From 46aab295e47dc21ff83cfddb42d5a92a1c80724a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:18 +0000
Subject: [PATCH 28/28] fix: a NaN dead end was printed as running out of
 iterations

---
 src/ecos.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecos.c b/src/ecos.c
index 7f226d4..ad44a4e 100644
--- a/src/ecos.c
+++ b/src/ecos.c
@@ -1269,7 +1269,7 @@ idxint ECOS_solve(pwork* w)
                     exitcode = ECOS_NUMERICS;
 #if PRINTLEVEL > 0
                     if( w->stgs->verbose ) {
-                        const char* what = interrupted ? "INTERRUPTED" : "RAN OUT OF ITERATIONS";
+                        const char* what = interrupted ? "INTERRUPTED" : "NUMERICAL PROBLEMS";
                         PRINTTEXT("\n%s (reached feastol=%3.1e, reltol=%3.1e, abstol=%3.1e).", what, MAX(w->info->dres, w->info->pres), w->info->relgap, w->info->gap);
                     }
 #endif
-- 
2.43.0

