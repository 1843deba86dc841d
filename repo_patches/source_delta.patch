From e85af033bcecd2aa20fef659ee16e6bd42c4e2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:32 +0000
Subject: [PATCH 01/32] fix: forget the status of the previous solve when
 osqp_solve starts

---
 src/osqp_api.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index 57b5924..4c44e35 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -664,6 +664,10 @@ OSQPInt osqp_solve(OSQPSolver *solver) {
   // Initialize variables
   exitflag              = 0;
   can_check_termination = 0;
+
+  // The outcome of a previous solve says nothing about this one
+  update_status(solver->info, OSQP_UNSOLVED);
+
 #ifdef OSQP_ENABLE_PRINTING
   can_print = settings->verbose;
 #endif /* ifdef OSQP_ENABLE_PRINTING */
-- 
2.43.0


From cc8fb59e79cd757bd9e78d04a246ca57210961f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:22 +0000
Subject: [PATCH 02/32] fix: release everything and report the error when an
 allocation fails in setup or polish

Also let the indirect MKL solver work with a scalar rho (rho_is_vec = 0).
---
 .../mkl/lin_sys/direct/pardiso_interface.c    | 22 +++++++
 .../mkl/lin_sys/indirect/mkl-cg_interface.c   | 53 ++++++++++++----
 algebra/mkl/matrix.c                          | 14 ++++-
 src/osqp_api.c                                |  4 +-
 src/polish.c                                  | 63 ++++++++-----------
 5 files changed, 103 insertions(+), 53 deletions(-)

diff --git a/algebra/mkl/lin_sys/direct/pardiso_interface.c b/algebra/mkl/lin_sys/direct/pardiso_interface.c
index e207116..2a296e8 100644
--- a/algebra/mkl/lin_sys/direct/pardiso_interface.c
+++ b/algebra/mkl/lin_sys/direct/pardiso_interface.c
@@ -82,6 +82,7 @@ OSQPInt init_linsys_solver_pardiso(pardiso_solver**    sp,
   // Allocate private structure to store KKT factorization
   pardiso_solver *s = c_calloc(1, sizeof(pardiso_solver));
   *sp = s;
+  if (!s) return OSQP_MEM_ALLOC_ERROR;
 
   // Size of KKT
   n = P->csc->n;
@@ -121,6 +122,12 @@ OSQPInt init_linsys_solver_pardiso(pardiso_solver**    sp,
   }
   // else it is NULL
 
+  if (!s->bp || !s->sol || (rho_vec && !s->rho_inv_vec)) {
+    free_linsys_solver_pardiso(s);
+    *sp = OSQP_NULL;
+    return OSQP_MEM_ALLOC_ERROR;
+  }
+
   // Form KKT matrix
   if (polishing){ // Called from polish()
     s->KKT = form_KKT(P->csc,A->csc,
@@ -135,6 +142,14 @@ OSQPInt init_linsys_solver_pardiso(pardiso_solver**    sp,
     s->AtoKKT   = c_malloc(A->csc->p[n] * sizeof(OSQPInt));
     s->rhotoKKT = c_malloc(m * sizeof(OSQPInt));
 
+    // Zero-length vectors are allowed to be NULL
+    if ((P->csc->p[n] && !s->PtoKKT) ||
+        (A->csc->p[n] && !s->AtoKKT) || (m && !s->rhotoKKT)) {
+      free_linsys_solver_pardiso(s);
+      *sp = OSQP_NULL;
+      return OSQP_MEM_ALLOC_ERROR;
+    }
+
     // Use s->rho_inv_vec for storing param2 = rho_inv_vec
     if (rho_vec) {
         rhov = rho_vec->values;
@@ -156,6 +171,7 @@ OSQPInt init_linsys_solver_pardiso(pardiso_solver**    sp,
   if (!(s->KKT)) {
 	  c_eprint("Error in forming KKT matrix");
     free_linsys_solver_pardiso(s);
+    *sp = OSQP_NULL;
     return OSQP_LINSYS_SOLVER_INIT_ERROR;
   } else {
     // Adjust indexing for Pardiso
@@ -163,6 +179,12 @@ OSQPInt init_linsys_solver_pardiso(pardiso_solver**    sp,
     s->KKT_i = c_malloc((nnzKKT) * sizeof(OSQPInt));
     s->KKT_p = c_malloc((n_plus_m + 1) * sizeof(OSQPInt));
 
+    if (!s->KKT_i || !s->KKT_p) {
+      free_linsys_solver_pardiso(s);
+      *sp = OSQP_NULL;
+      return OSQP_MEM_ALLOC_ERROR;
+    }
+
     for(i = 0; i < nnzKKT; i++){
       s->KKT_i[i] = s->KKT->i[i] + 1;
     }
diff --git a/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c b/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
index de14930..31960ea 100644
--- a/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
+++ b/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
@@ -92,8 +92,9 @@ OSQPInt init_linsys_mklcg(mklcg_solver**     sp,
   OSQPInt m = A->csc->m;
   OSQPInt n = P->csc->n;
   MKL_INT status;
-  mklcg_solver* s = (mklcg_solver *)c_malloc(sizeof(mklcg_solver));
+  mklcg_solver* s = (mklcg_solver *)c_calloc(1, sizeof(mklcg_solver));
   *sp = s;
+  if (!s) return OSQP_MEM_ALLOC_ERROR;
 
   //Just hold on to pointers to the problem
   //data, no copies or processing required
@@ -110,8 +111,16 @@ OSQPInt init_linsys_mklcg(mklcg_solver**     sp,
   //if polish is false, use the rho_vec we get.
   //Otherwise, use rho_vec = ones.*(1/sigma)
   s->rho_vec = OSQPVectorf_malloc(m);
+  if (!s->rho_vec) {
+    free_linsys_mklcg(s);
+    *sp = OSQP_NULL;
+    return OSQP_MEM_ALLOC_ERROR;
+  }
   if (!polish) {
-      OSQPVectorf_copy(s->rho_vec, rho_vec);
+      if (rho_vec)
+        OSQPVectorf_copy(s->rho_vec, rho_vec);
+      else
+        OSQPVectorf_set_scalar(s->rho_vec, settings->rho);
   } else {
       OSQPVectorf_set_scalar(s->rho_vec, 1/settings->sigma);
   }
@@ -151,13 +160,6 @@ OSQPInt init_linsys_mklcg(mklcg_solver**     sp,
   //Workspace for CG products and polishing
   s->ywork = OSQPVectorf_malloc(m);
 
-  //make subviews for the rhs.   OSQP passes
-  //a different RHS pointer at every iteration,
-  //so we will need to update these views every
-  //time we solve. Just point them at x for now.
-  s->r1 = OSQPVectorf_view(s->x, 0, 0);
-  s->r2 = OSQPVectorf_view(s->x, 0, 0);
-
   //Allocate a 4*n vector for the MKL workspace
   // 1:n     = Vector to multiply by the matrix
   // n+1:2n  = Vector after multiplying by the matrix
@@ -165,6 +167,23 @@ OSQPInt init_linsys_mklcg(mklcg_solver**     sp,
   // 3n+1:4n = Vector after application of the preconditioner
   s->tmp = OSQPVectorf_malloc(4*n);
 
+  //Vectors for the preconditioner
+  s->precond     = OSQPVectorf_malloc(n);
+  s->precond_inv = OSQPVectorf_malloc(n);
+
+  if (!s->x || !s->ywork || !s->tmp || !s->precond || !s->precond_inv) {
+    free_linsys_mklcg(s);
+    *sp = OSQP_NULL;
+    return OSQP_MEM_ALLOC_ERROR;
+  }
+
+  //make subviews for the rhs.   OSQP passes
+  //a different RHS pointer at every iteration,
+  //so we will need to update these views every
+  //time we solve. Just point them at x for now.
+  s->r1 = OSQPVectorf_view(s->x, 0, 0);
+  s->r2 = OSQPVectorf_view(s->x, 0, 0);
+
   // Create subviews to tmp to aid the matrix-vector multiplication
   s->mvm_pre  = OSQPVectorf_view(s->tmp, 0, n);
   s->mvm_post = OSQPVectorf_view(s->tmp, n, n);
@@ -173,11 +192,16 @@ OSQPInt init_linsys_mklcg(mklcg_solver**     sp,
   s->precond_pre  = OSQPVectorf_view(s->tmp, 2*n, n);
   s->precond_post = OSQPVectorf_view(s->tmp, 3*n, n);
 
+  if (!s->r1 || !s->r2 || !s->mvm_pre || !s->mvm_post ||
+      !s->precond_pre || !s->precond_post) {
+    free_linsys_mklcg(s);
+    *sp = OSQP_NULL;
+    return OSQP_MEM_ALLOC_ERROR;
+  }
+
   status = cg_solver_init(s);
 
   // Compute the preconditioner
-  s->precond     = OSQPVectorf_malloc(n);
-  s->precond_inv = OSQPVectorf_malloc(n);
   cg_update_precond(s);
 
   return status;
@@ -364,7 +388,10 @@ OSQPInt update_matrices_linsys_mklcg(mklcg_solver*     s,
 OSQPInt update_rho_linsys_mklcg(mklcg_solver*    s,
                               const OSQPVectorf* rho_vec,
                               OSQPFloat          rho_sc) {
-  OSQPVectorf_copy(s->rho_vec, rho_vec);
+  if (rho_vec)
+    OSQPVectorf_copy(s->rho_vec, rho_vec);
+  else
+    OSQPVectorf_set_scalar(s->rho_vec, rho_sc);
 
   // Update the preconditioner (rho-only update)
   cg_update_precond(s);
@@ -375,7 +402,7 @@ OSQPInt update_rho_linsys_mklcg(mklcg_solver*    s,
 
 void free_linsys_mklcg(mklcg_solver* s) {
 
-  if (s->tmp) {
+  if (s) {
     OSQPVectorf_free(s->tmp);
     OSQPVectorf_free(s->rho_vec);
     OSQPVectorf_free(s->x);
diff --git a/algebra/mkl/matrix.c b/algebra/mkl/matrix.c
index 3c4e6d1..acc8696 100644
--- a/algebra/mkl/matrix.c
+++ b/algebra/mkl/matrix.c
@@ -17,6 +17,8 @@ OSQPInt OSQPMatrix_is_eq(const OSQPMatrix* A,
           csc_is_eq(A->csc, B->csc, tol) );
 }
 
+static void mkl_csc_spfree(OSQPCscMatrix* M);
+
 /* Special routine to allocate a OSQPCscMatrix using the MKL memory routines
    instead of the normal memory routines */
 static OSQPCscMatrix* mkl_csc_spalloc(OSQPInt m, OSQPInt n, OSQPInt nzmax, OSQPInt hasData) {
@@ -34,6 +36,12 @@ static OSQPCscMatrix* mkl_csc_spalloc(OSQPInt m, OSQPInt n, OSQPInt nzmax, OSQPI
   csc->i     = hasData ? blas_malloc(nzmax * sizeof(OSQPInt)) : OSQP_NULL;
   csc->x     = hasData ? blas_malloc(nzmax * sizeof(OSQPFloat)) : OSQP_NULL;
 
+  /* Zero-length arrays are allowed to be NULL */
+  if (!csc->p || (hasData && nzmax > 0 && (!csc->i || !csc->x))) {
+    mkl_csc_spfree(csc);
+    return OSQP_NULL;
+  }
+
   return csc;
 }
 
@@ -328,7 +336,11 @@ static OSQPCscMatrix* mkl_submatrix_byrows(const OSQPCscMatrix* A,
 
   // Form R = A(rows,:), where nrows = sum(rows != 0)
   R = mkl_csc_spalloc(Rm, An, nzR, 1);
-  if (!R) return OSQP_NULL;
+  if (!R) {
+    // Free work index and return on error
+    c_free(rridx);
+    return OSQP_NULL;
+  }
 
   // no active constraints
   if (Rm == 0) {
diff --git a/src/osqp_api.c b/src/osqp_api.c
index 4c44e35..1c22103 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -417,13 +417,13 @@ OSQPInt osqp_setup(OSQPSolver**         solverp,
   work->x           = OSQPVectorf_calloc(n);
   work->z           = OSQPVectorf_calloc(m);
   work->xz_tilde    = OSQPVectorf_calloc(n + m);
-  work->xtilde_view = OSQPVectorf_view(work->xz_tilde,0,n);
-  work->ztilde_view = OSQPVectorf_view(work->xz_tilde,n,m);
   work->x_prev      = OSQPVectorf_calloc(n);
   work->z_prev      = OSQPVectorf_calloc(m);
   work->y           = OSQPVectorf_calloc(m);
   if (!(work->x) || !(work->z) || !(work->xz_tilde))
     return osqp_error(OSQP_MEM_ALLOC_ERROR);
+  work->xtilde_view = OSQPVectorf_view(work->xz_tilde,0,n);
+  work->ztilde_view = OSQPVectorf_view(work->xz_tilde,n,m);
   if (!(work->xtilde_view) || !(work->ztilde_view))
       return osqp_error(OSQP_MEM_ALLOC_ERROR);
   if (!(work->x_prev) || !(work->z_prev) || !(work->y))
diff --git a/src/polish.c b/src/polish.c
index f66a0a0..e7b8a2c 100644
--- a/src/polish.c
+++ b/src/polish.c
@@ -191,6 +191,7 @@ static OSQPInt iterative_refinement(OSQPSolver*   solver,
   OSQPInt i, mred;
   OSQPVectorf *rhs, *rhs1, *rhs2;
   OSQPVectorf *z1, *z2;
+  OSQPInt exitflag = 0;
 
   OSQPSettings*  settings = solver->settings;
   OSQPWorkspace* work     = solver->work;
@@ -200,6 +201,7 @@ static OSQPInt iterative_refinement(OSQPSolver*   solver,
 
     // Allocate dz and rhs vectors
     rhs = OSQPVectorf_malloc(work->data->n + mred);
+    if (!rhs) return osqp_error(OSQP_MEM_ALLOC_ERROR);
 
     //form views of the top/bottom parts of rhs and z
     rhs1 = OSQPVectorf_view(rhs,0,work->data->n);
@@ -207,11 +209,11 @@ static OSQPInt iterative_refinement(OSQPSolver*   solver,
     z1   = OSQPVectorf_view(z,0,work->data->n);
     z2   = OSQPVectorf_view(z,work->data->n,mred);
 
-    if (!rhs || !rhs1 || !rhs2 || !z1 || !z2) {
-      return osqp_error(OSQP_MEM_ALLOC_ERROR);
+    if (!rhs1 || !rhs2 || !z1 || !z2) {
+      exitflag = osqp_error(OSQP_MEM_ALLOC_ERROR);
     }
 
-    for (i = 0; i < settings->polish_refine_iter; i++) {
+    for (i = 0; !exitflag && i < settings->polish_refine_iter; i++) {
 
       // Form the RHS for the iterative refinement:  b - K*z
       OSQPVectorf_copy(rhs,b);
@@ -240,7 +242,7 @@ static OSQPInt iterative_refinement(OSQPSolver*   solver,
     OSQPVectorf_view_free(z1);
     OSQPVectorf_view_free(z2);
   }
-  return 0;
+  return exitflag;
 }
 
 /**
@@ -372,10 +374,8 @@ OSQPInt polish(OSQPSolver* solver) {
     /* Failure to allocate memory */
     info->status_polish = OSQP_POLISH_FAILED;
 
-    /* Memory clean-up */
-    OSQPMatrix_free(work->pol->Ared);
-
-    return osqp_error(OSQP_MEM_ALLOC_ERROR);
+    exitflag = osqp_error(OSQP_MEM_ALLOC_ERROR);
+    goto exit;
   }
 
   exitflag = form_rhs_red(work, rhs_red);
@@ -384,10 +384,7 @@ OSQPInt polish(OSQPSolver* solver) {
     /* Failure to form reduced right hand side */
     info->status_polish = OSQP_POLISH_FAILED;
 
-    /* Memory clean-up */
-    OSQPMatrix_free(work->pol->Ared);
-
-    return exitflag;
+    goto exit;
   }
 
   pol_sol = OSQPVectorf_copy_new(rhs_red);
@@ -396,11 +393,8 @@ OSQPInt polish(OSQPSolver* solver) {
     /* Failure to allocate vector */
     info->status_polish = OSQP_POLISH_FAILED;
 
-    /* Memory clean-up */
-    OSQPMatrix_free(work->pol->Ared);
-    OSQPVectorf_free(rhs_red);
-
-    return osqp_error(OSQP_MEM_ALLOC_ERROR);
+    exitflag = osqp_error(OSQP_MEM_ALLOC_ERROR);
+    goto exit;
   }
 
   pol_sol_xview = OSQPVectorf_view(pol_sol,0,work->data->n);
@@ -411,14 +405,8 @@ OSQPInt polish(OSQPSolver* solver) {
     // Polishing failed
     info->status_polish = OSQP_POLISH_FAILED;
 
-    // Memory clean-up
-    OSQPMatrix_free(work->pol->Ared);
-    OSQPVectorf_free(rhs_red);
-    OSQPVectorf_free(pol_sol);
-    OSQPVectorf_view_free(pol_sol_xview);
-    OSQPVectorf_view_free(pol_sol_yview);
-
-    return osqp_error(OSQP_MEM_ALLOC_ERROR);
+    exitflag = osqp_error(OSQP_MEM_ALLOC_ERROR);
+    goto exit;
   }
 
   // Warm start the polished solution
@@ -434,20 +422,20 @@ OSQPInt polish(OSQPSolver* solver) {
     // Polishing failed
     info->status_polish = OSQP_POLISH_FAILED;
 
-    // Memory clean-up
-    OSQPMatrix_free(work->pol->Ared);
-    OSQPVectorf_free(rhs_red);
-    OSQPVectorf_free(pol_sol);
-    OSQPVectorf_view_free(pol_sol_xview);
-    OSQPVectorf_view_free(pol_sol_yview);
-
-    return exitflag;
+    goto exit;
   }
 
   // Store the polished solution (x,z,y)
   OSQPVectorf_copy(work->pol->x, pol_sol_xview);   // pol->x
   OSQPMatrix_Axpy(work->data->A, work->pol->x, work->pol->z, 1.0, 0.0);
-  get_ypol_from_yred(work, pol_sol_yview);     // pol->y
+  exitflag = get_ypol_from_yred(work, pol_sol_yview);     // pol->y
+
+  if (exitflag) {
+    // Polishing failed
+    info->status_polish = OSQP_POLISH_FAILED;
+
+    goto exit;
+  }
 
   // Ensure z is in C and y is in the normal cone N_C(z)
   // by doing: y <- y + z;  z <- proj_C(y);  y <- y - z
@@ -501,15 +489,16 @@ OSQPInt polish(OSQPSolver* solver) {
     //       and polished solution
   }
 
-  // Memory clean-up
+exit:
+
+  // Memory clean-up (the vectors may not have been allocated yet)
   plsh->free(plsh);
 
-  // Checks that they are not NULL are already performed earlier
   OSQPMatrix_free(work->pol->Ared);
   OSQPVectorf_free(rhs_red);
   OSQPVectorf_free(pol_sol);
   OSQPVectorf_view_free(pol_sol_xview);
   OSQPVectorf_view_free(pol_sol_yview);
 
-  return OSQP_NO_ERROR;
+  return exitflag;
 }
-- 
2.43.0


From d69e42ef1cf19d3622335cddf413f974a61a01ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:37 +0000
Subject: [PATCH 03/32] fix: keep sigma on the KKT diagonal when P is updated
 in CSR format

---
 algebra/_common/kkt.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/algebra/_common/kkt.c b/algebra/_common/kkt.c
index c4f33a1..62f08a8 100644
--- a/algebra/_common/kkt.c
+++ b/algebra/_common/kkt.c
@@ -353,14 +353,16 @@ void update_KKT_P(OSQPCscMatrix* KKT,
                   OSQPInt*       PtoKKT,
                   OSQPFloat      param1,
                   OSQPInt        format) {
-  OSQPInt j, Pidx, Kidx, row, offset, doall;
+  OSQPInt j, Pidx, Kidx, row, doall;
+
+  // P is always in triu CSC format, whatever the format of the KKT matrix
+  (void)format;
 
   if(P_new_n <= 0){return;}
 
   //if Px_new_idx is null, we assume that all
   //elements are to be replaced (and that P_new_n = nnz(P))
   doall  = Px_new_idx == OSQP_NULL ? 1 : 0;
-  offset = format == 0 ? 1 : 0;
 
   for (j = 0; j < P_new_n; j++) {
     Pidx = doall ? j : Px_new_idx[j];
@@ -370,7 +372,7 @@ void update_KKT_P(OSQPCscMatrix* KKT,
     //is the corresonding column nonempty with
     //the current element on the diagonal (i.e. row==col)?
     row  = P->i[Pidx];
-    if((P->p[row] < P->p[row+1]) && ((P->p[row+offset] - offset) == Pidx)){
+    if((P->p[row] < P->p[row+1]) && ((P->p[row+1] - 1) == Pidx)){
       KKT->x[Kidx] += param1;
     }
   }
-- 
2.43.0


From 4ac0e76621d4d1cfe7101567425f591e91d3314b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:37 +0000
Subject: [PATCH 04/32] fix: do not dereference a NULL solver in
 osqp_update_settings and osqp_cold_start

---
 src/osqp_api.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index 1c22103..4a6143b 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -1298,7 +1298,12 @@ OSQPInt osqp_warm_start(OSQPSolver*      solver,
 
 
 void osqp_cold_start(OSQPSolver *solver) {
-  OSQPWorkspace *work = solver->work;
+  OSQPWorkspace *work;
+
+  /* Check if workspace has been initialized */
+  if (!solver || !solver->work) return;
+  work = solver->work;
+
   OSQPVectorf_set_scalar(work->x, 0.);
   OSQPVectorf_set_scalar(work->z, 0.);
   OSQPVectorf_set_scalar(work->y, 0.);
@@ -1478,10 +1483,11 @@ OSQPInt osqp_update_rho(OSQPSolver* solver,
 OSQPInt osqp_update_settings(OSQPSolver*         solver,
                              const OSQPSettings* new_settings) {
 
-  OSQPSettings* settings = solver->settings;
+  OSQPSettings* settings;
 
   /* Check if workspace has been initialized */
   if (!solver || !solver->work) return osqp_error(OSQP_WORKSPACE_NOT_INIT_ERROR);
+  settings = solver->settings;
 
   /* Validate settings */
   if (validate_settings(new_settings, 0)) return osqp_error(OSQP_SETTINGS_VALIDATION_ERROR);
-- 
2.43.0


From b4958b9f0b69fa3db622c94aa701e5d9de913ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:37 +0000
Subject: [PATCH 05/32] fix: do not read before the error message table

---
 src/osqp_api.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index 4a6143b..a5f196c 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -240,7 +240,7 @@ const char* osqp_version(void) {
 
 
 const char* osqp_error_message(OSQPInt error_flag) {
-  if( error_flag >= OSQP_LAST_ERROR_PLACE ) {
+  if( error_flag <= OSQP_NO_ERROR || error_flag >= OSQP_LAST_ERROR_PLACE ) {
     return OSQP_ERROR_MESSAGE[OSQP_LAST_ERROR_PLACE-1];
   }
 
-- 
2.43.0


From aac2f4ef52579bab07da3dc4ba0d956ef72a2564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:37 +0000
Subject: [PATCH 06/32] fix: use the clamped rho for the initial rho_inv

---
 src/osqp_api.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index a5f196c..74ad1d9 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -493,7 +493,7 @@ OSQPInt osqp_setup(OSQPSolver**         solverp,
   }
   else {
     solver->settings->rho = c_min(c_max(settings->rho, OSQP_RHO_MIN), OSQP_RHO_MAX);
-    work->rho_inv = 1. / settings->rho;
+    work->rho_inv = 1. / solver->settings->rho;
   }
 
   // Initialize linear system solver structure
-- 
2.43.0


From f21b4d88d08787cacc9a14ae61fec9a2a00d7e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:37 +0000
Subject: [PATCH 07/32] fix: set both certificates to NaN for a nonconvex
 problem

---
 src/auxil.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/auxil.c b/src/auxil.c
index fbca9f4..68da95a 100644
--- a/src/auxil.c
+++ b/src/auxil.c
@@ -669,6 +669,14 @@ void store_solution(OSQPSolver *solver, OSQPSolution* solution) {
       OSQPVectorf_to_raw(solution->prim_inf_cert, work->delta_y);
     }
 
+    if (info->status_val == OSQP_NON_CVX) {
+      /* Neither certificate exists */
+      OSQPVectorf_set_scalar(work->delta_y, OSQP_NAN);
+      OSQPVectorf_set_scalar(work->delta_x, OSQP_NAN);
+      OSQPVectorf_to_raw(solution->prim_inf_cert, work->delta_y);
+      OSQPVectorf_to_raw(solution->dual_inf_cert, work->delta_x);
+    }
+
 #endif /* ifndef OSQP_EMBEDDED_MODE */
   }
 }
-- 
2.43.0


From 9a1517851e41faa9108dacb2a4cc5bfc5a0d3015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:37 +0000
Subject: [PATCH 08/32] fix: unscale the infeasibility certificates also with
 scaled_termination

---
 src/auxil.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/auxil.c b/src/auxil.c
index 68da95a..3ae0f24 100644
--- a/src/auxil.c
+++ b/src/auxil.c
@@ -922,7 +922,7 @@ OSQPInt check_termination(OSQPSolver* solver,
       update_status(info, OSQP_PRIMAL_INFEASIBLE);
     }
 
-    if (settings->scaling && !settings->scaled_termination) {
+    if (settings->scaling) {
       // Update infeasibility certificate
       OSQPVectorf_ew_prod(work->delta_y,
                           work->delta_y,
@@ -939,7 +939,7 @@ OSQPInt check_termination(OSQPSolver* solver,
       update_status(info, OSQP_DUAL_INFEASIBLE);
     }
 
-    if (settings->scaling && !settings->scaled_termination) {
+    if (settings->scaling) {
       // Update infeasibility certificate
       OSQPVectorf_ew_prod(work->delta_x,
                           work->delta_x,
-- 
2.43.0


From ad7654a2e47f9e6f0c77c51d6d68c9f80cff2522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:37 +0000
Subject: [PATCH 09/32] fix: keep rel_kkt_error of the returned point when
 polishing is rejected

---
 src/auxil.c  | 4 +++-
 src/polish.c | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/auxil.c b/src/auxil.c
index 3ae0f24..340ffab 100644
--- a/src/auxil.c
+++ b/src/auxil.c
@@ -762,7 +762,9 @@ void update_info(OSQPSolver* solver,
 #endif /* ifdef OSQP_ENABLE_PROFILING */
 
   // Compute the relative KKT error
-  info->rel_kkt_error = c_max( c_max(*dual_res, *prim_res), *dual_gap);
+  if (!polishing) {
+    info->rel_kkt_error = c_max( c_max(*dual_res, *prim_res), *dual_gap);
+  }
 
 #ifdef OSQP_ENABLE_PRINTING
   work->summary_printed = 0; // The just updated info have not been printed
diff --git a/src/polish.c b/src/polish.c
index e7b8a2c..eb80339 100644
--- a/src/polish.c
+++ b/src/polish.c
@@ -469,6 +469,7 @@ OSQPInt polish(OSQPSolver* solver) {
     info->duality_gap   = work->pol->duality_gap;
     info->prim_res      = work->pol->prim_res;
     info->dual_res      = work->pol->dual_res;
+    info->rel_kkt_error = c_max(c_max(info->dual_res, info->prim_res), info->duality_gap);
     info->status_polish = OSQP_POLISH_SUCCESS;
 
     // Update (x, z, y) in ADMM iterations
-- 
2.43.0


From b467a317be17187a7ce1e50bff25482260232b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:37 +0000
Subject: [PATCH 10/32] fix: make the time-based rho update interval at least,
 not at most, one iteration

---
 src/osqp_api.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index 74ad1d9..f49fcba 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -812,7 +812,7 @@ osqp_profiler_sec_push(OSQP_PROFILER_SEC_OPT_SOLVE);
           }
 
           // Make sure the interval is not 0 and at least check_termination times
-          settings->adaptive_rho_interval = c_min(1, c_max(settings->adaptive_rho_interval,
+          settings->adaptive_rho_interval = c_max(1, c_max(settings->adaptive_rho_interval,
                                                            settings->check_termination));
         }
         else
-- 
2.43.0


From 760d19198c7b424d787fb1c266744159a47f3163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:37 +0000
Subject: [PATCH 11/32] fix: reject an unknown preconditioner, and ignore
 adaptive_rho in osqp_update_settings

---
 src/auxil.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/auxil.c b/src/auxil.c
index 340ffab..a59031e 100644
--- a/src/auxil.c
+++ b/src/auxil.c
@@ -1137,9 +1137,15 @@ OSQPInt validate_settings(const OSQPSettings* settings,
     return 1;
   }
 
+  if (settings->cg_precond != OSQP_NO_PRECONDITIONER &&
+      settings->cg_precond != OSQP_DIAGONAL_PRECONDITIONER) {
+    c_eprint("cg_precond not recognized");
+    return 1;
+  }
+
   if (from_setup &&
-      settings->adaptive_rho < 0 ||
-      settings->adaptive_rho >= _OSQP_ADAPTIVE_RHO_UPDATE_LAST_VALUE) {
+      (settings->adaptive_rho < 0 ||
+       settings->adaptive_rho >= _OSQP_ADAPTIVE_RHO_UPDATE_LAST_VALUE)) {
     c_eprint("adaptive_rho not a valid choice");
     return 1;
   }
-- 
2.43.0


From 8b32a3eb7327bda6c501bc721f21edd2eaddb3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:37 +0000
Subject: [PATCH 12/32] fix: report the last iterate, not an older one, when
 the time limit is reached

---
 src/osqp_api.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index f49fcba..4fb0ecd 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -759,6 +759,8 @@ osqp_profiler_sec_push(OSQP_PROFILER_SEC_OPT_SOLVE);
       if (settings->verbose) c_print("run time limit reached\n");
       can_print = 0;  // Not printing at this iteration
 # endif /* ifdef OSQP_ENABLE_PRINTING */
+      can_check_termination = 0; // The residuals are those of an older iterate
+      iter++;                    // This iteration has been performed
       break;
     }
 #endif /* ifdef OSQP_ENABLE_PROFILING */
-- 
2.43.0


From ba9ee262a249d01f6ea672ead61b75ac75165f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:37 +0000
Subject: [PATCH 13/32] fix: forget the polishing outcome of the previous solve
 when osqp_solve starts

---
 src/osqp_api.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index 4fb0ecd..f5e4bfc 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -667,6 +667,12 @@ OSQPInt osqp_solve(OSQPSolver *solver) {
 
   // The outcome of a previous solve says nothing about this one
   update_status(solver->info, OSQP_UNSOLVED);
+#ifndef OSQP_EMBEDDED_MODE
+  solver->info->status_polish = OSQP_POLISH_NOT_PERFORMED;
+# ifdef OSQP_ENABLE_PROFILING
+  solver->info->polish_time   = 0.0;
+# endif /* ifdef OSQP_ENABLE_PROFILING */
+#endif /* ifndef OSQP_EMBEDDED_MODE */
 
 #ifdef OSQP_ENABLE_PRINTING
   can_print = settings->verbose;
-- 
2.43.0


From 255b51ea35368930a8ae125234ad2d0e4a138f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:38 +0000
Subject: [PATCH 14/32] fix: print nothing about polishing or interrupts when
 verbose is 0

---
 src/osqp_api.c | 4 +++-
 src/polish.c   | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index f5e4bfc..bcb3805 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -740,7 +740,9 @@ osqp_profiler_sec_push(OSQP_PROFILER_SEC_OPT_SOLVE);
     // Check the interrupt signal
     if (osqp_is_interrupted()) {
       update_status(solver->info, OSQP_SIGINT);
-      c_print("Solver interrupted\n");
+# ifdef OSQP_ENABLE_PRINTING
+      if (settings->verbose) c_print("Solver interrupted\n");
+# endif /* ifdef OSQP_ENABLE_PRINTING */
       exitflag = 1;
       goto exit;
     }
diff --git a/src/polish.c b/src/polish.c
index eb80339..a80052b 100644
--- a/src/polish.c
+++ b/src/polish.c
@@ -344,7 +344,10 @@ OSQPInt polish(OSQPSolver* solver) {
     return exitflag;
   } else if (work->pol->n_active == 0) {
     /* No active constraints, so skip polishing */
-    c_print("Polishing not needed - no active set detected at optimal point\n");
+#ifdef OSQP_ENABLE_PRINTING
+    if (settings->verbose)
+      c_print("Polishing not needed - no active set detected at optimal point\n");
+#endif /* ifdef OSQP_ENABLE_PRINTING */
     info->status_polish = OSQP_POLISH_NO_ACTIVE_SET_FOUND;
 
     /* Memory clean-up */
-- 
2.43.0


From 5980e43639033ac0e6c673cac62615aba9142262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:38 +0000
Subject: [PATCH 15/32] fix: regularize the polishing system with delta instead
 of sigma

---
 algebra/_common/lin_sys/qdldl/qdldl_interface.c | 2 +-
 algebra/mkl/lin_sys/direct/pardiso_interface.c  | 2 +-
 algebra/mkl/lin_sys/indirect/mkl-cg_interface.c | 6 +++---
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/algebra/_common/lin_sys/qdldl/qdldl_interface.c b/algebra/_common/lin_sys/qdldl/qdldl_interface.c
index 6af6385..6ec74e9 100644
--- a/algebra/_common/lin_sys/qdldl/qdldl_interface.c
+++ b/algebra/_common/lin_sys/qdldl/qdldl_interface.c
@@ -226,7 +226,7 @@ OSQPInt init_linsys_solver_qdldl(qdldl_solver**      sp,
     OSQPInt    m, n;      // Dimensions of A
     OSQPInt    n_plus_m;  // Define n_plus_m dimension
     OSQPFloat* rhov;      // used for direct access to rho_vec data when polishing=false
-    OSQPFloat  sigma = settings->sigma;
+    OSQPFloat  sigma = polishing ? settings->delta : settings->sigma;
 
     // Allocate private structure to store KKT factorization
     qdldl_solver* s = c_calloc(1, sizeof(qdldl_solver));
diff --git a/algebra/mkl/lin_sys/direct/pardiso_interface.c b/algebra/mkl/lin_sys/direct/pardiso_interface.c
index 2a296e8..c32add9 100644
--- a/algebra/mkl/lin_sys/direct/pardiso_interface.c
+++ b/algebra/mkl/lin_sys/direct/pardiso_interface.c
@@ -77,7 +77,7 @@ OSQPInt init_linsys_solver_pardiso(pardiso_solver**    sp,
   OSQPInt    n_plus_m;  // n_plus_m dimension
   OSQPFloat* rhov;      // used for direct access to rho_vec data when polishing=false
 
-  OSQPFloat sigma = settings->sigma;
+  OSQPFloat sigma = polishing ? settings->delta : settings->sigma;
 
   // Allocate private structure to store KKT factorization
   pardiso_solver *s = c_calloc(1, sizeof(pardiso_solver));
diff --git a/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c b/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
index 31960ea..5d98957 100644
--- a/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
+++ b/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
@@ -100,7 +100,7 @@ OSQPInt init_linsys_mklcg(mklcg_solver**     sp,
   //data, no copies or processing required
   s->P       = *(OSQPMatrix**)(&P);
   s->A       = *(OSQPMatrix**)(&A);
-  s->sigma   = settings->sigma;
+  s->sigma   = polish ? settings->delta : settings->sigma;
   s->polish  = polish;
   s->m       = m;
   s->n       = n;
@@ -109,7 +109,7 @@ OSQPInt init_linsys_mklcg(mklcg_solver**     sp,
   s->scaled_dual_res = scaled_dual_res;
 
   //if polish is false, use the rho_vec we get.
-  //Otherwise, use rho_vec = ones.*(1/sigma)
+  //Otherwise, use rho_vec = ones.*(1/delta)
   s->rho_vec = OSQPVectorf_malloc(m);
   if (!s->rho_vec) {
     free_linsys_mklcg(s);
@@ -122,7 +122,7 @@ OSQPInt init_linsys_mklcg(mklcg_solver**     sp,
       else
         OSQPVectorf_set_scalar(s->rho_vec, settings->rho);
   } else {
-      OSQPVectorf_set_scalar(s->rho_vec, 1/settings->sigma);
+      OSQPVectorf_set_scalar(s->rho_vec, 1/settings->delta);
   }
 
   //Link functions
-- 
2.43.0


From 2a7f69327e93c3d50ced0aaa1de0f1c446785ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:55 +0000
Subject: [PATCH 16/32] fix: report a nonconvex matrix update in the Pardiso
 backend

---
 algebra/mkl/lin_sys/direct/pardiso_interface.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/algebra/mkl/lin_sys/direct/pardiso_interface.c b/algebra/mkl/lin_sys/direct/pardiso_interface.c
index c32add9..c0259b1 100644
--- a/algebra/mkl/lin_sys/direct/pardiso_interface.c
+++ b/algebra/mkl/lin_sys/direct/pardiso_interface.c
@@ -344,6 +344,9 @@ OSQPInt update_linsys_solver_matrices_pardiso(pardiso_solver*   s,
            s->iparm, &(s->msglvl), &(s->fdum), &(s->fdum), &(s->error));
   osqp_profiler_sec_pop(OSQP_PROFILER_SEC_LINSYS_NUM_FAC);
 
+  // Number of positive eigenvalues of KKT should be the same as dimension of P
+  if (!s->error && s->iparm[21] < s->n) return OSQP_NONCVX_ERROR;
+
   // Return exit flag
   return s->error;
 }
-- 
2.43.0


From c32c9adaee7baddb95732a7b997d5f6d96945393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:03 +0000
Subject: [PATCH 17/32] fix: keep the infeasibility certificate when a bounds
 update is rejected

---
 src/osqp_api.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index bcb3805..54d5b24 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -1221,9 +1221,9 @@ OSQPInt osqp_update_data_vec(OSQPSolver*      solver,
 
   /* Update constraint bounds */
   if (l_new || u_new) {
-    /* Use z_prev and delta_y to store l_new and u_new */
+    /* Use z_prev and Adelta_x to store l_new and u_new */
     l_tmp = work->z_prev;
-    u_tmp = work->delta_y;
+    u_tmp = work->Adelta_x;
 
     /* Copy l_new and u_new to l_tmp and u_tmp */
     if (l_new) OSQPVectorf_from_raw(l_tmp, l_new);
@@ -1241,9 +1241,9 @@ OSQPInt osqp_update_data_vec(OSQPSolver*      solver,
       if (exitflag) return osqp_error(OSQP_DATA_VALIDATION_ERROR);
 
       /* Swap vectors.
-       * NB: Use work->z_prev & delta_y rather than l_tmp & u_tmp */
+       * NB: Use work->z_prev & Adelta_x rather than l_tmp & u_tmp */
       if (l_new) swap_vectors(&work->z_prev,  &work->data->l);
-      if (u_new) swap_vectors(&work->delta_y, &work->data->u);
+      if (u_new) swap_vectors(&work->Adelta_x, &work->data->u);
 
 #if OSQP_EMBEDDED_MODE != 1
       /* Update rho_vec and refactor if constraints type changes */
-- 
2.43.0


From 36de17cb54fddd6cf28905a4792a71fd156a3026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:54 +0000
Subject: [PATCH 18/32] fix: reject a negative device identifier at setup

---
 src/auxil.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/auxil.c b/src/auxil.c
index a59031e..10fc0d5 100644
--- a/src/auxil.c
+++ b/src/auxil.c
@@ -1061,6 +1061,11 @@ OSQPInt validate_settings(const OSQPSettings* settings,
     return 1;
   }
 
+  if (from_setup && settings->device < 0) {
+    c_eprint("device must be nonnegative");
+    return 1;
+  }
+
   if (from_setup &&
       settings->allocate_solution != 0 &&
       settings->allocate_solution != 1) {
-- 
2.43.0


From 5c2bb1a09cf61bc34724373271968f2893edf493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:23 +0000
Subject: [PATCH 19/32] fix: leave the setup profiler section on every return
 of osqp_setup

---
 src/osqp_api.c | 48 ++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 8 deletions(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index 54d5b24..90fb76b 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -329,6 +329,17 @@ void osqp_set_default_settings(OSQPSettings* settings) {
 #ifndef OSQP_EMBEDDED_MODE
 
 
+/* Allocate and fill in the solver for data and settings that have been validated */
+static OSQPInt setup_solver(OSQPSolver**         solverp,
+                            const OSQPCscMatrix* P,
+                            const OSQPFloat*     q,
+                            const OSQPCscMatrix* A,
+                            const OSQPFloat*     l,
+                            const OSQPFloat*     u,
+                            OSQPInt              m,
+                            OSQPInt              n,
+                            const OSQPSettings*  settings);
+
 OSQPInt osqp_setup(OSQPSolver**         solverp,
                    const OSQPCscMatrix* P,
                    const OSQPFloat*     q,
@@ -341,9 +352,6 @@ OSQPInt osqp_setup(OSQPSolver**         solverp,
 
   OSQPInt exitflag;
 
-  OSQPSolver*    solver;
-  OSQPWorkspace* work;
-
   // Validate data
   if (validate_data(P,q,A,l,u,m,n)) return osqp_error(OSQP_DATA_VALIDATION_ERROR);
 
@@ -352,6 +360,35 @@ OSQPInt osqp_setup(OSQPSolver**         solverp,
 
   osqp_profiler_init(settings->profiler_level);
   osqp_profiler_sec_push(OSQP_PROFILER_SEC_SETUP);
+  exitflag = setup_solver(solverp, P, q, A, l, u, m, n, settings);
+  osqp_profiler_sec_pop(OSQP_PROFILER_SEC_SETUP);
+
+  if (exitflag) return exitflag;
+
+  // Print header
+# ifdef OSQP_ENABLE_PRINTING
+  if ((*solverp)->settings->verbose) print_setup_header(*solverp);
+# endif /* ifdef OSQP_ENABLE_PRINTING */
+
+  // Return exit flag
+  return 0;
+}
+
+
+static OSQPInt setup_solver(OSQPSolver**         solverp,
+                            const OSQPCscMatrix* P,
+                            const OSQPFloat*     q,
+                            const OSQPCscMatrix* A,
+                            const OSQPFloat*     l,
+                            const OSQPFloat*     u,
+                            OSQPInt              m,
+                            OSQPInt              n,
+                            const OSQPSettings*  settings) {
+
+  OSQPInt exitflag;
+
+  OSQPSolver*    solver;
+  OSQPWorkspace* work;
 
   // Allocate empty solver
   solver = c_calloc(1, sizeof(OSQPSolver));
@@ -618,15 +655,10 @@ OSQPInt osqp_setup(OSQPSolver**         solverp,
     return osqp_error(OSQP_MEM_ALLOC_ERROR);
 # endif /* ifdef OSQP_ENABLE_DERIVATIVES */
 
-  osqp_profiler_sec_pop(OSQP_PROFILER_SEC_SETUP);
-
-  // Print header
 # ifdef OSQP_ENABLE_PRINTING
-  if (solver->settings->verbose) print_setup_header(solver);
   work->summary_printed = 0; // Initialize last summary  to not printed
 # endif /* ifdef OSQP_ENABLE_PRINTING */
 
-  // Return exit flag
   return 0;
 }
 
-- 
2.43.0


From a5ad2112bb41c74b1c294d6e78a85f9187e5c4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:48 +0000
Subject: [PATCH 20/32] fix: report a failing fill-reducing ordering from the
 QDLDL initialisation

---
 algebra/_common/lin_sys/qdldl/qdldl_interface.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/algebra/_common/lin_sys/qdldl/qdldl_interface.c b/algebra/_common/lin_sys/qdldl/qdldl_interface.c
index 6ec74e9..5bee641 100644
--- a/algebra/_common/lin_sys/qdldl/qdldl_interface.c
+++ b/algebra/_common/lin_sys/qdldl/qdldl_interface.c
@@ -320,8 +320,10 @@ OSQPInt init_linsys_solver_qdldl(qdldl_solver**      sp,
                             OSQP_NULL, OSQP_NULL, OSQP_NULL);
 
         // Permute matrix
-        if (KKT_temp)
-            permute_KKT(&KKT_temp, s, OSQP_NULL, OSQP_NULL, OSQP_NULL, OSQP_NULL, OSQP_NULL, OSQP_NULL);
+        if (KKT_temp && permute_KKT(&KKT_temp, s, OSQP_NULL, OSQP_NULL, OSQP_NULL, OSQP_NULL, OSQP_NULL, OSQP_NULL)) {
+            csc_spfree(KKT_temp);
+            KKT_temp = OSQP_NULL;
+        }
     }
     else { // Called from ADMM algorithm
 
@@ -347,8 +349,9 @@ OSQPInt init_linsys_solver_qdldl(qdldl_solver**      sp,
                             s->PtoKKT, s->AtoKKT,s->rhotoKKT);
 
         // Permute matrix
-        if (KKT_temp){
-            permute_KKT(&KKT_temp, s, P->csc->p[n], A->csc->p[n], m, s->PtoKKT, s->AtoKKT, s->rhotoKKT);
+        if (KKT_temp && permute_KKT(&KKT_temp, s, P->csc->p[n], A->csc->p[n], m, s->PtoKKT, s->AtoKKT, s->rhotoKKT)) {
+            csc_spfree(KKT_temp);
+            KKT_temp = OSQP_NULL;
         }
     }
 
-- 
2.43.0


From 6bde7bffa05d83b8178e9f30dac3725a9d9ca956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:18 +0000
Subject: [PATCH 21/32] fix: leave the linear-system solve profiler section
 when PARDISO fails

---
 algebra/mkl/lin_sys/direct/pardiso_interface.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/algebra/mkl/lin_sys/direct/pardiso_interface.c b/algebra/mkl/lin_sys/direct/pardiso_interface.c
index c0259b1..8988198 100644
--- a/algebra/mkl/lin_sys/direct/pardiso_interface.c
+++ b/algebra/mkl/lin_sys/direct/pardiso_interface.c
@@ -294,6 +294,7 @@ OSQPInt solve_linsys_pardiso(pardiso_solver* s,
 
   if ( s->error != 0 ){
     c_eprint("Error during linear system solution: %d", (int)s->error);
+    osqp_profiler_sec_pop(OSQP_PROFILER_SEC_LINSYS_SOLVE);
     return 1;
   }
 
-- 
2.43.0


From decb699482be7824023fced6164641e73f136302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:03 +0000
Subject: [PATCH 22/32] fix: report failed allocations in the QDLDL backend,
 the derivative data and the CSC helpers

---
 .../_common/lin_sys/qdldl/qdldl_interface.c   | 44 +++++++++++++++++--
 src/osqp_api.c                                | 25 +++++++++--
 2 files changed, 62 insertions(+), 7 deletions(-)

diff --git a/algebra/_common/lin_sys/qdldl/qdldl_interface.c b/algebra/_common/lin_sys/qdldl/qdldl_interface.c
index 5bee641..0802526 100644
--- a/algebra/_common/lin_sys/qdldl/qdldl_interface.c
+++ b/algebra/_common/lin_sys/qdldl/qdldl_interface.c
@@ -80,7 +80,7 @@ void free_linsys_solver_qdldl(qdldl_solver* s) {
  * @param  A    Matrix to be factorized
  * @param  p    Private workspace
  * @param  nvar Number of QP variables
- * @return      exitstatus (0 is good)
+ * @return      exitstatus (0 is good, negative for a failed factorization)
  */
 static OSQPInt LDL_factor(OSQPCscMatrix* A,
                           qdldl_solver*  p,
@@ -111,6 +111,9 @@ static OSQPInt LDL_factor(OSQPCscMatrix* A,
     p->L->x = (OSQPFloat *)c_malloc(sizeof(OSQPFloat)*sum_Lnz);
     p->L->nzmax = sum_Lnz;
 
+    // Zero-length arrays are allowed to be NULL
+    if (sum_Lnz > 0 && (!p->L->i || !p->L->x)) return OSQP_MEM_ALLOC_ERROR;
+
     // Factor matrix
     osqp_profiler_sec_push(OSQP_PROFILER_SEC_LINSYS_NUM_FAC);
     factor_status = QDLDL_factor(A->n, A->p, A->i, A->x,
@@ -151,6 +154,7 @@ static OSQPInt permute_KKT(OSQPCscMatrix** KKT,
     OSQPCscMatrix* KKT_temp;
 
     info = (OSQPFloat *)c_malloc(AMD_INFO * sizeof(OSQPFloat));
+    if (!info) return OSQP_MEM_ALLOC_ERROR;
 
     // Compute permutation matrix P using AMD
 #ifdef OSQP_USE_LONG
@@ -167,6 +171,10 @@ static OSQPInt permute_KKT(OSQPCscMatrix** KKT,
 
     // Inverse of the permutation vector
     Pinv = csc_pinv(p->P, (*KKT)->n);
+    if (!Pinv) {
+        c_free(info);
+        return OSQP_MEM_ALLOC_ERROR;
+    }
 
     // Permute KKT matrix
     if (!PtoKKT && !AtoKKT && !rhotoKKT){  // No vectors to be stored
@@ -176,6 +184,11 @@ static OSQPInt permute_KKT(OSQPCscMatrix** KKT,
     else {
         // Allocate vector of mappings from unpermuted to permuted
         KtoPKPt = c_malloc((*KKT)->p[(*KKT)->n] * sizeof(OSQPInt));
+        if (!KtoPKPt) {
+            c_free(Pinv);
+            c_free(info);
+            return OSQP_MEM_ALLOC_ERROR;
+        }
         KKT_temp = csc_symperm((*KKT), Pinv, KtoPKPt, 1);
 
         // Update vectors PtoKKT, AtoKKT and rhotoKKT
@@ -225,6 +238,7 @@ OSQPInt init_linsys_solver_qdldl(qdldl_solver**      sp,
     OSQPInt    i;         // Loop counter
     OSQPInt    m, n;      // Dimensions of A
     OSQPInt    n_plus_m;  // Define n_plus_m dimension
+    OSQPInt    status;    // Factorization status
     OSQPFloat* rhov;      // used for direct access to rho_vec data when polishing=false
     OSQPFloat  sigma = polishing ? settings->delta : settings->sigma;
 
@@ -232,6 +246,8 @@ OSQPInt init_linsys_solver_qdldl(qdldl_solver**      sp,
     qdldl_solver* s = c_calloc(1, sizeof(qdldl_solver));
     *sp = s;
 
+    if (!s) return OSQP_MEM_ALLOC_ERROR;
+
     // Size of KKT
     n = P->csc->n;
     m = A->csc->m;
@@ -274,6 +290,11 @@ OSQPInt init_linsys_solver_qdldl(qdldl_solver**      sp,
     //      L will be allocated during the factorization depending on the
     //      resulting number of elements.
     s->L = c_calloc(1, sizeof(OSQPCscMatrix));
+    if (!s->L) {
+        free_linsys_solver_qdldl(s);
+        *sp = OSQP_NULL;
+        return OSQP_MEM_ALLOC_ERROR;
+    }
     s->L->m  = n_plus_m;
     s->L->n  = n_plus_m;
     s->L->nz = -1;
@@ -311,6 +332,15 @@ OSQPInt init_linsys_solver_qdldl(qdldl_solver**      sp,
     s->bwork = (QDLDL_bool *)c_malloc(sizeof(QDLDL_bool)*n_plus_m);
     s->fwork = (QDLDL_float *)c_malloc(sizeof(QDLDL_float)*n_plus_m);
 
+    // Zero-length vectors are allowed to be NULL
+    if (!s->L->p || !s->Dinv || !s->D || !s->P || !s->bp || !s->sol ||
+        !s->etree || !s->Lnz || !s->iwork || !s->bwork || !s->fwork ||
+        (rho_vec && m && !s->rho_inv_vec)) {
+        free_linsys_solver_qdldl(s);
+        *sp = OSQP_NULL;
+        return OSQP_MEM_ALLOC_ERROR;
+    }
+
     // Form and permute KKT matrix
     if (polishing){ // Called from polish()
 
@@ -332,6 +362,13 @@ OSQPInt init_linsys_solver_qdldl(qdldl_solver**      sp,
         s->AtoKKT = c_malloc(A->csc->p[n] * sizeof(OSQPInt));
         s->rhotoKKT = c_malloc(m * sizeof(OSQPInt));
 
+        if ((P->csc->p[n] && !s->PtoKKT) || (A->csc->p[n] && !s->AtoKKT) ||
+            (m && !s->rhotoKKT)) {
+            free_linsys_solver_qdldl(s);
+            *sp = OSQP_NULL;
+            return OSQP_MEM_ALLOC_ERROR;
+        }
+
         // Use p->rho_inv_vec for storing param2 = rho_inv_vec
         if (rho_vec) {
           rhov = rho_vec->values;
@@ -364,11 +401,12 @@ OSQPInt init_linsys_solver_qdldl(qdldl_solver**      sp,
     }
 
     // Factorize the KKT matrix
-    if (LDL_factor(KKT_temp, s, n) < 0) {
+    status = LDL_factor(KKT_temp, s, n);
+    if (status) {
         csc_spfree(KKT_temp);
         free_linsys_solver_qdldl(s);
         *sp = OSQP_NULL;
-        return OSQP_NONCVX_ERROR;
+        return status < 0 ? OSQP_NONCVX_ERROR : OSQP_MEM_ALLOC_ERROR;
     }
 
     if (polishing){ // If KKT passed, assign it to KKT_temp
diff --git a/src/osqp_api.c b/src/osqp_api.c
index 90fb76b..381becd 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -67,6 +67,14 @@ OSQPCscMatrix* OSQPCscMatrix_diag_scalar(OSQPInt   m,
   mat->nz = -1;
   mat->p  = (OSQPInt*) c_calloc(n + 1, sizeof(OSQPInt));
 
+  // We own the arrays
+  mat->owned = 1;
+
+  if (!mat->p) {
+    OSQPCscMatrix_free(mat);
+    return OSQP_NULL;
+  }
+
   if( m < n) {
     // Fewer rows than columns
     for(i=0; i < n; i++) {
@@ -87,6 +95,12 @@ OSQPCscMatrix* OSQPCscMatrix_diag_scalar(OSQPInt   m,
   mat->i     = (OSQPInt*) c_malloc(min_elem * sizeof(OSQPInt));
   mat->x     = (OSQPFloat*) c_malloc(min_elem * sizeof(OSQPFloat));
 
+  // Zero-length arrays are allowed to be NULL
+  if (min_elem > 0 && (!mat->i || !mat->x)) {
+    OSQPCscMatrix_free(mat);
+    return OSQP_NULL;
+  }
+
   for(i=0; i < min_elem; i++) {
     mat->i[i] = i;
     mat->x[i] = scalar;
@@ -95,9 +109,6 @@ OSQPCscMatrix* OSQPCscMatrix_diag_scalar(OSQPInt   m,
   // Last element of column vector is always the number of entries
   mat->p[n] = min_elem;
 
-  // We own the arrays
-  mat->owned = 1;
-
   return mat;
 }
 
@@ -140,6 +151,11 @@ OSQPCscMatrix* OSQPCscMatrix_zeros(OSQPInt    m,
   // We own the arrays
   mat->owned = 1;
 
+  if (!mat->p) {
+    OSQPCscMatrix_free(mat);
+    return OSQP_NULL;
+  }
+
   return mat;
 }
 
@@ -651,7 +667,8 @@ static OSQPInt setup_solver(OSQPSolver**         solverp,
   work->derivative_data->ryu = OSQPVectorf_malloc(m);
   work->derivative_data->rhs = OSQPVectorf_malloc(2 * (n + 2*m));
   if (!(work->derivative_data->y_u) || !(work->derivative_data->y_l) ||
-    !(work->derivative_data->ryl) || !(work->derivative_data->ryu))
+    !(work->derivative_data->ryl) || !(work->derivative_data->ryu) ||
+    !(work->derivative_data->rhs))
     return osqp_error(OSQP_MEM_ALLOC_ERROR);
 # endif /* ifdef OSQP_ENABLE_DERIVATIVES */
 
-- 
2.43.0


From 7b763c42d7f83ac0e364c243ae3b4c7836c68e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:56 +0000
Subject: [PATCH 23/32] fix: report failed allocations in vstack and the
 derivative getters

---
 algebra/_common/csc_utils.c | 2 +-
 src/derivative.c            | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/algebra/_common/csc_utils.c b/algebra/_common/csc_utils.c
index 478ce92..eca9607 100644
--- a/algebra/_common/csc_utils.c
+++ b/algebra/_common/csc_utils.c
@@ -622,7 +622,7 @@ OSQPCscMatrix* vstack(OSQPCscMatrix* A, OSQPCscMatrix* B) {
 
     // Convert triplet matrix to csc format
     M = triplet_to_csc(M_trip, OSQP_NULL);
-    M->nzmax = z_M;
+    if (M) M->nzmax = z_M;
 
     csc_spfree(M_trip);
     return M;
diff --git a/src/derivative.c b/src/derivative.c
index 095479a..f655cb2 100644
--- a/src/derivative.c
+++ b/src/derivative.c
@@ -39,6 +39,7 @@ OSQPInt adjoint_derivative_get_mat(OSQPSolver *solver,
     OSQPInt n = solver->work->data->n;
     OSQPDerivativeData *derivative_data = solver->work->derivative_data;
     OSQPVectorf* x = OSQPVectorf_new(solver->solution->x, n);  // unscaled solution
+    if (!x) return osqp_error(OSQP_MEM_ALLOC_ERROR);
     OSQPFloat* x_data = OSQPVectorf_data(x);
 
     OSQPFloat* y_u_data = OSQPVectorf_data(derivative_data->y_u);
@@ -48,6 +49,10 @@ OSQPInt adjoint_derivative_get_mat(OSQPSolver *solver,
 
     OSQPInt pos = n + derivative_data->n_ineq_l + derivative_data->n_ineq_u + derivative_data->n_eq;
     OSQPVectorf* rx = OSQPVectorf_view(derivative_data->rhs, pos, n);
+    if (!rx) {
+        OSQPVectorf_free(x);
+        return osqp_error(OSQP_MEM_ALLOC_ERROR);
+    }
     OSQPFloat* rx_data  = OSQPVectorf_data(rx);
 
     OSQPInt col;
@@ -85,6 +90,7 @@ OSQPInt adjoint_derivative_get_vec(OSQPSolver *solver,
 
     OSQPInt pos = n + derivative_data->n_ineq_l + derivative_data->n_ineq_u + derivative_data->n_eq;
     OSQPVectorf* rx = OSQPVectorf_view(derivative_data->rhs, pos, n);
+    if (!rx) return osqp_error(OSQP_MEM_ALLOC_ERROR);
 
     // Assign vector derivatives to function arguments
     OSQPVectorf_to_raw(dq, rx);
-- 
2.43.0


From a86ed2b772bae61b6bc287e900779f8f041c3a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:58 +0000
Subject: [PATCH 24/32] fix: a residual that was already tiny must remain so in
 an accepted polished solution

---
 src/polish.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/polish.c b/src/polish.c
index a80052b..7e3949c 100644
--- a/src/polish.c
+++ b/src/polish.c
@@ -450,19 +450,18 @@ OSQPInt polish(OSQPSolver* solver) {
   update_info(solver, 0, 1);
 
   // Check if polish was successful
+  // NB: a residual that was already tiny must remain so in the polished solution
   polish_successful = (work->pol->prim_res < info->prim_res &&
                        work->pol->dual_res < info->dual_res) || // Residuals
                                                                     // are
                                                                     // reduced
                       (work->pol->prim_res < info->prim_res &&
-                       info->dual_res < 1e-10) ||              // Dual
+                       work->pol->dual_res < 1e-10) ||         // Dual
                                                                     // residual
-                                                                    // already
                                                                     // tiny
                       (work->pol->dual_res < info->dual_res &&
-                       info->prim_res < 1e-10);                // Primal
+                       work->pol->prim_res < 1e-10);           // Primal
                                                                     // residual
-                                                                    // already
                                                                     // tiny
 
   if (polish_successful) {
-- 
2.43.0


From 9c7f930da06025a0fc7f94753a8abc04a5219d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:11 +0000
Subject: [PATCH 25/32] fix: the primal-dual integral of a solve does not
 include earlier solves

---
 src/osqp_api.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index 381becd..ccf220e 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -716,6 +716,7 @@ OSQPInt osqp_solve(OSQPSolver *solver) {
 
   // The outcome of a previous solve says nothing about this one
   update_status(solver->info, OSQP_UNSOLVED);
+  solver->info->primdual_int = 0.0;
 #ifndef OSQP_EMBEDDED_MODE
   solver->info->status_polish = OSQP_POLISH_NOT_PERFORMED;
 # ifdef OSQP_ENABLE_PROFILING
-- 
2.43.0


From ba9fcbc144ffc72bab8532b9efaf0f420510b69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:25 +0000
Subject: [PATCH 26/32] fix: an osqp_solve that ends with an error is over for
 the update timers

---
 src/osqp_api.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index ccf220e..f619763 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -1074,8 +1074,6 @@ osqp_profiler_sec_push(OSQP_PROFILER_SEC_OPT_SOLVE);
   // Indicate that the update_time should be set to zero
   work->clear_update_time = 1;
 
-  // Indicate that osqp_update_rho is not called from osqp_solve
-  work->rho_update_from_solve = 0;
 #endif /* ifdef OSQP_ENABLE_PROFILING */
 
 #ifdef OSQP_ENABLE_PRINTING
@@ -1091,6 +1089,11 @@ osqp_profiler_sec_push(OSQP_PROFILER_SEC_OPT_SOLVE);
 exit:
 #endif /* if defined(OSQP_ENABLE_PROFILING) || defined(OSQP_ENABLE_INTERRUPT) || OSQP_EMBEDDED_MODE != 1 */
 
+#ifdef OSQP_ENABLE_PROFILING
+  // Indicate that osqp_update_rho is not called from osqp_solve
+  work->rho_update_from_solve = 0;
+#endif /* ifdef OSQP_ENABLE_PROFILING */
+
 #ifdef OSQP_ENABLE_INTERRUPT
   // Restore previous signal handler
   osqp_end_interrupt_listener();
-- 
2.43.0


From cd90d284175c0f2341dca6e3e1863d40dd61e1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:19 +0000
Subject: [PATCH 27/32] fix: return the ADMM solution when polishing fails

A failed allocation or factorisation during polishing left osqp_solve before
the solution was stored and the run time computed, so that the solved status
came with the solution of an earlier solve.
---
 src/osqp_api.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index f619763..a67cc06 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -1047,9 +1047,9 @@ osqp_profiler_sec_push(OSQP_PROFILER_SEC_OPT_SOLVE);
     exitflag = polish(solver);
     osqp_profiler_sec_pop(OSQP_PROFILER_SEC_POLISH);
 
+    // The ADMM solution is still returned if polishing fails
     if (exitflag > 0) {
       c_eprint("Failed polishing");
-      goto exit;
     }
   }
 #endif /* ifndef OSQP_EMBEDDED_MODE */
-- 
2.43.0


From 1b672212d7025bac05f1a1121fb0e6308ee8923c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:07 +0000
Subject: [PATCH 28/32] fix: osqp_setup rejects missing bound vectors instead
 of reading through NULL

---
 src/auxil.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/auxil.c b/src/auxil.c
index 10fc0d5..0eff3ea 100644
--- a/src/auxil.c
+++ b/src/auxil.c
@@ -988,6 +988,11 @@ OSQPInt validate_data(const OSQPCscMatrix* P,
     return 1;
   }
 
+  if ((m > 0) && (!l || !u)) {
+    c_eprint("Missing constraint bounds");
+    return 1;
+  }
+
   // Matrix P
   if (P->m != n) {
     c_eprint("P does not have dimension n x n with n = %i", (int)n);
-- 
2.43.0


From 1affd5c231091a5918467c11675137fe16decd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:13 +0000
Subject: [PATCH 29/32] fix: osqp_codegen rejects names that do not fit its
 buffers

---
 src/codegen.c | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/codegen.c b/src/codegen.c
index a444641..6ea56fc 100644
--- a/src/codegen.c
+++ b/src/codegen.c
@@ -1,5 +1,6 @@
 #include <stdio.h>
 #include <ctype.h>  /* -> toupper */
+#include <string.h> /* strlen */
 #include <time.h>   /* time, ctime */
 
 #include "error.h"
@@ -649,6 +650,20 @@ static OSQPInt write_solver(FILE*             f,
 * Codegen API
 **************/
 
+/* The file and variable names made from these strings must fit in the buffers used to build them */
+static OSQPInt check_names(const char* output_dir,
+                           const char* file_prefix) {
+
+  size_t prefix_len = strlen(file_prefix);
+  size_t dir_len    = strlen(output_dir);
+
+  if (prefix_len > FILE_LENGTH - sizeof("workspace") ||
+      dir_len    > PATH_LENGTH - FILE_LENGTH - sizeof(".h"))
+    return osqp_error(OSQP_FOPEN_ERROR);
+
+  return OSQP_NO_ERROR;
+}
+
 OSQPInt codegen_inc(const char* output_dir,
                     const char* file_prefix) {
 
@@ -657,6 +672,9 @@ OSQPInt codegen_inc(const char* output_dir,
   time_t now;
   OSQPInt i = 0;
 
+  OSQPInt exitflag = check_names(output_dir, file_prefix);
+  if (exitflag) return exitflag;
+
   sprintf(fname,  "%sworkspace", file_prefix);
   sprintf(hfname, "%s%s.h", output_dir, fname);
 
@@ -716,6 +734,9 @@ OSQPInt codegen_src(const char* output_dir,
   FILE *srcFile;
   time_t now;
 
+  exitflag = check_names(output_dir, file_prefix);
+  if (exitflag) return exitflag;
+
   sprintf(fname,  "%s%sworkspace", output_dir, file_prefix);
   sprintf(cfname, "%s.c",        fname);
 
@@ -753,6 +774,9 @@ OSQPInt codegen_defines(const char*         output_dir,
   FILE *incFile;
   time_t now;
 
+  OSQPInt exitflag = check_names(output_dir, "");
+  if (exitflag) return exitflag;
+
   sprintf(cfname,  "%sosqp_configure.h", output_dir);
 
   /* Open source file */
@@ -820,6 +844,9 @@ OSQPInt codegen_example(const char* output_dir,
   FILE *srcFile;
   time_t now;
 
+  OSQPInt exitflag = check_names(output_dir, file_prefix);
+  if (exitflag) return exitflag;
+
   sprintf(cfname, "%semosqp.c", output_dir);
 
   /* Open source file */
-- 
2.43.0


From fd7c0f4b2b0ba971c27b8f4b13fdaa1cb25e4593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:13 +0000
Subject: [PATCH 30/32] fix: osqp_codegen reports failures to write its files

---
 src/codegen.c | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/codegen.c b/src/codegen.c
index 6ea56fc..d70b88d 100644
--- a/src/codegen.c
+++ b/src/codegen.c
@@ -664,6 +664,18 @@ static OSQPInt check_names(const char* output_dir,
   return OSQP_NO_ERROR;
 }
 
+/* Close a file, reporting if anything written to it did not reach it */
+static OSQPInt close_file(FILE* f) {
+
+  int write_error = ferror(f);
+
+  if (fclose(f) || write_error)
+    return osqp_error(OSQP_FOPEN_ERROR);
+
+  return OSQP_NO_ERROR;
+}
+
+
 OSQPInt codegen_inc(const char* output_dir,
                     const char* file_prefix) {
 
@@ -718,9 +730,7 @@ OSQPInt codegen_inc(const char* output_dir,
   fprintf(incFile, "#endif /* ifndef %s */\n", incGuard);
 
   /* Close header file */
-  fclose(incFile);
-
-  return 0;
+  return close_file(incFile);
 }
 
 
@@ -762,7 +772,8 @@ OSQPInt codegen_src(const char* output_dir,
   exitflag = write_solver(srcFile, solver, file_prefix, embedded);
 
   /* Close header file */
-  fclose(srcFile);
+  if (!exitflag) exitflag = close_file(srcFile);
+  else           fclose(srcFile);
 
   return exitflag;
 }
@@ -831,9 +842,7 @@ OSQPInt codegen_defines(const char*         output_dir,
   fprintf(incFile, "#endif /* ifndef OSQP_CONFIGURE_H */\n");
 
   /* Close header file */
-  fclose(incFile);
-
-  return OSQP_NO_ERROR;
+  return close_file(incFile);
 }
 
 
@@ -882,7 +891,5 @@ OSQPInt codegen_example(const char* output_dir,
   fprintf(srcFile, "}\n");
 
   /* Close header file */
-  fclose(srcFile);
-
-  return OSQP_NO_ERROR;
+  return close_file(srcFile);
 }
-- 
2.43.0


From 10e0d5edaea5c4e5f64aefb304f74a9ac515a66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:13 +0000
Subject: [PATCH 31/32] fix: generated code keeps the precision of small
 numbers

---
 src/codegen.c | 50 +++++++++++++++++++++++++-------------------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/src/codegen.c b/src/codegen.c
index d70b88d..0cf21d9 100644
--- a/src/codegen.c
+++ b/src/codegen.c
@@ -41,7 +41,7 @@ static OSQPInt write_vecf(FILE*            f,
   if (n && vecf) {
     fprintf(f, "OSQPFloat %s[%" OSQP_INT_FMT "] = {\n", name, n);
     for (i = 0; i < n; i++) {
-      fprintf(f, "  (OSQPFloat)%.20f,\n", vecf[i]);
+      fprintf(f, "  (OSQPFloat)%.20e,\n", vecf[i]);
     }
     fprintf(f, "};\n");
   }
@@ -178,29 +178,29 @@ static OSQPInt write_settings(FILE*               f,
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->warm_starting);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->scaling);
   fprintf(f, "  0,\n"); // polishing
-  fprintf(f, "  (OSQPFloat)%.20f,\n", settings->rho);
+  fprintf(f, "  (OSQPFloat)%.20e,\n", settings->rho);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->rho_is_vec);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", settings->sigma);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", settings->alpha);
+  fprintf(f, "  (OSQPFloat)%.20e,\n", settings->sigma);
+  fprintf(f, "  (OSQPFloat)%.20e,\n", settings->alpha);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->cg_max_iter);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->cg_tol_reduction);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", settings->cg_tol_fraction);
+  fprintf(f, "  (OSQPFloat)%.20e,\n", settings->cg_tol_fraction);
   fprintf(f, "  %u,\n", settings->cg_precond);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->adaptive_rho);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->adaptive_rho_interval);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", settings->adaptive_rho_fraction);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", settings->adaptive_rho_tolerance);
+  fprintf(f, "  (OSQPFloat)%.20e,\n", settings->adaptive_rho_fraction);
+  fprintf(f, "  (OSQPFloat)%.20e,\n", settings->adaptive_rho_tolerance);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->max_iter);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", settings->eps_abs);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", settings->eps_rel);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", settings->eps_prim_inf);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", settings->eps_dual_inf);
+  fprintf(f, "  (OSQPFloat)%.20e,\n", settings->eps_abs);
+  fprintf(f, "  (OSQPFloat)%.20e,\n", settings->eps_rel);
+  fprintf(f, "  (OSQPFloat)%.20e,\n", settings->eps_prim_inf);
+  fprintf(f, "  (OSQPFloat)%.20e,\n", settings->eps_dual_inf);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->scaled_termination);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->check_termination);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->check_dualgap);
 
-  fprintf(f, "  (OSQPFloat)%.20f,\n", settings->time_limit);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", settings->delta);
+  fprintf(f, "  (OSQPFloat)%.20e,\n", settings->time_limit);
+  fprintf(f, "  (OSQPFloat)%.20e,\n", settings->delta);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->polish_refine_iter);
   fprintf(f, "};\n\n");
 
@@ -223,14 +223,14 @@ static OSQPInt write_info(FILE*           f,
   fprintf(f, "  \"%s\",\n", OSQP_STATUS_MESSAGE[OSQP_UNSOLVED]);
   fprintf(f, "  %d,\n", OSQP_UNSOLVED);
   fprintf(f, "  0,\n"); // status_polish
-  fprintf(f, "  (OSQPFloat)%.20f,\n", OSQP_INFTY); // obj_val
-  fprintf(f, "  (OSQPFloat)%.20f,\n", OSQP_INFTY); // dual_obj_val
-  fprintf(f, "  (OSQPFloat)%.20f,\n", OSQP_INFTY); // prim_res
-  fprintf(f, "  (OSQPFloat)%.20f,\n", OSQP_INFTY); // dual_res
-  fprintf(f, "  (OSQPFloat)%.20f,\n", OSQP_INFTY); // duality_gap
+  fprintf(f, "  (OSQPFloat)%.20e,\n", OSQP_INFTY); // obj_val
+  fprintf(f, "  (OSQPFloat)%.20e,\n", OSQP_INFTY); // dual_obj_val
+  fprintf(f, "  (OSQPFloat)%.20e,\n", OSQP_INFTY); // prim_res
+  fprintf(f, "  (OSQPFloat)%.20e,\n", OSQP_INFTY); // dual_res
+  fprintf(f, "  (OSQPFloat)%.20e,\n", OSQP_INFTY); // duality_gap
   fprintf(f, "  0,\n"); // iter (iteration count)
   fprintf(f, "  0,\n"); // rho_updates
-  fprintf(f, "  (OSQPFloat)%.20f,\n", info->rho_estimate);
+  fprintf(f, "  (OSQPFloat)%.20e,\n", info->rho_estimate);
   fprintf(f, "  (OSQPFloat)0.0,\n"); // setup_time
   fprintf(f, "  (OSQPFloat)0.0,\n"); // solve_time
   fprintf(f, "  (OSQPFloat)0.0,\n"); // update_time
@@ -296,10 +296,10 @@ static OSQPInt write_scaling(FILE*              f,
   sprintf(name, "%sscaling_Einv", prefix);
   GENERATE_ERROR(write_OSQPVectorf(f, scaling->Einv, name))
   fprintf(f, "OSQPScaling %sscaling = {\n", prefix);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", scaling->c);
+  fprintf(f, "  (OSQPFloat)%.20e,\n", scaling->c);
   fprintf(f, "  &%sscaling_D,\n", prefix);
   fprintf(f, "  &%sscaling_E,\n", prefix);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", scaling->cinv);
+  fprintf(f, "  (OSQPFloat)%.20e,\n", scaling->cinv);
   fprintf(f, "  &%sscaling_Dinv,\n", prefix);
   fprintf(f, "  &%sscaling_Einv\n", prefix);
   fprintf(f, "};\n\n");
@@ -423,8 +423,8 @@ static OSQPInt write_linsys(FILE*               f,
     fprintf(f, "  OSQP_NULL,\n");
   }
 
-  fprintf(f, "  (OSQPFloat)%.20f,\n", linsys->sigma);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", linsys->rho_inv);
+  fprintf(f, "  (OSQPFloat)%.20e,\n", linsys->sigma);
+  fprintf(f, "  (OSQPFloat)%.20e,\n", linsys->rho_inv);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", n);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", m);
   if (embedded > 1) {
@@ -602,10 +602,10 @@ static OSQPInt write_workspace(FILE*             f,
   }
   fprintf(f, "  (OSQPFloat)0.0,\n"); // scaled_prim_res
   fprintf(f, "  (OSQPFloat)0.0,\n"); // scaled_dual_res
-  fprintf(f, "  (OSQPFloat)%.20f,\n", work->rho_inv);
+  fprintf(f, "  (OSQPFloat)%.20e,\n", work->rho_inv);
 
   fprintf(f, "  %" OSQP_INT_FMT ",\n", work->rho_updated);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", work->last_rel_kkt);
+  fprintf(f, "  (OSQPFloat)%.20e,\n", work->last_rel_kkt);
 
   fprintf(f, "};\n\n");
 
-- 
2.43.0


From 4bcdaca0df9defe9431d4b86d097a27a63e1f95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:13 +0000
Subject: [PATCH 32/32] fix: generated workspace keeps rho_updated and
 last_rel_kkt when options add members

---
 src/codegen.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/codegen.c b/src/codegen.c
index 0cf21d9..6672c8a 100644
--- a/src/codegen.c
+++ b/src/codegen.c
@@ -604,8 +604,9 @@ static OSQPInt write_workspace(FILE*             f,
   fprintf(f, "  (OSQPFloat)0.0,\n"); // scaled_dual_res
   fprintf(f, "  (OSQPFloat)%.20e,\n", work->rho_inv);
 
-  fprintf(f, "  %" OSQP_INT_FMT ",\n", work->rho_updated);
-  fprintf(f, "  (OSQPFloat)%.20e,\n", work->last_rel_kkt);
+  /* The members in between depend on the options the generated code is compiled with */
+  fprintf(f, "  .rho_updated = %" OSQP_INT_FMT ",\n", work->rho_updated);
+  fprintf(f, "  .last_rel_kkt = (OSQPFloat)%.20e,\n", work->last_rel_kkt);
 
   fprintf(f, "};\n\n");
 
-- 
2.43.0

