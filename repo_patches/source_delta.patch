From c9a070716895a73f3631bb93b01f3adc412f5055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:26 +0000
Subject: [PATCH 01/48] fix: report failed memory allocations instead of
 dereferencing null

Route the remaining direct malloc/calloc calls through bml_allocate_memory
and bml_noinit_allocate_memory, which stop with a logged error, and check
the return value of posix_memalign.
---
 src/C-interface/bml_allocate.c                |  16 +-
 src/C-interface/bml_parallel.c                |   9 +-
 src/C-interface/csr/bml_getters_csr_typed.c   |   6 +-
 src/C-interface/csr/bml_normalize_csr_typed.c |   2 +-
 src/C-interface/csr/bml_transpose_csr_typed.c |   5 +-
 src/C-interface/dense/bml_diagonalize_dense.c | 186 +++++++++---------
 .../dense/bml_normalize_dense_typed.c         |   2 +-
 .../bml_diagonalize_distributed2d_typed.c     |   6 +-
 .../bml_getters_distributed2d_typed.c         |  12 +-
 .../ellblock/bml_add_ellblock_typed.c         |   9 +-
 .../ellblock/bml_allocate_ellblock.c          |   2 +-
 .../ellblock/bml_convert_ellblock_typed.c     |   9 +-
 .../ellblock/bml_export_ellblock_typed.c      |   4 +-
 .../ellblock/bml_getters_ellblock_typed.c     |   9 +-
 .../ellblock/bml_import_ellblock_typed.c      |   9 +-
 .../ellblock/bml_multiply_ellblock_typed.c    |   7 +-
 .../ellblock/bml_norm_ellblock_typed.c        |  13 +-
 .../ellblock/bml_normalize_ellblock_typed.c   |  10 +-
 .../ellblock/bml_utilities_ellblock_typed.c   |   5 +-
 .../ellpack/bml_getters_ellpack_typed.c       |   5 +-
 .../ellpack/bml_normalize_ellpack_typed.c     |   2 +-
 .../ellpack/bml_submatrix_ellpack.c           |   3 +-
 .../ellpack/bml_transpose_ellpack_typed.c     |   2 +-
 23 files changed, 179 insertions(+), 154 deletions(-)

diff --git a/src/C-interface/bml_allocate.c b/src/C-interface/bml_allocate.c
index 7372cbc..e0802a7 100644
--- a/src/C-interface/bml_allocate.c
+++ b/src/C-interface/bml_allocate.c
@@ -54,8 +54,11 @@ bml_allocate_memory(
         ptr[i] = 0;
     }
 #elif defined(BML_USE_POSIX_MEMALIGN)
-    char *ptr;
-    posix_memalign((void **) &ptr, MALLOC_ALIGNMENT, size);
+    char *ptr = NULL;
+    if (posix_memalign((void **) &ptr, MALLOC_ALIGNMENT, size) != 0)
+    {
+        LOG_ERROR("error allocating memory of size %zu\n", size);
+    }
 #pragma omp simd
     for (size_t i = 0; i < size; i++)
     {
@@ -67,7 +70,7 @@ bml_allocate_memory(
 
     if (ptr == NULL)
     {
-        LOG_ERROR("error allocating memory of size %d: %s\n", size,
+        LOG_ERROR("error allocating memory of size %zu: %s\n", size,
                   strerror(errno));
     }
     return (void *) ptr;
@@ -87,8 +90,11 @@ bml_noinit_allocate_memory(
 #if defined(INTEL_OPT)
     void *ptr = _mm_malloc(size, MALLOC_ALIGNMENT);
 #elif defined(BML_USE_POSIX_MEMALIGN)
-    void *ptr;
-    posix_memalign(&ptr, MALLOC_ALIGNMENT, size);
+    void *ptr = NULL;
+    if (posix_memalign(&ptr, MALLOC_ALIGNMENT, size) != 0)
+    {
+        LOG_ERROR("error allocating memory of size %zu\n", size);
+    }
 #else
     void *ptr = malloc(size);
 #endif
diff --git a/src/C-interface/bml_parallel.c b/src/C-interface/bml_parallel.c
index 5ddab25..be4acf8 100644
--- a/src/C-interface/bml_parallel.c
+++ b/src/C-interface/bml_parallel.c
@@ -1,3 +1,4 @@
+#include "bml_allocate.h"
 #include "bml_parallel.h"
 #include "bml_introspection.h"
 #include "bml_logger.h"
@@ -82,8 +83,8 @@ bml_initParallel(
 
     bml_setcomm_distributed2d(comm);
 
-    requestList = (MPI_Request *) malloc(nRanks * sizeof(MPI_Request));
-    rUsed = (int *) malloc(nRanks * sizeof(int));
+    requestList = bml_noinit_allocate_memory(nRanks * sizeof(MPI_Request));
+    rUsed = bml_noinit_allocate_memory(nRanks * sizeof(int));
     for (int i = 0; i < nRanks; i++)
     {
         rUsed[i] = 0;
@@ -113,8 +114,8 @@ bml_shutdownParallel(
     void)
 {
 #ifdef BML_USE_MPI
-    free(requestList);
-    free(rUsed);
+    bml_free_memory(requestList);
+    bml_free_memory(rUsed);
 #endif
 }
 
diff --git a/src/C-interface/csr/bml_getters_csr_typed.c b/src/C-interface/csr/bml_getters_csr_typed.c
index fbec160..0bebd1e 100644
--- a/src/C-interface/csr/bml_getters_csr_typed.c
+++ b/src/C-interface/csr/bml_getters_csr_typed.c
@@ -128,8 +128,8 @@ void TYPED_FUNC(
     int *nnz)
 {
     int nz = TYPED_FUNC(csr_get_nnz) (A->data_[i]);
-    int *colids = malloc(nz * sizeof(int));
-    REAL_T *colvals = malloc(nz * sizeof(REAL_T));
+    int *colids = bml_noinit_allocate_memory(nz * sizeof(int));
+    REAL_T *colvals = bml_noinit_allocate_memory(nz * sizeof(REAL_T));
     memcpy(colids, (int *) TYPED_FUNC(csr_get_column_indexes) (A->data_[i]),
            nz * sizeof(int));
     memcpy(colvals,
@@ -184,7 +184,7 @@ void *TYPED_FUNC(
     bml_matrix_csr_t * A)
 {
     int A_N = A->N_;
-    REAL_T *diagonal = calloc(A_N, sizeof(REAL_T));
+    REAL_T *diagonal = bml_allocate_memory(A_N * sizeof(REAL_T));
 
     for (int i = 0; i < A_N; i++)
     {
diff --git a/src/C-interface/csr/bml_normalize_csr_typed.c b/src/C-interface/csr/bml_normalize_csr_typed.c
index 6db4d27..ba32ab6 100644
--- a/src/C-interface/csr/bml_normalize_csr_typed.c
+++ b/src/C-interface/csr/bml_normalize_csr_typed.c
@@ -50,7 +50,7 @@ void *TYPED_FUNC(
     int include_diag)
 {
     int N = A->N_;
-    REAL_T *offdiag_sum = calloc(N, sizeof(REAL_T));
+    REAL_T *offdiag_sum = bml_allocate_memory(N * sizeof(REAL_T));
 
     for (int i = 0; i < N; i++)
     {
diff --git a/src/C-interface/csr/bml_transpose_csr_typed.c b/src/C-interface/csr/bml_transpose_csr_typed.c
index b2f55f7..5b9e116 100644
--- a/src/C-interface/csr/bml_transpose_csr_typed.c
+++ b/src/C-interface/csr/bml_transpose_csr_typed.c
@@ -37,7 +37,8 @@ bml_matrix_csr_t *TYPED_FUNC(
 
 #ifdef _OPENMP
     omp_lock_t *row_lock =
-        (omp_lock_t *) malloc(sizeof(omp_lock_t) * matrix_dimension.N_rows);
+        bml_noinit_allocate_memory(sizeof(omp_lock_t) *
+                                   matrix_dimension.N_rows);
 
 #pragma omp parallel for
     for (int i = 0; i < matrix_dimension.N_rows; i++)
@@ -72,7 +73,7 @@ bml_matrix_csr_t *TYPED_FUNC(
         omp_destroy_lock(&row_lock[i]);
     }
 
-    free(row_lock);
+    bml_free_memory(row_lock);
 #endif
 
     return B;
diff --git a/src/C-interface/dense/bml_diagonalize_dense.c b/src/C-interface/dense/bml_diagonalize_dense.c
index ee5d480..1ee72c8 100644
--- a/src/C-interface/dense/bml_diagonalize_dense.c
+++ b/src/C-interface/dense/bml_diagonalize_dense.c
@@ -56,16 +56,16 @@ bml_diagonalize_dense_magma_single_real(
     magma_int_t ret = magma_smalloc(&evecs, A->N * A->ld);
     assert(ret == MAGMA_SUCCESS);
 
-    float *evals = malloc(A->N * sizeof(float));
+    float *evals = bml_noinit_allocate_memory(A->N * sizeof(float));
     int lwork = 2 * A->N + A->N * nb;
     int tmp = 1 + 6 * A->N + 2 * A->N * A->N;
     if (tmp > lwork)
         lwork = tmp;
-    float *work = malloc(lwork * sizeof(float));
+    float *work = bml_noinit_allocate_memory(lwork * sizeof(float));
     int liwork = 3 + 5 * A->N;
-    int *iwork = malloc(liwork * sizeof(int));
+    int *iwork = bml_noinit_allocate_memory(liwork * sizeof(int));
     int ldwa = A->ld;
-    float *wa = malloc(A->N * ldwa * sizeof(float));
+    float *wa = bml_noinit_allocate_memory(A->N * ldwa * sizeof(float));
 
     //copy matrix into evecs
     magmablas_slacpy(MagmaFull, A->N, A->N, A->matrix, A->ld, evecs, A->ld,
@@ -86,9 +86,9 @@ bml_diagonalize_dense_magma_single_real(
     magma_queue_sync(bml_queue());
 
     magma_free(evecs);
-    free(wa);
-    free(evals);
-    free(work);
+    bml_free_memory(wa);
+    bml_free_memory(evals);
+    bml_free_memory(work);
 }
 #endif
 
@@ -109,8 +109,8 @@ bml_diagonalize_dense_gpu_single_real(
     float *A_matrix = (float *) A->matrix;
     float *typed_eigenvalues = (float *) eigenvalues;
 
-    float *evecs = (float *) malloc(A->N * A->N * sizeof(float));
-    float *evals = (float *) malloc(A->N * sizeof(float));
+    float *evecs = bml_noinit_allocate_memory(A->N * A->N * sizeof(float));
+    float *evals = bml_noinit_allocate_memory(A->N * sizeof(float));
 
 #pragma omp target enter data map(alloc:evecs[0:N*N])
 #pragma omp target enter data map(alloc:evals[0:N])
@@ -162,9 +162,9 @@ bml_diagonalize_dense_gpu_single_real(
 #ifdef BML_SYEVD
     // Divide and conquer solver
     MKL_INT lwork = 1 + 6 * N + 2 * N * N;
-    float *work = (float *) malloc(lwork * sizeof(float));
+    float *work = bml_noinit_allocate_memory(lwork * sizeof(float));
     MKL_INT liwork = 3 + 5 * N;
-    MKL_INT *iwork = (MKL_INT *) malloc(liwork * sizeof(MKL_INT));
+    MKL_INT *iwork = bml_noinit_allocate_memory(liwork * sizeof(MKL_INT));
 #pragma omp target enter data map(alloc:work[0:lwork])
 #pragma omp target enter data map(alloc:iwork[0:liwork])
 
@@ -172,7 +172,7 @@ bml_diagonalize_dense_gpu_single_real(
     ssyevd("V", "U", &N, evecs, &N, evals, work, &lwork, iwork, &liwork,
            &info);
 #pragma omp target exit data map(release:iwork)
-    free(iwork);
+    bml_free_memory(iwork);
 #else
     MKL_INT lwork = 3 * N;
     float *work = (float *) mkl_malloc(lwork * sizeof(float), 64);
@@ -221,9 +221,9 @@ bml_diagonalize_dense_gpu_single_real(
 #pragma omp target exit data map(release:evecs)
 #pragma omp target exit data map(release:evals)
 #pragma omp target exit data map(release:work)
-    free(evecs);
-    free(evals);
-    free(work);
+    bml_free_memory(evecs);
+    bml_free_memory(evals);
+    bml_free_memory(work);
 #endif // NOBLAS
 }
 #endif // MKL_GPU
@@ -242,25 +242,25 @@ bml_diagonalize_dense_cpu_single_real(
     float *A_matrix;
     float *typed_eigenvalues = (float *) eigenvalues;
 
-    float *evecs = calloc(A->N * A->N, sizeof(float));
-    float *evals = calloc(A->N, sizeof(float));
+    float *evecs = bml_allocate_memory(A->N * A->N * sizeof(float));
+    float *evals = bml_allocate_memory(A->N * sizeof(float));
 
     memcpy(evecs, A->matrix, A->N * A->N * sizeof(float));
 
 #ifdef BML_SYEVD
     // Divide and conquer solver
     const int lwork = 1 + 6 * N + 2 * N * N;
-    float *work = malloc(lwork * sizeof(float));
+    float *work = bml_noinit_allocate_memory(lwork * sizeof(float));
     const int liwork = 3 + 5 * N;
-    int *iwork = malloc(liwork * sizeof(int));
+    int *iwork = bml_noinit_allocate_memory(liwork * sizeof(int));
     printf("%d, %d \n", lwork, liwork);
 
     C_SSYEVD("V", "U", &N, evecs, &N, evals, work, &lwork,
              iwork, &liwork, &info);
-    free(iwork);
+    bml_free_memory(iwork);
 #else
     const int lwork = 3 * A->N;
-    float *work = calloc(lwork, sizeof(float));
+    float *work = bml_allocate_memory(lwork * sizeof(float));
     C_SSYEV("V", "U", &N, evecs, &N, evals, work, &lwork, &info);
 #endif // BML_SYEVD
 
@@ -275,9 +275,9 @@ bml_diagonalize_dense_cpu_single_real(
         }
     }
 
-    free(evecs);
-    free(evals);
-    free(work);
+    bml_free_memory(evecs);
+    bml_free_memory(evals);
+    bml_free_memory(work);
 #endif // NOBLAS
 }
 
@@ -418,28 +418,28 @@ bml_diagonalize_dense_magma_double_real(
 #else // MAGMA
     int nb = magma_get_ssytrd_nb(A->N);
 
-    double *evals = malloc(A->N * sizeof(double));
+    double *evals = bml_noinit_allocate_memory(A->N * sizeof(double));
     int lwork = 2 * A->N + A->N * nb;
     int tmp = 1 + 6 * A->N + 2 * A->N * A->N;
     if (tmp > lwork)
         lwork = tmp;
-    double *work = malloc(lwork * sizeof(double));
+    double *work = bml_noinit_allocate_memory(lwork * sizeof(double));
     int liwork = 3 + 5 * A->N;
-    int *iwork = malloc(liwork * sizeof(int));
+    int *iwork = bml_noinit_allocate_memory(liwork * sizeof(int));
     int ldwa = A->N;
-    double *wa = malloc(A->N * ldwa * sizeof(double));
+    double *wa = bml_noinit_allocate_memory(A->N * ldwa * sizeof(double));
 
     magma_dsyevd_gpu(MagmaVec, MagmaUpper, A->N, evecs, A->ld, evals,
                      wa, ldwa, work, lwork, iwork, liwork, &info);
     if (info != 0)
         LOG_ERROR("ERROR in magma_dsyevd_gpu");
 
-    free(wa);
-    free(work);
+    bml_free_memory(wa);
+    bml_free_memory(work);
 
     for (int i = 0; i < A->N; i++)
         typed_eigenvalues[i] = (double) evals[i];
-    free(evals);
+    bml_free_memory(evals);
 
     //verify norm eigenvectors
     //for(int i= 0;i<A->N;i++)
@@ -482,8 +482,8 @@ bml_diagonalize_dense_gpu_double_real(
     double *A_matrix = A->matrix;
     double *typed_eigenvalues = (double *) eigenvalues;
 
-    double *evecs = (double *) calloc(A->N * A->N, sizeof(double));
-    double *evals = (double *) calloc(A->N, sizeof(double));
+    double *evecs = bml_allocate_memory(A->N * A->N * sizeof(double));
+    double *evals = bml_allocate_memory(A->N * sizeof(double));
 
 #pragma omp target enter data map(alloc:evecs[0:N*N])
 #pragma omp target enter data map(alloc:evals[0:N])
@@ -531,9 +531,9 @@ bml_diagonalize_dense_gpu_double_real(
 #ifdef BML_SYEVD
     // Divide and conquer solver
     const MKL_INT lwork = 1 + 6 * N + 2 * N * N;
-    double *work = malloc(lwork * sizeof(double));
+    double *work = bml_noinit_allocate_memory(lwork * sizeof(double));
     const MKL_INT liwork = 3 + 5 * N;
-    MKL_INT *iwork = malloc(liwork * sizeof(MKL_INT));
+    MKL_INT *iwork = bml_noinit_allocate_memory(liwork * sizeof(MKL_INT));
 #pragma omp target enter data map(alloc:work[0:lwork])
 #pragma omp target enter data map(alloc:iwork[0:liwork])
 
@@ -541,10 +541,10 @@ bml_diagonalize_dense_gpu_double_real(
     dsyevd("V", "U", &N, evecs, &N, evals, work, &lwork,
            iwork, &liwork, &info);
 #pragma omp target exit data map(release:iwork)
-    free(iwork);
+    bml_free_memory(iwork);
 #else
     const MKL_INT lwork = 3 * N;
-    double *work = calloc(lwork, sizeof(double));
+    double *work = bml_allocate_memory(lwork * sizeof(double));
 #pragma omp target enter data map(alloc:work[0:lwork])
 #pragma omp target variant dispatch device(dnum) use_device_ptr(evecs, evals, work)
     dsyev("V", "U", &N, evecs, &N, evals, work, &lwork, &info);
@@ -592,9 +592,9 @@ bml_diagonalize_dense_gpu_double_real(
 #pragma omp target exit data map(release:evals)
 #pragma omp target exit data map(release:work)
 
-    free(evecs);
-    free(evals);
-    free(work);
+    bml_free_memory(evecs);
+    bml_free_memory(evals);
+    bml_free_memory(work);
 #endif // NOBLAS
 }
 #endif // MKL_GPU
@@ -613,23 +613,23 @@ bml_diagonalize_dense_cpu_double_real(
     double *A_matrix = A->matrix;
     double *typed_eigenvalues = (double *) eigenvalues;
 
-    double *evecs = calloc(A->N * A->N, sizeof(double));
-    double *evals = calloc(A->N, sizeof(double));
+    double *evecs = bml_allocate_memory(A->N * A->N * sizeof(double));
+    double *evals = bml_allocate_memory(A->N * sizeof(double));
 
     memcpy(evecs, A->matrix, A->N * A->N * sizeof(double));
 
 #ifdef BML_SYEVD
     // Divide and conquer solver
     int lwork = 1 + 6 * A->N + 2 * A->N * A->N;
-    double *work = malloc(lwork * sizeof(double));
+    double *work = bml_noinit_allocate_memory(lwork * sizeof(double));
     int liwork = 3 + 5 * A->N;
-    int *iwork = malloc(liwork * sizeof(int));
+    int *iwork = bml_noinit_allocate_memory(liwork * sizeof(int));
     C_DSYEVD("V", "U", &A->N, evecs, &A->N, evals, work, &lwork,
              iwork, &liwork, &info);
-    free(iwork);
+    bml_free_memory(iwork);
 #else
     int lwork = 3 * A->N;
-    double *work = calloc(lwork, sizeof(double));
+    double *work = bml_allocate_memory(lwork * sizeof(double));
     C_DSYEV("V", "U", &A->N, evecs, &A->N, evals, work, &lwork, &info);
 #endif
 
@@ -643,9 +643,9 @@ bml_diagonalize_dense_cpu_double_real(
                 evecs[COLMAJOR(i, j, A->N, A->N)];
         }
     }
-    free(evecs);
-    free(evals);
-    free(work);
+    bml_free_memory(evecs);
+    bml_free_memory(evals);
+    bml_free_memory(work);
 #endif // NOBLAS
 }
 
@@ -680,18 +680,20 @@ bml_diagonalize_dense_single_complex(
     magma_int_t ret = magma_cmalloc(&evecs, A->N * A->ld);
     assert(ret == MAGMA_SUCCESS);
 
-    float *evals = malloc(A->N * sizeof(float));
+    float *evals = bml_noinit_allocate_memory(A->N * sizeof(float));
     int lwork = 2 * A->N + A->N * nb;
     int tmp = 1 + 6 * A->N + 2 * A->N * A->N;
     if (tmp > lwork)
         lwork = tmp;
-    magmaFloatComplex *work = malloc(lwork * sizeof(magmaFloatComplex));
+    magmaFloatComplex *work =
+        bml_noinit_allocate_memory(lwork * sizeof(magmaFloatComplex));
     int liwork = 3 + 5 * A->N;
-    int *iwork = malloc(liwork * sizeof(int));
+    int *iwork = bml_noinit_allocate_memory(liwork * sizeof(int));
     int ldwa = A->ld;
-    magmaFloatComplex *wa = malloc(A->N * ldwa * sizeof(magmaFloatComplex));
+    magmaFloatComplex *wa =
+        bml_noinit_allocate_memory(A->N * ldwa * sizeof(magmaFloatComplex));
     int lrwork = 1 + 5 * A->N + 2 * A->N * A->N;
-    float *rwork = malloc(lrwork * sizeof(float));
+    float *rwork = bml_noinit_allocate_memory(lrwork * sizeof(float));
 
     //copy matrix into evecs
     magmablas_clacpy(MagmaFull, A->N, A->N, A->matrix, A->ld, evecs, A->ld,
@@ -713,20 +715,22 @@ bml_diagonalize_dense_single_complex(
     magma_queue_sync(bml_queue());
 
     magma_free(evecs);
-    free(wa);
+    bml_free_memory(wa);
 #else
-    int *isuppz = calloc(2 * A->N, sizeof(int));
+    int *isuppz = bml_allocate_memory(2 * A->N * sizeof(int));
     int lwork = 2 * A->N;
     int liwork = 10 * A->N;
     int lrwork = 24 * A->N;
-    int *iwork = calloc(liwork, sizeof(int));
+    int *iwork = bml_allocate_memory(liwork * sizeof(int));
     int M;
-    float *evals = calloc(A->N, sizeof(float));
-    float *rwork = calloc(lrwork, sizeof(float));
-    float complex *A_copy = calloc(A->N * A->N, sizeof(float complex));
+    float *evals = bml_allocate_memory(A->N * sizeof(float));
+    float *rwork = bml_allocate_memory(lrwork * sizeof(float));
+    float complex *A_copy =
+        bml_allocate_memory(A->N * A->N * sizeof(float complex));
     float complex *A_matrix;
-    float complex *evecs = calloc(A->N * A->N, sizeof(float complex));
-    float complex *work = calloc(lwork, sizeof(float complex));
+    float complex *evecs =
+        bml_allocate_memory(A->N * A->N * sizeof(float complex));
+    float complex *work = bml_allocate_memory(lwork * sizeof(float complex));
 
 #ifdef MKL_GPU
 // pull from GPU
@@ -763,14 +767,14 @@ bml_diagonalize_dense_single_complex(
 // push back to GPU
 #pragma omp target update to(A_matrix[0:N*N])
 #endif
-    free(A_copy);
-    free(evecs);
-    free(isuppz);
+    bml_free_memory(A_copy);
+    bml_free_memory(evecs);
+    bml_free_memory(isuppz);
 #endif
-    free(work);
-    free(rwork);
-    free(iwork);
-    free(evals);
+    bml_free_memory(work);
+    bml_free_memory(rwork);
+    bml_free_memory(iwork);
+    bml_free_memory(evals);
 }
 
 void
@@ -789,18 +793,20 @@ bml_diagonalize_dense_double_complex(
     magma_int_t ret = magma_zmalloc(&evecs, A->N * A->ld);
     assert(ret == MAGMA_SUCCESS);
 
-    double *evals = malloc(A->N * sizeof(double));
+    double *evals = bml_noinit_allocate_memory(A->N * sizeof(double));
     int lwork = 2 * A->N + A->N * nb;
     int tmp = 1 + 6 * A->N + 2 * A->N * A->N;
     if (tmp > lwork)
         lwork = tmp;
-    magmaDoubleComplex *work = malloc(lwork * sizeof(magmaDoubleComplex));
+    magmaDoubleComplex *work =
+        bml_noinit_allocate_memory(lwork * sizeof(magmaDoubleComplex));
     int liwork = 3 + 5 * A->N;
-    int *iwork = malloc(liwork * sizeof(int));
+    int *iwork = bml_noinit_allocate_memory(liwork * sizeof(int));
     int ldwa = A->ld;
-    magmaDoubleComplex *wa = malloc(A->N * ldwa * sizeof(magmaDoubleComplex));
+    magmaDoubleComplex *wa =
+        bml_noinit_allocate_memory(A->N * ldwa * sizeof(magmaDoubleComplex));
     int lrwork = 1 + 5 * A->N + 2 * A->N * A->N;
-    double *rwork = malloc(lrwork * sizeof(double));
+    double *rwork = bml_noinit_allocate_memory(lrwork * sizeof(double));
 
     //copy matrix into evecs
     magmablas_zlacpy(MagmaFull, A->N, A->N, A->matrix, A->ld, evecs, A->ld,
@@ -823,20 +829,22 @@ bml_diagonalize_dense_double_complex(
     magma_queue_sync(bml_queue());
 
     magma_free(evecs);
-    free(wa);
+    bml_free_memory(wa);
 #else
-    int *isuppz = calloc(2 * A->N, sizeof(int));
+    int *isuppz = bml_allocate_memory(2 * A->N * sizeof(int));
     int liwork = 10 * A->N;
     int lrwork = 24 * A->N;
     int lwork = 2 * A->N;
-    int *iwork = calloc(liwork, sizeof(int));
+    int *iwork = bml_allocate_memory(liwork * sizeof(int));
     int M;
-    double *evals = calloc(A->N, sizeof(double));
-    double *rwork = calloc(lrwork, sizeof(double));
-    double complex *A_copy = calloc(A->N * A->N, sizeof(double complex));
+    double *evals = bml_allocate_memory(A->N * sizeof(double));
+    double *rwork = bml_allocate_memory(lrwork * sizeof(double));
+    double complex *A_copy =
+        bml_allocate_memory(A->N * A->N * sizeof(double complex));
     double complex *A_matrix;
-    double complex *evecs = calloc(A->N * A->N, sizeof(double complex));
-    double complex *work = calloc(lwork, sizeof(double complex));
+    double complex *evecs =
+        bml_allocate_memory(A->N * A->N * sizeof(double complex));
+    double complex *work = bml_allocate_memory(lwork * sizeof(double complex));
 
 #ifdef MKL_GPU
 // pull from GPU
@@ -873,14 +881,14 @@ bml_diagonalize_dense_double_complex(
 // push back to GPU
 #pragma omp target update to(A_matrix[0:N*N])
 #endif
-    free(A_copy);
-    free(evecs);
-    free(isuppz);
+    bml_free_memory(A_copy);
+    bml_free_memory(evecs);
+    bml_free_memory(isuppz);
 #endif
-    free(work);
-    free(rwork);
-    free(iwork);
-    free(evals);
+    bml_free_memory(work);
+    bml_free_memory(rwork);
+    bml_free_memory(iwork);
+    bml_free_memory(evals);
 }
 
 void
diff --git a/src/C-interface/dense/bml_normalize_dense_typed.c b/src/C-interface/dense/bml_normalize_dense_typed.c
index 289f486..1ab389a 100644
--- a/src/C-interface/dense/bml_normalize_dense_typed.c
+++ b/src/C-interface/dense/bml_normalize_dense_typed.c
@@ -53,7 +53,7 @@ void *TYPED_FUNC(
     int include_diag)
 {
     int N = A->N;
-    REAL_T *offdiag_sum = calloc(N, sizeof(REAL_T));
+    REAL_T *offdiag_sum = bml_allocate_memory(N * sizeof(REAL_T));
 
 #ifdef BML_USE_MAGMA
     // copy matrix into tmp matrix on CPU
diff --git a/src/C-interface/distributed2d/bml_diagonalize_distributed2d_typed.c b/src/C-interface/distributed2d/bml_diagonalize_distributed2d_typed.c
index 0785fcd..6195fa7 100644
--- a/src/C-interface/distributed2d/bml_diagonalize_distributed2d_typed.c
+++ b/src/C-interface/distributed2d/bml_diagonalize_distributed2d_typed.c
@@ -228,10 +228,10 @@ void TYPED_FUNC(
     int lwork = m + (2 * np0 + mb) * mb;
 #endif
 #if defined(SINGLE_REAL) || defined(SINGLE_COMPLEX)
-    float *ev = malloc(A->N * sizeof(float));
+    float *ev = bml_noinit_allocate_memory(A->N * sizeof(float));
 #endif
 #if defined(DOUBLE_REAL) || defined(DOUBLE_COMPLEX)
-    double *ev = malloc(A->N * sizeof(double));
+    double *ev = bml_noinit_allocate_memory(A->N * sizeof(double));
 #endif
 
 #if defined(SINGLE_COMPLEX) || defined(DOUBLE_COMPLEX)
@@ -288,7 +288,7 @@ void TYPED_FUNC(
         typed_eigenvalues[i] = (REAL_T) ev[i];
 
     // clean up
-    free(ev);
+    bml_free_memory(ev);
     bml_free_memory(work);
     bml_free_memory(iwork);
 #if defined(SINGLE_COMPLEX) || defined(DOUBLE_COMPLEX)
diff --git a/src/C-interface/distributed2d/bml_getters_distributed2d_typed.c b/src/C-interface/distributed2d/bml_getters_distributed2d_typed.c
index 5de1ee6..d78c9d9 100644
--- a/src/C-interface/distributed2d/bml_getters_distributed2d_typed.c
+++ b/src/C-interface/distributed2d/bml_getters_distributed2d_typed.c
@@ -16,7 +16,7 @@ void *TYPED_FUNC(
     REAL_T *row = bml_allocate_memory(A->N * sizeof(REAL_T));
 
     REAL_T *sub_row = NULL;
-    int *counts = calloc(A->ntasks, sizeof(int));
+    int *counts = bml_allocate_memory(A->ntasks * sizeof(int));
 
     int mycount = 0;
     // get (piece of) row if "i" corresponds to local row
@@ -27,7 +27,7 @@ void *TYPED_FUNC(
         mycount = nloc;
     }
 
-    int *recvcounts = calloc(A->ntasks, sizeof(int));
+    int *recvcounts = bml_allocate_memory(A->ntasks * sizeof(int));
     int ret =
         MPI_Allgather(&mycount, 1, MPI_INT, recvcounts, 1, MPI_INT, A->comm);
     if (ret == MPI_ERR_COUNT)
@@ -35,7 +35,7 @@ void *TYPED_FUNC(
     if (ret == MPI_ERR_BUFFER)
         LOG_ERROR("MPI_ERR_BUFFER");
 
-    int *displs = calloc(A->ntasks, sizeof(int));
+    int *displs = bml_allocate_memory(A->ntasks * sizeof(int));
     for (int i = 0; i < A->ntasks - 1; i++)
         displs[i + 1] += recvcounts[i];
 
@@ -47,9 +47,9 @@ void *TYPED_FUNC(
         LOG_ERROR
             ("bml_get_row_distributed2d: MPI_Allgatherv, MPI_ERR_BUFFER");
 
-    free(recvcounts);
-    free(counts);
-    free(displs);
+    bml_free_memory(recvcounts);
+    bml_free_memory(counts);
+    bml_free_memory(displs);
 
     return row;
 }
diff --git a/src/C-interface/ellblock/bml_add_ellblock_typed.c b/src/C-interface/ellblock/bml_add_ellblock_typed.c
index 64f0a2b..5f8c770 100644
--- a/src/C-interface/ellblock/bml_add_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_add_ellblock_typed.c
@@ -74,7 +74,8 @@ void TYPED_FUNC(
 #else
     const int nthreads = 1;
 #endif
-    REAL_T *x_ptr_storage = calloc(maxbsize2 * NB * nthreads, sizeof(REAL_T));
+    REAL_T *x_ptr_storage =
+        bml_allocate_memory(maxbsize2 * NB * nthreads * sizeof(REAL_T));
 
     char xptrset = 0;
 #if defined(__IBMC__) || defined(__ibmxl__)
@@ -193,7 +194,7 @@ void TYPED_FUNC(
         A_nnzb[ib] = ll;
     }
 
-    free(x_ptr_storage);
+    bml_free_memory(x_ptr_storage);
 }
 
 /** Matrix addition.
@@ -235,14 +236,14 @@ double TYPED_FUNC(
 
     memset(ix, 0, NB * sizeof(int));
     memset(jx, 0, NB * sizeof(int));
-    x[0] = (REAL_T *) calloc(BMAXSIZE * NB, sizeof(REAL_T));
+    x[0] = bml_allocate_memory(BMAXSIZE * NB * sizeof(REAL_T));
     for (int i = 1; i < NB; i++)
     {
         x[i] = x[0] + i * BMAXSIZE;
     }
 
     REAL_T *y[NB];
-    y[0] = (REAL_T *) calloc(BMAXSIZE * NB, sizeof(REAL_T));
+    y[0] = bml_allocate_memory(BMAXSIZE * NB * sizeof(REAL_T));
     for (int i = 1; i < NB; i++)
     {
         y[i] = y[0] + i * BMAXSIZE;
diff --git a/src/C-interface/ellblock/bml_allocate_ellblock.c b/src/C-interface/ellblock/bml_allocate_ellblock.c
index 5389619..2651009 100644
--- a/src/C-interface/ellblock/bml_allocate_ellblock.c
+++ b/src/C-interface/ellblock/bml_allocate_ellblock.c
@@ -38,7 +38,7 @@ bml_set_block_sizes(
 
     s_nb = nb;
     s_mb = mb;
-    s_default_bsize = malloc(nb * sizeof(int));
+    s_default_bsize = bml_noinit_allocate_memory(nb * sizeof(int));
     for (int ib = 0; ib < nb; ib++)
     {
         s_default_bsize[ib] = bsize[ib];
diff --git a/src/C-interface/ellblock/bml_convert_ellblock_typed.c b/src/C-interface/ellblock/bml_convert_ellblock_typed.c
index 33de04b..bd550a7 100644
--- a/src/C-interface/ellblock/bml_convert_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_convert_ellblock_typed.c
@@ -36,7 +36,7 @@ bml_matrix_ellblock_t *TYPED_FUNC(
                                                distrib_mode);
 
     int NB = B->NB;
-    int *offset = malloc(NB * sizeof(int));
+    int *offset = bml_noinit_allocate_memory(NB * sizeof(int));
     offset[0] = 0;
     for (int ib = 1; ib < NB; ib++)
         offset[ib] = offset[ib - 1] + bsize[ib - 1];
@@ -54,7 +54,8 @@ bml_matrix_ellblock_t *TYPED_FUNC(
                 = TYPED_FUNC(bml_allocate_block_ellblock) (B, ib, nelements);
             B->indexb[ind] = jb;
 
-            REAL_T *block = malloc(nelements * sizeof(REAL_T));
+            REAL_T *block =
+                bml_noinit_allocate_memory(nelements * sizeof(REAL_T));
             for (int ii = 0; ii < bsize[ib]; ii++)
                 for (int jj = 0; jj < bsize[jb]; jj++)
                 {
@@ -64,10 +65,10 @@ bml_matrix_ellblock_t *TYPED_FUNC(
                     block[ROWMAJOR(ii, jj, bsize[ib], bsize[jb])] = alpha;
                 }
             TYPED_FUNC(bml_set_block_ellblock) (B, ib, jb, block);
-            free(block);
+            bml_free_memory(block);
         }
     }
-    free(offset);
+    bml_free_memory(offset);
 
     return B;
 }
diff --git a/src/C-interface/ellblock/bml_export_ellblock_typed.c b/src/C-interface/ellblock/bml_export_ellblock_typed.c
index a86c987..0c792dc 100644
--- a/src/C-interface/ellblock/bml_export_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_export_ellblock_typed.c
@@ -40,7 +40,7 @@ void *TYPED_FUNC(
     int *bsize = A->bsize;
     REAL_T *A_dense = bml_allocate_memory(sizeof(REAL_T) * N * N);
     REAL_T **A_ptr_value = (REAL_T **) A->ptr_value;
-    int *offset = malloc(NB * sizeof(int));
+    int *offset = bml_noinit_allocate_memory(NB * sizeof(int));
     offset[0] = 0;
     for (int ib = 1; ib < NB; ib++)
     {
@@ -96,7 +96,7 @@ void *TYPED_FUNC(
             LOG_ERROR("unknown order\n");
             break;
     }
-    free(offset);
+    bml_free_memory(offset);
 
     return A_dense;
 }
diff --git a/src/C-interface/ellblock/bml_getters_ellblock_typed.c b/src/C-interface/ellblock/bml_getters_ellblock_typed.c
index 01a13a1..b710dbb 100644
--- a/src/C-interface/ellblock/bml_getters_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_getters_ellblock_typed.c
@@ -1,3 +1,4 @@
+#include "../bml_allocate.h"
 #include "bml_getters_ellblock.h"
 #include "../bml_introspection.h"
 #include "../bml_logger.h"
@@ -85,7 +86,7 @@ void *TYPED_FUNC(
     int *A_nnzb = A->nnzb;
     int *bsize = A->bsize;
 
-    REAL_T *row = calloc(A->N, sizeof(REAL_T));
+    REAL_T *row = bml_allocate_memory(A->N * sizeof(REAL_T));
     for (int ii = 0; ii < A->N; ii++)
     {
         row[ii] = 0.0;
@@ -100,7 +101,7 @@ void *TYPED_FUNC(
         ib++;
     }
 
-    int *offset = malloc(A_NB * sizeof(int));
+    int *offset = bml_noinit_allocate_memory(A_NB * sizeof(int));
     offset[0] = 0;
     for (int jb = 1; jb < A_NB; jb++)
         offset[jb] = offset[jb - 1] + bsize[jb - 1];
@@ -119,7 +120,7 @@ void *TYPED_FUNC(
             }
         }
     }
-    free(offset);
+    bml_free_memory(offset);
 
     return row;
 }
@@ -142,7 +143,7 @@ void *TYPED_FUNC(
     int *indexb = A->indexb;
     int *nnzb = A->nnzb;
     int *bsize = A->bsize;
-    REAL_T *diagonal = calloc(A->N, sizeof(REAL_T));
+    REAL_T *diagonal = bml_allocate_memory(A->N * sizeof(REAL_T));
 
     int offset = 0;
     for (int ib = 0; ib < NB; ib++)
diff --git a/src/C-interface/ellblock/bml_import_ellblock_typed.c b/src/C-interface/ellblock/bml_import_ellblock_typed.c
index e75e5d5..760073d 100644
--- a/src/C-interface/ellblock/bml_import_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_import_ellblock_typed.c
@@ -45,7 +45,7 @@ bml_matrix_ellblock_t
 
     REAL_T *dense_A = (REAL_T *) A;
 
-    int *offset = malloc(NB * sizeof(int));
+    int *offset = bml_noinit_allocate_memory(NB * sizeof(int));
     offset[0] = 0;
     for (int ib = 1; ib < NB; ib++)
     {
@@ -59,7 +59,8 @@ bml_matrix_ellblock_t
         for (int jb = 0; jb < NB; jb++)
         {
             int nelements = A_bsize[ib] * A_bsize[jb];
-            REAL_T *A_ij = malloc(nelements * sizeof(REAL_T));
+            REAL_T *A_ij =
+                bml_noinit_allocate_memory(nelements * sizeof(REAL_T));
             switch (order)
             {
                 case dense_row_major:
@@ -94,10 +95,10 @@ bml_matrix_ellblock_t
                 A_indexb[ind] = jb;
                 A_nnzb[ib]++;
             }
-            free(A_ij);
+            bml_free_memory(A_ij);
         }
     }
-    free(offset);
+    bml_free_memory(offset);
 
     return A_bml;
 }
diff --git a/src/C-interface/ellblock/bml_multiply_ellblock_typed.c b/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
index aefab74..5aab6d5 100644
--- a/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
@@ -495,7 +495,8 @@ void TYPED_FUNC(
 #else
     int nthreads = 1;
 #endif
-    REAL_T *x_ptr_storage = calloc(maxbsize2 * NB * nthreads, sizeof(REAL_T));
+    REAL_T *x_ptr_storage =
+        bml_allocate_memory(maxbsize2 * NB * nthreads * sizeof(REAL_T));
 
     char xptrset = 0;
 
@@ -617,7 +618,7 @@ void TYPED_FUNC(
         bml_free_memory(T_value_right);
     }
 
-    free(x_ptr_storage);
+    bml_free_memory(x_ptr_storage);
 }
 
 /** Matrix multiply with threshold adjustment.
@@ -668,7 +669,7 @@ void TYPED_FUNC(
         maxbsize = MAX(maxbsize, bsize[ib]);
     int maxbsize2 = maxbsize * maxbsize;
     for (int ib = 0; ib < NB; ib++)
-        x_ptr[ib] = calloc(maxbsize2, sizeof(REAL_T));
+        x_ptr[ib] = bml_allocate_memory(maxbsize2 * sizeof(REAL_T));
 
     while (aflag > 0)
     {
diff --git a/src/C-interface/ellblock/bml_norm_ellblock_typed.c b/src/C-interface/ellblock/bml_norm_ellblock_typed.c
index 51b837c..a30e832 100644
--- a/src/C-interface/ellblock/bml_norm_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_norm_ellblock_typed.c
@@ -1,5 +1,6 @@
 #include "../../macros.h"
 #include "../../typed.h"
+#include "../bml_allocate.h"
 #include "../bml_norm.h"
 #include "../bml_parallel.h"
 #include "../bml_types.h"
@@ -95,7 +96,7 @@ double TYPED_FUNC(
     int maxbsize2 = maxbsize * maxbsize;
     REAL_T *y_ptr[NB];
     for (int ib = 0; ib < NB; ib++)
-        y_ptr[ib] = calloc(maxbsize2, sizeof(REAL_T));
+        y_ptr[ib] = bml_allocate_memory(maxbsize2 * sizeof(REAL_T));
 
     int ix[NB], jjb[MB];
 
@@ -156,7 +157,7 @@ double TYPED_FUNC(
     }
 
     for (int ib = 0; ib < NB; ib++)
-        free(y_ptr[ib]);
+        bml_free_memory(y_ptr[ib]);
     return (double) REAL_PART(sum);
 }
 
@@ -201,7 +202,7 @@ double TYPED_FUNC(
     int maxbsize2 = maxbsize * maxbsize;
     REAL_T *y_ptr[NB];
     for (int ib = 0; ib < NB; ib++)
-        y_ptr[ib] = calloc(maxbsize2, sizeof(REAL_T));
+        y_ptr[ib] = bml_allocate_memory(maxbsize2 * sizeof(REAL_T));
 
     int ix[NB], jjb[NB];
 
@@ -267,7 +268,7 @@ double TYPED_FUNC(
     }
 
     for (int ib = 0; ib < NB; ib++)
-        free(y_ptr[ib]);
+        bml_free_memory(y_ptr[ib]);
     return (double) REAL_PART(sum);
 }
 
@@ -327,7 +328,7 @@ double TYPED_FUNC(
     for (int ib = 0; ib < NB; ib++)
         maxbsize = MAX(maxbsize, bsize[ib]);
     int maxbsize2 = maxbsize * maxbsize;
-    REAL_T *zero_block = calloc(maxbsize2, sizeof(REAL_T));
+    REAL_T *zero_block = bml_allocate_memory(maxbsize2 * sizeof(REAL_T));
 
     for (int ib = 0; ib < NB; ib++)
     {
@@ -394,7 +395,7 @@ double TYPED_FUNC(
 
     fnorm = sqrt(fnorm);
 
-    free(zero_block);
+    bml_free_memory(zero_block);
 
     return (double) REAL_PART(fnorm);
 }
diff --git a/src/C-interface/ellblock/bml_normalize_ellblock_typed.c b/src/C-interface/ellblock/bml_normalize_ellblock_typed.c
index 4f957f8..8dd5c44 100644
--- a/src/C-interface/ellblock/bml_normalize_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_normalize_ellblock_typed.c
@@ -56,7 +56,7 @@ void *TYPED_FUNC(
     int *A_indexb = (int *) A->indexb;
     int *bsize = A->bsize;
 
-    REAL_T *offdiag_sum = calloc(A->N, sizeof(REAL_T));
+    REAL_T *offdiag_sum = bml_allocate_memory(A->N * sizeof(REAL_T));
 
     REAL_T **A_ptr_value = (REAL_T **) A->ptr_value;
 
@@ -110,8 +110,8 @@ void *TYPED_FUNC(
     int *A_indexb = (int *) A->indexb;
     int *bsize = A->bsize;
 
-    REAL_T *rad = calloc(A->N, sizeof(REAL_T));
-    REAL_T *dval = calloc(A->N, sizeof(REAL_T));
+    REAL_T *rad = bml_allocate_memory(A->N * sizeof(REAL_T));
+    REAL_T *dval = bml_allocate_memory(A->N * sizeof(REAL_T));
 
     REAL_T **A_ptr_value = (REAL_T **) A->ptr_value;
 
@@ -163,8 +163,8 @@ void *TYPED_FUNC(
     eval[1] = emax;
 
     //printf("Global %d: emin = %e emax = %e\n", myRank, emin, emax);
-    free(dval);
-    free(rad);
+    bml_free_memory(dval);
+    bml_free_memory(rad);
 
     return eval;
 }
diff --git a/src/C-interface/ellblock/bml_utilities_ellblock_typed.c b/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
index 13921d8..3a30aca 100644
--- a/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
@@ -1,5 +1,6 @@
 #include "../../macros.h"
 #include "../../typed.h"
+#include "../bml_allocate.h"
 #include "../bml_logger.h"
 #include "../bml_parallel.h"
 #include "../bml_types.h"
@@ -215,7 +216,7 @@ void TYPED_FUNC(
     }
     fprintf(mFile, "%d %d %d\n", A->N, A->N, msum);
 
-    int *offset = malloc(NB * sizeof(int));
+    int *offset = bml_noinit_allocate_memory(NB * sizeof(int));
     offset[0] = 0;
     for (int ib = 1; ib < NB; ib++)
     {
@@ -252,7 +253,7 @@ void TYPED_FUNC(
                 }
         }
     }
-    free(offset);
+    bml_free_memory(offset);
 
     fclose(mFile);
 }
diff --git a/src/C-interface/ellpack/bml_getters_ellpack_typed.c b/src/C-interface/ellpack/bml_getters_ellpack_typed.c
index 4607432..470c50b 100644
--- a/src/C-interface/ellpack/bml_getters_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_getters_ellpack_typed.c
@@ -1,3 +1,4 @@
+#include "../bml_allocate.h"
 #include "bml_getters_ellpack.h"
 #include "../bml_introspection.h"
 #include "../bml_logger.h"
@@ -74,7 +75,7 @@ void *TYPED_FUNC(
     REAL_T *A_value = (REAL_T *) A->value;
     int *A_index = A->index;
     int *A_nnz = A->nnz;
-    REAL_T *row = calloc(A_N, sizeof(REAL_T));
+    REAL_T *row = bml_allocate_memory(A_N * sizeof(REAL_T));
 
 #ifdef USE_OMP_OFFLOAD
 #pragma omp target update from(A_nnz[:A_N], A_index[:A_N*A_M], A_value[:A_N*A_M])
@@ -114,7 +115,7 @@ void *TYPED_FUNC(
     REAL_T *A_value = (REAL_T *) A->value;
     int *A_index = A->index;
     int *A_nnz = A->nnz;
-    REAL_T *diagonal = calloc(A_N, sizeof(REAL_T));
+    REAL_T *diagonal = bml_allocate_memory(A_N * sizeof(REAL_T));
 
 #ifdef USE_OMP_OFFLOAD
 #pragma omp target update from(A_nnz[:A_N], A_index[:A_N*A_M], A_value[:A_N*A_M])
diff --git a/src/C-interface/ellpack/bml_normalize_ellpack_typed.c b/src/C-interface/ellpack/bml_normalize_ellpack_typed.c
index 0cac81b..b6a4020 100644
--- a/src/C-interface/ellpack/bml_normalize_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_normalize_ellpack_typed.c
@@ -53,7 +53,7 @@ void *TYPED_FUNC(
     int M = A->M;
     int *A_nnz = (int *) A->nnz;
     int *A_index = (int *) A->index;
-    REAL_T *offdiag_sum = calloc(N, sizeof(REAL_T));
+    REAL_T *offdiag_sum = bml_allocate_memory(N * sizeof(REAL_T));
     REAL_T *A_value = (REAL_T *) A->value;
 
     for (int i = 0; i < N; i++)
diff --git a/src/C-interface/ellpack/bml_submatrix_ellpack.c b/src/C-interface/ellpack/bml_submatrix_ellpack.c
index e3e75bd..eb80c68 100644
--- a/src/C-interface/ellpack/bml_submatrix_ellpack.c
+++ b/src/C-interface/ellpack/bml_submatrix_ellpack.c
@@ -1,4 +1,5 @@
 #include "../../macros.h"
+#include "../bml_allocate.h"
 #include "../bml_logger.h"
 #include "../bml_submatrix.h"
 #include "../bml_types.h"
@@ -443,7 +444,7 @@ bml_adjacency_group_ellpack(
     int *A_nnz = A->nnz;
     int *A_index = A->index;
 
-    int *hnode = malloc(nnodes * sizeof(int));
+    int *hnode = bml_noinit_allocate_memory(nnodes * sizeof(int));
     for (int i = 0; i < nnodes; i++)
     {
         hnode[i] = hindex[i] - 1;
diff --git a/src/C-interface/ellpack/bml_transpose_ellpack_typed.c b/src/C-interface/ellpack/bml_transpose_ellpack_typed.c
index 73daef1..6ef38fd 100644
--- a/src/C-interface/ellpack/bml_transpose_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_transpose_ellpack_typed.c
@@ -58,7 +58,7 @@ bml_matrix_ellpack_t
 #else
     // Transpose all elements
 #ifdef _OPENMP
-    omp_lock_t *row_lock = (omp_lock_t *) malloc(sizeof(omp_lock_t) * N);
+    omp_lock_t *row_lock = bml_noinit_allocate_memory(sizeof(omp_lock_t) * N);
 
 #pragma omp parallel for
     for (int i = 0; i < N; i++)
-- 
2.43.0


From a4aca9e39f83212950a83800cb8985516baf4482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:35 +0000
Subject: [PATCH 02/48] fix: return the matrix element from the typed
 bml_get_element functions

The typed variants called the void * getters of the dense and ellpack
formats under a float/complex prototype and returned garbage.
---
 src/C-interface/bml_elemental.c | 62 +++------------------------------
 1 file changed, 5 insertions(+), 57 deletions(-)

diff --git a/src/C-interface/bml_elemental.c b/src/C-interface/bml_elemental.c
index a350e96..a1ff7dd 100644
--- a/src/C-interface/bml_elemental.c
+++ b/src/C-interface/bml_elemental.c
@@ -1,8 +1,5 @@
 #include "bml_elemental.h"
-#include "bml_introspection.h"
-#include "bml_logger.h"
-#include "dense/bml_elemental_dense.h"
-#include "ellpack/bml_elemental_ellpack.h"
+#include "bml_getters.h"
 
 #ifdef BML_COMPLEX
 #include <complex.h>
@@ -21,19 +18,7 @@ bml_get_element_single_real(
     int i,
     int j)
 {
-    switch (bml_get_type(A))
-    {
-        case dense:
-            return bml_get_element_dense_single_real(A, i, j);
-            break;
-        case ellpack:
-            return bml_get_element_ellpack_single_real(A, i, j);
-            break;
-        default:
-            LOG_ERROR("unknown matrix type\n");
-            break;
-    }
-    return -1;
+    return *(float *) bml_get_element(A, i, j);
 }
 
 /** Return a single matrix element.
@@ -49,19 +34,7 @@ bml_get_element_double_real(
     int i,
     int j)
 {
-    switch (bml_get_type(A))
-    {
-        case dense:
-            return bml_get_element_dense_double_real(A, i, j);
-            break;
-        case ellpack:
-            return bml_get_element_ellpack_double_real(A, i, j);
-            break;
-        default:
-            LOG_ERROR("unknown matrix type\n");
-            break;
-    }
-    return -1;
+    return *(double *) bml_get_element(A, i, j);
 }
 
 #ifdef BML_COMPLEX
@@ -78,19 +51,7 @@ bml_get_element_single_complex(
     int i,
     int j)
 {
-    switch (bml_get_type(A))
-    {
-        case dense:
-            return bml_get_element_dense_single_complex(A, i, j);
-            break;
-        case ellpack:
-            return bml_get_element_ellpack_single_complex(A, i, j);
-            break;
-        default:
-            LOG_ERROR("unknown matrix type\n");
-            break;
-    }
-    return -1;
+    return *(float complex *) bml_get_element(A, i, j);
 }
 
 /** Return a single matrix element.
@@ -106,19 +67,6 @@ bml_get_element_double_complex(
     int i,
     int j)
 {
-    switch (bml_get_type(A))
-    {
-        case dense:
-            return bml_get_element_dense_double_complex(A, i, j);
-            break;
-        case ellpack:
-            return bml_get_element_ellpack_double_complex(A, i, j);
-            break;
-
-        default:
-            LOG_ERROR("unknown matrix type\n");
-            break;
-    }
-    return -1;
+    return *(double complex *) bml_get_element(A, i, j);
 }
 #endif
-- 
2.43.0


From 30b1adec4ba6ab5f9b263271f5f2d57a4bfef238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:06 +0000
Subject: [PATCH 03/48] fix: report out-of-range indices in the element and row
 accessors

---
 src/C-interface/bml_getters.c | 12 ++++++++++++
 src/C-interface/bml_setters.c | 20 ++++++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/src/C-interface/bml_getters.c b/src/C-interface/bml_getters.c
index 47caab9..4c21024 100644
--- a/src/C-interface/bml_getters.c
+++ b/src/C-interface/bml_getters.c
@@ -24,6 +24,14 @@ bml_get_element(
     int i,
     int j)
 {
+    if (i < 0 || i >= bml_get_N(A))
+    {
+        LOG_ERROR("row index out of bounds\n");
+    }
+    if (j < 0 || j >= bml_get_N(A))
+    {
+        LOG_ERROR("column index out of bounds\n");
+    }
     switch (bml_get_type(A))
     {
         case dense:
@@ -56,6 +64,10 @@ bml_get_row(
     bml_matrix_t * A,
     int i)
 {
+    if (i < 0 || i >= bml_get_N(A))
+    {
+        LOG_ERROR("row index out of bounds\n");
+    }
     switch (bml_get_type(A))
     {
         case dense:
diff --git a/src/C-interface/bml_setters.c b/src/C-interface/bml_setters.c
index 75ad8d6..1b851ce 100644
--- a/src/C-interface/bml_setters.c
+++ b/src/C-interface/bml_setters.c
@@ -16,6 +16,14 @@ bml_set_element_new(
     int j,
     void *value)
 {
+    if (i < 0 || i >= bml_get_N(A))
+    {
+        LOG_ERROR("row index out of bounds\n");
+    }
+    if (j < 0 || j >= bml_get_N(A))
+    {
+        LOG_ERROR("column index out of bounds\n");
+    }
     switch (bml_get_type(A))
     {
         case dense:
@@ -44,6 +52,14 @@ bml_set_element(
     int j,
     void *value)
 {
+    if (i < 0 || i >= bml_get_N(A))
+    {
+        LOG_ERROR("row index out of bounds\n");
+    }
+    if (j < 0 || j >= bml_get_N(A))
+    {
+        LOG_ERROR("column index out of bounds\n");
+    }
     switch (bml_get_type(A))
     {
         case dense:
@@ -71,6 +87,10 @@ bml_set_row(
     void *row,
     double threshold)
 {
+    if (i < 0 || i >= bml_get_N(A))
+    {
+        LOG_ERROR("row index out of bounds\n");
+    }
     switch (bml_get_type(A))
     {
         case dense:
-- 
2.43.0


From 3dcfdbf767e500039b3279f93b1a868dc6e66bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:06 +0000
Subject: [PATCH 04/48] fix: detect duplicates and report capacity overflow in
 the ellpack setters

---
 .../ellpack/bml_setters_ellpack_typed.c       | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/C-interface/ellpack/bml_setters_ellpack_typed.c b/src/C-interface/ellpack/bml_setters_ellpack_typed.c
index 7195fa4..28e092c 100644
--- a/src/C-interface/ellpack/bml_setters_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_setters_ellpack_typed.c
@@ -1,6 +1,7 @@
 #include "../../macros.h"
 #include "../../typed.h"
 #include "../bml_introspection.h"
+#include "../bml_logger.h"
 #include "../bml_types.h"
 #include "bml_setters_ellpack.h"
 #include "bml_types_ellpack.h"
@@ -40,6 +41,10 @@ void TYPED_FUNC(
 #ifdef USE_OMP_OFFLOAD
 #pragma omp target update from(A_nnz[:A_N], A_index[:A_N*A_M], A_value[:A_N*A_M])
 #endif
+    if (A_nnz[i] == A_M)
+    {
+        LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+    }
     A_value[ROWMAJOR(i, A_nnz[i], A_N, A_M)] = *((REAL_T *) element);
     A_index[ROWMAJOR(i, A_nnz[i], A_N, A_M)] = j;
     A_nnz[i]++;
@@ -83,7 +88,7 @@ void TYPED_FUNC(
 #pragma omp target update from(A_nnz[:A_N], A_index[:A_N*A_M], A_value[:A_N*A_M])
 #endif
     ll = 0;
-    if (A_nnz[i] > 2)
+    if (A_nnz[i] > 0)
     {
         for (int l = 0; l < A_nnz[i]; l++)
         {
@@ -96,6 +101,10 @@ void TYPED_FUNC(
         }
         if (ll == 0)            //There is something in the row but in a different position
         {
+            if (A_nnz[i] == A_M)
+            {
+                LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+            }
             A_value[ROWMAJOR(i, A_nnz[i], A_N, A_M)] = *((REAL_T *) element);
             A_index[ROWMAJOR(i, A_nnz[i], A_N, A_M)] = j;
             A_nnz[i]++;
@@ -149,6 +158,10 @@ void TYPED_FUNC(
             if (ABS(row[j]) > threshold)
             {
                 ll++;
+                if (ll == A_M)
+                {
+                    LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+                }
 
                 A_value[ROWMAJOR(i, ll, A_N, A_M)] = row[j];
                 A_index[ROWMAJOR(i, ll, A_N, A_M)] = j;
@@ -211,6 +224,10 @@ void TYPED_FUNC(
         {
             if (ABS(diagonal[i]) > threshold)
             {
+                if (A_nnz[i] == A_M)
+                {
+                    LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+                }
                 A_index[ROWMAJOR(i, A_nnz[i], A_N, A_M)] = i;
                 A_value[ROWMAJOR(i, A_nnz[i], A_N, A_M)] = diagonal[i];
                 A_nnz[i]++;
-- 
2.43.0


From 4e0502493faa011665e65672668fab0b2d8adfb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:06 +0000
Subject: [PATCH 05/48] fix: clear the old row in bml_set_row_ellblock and
 report capacity overflow

---
 .../ellblock/bml_setters_ellblock_typed.c      | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/C-interface/ellblock/bml_setters_ellblock_typed.c b/src/C-interface/ellblock/bml_setters_ellblock_typed.c
index 9bcfdf9..7896d78 100644
--- a/src/C-interface/ellblock/bml_setters_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_setters_ellblock_typed.c
@@ -152,6 +152,16 @@ void TYPED_FUNC(
         ib++;
     }
 
+    //reset elements of row already in matrix
+    for (int jp = 0; jp < A_nnzb[ib]; jp++)
+    {
+        int ind = ROWMAJOR(ib, jp, A->NB, A->MB);
+        int jb = A_indexb[ind];
+        REAL_T *A_value = A_ptr_value[ind];
+        for (int jj = 0; jj < A_bsize[jb]; jj++)
+            A_value[ROWMAJOR(ii, jj, A_bsize[ib], A_bsize[jb])] = 0.0;
+    }
+
     //loop over elements to insert
     for (int k = 0; k < A_N; k++)
     {
@@ -180,6 +190,10 @@ void TYPED_FUNC(
             }
             if (block_found == 0)
             {
+                if (A_nnzb[ib] == A->MB)
+                {
+                    LOG_ERROR("Number of non-zeroes per row > MB, Increase MB\n");
+                }
                 int ind = ROWMAJOR(ib, A_nnzb[ib], A->NB, A->MB);
                 int nelements = A_bsize[ib] * A_bsize[jb];
                 A_ptr_value[ind]
@@ -263,6 +277,10 @@ void TYPED_FUNC(
                 (&diagonal[offset], A_bsize[ib], 1, 1);
             if (normdiag > threshold)
             {
+                if (A_nnzb[ib] == A->MB)
+                {
+                    LOG_ERROR("Number of non-zeroes per row > MB, Increase MB\n");
+                }
                 int ind = ROWMAJOR(ib, A_nnzb[ib], A->NB, A->MB);
                 int nelemnts = A_bsize[ib] * A_bsize[ib];
                 A_ptr_value[ind] =
-- 
2.43.0


From 76f41ab1c7d43ac9e187a86fc79b04f9ecb4425a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:06 +0000
Subject: [PATCH 06/48] fix: convert between precisions and between ellpack row
 capacities

---
 src/C-interface/bml_convert.c                 | 82 +++++++++++++++++++
 .../ellpack/bml_convert_ellpack_typed.c       |  8 +-
 2 files changed, 86 insertions(+), 4 deletions(-)

diff --git a/src/C-interface/bml_convert.c b/src/C-interface/bml_convert.c
index a6091a2..103575a 100644
--- a/src/C-interface/bml_convert.c
+++ b/src/C-interface/bml_convert.c
@@ -1,4 +1,8 @@
+#include "bml_allocate.h"
 #include "bml_convert.h"
+#include "bml_export.h"
+#include "bml_import.h"
+#include "bml_introspection.h"
 #include "bml_logger.h"
 #include "dense/bml_convert_dense.h"
 #include "ellpack/bml_convert_ellpack.h"
@@ -8,8 +12,82 @@
 #include "distributed2d/bml_convert_distributed2d.h"
 #endif
 
+#include <complex.h>
 #include <stdlib.h>
 
+/** Convert a bml matrix to another type and another precision.
+ *
+ * The imaginary parts are dropped when converting to a real precision.
+ *
+ * \param A The input matrix.
+ * \return The converted matrix.
+ */
+static bml_matrix_t *
+bml_convert_precision(
+    bml_matrix_t * A,
+    bml_matrix_type_t matrix_type,
+    bml_matrix_precision_t matrix_precision,
+    int M,
+    bml_distribution_mode_t distrib_mode)
+{
+    const int N = bml_get_N(A);
+    const size_t n2 = (size_t) N * N;
+    const bml_matrix_precision_t from = bml_get_precision(A);
+
+    void *A_dense = bml_export_to_dense(A, dense_row_major);
+    void *B_dense = bml_allocate_memory(n2 * sizeof(double complex));
+
+    for (size_t k = 0; k < n2; k++)
+    {
+        double complex value = 0.0;
+        switch (from)
+        {
+            case single_real:
+                value = ((float *) A_dense)[k];
+                break;
+            case double_real:
+                value = ((double *) A_dense)[k];
+                break;
+            case single_complex:
+                value = ((float complex *) A_dense)[k];
+                break;
+            case double_complex:
+                value = ((double complex *) A_dense)[k];
+                break;
+            default:
+                LOG_ERROR("unknown precision\n");
+                break;
+        }
+        switch (matrix_precision)
+        {
+            case single_real:
+                ((float *) B_dense)[k] = creal(value);
+                break;
+            case double_real:
+                ((double *) B_dense)[k] = creal(value);
+                break;
+            case single_complex:
+                ((float complex *) B_dense)[k] = value;
+                break;
+            case double_complex:
+                ((double complex *) B_dense)[k] = value;
+                break;
+            default:
+                LOG_ERROR("unknown precision\n");
+                break;
+        }
+    }
+
+    bml_matrix_t *B =
+        bml_import_from_dense(matrix_type, matrix_precision, dense_row_major,
+                              N, M, B_dense, 0.0, distrib_mode);
+
+    bml_free_memory(A_dense);
+    bml_free_memory(B_dense);
+
+    return B;
+}
+
 /** Convert a bml matrix to another type.
  *
  * \f$ A \rightarrow B \f$
@@ -30,6 +108,10 @@ bml_convert(
         return bml_convert_distributed2d(A, matrix_type, matrix_precision, M);
     else
 #endif
+    if (bml_get_precision(A) != matrix_precision)
+        return bml_convert_precision(A, matrix_type, matrix_precision, M,
+                                     distrib_mode);
+    else
         switch (matrix_type)
         {
             case dense:
diff --git a/src/C-interface/ellpack/bml_convert_ellpack_typed.c b/src/C-interface/ellpack/bml_convert_ellpack_typed.c
index 2cf5062..c1b5fda 100644
--- a/src/C-interface/ellpack/bml_convert_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_convert_ellpack_typed.c
@@ -1,5 +1,6 @@
 #include "../../macros.h"
 #include "../../typed.h"
+#include "../bml_allocate.h"
 #include "../bml_getters.h"
 #include "../bml_introspection.h"
 #include "../bml_logger.h"
@@ -28,10 +29,9 @@ bml_matrix_ellpack_t *TYPED_FUNC(
 
     for (int i = 0; i < N; i++)
     {
-        for (int j = 0; j < N; j++)
-        {
-            bml_set_element(B, i, j, bml_get_element(A, i, j));
-        }
+        REAL_T *row = bml_get_row(A, i);
+        bml_set_row(B, i, row, 0.0);
+        bml_free_memory(row);
     }
 
     return B;
-- 
2.43.0


From e29a2609427dcd459b4a32be804e275d17bff556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:06 +0000
Subject: [PATCH 07/48] fix: free the previous local block in
 bml_convert_distributed2d

---
 src/C-interface/distributed2d/bml_convert_distributed2d.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/C-interface/distributed2d/bml_convert_distributed2d.c b/src/C-interface/distributed2d/bml_convert_distributed2d.c
index 8abf870..9bab299 100644
--- a/src/C-interface/distributed2d/bml_convert_distributed2d.c
+++ b/src/C-interface/distributed2d/bml_convert_distributed2d.c
@@ -1,3 +1,4 @@
+#include "../bml_allocate.h"
 #include "../bml_introspection.h"
 #include "../bml_convert.h"
 #include "../bml_logger.h"
@@ -22,6 +23,7 @@ bml_convert_distributed2d(
                                                                   M);
     bml_matrix_t *matrix = bml_get_local_matrix(A);
     int m = bml_get_M(matrix);
+    bml_deallocate(&B->matrix);
     B->matrix = bml_convert(matrix, matrix_type,
                             matrix_precision, m, sequential);
 
-- 
2.43.0


From f868e2a5e9c04f883fa344e49c7bb0456135fb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:06 +0000
Subject: [PATCH 08/48] fix: report capacity overflow when importing into
 ellpack and ellblock

---
 src/C-interface/ellblock/bml_import_ellblock_typed.c | 5 +++++
 src/C-interface/ellpack/bml_import_ellpack_typed.c   | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/C-interface/ellblock/bml_import_ellblock_typed.c b/src/C-interface/ellblock/bml_import_ellblock_typed.c
index 760073d..a6fe310 100644
--- a/src/C-interface/ellblock/bml_import_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_import_ellblock_typed.c
@@ -85,6 +85,11 @@ bml_matrix_ellblock_t
                 (A_ij, A_bsize[ib], A_bsize[jb], A_bsize[jb]);
             if (norminf > threshold)
             {
+                if (A_nnzb[ib] == MB)
+                {
+                    LOG_ERROR
+                        ("Number of non-zeroes per row > MB, Increase MB\n");
+                }
                 int ind = ROWMAJOR(ib, A_nnzb[ib], NB, MB);
                 A_bml->ptr_value[ind] =
                     TYPED_FUNC(bml_allocate_block_ellblock) (A_bml, ib,
diff --git a/src/C-interface/ellpack/bml_import_ellpack_typed.c b/src/C-interface/ellpack/bml_import_ellpack_typed.c
index dc811d5..ebfe3a6 100644
--- a/src/C-interface/ellpack/bml_import_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_import_ellpack_typed.c
@@ -62,6 +62,11 @@ bml_matrix_ellpack_t
             }
             if (is_above_threshold(A_ij, threshold))
             {
+                if (A_nnz[i] == M)
+                {
+                    LOG_ERROR
+                        ("Number of non-zeroes per row > M, Increase M\n");
+                }
                 A_value[ROWMAJOR(i, A_nnz[i], N, M)] = A_ij;
                 A_index[ROWMAJOR(i, A_nnz[i], N, M)] = j;
                 A_nnz[i]++;
-- 
2.43.0


From 0b60195e4bead27e92ce4b7624243aeace52ae83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:06 +0000
Subject: [PATCH 09/48] fix: keep ellblock block sizes consistent per matrix
 size

---
 .../ellblock/bml_allocate_ellblock.c          | 95 ++++++++++++++-----
 .../ellblock/bml_allocate_ellblock_typed.c    | 11 ++-
 .../ellblock/bml_submatrix_ellblock_typed.c   | 63 +++++++++---
 3 files changed, 128 insertions(+), 41 deletions(-)

diff --git a/src/C-interface/ellblock/bml_allocate_ellblock.c b/src/C-interface/ellblock/bml_allocate_ellblock.c
index 2651009..3c471f9 100644
--- a/src/C-interface/ellblock/bml_allocate_ellblock.c
+++ b/src/C-interface/ellblock/bml_allocate_ellblock.c
@@ -14,6 +14,9 @@
  */
 static int *s_default_bsize = NULL;
 static int s_default_block_dim = 4;
+static int s_default_nb = 0;
+static int s_default_mb = 0;
+static int *s_other_bsize = NULL;
 static int s_nb = 0;
 static int s_mb = 0;
 
@@ -34,10 +37,10 @@ bml_set_block_sizes(
     /*
      * make sure this function is called only once
      */
-    assert(s_nb == 0);
+    assert(s_default_nb == 0);
 
-    s_nb = nb;
-    s_mb = mb;
+    s_default_nb = s_nb = nb;
+    s_default_mb = s_mb = mb;
     s_default_bsize = bml_noinit_allocate_memory(nb * sizeof(int));
     for (int ib = 0; ib < nb; ib++)
     {
@@ -45,39 +48,79 @@ bml_set_block_sizes(
     }
 }
 
+/*
+ * number of row blocks and max. number of blocks/row for a matrix of size N
+ * divided into blocks of default size
+ */
+static int *
+bml_default_block_sizes(
+    int N,
+    int M,
+    int *nb,
+    int *mb)
+{
+    *nb = N / s_default_block_dim;
+    if (*nb * s_default_block_dim < N)
+        (*nb)++;
+
+    *mb = M / s_default_block_dim;
+    if (*mb * s_default_block_dim < M)
+        (*mb)++;
+    if (*mb < 4)
+        *mb = 4;
+    // the number of blocks/row cannot exceed the number
+    // of row blocks
+    if (*mb > *nb)
+        *mb = *nb;
+
+    int *bsize = bml_noinit_allocate_memory(*nb * sizeof(int));
+    for (int ib = 0; ib < *nb - 1; ib++)
+    {
+        bsize[ib] = s_default_block_dim;
+    }
+    bsize[*nb - 1] = N - s_default_block_dim * (*nb - 1);
+
+    return bsize;
+}
+
+/*
+ * get the block sizes to use for a matrix of size N, and make the functions
+ * bml_get_nb() and bml_get_mb() return the corresponding values
+ */
 int *
 bml_get_block_sizes(
     int N,
     int M)
 {
+    assert(N > 0);
+
     if (s_default_bsize == NULL)
     {
         assert(M > 0);
 
-        s_nb = N / s_default_block_dim;
-        if (s_nb * s_default_block_dim < N)
-            s_nb++;
-        printf("s_nb = %d\n", s_nb);
-
-        s_mb = M / s_default_block_dim;
-        if (s_mb * s_default_block_dim < M)
-            s_mb++;
-        if (s_mb < 4)
-            s_mb = 4;
-        // the number of blocks/row cannot exceed the number
-        // of row blocks
-        if (s_mb > s_nb)
-            s_mb = s_nb;
-        printf("s_mb = %d\n", s_mb);
-
-        s_default_bsize = bml_noinit_allocate_memory(s_nb * sizeof(int));
-        for (int ib = 0; ib < s_nb - 1; ib++)
-        {
-            s_default_bsize[ib] = s_default_block_dim;
-        }
-        s_default_bsize[s_nb - 1] = N - s_default_block_dim * (s_nb - 1);
+        s_default_bsize =
+            bml_default_block_sizes(N, M, &s_default_nb, &s_default_mb);
+        printf("s_nb = %d\n", s_default_nb);
+        printf("s_mb = %d\n", s_default_mb);
     }
-    return s_default_bsize;
+
+    int default_N = 0;
+    for (int ib = 0; ib < s_default_nb; ib++)
+        default_N += s_default_bsize[ib];
+
+    if (default_N == N)
+    {
+        s_nb = s_default_nb;
+        s_mb = s_default_mb;
+        return s_default_bsize;
+    }
+
+    // matrix of another size: it cannot use the same block sizes
+    if (s_other_bsize != NULL)
+        bml_free_memory(s_other_bsize);
+    s_other_bsize = bml_default_block_sizes(N, M, &s_nb, &s_mb);
+
+    return s_other_bsize;
 }
 
 int
diff --git a/src/C-interface/ellblock/bml_allocate_ellblock_typed.c b/src/C-interface/ellblock/bml_allocate_ellblock_typed.c
index 43fc371..e8eba77 100644
--- a/src/C-interface/ellblock/bml_allocate_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_allocate_ellblock_typed.c
@@ -140,6 +140,8 @@ void TYPED_FUNC(
             bml_free_memory(A->ptr_value[ind]);
         }
 #endif
+    for (int i = 0; i < A->NB * A->MB; i++)
+        A->ptr_value[i] = NULL;
     memset(A->nnzb, 0, A->NB * sizeof(int));
 }
 
@@ -152,9 +154,12 @@ bml_matrix_ellblock_t
     int N = matrix_dimension.N_rows;
     int M = matrix_dimension.N_nz_max;
 
-    return TYPED_FUNC(bml_block_matrix_ellblock) (bml_get_nb(), bml_get_mb(),
-                                                  M, bml_get_block_sizes(N,
-                                                                         0),
+    //use default block values that could have been reset by user
+    int *bsize = bml_get_block_sizes(N, M);
+    int mb = bml_get_mb();
+    int nb = bml_get_nb();
+
+    return TYPED_FUNC(bml_block_matrix_ellblock) (nb, mb, M, bsize,
                                                   distrib_mode);
 }
 
diff --git a/src/C-interface/ellblock/bml_submatrix_ellblock_typed.c b/src/C-interface/ellblock/bml_submatrix_ellblock_typed.c
index 9b3fe7e..f39911f 100644
--- a/src/C-interface/ellblock/bml_submatrix_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_submatrix_ellblock_typed.c
@@ -34,16 +34,6 @@ bml_matrix_ellblock_t
     int *A_nnzb = A->nnzb;
     REAL_T **A_ptr_value = (REAL_T **) A->ptr_value;
 
-    bml_matrix_ellblock_t *B;
-    B = TYPED_FUNC(bml_zero_matrix_ellblock) (B_N, B_M, A->distribution_mode);
-
-    int *B_indexb = B->indexb;
-    int *B_nnzb = B->nnzb;
-    REAL_T **B_ptr_value = (REAL_T **) B->ptr_value;
-
-    int B_NB = B->NB;
-    int B_MB = B->MB;
-
     int *bsize = A->bsize;
     int count = 0;
     int irowb = 0;
@@ -68,9 +58,30 @@ bml_matrix_ellblock_t
     int nb = 0;
     while (count < B_N)
     {
-        count += bsize[nb];
+        if (irowb + nb >= A_NB || icolb + nb >= A_NB
+            || bsize[irowb + nb] != bsize[icolb + nb])
+        {
+            LOG_ERROR("submatrix does not match block structure\n");
+        }
+        count += bsize[irowb + nb];
         nb++;
     }
+    if (count != B_N)
+    {
+        LOG_ERROR("submatrix does not match block structure\n");
+    }
+
+    //use the block sizes of A
+    bml_matrix_ellblock_t *B =
+        TYPED_FUNC(bml_block_matrix_ellblock) (nb, nb, B_M, bsize + irowb,
+                                               A->distribution_mode);
+
+    int *B_indexb = B->indexb;
+    int *B_nnzb = B->nnzb;
+    REAL_T **B_ptr_value = (REAL_T **) B->ptr_value;
+
+    int B_NB = B->NB;
+    int B_MB = B->MB;
 
     // loop over subset of block rows of A
     for (int ib = irowb; ib < irowb + nb; ib++)
@@ -149,13 +160,41 @@ void TYPED_FUNC(
     }
     assert(count == icol);
 
+    if (irowb + B_NB > A_NB || icolb + B_NB > A_NB)
+    {
+        LOG_ERROR("submatrix does not fit into matrix\n");
+    }
+    for (int ib = 0; ib < B_NB; ib++)
+    {
+        if (B->bsize[ib] != bsize[ib + irowb]
+            || B->bsize[ib] != bsize[ib + icolb])
+        {
+            LOG_ERROR("submatrix does not match block structure\n");
+        }
+    }
+
     // loop over block rows of B
     for (int ib = 0; ib < B_NB; ib++)
     {
+        // remove blocks of A to be replaced
+        for (int jp = A_nnzb[ib + irowb] - 1; jp >= 0; jp--)
+        {
+            int jb = A_indexb[ROWMAJOR(ib + irowb, jp, A_NB, A_MB)];
+            if (jb >= icolb && jb < icolb + B_NB)
+            {
+                TYPED_FUNC(bml_free_block_ellblock) (A, ib + irowb, jb);
+            }
+        }
+
         for (int jp = 0; jp < B_nnzb[ib]; jp++)
         {
             int jb = B_indexb[ROWMAJOR(ib, jp, B_NB, B_MB)];
-            int nelements = bsize[ib] * bsize[jb];
+            int nelements = B->bsize[ib] * B->bsize[jb];
+            if (A_nnzb[ib + irowb] == A_MB)
+            {
+                LOG_ERROR
+                    ("Number of non-zeroes per row > MB, Increase MB\n");
+            }
             int indA = ROWMAJOR(ib + irowb, A_nnzb[ib + irowb], A_NB, A_MB);
             int indB = ROWMAJOR(ib, jp, B_NB, B_MB);
             A_ptr_value[indA] =
-- 
2.43.0


From 9dac62aff36ebf8b8df2c03f63f3e11d34f9c585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:10 +0000
Subject: [PATCH 10/48] fix: transpose ellpack and ellblock matrices without
 overrunning rows

---
 .../ellblock/bml_transpose_ellblock.h         |  24 --
 .../ellblock/bml_transpose_ellblock_typed.c   | 214 ++++--------------
 .../ellpack/bml_transpose_ellpack_typed.c     |  32 ++-
 3 files changed, 74 insertions(+), 196 deletions(-)

diff --git a/src/C-interface/ellblock/bml_transpose_ellblock.h b/src/C-interface/ellblock/bml_transpose_ellblock.h
index 168131b..474468e 100644
--- a/src/C-interface/ellblock/bml_transpose_ellblock.h
+++ b/src/C-interface/ellblock/bml_transpose_ellblock.h
@@ -3,30 +3,6 @@
 
 #include "bml_types_ellblock.h"
 
-void ellblock_swap_block_row_entries_single_real(
-    bml_matrix_ellblock_t * A,
-    const int block_row,
-    const int iposb,
-    const int jposb);
-
-void ellblock_swap_block_row_entries_double_real(
-    bml_matrix_ellblock_t * A,
-    const int block_row,
-    const int iposb,
-    const int jposb);
-
-void ellblock_swap_block_row_entries_single_complex(
-    bml_matrix_ellblock_t * A,
-    const int block_row,
-    const int iposb,
-    const int jposb);
-
-void ellblock_swap_block_row_entries_double_complex(
-    bml_matrix_ellblock_t * A,
-    const int block_row,
-    const int iposb,
-    const int jposb);
-
 bml_matrix_ellblock_t *bml_transpose_new_ellblock(
     bml_matrix_ellblock_t * A);
 
diff --git a/src/C-interface/ellblock/bml_transpose_ellblock_typed.c b/src/C-interface/ellblock/bml_transpose_ellblock_typed.c
index e4ea7ac..de687bb 100644
--- a/src/C-interface/ellblock/bml_transpose_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_transpose_ellblock_typed.c
@@ -1,6 +1,7 @@
 #include "../../macros.h"
 #include "../../typed.h"
 #include "../bml_allocate.h"
+#include "../bml_logger.h"
 #include "../bml_parallel.h"
 #include "../bml_transpose.h"
 #include "../bml_types.h"
@@ -52,12 +53,17 @@ bml_matrix_ellblock_t
         {
             int indA = ROWMAJOR(ib, jp, NB, MB);
             int jb = A_indexb[indA];
+            if (B_nnzb[jb] == MB)
+            {
+                LOG_ERROR
+                    ("Number of non-zeroes per row > MB, Increase MB\n");
+            }
             int indB = ROWMAJOR(jb, B_nnzb[jb], NB, MB);
             //add a new block in B
             B_indexb[indB] = ib;
             int nelements = bsize[ib] * bsize[jb];
             B_ptr_value[indB] =
-                TYPED_FUNC(bml_allocate_block_ellblock) (B, ib, nelements);
+                TYPED_FUNC(bml_allocate_block_ellblock) (B, jb, nelements);
             B_nnzb[jb]++;
             //transpose block
             REAL_T *B_value = B_ptr_value[indB];
@@ -72,39 +78,6 @@ bml_matrix_ellblock_t
     return B;
 }
 
-/** swap block row entries in position iposb and jposb.
- *
- * column indexes and non-zero entries are swapped
- *
- * \ingroup transpose_group
- *
- * \param A The matrix.
- */
-void TYPED_FUNC(
-    ellblock_swap_block_row_entries) (
-    bml_matrix_ellblock_t * A,
-    const int block_row,
-    const int iposb,
-    const int jposb)
-{
-    if (iposb == jposb)
-        return;
-
-    int NB = A->NB;
-    int MB = A->MB;
-    REAL_T **A_ptr_value = (REAL_T **) A->ptr_value;
-    int *A_indexb = A->indexb;
-
-    REAL_T *tmp = A_ptr_value[ROWMAJOR(block_row, iposb, NB, MB)];  
-    int itmp = A_indexb[ROWMAJOR(block_row, iposb, NB, MB)];  
-
-    /* swap block data pointers */
-    A_ptr_value[ROWMAJOR(block_row, iposb, NB, MB)] = A_ptr_value[ROWMAJOR(block_row, jposb, NB, MB)];
-    A_ptr_value[ROWMAJOR(block_row, jposb, NB, MB)] = tmp;
-    A_indexb[ROWMAJOR(block_row, iposb, NB, MB)] = A_indexb[ROWMAJOR(block_row, jposb, NB, MB)];
-    A_indexb[ROWMAJOR(block_row, jposb, NB, MB)] = itmp;
-}
-
 /** Transpose a matrix in place.
  *
  *  \ingroup transpose_group
@@ -125,146 +98,57 @@ void TYPED_FUNC(
     int *bsize = A->bsize;
 
     int max_block_size = 0;
-    for(int i=0; i<NB; i++)
+    for (int ib = 0; ib < NB; ib++)
     {
-        max_block_size = max_block_size >= bsize[i] ? max_block_size : bsize[i];
+        max_block_size = MAX(max_block_size, bsize[ib]);
     }
-    const int BUFFER_SIZE = max_block_size * max_block_size;
-
-    REAL_T buffer[BUFFER_SIZE];
+    REAL_T *buffer =
+        bml_noinit_allocate_memory(sizeof(REAL_T) * max_block_size *
+                                   max_block_size);
 
-    int nz_t[NB];
-    memset(nz_t, 0, sizeof(int) * NB);
+    // new list of blocks for each block row
+    REAL_T **ptr_value = bml_allocate_memory(sizeof(REAL_T *) * NB * MB);
+    int *indexb = bml_allocate_memory(sizeof(int) * NB * MB);
+    int *nnzb = bml_allocate_memory(sizeof(int) * NB);
+    for (int i = 0; i < NB * MB; i++)
+        ptr_value[i] = NULL;
 
     for (int ib = 0; ib < NB; ib++)
     {
-        const int innzb = A_nnzb[ib];
-        int iposb = innzb - 1;
-        while (iposb >= nz_t[ib])
+        for (int jp = 0; jp < A_nnzb[ib]; jp++)
         {
-            const int jb = A_indexb[ROWMAJOR(ib, iposb, NB, MB)];
-            if (jb > ib)
-            {
-                const int jnnzb = A_nnzb[jb];
-                const int jbstart = nz_t[jb];
-                int found = 0;
-                /* search for symmetric position */
-                for (int jposb = jbstart; jposb < jnnzb; jposb++)
-                {
-                    /* symmetric position found so just swap block entries */
-                    if (A_indexb[ROWMAJOR(jb, jposb, NB, MB)] == ib)
-                    {
-                        /* swap and transpose block row entries in row ib position iposb 
-                         * row jb position jposb. 
-                        */
-                        REAL_T *A_value_ib = A_ptr_value[ROWMAJOR(ib, iposb, NB, MB)];
-                        REAL_T *A_value_jb = A_ptr_value[ROWMAJOR(jb, jposb, NB, MB)];
-
-                        for (int ii = 0; ii < bsize[ib]; ii++)
-                        {
-                            for (int jj = 0; jj < bsize[jb]; jj++)
-                            {
-                                REAL_T tmp = A_value_ib[ROWMAJOR(ii, jj, bsize[ib], bsize[jb])];
-                                A_value_ib[ROWMAJOR(ii, jj, bsize[ib], bsize[jb])] =
-                                A_value_jb[ROWMAJOR(jj, ii, bsize[jb], bsize[ib])];
-                                A_value_jb[ROWMAJOR(jj, ii, bsize[jb], bsize[ib])] = tmp;
-                            }
-                        }
+            const int ind = ROWMAJOR(ib, jp, NB, MB);
+            const int jb = A_indexb[ind];
+            REAL_T *A_value = A_ptr_value[ind];
 
-                        /* swap position in row i to process next entry */
-                        TYPED_FUNC(ellblock_swap_block_row_entries) (A, ib, iposb, nz_t[ib]);
-                        /* swap position in row j */
-                        TYPED_FUNC(ellblock_swap_block_row_entries) (A, jb, jposb,
-                                                          nz_t[jb]);
-                        /* update nonzero count */
-                        nz_t[ib]++;
-                        nz_t[jb]++;
-                        found = 1;
-                        break;
-                    }
-                }
-                if (!found)
-                {
-                    /* nonsymmetric entry. Insert block entries and swap position */
-                    const int nnz_jb = A_nnzb[jb];
-                    A_ptr_value[ROWMAJOR(jb, A_nnzb[jb], NB, MB)] = A_ptr_value[ROWMAJOR(ib, iposb, NB, MB)];
-                    A_indexb[ROWMAJOR(jb, A_nnzb[jb], NB, MB)] = ib;
-                    A_nnzb[jb]++;
-                    
-                    /* transpose inserted block */
-                    REAL_T *A_value_jb = A_ptr_value[ROWMAJOR(jb, nnz_jb, NB, MB)];
-                    for (int ii = 0; ii < bsize[ib]; ii++)
-                    {
-                        for (int jj = 0; jj < bsize[jb]; jj++)
-                        {
-                            buffer[COLMAJOR(ii, jj, bsize[ib], bsize[jb])] = 
-                            A_value_jb[ROWMAJOR(ii, jj, bsize[ib], bsize[jb])];
-                        }
-                    }
-                    const int blocksize = bsize[ib] * bsize[jb];
-                    memcpy(A_value_jb, buffer, blocksize * sizeof(REAL_T));
-
-                    /* swap position in updated row j */
-                    const int nzposb = A_nnzb[jb] - 1;
-                    TYPED_FUNC(ellblock_swap_block_row_entries) (A, jb, nzposb,
-                                                      nz_t[jb]);
-                    /* update nonzero count */
-                    nz_t[jb]++;
-                    A_nnzb[ib]--;
-                    /* update ipos */
-                    iposb--;
-                }
-            }
-            else if (jb < ib)
+            if (nnzb[jb] == MB)
             {
-                // insert block entries in block row jb
-                const int nnz_jb = A_nnzb[jb];
-                A_ptr_value[ROWMAJOR(jb, nnz_jb, NB, MB)] = A_ptr_value[ROWMAJOR(ib, iposb, NB, MB)];
-                A_indexb[ROWMAJOR(jb, nnz_jb, NB, MB)] = ib;
-                A_nnzb[jb]++;
-
-                /* transpose inserted block */
-                REAL_T *A_value_jb = A_ptr_value[ROWMAJOR(jb, nnz_jb, NB, MB)];
-                for (int ii = 0; ii < bsize[ib]; ii++)
-                {
-                    for (int jj = 0; jj < bsize[jb]; jj++)
-                    {
-                        buffer[COLMAJOR(ii, jj, bsize[ib], bsize[jb])] = 
-                        A_value_jb[ROWMAJOR(ii, jj, bsize[ib], bsize[jb])];
-                    }
-                }
-                const int blocksize = bsize[ib] * bsize[jb];
-                memcpy(A_value_jb, buffer, blocksize * sizeof(REAL_T)); 
-
-                /* swap position in updated row j */
-                const int nzposb = A_nnzb[jb] - 1;
-                TYPED_FUNC(ellblock_swap_block_row_entries) (A, jb, nzposb,
-                                                  nz_t[jb]);
-                /* update nonzero count */
-                nz_t[jb]++;
-                A_nnzb[ib]--;
-                /* update ipos */
-                iposb--;
-            }
-            else /* jb == ib*/
-            {
-                REAL_T *A_value_ib = A_ptr_value[ROWMAJOR(ib, iposb, NB, MB)];
-                for (int ii = 0; ii < bsize[ib]; ii++)
-                {
-                    for (int jj = ii; jj < bsize[ib]; jj++)
-                    {
-                        REAL_T tmp = A_value_ib[ROWMAJOR(ii, jj, bsize[ib], bsize[ib])];
-                        A_value_ib[ROWMAJOR(ii, jj, bsize[ib], bsize[ib])] =
-                        A_value_ib[ROWMAJOR(jj, ii, bsize[ib], bsize[ib])];
-                        A_value_ib[ROWMAJOR(jj, ii, bsize[ib], bsize[ib])] = tmp;
-                    }
-                }
-                /* swap position in row ib */
-                TYPED_FUNC(ellblock_swap_block_row_entries) (A, ib, iposb,
-                                                  nz_t[ib]);
-                /* update nonzero count */
-                nz_t[ib]++;
+                LOG_ERROR
+                    ("Number of non-zeroes per row > MB, Increase MB\n");
             }
+
+            /* transpose block */
+            const int nelements = bsize[ib] * bsize[jb];
+            memcpy(buffer, A_value, nelements * sizeof(REAL_T));
+            for (int ii = 0; ii < bsize[ib]; ii++)
+                for (int jj = 0; jj < bsize[jb]; jj++)
+                    A_value[ROWMAJOR(jj, ii, bsize[jb], bsize[ib])] =
+                        buffer[ROWMAJOR(ii, jj, bsize[ib], bsize[jb])];
+
+            /* insert block into block row jb */
+            const int indt = ROWMAJOR(jb, nnzb[jb], NB, MB);
+            ptr_value[indt] = A_value;
+            indexb[indt] = ib;
+            nnzb[jb]++;
         }
     }
-}
\ No newline at end of file
+
+    memcpy(A_ptr_value, ptr_value, sizeof(REAL_T *) * NB * MB);
+    memcpy(A_indexb, indexb, sizeof(int) * NB * MB);
+    memcpy(A_nnzb, nnzb, sizeof(int) * NB);
+
+    bml_free_memory(buffer);
+    bml_free_memory(ptr_value);
+    bml_free_memory(indexb);
+    bml_free_memory(nnzb);
+}
diff --git a/src/C-interface/ellpack/bml_transpose_ellpack_typed.c b/src/C-interface/ellpack/bml_transpose_ellpack_typed.c
index 6ef38fd..59a28a9 100644
--- a/src/C-interface/ellpack/bml_transpose_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_transpose_ellpack_typed.c
@@ -5,6 +5,7 @@
 #include "../bml_transpose.h"
 #include "../bml_types.h"
 #include "bml_allocate_ellpack.h"
+#include "bml_copy_ellpack.h"
 #include "bml_transpose_ellpack.h"
 #include "bml_types_ellpack.h"
 #include "../bml_logger.h"
@@ -20,7 +21,6 @@
 
 #ifdef BML_USE_CUSPARSE
 #include <cusparse.h>
-#include "bml_copy_ellpack.h"
 #endif
 
 #define COMPUTE_ON_HOST
@@ -87,6 +87,13 @@ bml_matrix_ellpack_t
                 omp_set_lock(&row_lock[trow]);
 #endif
                 int colcnt = B_nnz[trow];
+#ifndef USE_OMP_OFFLOAD
+                if (colcnt == M)
+                {
+                    LOG_ERROR
+                        ("Number of non-zeroes per row > M, Increase M\n");
+                }
+#endif
                 B_index[ROWMAJOR(trow, colcnt, N, M)] = i;
                 B_value[ROWMAJOR(trow, colcnt, N, M)] =
                     A_value[ROWMAJOR(i, j, N, M)];
@@ -98,6 +105,14 @@ bml_matrix_ellpack_t
         }
     }                           // end target region
 
+#ifdef _OPENMP
+    for (int i = 0; i < N; i++)
+    {
+        omp_destroy_lock(&row_lock[i]);
+    }
+    bml_free_memory(row_lock);
+#endif
+
 #if defined (USE_OMP_OFFLOAD) && defined(COMPUTE_ON_HOST)
 #pragma omp target update to(B_index[:N*M], B_value[:N*M], B_nnz[:N])
 #endif
@@ -407,12 +422,15 @@ void TYPED_FUNC(
     bml_transpose_ellpack) (
     bml_matrix_ellpack_t * A)
 {
-    /* Call in-place transpose function. 
-     * consider: ellpack_transpose_left_looking(A) - for structurally non-symmetric matrices 
-     * consider: ellpack_transpose_right_looking(A) - for structurally symmetric matrices
-     * Either algorithm is sufficient for arbitrary sparse matrices
-    */
-    TYPED_FUNC(ellpack_transpose_left_looking) (A);
+    /* Note: the in-place algorithms
+     * ellpack_transpose_left_looking(A) - for structurally non-symmetric matrices
+     * ellpack_transpose_right_looking(A) - for structurally symmetric matrices
+     * need free entries in rows of structurally non-symmetric matrices while
+     * they exchange entries, even if all the rows of the result fit into M
+     */
+    bml_matrix_ellpack_t *B = TYPED_FUNC(bml_transpose_new_ellpack) (A);
+    TYPED_FUNC(bml_copy_ellpack) (B, A);
+    bml_deallocate_ellpack(B);
 }    
 
 #if defined(BML_USE_CUSPARSE)
-- 
2.43.0


From 688e858af2a03ec8cb0d502c1fec2bdc290bd59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:10 +0000
Subject: [PATCH 11/48] fix: report rows exceeding the capacity in ellpack add
 and multiply

---
 .../bml_element_multiply_ellpack_typed.c      | 15 ++--
 .../ellpack/bml_multiply_ellpack_typed.c      | 68 +++++++++----------
 2 files changed, 38 insertions(+), 45 deletions(-)

diff --git a/src/C-interface/ellpack/bml_element_multiply_ellpack_typed.c b/src/C-interface/ellpack/bml_element_multiply_ellpack_typed.c
index 975d96a..b49d898 100644
--- a/src/C-interface/ellpack/bml_element_multiply_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_element_multiply_ellpack_typed.c
@@ -169,20 +169,19 @@ void TYPED_FUNC(
 
         }
 
-        // Check for number of non-zeroes per row exceeded
-        if (l > C_M)
-        {
-#ifndef USE_OMP_OFFLOAD
-            LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
-#endif
-        }
-
         int ll = 0;
         for (int j = 0; j < l; j++)
         {
             //int jp = C_index[ROWMAJOR(i, j, N, M)];
             int jp = jx[j];
             REAL_T xtmp = x[jp];
+#ifndef USE_OMP_OFFLOAD
+            // Check for number of non-zeroes per row exceeded
+            if (ll == C_M && (jp == i || is_above_threshold(xtmp, threshold)))
+            {
+                LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+            }
+#endif
             if (jp == i)
             {
                 C_value[ROWMAJOR(i, ll, C_N, C_M)] = xtmp;
diff --git a/src/C-interface/ellpack/bml_multiply_ellpack_typed.c b/src/C-interface/ellpack/bml_multiply_ellpack_typed.c
index 7001670..b3cc5a2 100644
--- a/src/C-interface/ellpack/bml_multiply_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_multiply_ellpack_typed.c
@@ -303,6 +303,13 @@ void *TYPED_FUNC(
         {
             int jp = jx[j];
             REAL_T xtmp = x[jp];
+#ifndef USE_OMP_OFFLOAD
+            // Check for number of non-zeroes per row exceeded
+            if (ll == X2_M && (jp == i || is_above_threshold(xtmp, threshold)))
+            {
+                LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+            }
+#endif
             if (jp == i)
             {
                 traceX2 = traceX2 + xtmp;
@@ -319,16 +326,6 @@ void *TYPED_FUNC(
             ix[jp] = 0;
             x[jp] = 0.0;
         }
-        // Check for number of non-zeroes per row exceeded
-        // We should do it before assigning values to X2_value above,
-        // but that would be a lot of checks
-        if (ll > X2_M)
-        {
-#ifndef USE_OMP_OFFLOAD
-            LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
-#endif
-        }
-
         X2_nnz[i] = ll;
     }
 
@@ -510,20 +507,19 @@ void TYPED_FUNC(
             }
         }
 
-        // Check for number of non-zeroes per row exceeded
-        if (l > C_M)
-        {
-#ifndef USE_OMP_OFFLOAD
-            LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
-#endif
-        }
-
         int ll = 0;
         for (int j = 0; j < l; j++)
         {
             //int jp = C_index[ROWMAJOR(i, j, N, M)];
             int jp = jx[j];
             REAL_T xtmp = x[jp];
+#ifndef USE_OMP_OFFLOAD
+            // Check for number of non-zeroes per row exceeded
+            if (ll == C_M && (jp == i || is_above_threshold(xtmp, threshold)))
+            {
+                LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+            }
+#endif
             if (jp == i)
             {
                 C_value[ROWMAJOR(i, ll, C_N, C_M)] = xtmp;
@@ -666,32 +662,26 @@ void TYPED_FUNC(
                 }
             }
 
-            // Check for number of non-zeroes per row exceeded
-            // Need to adjust threshold
-            // ** Shouldn't we break from this loop if aflag is 1?? --DOK
-            if (l > C_M)
-            {
-                aflag = 1;
-            }
-
             int ll = 0;
             for (int j = 0; j < l; j++)
             {
                 //int jp = C_index[ROWMAJOR(i, j, N, M)];
                 int jp = jx[j];
                 REAL_T xtmp = x[jp];
-                // Diagonal elements are saved in first column
-                if (jp == i)
+                if (jp == i || is_above_threshold(xtmp, adjust_threshold))
                 {
-                    C_value[ROWMAJOR(i, ll, C_N, C_M)] = xtmp;
-                    C_index[ROWMAJOR(i, ll, C_N, C_M)] = jp;
-                    ll++;
-                }
-                else if (is_above_threshold(xtmp, adjust_threshold))
-                {
-                    C_value[ROWMAJOR(i, ll, C_N, C_M)] = xtmp;
-                    C_index[ROWMAJOR(i, ll, C_N, C_M)] = jp;
-                    ll++;
+                    // Check for number of non-zeroes per row exceeded
+                    // Need to adjust threshold
+                    if (ll == C_M)
+                    {
+                        aflag = 1;
+                    }
+                    else
+                    {
+                        C_value[ROWMAJOR(i, ll, C_N, C_M)] = xtmp;
+                        C_index[ROWMAJOR(i, ll, C_N, C_M)] = jp;
+                        ll++;
+                    }
                 }
                 ix[jp] = 0;
                 x[jp] = 0.0;
@@ -699,6 +689,10 @@ void TYPED_FUNC(
             C_nnz[i] = ll;
         }
 
+        if (aflag > 0 && !(threshold > 0.0))
+        {
+            LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+        }
         adjust_threshold *= (REAL_T) 2.0;
     }
 #ifdef USE_OMP_OFFLOAD
-- 
2.43.0


From ee5c29ecdaef853f1aab2724d2401c88cec15ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:10 +0000
Subject: [PATCH 12/48] fix: use matrix precision for the factor of
 bml_scale_add_identity, same norm in bml_add_norm for all formats

---
 src/C-interface/csr/bml_add_csr_typed.c       |  3 +-
 src/C-interface/dense/bml_add_dense_typed.c   |  7 +++-
 .../ellpack/bml_add_ellpack_typed.c           | 39 +++++++++++++++----
 3 files changed, 38 insertions(+), 11 deletions(-)

diff --git a/src/C-interface/csr/bml_add_csr_typed.c b/src/C-interface/csr/bml_add_csr_typed.c
index aa9a6ab..ec790d4 100644
--- a/src/C-interface/csr/bml_add_csr_typed.c
+++ b/src/C-interface/csr/bml_add_csr_typed.c
@@ -190,7 +190,8 @@ void TYPED_FUNC(
     double threshold)
 {
     // scale then update diagonal
-    TYPED_FUNC(bml_scale_inplace_csr) (&alpha, A);
+    REAL_T alpha_typed = (REAL_T) alpha;
+    TYPED_FUNC(bml_scale_inplace_csr) (&alpha_typed, A);
 
     TYPED_FUNC(bml_add_identity_csr) (A, beta, threshold);
 }
diff --git a/src/C-interface/dense/bml_add_dense_typed.c b/src/C-interface/dense/bml_add_dense_typed.c
index 95938b0..e88bc70 100644
--- a/src/C-interface/dense/bml_add_dense_typed.c
+++ b/src/C-interface/dense/bml_add_dense_typed.c
@@ -19,6 +19,7 @@
 #include "bml_types_dense.h"
 
 #include <complex.h>
+#include <math.h>
 #include <stdlib.h>
 #include <string.h>
 #include <stdio.h>
@@ -160,6 +161,7 @@ double TYPED_FUNC(
     double beta)
 {
     double trnorm = 0.0;
+    REAL_T *A_matrix = (REAL_T *) A->matrix;
     REAL_T *B_matrix = (REAL_T *) B->matrix;
     int myRank = bml_getMyRank();
     int N = A->N;
@@ -168,14 +170,15 @@ double TYPED_FUNC(
     int *A_localRowMax = A->domain->localRowMax;
 
 #pragma omp parallel for                                \
-  shared(B_matrix, A_localRowMin, A_localRowMax)        \
+  shared(A_matrix, B_matrix, A_localRowMin, A_localRowMax)        \
   shared(N, myRank)                                     \
   reduction(+:trnorm)
     //for (int i = 0; i < N * N; i++)
     for (int i = A_localRowMin[myRank] * N; i < A_localRowMax[myRank] * N;
          i++)
     {
-        trnorm += B_matrix[i] * B_matrix[i];
+        double y = (double) ABS(A_matrix[i] - B_matrix[i]);
+        trnorm += y * y;
     }
 
     TYPED_FUNC(bml_add_dense) (A, B, alpha, beta);
diff --git a/src/C-interface/ellpack/bml_add_ellpack_typed.c b/src/C-interface/ellpack/bml_add_ellpack_typed.c
index 7bed4ed..1ddc74b 100644
--- a/src/C-interface/ellpack/bml_add_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_add_ellpack_typed.c
@@ -2,6 +2,7 @@
 #include "../../typed.h"
 #include "../bml_add.h"
 #include "../bml_allocate.h"
+#include "../bml_logger.h"
 #include "../bml_parallel.h"
 #include "../bml_types.h"
 #include "bml_add_ellpack.h"
@@ -195,6 +196,13 @@ void TYPED_FUNC(
             REAL_T xTmp = x[jind];
             if (is_above_threshold(xTmp, threshold))
             {
+#ifndef USE_OMP_OFFLOAD
+                if (ll == A_M)
+                {
+                    LOG_ERROR
+                        ("Number of non-zeroes per row > M, Increase M\n");
+                }
+#endif
                 A_value[ROWMAJOR(i, ll, N, A_M)] = xTmp;
                 A_index[ROWMAJOR(i, ll, N, A_M)] = jind;
                 ll++;
@@ -382,9 +390,16 @@ double TYPED_FUNC(
         {
             int jind = jx[jp];
             REAL_T xTmp = x[jind];
-            trnorm += y[jind] * y[jind];
+            trnorm += (double) ABS(y[jind]) * (double) ABS(y[jind]);
             if (is_above_threshold(xTmp, threshold))
             {
+#ifndef USE_OMP_OFFLOAD
+                if (ll == A_M)
+                {
+                    LOG_ERROR
+                        ("Number of non-zeroes per row > M, Increase M\n");
+                }
+#endif
                 A_value[ROWMAJOR(i, ll, N, A_M)] = xTmp;
                 A_index[ROWMAJOR(i, ll, N, A_M)] = jind;
                 ll++;
@@ -433,11 +448,11 @@ void TYPED_FUNC(
     //Should be safe to use BML_OFFLOAD_CHUNKS here but preserving old version
     //#if !(defined(__IBMC__) || defined(__ibmxl__) || (defined(USE_OMP_OFFLOAD) && (defined(INTEL_SDK) || defined(CRAY_SDK))))
 #if !(defined(__IBMC__) || defined(__ibmxl__) || (defined(USE_OMP_OFFLOAD) && BML_OFFLOAD_CHUNKS ))
-    int jx[A_M];
-    REAL_T x[A_M];
+    int jx[A_M + 1];
+    REAL_T x[A_M + 1];
 
-    memset(jx, 0, A_M * sizeof(int));
-    memset(x, 0.0, A_M * sizeof(REAL_T));
+    memset(jx, 0, (A_M + 1) * sizeof(int));
+    memset(x, 0.0, (A_M + 1) * sizeof(REAL_T));
 #endif
 
 #if BML_OFFLOAD_CHUNKS
@@ -494,8 +509,8 @@ void TYPED_FUNC(
     {
 
 #if defined(__IBMC__) || defined(__ibmxl__)
-        int jx[A_M];
-        REAL_T x[A_M];
+        int jx[A_M + 1];
+        REAL_T x[A_M + 1];
 #endif
 #endif
         int l = 0;
@@ -533,6 +548,13 @@ void TYPED_FUNC(
             REAL_T xTmp = x[jp];
             if (is_above_threshold(xTmp, threshold))
             {
+#ifndef USE_OMP_OFFLOAD
+                if (ll == A_M)
+                {
+                    LOG_ERROR
+                        ("Number of non-zeroes per row > M, Increase M\n");
+                }
+#endif
                 A_value[ROWMAJOR(i, ll, N, A_M)] = xTmp;
                 A_index[ROWMAJOR(i, ll, N, A_M)] = jind;
                 ll++;
@@ -567,7 +589,8 @@ void TYPED_FUNC(
     double threshold)
 {
     // scale then update diagonal
-    TYPED_FUNC(bml_scale_inplace_ellpack) (&alpha, A);
+    REAL_T alpha_typed = (REAL_T) alpha;
+    TYPED_FUNC(bml_scale_inplace_ellpack) (&alpha_typed, A);
 
     TYPED_FUNC(bml_add_identity_ellpack) (A, beta, threshold);
 }
-- 
2.43.0


From 1ed5a393d7ad9d7ac423fe414733e4632de92910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:10 +0000
Subject: [PATCH 13/48] fix: reorder rows and columns of dense matrices

---
 src/C-interface/dense/bml_copy_dense_typed.c | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/C-interface/dense/bml_copy_dense_typed.c b/src/C-interface/dense/bml_copy_dense_typed.c
index 8130f79..59148a4 100644
--- a/src/C-interface/dense/bml_copy_dense_typed.c
+++ b/src/C-interface/dense/bml_copy_dense_typed.c
@@ -125,22 +125,14 @@ void TYPED_FUNC(
 // pull from GPU
 #pragma omp target update from(A_matrix[0:N*N])
 #endif
-    // Reorder rows - need to copy
-#pragma omp parallel for
-    for (int i = 0; i < N; i++)
-    {
-        memcpy(&A_matrix[ROWMAJOR(perm[i], 0, N, N)],
-               &B_matrix[ROWMAJOR(i, 0, N, N)], N * sizeof(REAL_T));
-    }
-
-    // Reorder elements in each row - just change index
+    // Reorder rows and elements in each row
 #pragma omp parallel for
     for (int i = 0; i < N; i++)
     {
         for (int j = 0; j < N; j++)
         {
-            A_matrix[ROWMAJOR(i, j, N, N)] =
-                B_matrix[ROWMAJOR(i, perm[j], N, N)];
+            A_matrix[ROWMAJOR(perm[i], perm[j], N, N)] =
+                B_matrix[ROWMAJOR(i, j, N, N)];
         }
     }
 #ifdef MKL_GPU
-- 
2.43.0


From 23ee147ce86cfbb07fb92f7cf1d29bc450ce0f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:10 +0000
Subject: [PATCH 14/48] fix: block bookkeeping of ellblock add, copy, scale,
 reorder and multiply

---
 .../ellblock/bml_add_ellblock_typed.c         | 111 +++++++-----
 .../ellblock/bml_allocate_ellblock.c          |  15 +-
 .../ellblock/bml_allocate_ellblock.h          |  16 ++
 .../ellblock/bml_allocate_ellblock_typed.c    |  36 +++-
 .../ellblock/bml_copy_ellblock_typed.c        | 110 ++++++------
 .../ellblock/bml_multiply_ellblock_typed.c    | 161 +++++++++++-------
 .../ellblock/bml_scale_ellblock_typed.c       |  10 +-
 7 files changed, 283 insertions(+), 176 deletions(-)

diff --git a/src/C-interface/ellblock/bml_add_ellblock_typed.c b/src/C-interface/ellblock/bml_add_ellblock_typed.c
index 5f8c770..859eaa8 100644
--- a/src/C-interface/ellblock/bml_add_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_add_ellblock_typed.c
@@ -2,6 +2,7 @@
 #include "../../typed.h"
 #include "../bml_add.h"
 #include "../bml_allocate.h"
+#include "../bml_logger.h"
 #include "../bml_parallel.h"
 #include "../bml_types.h"
 #include "bml_add_ellblock.h"
@@ -40,8 +41,11 @@ void TYPED_FUNC(
     double beta,
     double threshold)
 {
-    assert(A->NB == B->NB);
-    assert(A->bsize[0] == B->bsize[0]);
+    if (A->NB != B->NB
+        || memcmp(A->bsize, B->bsize, A->NB * sizeof(int)) != 0)
+    {
+        LOG_ERROR("block structures of matrices do not match\n");
+    }
 
     int NB = A->NB;
     int MB = A->MB;
@@ -141,7 +145,7 @@ void TYPED_FUNC(
         if (beta > (double) 0.0 || beta < (double) 0.0)
             for (int jp = 0; jp < B_nnzb[ib]; jp++)
             {
-                int ind = ROWMAJOR(ib, jp, NB, MB);
+                int ind = ROWMAJOR(ib, jp, NB, B->MB);
                 int jb = B_indexb[ind];
                 REAL_T *x = x_ptr[jb];
                 int nelements = bsize[ib] * bsize[jb];
@@ -161,30 +165,29 @@ void TYPED_FUNC(
                     x[kk] = x[kk] + beta * B_value[kk];
                 }
             }
-        A_nnzb[ib] = l;
+
+        TYPED_FUNC(bml_clear_row_ellblock) (A, ib);
 
         int ll = 0;
         for (int jp = 0; jp < l; jp++)
         {
             int jb = jx[jp];
             REAL_T *x = x_ptr[jb];
-            REAL_T normx = TYPED_FUNC(bml_norm_inf)
+            double normx = TYPED_FUNC(bml_norm_inf)
                 (x, bsize[ib], bsize[jb], bsize[jb]);
             int nelements = bsize[ib] * bsize[jb];
-            if (is_above_threshold(normx, threshold))
+            if (normx > threshold)
             {
-                int kb = ROWMAJOR(ib, ll, NB, MB);
-                if (A_ptr_value[kb] == NULL)
-                {
-                    A_ptr_value[kb]
-                        =
-                        TYPED_FUNC(bml_allocate_block_ellblock) (A, ib,
-                                                                 nelements);
-                }
-                for (int kk = 0; kk < nelements; kk++)
+                if (ll == MB)
                 {
-                    A_ptr_value[kb][kk] = x[kk];
+                    LOG_ERROR
+                        ("Number of non-zeroes per row > MB, Increase MB\n");
                 }
+                int kb = ROWMAJOR(ib, ll, NB, MB);
+                A_ptr_value[kb] =
+                    TYPED_FUNC(bml_allocate_block_ellblock) (A, ib,
+                                                             nelements);
+                memcpy(A_ptr_value[kb], x, nelements * sizeof(REAL_T));
                 A_indexb[kb] = jb;
                 ll++;
             }
@@ -217,6 +220,12 @@ double TYPED_FUNC(
     double beta,
     double threshold)
 {
+    if (A->NB != B->NB
+        || memcmp(A->bsize, B->bsize, A->NB * sizeof(int)) != 0)
+    {
+        LOG_ERROR("block structures of matrices do not match\n");
+    }
+
     int NB = A->NB;
     int MB = A->MB;
 
@@ -236,20 +245,24 @@ double TYPED_FUNC(
 
     memset(ix, 0, NB * sizeof(int));
     memset(jx, 0, NB * sizeof(int));
-    x[0] = bml_allocate_memory(BMAXSIZE * NB * sizeof(REAL_T));
+
+    int maxbsize = 0;
+    for (int ib = 0; ib < NB; ib++)
+        maxbsize = MAX(maxbsize, bsize[ib]);
+    int maxbsize2 = maxbsize * maxbsize;
+    x[0] = bml_allocate_memory(maxbsize2 * NB * sizeof(REAL_T));
     for (int i = 1; i < NB; i++)
     {
-        x[i] = x[0] + i * BMAXSIZE;
+        x[i] = x[0] + i * maxbsize2;
     }
 
     REAL_T *y[NB];
-    y[0] = bml_allocate_memory(BMAXSIZE * NB * sizeof(REAL_T));
+    y[0] = bml_allocate_memory(maxbsize2 * NB * sizeof(REAL_T));
     for (int i = 1; i < NB; i++)
     {
-        y[i] = y[0] + i * BMAXSIZE;
+        y[i] = y[0] + i * maxbsize2;
     }
 
-
     double trnorm = 0.0;
 
     for (int ib = 0; ib < NB; ib++)
@@ -283,7 +296,7 @@ double TYPED_FUNC(
 
         for (int jp = 0; jp < B_nnzb[ib]; jp++)
         {
-            int ind = ROWMAJOR(ib, jp, NB, MB);
+            int ind = ROWMAJOR(ib, jp, NB, B->MB);
             int jb = B_indexb[ind];
             if (ix[jb] == 0)
             {
@@ -307,28 +320,30 @@ double TYPED_FUNC(
                     y[jb][kk] = y[jb][kk] - B_value[kk];
                 }
         }
-        A_nnzb[ib] = l;
+
+        TYPED_FUNC(bml_clear_row_ellblock) (A, ib);
 
         int ll = 0;
         for (int jp = 0; jp < l; jp++)
         {
             int jb = jx[jp];
-            REAL_T *xTmp = x[jb];
-            REAL_T normx = TYPED_FUNC(bml_norm_inf)
+            double normx = TYPED_FUNC(bml_norm_inf)
                 (x[jb], bsize[ib], bsize[jb], bsize[jb]);
-            REAL_T normy = TYPED_FUNC(bml_sum_squares)
+            int nelements = bsize[ib] * bsize[jb];
+            trnorm += TYPED_FUNC(bml_sum_squares)
                 (y[jb], bsize[ib], bsize[jb], bsize[jb]);
-            trnorm += normy * normy;
-            if (is_above_threshold(normx, threshold))
+            if (normx > threshold)
             {
+                if (ll == MB)
+                {
+                    LOG_ERROR
+                        ("Number of non-zeroes per row > MB, Increase MB\n");
+                }
                 int kb = ROWMAJOR(ib, ll, NB, MB);
-                for (int ii = 0; ii < bsize[ib]; ii++)
-                    for (int jj = 0; jj < bsize[jb]; jj++)
-                    {
-                        int kk = ROWMAJOR(ii, jj, bsize[ib], bsize[jb]);
-                        A_ptr_value[kb][kk] = xTmp[kk];
-                    }
-
+                A_ptr_value[kb] =
+                    TYPED_FUNC(bml_allocate_block_ellblock) (A, ib,
+                                                             nelements);
+                memcpy(A_ptr_value[kb], x[jb], nelements * sizeof(REAL_T));
                 A_indexb[kb] = jb;
                 ll++;
             }
@@ -339,6 +354,9 @@ double TYPED_FUNC(
         A_nnzb[ib] = ll;
     }
 
+    bml_free_memory(x[0]);
+    bml_free_memory(y[0]);
+
     return trnorm;
 }
 
@@ -358,12 +376,24 @@ void TYPED_FUNC(
     double beta,
     double threshold)
 {
-    REAL_T alpha = (REAL_T) 1.0;
-    int M = 1;
+    double alpha = 1.0;
 
+    // identity matrix with the block structure of A
     bml_matrix_ellblock_t *Id =
-        TYPED_FUNC(bml_identity_matrix_ellblock) (A->N, M,
-                                                  A->distribution_mode);
+        TYPED_FUNC(bml_block_matrix_ellblock) (A->NB, 1, A->M, A->bsize,
+                                               A->distribution_mode);
+    REAL_T **Id_ptr_value = (REAL_T **) Id->ptr_value;
+    for (int ib = 0; ib < A->NB; ib++)
+    {
+        int nelements = A->bsize[ib] * A->bsize[ib];
+        Id_ptr_value[ib] =
+            TYPED_FUNC(bml_allocate_block_ellblock) (Id, ib, nelements);
+        memset(Id_ptr_value[ib], 0, nelements * sizeof(REAL_T));
+        for (int ii = 0; ii < A->bsize[ib]; ii++)
+            Id_ptr_value[ib][ii * (A->bsize[ib] + 1)] = 1.0;
+        Id->indexb[ib] = ib;
+        Id->nnzb[ib] = 1;
+    }
 
     TYPED_FUNC(bml_add_ellblock) (A, Id, alpha, beta, threshold);
 
@@ -389,7 +419,8 @@ void TYPED_FUNC(
     double threshold)
 {
     // scale then update diagonal
-    TYPED_FUNC(bml_scale_inplace_ellblock) (&alpha, A);
+    REAL_T alpha_typed = (REAL_T) alpha;
+    TYPED_FUNC(bml_scale_inplace_ellblock) (&alpha_typed, A);
 
     TYPED_FUNC(bml_add_identity_ellblock) (A, beta, threshold);
 }
diff --git a/src/C-interface/ellblock/bml_allocate_ellblock.c b/src/C-interface/ellblock/bml_allocate_ellblock.c
index 3c471f9..1b03d72 100644
--- a/src/C-interface/ellblock/bml_allocate_ellblock.c
+++ b/src/C-interface/ellblock/bml_allocate_ellblock.c
@@ -94,28 +94,19 @@ bml_get_block_sizes(
 {
     assert(N > 0);
 
-    if (s_default_bsize == NULL)
-    {
-        assert(M > 0);
-
-        s_default_bsize =
-            bml_default_block_sizes(N, M, &s_default_nb, &s_default_mb);
-        printf("s_nb = %d\n", s_default_nb);
-        printf("s_mb = %d\n", s_default_mb);
-    }
-
     int default_N = 0;
     for (int ib = 0; ib < s_default_nb; ib++)
         default_N += s_default_bsize[ib];
 
-    if (default_N == N)
+    if (s_default_bsize != NULL && default_N == N)
     {
         s_nb = s_default_nb;
         s_mb = s_default_mb;
         return s_default_bsize;
     }
 
-    // matrix of another size: it cannot use the same block sizes
+    // block sizes were not set for matrices of this size
+    assert(M > 0);
     if (s_other_bsize != NULL)
         bml_free_memory(s_other_bsize);
     s_other_bsize = bml_default_block_sizes(N, M, &s_nb, &s_mb);
diff --git a/src/C-interface/ellblock/bml_allocate_ellblock.h b/src/C-interface/ellblock/bml_allocate_ellblock.h
index 955175d..704efa3 100644
--- a/src/C-interface/ellblock/bml_allocate_ellblock.h
+++ b/src/C-interface/ellblock/bml_allocate_ellblock.h
@@ -210,6 +210,22 @@ int bml_get_nb(
 int count_nelements(
     bml_matrix_ellblock_t * A);
 
+void bml_clear_row_ellblock_single_real(
+    bml_matrix_ellblock_t * A,
+    const int ib);
+
+void bml_clear_row_ellblock_double_real(
+    bml_matrix_ellblock_t * A,
+    const int ib);
+
+void bml_clear_row_ellblock_single_complex(
+    bml_matrix_ellblock_t * A,
+    const int ib);
+
+void bml_clear_row_ellblock_double_complex(
+    bml_matrix_ellblock_t * A,
+    const int ib);
+
 void *bml_allocate_block_ellblock_single_real(
     bml_matrix_ellblock_t * A,
     const int ib,
diff --git a/src/C-interface/ellblock/bml_allocate_ellblock_typed.c b/src/C-interface/ellblock/bml_allocate_ellblock_typed.c
index e8eba77..af3eb9b 100644
--- a/src/C-interface/ellblock/bml_allocate_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_allocate_ellblock_typed.c
@@ -116,6 +116,33 @@ void TYPED_FUNC(
     A->nnzb[ib]--;
 }
 
+/** Remove all the blocks of a block row.
+ *
+ * \ingroup allocate_group
+ *
+ * \param A The matrix.
+ * \param ib The block row.
+ */
+void TYPED_FUNC(
+    bml_clear_row_ellblock) (
+    bml_matrix_ellblock_t * A,
+    const int ib)
+{
+#ifdef BML_ELLBLOCK_USE_MEMPOOL
+    A->memory_pool_ptr[ib] =
+        (REAL_T *) A->memory_pool + A->memory_pool_offsets[ib];
+#endif
+    for (int jp = 0; jp < A->nnzb[ib]; jp++)
+    {
+        int ind = ROWMAJOR(ib, jp, A->NB, A->MB);
+#ifndef BML_ELLBLOCK_USE_MEMPOOL
+        bml_free_memory(A->ptr_value[ind]);
+#endif
+        A->ptr_value[ind] = NULL;
+    }
+    A->nnzb[ib] = 0;
+}
+
 /** Clear a matrix.
  *
  * Numbers of non-zeroes/row are set to zero.
@@ -284,8 +311,15 @@ bml_matrix_ellblock_t *TYPED_FUNC(
     int M,
     bml_distribution_mode_t distrib_mode)
 {
+    int *bsize = bml_get_block_sizes(N, M);
+    int mb = bml_get_mb();
+    int nb = bml_get_nb();
+    // a band not aligned with the blocks overlaps with more blocks
+    mb = MIN(mb + 2, nb);
+
     bml_matrix_ellblock_t *A =
-        TYPED_FUNC(bml_zero_matrix_ellblock) (N, M, distrib_mode);
+        TYPED_FUNC(bml_block_matrix_ellblock) (nb, mb, M, bsize,
+                                               distrib_mode);
 
     for (int i = 0; i < N; i++)
     {
diff --git a/src/C-interface/ellblock/bml_copy_ellblock_typed.c b/src/C-interface/ellblock/bml_copy_ellblock_typed.c
index eff8bf1..a3ee370 100644
--- a/src/C-interface/ellblock/bml_copy_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_copy_ellblock_typed.c
@@ -2,9 +2,11 @@
 #include "../../typed.h"
 #include "../bml_allocate.h"
 #include "../bml_copy.h"
+#include "../bml_logger.h"
 #include "../bml_types.h"
 #include "bml_allocate_ellblock.h"
 #include "bml_copy_ellblock.h"
+#include "bml_setters_ellblock.h"
 #include "bml_types_ellblock.h"
 
 #include <assert.h>
@@ -42,7 +44,6 @@ bml_matrix_ellblock_t
     for (int ib = 0; ib < NB; ib++)
     {
         assert(B->bsize[ib] > 0);
-        assert(B->bsize[ib] < 10);
         for (int jp = 0; jp < A->nnzb[ib]; jp++)
         {
             int ind = ROWMAJOR(ib, jp, NB, MB);
@@ -73,38 +74,48 @@ void TYPED_FUNC(
     bml_matrix_ellblock_t * A,
     bml_matrix_ellblock_t * B)
 {
-    assert(A->NB == B->NB);
+    if (A == B)
+        return;
+
+    if (A->NB != B->NB)
+    {
+        LOG_ERROR("block structures of matrices do not match\n");
+    }
 
     int NB = A->NB;
-    int MB = A->MB;
 
     REAL_T **A_ptr_value = (REAL_T **) A->ptr_value;
     REAL_T **B_ptr_value = (REAL_T **) B->ptr_value;
 
-    memcpy(B->nnzb, A->nnzb, sizeof(int) * A->NB);
-
     int *A_indexb = A->indexb;
     int *B_indexb = B->indexb;
-    memcpy(B_indexb, A_indexb, NB * MB * sizeof(int));
+
+    // the blocks of B are replaced by those of A
+    TYPED_FUNC(bml_clear_ellblock) (B);
+    memcpy(B->bsize, A->bsize, NB * sizeof(int));
 
 #pragma omp parallel for
     for (int ib = 0; ib < NB; ib++)
     {
+        if (A->nnzb[ib] > B->MB)
+        {
+            LOG_ERROR("Number of non-zeroes per row > MB, Increase MB\n");
+        }
         for (int jp = 0; jp < A->nnzb[ib]; jp++)
         {
-            int ind = ROWMAJOR(ib, jp, NB, MB);
-            assert(A_ptr_value[ind] != NULL);
-            int jb = B_indexb[ind];
+            int indA = ROWMAJOR(ib, jp, NB, A->MB);
+            int indB = ROWMAJOR(ib, jp, NB, B->MB);
+            assert(A_ptr_value[indA] != NULL);
+            int jb = A_indexb[indA];
             int nelements = A->bsize[ib] * A->bsize[jb];
-            if (B_ptr_value[ind] == NULL)
-                B_ptr_value[ind]
-                    =
-                    TYPED_FUNC(bml_allocate_block_ellblock) (B, ib,
-                                                             nelements);
-            assert(B_ptr_value[ind] != NULL);
-            memcpy(B_ptr_value[ind], A_ptr_value[ind],
+            B_ptr_value[indB] =
+                TYPED_FUNC(bml_allocate_block_ellblock) (B, ib, nelements);
+            assert(B_ptr_value[indB] != NULL);
+            memcpy(B_ptr_value[indB], A_ptr_value[indA],
                    nelements * sizeof(REAL_T));
+            B_indexb[indB] = jb;
         }
+        B->nnzb[ib] = A->nnzb[ib];
     }
 }
 
@@ -120,52 +131,37 @@ void TYPED_FUNC(
     bml_matrix_ellblock_t * A,
     int *perm)
 {
-    int NB = A->NB;
-    int MB = A->MB;
+    bml_matrix_ellblock_t *B = TYPED_FUNC(bml_copy_ellblock_new) (A);
+    REAL_T zero = 0.0;
 
-    int *A_indexb = A->indexb;
-    int *A_nnzb = A->nnzb;
-    REAL_T **A_ptr_value = (REAL_T **) A->ptr_value;
-    int *A_bsize = A->bsize;
-
-    bml_matrix_ellblock_t *B = bml_copy_new(A);
-    int *B_indexb = B->indexb;
-    int *B_nnzb = B->nnzb;
-    REAL_T **B_ptr_value = (REAL_T **) B->ptr_value;
-    int *B_bsize = B->bsize;
-
-    for (int i = 0; i < NB; i++)
-    {
-        A_bsize[i] = B_bsize[perm[i]];
-    }
-
-    // Reorder rows - need to copy
-    for (int ib = 0; ib < NB; ib++)
+    // insert elements of copy at their new position
+    TYPED_FUNC(bml_clear_ellblock) (A);
+    int i0 = 0;
+    for (int ib = 0; ib < B->NB; ib++)
     {
-        memcpy(&A_indexb[ROWMAJOR(perm[ib], 0, NB, MB)],
-               &B_indexb[ROWMAJOR(ib, 0, NB, MB)], MB * sizeof(int));
-        int count = 0;
-        for (int jp = 0; jp < MB; jp++)
+        for (int jp = 0; jp < B->nnzb[ib]; jp++)
         {
-            int ind = ROWMAJOR(ib, jp, NB, MB);
-            int jb = B_indexb[ind];
-            count += B_bsize[jb];
+            int ind = ROWMAJOR(ib, jp, B->NB, B->MB);
+            int jb = B->indexb[ind];
+            REAL_T *B_value = ((REAL_T **) B->ptr_value)[ind];
+            int j0 = 0;
+            for (int kb = 0; kb < jb; kb++)
+                j0 += B->bsize[kb];
+            for (int ii = 0; ii < B->bsize[ib]; ii++)
+                for (int jj = 0; jj < B->bsize[jb]; jj++)
+                {
+                    REAL_T value =
+                        B_value[ROWMAJOR
+                                (ii, jj, B->bsize[ib], B->bsize[jb])];
+                    if (value != zero)
+                        TYPED_FUNC(bml_set_element_ellblock) (A,
+                                                              perm[i0 + ii],
+                                                              perm[j0 + jj],
+                                                              &value);
+                }
         }
-        memcpy(A_ptr_value[ROWMAJOR(perm[ib], 0, NB, MB)],
-               B_ptr_value[ROWMAJOR(ib, 0, NB, MB)],
-               B_bsize[ib] * count * sizeof(REAL_T));
-        A_nnzb[perm[ib]] = B_nnzb[ib];
+        i0 += B->bsize[ib];
     }
 
     bml_deallocate_ellblock(B);
-
-    // Reorder elements in each row - just change index
-    for (int ib = 0; ib < NB; ib++)
-    {
-        for (int jp = 0; jp < A_nnzb[ib]; jp++)
-        {
-            A_indexb[ROWMAJOR(ib, jp, NB, MB)] =
-                perm[A_indexb[ROWMAJOR(ib, jp, NB, MB)]];
-        }
-    }
 }
diff --git a/src/C-interface/ellblock/bml_multiply_ellblock_typed.c b/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
index 5aab6d5..f6dd494 100644
--- a/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
@@ -167,6 +167,30 @@ void TYPED_FUNC(
     }
 }
 
+void TYPED_FUNC(
+    bml_multiply_block_any) (
+    REAL_T * mat0,
+    REAL_T * mat1,
+    const int ld,
+    REAL_T * x,
+    const int bsizeib,
+    const int bsizekb)
+{
+    REAL_T *xk = x;
+    for (int ii = 0; ii < bsizeib; ii++)
+    {
+        REAL_T *a = mat0 + ld * ii;
+        REAL_T *b = mat1;
+        for (int jj = 0; jj < bsizekb; jj++)
+        {
+            for (int kk = 0; kk < ld; kk++)
+                (*xk) += a[kk] * b[kk];
+            xk++;
+            b += ld;
+        }
+    }
+}
+
 /** Matrix multiply.
  *
  * \f$ C \leftarrow \alpha A \, B + \beta C \f$
@@ -199,7 +223,9 @@ void TYPED_FUNC(
 
     if (A == B && alpha == ONE && beta == ZERO)
     {
-        TYPED_FUNC(bml_multiply_x2_ellblock) (A, C, threshold);
+        void *trace =
+            TYPED_FUNC(bml_multiply_x2_ellblock) (A, C, threshold);
+        bml_free_memory(trace);
     }
     else
     {
@@ -210,7 +236,9 @@ void TYPED_FUNC(
 
         if (A != NULL && A == B)
         {
-            TYPED_FUNC(bml_multiply_x2_ellblock) (A, A2, threshold);
+            void *trace =
+                TYPED_FUNC(bml_multiply_x2_ellblock) (A, A2, threshold);
+            bml_free_memory(trace);
         }
         else
         {
@@ -302,7 +330,9 @@ void *TYPED_FUNC(
             TYPED_FUNC(bml_multiply_block2),
             TYPED_FUNC(bml_multiply_block3),
             TYPED_FUNC(bml_multiply_block4),
-            TYPED_FUNC(bml_multiply_block5), TYPED_FUNC(bml_multiply_block6)};
+            TYPED_FUNC(bml_multiply_block5),
+            TYPED_FUNC(bml_multiply_block6),
+            TYPED_FUNC(bml_multiply_block_any)};
 
 #if defined(__IBMC__) || defined(__ibmxl__)
 #pragma omp parallel for                           \
@@ -377,7 +407,7 @@ void *TYPED_FUNC(
                         T_value_right[jj * bsizejb + ii]
                             = X_value_right[offset + jj];
                 }
-                (*fun_ptr_arr[bsizejb - 1]) (X_value_left, T_value_right,
+                (*fun_ptr_arr[MIN(bsizejb, 7) - 1]) (X_value_left, T_value_right,
                                              bsizejb, x, bsize[ib], bsizekb);
 #else
                 REAL_T alpha = (REAL_T) 1.;
@@ -390,17 +420,9 @@ void *TYPED_FUNC(
             }
         }
 
-        // Check for number of non-zero blocks per block row exceeded
-        if (lb > MB)
-        {
-            LOG_ERROR
-                ("Number of non-zeroes blocks per row > MB, Increase MB\n");
-        }
-
         int ll = 0;
         for (int jb = 0; jb < lb; jb++)
         {
-            assert(ll < MB);
             int jp = jx[jb];
             REAL_T *xtmp = x_ptr[jp];
             double normx = TYPED_FUNC(bml_norm_inf_fast)
@@ -410,12 +432,17 @@ void *TYPED_FUNC(
                 if (jp == ib)
                 {
                     for (int kk = 0; kk < bsize[ib]; kk++)
-                        traceX2 = traceX2 + xtmp[kk * (1 + bsize[jb])];
+                        traceX2 = traceX2 + xtmp[kk * (1 + bsize[ib])];
                 }
 
+                // Check for number of non-zero blocks per block row exceeded
+                if (ll == X2->MB)
+                {
+                    LOG_ERROR
+                        ("Number of non-zeroes blocks per row > MB, Increase MB\n");
+                }
                 int nelements = bsize[ib] * bsize[jp];
-                int ind = ROWMAJOR(ib, ll, NB, MB);
-                assert(ind < NB * MB);
+                int ind = ROWMAJOR(ib, ll, NB, X2->MB);
                 /* Allocate memory to hold block */
                 X2_ptr_value[ind] =
                     TYPED_FUNC(bml_allocate_block_ellblock) (X2, ib, nelements);
@@ -459,8 +486,14 @@ void TYPED_FUNC(
     bml_matrix_ellblock_t * C,
     double threshold)
 {
-    assert(A->NB == B->NB);
-    assert(A->NB == C->NB);
+    if (A->NB != B->NB || A->NB != C->NB
+        || memcmp(A->bsize, B->bsize, A->NB * sizeof(int)) != 0
+        || memcmp(A->bsize, C->bsize, A->NB * sizeof(int)) != 0)
+    {
+        LOG_ERROR("block structures of matrices do not match\n");
+    }
+
+    TYPED_FUNC(bml_clear_ellblock) (C);
 
     int NB = A->NB;
 
@@ -513,7 +546,9 @@ void TYPED_FUNC(
             TYPED_FUNC(bml_multiply_block2),
             TYPED_FUNC(bml_multiply_block3),
             TYPED_FUNC(bml_multiply_block4),
-            TYPED_FUNC(bml_multiply_block5), TYPED_FUNC(bml_multiply_block6)};
+            TYPED_FUNC(bml_multiply_block5),
+            TYPED_FUNC(bml_multiply_block6),
+            TYPED_FUNC(bml_multiply_block_any)};
 
     //loop over row blocks
 #if defined(__IBMC__) || defined(__ibmxl__)
@@ -579,17 +614,11 @@ void TYPED_FUNC(
                         T_value_right[jj * bsizejb + ii]
                             = B_value[offset + jj];
                 }
-                (*fun_ptr_arr[bsizejb - 1]) (A_value, T_value_right,
+                (*fun_ptr_arr[MIN(bsizejb, 7) - 1]) (A_value, T_value_right,
                                              bsizejb, x, bsize[ib], bsizekb);
             }
         }
 
-        // Check for number of non-zeroes per row exceeded
-        if (lb > C->MB)
-        {
-            LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
-        }
-
         int ll = 0;
         for (int jb = 0; jb < lb; jb++)
         {
@@ -600,6 +629,12 @@ void TYPED_FUNC(
 
             if (jp == ib || (normx > threshold))
             {
+                // Check for number of non-zeroes per row exceeded
+                if (ll == C->MB)
+                {
+                    LOG_ERROR
+                        ("Number of non-zeroes per row > MB, Increase MB\n");
+                }
                 int nelements = bsize[ib] * bsize[jp];
                 int ind = ROWMAJOR(ib, ll, NB, C->MB);
                 C_ptr_value[ind]
@@ -640,7 +675,6 @@ void TYPED_FUNC(
     double threshold)
 {
     int NB = A->NB;
-    int MB = A->MB;
     int *A_nnzb = A->nnzb;
     int *A_indexb = A->indexb;
     int *bsize = A->bsize;
@@ -675,46 +709,39 @@ void TYPED_FUNC(
     {
         aflag = 0;
 
+        TYPED_FUNC(bml_clear_ellblock) (C);
+
         for (int ib = 0; ib < NB; ib++)
         {
             int l = 0;
             for (int jp = 0; jp < A_nnzb[ib]; jp++)
             {
-                REAL_T *a = A_ptr_value[ROWMAJOR(ib, jp, NB, MB)];
-                int jb = A_indexb[ROWMAJOR(ib, jp, NB, MB)];
+                REAL_T *a = A_ptr_value[ROWMAJOR(ib, jp, NB, A->MB)];
+                int jb = A_indexb[ROWMAJOR(ib, jp, NB, A->MB)];
 
                 for (int kp = 0; kp < B_nnzb[jb]; kp++)
                 {
-                    int kb = B_indexb[ROWMAJOR(jb, kp, NB, MB)];
+                    int kb = B_indexb[ROWMAJOR(jb, kp, NB, B->MB)];
                     if (ix[kb] == 0)
                     {
-                        memset(x_ptr[kb], 0, maxbsize2);
+                        memset(x_ptr[kb], 0, maxbsize2 * sizeof(REAL_T));
                         jx[l] = kb;
                         ix[kb] = ib + 1;
                         l++;
                     }
-                    // TEMPORARY STORAGE VECTOR LENGTH FULL N
-                    REAL_T *b = B_ptr_value[ROWMAJOR(jb, kp, NB, MB)];
+                    // multiply block ib,jb by block jb,kb
+                    REAL_T *b = B_ptr_value[ROWMAJOR(jb, kp, NB, B->MB)];
                     REAL_T *x = x_ptr[kb];
-                    for (int ii = 0; ii < bsize[jb]; ii++)
+                    for (int ii = 0; ii < bsize[ib]; ii++)
                         for (int jj = 0; jj < bsize[kb]; jj++)
-                        {
-                            int k = ii * bsize[kb] + jj;
-                            x[k] =
-                                x[k] +
-                                a[ROWMAJOR(ii, jj, bsize[ib], bsize[jb])] *
-                                b[ROWMAJOR(jj, ii, bsize[jb], bsize[kb])];
-                        }
+                            for (int kk = 0; kk < bsize[jb]; kk++)
+                                x[ROWMAJOR(ii, jj, bsize[ib], bsize[kb])] +=
+                                    a[ROWMAJOR(ii, kk, bsize[ib], bsize[jb])]
+                                    * b[ROWMAJOR(kk, jj, bsize[jb],
+                                                 bsize[kb])];
                 }
             }
 
-            // Check for number of non-zeroes per row exceeded
-            // Need to adjust threshold
-            if (l > MB)
-            {
-                aflag = 1;
-            }
-
             int ll = 0;
             for (int jb = 0; jb < l; jb++)
             {
@@ -722,27 +749,39 @@ void TYPED_FUNC(
                 REAL_T *xtmp = x_ptr[jp];
                 double normx = TYPED_FUNC(bml_norm_inf)
                     (xtmp, bsize[ib], bsize[jp], bsize[jp]);
-                // Diagonal elements are saved in first column
-                if (jp == ib)
-                {
-                    memcpy(C_ptr_value[ROWMAJOR(ib, ll, NB, MB)], xtmp,
-                           bsize[ib] * bsize[ll] * sizeof(REAL_T));
-                    C_indexb[ROWMAJOR(ib, ll, NB, MB)] = jp;
-                    ll++;
-                }
-                else if (normx > adjust_threshold)
+                if (jp == ib || normx > adjust_threshold)
                 {
-                    memcpy(C_ptr_value[ROWMAJOR(ib, ll, NB, MB)], xtmp,
-                           bsize[ib] * bsize[ll] * sizeof(REAL_T));
-                    C_indexb[ROWMAJOR(ib, ll, NB, MB)] = jp;
-                    ll++;
+                    // Check for number of non-zeroes per row exceeded
+                    // Need to adjust threshold
+                    if (ll == C->MB)
+                    {
+                        aflag = 1;
+                    }
+                    else
+                    {
+                        int nelements = bsize[ib] * bsize[jp];
+                        int ind = ROWMAJOR(ib, ll, NB, C->MB);
+                        C_ptr_value[ind] =
+                            TYPED_FUNC(bml_allocate_block_ellblock) (C, ib,
+                                                                     nelements);
+                        memcpy(C_ptr_value[ind], xtmp,
+                               nelements * sizeof(REAL_T));
+                        C_indexb[ind] = jp;
+                        ll++;
+                    }
                 }
                 ix[jp] = 0;
-                memset(x_ptr[jp], 0, maxbsize2 * sizeof(REAL_T));
             }
             C_nnzb[ib] = ll;
         }
 
+        if (aflag > 0 && !(adjust_threshold > 0.0))
+        {
+            LOG_ERROR("Number of non-zeroes per row > MB, Increase MB\n");
+        }
         adjust_threshold *= 2.0;
     }
+
+    for (int ib = 0; ib < NB; ib++)
+        bml_free_memory(x_ptr[ib]);
 }
diff --git a/src/C-interface/ellblock/bml_scale_ellblock_typed.c b/src/C-interface/ellblock/bml_scale_ellblock_typed.c
index 208baba..34d8c21 100644
--- a/src/C-interface/ellblock/bml_scale_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_scale_ellblock_typed.c
@@ -63,13 +63,13 @@ void TYPED_FUNC(
     REAL_T *scale_factor = _scale_factor;
     REAL_T **B_ptr_value = (REAL_T **) B->ptr_value;
     int inc = 1;
-    for (int ib = 0; ib < A->NB; ib++)
+    for (int ib = 0; ib < B->NB; ib++)
     {
-        for (int jp = 0; jp < A->nnzb[ib]; jp++)
+        for (int jp = 0; jp < B->nnzb[ib]; jp++)
         {
-            int ind = ROWMAJOR(ib, jp, A->NB, A->MB);
-            int jb = A->indexb[ind];
-            int nElems = A->bsize[ib] * A->bsize[jb];
+            int ind = ROWMAJOR(ib, jp, B->NB, B->MB);
+            int jb = B->indexb[ind];
+            int nElems = B->bsize[ib] * B->bsize[jb];
             REAL_T *B_value = B_ptr_value[ind];
             assert(B_value != NULL);
             C_BLAS(SCAL) (&nElems, scale_factor, &(B_value[0]), &inc);
-- 
2.43.0


From f2c80dc935845c378844d2160e69852b53cfb2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:42 +0000
Subject: [PATCH 15/48] fix: race and capacity handling in
 bml_adjungate_triangle_ellpack

---
 .../bml_adjungate_triangle_ellpack_typed.c    | 141 ++++++++----------
 1 file changed, 62 insertions(+), 79 deletions(-)

diff --git a/src/C-interface/ellpack/bml_adjungate_triangle_ellpack_typed.c b/src/C-interface/ellpack/bml_adjungate_triangle_ellpack_typed.c
index 67b2279..88f07bf 100644
--- a/src/C-interface/ellpack/bml_adjungate_triangle_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_adjungate_triangle_ellpack_typed.c
@@ -1,6 +1,7 @@
 #include "../../macros.h"
 #include "../../typed.h"
 #include "../bml_introspection.h"
+#include "../bml_allocate.h"
 #include "../bml_logger.h"
 #include "../bml_types.h"
 #include "bml_adjungate_triangle_ellpack.h"
@@ -22,8 +23,6 @@
  *
  *  \param A[in,out]  The matrix for which the triangle should be adjungated
  *  \param triangle[out]  Which triangle to adjungate ('u': upper, 'l': lower)
- *
- *  WARNING: Please verify race conditions and parallel performances.
  */
 void TYPED_FUNC(
     bml_adjungate_triangle_ellpack) (
@@ -32,109 +31,93 @@ void TYPED_FUNC(
 {
     int A_N = A->N;
     int A_M = A->M;
-    int l;
-    int ll;
     REAL_T *A_value = (REAL_T *) A->value;
     int *A_index = A->index;
     int *A_nnz = A->nnz;
-#ifdef _OPENMP
-    omp_lock_t lock[A_M];
-#endif
+    int upper = 0;
 
     switch (*triangle)
     {
         case 'u':
-#ifdef _OPENMP
-            for (int i = 0; i < A_M; i++)
-                omp_init_lock(&(lock[i]));
-#endif
+            upper = 1;
+            break;
+        case 'l':
+            upper = 0;
+            break;
+        default:
+            LOG_ERROR("unknown triangle %c\n", *triangle);
+            break;
+    }
 
 #if defined(USE_OMP_OFFLOAD)
 #pragma omp target update from(A_value[:A_N*A_M], A_index[:A_N*A_M], A_nnz[:A_N])
 #endif
 
-#pragma omp parallel for                          \
-  shared(A_N, A_M, A_index, A_nnz, A_value, lock) \
-  private(l, ll)
-            // WARNING: Please, check for race conditions ...
-
-            for (int i = 0; i < A_N; i++)       // For every row
-            {
-                l = A_nnz[i];
-                for (int j = 0; j < l; j++)     // We search for indices gt 0.
-                {
-                    ll = A_index[ROWMAJOR(i, j, A_N, A_M)];
-                    if (ll > 0)
-                    {
-                        if (ll > i)
-                        {
-#ifdef _OPENMP
-                            omp_set_lock(&(lock[ll]));
-#endif
-                            A_index[ROWMAJOR(ll, A_nnz[ll], A_N, A_M)] = i;
-                            A_value[ROWMAJOR(ll, A_nnz[ll], A_N, A_M)] =
-                                conj(A_value[ROWMAJOR(i, j, A_N, A_M)]);
-                            A_nnz[ll]++;
+    // number of elements in row before insertions
+    int *nnz = bml_noinit_allocate_memory(sizeof(int) * A_N);
 #ifdef _OPENMP
-                            omp_unset_lock(&(lock[ll]));
+    omp_lock_t *lock = bml_noinit_allocate_memory(sizeof(omp_lock_t) * A_N);
+    for (int i = 0; i < A_N; i++)
+        omp_init_lock(&(lock[i]));
 #endif
 
-                        }
-                    }
-                }
+    // Remove elements of the triangle to be replaced
+#pragma omp parallel for                          \
+  shared(A_N, A_M, A_index, A_nnz, A_value, nnz)
+    for (int i = 0; i < A_N; i++)
+    {
+        int l = 0;
+        for (int j = 0; j < A_nnz[i]; j++)
+        {
+            int col = A_index[ROWMAJOR(i, j, A_N, A_M)];
+            if (upper ? col >= i : col <= i)
+            {
+                A_index[ROWMAJOR(i, l, A_N, A_M)] = col;
+                A_value[ROWMAJOR(i, l, A_N, A_M)] =
+                    A_value[ROWMAJOR(i, j, A_N, A_M)];
+                l++;
             }
-#ifdef _OPENMP
-            for (int i = 0; i < A_M; i++)
-                omp_destroy_lock(&(lock[i]));
-#endif
-
-            break;
-
-        case 'l':
-#ifdef _OPENMP
-            for (int i = 0; i < A_M; i++)
-                omp_init_lock(&(lock[i]));
-#endif
+        }
+        A_nnz[i] = l;
+        nnz[i] = l;
+    }
 
-#pragma omp parallel for                                \
-  shared(lock, A_N, A_M, A_index, A_nnz, A_value)       \
-  private(l, ll)
-            //    WARNING: Please, check for race conditions and parallel performances ...
-            for (int i = 0; i < A_N; i++)
+    // Insert conjugate of elements of the other triangle
+#pragma omp parallel for                          \
+  shared(A_N, A_M, A_index, A_nnz, A_value, nnz)
+    for (int i = 0; i < A_N; i++)
+    {
+        for (int j = 0; j < nnz[i]; j++)
+        {
+            int ll = A_index[ROWMAJOR(i, j, A_N, A_M)];
+            if (ll != i)
             {
-                l = A_nnz[i];
-                for (int j = 0; j < l; j++)
-                {
-                    ll = A_index[ROWMAJOR(i, j, A_N, A_M)];
-                    if (ll >= 0)
-                    {
-                        if (ll < i)
-                        {
 #ifdef _OPENMP
-                            omp_set_lock(&(lock[ll]));
+                omp_set_lock(&(lock[ll]));
 #endif
-                            A_index[ROWMAJOR(ll, A_nnz[ll], A_N, A_M)] = i;
-                            A_value[ROWMAJOR(ll, A_nnz[ll], A_N, A_M)] =
-                                conj(A_value[ROWMAJOR(i, j, A_N, A_M)]);
-                            A_nnz[ll]++;
+                if (A_nnz[ll] == A_M)
+                {
+                    LOG_ERROR
+                        ("Number of non-zeroes per row > M, Increase M\n");
+                }
+                A_index[ROWMAJOR(ll, A_nnz[ll], A_N, A_M)] = i;
+                A_value[ROWMAJOR(ll, A_nnz[ll], A_N, A_M)] =
+                    conj(A_value[ROWMAJOR(i, j, A_N, A_M)]);
+                A_nnz[ll]++;
 #ifdef _OPENMP
-                            omp_unset_lock(&(lock[ll]));
+                omp_unset_lock(&(lock[ll]));
 #endif
-
-                        }
-                    }
-                }
             }
+        }
+    }
+
 #ifdef _OPENMP
-            for (int i = 0; i < A_M; i++)
-                omp_destroy_lock(&(lock[i]));
+    for (int i = 0; i < A_N; i++)
+        omp_destroy_lock(&(lock[i]));
+    bml_free_memory(lock);
 #endif
+    bml_free_memory(nnz);
 
-            break;
-        default:
-            LOG_ERROR("unknown triangle %c\n", triangle);
-            break;
-    }
 #if defined(USE_OMP_OFFLOAD)
 #pragma omp target update to(A_value[:A_N*A_M], A_index[:A_N*A_M], A_nnz[:A_N])
 #endif
-- 
2.43.0


From 0a6d90a4aa2f50a6a672f0d99d5bd30747839730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:17 +0000
Subject: [PATCH 16/48] fix: bml_threshold_new_csr keeps every element above
 the threshold

---
 src/C-interface/csr/bml_threshold_csr_typed.c | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/C-interface/csr/bml_threshold_csr_typed.c b/src/C-interface/csr/bml_threshold_csr_typed.c
index 6b27efc..772a5d0 100644
--- a/src/C-interface/csr/bml_threshold_csr_typed.c
+++ b/src/C-interface/csr/bml_threshold_csr_typed.c
@@ -5,6 +5,7 @@
 #include "../bml_threshold.h"
 #include "../bml_types.h"
 #include "bml_allocate_csr.h"
+#include "bml_setters_csr.h"
 #include "bml_threshold_csr.h"
 #include "bml_types_csr.h"
 
@@ -39,10 +40,6 @@ bml_matrix_csr_t
     shared(N)
     for (int i = 0; i < N; i++)
     {
-        int *bcols = B->data_[i]->cols_;
-        REAL_T *bvals = (REAL_T *) B->data_[i]->vals_;
-        const int bnnz = B->data_[i]->NNZ_;
-
         int *cols = A->data_[i]->cols_;
         REAL_T *vals = (REAL_T *) A->data_[i]->vals_;
         const int annz = A->data_[i]->NNZ_;
@@ -50,11 +47,8 @@ bml_matrix_csr_t
         {
             if (is_above_threshold(vals[pos], threshold))
             {
-//                bml_set_element_new_csr(B, i, cols[pos], &vals[pos]);
-                bvals[bnnz] = vals[pos];
-                bcols[bnnz] = cols[pos];
-                /* update nnz of row i of B */
-                B->data_[i]->NNZ_++;
+                TYPED_FUNC(csr_set_row_element_new) (B->data_[i], cols[pos],
+                                                     &vals[pos]);
             }
         }
     }
-- 
2.43.0


From 7d01cc3853847bfcdc2c2d85f666a6652dee78b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:17 +0000
Subject: [PATCH 17/48] fix: Gershgorin upper bound of matrices with a negative
 bound

---
 src/C-interface/csr/bml_normalize_csr_typed.c                 | 4 ++--
 src/C-interface/dense/bml_normalize_dense_typed.c             | 4 ++--
 .../distributed2d/bml_normalize_distributed2d_typed.c         | 2 +-
 src/C-interface/ellblock/bml_normalize_ellblock_typed.c       | 2 +-
 src/C-interface/ellpack/bml_normalize_ellpack_typed.c         | 4 ++--
 5 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/C-interface/csr/bml_normalize_csr_typed.c b/src/C-interface/csr/bml_normalize_csr_typed.c
index ba32ab6..e322b6a 100644
--- a/src/C-interface/csr/bml_normalize_csr_typed.c
+++ b/src/C-interface/csr/bml_normalize_csr_typed.c
@@ -86,7 +86,7 @@ void *TYPED_FUNC(
     REAL_T radius, absham, dvalue;
 
     double emin = DBL_MAX;
-    double emax = DBL_MIN;
+    double emax = -DBL_MAX;
 
     double *eval = bml_allocate_memory(sizeof(double) * 2);
 
@@ -168,7 +168,7 @@ void *TYPED_FUNC(
     REAL_T radius, absham, dvalue;
 
     double emin = DBL_MAX;
-    double emax = DBL_MIN;
+    double emax = -DBL_MAX;
 
     double *eval = bml_allocate_memory(sizeof(double) * 2);
 
diff --git a/src/C-interface/dense/bml_normalize_dense_typed.c b/src/C-interface/dense/bml_normalize_dense_typed.c
index 1ab389a..9081f1b 100644
--- a/src/C-interface/dense/bml_normalize_dense_typed.c
+++ b/src/C-interface/dense/bml_normalize_dense_typed.c
@@ -108,7 +108,7 @@ void *TYPED_FUNC(
     int myRank = bml_getMyRank();
 
     double emin = DBL_MAX;
-    double emax = DBL_MIN;
+    double emax = -DBL_MAX;
 
     double *eval = bml_allocate_memory(sizeof(double) * 2);
 #ifdef BML_USE_MAGMA
@@ -199,7 +199,7 @@ void *TYPED_FUNC(
     REAL_T *A_matrix = (REAL_T *) A->matrix;
 
     double emin = DBL_MAX;
-    double emax = DBL_MIN;
+    double emax = -DBL_MAX;
 
     double *eval = bml_allocate_memory(sizeof(double) * 2);
 
diff --git a/src/C-interface/distributed2d/bml_normalize_distributed2d_typed.c b/src/C-interface/distributed2d/bml_normalize_distributed2d_typed.c
index 31d3ab2..e37d487 100644
--- a/src/C-interface/distributed2d/bml_normalize_distributed2d_typed.c
+++ b/src/C-interface/distributed2d/bml_normalize_distributed2d_typed.c
@@ -41,7 +41,7 @@ void *TYPED_FUNC(
     free(offdiag_sum);
 
     double emin = DBL_MAX;
-    double emax = DBL_MIN;
+    double emax = -DBL_MAX;
 
     if (A->myprow == A->mypcol)
     {
diff --git a/src/C-interface/ellblock/bml_normalize_ellblock_typed.c b/src/C-interface/ellblock/bml_normalize_ellblock_typed.c
index 8dd5c44..4c3d345 100644
--- a/src/C-interface/ellblock/bml_normalize_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_normalize_ellblock_typed.c
@@ -100,7 +100,7 @@ void *TYPED_FUNC(
     bml_matrix_ellblock_t * A)
 {
     double emin = DBL_MAX;
-    double emax = DBL_MIN;
+    double emax = -DBL_MAX;
 
     double *eval = bml_allocate_memory(sizeof(double) * 2);
 
diff --git a/src/C-interface/ellpack/bml_normalize_ellpack_typed.c b/src/C-interface/ellpack/bml_normalize_ellpack_typed.c
index b6a4020..7df8e49 100644
--- a/src/C-interface/ellpack/bml_normalize_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_normalize_ellpack_typed.c
@@ -86,7 +86,7 @@ void *TYPED_FUNC(
     REAL_T radius, absham, dvalue;
 
     double emin = DBL_MAX;
-    double emax = DBL_MIN;
+    double emax = -DBL_MAX;
 
     double *eval = bml_allocate_memory(sizeof(double) * 2);
 
@@ -191,7 +191,7 @@ void *TYPED_FUNC(
     REAL_T radius, absham, dvalue;
 
     double emin = DBL_MAX;
-    double emax = DBL_MIN;
+    double emax = -DBL_MAX;
 
     double *eval = bml_allocate_memory(sizeof(double) * 2);
 
-- 
2.43.0


From 813105c1e7c163d576a544e45d58f849b327a506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:17 +0000
Subject: [PATCH 18/48] fix: bml_getVector_ellpack result for an empty row

---
 src/C-interface/ellpack/bml_submatrix_ellpack_typed.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c b/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
index 7a96319..4c57ff9 100644
--- a/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
@@ -392,6 +392,7 @@ void *TYPED_FUNC(
 
     for (int i = 0; i < colCnt; i++)
     {
+        rvalue[i] = ZERO;
         for (int j = 0; j < A_nnz[irow]; j++)
         {
             if (A_index[ROWMAJOR(irow, j, A_N, A_M)] == jj[i])
@@ -399,7 +400,6 @@ void *TYPED_FUNC(
                 rvalue[i] = A_value[ROWMAJOR(irow, j, A_N, A_M)];
                 break;
             }
-            rvalue[i] = ZERO;
         }
     }
     return rvalue;
-- 
2.43.0


From b3b0da02e35bf487732cfb2b5b60f2dc0e8cb154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:17 +0000
Subject: [PATCH 19/48] fix: norms and sums of squares of complex, block and
 unequal-row matrices

---
 src/C-interface/bml_norm.c                    |  3 ++
 src/C-interface/csr/bml_norm_csr_typed.c      |  6 ++--
 src/C-interface/dense/bml_norm_dense_typed.c  | 22 ++++--------
 .../ellblock/bml_norm_ellblock_typed.c        | 35 ++++++++++---------
 .../ellpack/bml_norm_ellpack_typed.c          | 27 +++++++-------
 5 files changed, 45 insertions(+), 48 deletions(-)

diff --git a/src/C-interface/bml_norm.c b/src/C-interface/bml_norm.c
index 60252fb..e953214 100644
--- a/src/C-interface/bml_norm.c
+++ b/src/C-interface/bml_norm.c
@@ -227,6 +227,9 @@ bml_fnorm2(
         case ellpack:
             return bml_fnorm2_ellpack(A, B);
             break;
+        case ellblock:
+            return bml_fnorm2_ellblock(A, B);
+            break;
         case csr:
             return bml_fnorm2_csr(A, B);
             break;
diff --git a/src/C-interface/csr/bml_norm_csr_typed.c b/src/C-interface/csr/bml_norm_csr_typed.c
index a6be2d4..cd7dc64 100644
--- a/src/C-interface/csr/bml_norm_csr_typed.c
+++ b/src/C-interface/csr/bml_norm_csr_typed.c
@@ -42,7 +42,7 @@ double TYPED_FUNC(
         for (int pos = 0; pos < annz; pos++)
         {
             REAL_T xval = vals[pos];
-            sum += xval * xval;
+            sum += xval * COMPLEX_CONJUGATE(xval);
         }
     }
 
@@ -78,7 +78,7 @@ double TYPED_FUNC(
             if (cols[pos] < core_size)
             {
                 REAL_T value = vals[pos];
-                sum += value * value;
+                sum += value * COMPLEX_CONJUGATE(value);
             }
         }
     }
@@ -217,7 +217,7 @@ double TYPED_FUNC(
         {
             if (ABS(cvals[k]) > threshold)
             {
-                sum += cvals[k] * cvals[k];
+                sum += cvals[k] * COMPLEX_CONJUGATE(cvals[k]);
             }
             // reset cvals
             cvals[k] = 0.;
diff --git a/src/C-interface/dense/bml_norm_dense_typed.c b/src/C-interface/dense/bml_norm_dense_typed.c
index 462e16e..c4b6b9f 100644
--- a/src/C-interface/dense/bml_norm_dense_typed.c
+++ b/src/C-interface/dense/bml_norm_dense_typed.c
@@ -77,7 +77,7 @@ double TYPED_FUNC(
     for (int i = A_localRowMin[myRank] * N; i < A_localRowMax[myRank] * N;
          i++)
     {
-        sum += A_matrix[i] * A_matrix[i];
+        sum += A_matrix[i] * COMPLEX_CONJUGATE(A_matrix[i]);
     }
 #endif
 
@@ -133,22 +133,14 @@ double TYPED_FUNC(
 #pragma omp parallel for                        \
   shared(N, A_matrix)                           \
   reduction(+:sum)
-    for (int i = 0; i < core_size * N; i++)
-    {
-        sum += A_matrix[i] * A_matrix[i];
-    }
-
-/*
     for (int i = 0; i < core_size; i++)
     {
-        //for (int j = 0; j < core_size; j++)
-        for (int j = 0; j < N; j++)
+        for (int j = 0; j < core_size; j++)
         {
             REAL_T value = A_matrix[ROWMAJOR(i, j, N, N)];
-            sum += value * value;
+            sum += value * COMPLEX_CONJUGATE(value);
         }
     }
-*/
 #endif
 
     return (double) REAL_PART(sum);
@@ -297,7 +289,7 @@ double TYPED_FUNC(
         REAL_T temp = alpha_ * A_matrix[i] + beta_ * B_matrix[i];
 #endif
         if (ABS(temp) > threshold)
-            sum += temp * temp;
+            sum += temp * COMPLEX_CONJUGATE(temp);
     }
 #ifdef BML_USE_MAGMA
     free(A_matrix);
@@ -353,7 +345,6 @@ double TYPED_FUNC(
     int *A_localRowMax = A->domain->localRowMax;
 
     double fnorm = 0.0;
-    REAL_T temp;
 
     int myRank = bml_getMyRank();
 
@@ -362,7 +353,6 @@ double TYPED_FUNC(
 #pragma omp target update from(B_matrix[0:N*N])
 #endif
 #pragma omp parallel for                        \
-  shared(temp)                                  \
   shared(N, A_matrix, B_matrix)                 \
   shared(A_localRowMin, A_localRowMax, myRank)  \
   reduction(+:fnorm)
@@ -370,8 +360,8 @@ double TYPED_FUNC(
     for (int i = A_localRowMin[myRank] * N; i < A_localRowMax[myRank] * N;
          i++)
     {
-        temp = A_matrix[i] - B_matrix[i];
-        fnorm += temp * temp;
+        REAL_T temp = A_matrix[i] - B_matrix[i];
+        fnorm += REAL_PART(temp * COMPLEX_CONJUGATE(temp));
     }
 
 #ifdef BML_USE_MPI
diff --git a/src/C-interface/ellblock/bml_norm_ellblock_typed.c b/src/C-interface/ellblock/bml_norm_ellblock_typed.c
index a30e832..bf60a58 100644
--- a/src/C-interface/ellblock/bml_norm_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_norm_ellblock_typed.c
@@ -49,7 +49,7 @@ double TYPED_FUNC(
                 for (int jj = 0; jj < bsize[jb]; jj++)
                 {
                     int index = ROWMAJOR(ii, jj, bsize[ib], bsize[jb]);
-                    sum += xval[index] * xval[index];
+                    sum += xval[index] * COMPLEX_CONJUGATE(xval[index]);
                 }
         }
     }
@@ -98,7 +98,7 @@ double TYPED_FUNC(
     for (int ib = 0; ib < NB; ib++)
         y_ptr[ib] = bml_allocate_memory(maxbsize2 * sizeof(REAL_T));
 
-    int ix[NB], jjb[MB];
+    int ix[NB], jjb[NB];
 
     memset(jjb, 0, NB * sizeof(int));
 
@@ -148,11 +148,12 @@ double TYPED_FUNC(
 
         for (int jp = 0; jp < lb; jp++)
         {
-            double normx = TYPED_FUNC(bml_sum_AB)
-                (y_ptr[jjb[jp]], bsize[ib], bsize[jjb[jp]], bsize[jjb[jp]]);
-
-            if (normx > threshold * threshold)
-                sum += normx;
+            REAL_T *y_value = y_ptr[jjb[jp]];
+            for (int kk = 0; kk < bsize[ib] * bsize[jjb[jp]]; kk++)
+            {
+                if (ABS(y_value[kk]) > threshold)
+                    sum += y_value[kk];
+            }
         }
     }
 
@@ -322,6 +323,8 @@ double TYPED_FUNC(
     int *B_indexb = (int *) B->indexb;
     REAL_T **B_ptr_value = (REAL_T **) B->ptr_value;
 
+    int B_MB = B->MB;
+
     REAL_T temp;
 
     int maxbsize = 0;
@@ -335,15 +338,15 @@ double TYPED_FUNC(
         for (int jp = 0; jp < A_nnzb[ib]; jp++)
         {
             int ind = ROWMAJOR(ib, jp, NB, MB);
+            rvalue = zero_block;
             for (int kp = 0; kp < B_nnzb[ib]; kp++)
             {
                 if (A_indexb[ROWMAJOR(ib, jp, NB, MB)] ==
-                    B_indexb[ROWMAJOR(ib, kp, NB, MB)])
+                    B_indexb[ROWMAJOR(ib, kp, NB, B_MB)])
                 {
-                    rvalue = B_ptr_value[ROWMAJOR(ib, kp, NB, MB)];
+                    rvalue = B_ptr_value[ROWMAJOR(ib, kp, NB, B_MB)];
                     break;
                 }
-                rvalue = zero_block;
             }
 
             REAL_T *A_value = A_ptr_value[ind];
@@ -353,34 +356,34 @@ double TYPED_FUNC(
                 {
                     int index = ROWMAJOR(ii, jj, bsize[ib], bsize[jb]);
                     temp = A_value[index] - rvalue[index];
-                    fnorm += temp * temp;
+                    fnorm += REAL_PART(temp * COMPLEX_CONJUGATE(temp));
                 }
         }
 
         for (int jp = 0; jp < B_nnzb[ib]; jp++)
         {
+            rvalue = NULL;
             for (int kp = 0; kp < A_nnzb[ib]; kp++)
             {
                 if (A_indexb[ROWMAJOR(ib, kp, NB, MB)] ==
-                    B_indexb[ROWMAJOR(ib, jp, NB, MB)])
+                    B_indexb[ROWMAJOR(ib, jp, NB, B_MB)])
                 {
                     rvalue = A_ptr_value[ROWMAJOR(ib, kp, NB, MB)];
                     break;
                 }
-                rvalue = NULL;
             }
 
             if (rvalue == NULL)
             {
-                int ind = ROWMAJOR(ib, jp, NB, MB);
-                int jb = A_indexb[ind];
+                int ind = ROWMAJOR(ib, jp, NB, B_MB);
+                int jb = B_indexb[ind];
                 REAL_T *B_value = B_ptr_value[ind];
                 for (int ii = 0; ii < bsize[ib]; ii++)
                     for (int jj = 0; jj < bsize[jb]; jj++)
                     {
                         int index = ROWMAJOR(ii, jj, bsize[ib], bsize[jb]);
                         temp = B_value[index];
-                        fnorm += temp * temp;
+                        fnorm += REAL_PART(temp * COMPLEX_CONJUGATE(temp));
                     }
             }
         }
diff --git a/src/C-interface/ellpack/bml_norm_ellpack_typed.c b/src/C-interface/ellpack/bml_norm_ellpack_typed.c
index b18ce4b..f8ea751 100644
--- a/src/C-interface/ellpack/bml_norm_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_norm_ellpack_typed.c
@@ -54,7 +54,7 @@ double TYPED_FUNC(
         for (int j = 0; j < A_nnz[i]; j++)
         {
             REAL_T xval = A_value[ROWMAJOR(i, j, N, M)];
-            sum += xval * xval;
+            sum += xval * COMPLEX_CONJUGATE(xval);
         }
     }
 
@@ -97,7 +97,7 @@ double TYPED_FUNC(
             if (A_index[ROWMAJOR(i, j, N, M)] < core_size)
             {
                 REAL_T value = A_value[ROWMAJOR(i, j, N, M)];
-                sum += value * value;
+                sum += value * COMPLEX_CONJUGATE(value);
             }
         }
     }
@@ -326,7 +326,7 @@ double TYPED_FUNC(
         for (int jp = 0; jp < l; jp++)
         {
             if (ABS(y[jjb[jp]]) > threshold)
-                sum += y[jjb[jp]] * y[jjb[jp]];
+                sum += y[jjb[jp]] * COMPLEX_CONJUGATE(y[jjb[jp]]);
 
             /* reset marker array */
             ix[jjb[jp]] = 0;
@@ -385,6 +385,7 @@ double TYPED_FUNC(
     int *B_nnz = (int *) B->nnz;
     int *B_index = (int *) B->index;
     REAL_T *B_value = (REAL_T *) B->value;
+    int B_M = B->M;
 
     REAL_T temp;
 
@@ -407,38 +408,38 @@ double TYPED_FUNC(
     {
         for (int j = 0; j < A_nnz[i]; j++)
         {
+            rvalue = 0.0;
             for (int k = 0; k < B_nnz[i]; k++)
             {
                 if (A_index[ROWMAJOR(i, j, N, M)] ==
-                    B_index[ROWMAJOR(i, k, N, M)])
+                    B_index[ROWMAJOR(i, k, N, B_M)])
                 {
-                    rvalue = B_value[ROWMAJOR(i, k, N, M)];
+                    rvalue = B_value[ROWMAJOR(i, k, N, B_M)];
                     break;
                 }
-                rvalue = 0.0;
             }
 
             temp = A_value[ROWMAJOR(i, j, N, M)] - rvalue;
-            fnorm += temp * temp;
+            fnorm += REAL_PART(temp * COMPLEX_CONJUGATE(temp));
         }
 
         for (int j = 0; j < B_nnz[i]; j++)
         {
+            int in_A = 0;
             for (int k = 0; k < A_nnz[i]; k++)
             {
                 if (A_index[ROWMAJOR(i, k, N, M)] ==
-                    B_index[ROWMAJOR(i, j, N, M)])
+                    B_index[ROWMAJOR(i, j, N, B_M)])
                 {
-                    rvalue = A_value[ROWMAJOR(i, k, N, M)];
+                    in_A = 1;
                     break;
                 }
-                rvalue = 0.0;
             }
 
-            if (rvalue == 0.0)
+            if (!in_A)
             {
-                temp = B_value[ROWMAJOR(i, j, N, M)];
-                fnorm += temp * temp;
+                temp = B_value[ROWMAJOR(i, j, N, B_M)];
+                fnorm += REAL_PART(temp * COMPLEX_CONJUGATE(temp));
             }
         }
     }
-- 
2.43.0


From f56cf15eb003dcc6da9369a2570ce1cce3b35d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:06 +0000
Subject: [PATCH 20/48] fix: csr add keeps using the row storage after it was
 reallocated

---
 src/C-interface/csr/bml_add_csr_typed.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/C-interface/csr/bml_add_csr_typed.c b/src/C-interface/csr/bml_add_csr_typed.c
index ec790d4..1749a30 100644
--- a/src/C-interface/csr/bml_add_csr_typed.c
+++ b/src/C-interface/csr/bml_add_csr_typed.c
@@ -77,6 +77,8 @@ void TYPED_FUNC(
                 {
                     TYPED_FUNC(csr_set_row_element_new) (A->data_[i],
                                                          bcols[pos], &val);
+                    /* the row may have been reallocated */
+                    avals = (REAL_T *) A->data_[i]->vals_;
                 }
             }
             //reset table
-- 
2.43.0


From 801e6b768cc009d12692594b5c66b21652e2bd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:06 +0000
Subject: [PATCH 21/48] fix: grow the destination rows when copying a csr
 matrix

---
 src/C-interface/csr/bml_copy_csr_typed.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/C-interface/csr/bml_copy_csr_typed.c b/src/C-interface/csr/bml_copy_csr_typed.c
index cc08a44..cf8daef 100644
--- a/src/C-interface/csr/bml_copy_csr_typed.c
+++ b/src/C-interface/csr/bml_copy_csr_typed.c
@@ -90,10 +90,16 @@ void TYPED_FUNC(
     csr_sparse_row_t * brow)
 {
     const int NNZ = arow->NNZ_;
-    // Check size for data
+    // reallocate memory if needed
     if (brow->alloc_size_ < NNZ)
     {
-        LOG_ERROR("CSR row size mismatch\n");
+        brow->alloc_size_ = NNZ;
+        brow->cols_ =
+            bml_reallocate_memory(brow->cols_,
+                                  sizeof(int) * brow->alloc_size_);
+        brow->vals_ =
+            bml_reallocate_memory(brow->vals_,
+                                  sizeof(REAL_T) * brow->alloc_size_);
     }
 
     memcpy(brow->cols_, arow->cols_, NNZ * sizeof(int));
-- 
2.43.0


From ec7c6e8d40515025d04c243d92b053b610c2f60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:38 +0000
Subject: [PATCH 22/48] fix: bml_adjacency counts off-diagonal elements per
 row, bml_adjacency_group stays inside its arrays

---
 .../ellpack/bml_submatrix_ellpack.c           | 27 ++++++++-----------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/src/C-interface/ellpack/bml_submatrix_ellpack.c b/src/C-interface/ellpack/bml_submatrix_ellpack.c
index eb80c68..591f159 100644
--- a/src/C-interface/ellpack/bml_submatrix_ellpack.c
+++ b/src/C-interface/ellpack/bml_submatrix_ellpack.c
@@ -350,27 +350,21 @@ bml_adjacency_ellpack(
     int *A_index = A->index;
 
     int j;
-    int check;
 
     xadj[0] = 0;
 
-    // Check if diagonal elements are included
-    check = 0;
-    for (int i = 0; i < A_nnz[0]; i++)
+    // Count the elements of each row without the diagonal one
+    for (int i = 0; i < A_N; i++)
     {
-        if (A_index[ROWMAJOR(0, i, A_N, A_M)] == 0)
+        int count = 0;
+        for (int jj = 0; jj < A_nnz[i]; jj++)
         {
-            check = 1;
-            break;
+            if (A_index[ROWMAJOR(i, jj, A_N, A_M)] != i)
+            {
+                count++;
+            }
         }
-    }
-
-    for (int i = 1; i < A_N + 1; i++)
-    {
-        if (check == 1)
-            xadj[i] = xadj[i - 1] + A_nnz[i - 1] - 1;
-        else
-            xadj[i] = xadj[i - 1] + A_nnz[i - 1];
+        xadj[i + 1] = xadj[i] + count;
     }
 
 #pragma omp parallel for                                \
@@ -498,7 +492,7 @@ bml_adjacency_group_ellpack(
     {
 #pragma omp parallel for                        \
   shared(xadj, A_N, adjncy)
-        for (int i = 0; i <= xadj[nnodes]; i++)
+        for (int i = 0; i < xadj[nnodes]; i++)
         {
             adjncy[i] += 1;
         }
@@ -510,6 +504,7 @@ bml_adjacency_group_ellpack(
         }
     }
 
+    bml_free_memory(hnode);
 }
 
 /** Extract submatrix into new matrix of same format
-- 
2.43.0


From a6680e0d26ac343a52dbf0e162a76fd4e5eeeef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:38 +0000
Subject: [PATCH 23/48] fix: assigning and extracting submatrices replaces old
 elements, frees work arrays and reports overflow

---
 src/C-interface/csr/bml_submatrix_csr_typed.c | 18 ++++++++++
 .../ellpack/bml_submatrix_ellpack_typed.c     | 35 ++++++++++++++++---
 2 files changed, 48 insertions(+), 5 deletions(-)

diff --git a/src/C-interface/csr/bml_submatrix_csr_typed.c b/src/C-interface/csr/bml_submatrix_csr_typed.c
index 23f994c..2774080 100644
--- a/src/C-interface/csr/bml_submatrix_csr_typed.c
+++ b/src/C-interface/csr/bml_submatrix_csr_typed.c
@@ -56,6 +56,8 @@ bml_matrix_csr_t
 
         TYPED_FUNC(bml_set_sparse_row_csr) (B, i - irow, count, newcols,
                                             newvals, 0.);
+        bml_free_memory(newcols);
+        bml_free_memory(newvals);
     }
 
     return B;
@@ -88,6 +90,22 @@ void TYPED_FUNC(
         }
         REAL_T *vals = TYPED_FUNC(csr_get_column_entries) (B->data_[i]);
 
+        // remove the previous elements of the block
+        int *acols = A->data_[i + irow]->cols_;
+        REAL_T *avals = (REAL_T *) A->data_[i + irow]->vals_;
+        const int annz = A->data_[i + irow]->NNZ_;
+        int count = 0;
+        for (int j = 0; j < annz; j++)
+        {
+            if (acols[j] < icol || acols[j] >= icol + B_N)
+            {
+                acols[count] = acols[j];
+                avals[count] = avals[j];
+                count++;
+            }
+        }
+        A->data_[i + irow]->NNZ_ = count;
+
         for (int j = 0; j < nz; j++)
         {
             TYPED_FUNC(csr_set_row_element_new) (A->data_[i + irow],
diff --git a/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c b/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
index 4c57ff9..126acfe 100644
--- a/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
@@ -352,16 +352,17 @@ void TYPED_FUNC(
         {
             if (ABS(A_matrix[ROWMAJOR(ja, jb, A_N, A_N)]) > threshold)
             {
+                if (icol >= B_M)
+                {
+                    LOG_ERROR
+                        ("Number of non-zeroes per row >= M, Increase M\n");
+                }
                 B_index[ROWMAJOR(ii, icol, B_N, B_M)] = core_halo_index[jb];
                 B_value[ROWMAJOR(ii, icol, B_N, B_M)] =
                     A_matrix[ROWMAJOR(ja, jb, A_N, A_N)];
                 icol++;
             }
         }
-        if (icol > B_M)
-        {
-            LOG_ERROR("Number of non-zeroes per row >= M, Increase M\n");
-        }
 
         B_nnz[ii] = icol;
     }
@@ -501,7 +502,7 @@ bml_matrix_ellpack_t
             for (int k = 0; k < A_nnz[j]; k++)
             {
                 int ii = hnode[A_index[ROWMAJOR(j, k, A_N, A_M)]];
-                if (ix[ii] == 0 && ii != i)
+                if (ix[ii] != i + 1 && ii != i)
                 {
                     //printf("row = %d col = %d val = %e\n", j, A_index[ROWMAJOR(j, k, A_N, A_M)], A_value[ROWMAJOR(j, k, A_N, A_M)]);
                     if (is_above_threshold(A_value[ROWMAJOR(j, k, A_N, A_M)],
@@ -588,6 +589,11 @@ bml_matrix_ellpack_t
             if (j >= icol && j < icol + B_N)
             {
                 int iB = i - irow;
+                if (B_nnz[iB] >= B_M)
+                {
+                    LOG_ERROR
+                        ("Number of non-zeroes per row >= M, Increase M\n");
+                }
                 B_index[ROWMAJOR(i - irow, B_nnz[iB], B_N, B_M)] = j - icol;
                 B_value[ROWMAJOR(i - irow, B_nnz[iB], B_N, B_M)] =
                     A_value[ROWMAJOR(i, jp, A_N, A_M)];
@@ -628,10 +634,29 @@ void TYPED_FUNC(
     // loop over rows of B
     for (int i = 0; i < B_N; i++)
     {
+        // remove the previous elements of the block
+        int ll = 0;
+        for (int jp = 0; jp < A_nnz[i + irow]; jp++)
+        {
+            int jA = A_index[ROWMAJOR(i + irow, jp, A_N, A_M)];
+            if (jA < icol || jA >= icol + B_N)
+            {
+                A_index[ROWMAJOR(i + irow, ll, A_N, A_M)] = jA;
+                A_value[ROWMAJOR(i + irow, ll, A_N, A_M)] =
+                    A_value[ROWMAJOR(i + irow, jp, A_N, A_M)];
+                ll++;
+            }
+        }
+        A_nnz[i + irow] = ll;
+
         for (int jp = 0; jp < B_nnz[i]; jp++)
         {
             int jB = B_index[ROWMAJOR(i, jp, B_N, B_M)];
             int jpA = A_nnz[i + irow];
+            if (jpA >= A_M)
+            {
+                LOG_ERROR("Number of non-zeroes per row >= M, Increase M\n");
+            }
             A_value[ROWMAJOR(i + irow, jpA, A_N, A_M)] =
                 B_value[ROWMAJOR(i, jp, B_N, B_M)];
             A_index[ROWMAJOR(i + irow, jpA, A_N, A_M)] = jB + icol;
-- 
2.43.0


From 44c81f1ec1bff10e442b570a6ace68322a6f52bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:21 +0000
Subject: [PATCH 24/48] fix: release the communicators of distributed2d
 matrices and of the library

---
 src/C-interface/bml_parallel.c                       |  1 +
 .../distributed2d/bml_allocate_distributed2d.c       | 12 ++++++++++++
 .../distributed2d/bml_allocate_distributed2d.h       |  3 +++
 3 files changed, 16 insertions(+)

diff --git a/src/C-interface/bml_parallel.c b/src/C-interface/bml_parallel.c
index be4acf8..b54c12f 100644
--- a/src/C-interface/bml_parallel.c
+++ b/src/C-interface/bml_parallel.c
@@ -114,6 +114,7 @@ bml_shutdownParallel(
     void)
 {
 #ifdef BML_USE_MPI
+    bml_freecomm_distributed2d();
     bml_free_memory(requestList);
     bml_free_memory(rUsed);
 #endif
diff --git a/src/C-interface/distributed2d/bml_allocate_distributed2d.c b/src/C-interface/distributed2d/bml_allocate_distributed2d.c
index ae9e2ff..beca04b 100644
--- a/src/C-interface/distributed2d/bml_allocate_distributed2d.c
+++ b/src/C-interface/distributed2d/bml_allocate_distributed2d.c
@@ -38,6 +38,16 @@ bml_setcomm_distributed2d(
     srand(13 * mytask + 17);
 }
 
+void
+bml_freecomm_distributed2d(
+    void)
+{
+    if (s_comm != MPI_COMM_NULL)
+    {
+        MPI_Comm_free(&s_comm);
+    }
+}
+
 // set various fields in matrix struct
 void
 bml_setup_distributed2d(
@@ -87,6 +97,8 @@ bml_deallocate_distributed2d(
     assert(A != NULL);
     assert(A->matrix != NULL);
     bml_deallocate(&(A->matrix));
+    MPI_Comm_free(&A->row_comm);
+    MPI_Comm_free(&A->col_comm);
     bml_free_memory(A);
 }
 
diff --git a/src/C-interface/distributed2d/bml_allocate_distributed2d.h b/src/C-interface/distributed2d/bml_allocate_distributed2d.h
index 066a415..230fa40 100644
--- a/src/C-interface/distributed2d/bml_allocate_distributed2d.h
+++ b/src/C-interface/distributed2d/bml_allocate_distributed2d.h
@@ -6,6 +6,9 @@
 void bml_setcomm_distributed2d(
     MPI_Comm comm);
 
+void bml_freecomm_distributed2d(
+    void);
+
 void bml_setup_distributed2d(
     const int N,
     bml_matrix_distributed2d_t * A);
-- 
2.43.0


From edd2ff674dade0442ef3b1c82b9a5ca5c2b79cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:38 +0000
Subject: [PATCH 25/48] fix: gather matrices with the datatype of their
 elements

---
 src/C-interface/bml_parallel.c                       | 1 +
 src/C-interface/dense/bml_parallel_dense_typed.c     | 2 +-
 src/C-interface/ellpack/bml_parallel_ellpack_typed.c | 2 +-
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/C-interface/bml_parallel.c b/src/C-interface/bml_parallel.c
index b54c12f..dcd81c9 100644
--- a/src/C-interface/bml_parallel.c
+++ b/src/C-interface/bml_parallel.c
@@ -187,6 +187,7 @@ bml_allGatherVParallel(
         case ellblock:
             LOG_ERROR
                 ("bml_allGatherVParallel function not implemented for ellblock\n");
+            break;
         default:
             LOG_ERROR("unknown matrix type\n");
             break;
diff --git a/src/C-interface/dense/bml_parallel_dense_typed.c b/src/C-interface/dense/bml_parallel_dense_typed.c
index 384da6e..78798c2 100644
--- a/src/C-interface/dense/bml_parallel_dense_typed.c
+++ b/src/C-interface/dense/bml_parallel_dense_typed.c
@@ -41,7 +41,7 @@ void TYPED_FUNC(
 
     MPI_Allgatherv(MPI_IN_PLACE, 0, MPI_DATATYPE_NULL,
                    A_matrix, A_domain->localElements,
-                   A_domain->localDispl, REAL_MPI_TYPE, ccomm);
+                   A_domain->localDispl, MPI_T, ccomm);
 #endif
 }
 
diff --git a/src/C-interface/ellpack/bml_parallel_ellpack_typed.c b/src/C-interface/ellpack/bml_parallel_ellpack_typed.c
index ac3d38c..a8e9bc7 100644
--- a/src/C-interface/ellpack/bml_parallel_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_parallel_ellpack_typed.c
@@ -67,7 +67,7 @@ void TYPED_FUNC(
     // Values
     MPI_Allgatherv(MPI_IN_PLACE, 0, MPI_DATATYPE_NULL,
                    A_value, A_domain->localElements, A_domain->localDispl,
-                   REAL_MPI_TYPE, ccomm);
+                   MPI_T, ccomm);
 
 /*
     for (int i = 0; i < nRanks; i++)
-- 
2.43.0


From 3a41b3db971e31760dfabb3bc1601eb0ec370bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:41 +0000
Subject: [PATCH 26/48] fix: exchange csr and ellblock matrices of any fill
 between ranks of any communicator

---
 src/C-interface/csr/bml_parallel_csr_typed.c  | 42 +++++++--------
 .../ellblock/bml_parallel_ellblock_typed.c    | 54 +++++++++++++++----
 2 files changed, 63 insertions(+), 33 deletions(-)

diff --git a/src/C-interface/csr/bml_parallel_csr_typed.c b/src/C-interface/csr/bml_parallel_csr_typed.c
index dfbabf8..86e9946 100644
--- a/src/C-interface/csr/bml_parallel_csr_typed.c
+++ b/src/C-interface/csr/bml_parallel_csr_typed.c
@@ -11,6 +11,7 @@
 #include "../bml_utilities.h"
 
 #include <complex.h>
+#include <limits.h>
 #include <stdlib.h>
 #include <string.h>
 #include <assert.h>
@@ -90,37 +91,32 @@ void TYPED_FUNC(
     int totnnz = 0;
     for (int i = 0; i < A->N_; i++)
     {
-        A->data_[i]->NNZ_ = nnz[i];
         totnnz += nnz[i];
     }
-    bml_free_memory(nnz);
 
     // recv columns indexes
     int *cols = bml_allocate_memory(sizeof(int) * totnnz);
     mpiret = MPI_Recv(cols, totnnz, MPI_INT, src, 112, comm, &status);
     if (mpiret != MPI_SUCCESS)
         LOG_ERROR("MPI_Recv failed for cols");
-    int *pcols = cols;
-    for (int i = 0; i < A->N_; i++)
-    {
-        csr_sparse_row_t *row = A->data_[i];
-        memcpy(row->cols_, pcols, row->NNZ_ * sizeof(int));
-        pcols += row->NNZ_;
-    }
-    bml_free_memory(cols);
 
     // recv matrix elements
     REAL_T *values = bml_allocate_memory(sizeof(REAL_T) * totnnz);
     mpiret = MPI_Recv(values, totnnz, MPI_T, src, 113, comm, &status);
     if (mpiret != MPI_SUCCESS)
         LOG_ERROR("MPI_Recv failed for values");
+
+    // move data into matrix
+    int *pcols = cols;
     REAL_T *pvalues = values;
     for (int i = 0; i < A->N_; i++)
     {
-        csr_sparse_row_t *row = A->data_[i];
-        memcpy(row->vals_, pvalues, row->NNZ_ * sizeof(REAL_T));
-        pvalues += row->NNZ_;
+        TYPED_FUNC(bml_set_sparse_row_csr) (A, i, nnz[i], pcols, pvalues, 0.);
+        pcols += nnz[i];
+        pvalues += nnz[i];
     }
+    bml_free_memory(nnz);
+    bml_free_memory(cols);
     bml_free_memory(values);
 }
 
@@ -137,11 +133,11 @@ void TYPED_FUNC(
     if (mpiret != MPI_SUCCESS)
         LOG_ERROR("MPI_Irecv failed for nnz");
 
-    // estimate total number of non-zero one may receive
-    int totnnz = A->NZMAX_ * A->N_ * 2;
+    // largest number of non-zeros one may receive
+    int totnnz = A->N_ < INT_MAX / A->N_ ? A->N_ * A->N_ : INT_MAX;
 
     // receive column indexes
-    A->cols_buffer = bml_allocate_memory(sizeof(int) * totnnz);
+    A->cols_buffer = bml_noinit_allocate_memory(sizeof(int) * totnnz);
     mpiret =
         MPI_Irecv(A->cols_buffer, totnnz, MPI_INT, src, 112, comm,
                   A->req + 1);
@@ -149,7 +145,7 @@ void TYPED_FUNC(
         LOG_ERROR("MPI_Irecv failed for cols");
 
     // recv matrix elements
-    A->buffer = bml_allocate_memory(sizeof(REAL_T) * totnnz);
+    A->buffer = bml_noinit_allocate_memory(sizeof(REAL_T) * totnnz);
     mpiret = MPI_Irecv(A->buffer, totnnz, MPI_T, src, 113, comm, A->req + 2);
     if (mpiret != MPI_SUCCESS)
         LOG_ERROR("MPI_Irecv failed for values");
@@ -199,19 +195,21 @@ void TYPED_FUNC(
 {
     assert(A->N_ > 0);
 
+    int myrank;
+    MPI_Comm_rank(comm, &myrank);
+
     int totnnz = 0;
-    if (bml_getMyRank() == root)
+    if (myrank == root)
         for (int i = 0; i < A->N_; i++)
         {
             totnnz += A->data_[i]->NNZ_;
         }
     MPI_Bcast(&totnnz, 1, MPI_INT, root, comm);
-    assert(totnnz > 0);
 
     // bcast cols
     int *cols = bml_allocate_memory(sizeof(int) * totnnz);
     int *pcols = cols;
-    if (bml_getMyRank() == root)
+    if (myrank == root)
         for (int i = 0; i < A->N_; i++)
         {
             csr_sparse_row_t *row = A->data_[i];
@@ -222,7 +220,7 @@ void TYPED_FUNC(
 
     // bcast nnz
     int *nnz = bml_allocate_memory(sizeof(int) * A->N_);
-    if (bml_getMyRank() == root)
+    if (myrank == root)
         for (int i = 0; i < A->N_; i++)
         {
             csr_sparse_row_t *row = A->data_[i];
@@ -233,7 +231,7 @@ void TYPED_FUNC(
     // bcast matrix elements
     REAL_T *values = bml_allocate_memory(sizeof(REAL_T) * totnnz);
     REAL_T *pvalues = values;
-    if (bml_getMyRank() == root)
+    if (myrank == root)
         for (int i = 0; i < A->N_; i++)
         {
             csr_sparse_row_t *row = A->data_[i];
diff --git a/src/C-interface/ellblock/bml_parallel_ellblock_typed.c b/src/C-interface/ellblock/bml_parallel_ellblock_typed.c
index 296a6d5..444e6aa 100644
--- a/src/C-interface/ellblock/bml_parallel_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_parallel_ellblock_typed.c
@@ -10,11 +10,32 @@
 #include "../bml_utilities.h"
 
 #include <complex.h>
+#include <limits.h>
 #include <stdlib.h>
 #include <string.h>
 #include <assert.h>
 
 #ifdef BML_USE_MPI
+/** Number of elements in the blocks described by nnzb and indexb.
+ */
+static int TYPED_FUNC(
+    count_block_elements) (
+    bml_matrix_ellblock_t * A,
+    const int *nnzb,
+    const int *indexb)
+{
+    int nelements = 0;
+    for (int ib = 0; ib < A->NB; ib++)
+    {
+        for (int jp = 0; jp < nnzb[ib]; jp++)
+        {
+            int jb = indexb[ROWMAJOR(ib, jp, A->NB, A->MB)];
+            nelements += A->bsize[ib] * A->bsize[jb];
+        }
+    }
+    return nelements;
+}
+
 #include <mpi.h>
 #endif
 
@@ -36,7 +57,8 @@ void TYPED_FUNC(
 
     REAL_T **A_ptr_value = (REAL_T **) A->ptr_value;
 
-    REAL_T *values = bml_allocate_memory(sizeof(REAL_T) * A->N * A->M);
+    int nvalues = TYPED_FUNC(count_block_elements) (A, nnzb, indexb);
+    REAL_T *values = bml_allocate_memory(sizeof(REAL_T) * nvalues);
     REAL_T *pvalues = values;
     for (int ib = 0; ib < A->NB; ib++)
     {
@@ -49,7 +71,7 @@ void TYPED_FUNC(
             pvalues += nelements;
         }
     }
-    MPI_Send(values, A->N * A->M, MPI_T, dst, 111, comm);
+    MPI_Send(values, nvalues, MPI_T, dst, 111, comm);
 
     bml_free_memory(nnzb);
     bml_free_memory(indexb);
@@ -71,8 +93,11 @@ void TYPED_FUNC(
     int *nnzb = bml_allocate_memory(sizeof(int) * A->NB);
     MPI_Recv(nnzb, A->NB, MPI_INT, src, 113, comm, &status);
 
-    REAL_T *values = bml_allocate_memory(sizeof(REAL_T) * A->N * A->M);
-    MPI_Recv(values, A->N * A->M, MPI_T, src, 111, comm, &status);
+    int nvalues = TYPED_FUNC(count_block_elements) (A, nnzb, indexb);
+    REAL_T *values = bml_allocate_memory(sizeof(REAL_T) * nvalues);
+    MPI_Recv(values, nvalues, MPI_T, src, 111, comm, &status);
+
+    TYPED_FUNC(bml_clear_ellblock) (A);
 
     // copy data into bml matrix
     memcpy(A->nnzb, nnzb, sizeof(int) * A->NB);
@@ -105,13 +130,16 @@ void TYPED_FUNC(
     const int src,
     MPI_Comm comm)
 {
+    TYPED_FUNC(bml_clear_ellblock) (A);
 
     MPI_Irecv(A->indexb, A->NB * A->MB, MPI_INT, src, 112, comm, A->req);
 
     MPI_Irecv(A->nnzb, A->NB, MPI_INT, src, 113, comm, A->req + 1);
 
-    A->buffer = bml_allocate_memory(sizeof(REAL_T) * A->N * A->M);
-    MPI_Irecv(A->buffer, A->N * A->M, MPI_T, src, 111, comm, A->req + 2);
+    // largest number of elements one may receive
+    int nvalues = A->N < INT_MAX / A->N ? A->N * A->N : INT_MAX;
+    A->buffer = bml_noinit_allocate_memory(sizeof(REAL_T) * nvalues);
+    MPI_Irecv(A->buffer, nvalues, MPI_T, src, 111, comm, A->req + 2);
 }
 
 void TYPED_FUNC(
@@ -164,12 +192,15 @@ void TYPED_FUNC(
     assert(A->NB > 0);
     assert(A->MB > 0);
 
+    int myrank;
+    MPI_Comm_rank(comm, &myrank);
+
     int *indexb = bml_allocate_memory(sizeof(int) * A->NB * A->MB);
-    if (bml_getMyRank() == root)
+    if (myrank == root)
         memcpy(indexb, A->indexb, A->NB * A->MB * sizeof(int));
 
     int *nnzb = bml_allocate_memory(sizeof(int) * A->NB);
-    if (bml_getMyRank() == root)
+    if (myrank == root)
         memcpy(nnzb, A->nnzb, sizeof(int) * A->NB);
 
     MPI_Bcast(nnzb, A->NB, MPI_INT, root, comm);
@@ -177,8 +208,9 @@ void TYPED_FUNC(
 
     // bcast matrix elements
     REAL_T **A_ptr_value = (REAL_T **) A->ptr_value;
-    REAL_T *values = bml_allocate_memory(sizeof(REAL_T) * A->N * A->M);
-    if (bml_getMyRank() == root)
+    int nvalues = TYPED_FUNC(count_block_elements) (A, nnzb, indexb);
+    REAL_T *values = bml_allocate_memory(sizeof(REAL_T) * nvalues);
+    if (myrank == root)
     {
         REAL_T *pvalues = values;
         for (int ib = 0; ib < A->NB; ib++)
@@ -193,7 +225,7 @@ void TYPED_FUNC(
             }
         }
     }
-    MPI_Bcast(values, A->N * A->M, MPI_T, root, comm);
+    MPI_Bcast(values, nvalues, MPI_T, root, comm);
 
     bml_clear_ellblock(A);
 
-- 
2.43.0


From 2076104d139ce49902f92aae8c5abb1171da7e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:21 +0000
Subject: [PATCH 27/48] fix: import, export and read rows of distributed2d
 matrices in either dense order without leaks

---
 .../distributed2d/bml_export_distributed2d_typed.c           | 5 ++++-
 .../distributed2d/bml_getters_distributed2d_typed.c          | 3 ++-
 .../distributed2d/bml_import_distributed2d_typed.c           | 5 ++++-
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/C-interface/distributed2d/bml_export_distributed2d_typed.c b/src/C-interface/distributed2d/bml_export_distributed2d_typed.c
index 3b6246b..06fdf4e 100644
--- a/src/C-interface/distributed2d/bml_export_distributed2d_typed.c
+++ b/src/C-interface/distributed2d/bml_export_distributed2d_typed.c
@@ -67,8 +67,10 @@ void *TYPED_FUNC(
             int ip = coords[0];
             int jp = coords[1];
             MPI_Wait(&request[src - 1], &status);
+            int offset = (order == dense_row_major) ?
+                n * N * ip + n * jp : n * N * jp + n * ip;
             C_BLAS(LACPY) ("A", &n, &n, recvbuf[src - 1], &n,
-                           A_dense + n * N * ip + n * jp, &N);
+                           A_dense + offset, &N);
         }
         for (int src = 1; src < ntasks; src++)
         {
@@ -77,6 +79,7 @@ void *TYPED_FUNC(
         bml_free_memory(request);
         bml_free_memory(recvbuf);
     }
+    bml_free_memory(sendbuf);
 
     return A_dense;
 }
diff --git a/src/C-interface/distributed2d/bml_getters_distributed2d_typed.c b/src/C-interface/distributed2d/bml_getters_distributed2d_typed.c
index d78c9d9..a1aae24 100644
--- a/src/C-interface/distributed2d/bml_getters_distributed2d_typed.c
+++ b/src/C-interface/distributed2d/bml_getters_distributed2d_typed.c
@@ -37,7 +37,7 @@ void *TYPED_FUNC(
 
     int *displs = bml_allocate_memory(A->ntasks * sizeof(int));
     for (int i = 0; i < A->ntasks - 1; i++)
-        displs[i + 1] += recvcounts[i];
+        displs[i + 1] = displs[i] + recvcounts[i];
 
     MPI_Allgatherv(sub_row, mycount, MPI_T, row, recvcounts, displs, MPI_T,
                    A->comm);
@@ -50,6 +50,7 @@ void *TYPED_FUNC(
     bml_free_memory(recvcounts);
     bml_free_memory(counts);
     bml_free_memory(displs);
+    bml_free_memory(sub_row);
 
     return row;
 }
diff --git a/src/C-interface/distributed2d/bml_import_distributed2d_typed.c b/src/C-interface/distributed2d/bml_import_distributed2d_typed.c
index 4edbdd2..9d319b1 100644
--- a/src/C-interface/distributed2d/bml_import_distributed2d_typed.c
+++ b/src/C-interface/distributed2d/bml_import_distributed2d_typed.c
@@ -42,6 +42,7 @@ bml_matrix_distributed2d_t *TYPED_FUNC(
     bml_setup_distributed2d(N, A_bml);
     assert(A_bml->comm != MPI_COMM_NULL);
     A_bml->M = M;
+    A_bml->matrix_precision = MATRIX_PRECISION;
 
     // local submatrix dimensions
     int n = A_bml->n;
@@ -70,7 +71,9 @@ bml_matrix_distributed2d_t *TYPED_FUNC(
             // pack data into buffer
             sendbuf[dest - 1] = bml_allocate_memory(n * n * sizeof(REAL_T));
             REAL_T *array = (REAL_T *) (A);
-            C_BLAS(LACPY) ("A", &n, &n, array + N * n * ip + n * jp, &N,
+            int offset = (order == dense_row_major) ?
+                N * n * ip + n * jp : N * n * jp + n * ip;
+            C_BLAS(LACPY) ("A", &n, &n, array + offset, &N,
                            sendbuf[dest - 1], &n);
             MPI_Isend(sendbuf[dest - 1], n * n, MPI_T, dest, tag, A_bml->comm,
                       &request[dest - 1]);
-- 
2.43.0


From e8486234ad6f896f6538c9b22ee8b9f1246f318c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:21 +0000
Subject: [PATCH 28/48] fix: add the identity to distributed2d matrices on the
 diagonal blocks only

---
 src/C-interface/distributed2d/bml_add_distributed2d.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/C-interface/distributed2d/bml_add_distributed2d.c b/src/C-interface/distributed2d/bml_add_distributed2d.c
index 9bb68e1..ba5889b 100644
--- a/src/C-interface/distributed2d/bml_add_distributed2d.c
+++ b/src/C-interface/distributed2d/bml_add_distributed2d.c
@@ -75,7 +75,9 @@ bml_add_identity_distributed2d(
     double beta,
     double threshold)
 {
-    bml_add_identity(A->matrix, beta, threshold);
+    // the diagonal is stored in the diagonal blocks only
+    double beta_local = (A->myprow == A->mypcol) ? beta : 0.;
+    bml_add_identity(A->matrix, beta_local, threshold);
 }
 
 /** Matrix addition.
@@ -95,5 +97,7 @@ bml_scale_add_identity_distributed2d(
     double beta,
     double threshold)
 {
-    bml_scale_add_identity(A->matrix, alpha, beta, threshold);
+    // the diagonal is stored in the diagonal blocks only
+    double beta_local = (A->myprow == A->mypcol) ? beta : 0.;
+    bml_scale_add_identity(A->matrix, alpha, beta_local, threshold);
 }
-- 
2.43.0


From 65bf9500fd77f52f7757d8ec079e33568162dc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:21 +0000
Subject: [PATCH 29/48] fix: diagonalize distributed2d matrices with any
 eigenvector layout

---
 .../bml_diagonalize_distributed2d_typed.c              | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/C-interface/distributed2d/bml_diagonalize_distributed2d_typed.c b/src/C-interface/distributed2d/bml_diagonalize_distributed2d_typed.c
index 6195fa7..7a6d008 100644
--- a/src/C-interface/distributed2d/bml_diagonalize_distributed2d_typed.c
+++ b/src/C-interface/distributed2d/bml_diagonalize_distributed2d_typed.c
@@ -208,9 +208,8 @@ void TYPED_FUNC(
     }
 
     // transpose to satisfy column major ScaLapack convention
-    // (global matrix assumed symmetric, so no need for communications)
-    if (A->myprow != A->mypcol)
-        bml_transpose(amat);
+    // (local blocks only, so no need for communications)
+    bml_transpose(amat);
 
     REAL_T *pzmat = bml_get_data_ptr(zmat);
     assert(pzmat != NULL);
@@ -403,9 +402,8 @@ void TYPED_FUNC(
     }
 
     // transpose to satisfy column major ELPA convention
-    // (global matrix assumed symmetric, so no need for communications)
-    if (A->myprow != A->mypcol)
-        bml_transpose(amat);
+    // (local blocks only, so no need for communications)
+    bml_transpose(amat);
 
     REAL_T *z = bml_get_data_ptr(zmat);
     assert(z != NULL);
-- 
2.43.0


From bb62b49f6ab1b98739f006b653a4f21c28b044ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:21 +0000
Subject: [PATCH 30/48] fix: report the distribution mode of ellblock and
 distributed2d, dispatch fnorm2 for distributed2d

---
 src/C-interface/bml_introspection.c | 8 ++++++++
 src/C-interface/bml_norm.c          | 5 +++++
 2 files changed, 13 insertions(+)

diff --git a/src/C-interface/bml_introspection.c b/src/C-interface/bml_introspection.c
index c5470fa..bb95d7d 100644
--- a/src/C-interface/bml_introspection.c
+++ b/src/C-interface/bml_introspection.c
@@ -282,6 +282,14 @@ bml_get_distribution_mode(
         case csr:
             return bml_get_distribution_mode_csr(A);
             break;
+        case ellblock:
+            return bml_get_distribution_mode_ellblock(A);
+            break;
+#ifdef BML_USE_MPI
+        case distributed2d:
+            return bml_get_distribution_mode_distributed2d(A);
+            break;
+#endif
         default:
             LOG_ERROR("unknown matrix type in bml_get_distribution_mode\n");
             break;
diff --git a/src/C-interface/bml_norm.c b/src/C-interface/bml_norm.c
index e953214..c6c2835 100644
--- a/src/C-interface/bml_norm.c
+++ b/src/C-interface/bml_norm.c
@@ -233,6 +233,11 @@ bml_fnorm2(
         case csr:
             return bml_fnorm2_csr(A, B);
             break;
+#ifdef BML_USE_MPI
+        case distributed2d:
+            return bml_fnorm2_distributed2d(A, B);
+            break;
+#endif
         default:
             LOG_ERROR("unknown matrix type\n");
             break;
-- 
2.43.0


From 6f520d622622370ac9d7930be7e3b682453b98e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:21 +0000
Subject: [PATCH 31/48] fix: write and read distributed2d matrices

---
 .../distributed2d/bml_utilities_distributed2d.c  | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/C-interface/distributed2d/bml_utilities_distributed2d.c b/src/C-interface/distributed2d/bml_utilities_distributed2d.c
index 0032279..7c20de7 100644
--- a/src/C-interface/distributed2d/bml_utilities_distributed2d.c
+++ b/src/C-interface/distributed2d/bml_utilities_distributed2d.c
@@ -40,6 +40,7 @@ bml_read_bml_matrix_distributed2d(
                        lnb * sizeof(int));
             B = bml_block_matrix_ellblock(A->matrix_precision, B_NB, B_MB,
                                           A->M, bsizes, sequential);
+            bml_free_memory(bsizes);
             break;
         default:
             B = bml_zero_matrix(bml_get_type(A->matrix),
@@ -99,11 +100,12 @@ bml_write_bml_matrix_distributed2d(
                            lnb * sizeof(int));
                 B = bml_block_matrix_ellblock(A->matrix_precision, B_NB, B_MB,
                                               A->M, bsizes, sequential);
+                bml_free_memory(bsizes);
                 break;
             default:
-                B = bml_noinit_matrix(bml_get_type(A->matrix),
-                                      A->matrix_precision, A->N, A->M,
-                                      sequential);
+                B = bml_zero_matrix(bml_get_type(A->matrix),
+                                    A->matrix_precision, A->N, A->M,
+                                    sequential);
                 break;
         }
 
@@ -113,10 +115,10 @@ bml_write_bml_matrix_distributed2d(
         int C_M = A->M / A->npcols;
         for (int itask = 1; itask < A->ntasks; itask++)
         {
-            bml_matrix_t *C = bml_noinit_matrix(bml_get_type(A->matrix),
-                                                A->matrix_precision, C_N,
-                                                C_M,
-                                                sequential);
+            bml_matrix_t *C = bml_zero_matrix(bml_get_type(A->matrix),
+                                              A->matrix_precision, C_N,
+                                              C_M,
+                                              sequential);
             bml_mpi_recv(C, itask, A->comm);
             int irow = (itask / A->npcols) * C_N;
             int icol = (itask % A->npcols) * C_N;
-- 
2.43.0


From 528e6488c476f5f3bd03690f125710a3477b0103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:21 +0000
Subject: [PATCH 32/48] fix: convert distributed2d matrices with the local row
 capacity

---
 src/C-interface/distributed2d/bml_convert_distributed2d.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C-interface/distributed2d/bml_convert_distributed2d.c b/src/C-interface/distributed2d/bml_convert_distributed2d.c
index 9bab299..b895dbb 100644
--- a/src/C-interface/distributed2d/bml_convert_distributed2d.c
+++ b/src/C-interface/distributed2d/bml_convert_distributed2d.c
@@ -22,7 +22,7 @@ bml_convert_distributed2d(
                                                                   N,
                                                                   M);
     bml_matrix_t *matrix = bml_get_local_matrix(A);
-    int m = bml_get_M(matrix);
+    int m = M / B->npcols;
     bml_deallocate(&B->matrix);
     B->matrix = bml_convert(matrix, matrix_type,
                             matrix_precision, m, sequential);
-- 
2.43.0


From 569bcd6854b9e777ba1551a2326ae8a60f7191d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:21 +0000
Subject: [PATCH 33/48] fix: bml_trace_mult sums A_ij B_ji for matrices that
 are not symmetric

---
 src/C-interface/dense/bml_trace_dense_typed.c | 13 ++++++---
 .../distributed2d/bml_trace_distributed2d.c   | 11 +++++++-
 .../ellpack/bml_trace_ellpack_typed.c         | 27 ++++++++++---------
 3 files changed, 34 insertions(+), 17 deletions(-)

diff --git a/src/C-interface/dense/bml_trace_dense_typed.c b/src/C-interface/dense/bml_trace_dense_typed.c
index 2beddd8..bcd1d19 100644
--- a/src/C-interface/dense/bml_trace_dense_typed.c
+++ b/src/C-interface/dense/bml_trace_dense_typed.c
@@ -120,13 +120,13 @@ double TYPED_FUNC(
     {
 #if defined(SINGLE_COMPLEX) || defined(DOUBLE_COMPLEX)
         MAGMA_T ttrace = MAGMA(dotu) (N, (MAGMA_T *) A->matrix + i * A->ld, 1,
-                                      (MAGMA_T *) B->matrix + i * B->ld, 1,
+                                      (MAGMA_T *) B->matrix + i, B->ld,
                                       bml_queue());
         trace +=
             MAGMACOMPLEX(REAL) (ttrace) + I * MAGMACOMPLEX(IMAG) (ttrace);
 #else
         trace += MAGMA(dot) (N, (REAL_T *) A->matrix + i * A->ld, 1,
-                             (REAL_T *) B->matrix + i * B->ld, 1,
+                             (REAL_T *) B->matrix + i, B->ld,
                              bml_queue());
 #endif
     }
@@ -143,9 +143,14 @@ double TYPED_FUNC(
   shared(N, A_matrix, B_matrix)                 \
   shared(rowMin, rowMax, myRank)  \
   reduction(+:trace)
-    for (int i = rowMin * N; i < rowMax * N; i++)
+    for (int i = rowMin; i < rowMax; i++)
     {
-        trace += A_matrix[i] * B_matrix[i];
+        for (int j = 0; j < N; j++)
+        {
+            trace +=
+                A_matrix[ROWMAJOR(i, j, N, N)] *
+                B_matrix[ROWMAJOR(j, i, N, N)];
+        }
     }
 
 #ifdef MKL_GPU
diff --git a/src/C-interface/distributed2d/bml_trace_distributed2d.c b/src/C-interface/distributed2d/bml_trace_distributed2d.c
index 704a71b..27b63b0 100644
--- a/src/C-interface/distributed2d/bml_trace_distributed2d.c
+++ b/src/C-interface/distributed2d/bml_trace_distributed2d.c
@@ -2,7 +2,10 @@
 #include "../bml_trace.h"
 #include "../bml_types.h"
 #include "../bml_parallel.h"
+#include "../bml_transpose.h"
+#include "bml_allocate_distributed2d.h"
 #include "bml_trace_distributed2d.h"
+#include "bml_transpose_distributed2d.h"
 #include "bml_types_distributed2d.h"
 
 #include <stdlib.h>
@@ -43,7 +46,13 @@ bml_trace_mult_distributed2d(
     bml_matrix_distributed2d_t * A,
     bml_matrix_distributed2d_t * B)
 {
-    double trace = bml_trace_mult(A->matrix, B->matrix);;
+    // block (i,j) of A is multiplied by block (j,i) of B
+    bml_matrix_distributed2d_t *Bt = bml_transpose_new_distributed2d(B);
+    bml_transpose(Bt->matrix);
+
+    double trace = bml_trace_mult(A->matrix, Bt->matrix);
+
+    bml_deallocate_distributed2d(Bt);
 
     bml_sumRealReduce(&trace);
 
diff --git a/src/C-interface/ellpack/bml_trace_ellpack_typed.c b/src/C-interface/ellpack/bml_trace_ellpack_typed.c
index 68ce825..89f6576 100644
--- a/src/C-interface/ellpack/bml_trace_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_trace_ellpack_typed.c
@@ -115,7 +115,6 @@ double TYPED_FUNC(
 
     REAL_T trace = 0.0;
     REAL_T *A_value = (REAL_T *) A->value;
-    REAL_T *rvalue;
 
     int myRank = bml_getMyRank();
     int rowMin = A_localRowMin[myRank];
@@ -130,32 +129,36 @@ double TYPED_FUNC(
     int B_N = B->N;
     int B_M = B->M;
 
-#ifdef USE_OMP_OFFLOAD
     REAL_T *B_value = (REAL_T *) B->value;
     int *B_index = (int *) B->index;
     int *B_nnz = (int *) B->nnz;
+
+#ifdef USE_OMP_OFFLOAD
 #pragma omp target update from(A_nnz[:A_N], A_index[:A_N*A_M], A_value[:A_N*A_M])
 #pragma omp target update from(B_nnz[:B_N], B_index[:B_N*B_M], B_value[:B_N*B_M])
 #endif
 
 #pragma omp parallel for                        \
-  private(rvalue)                               \
-  shared(B, A_N, A_M, A_value, A_index, A_nnz)  \
-  shared(A_localRowMin, A_localRowMax, myRank)  \
+  shared(A_N, A_M, A_value, A_index, A_nnz)     \
+  shared(B_N, B_M, B_value, B_index, B_nnz)     \
   reduction(+:trace)
     //for (int i = 0; i < A_N; i++)
     for (int i = rowMin; i < rowMax; i++)
     {
-        rvalue =
-            TYPED_FUNC(bml_getVector_ellpack) (B,
-                                               &A_index[ROWMAJOR
-                                                        (i, 0, A_N, A_M)], i,
-                                               A_nnz[i]);
         for (int j = 0; j < A_nnz[i]; j++)
         {
-            trace += A_value[ROWMAJOR(i, j, A_N, A_M)] * rvalue[j];
+            // A_ik * B_ki
+            int k = A_index[ROWMAJOR(i, j, A_N, A_M)];
+            for (int l = 0; l < B_nnz[k]; l++)
+            {
+                if (i == B_index[ROWMAJOR(k, l, B_N, B_M)])
+                {
+                    trace += A_value[ROWMAJOR(i, j, A_N, A_M)] *
+                        B_value[ROWMAJOR(k, l, B_N, B_M)];
+                    break;
+                }
+            }
         }
-        bml_free_memory(rvalue);
     }
 
     return (double) REAL_PART(trace);
-- 
2.43.0


From aba6f674fa6d7c524b5038c550eafc73e91904ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:20 +0000
Subject: [PATCH 34/48] fix: conjugate the eigenvectors of complex dense
 matrices

---
 src/C-interface/dense/bml_diagonalize_dense.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/C-interface/dense/bml_diagonalize_dense.c b/src/C-interface/dense/bml_diagonalize_dense.c
index 1ee72c8..3da5c6e 100644
--- a/src/C-interface/dense/bml_diagonalize_dense.c
+++ b/src/C-interface/dense/bml_diagonalize_dense.c
@@ -758,8 +758,9 @@ bml_diagonalize_dense_single_complex(
         typed_eigenvalues[i] = (double) evals[i];
         for (int j = 0; j < A->N; j++)
         {
+            // the row-major input is the conjugate of the matrix LAPACK sees
             A_matrix[ROWMAJOR(i, j, A->N, A->N)] =
-                evecs[COLMAJOR(i, j, A->N, A->N)];
+                conjf(evecs[COLMAJOR(i, j, A->N, A->N)]);
         }
     }
 
@@ -872,8 +873,9 @@ bml_diagonalize_dense_double_complex(
         typed_eigenvalues[i] = (double) evals[i];
         for (int j = 0; j < A->N; j++)
         {
+            // the row-major input is the conjugate of the matrix LAPACK sees
             A_matrix[ROWMAJOR(i, j, A->N, A->N)] =
-                evecs[COLMAJOR(i, j, A->N, A->N)];
+                conj(evecs[COLMAJOR(i, j, A->N, A->N)]);
         }
     }
 
-- 
2.43.0


From dd33069d386d5d2a731de7829b731af9c727cab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:54 +0000
Subject: [PATCH 35/48] fix: check Matrix Market files when reading and report
 failed writes

Reading accepted truncated files, out of range indices, entry counts and rows
that do not fit the matrix and files of another size, left earlier elements of
the destination in place and ignored the symmetry of the file; writing ignored
failed opens, writes and closes and overran the header buffer.
---
 src/C-interface/bml_utilities.c               | 170 +++++++++++++++
 src/C-interface/bml_utilities.h               |  27 +++
 src/C-interface/csr/bml_utilities_csr_typed.c |  90 +++-----
 .../dense/bml_utilities_dense_typed.c         |  94 +++------
 .../ellblock/bml_utilities_ellblock_typed.c   | 197 +++++++-----------
 .../ellpack/bml_utilities_ellpack_typed.c     | 138 ++++++------
 6 files changed, 393 insertions(+), 323 deletions(-)

diff --git a/src/C-interface/bml_utilities.c b/src/C-interface/bml_utilities.c
index 4d28820..1a00127 100644
--- a/src/C-interface/bml_utilities.c
+++ b/src/C-interface/bml_utilities.c
@@ -17,6 +17,7 @@
 
 #include <complex.h>
 #include <stdio.h>
+#include <string.h>
 
 /** Print a bml vector.
  *
@@ -557,6 +558,175 @@ bml_write_bml_matrix(
     }
 }
 
+/** Open a Matrix Market file.
+ *
+ * \param filename The name of the file
+ * \param mode The mode, as in fopen()
+ * \return The open file
+ */
+FILE *
+bml_open_matrix_file(
+    const char *filename,
+    const char *mode)
+{
+    FILE *file = fopen(filename, mode);
+    if (file == NULL)
+    {
+        LOG_ERROR("cannot open file %s\n", filename);
+    }
+    return file;
+}
+
+// consume the end of a line, there should be nothing else on it
+static void
+bml_read_matrix_file_eol(
+    FILE * file)
+{
+    int c;
+    do
+    {
+        c = fgetc(file);
+    }
+    while (c == ' ' || c == '\t' || c == '\r');
+    if (c != '\n')
+    {
+        LOG_ERROR("line of matrix file is incomplete or too long\n");
+    }
+}
+
+/** Read the header of a Matrix Market file.
+ *
+ * \param file The file
+ * \param N The size of the matrix to be read
+ * \param complex_values Whether that matrix is complex
+ * \param symmetric Set if only one triangle of the matrix is in the file
+ * \return The number of entries in the file
+ */
+int
+bml_read_matrix_file_header(
+    FILE * file,
+    const int N,
+    const int complex_values,
+    int *symmetric)
+{
+    char header[5][20];
+    int nrows, ncols, nnz;
+
+    for (int i = 0; i < 5; i++)
+    {
+        if (fscanf(file, "%19s", header[i]) != 1)
+        {
+            LOG_ERROR("read error on header\n");
+        }
+    }
+    LOG_DEBUG("Read: %s %s %s %s %s\n", header[0], header[1], header[2],
+              header[3], header[4]);
+
+    if (!strcmp(header[3], "complex") != !!complex_values)
+    {
+        LOG_ERROR("matrix file has %s values\n", header[3]);
+    }
+    *symmetric = !strcmp(header[4], "symmetric");
+    if (!strcmp(header[4], "hermitian")
+        || !strcmp(header[4], "skew-symmetric"))
+    {
+        LOG_ERROR("%s matrix files are not supported\n", header[4]);
+    }
+
+    // Read N, N, # of non-zeroes
+    if (fscanf(file, "%d %d %d", &nrows, &ncols, &nnz) != 3)
+    {
+        LOG_ERROR("read error on matrix size\n");
+    }
+    bml_read_matrix_file_eol(file);
+    LOG_DEBUG("nrows = %d, ncols = %d, nnz = %d\n", nrows, ncols, nnz);
+    if (nrows != N || ncols != N)
+    {
+        LOG_ERROR("matrix file has size %d x %d, expected %d x %d\n",
+                  nrows, ncols, N, N);
+    }
+    if (nnz < 0)
+    {
+        LOG_ERROR("matrix file has %d entries\n", nnz);
+    }
+
+    return nnz;
+}
+
+/** Read one entry of a Matrix Market file.
+ *
+ * \param file The file
+ * \param N The size of the matrix
+ * \param complex_values Whether the matrix is complex
+ * \param irow The row, starting at 0
+ * \param icol The column, starting at 0
+ * \param real_part The real part of the value
+ * \param imaginary_part The imaginary part of the value
+ */
+void
+bml_read_matrix_file_entry(
+    FILE * file,
+    const int N,
+    const int complex_values,
+    int *irow,
+    int *icol,
+    double *real_part,
+    double *imaginary_part)
+{
+    if (fscanf(file, "%d %d %lf", irow, icol, real_part) != 3)
+    {
+        LOG_ERROR("read error on matrix entry\n");
+    }
+    *imaginary_part = 0.0;
+    if (complex_values && fscanf(file, "%lf", imaginary_part) != 1)
+    {
+        LOG_ERROR("read error on matrix entry\n");
+    }
+    bml_read_matrix_file_eol(file);
+    if (*irow < 1 || *irow > N || *icol < 1 || *icol > N)
+    {
+        LOG_ERROR("matrix entry (%d, %d) outside of matrix of size %d\n",
+                  *irow, *icol, N);
+    }
+    (*irow)--;
+    (*icol)--;
+}
+
+/** Close a Matrix Market file after its last entry was read.
+ *
+ * \param file The file
+ */
+void
+bml_close_read_matrix_file(
+    FILE * file)
+{
+    char next[2];
+    if (fscanf(file, "%1s", next) != EOF)
+    {
+        LOG_ERROR("matrix file has more entries than announced\n");
+    }
+    if (ferror(file))
+    {
+        LOG_ERROR("read error on matrix file\n");
+    }
+    fclose(file);
+}
+
+/** Close a Matrix Market file after its last entry was written.
+ *
+ * \param file The file
+ */
+void
+bml_close_written_matrix_file(
+    FILE * file)
+{
+    int error = ferror(file);
+    if (fclose(file) != 0 || error)
+    {
+        LOG_ERROR("write error on matrix file\n");
+    }
+}
+
 // compute smallest int "i" such that i*i >= x
 int
 bml_sqrtint(
diff --git a/src/C-interface/bml_utilities.h b/src/C-interface/bml_utilities.h
index 8924b0b..40ec430 100644
--- a/src/C-interface/bml_utilities.h
+++ b/src/C-interface/bml_utilities.h
@@ -4,6 +4,8 @@
 #define __BML_UTILITIES_H
 
 #include "bml_types.h"
+
+#include <stdio.h>
 #define PRINT_THRESHOLD 16
 
 void bml_print_dense_matrix(
@@ -43,6 +45,31 @@ void bml_write_bml_matrix(
     bml_matrix_t * A,
     char *filename);
 
+FILE *bml_open_matrix_file(
+    const char *filename,
+    const char *mode);
+
+int bml_read_matrix_file_header(
+    FILE * file,
+    const int N,
+    const int complex_values,
+    int *symmetric);
+
+void bml_read_matrix_file_entry(
+    FILE * file,
+    const int N,
+    const int complex_values,
+    int *irow,
+    int *icol,
+    double *real_part,
+    double *imaginary_part);
+
+void bml_close_read_matrix_file(
+    FILE * file);
+
+void bml_close_written_matrix_file(
+    FILE * file);
+
 int bml_sqrtint(
     const int x);
 #endif
diff --git a/src/C-interface/csr/bml_utilities_csr_typed.c b/src/C-interface/csr/bml_utilities_csr_typed.c
index 6f71845..e139a4c 100644
--- a/src/C-interface/csr/bml_utilities_csr_typed.c
+++ b/src/C-interface/csr/bml_utilities_csr_typed.c
@@ -4,6 +4,7 @@
 #include "../bml_parallel.h"
 #include "../bml_types.h"
 #include "../bml_utilities.h"
+#include "bml_allocate_csr.h"
 #include "bml_types_csr.h"
 #include "bml_setters_csr.h"
 #include "bml_utilities_csr.h"
@@ -25,83 +26,42 @@ void TYPED_FUNC(
     bml_matrix_csr_t * A,
     char *filename)
 {
-    FILE *hFile;
-    char header1[20], header2[20], header3[20], header4[20], header5[20];
-    int hdimx, nnz, irow, icol;
-    REAL_T value;
-
-    hFile = fopen(filename, "r");
-
-    // Read header
-    if (fscanf(hFile, "%s %s %s %s %s", header1, header2, header3, header4,
-               header5) != 5)
-    {
-        LOG_ERROR("read error on header\n");
-    }
-
-    LOG_DEBUG("Read: %s %s %s %s %s\n", header1, header2, header3, header4,
-              header5);
+    int N = A->N_;
+#if defined(SINGLE_COMPLEX) || defined(DOUBLE_COMPLEX)
+    const int complex_values = 1;
+#else
+    const int complex_values = 0;
+#endif
+    int symmetric;
+    int irow, icol;
+    double real_part, imaginary_part;
 
-    int symflag = strcmp(header5, "symmetric");
+    TYPED_FUNC(bml_clear_csr) (A);
 
-    // Read N, N, # of non-zeroes
-    if (fscanf(hFile, "%d %d %d", &hdimx, &hdimx, &nnz) != 3)
-    {
-        LOG_ERROR("read error\n");
-    }
+    FILE *file = bml_open_matrix_file(filename, "r");
 
-    LOG_DEBUG("hdimx = %d, nnz = %d\n", hdimx, nnz);
+    // Read header
+    int nnz = bml_read_matrix_file_header(file, N, complex_values, &symmetric);
 
     // Read in values
     for (int i = 0; i < nnz; i++)
     {
-#if defined(SINGLE_REAL)
-        if (fscanf(hFile, "%d %d %f\n", &irow, &icol, &value) != 3)
-        {
-            LOG_ERROR("read error\n");
-        }
-#elif defined(DOUBLE_REAL)
-        if (fscanf(hFile, "%d %d %lf\n", &irow, &icol, &value) != 3)
-        {
-            LOG_ERROR("read error\n");
-        }
-#elif defined(SINGLE_COMPLEX)
-        double real_part, imaginary_part;
-        if (fscanf
-            (hFile, "%d %d %lf %lf\n", &irow, &icol, &real_part,
-             &imaginary_part) != 4)
-        {
-            LOG_ERROR("read error\n");
-        }
-        value = real_part + I * imaginary_part;
-        LOG_DEBUG("read: %d %d %e %e %e\n", irow, icol, real_part,
-                  imaginary_part, value);
-#elif defined(DOUBLE_COMPLEX)
-        double real_part, imaginary_part;
-        if (fscanf
-            (hFile, "%d %d %lf %lf\n", &irow, &icol, &real_part,
-             &imaginary_part) != 4)
-        {
-            LOG_ERROR("read error\n");
-        }
-        value = real_part + I * imaginary_part;
+        bml_read_matrix_file_entry(file, N, complex_values, &irow, &icol,
+                                   &real_part, &imaginary_part);
+#if defined(SINGLE_COMPLEX) || defined(DOUBLE_COMPLEX)
+        REAL_T value = real_part + I * imaginary_part;
 #else
-        LOG_ERROR("unknown precision\n");
+        REAL_T value = real_part;
 #endif
-
-        irow--;
-        icol--;
-        // set new element
-        TYPED_FUNC(csr_set_row_element_new) (A->data_[irow], icol, &value);
+        TYPED_FUNC(csr_set_row_element) (A->data_[irow], icol, &value);
         // Set symmetric value if necessary
-        if (symflag == 0 && icol != irow)
+        if (symmetric && icol != irow)
         {
-            TYPED_FUNC(csr_set_row_element_new) (A->data_[icol], irow,
-                                                 &value);
+            TYPED_FUNC(csr_set_row_element) (A->data_[icol], irow, &value);
         }
     }
 
-    fclose(hFile);
+    bml_close_read_matrix_file(file);
 }
 
 /** Write a Matrix Market format file from a bml matrix.
@@ -128,7 +88,7 @@ void TYPED_FUNC(
     if (bml_printRank() != 1)
         return;
 
-    mFile = fopen(filename, "w");
+    mFile = bml_open_matrix_file(filename, "w");
 
     // Write header
 #if defined(SINGLE_REAL) || defined(DOUBLE_REAL)
@@ -174,5 +134,5 @@ void TYPED_FUNC(
         }
     }
 
-    fclose(mFile);
+    bml_close_written_matrix_file(mFile);
 }
diff --git a/src/C-interface/dense/bml_utilities_dense_typed.c b/src/C-interface/dense/bml_utilities_dense_typed.c
index f2cf671..cba9b69 100644
--- a/src/C-interface/dense/bml_utilities_dense_typed.c
+++ b/src/C-interface/dense/bml_utilities_dense_typed.c
@@ -29,15 +29,6 @@ void TYPED_FUNC(
     bml_matrix_dense_t * A,
     char *filename)
 {
-    FILE *matrix_file;
-    char header1[20], header2[20], header3[20], header4[20], header5[20];
-    int hdimx, nnz, irow, icol;
-    int values_read;
-    double real_part;
-#if (defined(SINGLE_COMPLEX) || defined(DOUBLE_COMPLEX))
-    double imaginary_part;
-#endif
-
     int N = A->N;
 
 #ifdef BML_USE_MAGMA
@@ -45,70 +36,44 @@ void TYPED_FUNC(
 #else
     REAL_T *A_matrix = A->matrix;
 #endif
+#if defined(SINGLE_COMPLEX) || defined(DOUBLE_COMPLEX)
+    const int complex_values = 1;
+#else
+    const int complex_values = 0;
+#endif
+    int symmetric;
+    int irow, icol;
+    double real_part, imaginary_part;
+
+#ifndef BML_USE_MAGMA
+    // elements which are not in the file are zero
+    memset(A_matrix, 0, sizeof(REAL_T) * N * N);
+#endif
 
-    matrix_file = fopen(filename, "r");
+    FILE *file = bml_open_matrix_file(filename, "r");
 
     // Read header
-    if ((values_read = fscanf
-         (matrix_file, "%s %s %s %s %s", header1, header2, header3, header4,
-          header5)) < 5)
-    {
-        LOG_ERROR("Line 1, expected 5 entries, read %d\n", values_read);
-    }
-
-    // Read N, N, # of non-zeroes
-    if ((values_read =
-         fscanf(matrix_file, "%d %d %d", &hdimx, &hdimx, &nnz)) < 3)
-    {
-        LOG_ERROR("Line 2, Expected 3 entries, read %d\n", values_read);
-    }
+    int nnz = bml_read_matrix_file_header(file, N, complex_values, &symmetric);
 
     // Read in values
     for (int i = 0; i < nnz; i++)
     {
-#if defined(SINGLE_REAL)
-        if ((values_read =
-             fscanf(matrix_file, "%d %d %lg\n", &irow, &icol,
-                    &real_part)) < 3)
-        {
-            LOG_ERROR("Line %d, expected 3 entries, read %d\n", i + 3,
-                      values_read);
-        }
-        A_matrix[ROWMAJOR(irow - 1, icol - 1, N, N)] = real_part;
-#elif defined(DOUBLE_REAL)
-        if ((values_read =
-             fscanf(matrix_file, "%d %d %lg\n", &irow, &icol,
-                    &real_part)) < 3)
-        {
-            LOG_ERROR("Line %d, expected 3 entries, read %d\n", i + 3,
-                      values_read);
-        }
-        A_matrix[ROWMAJOR(irow - 1, icol - 1, N, N)] = real_part;
-#elif defined(SINGLE_COMPLEX)
-        if ((values_read =
-             fscanf(matrix_file, "%d %d %lg %lg\n", &irow, &icol, &real_part,
-                    &imaginary_part)) < 4)
-        {
-            LOG_ERROR("Line %d, expected 4 entries, read %d\n", i + 3,
-                      values_read);
-        }
-        A_matrix[ROWMAJOR(irow - 1, icol - 1, N, N)] =
-            real_part + I * imaginary_part;
-#elif defined(DOUBLE_COMPLEX)
-        if ((values_read =
-             fscanf(matrix_file, "%d %d %lg %lg\n", &irow, &icol, &real_part,
-                    &imaginary_part)) < 4)
-        {
-            LOG_ERROR("Line %d, expected 4 entries, read %d\n", i + 3,
-                      values_read);
-        }
-        A_matrix[ROWMAJOR(irow - 1, icol - 1, N, N)] =
-            real_part + I * imaginary_part;
+        bml_read_matrix_file_entry(file, N, complex_values, &irow, &icol,
+                                   &real_part, &imaginary_part);
+#if defined(SINGLE_COMPLEX) || defined(DOUBLE_COMPLEX)
+        REAL_T value = real_part + I * imaginary_part;
 #else
-        LOG_ERROR("unknown precision\n");
+        REAL_T value = real_part;
 #endif
+        A_matrix[ROWMAJOR(irow, icol, N, N)] = value;
+        if (symmetric)
+        {
+            A_matrix[ROWMAJOR(icol, irow, N, N)] = value;
+        }
     }
 
+    bml_close_read_matrix_file(file);
+
 #ifdef BML_USE_MAGMA
     MAGMA(setmatrix) (N, N, (MAGMA_T *) A_matrix, N, A->matrix, A->ld,
                       bml_queue());
@@ -118,7 +83,6 @@ void TYPED_FUNC(
 // push back to GPU
 #pragma omp target update to(A_matrix[0:N*N])
 #endif
-    fclose(matrix_file);
 }
 
 /** Write a Matrix Market format file from a bml matrix.
@@ -153,7 +117,7 @@ void TYPED_FUNC(
 
 #endif
 
-    matrix_file = fopen(filename, "w");
+    matrix_file = bml_open_matrix_file(filename, "w");
 
     // Write header
 #if defined(SINGLE_REAL) || defined(DOUBLE_REAL)
@@ -201,7 +165,7 @@ void TYPED_FUNC(
 #ifdef BML_USE_MAGMA
     bml_free_memory(A_matrix);
 #endif
-    fclose(matrix_file);
+    bml_close_written_matrix_file(matrix_file);
 }
 
 void TYPED_FUNC(
diff --git a/src/C-interface/ellblock/bml_utilities_ellblock_typed.c b/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
index 3a30aca..63f3a5a 100644
--- a/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
@@ -15,153 +15,114 @@
 #include <string.h>
 #include <assert.h>
 
-/** Read in a bml matrix from Matrix Market format.
+/** Set an element while reading a file.
  *
  *  \ingroup utilities_group
  *
- *  \param A The matrix to be read
- *  \param filename The Matrix Market format file
+ *  \param A The matrix
+ *  \param i Row index
+ *  \param j Column index
+ *  \param value The value
  */
-void TYPED_FUNC(
-    bml_read_bml_matrix_ellblock) (
+static void TYPED_FUNC(
+    set_read_element_ellblock) (
     bml_matrix_ellblock_t * A,
-    char *filename)
+    int i,
+    int j,
+    const REAL_T value)
 {
-    assert(A->bsize[0] < 1e6);
-
-    FILE *hFile;
-    char header1[20], header2[20], header3[20], header4[20], header5[20];
-    int hdimx, nnz, irow, icol;
-    REAL_T value;
-
-    int NB = A->NB;
-    int MB = A->MB;
+    const int NB = A->NB;
+    const int MB = A->MB;
     REAL_T **A_ptr_value = (REAL_T **) A->ptr_value;
     int *A_indexb = A->indexb;
     int *A_nnzb = A->nnzb;
     int *A_bsize = A->bsize;
 
-    hFile = fopen(filename, "r");
-
-    // Read header
-    if (fscanf(hFile, "%s %s %s %s %s", header1, header2, header3, header4,
-               header5) != 5)
+    /*compute block indexes */
+    int ib = 0;
+    while (i >= A_bsize[ib])
     {
-        LOG_ERROR("read error on header\n");
+        i -= A_bsize[ib];
+        ib++;
     }
 
-    int symflag = strcmp(header5, "symmetric");
-
-    // Read N, N, # of non-zeroes
-    if (fscanf(hFile, "%d %d %d", &hdimx, &hdimx, &nnz) != 3)
+    int jb = 0;
+    while (j >= A_bsize[jb])
     {
-        LOG_ERROR("read error\n");
+        j -= A_bsize[jb];
+        jb++;
     }
 
-    // Read in values
-    for (int i = 0; i < nnz; i++)
+    int jp = 0;
+    while (jp < A_nnzb[ib] && A_indexb[ROWMAJOR(ib, jp, NB, MB)] != jb)
+        jp++;
+
+    const int ind = ROWMAJOR(ib, jp, NB, MB);
+    //add block if needed
+    if (jp == A_nnzb[ib])
     {
-#if defined(SINGLE_REAL)
-        if (fscanf(hFile, "%d %d %e\n", &irow, &icol, &value) != 3)
-        {
-            LOG_ERROR("read error\n");
-        }
-#elif defined(DOUBLE_REAL)
-        if (fscanf(hFile, "%d %d %le\n", &irow, &icol, &value) != 3)
-        {
-            LOG_ERROR("read error\n");
-        }
-#elif defined(SINGLE_COMPLEX) || defined(DOUBLE_COMPLEX)
-        double real_part, imaginary_part;
-        if (fscanf
-            (hFile, "%d %d %le %le\n", &irow, &icol, &real_part,
-             &imaginary_part) != 4)
+        if (jp == MB)
         {
-            LOG_ERROR("read error\n");
+            LOG_ERROR("Number of non-zero blocks per row > MB\n");
         }
-        value = real_part + I * imaginary_part;
+        const int nelements = A_bsize[ib] * A_bsize[jb];
+        A_ptr_value[ind] =
+            TYPED_FUNC(bml_allocate_block_ellblock) (A, ib, nelements);
+        memset(A_ptr_value[ind], 0, nelements * sizeof(REAL_T));
+        A_indexb[ind] = jb;
+        A_nnzb[ib]++;
+    }
+    A_ptr_value[ind][ROWMAJOR(i, j, A_bsize[ib], A_bsize[jb])] = value;
+}
+
+/** Read in a bml matrix from Matrix Market format.
+ *
+ *  \ingroup utilities_group
+ *
+ *  \param A The matrix to be read
+ *  \param filename The Matrix Market format file
+ */
+void TYPED_FUNC(
+    bml_read_bml_matrix_ellblock) (
+    bml_matrix_ellblock_t * A,
+    char *filename)
+{
+    int N = A->N;
+#if defined(SINGLE_COMPLEX) || defined(DOUBLE_COMPLEX)
+    const int complex_values = 1;
 #else
-        LOG_ERROR("unknown matrix precision\n");
+    const int complex_values = 0;
 #endif
+    int symmetric;
+    int irow, icol;
+    double real_part, imaginary_part;
 
-        irow--;
-        icol--;
+    TYPED_FUNC(bml_clear_ellblock) (A);
 
-        /*compute block indexes */
-        int ib = 0;
-        while (irow >= A_bsize[ib])
-        {
-            irow -= A_bsize[ib];
-            ib++;
-        }
-
-        int jb = 0;
-        while (icol >= A_bsize[jb])
-        {
-            icol -= A_bsize[jb];
-            jb++;
-        }
+    FILE *file = bml_open_matrix_file(filename, "r");
 
-        int found_block = 0;
-        for (int jp = 0; jp < A_nnzb[ib]; jp++)
-        {
-            int ind = ROWMAJOR(ib, jp, NB, MB);
-            int jbb = A_indexb[ind];
-            if (jbb == jb)
-            {
-                found_block = 1;
-                REAL_T *A_value = A_ptr_value[ind];
-                A_value[ROWMAJOR(irow, icol, A_bsize[ib], A_bsize[jb])] =
-                    value;
-            }
-        }
-        //add block if needed
-        if (found_block == 0)
-        {
-            //printf("Add new block %d, %d\n",ib, jb);
-            assert(A_nnzb[ib] < MB);
-            int ind = ROWMAJOR(ib, A_nnzb[ib], NB, MB);
-            A_indexb[ind] = jb;
-            A_nnzb[ib]++;
-            int nelements = A_bsize[ib] * A_bsize[jb];
-            A_ptr_value[ind] =
-                TYPED_FUNC(bml_allocate_block_ellblock) (A, ib, nelements);
-            REAL_T *A_value = A_ptr_value[ind];
-            memset(A_value, 0, nelements * sizeof(REAL_T));
-            assert(A_value != NULL);
-            A_value[ROWMAJOR(irow, icol, A_bsize[ib], A_bsize[jb])] = value;
-        }
+    // Read header
+    int nnz = bml_read_matrix_file_header(file, N, complex_values, &symmetric);
 
+    // Read in values
+    for (int i = 0; i < nnz; i++)
+    {
+        bml_read_matrix_file_entry(file, N, complex_values, &irow, &icol,
+                                   &real_part, &imaginary_part);
+#if defined(SINGLE_COMPLEX) || defined(DOUBLE_COMPLEX)
+        REAL_T value = real_part + I * imaginary_part;
+#else
+        REAL_T value = real_part;
+#endif
+        TYPED_FUNC(set_read_element_ellblock) (A, irow, icol, value);
         // Set symmetric value if necessary
-        if (symflag == 0 && icol != irow)
+        if (symmetric && icol != irow)
         {
-            int found_block = 0;
-            for (int ip = 0; ip < A_nnzb[jb]; ip++)
-            {
-                int ind = ROWMAJOR(jb, ip, NB, MB);
-                int ibb = A_indexb[ROWMAJOR(jb, ip, NB, MB)];
-                if (ibb == ib)
-                {
-                    found_block = 1;
-                    REAL_T *A_value = A_ptr_value[ind];
-                    A_value[ROWMAJOR(icol, irow, A_bsize[jb], A_bsize[ib])] =
-                        value;
-                }
-            }
-            //add block if needed
-            if (found_block == 0)
-            {
-                A_indexb[A_nnzb[jb]] = ib;
-                int ind = ROWMAJOR(jb, A_nnzb[jb], NB, MB);
-                A_nnzb[jb]++;
-                REAL_T *A_value = A_ptr_value[ind];
-                A_value[ROWMAJOR(icol, irow, A_bsize[jb], A_bsize[ib])] =
-                    value;
-            }
+            TYPED_FUNC(set_read_element_ellblock) (A, icol, irow, value);
         }
     }
 
-    fclose(hFile);
+    bml_close_read_matrix_file(file);
 }
 
 /** Write a Matrix Market format file from a bml matrix.
@@ -191,7 +152,7 @@ void TYPED_FUNC(
     if (bml_printRank() != 1)
         return;
 
-    mFile = fopen(filename, "w");
+    mFile = bml_open_matrix_file(filename, "w");
 
     // Write header
 #if defined(SINGLE_REAL) || defined(DOUBLE_REAL)
@@ -255,7 +216,7 @@ void TYPED_FUNC(
     }
     bml_free_memory(offset);
 
-    fclose(mFile);
+    bml_close_written_matrix_file(mFile);
 }
 
 double TYPED_FUNC(
diff --git a/src/C-interface/ellpack/bml_utilities_ellpack_typed.c b/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
index fa500b1..bda25cf 100644
--- a/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
@@ -4,6 +4,7 @@
 #include "../bml_parallel.h"
 #include "../bml_types.h"
 #include "../bml_utilities.h"
+#include "bml_allocate_ellpack.h"
 #include "bml_types_ellpack.h"
 #include "bml_utilities_ellpack.h"
 
@@ -12,6 +13,41 @@
 #include <stdlib.h>
 #include <string.h>
 
+/** Set an element while reading a file.
+ *
+ *  \ingroup utilities_group
+ *
+ *  \param A The matrix
+ *  \param i Row index
+ *  \param j Column index
+ *  \param value The value
+ */
+static void TYPED_FUNC(
+    set_read_element_ellpack) (
+    bml_matrix_ellpack_t * A,
+    const int i,
+    const int j,
+    const REAL_T value)
+{
+    const int N = A->N;
+    const int M = A->M;
+    REAL_T *A_value = (REAL_T *) A->value;
+    int *A_index = A->index;
+    int *A_nnz = A->nnz;
+    int ind = 0;
+
+    while (ind < A_nnz[i] && A_index[ROWMAJOR(i, ind, N, M)] != j)
+        ind++;
+    if (ind == M)
+    {
+        LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+    }
+    A_index[ROWMAJOR(i, ind, N, M)] = j;
+    A_value[ROWMAJOR(i, ind, N, M)] = value;
+    if (ind == A_nnz[i])
+        A_nnz[i]++;
+}
+
 /** Read in a bml matrix from Matrix Market format.
  *
  *  \ingroup utilities_group
@@ -24,98 +60,50 @@ void TYPED_FUNC(
     bml_matrix_ellpack_t * A,
     char *filename)
 {
-    FILE *hFile;
-    char header1[20], header2[20], header3[20], header4[20], header5[20];
-    int hdimx, nnz, irow, icol, ind;
-#if (defined(SINGLE_COMPLEX)||defined(DOUBLE_COMPLEX))
-    double real_part, imaginary_part;
+    int N = A->N;
+#if defined(SINGLE_COMPLEX) || defined(DOUBLE_COMPLEX)
+    const int complex_values = 1;
+#else
+    const int complex_values = 0;
 #endif
-    REAL_T value;
+    int symmetric;
+    int irow, icol;
+    double real_part, imaginary_part;
 
-    int N = A->N;
-    int M = A->M;
-    REAL_T *A_value = (REAL_T *) A->value;
-    int *A_index = A->index;
-    int *A_nnz = A->nnz;
+    TYPED_FUNC(bml_clear_ellpack) (A);
 
-    hFile = fopen(filename, "r");
+    FILE *file = bml_open_matrix_file(filename, "r");
 
     // Read header
-    if (fscanf(hFile, "%s %s %s %s %s", header1, header2, header3, header4,
-               header5) != 5)
-    {
-        LOG_ERROR("read error on header\n");
-    }
-
-    LOG_DEBUG("Read: %s %s %s %s %s\n", header1, header2, header3, header4,
-              header5);
-
-    int symflag = strcmp(header5, "symmetric");
-
-    // Read N, N, # of non-zeroes
-    if (fscanf(hFile, "%d %d %d", &hdimx, &hdimx, &nnz) != 3)
-    {
-        LOG_ERROR("read error\n");
-    }
-
-    LOG_DEBUG("hdimx = %d, nnz = %d\n", hdimx, nnz);
+    int nnz = bml_read_matrix_file_header(file, N, complex_values, &symmetric);
 
     // Read in values
     for (int i = 0; i < nnz; i++)
     {
-#if defined(SINGLE_REAL)
-        if (fscanf(hFile, "%d %d %f\n", &irow, &icol, &value) != 3)
-        {
-            LOG_ERROR("read error\n");
-        }
-#elif defined(DOUBLE_REAL)
-        if (fscanf(hFile, "%d %d %lf\n", &irow, &icol, &value) != 3)
-        {
-            LOG_ERROR("read error\n");
-        }
-#elif defined(SINGLE_COMPLEX)
-        if (fscanf
-            (hFile, "%d %d %lf %lf\n", &irow, &icol, &real_part,
-             &imaginary_part) != 4)
-        {
-            LOG_ERROR("read error\n");
-        }
-        value = real_part + I * imaginary_part;
-        LOG_DEBUG("read: %d %d %e %e %e\n", irow, icol, real_part,
-                  imaginary_part, value);
-#elif defined(DOUBLE_COMPLEX)
-        if (fscanf
-            (hFile, "%d %d %lf %lf\n", &irow, &icol, &real_part,
-             &imaginary_part) != 4)
-        {
-            LOG_ERROR("read error\n");
-        }
-        value = real_part + I * imaginary_part;
+        bml_read_matrix_file_entry(file, N, complex_values, &irow, &icol,
+                                   &real_part, &imaginary_part);
+#if defined(SINGLE_COMPLEX) || defined(DOUBLE_COMPLEX)
+        REAL_T value = real_part + I * imaginary_part;
 #else
-        LOG_ERROR("unknown precision\n");
+        REAL_T value = real_part;
 #endif
-
-        irow--;
-        icol--;
-        ind = A_nnz[irow];
-        A_index[ROWMAJOR(irow, ind, N, M)] = icol;
-        A_value[ROWMAJOR(irow, ind, N, M)] = value;
-        A_nnz[irow]++;
-
+        TYPED_FUNC(set_read_element_ellpack) (A, irow, icol, value);
         // Set symmetric value if necessary
-        if (symflag == 0 && icol != irow)
+        if (symmetric && icol != irow)
         {
-            ind = A_nnz[icol];
-            A_index[ROWMAJOR(icol, ind, N, M)] = irow;
-            A_value[ROWMAJOR(icol, ind, N, M)] = value;
-            A_nnz[icol]++;
+            TYPED_FUNC(set_read_element_ellpack) (A, icol, irow, value);
         }
     }
 
+    bml_close_read_matrix_file(file);
+
 #if defined(USE_OMP_OFFLOAD)
+    int M = A->M;
+    REAL_T *A_value = (REAL_T *) A->value;
+    int *A_index = A->index;
+    int *A_nnz = A->nnz;
 #pragma omp target update to(A_nnz[:N], A_index[:N*M], A_value[:N*M])
 #endif
-    fclose(hFile);
 }
 
 /** Write a Matrix Market format file from a bml matrix.
@@ -148,7 +136,7 @@ void TYPED_FUNC(
     if (bml_printRank() != 1)
         return;
 
-    mFile = fopen(filename, "w");
+    mFile = bml_open_matrix_file(filename, "w");
 
     // Write header
 #if defined(SINGLE_REAL) || defined(DOUBLE_REAL)
@@ -195,5 +183,5 @@ void TYPED_FUNC(
         }
     }
 
-    fclose(mFile);
+    bml_close_written_matrix_file(mFile);
 }
-- 
2.43.0


From 918089bdb921ab7812f4b3884cd59b1f0ad55cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:47 +0000
Subject: [PATCH 36/48] fix: pass the matrix by value to bml_clear in the
 Fortran interface

---
 src/Fortran-interface/bml_c_interface_m.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Fortran-interface/bml_c_interface_m.F90 b/src/Fortran-interface/bml_c_interface_m.F90
index 3be9493..81ab84a 100644
--- a/src/Fortran-interface/bml_c_interface_m.F90
+++ b/src/Fortran-interface/bml_c_interface_m.F90
@@ -214,7 +214,7 @@ module bml_c_interface_m
 
     subroutine bml_clear_C(a) bind(C, name="bml_clear")
       import :: C_PTR
-      type(C_PTR) :: a
+      type(C_PTR), value :: a
     end subroutine bml_clear_C
 
     subroutine bml_free_C(cptr) bind(C, name="bml_free_ptr")
-- 
2.43.0


From 51f19ce438dc96cc75f2270d18436d7b32688b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:47 +0000
Subject: [PATCH 37/48] fix: recognise all matrix types, precisions and
 distribution modes in the Fortran introspection

---
 src/Fortran-interface/bml_introspection_m.F90 | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/Fortran-interface/bml_introspection_m.F90 b/src/Fortran-interface/bml_introspection_m.F90
index bbd87d5..c46d820 100644
--- a/src/Fortran-interface/bml_introspection_m.F90
+++ b/src/Fortran-interface/bml_introspection_m.F90
@@ -96,8 +96,10 @@ contains
       bml_get_type = "ellpack"
     case(3)
       bml_get_type = "ellblock"
-    case(5)
+    case(4)
       bml_get_type = "csr"
+    case(5)
+      bml_get_type = "distributed2d"
     case default
       stop 'Unknown matrix type in bml_get_type'
     end select
@@ -125,8 +127,10 @@ contains
       bml_get_deep_type = "ellpack"
     case(3)
       bml_get_deep_type = "ellblock"
-    case(5)
+    case(4)
       bml_get_deep_type = "csr"
+    case(5)
+      bml_get_deep_type = "distributed2d"
     case default
       stop 'Unknown matrix type in bml_get_deep_type'
     end select
@@ -170,6 +174,10 @@ contains
       bml_get_element_precision = kind(1.0)
     case(2)
       bml_get_element_precision = kind(1.0d0)
+    case(3)
+      bml_get_element_precision = kind(1.0)
+    case(4)
+      bml_get_element_precision = kind(1.0d0)
     case default
       stop 'Unknown elements type/precision'
     end select
@@ -223,7 +231,7 @@ contains
       bml_get_distribution_mode = "sequential"
     case(1)
       bml_get_distribution_mode = "distributed"
-    case(3)
+    case(2)
       bml_get_distribution_mode = "graph_distributed"
     case default
       stop 'Unknown distribution type in bml_get_distribution_mode'
-- 
2.43.0


From 79092b9e9a6ead45559614cf9e1f388a299dc506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:47 +0000
Subject: [PATCH 38/48] fix: return the traces of distributed matrices from the
 Fortran bml_multiply_x2

---
 src/Fortran-interface/bml_multiply_m.F90 | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/Fortran-interface/bml_multiply_m.F90 b/src/Fortran-interface/bml_multiply_m.F90
index af89807..d2a0074 100644
--- a/src/Fortran-interface/bml_multiply_m.F90
+++ b/src/Fortran-interface/bml_multiply_m.F90
@@ -118,9 +118,14 @@ contains
     end if
 
     trace_ptr = bml_multiply_x2_c(a%ptr, b%ptr, threshold_)
-    call c_f_pointer(trace_ptr, a_trace_ptr, [2])
-    trace = a_trace_ptr
-    call bml_free(trace_ptr)
+    if (c_associated(trace_ptr)) then
+      call c_f_pointer(trace_ptr, a_trace_ptr, [2])
+      trace = a_trace_ptr
+      call bml_free(trace_ptr)
+    else
+      ! Distributed matrices do not return the traces
+      trace = [bml_trace_C(a%ptr), bml_trace_C(b%ptr)]
+    end if
 
   end subroutine bml_multiply_x2
 
-- 
2.43.0


From 58d6d62a847d5d5458619cb458b0909d0732fcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:47 +0000
Subject: [PATCH 39/48] fix: accept array sections in the Fortran
 bml_import_from_dense and bml_print_matrix

---
 src/Fortran-interface/bml_import_m.F90          | 8 ++++----
 src/Fortran-interface/bml_utilities_typed_m.F90 | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/Fortran-interface/bml_import_m.F90 b/src/Fortran-interface/bml_import_m.F90
index 9c80ca9..2ee14e0 100644
--- a/src/Fortran-interface/bml_import_m.F90
+++ b/src/Fortran-interface/bml_import_m.F90
@@ -32,7 +32,7 @@ contains
        & m, distrib_mode)
 
     character(len=*), intent(in) :: matrix_type
-    real(C_FLOAT), target, intent(in) :: a_dense(:, :)
+    real(C_FLOAT), target, contiguous, intent(in) :: a_dense(:, :)
     type(bml_matrix_t), intent(inout) :: a
     real(C_DOUBLE), optional, intent(in) :: threshold
     integer, optional, intent(in) :: m
@@ -93,7 +93,7 @@ contains
        & m, distrib_mode)
 
     character(len=*), intent(in) :: matrix_type
-    real(C_DOUBLE), target, intent(in) :: a_dense(:, :)
+    real(C_DOUBLE), target, contiguous, intent(in) :: a_dense(:, :)
     type(bml_matrix_t), intent(inout) :: a
     real(C_DOUBLE), optional, intent(in) :: threshold
     integer, optional, intent(in) :: m
@@ -153,7 +153,7 @@ contains
   subroutine bml_import_from_dense_single_complex(matrix_type, a_dense, a, threshold, m, distrib_mode)
 
     character(len=*), intent(in) :: matrix_type
-    complex(C_FLOAT_COMPLEX), target, intent(in) :: a_dense(:, :)
+    complex(C_FLOAT_COMPLEX), target, contiguous, intent(in) :: a_dense(:, :)
     type(bml_matrix_t), intent(inout) :: a
     real(C_DOUBLE), optional, intent(in) :: threshold
     integer, optional, intent(in) :: m
@@ -213,7 +213,7 @@ contains
   subroutine bml_import_from_dense_double_complex(matrix_type, a_dense, a, threshold, m, distrib_mode)
 
     character(len=*), intent(in) :: matrix_type
-    complex(C_DOUBLE_COMPLEX), target, intent(in) :: a_dense(:, :)
+    complex(C_DOUBLE_COMPLEX), target, contiguous, intent(in) :: a_dense(:, :)
     type(bml_matrix_t), intent(inout) :: a
     real(C_DOUBLE), optional, intent(in) :: threshold
     integer, optional, intent(in) :: m
diff --git a/src/Fortran-interface/bml_utilities_typed_m.F90 b/src/Fortran-interface/bml_utilities_typed_m.F90
index d62ac3b..0d4d99d 100644
--- a/src/Fortran-interface/bml_utilities_typed_m.F90
+++ b/src/Fortran-interface/bml_utilities_typed_m.F90
@@ -29,7 +29,7 @@ contains
   subroutine bml_print_dense_matrix_MATRIX_TYPE(tag, a, i_l, i_u, j_l, j_u)
 
     character(len=*), intent(in) :: tag
-    REAL_TYPE, target, intent(in) :: a(:, :)
+    REAL_TYPE, target, contiguous, intent(in) :: a(:, :)
     integer(C_INT), intent(in) :: i_l
     integer(C_INT), intent(in) :: i_u
     integer(C_INT), intent(in) :: j_l
-- 
2.43.0


From 0b5a09822821d397692345582fd94515c47ca329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:47 +0000
Subject: [PATCH 40/48] fix: pass the triangle character correctly from the
 Fortran bml_transpose_triangle

---
 src/Fortran-interface/bml_transpose_triangle_m.F90 | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Fortran-interface/bml_transpose_triangle_m.F90 b/src/Fortran-interface/bml_transpose_triangle_m.F90
index e4a2f6b..4ae3b8c 100644
--- a/src/Fortran-interface/bml_transpose_triangle_m.F90
+++ b/src/Fortran-interface/bml_transpose_triangle_m.F90
@@ -20,7 +20,12 @@ contains
     type(bml_matrix_t), intent(inout) :: a
     character(C_CHAR), intent(in) :: triangle
 
-    call bml_transpose_triangle_C(a%ptr, triangle)
+    ! The GNU Fortran compiler passes the address when a character dummy
+    ! argument is handed on by value; a local variable is passed correctly.
+    character(C_CHAR) :: triangle_
+
+    triangle_ = triangle
+    call bml_transpose_triangle_C(a%ptr, triangle_)
 
   end subroutine bml_transpose_triangle
 
-- 
2.43.0


From ee1e0b954995620de9e9f35f1a121f1ce2720ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:47 +0000
Subject: [PATCH 41/48] fix: stop on unknown element types and kinds in the
 Fortran interface

---
 src/Fortran-interface/bml_interface_m.F90 | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Fortran-interface/bml_interface_m.F90 b/src/Fortran-interface/bml_interface_m.F90
index b0fb9e0..28abf52 100644
--- a/src/Fortran-interface/bml_interface_m.F90
+++ b/src/Fortran-interface/bml_interface_m.F90
@@ -137,6 +137,7 @@ contains
         id = bml_matrix_precision_double_real_enum_id
       case default
         print "(A,1X,I0)", "Unknown element kind:", element_kind
+        error stop
       end select
 
     case (BML_ELEMENT_COMPLEX)
@@ -147,10 +148,12 @@ contains
         id = bml_matrix_precision_double_complex_enum_id
       case default
         print "(A,1X,I0)", "Unknown element kind:", element_kind
+        error stop
       end select
 
     case default
       print "(A,1X,A)", "Unknown element type:", element_type
+      error stop
 
     end select
 
-- 
2.43.0


From 5104439f7bb7c30452f9aee7aca93d2f87f1c2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:47 +0000
Subject: [PATCH 42/48] fix: return the array on every rank that has it from
 the Fortran bml_export_to_dense

---
 src/Fortran-interface/bml_export_m.F90 | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/Fortran-interface/bml_export_m.F90 b/src/Fortran-interface/bml_export_m.F90
index 7d5caf5..b94ab88 100644
--- a/src/Fortran-interface/bml_export_m.F90
+++ b/src/Fortran-interface/bml_export_m.F90
@@ -4,7 +4,6 @@ module bml_export_m
   use bml_types_m
   use bml_interface_m
   use bml_introspection_m
-  use bml_parallel_m
 
   implicit none
   private
@@ -37,7 +36,7 @@ contains
     real(C_FLOAT), pointer :: a_dense_ptr(:, :)
 
     a_ptr = bml_export_to_dense_C(a%ptr, BML_DENSE_COLUMN_MAJOR)
-    if(bml_getMyRank().eq.0)then
+    if (c_associated(a_ptr)) then
       call c_f_pointer(a_ptr, a_dense_ptr, [bml_get_n(a), bml_get_n(a)])
       a_dense = a_dense_ptr
       call bml_free(a_ptr)
@@ -62,7 +61,7 @@ contains
     real(C_DOUBLE), pointer :: a_dense_ptr(:, :)
 
     a_ptr = bml_export_to_dense_C(a%ptr, BML_DENSE_COLUMN_MAJOR)
-    if(bml_getMyRank().eq.0)then
+    if (c_associated(a_ptr)) then
       call c_f_pointer(a_ptr, a_dense_ptr, [bml_get_n(a), bml_get_n(a)])
       a_dense = a_dense_ptr
       call bml_free(a_ptr)
@@ -87,7 +86,7 @@ contains
     complex(C_FLOAT_COMPLEX), pointer :: a_dense_ptr(:, :)
 
     a_ptr = bml_export_to_dense_C(a%ptr, BML_DENSE_COLUMN_MAJOR)
-    if(bml_getMyRank().eq.0)then
+    if (c_associated(a_ptr)) then
       call c_f_pointer(a_ptr, a_dense_ptr, [bml_get_n(a), bml_get_n(a)])
       a_dense = a_dense_ptr
       call bml_free(a_ptr)
@@ -112,7 +111,7 @@ contains
     complex(C_DOUBLE_COMPLEX), pointer :: a_dense_ptr(:, :)
 
     a_ptr = bml_export_to_dense_C(a%ptr, BML_DENSE_COLUMN_MAJOR)
-    if(bml_getMyRank().eq.0)then
+    if (c_associated(a_ptr)) then
       call c_f_pointer(a_ptr, a_dense_ptr, [bml_get_n(a), bml_get_n(a)])
       a_dense = a_dense_ptr
       call bml_free(a_ptr)
-- 
2.43.0


From 5ab07542862cadb841576bad515b9e0f3753f96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:20 +0000
Subject: [PATCH 43/48] fix: report a missing operand of a dense product like
 the other formats do

---
 src/C-interface/dense/bml_multiply_dense_typed.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/C-interface/dense/bml_multiply_dense_typed.c b/src/C-interface/dense/bml_multiply_dense_typed.c
index ac28490..b53ee36 100644
--- a/src/C-interface/dense/bml_multiply_dense_typed.c
+++ b/src/C-interface/dense/bml_multiply_dense_typed.c
@@ -61,6 +61,11 @@ void TYPED_FUNC(
     double alpha,
     double beta)
 {
+    if (A == NULL || B == NULL)
+    {
+        LOG_ERROR("Either matrix A or B are NULL\n");
+    }
+
 #ifdef BML_USE_MAGMA
     MAGMA_T alpha_ = MAGMACOMPLEX(MAKE) (alpha, 0.);
     MAGMA_T beta_ = MAGMACOMPLEX(MAKE) (beta, 0.);
-- 
2.43.0


From 23c6e34c340dad05e51037993282a299b22d5d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:57 +0000
Subject: [PATCH 44/48] fix: csr save/restore domain reports that it is not
 implemented

---
 src/C-interface/csr/bml_copy_csr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/C-interface/csr/bml_copy_csr.c b/src/C-interface/csr/bml_copy_csr.c
index 478ac65..dec3420 100644
--- a/src/C-interface/csr/bml_copy_csr.c
+++ b/src/C-interface/csr/bml_copy_csr.c
@@ -125,7 +125,7 @@ void
 bml_save_domain_csr(
     bml_matrix_csr_t * A)
 {
-    bml_copy_domain(A->domain, A->domain2);
+    LOG_ERROR("bml_save_domain_csr not implemented\n");
 }
 
 /** Restore the domain for a csr matrix.
@@ -138,5 +138,5 @@ void
 bml_restore_domain_csr(
     bml_matrix_csr_t * A)
 {
-    bml_copy_domain(A->domain2, A->domain);
+    LOG_ERROR("bml_restore_domain_csr not implemented\n");
 }
-- 
2.43.0


From e475c4b07c65ea747b2394c91ad09dc3b4fbc6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:23 +0000
Subject: [PATCH 45/48] fix: keep the blocks of ellblock matrices inside the
 memory pool of their block row

---
 .../ellblock/bml_allocate_ellblock_typed.c     | 18 ++++++++++--------
 .../ellblock/bml_copy_ellblock_typed.c         |  8 ++++++++
 .../ellblock/bml_transpose_ellblock_typed.c    |  9 +++++++++
 3 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/C-interface/ellblock/bml_allocate_ellblock_typed.c b/src/C-interface/ellblock/bml_allocate_ellblock_typed.c
index af3eb9b..9467553 100644
--- a/src/C-interface/ellblock/bml_allocate_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_allocate_ellblock_typed.c
@@ -59,16 +59,10 @@ void TYPED_FUNC(
         {
             shift = A->bsize[ib] * A->bsize[jb];
             //printf("Remove block %d %d %d\n", ib, jb, shift);
-            // simply set pointer to NULL if last allocated block in row
-            if (jp == A->nnzb[ib] - 1)
-            {
-                A->ptr_value[ind] = NULL;
-                break;
-            }
             // save pointers to beginning and end of memory
             // to be freed
             dst = A->ptr_value[ind];
-            src = A->ptr_value[ind + 1];
+            src = dst + shift;
 
             // shift pointers for subsequent blocks
             for (int jpp = jp + 1; jpp < A->nnzb[ib]; jpp++)
@@ -82,13 +76,18 @@ void TYPED_FUNC(
                 A->indexb[ind - 1] = A->indexb[ind];
                 A->ptr_value[ind - 1] = (REAL_T *) A->ptr_value[ind] - shift;
             }
-            A->ptr_value[A->nnzb[ib] - 1] = NULL;
+            int last = ROWMAJOR(ib, A->nnzb[ib] - 1, A->NB, A->MB);
+            A->ptr_value[last] = NULL;
+            A->indexb[last] = -1;
             break;
         }
     }
     // make sure we found block to deallocate
     assert(shift > 0);
 
+    // the next block is allocated behind the remaining ones
+    A->memory_pool_ptr[ib] = ((REAL_T **) A->memory_pool_ptr)[ib] - shift;
+
     // move data in memory to reflect shift in pointers
     if (nelements > 0)
         memmove(dst, src, nelements * sizeof(REAL_T));
@@ -245,6 +244,9 @@ bml_matrix_ellblock_t *TYPED_FUNC(
     int ncols_storage = M;
     if (ncols_storage < 3 * maxbsize)
         ncols_storage = 3 * maxbsize;
+    // and for as many blocks as a row may hold
+    if (ncols_storage < MIN(N, MB * maxbsize))
+        ncols_storage = MIN(N, MB * maxbsize);
 #ifdef BML_ELLBLOCK_USE_MEMPOOL
     A->memory_pool =
         (REAL_T *) bml_allocate_memory(sizeof(REAL_T) * N * ncols_storage);
diff --git a/src/C-interface/ellblock/bml_copy_ellblock_typed.c b/src/C-interface/ellblock/bml_copy_ellblock_typed.c
index a3ee370..6cf8399 100644
--- a/src/C-interface/ellblock/bml_copy_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_copy_ellblock_typed.c
@@ -84,6 +84,14 @@ void TYPED_FUNC(
 
     int NB = A->NB;
 
+#ifdef BML_ELLBLOCK_USE_MEMPOOL
+    // the memory pool of B is laid out for its block sizes
+    if (memcmp(A->bsize, B->bsize, NB * sizeof(int)) != 0)
+    {
+        LOG_ERROR("block sizes of matrices do not match\n");
+    }
+#endif
+
     REAL_T **A_ptr_value = (REAL_T **) A->ptr_value;
     REAL_T **B_ptr_value = (REAL_T **) B->ptr_value;
 
diff --git a/src/C-interface/ellblock/bml_transpose_ellblock_typed.c b/src/C-interface/ellblock/bml_transpose_ellblock_typed.c
index de687bb..fab20ce 100644
--- a/src/C-interface/ellblock/bml_transpose_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_transpose_ellblock_typed.c
@@ -6,6 +6,7 @@
 #include "../bml_transpose.h"
 #include "../bml_types.h"
 #include "bml_allocate_ellblock.h"
+#include "bml_copy_ellblock.h"
 #include "bml_transpose_ellblock.h"
 #include "bml_types_ellblock.h"
 
@@ -89,6 +90,13 @@ void TYPED_FUNC(
     bml_transpose_ellblock) (
     bml_matrix_ellblock_t * A)
 {
+#ifdef BML_ELLBLOCK_USE_MEMPOOL
+    // a block lives in the memory pool of its block row and cannot be
+    // moved to another one
+    bml_matrix_ellblock_t *B = TYPED_FUNC(bml_transpose_new_ellblock) (A);
+    TYPED_FUNC(bml_copy_ellblock) (B, A);
+    bml_deallocate_ellblock(B);
+#else
     int NB = A->NB;
     int MB = A->MB;
 
@@ -151,4 +159,5 @@ void TYPED_FUNC(
     bml_free_memory(ptr_value);
     bml_free_memory(indexb);
     bml_free_memory(nnzb);
+#endif
 }
-- 
2.43.0


From 0836454747452d31daf06baeead5c69af40ab1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:27 +0000
Subject: [PATCH 46/48] fix: do not leak the offload buffers of
 bml_add_identity_ellpack in builds without offload

---
 src/C-interface/ellpack/bml_add_ellpack_typed.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C-interface/ellpack/bml_add_ellpack_typed.c b/src/C-interface/ellpack/bml_add_ellpack_typed.c
index 1ddc74b..f03f593 100644
--- a/src/C-interface/ellpack/bml_add_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_add_ellpack_typed.c
@@ -455,7 +455,7 @@ void TYPED_FUNC(
     memset(x, 0.0, (A_M + 1) * sizeof(REAL_T));
 #endif
 
-#if BML_OFFLOAD_CHUNKS
+#if defined(USE_OMP_OFFLOAD) && BML_OFFLOAD_CHUNKS
     int num_chunks = MIN(BML_OFFLOAD_NUM_CHUNKS, N);
 
     int *all_jx;
-- 
2.43.0


From 2a5055003cfcc169be31fcbf4e37fad65bb15e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:32 +0000
Subject: [PATCH 47/48] fix: set the block pointers of each row in ellblock add
 and multiply when they are declared per row (IBM compilers)

---
 src/C-interface/ellblock/bml_add_ellblock_typed.c      | 1 +
 src/C-interface/ellblock/bml_multiply_ellblock_typed.c | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/C-interface/ellblock/bml_add_ellblock_typed.c b/src/C-interface/ellblock/bml_add_ellblock_typed.c
index 859eaa8..9bcc550 100644
--- a/src/C-interface/ellblock/bml_add_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_add_ellblock_typed.c
@@ -103,6 +103,7 @@ void TYPED_FUNC(
         REAL_T *x_ptr[NB];
 
         memset(ix, 0, NB * sizeof(int));
+        xptrset = 0;
 #endif
 
         if (!xptrset)
diff --git a/src/C-interface/ellblock/bml_multiply_ellblock_typed.c b/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
index f6dd494..2930d8d 100644
--- a/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
@@ -352,6 +352,7 @@ void *TYPED_FUNC(
         REAL_T *x_ptr[NB];
 
         memset(ix, 0, NB * sizeof(int));
+        xptrset = 0;
 #endif
 
         int lb = 0;
@@ -567,6 +568,7 @@ void TYPED_FUNC(
         REAL_T *x_ptr[NB];
 
         memset(ix, 0, NB * sizeof(int));
+        xptrset = 0;
 #endif
 
         int lb = 0;
-- 
2.43.0


From 14543ee856833cc7ae6685a7609fa981b6316cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:19 +0000
Subject: [PATCH 48/48] fix: fill banded matrices in an order that does not
 depend on the threads

---
 src/C-interface/csr/bml_allocate_csr_typed.c         | 4 +++-
 src/C-interface/dense/bml_allocate_dense_typed.c     | 4 +++-
 src/C-interface/ellpack/bml_allocate_ellpack_typed.c | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/C-interface/csr/bml_allocate_csr_typed.c b/src/C-interface/csr/bml_allocate_csr_typed.c
index de16032..ed5e7c2 100644
--- a/src/C-interface/csr/bml_allocate_csr_typed.c
+++ b/src/C-interface/csr/bml_allocate_csr_typed.c
@@ -229,6 +229,9 @@ bml_matrix_csr_t *TYPED_FUNC(
  * \param M The bandwidth (the number of non-zero elements per row).
  *  \param distrib_mode The distribution mode.
  *  \return The matrix.
+ *
+ *  Note: Do not use OpenMP when setting values for a random matrix,
+ *  this makes the operation non-repeatable.
  */
 bml_matrix_csr_t *TYPED_FUNC(
     bml_banded_matrix_csr) (
@@ -239,7 +242,6 @@ bml_matrix_csr_t *TYPED_FUNC(
     bml_matrix_csr_t *A =
         TYPED_FUNC(bml_zero_matrix_csr) (N, M, distrib_mode);
 
-#pragma omp parallel for
     for (int i = 0; i < N; i++)
     {
         int jind = 0;
diff --git a/src/C-interface/dense/bml_allocate_dense_typed.c b/src/C-interface/dense/bml_allocate_dense_typed.c
index 5f0f6f1..bb70b07 100644
--- a/src/C-interface/dense/bml_allocate_dense_typed.c
+++ b/src/C-interface/dense/bml_allocate_dense_typed.c
@@ -202,6 +202,9 @@ bml_matrix_dense_t *TYPED_FUNC(
  * \param M The bandwidth (the number of non-zero elements per row).
  * \param distrib_mode The distribution mode.
  * \return The matrix.
+ *
+ *  Note: Do not use OpenMP when setting values for a random matrix,
+ *  this makes the operation non-repeatable.
  */
 bml_matrix_dense_t *TYPED_FUNC(
     bml_banded_matrix_dense) (
@@ -218,7 +221,6 @@ bml_matrix_dense_t *TYPED_FUNC(
     REAL_T *A_dense = A->matrix;
 #endif
 
-#pragma omp parallel for shared(A_dense)
     for (int i = 0; i < N; i++)
     {
         for (int j = (i - M / 2 >= 0 ? i - M / 2 : 0);
diff --git a/src/C-interface/ellpack/bml_allocate_ellpack_typed.c b/src/C-interface/ellpack/bml_allocate_ellpack_typed.c
index dc380e2..e37a1a0 100644
--- a/src/C-interface/ellpack/bml_allocate_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_allocate_ellpack_typed.c
@@ -279,6 +279,9 @@ bml_matrix_ellpack_t *TYPED_FUNC(
  *  \param M The number of non-zeroes per row.
  *  \param distrib_mode The distribution mode.
  *  \return The matrix.
+ *
+ *  Note: Do not use OpenMP when setting values for a random matrix,
+ *  this makes the operation non-repeatable.
  */
 bml_matrix_ellpack_t *TYPED_FUNC(
     bml_banded_matrix_ellpack) (
@@ -294,7 +297,6 @@ bml_matrix_ellpack_t *TYPED_FUNC(
     int *A_nnz = A->nnz;
     const REAL_T INV_RAND_MAX = 1.0 / (REAL_T) RAND_MAX;
 
-#pragma omp parallel for shared(A_value, A_index, A_nnz)
     for (int i = 0; i < N; i++)
     {
         int jind = 0;
-- 
2.43.0

