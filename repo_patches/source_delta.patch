From 642271b2813045defcd9b57d8feea9278ab357b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:20 +0000
Subject: [PATCH 001/109] fix: bml_clear for ellblock resets the pointers of
 the blocks it frees

---
 src/C-interface/ellblock/bml_allocate_ellblock_typed.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/C-interface/ellblock/bml_allocate_ellblock_typed.c b/src/C-interface/ellblock/bml_allocate_ellblock_typed.c
index 43fc371..9398864 100644
--- a/src/C-interface/ellblock/bml_allocate_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_allocate_ellblock_typed.c
@@ -140,6 +140,8 @@ void TYPED_FUNC(
             bml_free_memory(A->ptr_value[ind]);
         }
 #endif
+    for (int i = 0; i < A->NB * A->MB; i++)
+        A->ptr_value[i] = NULL;
     memset(A->nnzb, 0, A->NB * sizeof(int));
 }
 
-- 
2.43.0


From 86164ee1574ecc23e71678405dea1ed92cb2e40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:53 +0000
Subject: [PATCH 002/109] fix: bml_add for ellblock replaces the blocks of a
 row instead of reusing stale ones

Slots of the row being rewritten were reused whatever the size of the block
they held, blocks that were dropped by the threshold leaked, and the number
of blocks per row was not checked.
---
 .../ellblock/bml_add_ellblock_typed.c         | 16 ++++++-----
 .../ellblock/bml_allocate_ellblock.h          | 16 +++++++++++
 .../ellblock/bml_allocate_ellblock_typed.c    | 27 +++++++++++++++++++
 3 files changed, 52 insertions(+), 7 deletions(-)

diff --git a/src/C-interface/ellblock/bml_add_ellblock_typed.c b/src/C-interface/ellblock/bml_add_ellblock_typed.c
index 64f0a2b..07f2de2 100644
--- a/src/C-interface/ellblock/bml_add_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_add_ellblock_typed.c
@@ -2,6 +2,7 @@
 #include "../../typed.h"
 #include "../bml_add.h"
 #include "../bml_allocate.h"
+#include "../bml_logger.h"
 #include "../bml_parallel.h"
 #include "../bml_types.h"
 #include "bml_add_ellblock.h"
@@ -160,7 +161,7 @@ void TYPED_FUNC(
                     x[kk] = x[kk] + beta * B_value[kk];
                 }
             }
-        A_nnzb[ib] = l;
+        TYPED_FUNC(bml_clear_block_row_ellblock) (A, ib);
 
         int ll = 0;
         for (int jp = 0; jp < l; jp++)
@@ -172,14 +173,15 @@ void TYPED_FUNC(
             int nelements = bsize[ib] * bsize[jb];
             if (is_above_threshold(normx, threshold))
             {
-                int kb = ROWMAJOR(ib, ll, NB, MB);
-                if (A_ptr_value[kb] == NULL)
+                if (ll == MB)
                 {
-                    A_ptr_value[kb]
-                        =
-                        TYPED_FUNC(bml_allocate_block_ellblock) (A, ib,
-                                                                 nelements);
+                    LOG_ERROR
+                        ("Number of non-zeroes per row > MB, Increase MB\n");
                 }
+                int kb = ROWMAJOR(ib, ll, NB, MB);
+                A_ptr_value[kb] =
+                    TYPED_FUNC(bml_allocate_block_ellblock) (A, ib,
+                                                             nelements);
                 for (int kk = 0; kk < nelements; kk++)
                 {
                     A_ptr_value[kb][kk] = x[kk];
diff --git a/src/C-interface/ellblock/bml_allocate_ellblock.h b/src/C-interface/ellblock/bml_allocate_ellblock.h
index 955175d..48403b3 100644
--- a/src/C-interface/ellblock/bml_allocate_ellblock.h
+++ b/src/C-interface/ellblock/bml_allocate_ellblock.h
@@ -21,6 +21,22 @@ void bml_clear_ellblock_single_complex(
 void bml_clear_ellblock_double_complex(
     bml_matrix_ellblock_t * A);
 
+void bml_clear_block_row_ellblock_single_real(
+    bml_matrix_ellblock_t * A,
+    const int ib);
+
+void bml_clear_block_row_ellblock_double_real(
+    bml_matrix_ellblock_t * A,
+    const int ib);
+
+void bml_clear_block_row_ellblock_single_complex(
+    bml_matrix_ellblock_t * A,
+    const int ib);
+
+void bml_clear_block_row_ellblock_double_complex(
+    bml_matrix_ellblock_t * A,
+    const int ib);
+
 bml_matrix_ellblock_t *bml_noinit_matrix_ellblock(
     bml_matrix_precision_t matrix_precision,
     bml_matrix_dimension_t matrix_dimension,
diff --git a/src/C-interface/ellblock/bml_allocate_ellblock_typed.c b/src/C-interface/ellblock/bml_allocate_ellblock_typed.c
index 9398864..1fb2ccd 100644
--- a/src/C-interface/ellblock/bml_allocate_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_allocate_ellblock_typed.c
@@ -116,6 +116,33 @@ void TYPED_FUNC(
     A->nnzb[ib]--;
 }
 
+/** Remove all the blocks of a block row.
+ *
+ * \ingroup allocate_group
+ *
+ * \param A The matrix.
+ * \param ib The block row.
+ */
+void TYPED_FUNC(
+    bml_clear_block_row_ellblock) (
+    bml_matrix_ellblock_t * A,
+    const int ib)
+{
+    for (int jp = 0; jp < A->nnzb[ib]; jp++)
+    {
+        int ind = ROWMAJOR(ib, jp, A->NB, A->MB);
+#ifndef BML_ELLBLOCK_USE_MEMPOOL
+        bml_free_memory(A->ptr_value[ind]);
+#endif
+        A->ptr_value[ind] = NULL;
+    }
+#ifdef BML_ELLBLOCK_USE_MEMPOOL
+    A->memory_pool_ptr[ib] =
+        (REAL_T *) A->memory_pool + A->memory_pool_offsets[ib];
+#endif
+    A->nnzb[ib] = 0;
+}
+
 /** Clear a matrix.
  *
  * Numbers of non-zeroes/row are set to zero.
-- 
2.43.0


From eefe725cac6163e1276476f1bb00f79d11123829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:53 +0000
Subject: [PATCH 003/109] fix: bml_add_norm for ellblock allocates the result
 blocks and frees its scratch

It wrote through NULL or wrongly sized slots whenever B has a block that A
does not have, used a fixed scratch size of 25 elements per block and leaked
both scratch arrays.
---
 .../ellblock/bml_add_ellblock_typed.c         | 26 +++++++++++++++----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/C-interface/ellblock/bml_add_ellblock_typed.c b/src/C-interface/ellblock/bml_add_ellblock_typed.c
index 07f2de2..f1648e1 100644
--- a/src/C-interface/ellblock/bml_add_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_add_ellblock_typed.c
@@ -237,17 +237,21 @@ double TYPED_FUNC(
 
     memset(ix, 0, NB * sizeof(int));
     memset(jx, 0, NB * sizeof(int));
-    x[0] = (REAL_T *) calloc(BMAXSIZE * NB, sizeof(REAL_T));
+    int maxbsize = 0;
+    for (int ib = 0; ib < NB; ib++)
+        maxbsize = MAX(maxbsize, bsize[ib]);
+    int maxbsize2 = maxbsize * maxbsize;
+    x[0] = (REAL_T *) calloc(maxbsize2 * NB, sizeof(REAL_T));
     for (int i = 1; i < NB; i++)
     {
-        x[i] = x[0] + i * BMAXSIZE;
+        x[i] = x[0] + i * maxbsize2;
     }
 
     REAL_T *y[NB];
-    y[0] = (REAL_T *) calloc(BMAXSIZE * NB, sizeof(REAL_T));
+    y[0] = (REAL_T *) calloc(maxbsize2 * NB, sizeof(REAL_T));
     for (int i = 1; i < NB; i++)
     {
-        y[i] = y[0] + i * BMAXSIZE;
+        y[i] = y[0] + i * maxbsize2;
     }
 
 
@@ -308,7 +312,7 @@ double TYPED_FUNC(
                     y[jb][kk] = y[jb][kk] - B_value[kk];
                 }
         }
-        A_nnzb[ib] = l;
+        TYPED_FUNC(bml_clear_block_row_ellblock) (A, ib);
 
         int ll = 0;
         for (int jp = 0; jp < l; jp++)
@@ -322,7 +326,16 @@ double TYPED_FUNC(
             trnorm += normy * normy;
             if (is_above_threshold(normx, threshold))
             {
+                if (ll == MB)
+                {
+                    LOG_ERROR
+                        ("Number of non-zeroes per row > MB, Increase MB\n");
+                }
                 int kb = ROWMAJOR(ib, ll, NB, MB);
+                A_ptr_value[kb] =
+                    TYPED_FUNC(bml_allocate_block_ellblock) (A, ib,
+                                                             bsize[ib] *
+                                                             bsize[jb]);
                 for (int ii = 0; ii < bsize[ib]; ii++)
                     for (int jj = 0; jj < bsize[jb]; jj++)
                     {
@@ -340,6 +353,9 @@ double TYPED_FUNC(
         A_nnzb[ib] = ll;
     }
 
+    free(x[0]);
+    free(y[0]);
+
     return trnorm;
 }
 
-- 
2.43.0


From 5853c48466ac7c4fb1e5c06a697a10302c2deb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:05 +0000
Subject: [PATCH 004/109] fix: bml_scale_add_identity passes its scale factor
 in the matrix precision

The sparse formats passed the address of a double to the typed scale routine,
which reads a factor of the matrix element type.
---
 src/C-interface/csr/bml_add_csr_typed.c           | 4 +++-
 src/C-interface/ellblock/bml_add_ellblock_typed.c | 4 +++-
 src/C-interface/ellpack/bml_add_ellpack_typed.c   | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/C-interface/csr/bml_add_csr_typed.c b/src/C-interface/csr/bml_add_csr_typed.c
index aa9a6ab..3a4b6e7 100644
--- a/src/C-interface/csr/bml_add_csr_typed.c
+++ b/src/C-interface/csr/bml_add_csr_typed.c
@@ -189,8 +189,10 @@ void TYPED_FUNC(
     double beta,
     double threshold)
 {
+    REAL_T _alpha = (REAL_T) alpha;
+
     // scale then update diagonal
-    TYPED_FUNC(bml_scale_inplace_csr) (&alpha, A);
+    TYPED_FUNC(bml_scale_inplace_csr) (&_alpha, A);
 
     TYPED_FUNC(bml_add_identity_csr) (A, beta, threshold);
 }
diff --git a/src/C-interface/ellblock/bml_add_ellblock_typed.c b/src/C-interface/ellblock/bml_add_ellblock_typed.c
index f1648e1..739503a 100644
--- a/src/C-interface/ellblock/bml_add_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_add_ellblock_typed.c
@@ -405,8 +405,10 @@ void TYPED_FUNC(
     double beta,
     double threshold)
 {
+    REAL_T _alpha = (REAL_T) alpha;
+
     // scale then update diagonal
-    TYPED_FUNC(bml_scale_inplace_ellblock) (&alpha, A);
+    TYPED_FUNC(bml_scale_inplace_ellblock) (&_alpha, A);
 
     TYPED_FUNC(bml_add_identity_ellblock) (A, beta, threshold);
 }
diff --git a/src/C-interface/ellpack/bml_add_ellpack_typed.c b/src/C-interface/ellpack/bml_add_ellpack_typed.c
index 7bed4ed..c441524 100644
--- a/src/C-interface/ellpack/bml_add_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_add_ellpack_typed.c
@@ -566,8 +566,10 @@ void TYPED_FUNC(
     double beta,
     double threshold)
 {
+    REAL_T _alpha = (REAL_T) alpha;
+
     // scale then update diagonal
-    TYPED_FUNC(bml_scale_inplace_ellpack) (&alpha, A);
+    TYPED_FUNC(bml_scale_inplace_ellpack) (&_alpha, A);
 
     TYPED_FUNC(bml_add_identity_ellpack) (A, beta, threshold);
 }
-- 
2.43.0


From d7dcedd42ef2ad8b9740144841e31e4410628670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:48 +0000
Subject: [PATCH 005/109] fix: typed element getters return the element

The untyped interface declared the format specific getters with a value
return type, but they return a pointer to the element.
---
 src/C-interface/bml_elemental.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/C-interface/bml_elemental.c b/src/C-interface/bml_elemental.c
index a350e96..c361033 100644
--- a/src/C-interface/bml_elemental.c
+++ b/src/C-interface/bml_elemental.c
@@ -1,8 +1,8 @@
 #include "bml_elemental.h"
 #include "bml_introspection.h"
 #include "bml_logger.h"
-#include "dense/bml_elemental_dense.h"
-#include "ellpack/bml_elemental_ellpack.h"
+#include "dense/bml_getters_dense.h"
+#include "ellpack/bml_getters_ellpack.h"
 
 #ifdef BML_COMPLEX
 #include <complex.h>
@@ -24,10 +24,10 @@ bml_get_element_single_real(
     switch (bml_get_type(A))
     {
         case dense:
-            return bml_get_element_dense_single_real(A, i, j);
+            return *(float *) bml_get_element_dense_single_real(A, i, j);
             break;
         case ellpack:
-            return bml_get_element_ellpack_single_real(A, i, j);
+            return *(float *) bml_get_element_ellpack_single_real(A, i, j);
             break;
         default:
             LOG_ERROR("unknown matrix type\n");
@@ -52,10 +52,10 @@ bml_get_element_double_real(
     switch (bml_get_type(A))
     {
         case dense:
-            return bml_get_element_dense_double_real(A, i, j);
+            return *(double *) bml_get_element_dense_double_real(A, i, j);
             break;
         case ellpack:
-            return bml_get_element_ellpack_double_real(A, i, j);
+            return *(double *) bml_get_element_ellpack_double_real(A, i, j);
             break;
         default:
             LOG_ERROR("unknown matrix type\n");
@@ -81,10 +81,10 @@ bml_get_element_single_complex(
     switch (bml_get_type(A))
     {
         case dense:
-            return bml_get_element_dense_single_complex(A, i, j);
+            return *(float complex *) bml_get_element_dense_single_complex(A, i, j);
             break;
         case ellpack:
-            return bml_get_element_ellpack_single_complex(A, i, j);
+            return *(float complex *) bml_get_element_ellpack_single_complex(A, i, j);
             break;
         default:
             LOG_ERROR("unknown matrix type\n");
@@ -109,10 +109,10 @@ bml_get_element_double_complex(
     switch (bml_get_type(A))
     {
         case dense:
-            return bml_get_element_dense_double_complex(A, i, j);
+            return *(double complex *) bml_get_element_dense_double_complex(A, i, j);
             break;
         case ellpack:
-            return bml_get_element_ellpack_double_complex(A, i, j);
+            return *(double complex *) bml_get_element_ellpack_double_complex(A, i, j);
             break;
 
         default:
-- 
2.43.0


From 3a907c5a9ae3ed6a0c70975db89b93b3a50b04f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:21 +0000
Subject: [PATCH 006/109] fix: bml_set_element for ellpack looks for the
 element in short rows too

With two or fewer stored entries the row was never searched, so setting the
same element again stored it twice.
---
 .../ellpack/bml_setters_ellpack_typed.c       | 27 ++++++++-----------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/src/C-interface/ellpack/bml_setters_ellpack_typed.c b/src/C-interface/ellpack/bml_setters_ellpack_typed.c
index 7195fa4..206e989 100644
--- a/src/C-interface/ellpack/bml_setters_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_setters_ellpack_typed.c
@@ -1,6 +1,7 @@
 #include "../../macros.h"
 #include "../../typed.h"
 #include "../bml_introspection.h"
+#include "../bml_logger.h"
 #include "../bml_types.h"
 #include "bml_setters_ellpack.h"
 #include "bml_types_ellpack.h"
@@ -72,7 +73,6 @@ void TYPED_FUNC(
 {
     int A_N = A->N;
     int A_M = A->M;
-    int l;
     int ll;
 
     REAL_T *A_value = (REAL_T *) A->value;
@@ -83,26 +83,21 @@ void TYPED_FUNC(
 #pragma omp target update from(A_nnz[:A_N], A_index[:A_N*A_M], A_value[:A_N*A_M])
 #endif
     ll = 0;
-    if (A_nnz[i] > 2)
+    for (int l = 0; l < A_nnz[i]; l++)
     {
-        for (int l = 0; l < A_nnz[i]; l++)
+        if (A_index[ROWMAJOR(i, l, A_N, A_M)] == j)     //Something in the row at the same position
         {
-            if (A_index[ROWMAJOR(i, l, A_N, A_M)] == j) //Something in the row at the same position
-            {
-                A_value[ROWMAJOR(i, l, A_N, A_M)] = *((REAL_T *) element);
-                ll = 1;
-                break;
-            }
-        }
-        if (ll == 0)            //There is something in the row but in a different position
-        {
-            A_value[ROWMAJOR(i, A_nnz[i], A_N, A_M)] = *((REAL_T *) element);
-            A_index[ROWMAJOR(i, A_nnz[i], A_N, A_M)] = j;
-            A_nnz[i]++;
+            A_value[ROWMAJOR(i, l, A_N, A_M)] = *((REAL_T *) element);
+            ll = 1;
+            break;
         }
     }
-    else                        //There is nothing in the row
+    if (ll == 0)                //There is nothing in the row at this position
     {
+        if (A_nnz[i] == A_M)
+        {
+            LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+        }
         A_value[ROWMAJOR(i, A_nnz[i], A_N, A_M)] = *((REAL_T *) element);
         A_index[ROWMAJOR(i, A_nnz[i], A_N, A_M)] = j;
         A_nnz[i]++;
-- 
2.43.0


From 08766072c57c97baf1449ca8664daa465e9d08dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:21 +0000
Subject: [PATCH 007/109] fix: ellpack setters refuse a row that exceeds its
 capacity

---
 .../ellpack/bml_setters_ellpack_typed.c       | 22 +++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/C-interface/ellpack/bml_setters_ellpack_typed.c b/src/C-interface/ellpack/bml_setters_ellpack_typed.c
index 206e989..3c452f5 100644
--- a/src/C-interface/ellpack/bml_setters_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_setters_ellpack_typed.c
@@ -41,6 +41,10 @@ void TYPED_FUNC(
 #ifdef USE_OMP_OFFLOAD
 #pragma omp target update from(A_nnz[:A_N], A_index[:A_N*A_M], A_value[:A_N*A_M])
 #endif
+    if (A_nnz[i] == A_M)
+    {
+        LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+    }
     A_value[ROWMAJOR(i, A_nnz[i], A_N, A_M)] = *((REAL_T *) element);
     A_index[ROWMAJOR(i, A_nnz[i], A_N, A_M)] = j;
     A_nnz[i]++;
@@ -134,6 +138,19 @@ void TYPED_FUNC(
     int *A_index = A->index;
     int *A_nnz = A->nnz;
 
+    int nnz = 0;
+    for (int j = 0; j < A_N; j++)
+    {
+        if (ABS(row[j]) > threshold)
+        {
+            nnz++;
+        }
+    }
+    if (nnz > A_M)
+    {
+        LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+    }
+
 #ifdef USE_OMP_OFFLOAD
 #pragma omp target map(to:row[0:A_N])
 #endif
@@ -206,6 +223,11 @@ void TYPED_FUNC(
         {
             if (ABS(diagonal[i]) > threshold)
             {
+                if (A_nnz[i] == A_M)
+                {
+                    LOG_ERROR
+                        ("Number of non-zeroes per row > M, Increase M\n");
+                }
                 A_index[ROWMAJOR(i, A_nnz[i], A_N, A_M)] = i;
                 A_value[ROWMAJOR(i, A_nnz[i], A_N, A_M)] = diagonal[i];
                 A_nnz[i]++;
-- 
2.43.0


From 72936f5dad9a343f313f32be37e8ad5ad6fbb817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:21 +0000
Subject: [PATCH 008/109] fix: bml_set_row for ellblock replaces the whole row

Elements of the previous row that are zero in the new one were kept.
---
 .../ellblock/bml_setters_ellblock_typed.c            | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/C-interface/ellblock/bml_setters_ellblock_typed.c b/src/C-interface/ellblock/bml_setters_ellblock_typed.c
index 9bcfdf9..f300f24 100644
--- a/src/C-interface/ellblock/bml_setters_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_setters_ellblock_typed.c
@@ -152,6 +152,18 @@ void TYPED_FUNC(
         ib++;
     }
 
+    //remove previous content of that row
+    for (int jp = 0; jp < A_nnzb[ib]; jp++)
+    {
+        int ind = ROWMAJOR(ib, jp, A->NB, A->MB);
+        int jb = A_indexb[ind];
+        REAL_T *A_value = A_ptr_value[ind];
+        for (int jj = 0; jj < A_bsize[jb]; jj++)
+        {
+            A_value[ROWMAJOR(ii, jj, A_bsize[ib], A_bsize[jb])] = 0.0;
+        }
+    }
+
     //loop over elements to insert
     for (int k = 0; k < A_N; k++)
     {
-- 
2.43.0


From 226e5541e6788b6c080996275ef0cd45f672ddb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:21 +0000
Subject: [PATCH 009/109] fix: ellblock setters refuse a row that exceeds its
 capacity

---
 src/C-interface/ellblock/bml_setters_ellblock_typed.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/C-interface/ellblock/bml_setters_ellblock_typed.c b/src/C-interface/ellblock/bml_setters_ellblock_typed.c
index f300f24..c996a17 100644
--- a/src/C-interface/ellblock/bml_setters_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_setters_ellblock_typed.c
@@ -192,6 +192,11 @@ void TYPED_FUNC(
             }
             if (block_found == 0)
             {
+                if (A_nnzb[ib] == A->MB)
+                {
+                    LOG_ERROR
+                        ("Number of non-zeroes per row > MB, Increase MB\n");
+                }
                 int ind = ROWMAJOR(ib, A_nnzb[ib], A->NB, A->MB);
                 int nelements = A_bsize[ib] * A_bsize[jb];
                 A_ptr_value[ind]
@@ -275,6 +280,11 @@ void TYPED_FUNC(
                 (&diagonal[offset], A_bsize[ib], 1, 1);
             if (normdiag > threshold)
             {
+                if (A_nnzb[ib] == A->MB)
+                {
+                    LOG_ERROR
+                        ("Number of non-zeroes per row > MB, Increase MB\n");
+                }
                 int ind = ROWMAJOR(ib, A_nnzb[ib], A->NB, A->MB);
                 int nelemnts = A_bsize[ib] * A_bsize[ib];
                 A_ptr_value[ind] =
-- 
2.43.0


From 111c013984a1284f44daa1ee50a28dcf766ee3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:21 +0000
Subject: [PATCH 010/109] fix: bml_copy for ellblock replaces the blocks of the
 destination

Slots of the destination were reused whatever the size of the block they
held, surplus blocks leaked, and both matrices were assumed to have the same
number of blocks per row.
---
 .../ellblock/bml_copy_ellblock_typed.c        | 29 ++++++++++++-------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/C-interface/ellblock/bml_copy_ellblock_typed.c b/src/C-interface/ellblock/bml_copy_ellblock_typed.c
index eff8bf1..ab94c46 100644
--- a/src/C-interface/ellblock/bml_copy_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_copy_ellblock_typed.c
@@ -2,6 +2,7 @@
 #include "../../typed.h"
 #include "../bml_allocate.h"
 #include "../bml_copy.h"
+#include "../bml_logger.h"
 #include "../bml_types.h"
 #include "bml_allocate_ellblock.h"
 #include "bml_copy_ellblock.h"
@@ -75,36 +76,42 @@ void TYPED_FUNC(
 {
     assert(A->NB == B->NB);
 
+    if (A == B)
+        return;
+
     int NB = A->NB;
     int MB = A->MB;
+    int B_MB = B->MB;
 
     REAL_T **A_ptr_value = (REAL_T **) A->ptr_value;
     REAL_T **B_ptr_value = (REAL_T **) B->ptr_value;
 
-    memcpy(B->nnzb, A->nnzb, sizeof(int) * A->NB);
-
     int *A_indexb = A->indexb;
     int *B_indexb = B->indexb;
-    memcpy(B_indexb, A_indexb, NB * MB * sizeof(int));
 
 #pragma omp parallel for
     for (int ib = 0; ib < NB; ib++)
     {
+        if (A->nnzb[ib] > B_MB)
+        {
+            LOG_ERROR("Number of non-zeroes per row > MB, Increase MB\n");
+        }
+        TYPED_FUNC(bml_clear_block_row_ellblock) (B, ib);
         for (int jp = 0; jp < A->nnzb[ib]; jp++)
         {
             int ind = ROWMAJOR(ib, jp, NB, MB);
             assert(A_ptr_value[ind] != NULL);
-            int jb = B_indexb[ind];
+            int jb = A_indexb[ind];
             int nelements = A->bsize[ib] * A->bsize[jb];
-            if (B_ptr_value[ind] == NULL)
-                B_ptr_value[ind]
-                    =
-                    TYPED_FUNC(bml_allocate_block_ellblock) (B, ib,
-                                                             nelements);
-            assert(B_ptr_value[ind] != NULL);
-            memcpy(B_ptr_value[ind], A_ptr_value[ind],
+            int B_ind = ROWMAJOR(ib, jp, NB, B_MB);
+            B_ptr_value[B_ind] =
+                TYPED_FUNC(bml_allocate_block_ellblock) (B, ib, nelements);
+            assert(B_ptr_value[B_ind] != NULL);
+            memcpy(B_ptr_value[B_ind], A_ptr_value[ind],
                    nelements * sizeof(REAL_T));
+            B_indexb[B_ind] = jb;
         }
+        B->nnzb[ib] = A->nnzb[ib];
     }
 }
 
-- 
2.43.0


From 7f3c5bac66c7225cae6ffb8db51c13090999efe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:35 +0000
Subject: [PATCH 011/109] fix: bml_scale for ellblock walks the blocks of the
 scaled matrix

It indexed the destination with the row width of the source.
---
 src/C-interface/ellblock/bml_scale_ellblock_typed.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/C-interface/ellblock/bml_scale_ellblock_typed.c b/src/C-interface/ellblock/bml_scale_ellblock_typed.c
index 208baba..34d8c21 100644
--- a/src/C-interface/ellblock/bml_scale_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_scale_ellblock_typed.c
@@ -63,13 +63,13 @@ void TYPED_FUNC(
     REAL_T *scale_factor = _scale_factor;
     REAL_T **B_ptr_value = (REAL_T **) B->ptr_value;
     int inc = 1;
-    for (int ib = 0; ib < A->NB; ib++)
+    for (int ib = 0; ib < B->NB; ib++)
     {
-        for (int jp = 0; jp < A->nnzb[ib]; jp++)
+        for (int jp = 0; jp < B->nnzb[ib]; jp++)
         {
-            int ind = ROWMAJOR(ib, jp, A->NB, A->MB);
-            int jb = A->indexb[ind];
-            int nElems = A->bsize[ib] * A->bsize[jb];
+            int ind = ROWMAJOR(ib, jp, B->NB, B->MB);
+            int jb = B->indexb[ind];
+            int nElems = B->bsize[ib] * B->bsize[jb];
             REAL_T *B_value = B_ptr_value[ind];
             assert(B_value != NULL);
             C_BLAS(SCAL) (&nElems, scale_factor, &(B_value[0]), &inc);
-- 
2.43.0


From a17bb58b6a5d3db22019ad049d9d5f9ce77493bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:19 +0000
Subject: [PATCH 012/109] fix: bml_transpose_new for ellpack releases its row
 locks

---
 src/C-interface/ellpack/bml_transpose_ellpack_typed.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/C-interface/ellpack/bml_transpose_ellpack_typed.c b/src/C-interface/ellpack/bml_transpose_ellpack_typed.c
index 73daef1..4e38d77 100644
--- a/src/C-interface/ellpack/bml_transpose_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_transpose_ellpack_typed.c
@@ -98,6 +98,14 @@ bml_matrix_ellpack_t
         }
     }                           // end target region
 
+#ifdef _OPENMP
+    for (int i = 0; i < N; i++)
+    {
+        omp_destroy_lock(&row_lock[i]);
+    }
+    free(row_lock);
+#endif
+
 #if defined (USE_OMP_OFFLOAD) && defined(COMPUTE_ON_HOST)
 #pragma omp target update to(B_index[:N*M], B_value[:N*M], B_nnz[:N])
 #endif
-- 
2.43.0


From b08d8500dbc547a54541364d23473f72ba21f1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:02 +0000
Subject: [PATCH 013/109] fix: bml_multiply_adjust_AB for ellpack stays within
 the row capacity and terminates

---
 .../ellpack/bml_multiply_ellpack_typed.c      | 55 +++++++++++--------
 1 file changed, 33 insertions(+), 22 deletions(-)

diff --git a/src/C-interface/ellpack/bml_multiply_ellpack_typed.c b/src/C-interface/ellpack/bml_multiply_ellpack_typed.c
index 7001670..110b5bc 100644
--- a/src/C-interface/ellpack/bml_multiply_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_multiply_ellpack_typed.c
@@ -593,7 +593,7 @@ void TYPED_FUNC(
     REAL_T *B_value = (REAL_T *) B->value;
     REAL_T *C_value = (REAL_T *) C->value;
 
-    REAL_T adjust_threshold = (REAL_T) threshold;
+    double adjust_threshold = threshold;
 
     int myRank = bml_getMyRank();
     int rowMin = A_localRowMin[myRank];
@@ -616,6 +616,8 @@ void TYPED_FUNC(
     while (aflag > 0)
     {
         aflag = 0;
+        // smallest magnitude kept in a row that exceeds its capacity
+        double smallest = DBL_MAX;
 
 #if defined(__IBMC__) || defined(__ibmxl__)
 #pragma omp parallel for                       \
@@ -623,7 +625,8 @@ void TYPED_FUNC(
     shared(B_N, B_M, B_nnz, B_index, B_value)  \
     shared(C_N, C_M, C_nnz, C_index, C_value)  \
     shared(adjust_threshold)           \
-    reduction(+:aflag)
+    reduction(+:aflag)                         \
+    reduction(min:smallest)
 #else
 #pragma omp parallel for                       \
     shared(A_N, A_M, A_nnz, A_index, A_value)  \
@@ -631,7 +634,8 @@ void TYPED_FUNC(
     shared(C_N, C_M, C_nnz, C_index, C_value)  \
     shared(adjust_threshold)           \
     firstprivate(ix, jx, x)                    \
-    reduction(+:aflag)
+    reduction(+:aflag)                         \
+    reduction(min:smallest)
 #endif
 
         //for (int i = 0; i < A_N; i++)
@@ -666,40 +670,47 @@ void TYPED_FUNC(
                 }
             }
 
-            // Check for number of non-zeroes per row exceeded
-            // Need to adjust threshold
-            // ** Shouldn't we break from this loop if aflag is 1?? --DOK
-            if (l > C_M)
-            {
-                aflag = 1;
-            }
-
             int ll = 0;
+            double row_smallest = DBL_MAX;
             for (int j = 0; j < l; j++)
             {
                 //int jp = C_index[ROWMAJOR(i, j, N, M)];
                 int jp = jx[j];
                 REAL_T xtmp = x[jp];
-                // Diagonal elements are saved in first column
-                if (jp == i)
+                // Diagonal elements are always saved
+                if (jp == i || is_above_threshold(xtmp, adjust_threshold))
                 {
-                    C_value[ROWMAJOR(i, ll, C_N, C_M)] = xtmp;
-                    C_index[ROWMAJOR(i, ll, C_N, C_M)] = jp;
-                    ll++;
-                }
-                else if (is_above_threshold(xtmp, adjust_threshold))
-                {
-                    C_value[ROWMAJOR(i, ll, C_N, C_M)] = xtmp;
-                    C_index[ROWMAJOR(i, ll, C_N, C_M)] = jp;
+                    if (ll < C_M)
+                    {
+                        C_value[ROWMAJOR(i, ll, C_N, C_M)] = xtmp;
+                        C_index[ROWMAJOR(i, ll, C_N, C_M)] = jp;
+                    }
+                    if (jp != i)
+                    {
+                        row_smallest = MIN(row_smallest, ABS(xtmp));
+                    }
                     ll++;
                 }
                 ix[jp] = 0;
                 x[jp] = 0.0;
             }
+
+            // Check for number of non-zeroes per row exceeded
+            // Need to adjust threshold
+            if (ll > C_M)
+            {
+                aflag = 1;
+                smallest = MIN(smallest, row_smallest);
+                ll = C_M;
+            }
             C_nnz[i] = ll;
         }
 
-        adjust_threshold *= (REAL_T) 2.0;
+        // drop at least the smallest element of the rows that do not fit
+        if (aflag > 0)
+        {
+            adjust_threshold = MAX(2.0 * adjust_threshold, smallest);
+        }
     }
 #ifdef USE_OMP_OFFLOAD
 #pragma omp target update to(C_nnz[:C_N], C_index[:C_N*C_M], C_value[:C_N*C_M])
-- 
2.43.0


From 3d1add3ad3aad55a7bc0c07df16842d392778940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:02 +0000
Subject: [PATCH 014/109] fix: bml_multiply for ellblock frees the traces of
 its squaring

---
 src/C-interface/ellblock/bml_multiply_ellblock_typed.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/C-interface/ellblock/bml_multiply_ellblock_typed.c b/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
index aefab74..e56c84f 100644
--- a/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
@@ -199,7 +199,9 @@ void TYPED_FUNC(
 
     if (A == B && alpha == ONE && beta == ZERO)
     {
-        TYPED_FUNC(bml_multiply_x2_ellblock) (A, C, threshold);
+        double *trace =
+            TYPED_FUNC(bml_multiply_x2_ellblock) (A, C, threshold);
+        bml_free_memory(trace);
     }
     else
     {
@@ -210,7 +212,9 @@ void TYPED_FUNC(
 
         if (A != NULL && A == B)
         {
-            TYPED_FUNC(bml_multiply_x2_ellblock) (A, A2, threshold);
+            double *trace =
+                TYPED_FUNC(bml_multiply_x2_ellblock) (A, A2, threshold);
+            bml_free_memory(trace);
         }
         else
         {
-- 
2.43.0


From f100d1a09d669f3ff0552e3ab2e8aaea6e96d020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:02 +0000
Subject: [PATCH 015/109] fix: bml_multiply_x2 for ellblock takes trace strides
 and capacity from the right matrix

---
 .../ellblock/bml_multiply_ellblock_typed.c            | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/C-interface/ellblock/bml_multiply_ellblock_typed.c b/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
index e56c84f..094573b 100644
--- a/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
@@ -266,6 +266,7 @@ void *TYPED_FUNC(
     TYPED_FUNC(bml_clear_ellblock) (X2);
     int *X2_indexb = X2->indexb;
     int *X2_nnzb = X2->nnzb;
+    int X2_MB = X2->MB;
     REAL_T traceX2 = 0.0;
     REAL_T **X2_ptr_value = (REAL_T **) X2->ptr_value;
 
@@ -395,7 +396,7 @@ void *TYPED_FUNC(
         }
 
         // Check for number of non-zero blocks per block row exceeded
-        if (lb > MB)
+        if (lb > X2_MB)
         {
             LOG_ERROR
                 ("Number of non-zeroes blocks per row > MB, Increase MB\n");
@@ -404,7 +405,7 @@ void *TYPED_FUNC(
         int ll = 0;
         for (int jb = 0; jb < lb; jb++)
         {
-            assert(ll < MB);
+            assert(ll < X2_MB);
             int jp = jx[jb];
             REAL_T *xtmp = x_ptr[jp];
             double normx = TYPED_FUNC(bml_norm_inf_fast)
@@ -414,12 +415,12 @@ void *TYPED_FUNC(
                 if (jp == ib)
                 {
                     for (int kk = 0; kk < bsize[ib]; kk++)
-                        traceX2 = traceX2 + xtmp[kk * (1 + bsize[jb])];
+                        traceX2 = traceX2 + xtmp[kk * (1 + bsize[ib])];
                 }
 
                 int nelements = bsize[ib] * bsize[jp];
-                int ind = ROWMAJOR(ib, ll, NB, MB);
-                assert(ind < NB * MB);
+                int ind = ROWMAJOR(ib, ll, NB, X2_MB);
+                assert(ind < NB * X2_MB);
                 /* Allocate memory to hold block */
                 X2_ptr_value[ind] =
                     TYPED_FUNC(bml_allocate_block_ellblock) (X2, ib, nelements);
-- 
2.43.0


From 2fde079565a341f0191690b637fe12ca3133764e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:02 +0000
Subject: [PATCH 016/109] fix: ellblock products handle blocks larger than six

---
 .../ellblock/bml_multiply_ellblock_typed.c    | 35 ++++++++++++++++---
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/C-interface/ellblock/bml_multiply_ellblock_typed.c b/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
index 094573b..9dc1f78 100644
--- a/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
@@ -167,6 +167,31 @@ void TYPED_FUNC(
     }
 }
 
+/* Multiply blocks with any inner dimension ld */
+void TYPED_FUNC(
+    bml_multiply_blockn) (
+    REAL_T * mat0,
+    REAL_T * mat1,
+    const int ld,
+    REAL_T * x,
+    const int bsizeib,
+    const int bsizekb)
+{
+    REAL_T *xk = x;
+    for (int ii = 0; ii < bsizeib; ii++)
+    {
+        REAL_T *a = mat0 + ld * ii;
+        REAL_T *b = mat1;
+        for (int jj = 0; jj < bsizekb; jj++)
+        {
+            for (int kk = 0; kk < ld; kk++)
+                (*xk) += a[kk] * b[kk];
+            xk++;
+            b += ld;
+        }
+    }
+}
+
 /** Matrix multiply.
  *
  * \f$ C \leftarrow \alpha A \, B + \beta C \f$
@@ -307,7 +332,8 @@ void *TYPED_FUNC(
             TYPED_FUNC(bml_multiply_block2),
             TYPED_FUNC(bml_multiply_block3),
             TYPED_FUNC(bml_multiply_block4),
-            TYPED_FUNC(bml_multiply_block5), TYPED_FUNC(bml_multiply_block6)};
+            TYPED_FUNC(bml_multiply_block5), TYPED_FUNC(bml_multiply_block6),
+            TYPED_FUNC(bml_multiply_blockn)};
 
 #if defined(__IBMC__) || defined(__ibmxl__)
 #pragma omp parallel for                           \
@@ -382,7 +408,7 @@ void *TYPED_FUNC(
                         T_value_right[jj * bsizejb + ii]
                             = X_value_right[offset + jj];
                 }
-                (*fun_ptr_arr[bsizejb - 1]) (X_value_left, T_value_right,
+                (*fun_ptr_arr[MIN(bsizejb, 7) - 1]) (X_value_left, T_value_right,
                                              bsizejb, x, bsize[ib], bsizekb);
 #else
                 REAL_T alpha = (REAL_T) 1.;
@@ -517,7 +543,8 @@ void TYPED_FUNC(
             TYPED_FUNC(bml_multiply_block2),
             TYPED_FUNC(bml_multiply_block3),
             TYPED_FUNC(bml_multiply_block4),
-            TYPED_FUNC(bml_multiply_block5), TYPED_FUNC(bml_multiply_block6)};
+            TYPED_FUNC(bml_multiply_block5), TYPED_FUNC(bml_multiply_block6),
+            TYPED_FUNC(bml_multiply_blockn)};
 
     //loop over row blocks
 #if defined(__IBMC__) || defined(__ibmxl__)
@@ -583,7 +610,7 @@ void TYPED_FUNC(
                         T_value_right[jj * bsizejb + ii]
                             = B_value[offset + jj];
                 }
-                (*fun_ptr_arr[bsizejb - 1]) (A_value, T_value_right,
+                (*fun_ptr_arr[MIN(bsizejb, 7) - 1]) (A_value, T_value_right,
                                              bsizejb, x, bsize[ib], bsizekb);
             }
         }
-- 
2.43.0


From a0524aab231aa318a91cc3b8704d3d212be8539f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:02 +0000
Subject: [PATCH 017/109] fix: bml_multiply_adjust_AB for ellblock computes the
 block product within the row capacity

---
 .../ellblock/bml_multiply_ellblock_typed.c    | 89 ++++++++++++-------
 1 file changed, 58 insertions(+), 31 deletions(-)

diff --git a/src/C-interface/ellblock/bml_multiply_ellblock_typed.c b/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
index 9dc1f78..a103759 100644
--- a/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
@@ -15,6 +15,7 @@
 #include "bml_utilities_ellblock.h"
 
 #include <complex.h>
+#include <float.h>
 #include <math.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -670,8 +671,13 @@ void TYPED_FUNC(
     bml_matrix_ellblock_t * C,
     double threshold)
 {
+    assert(A->NB == B->NB);
+    assert(A->NB == C->NB);
+
     int NB = A->NB;
-    int MB = A->MB;
+    int A_MB = A->MB;
+    int B_MB = B->MB;
+    int C_MB = C->MB;
     int *A_nnzb = A->nnzb;
     int *A_indexb = A->indexb;
     int *bsize = A->bsize;
@@ -705,75 +711,96 @@ void TYPED_FUNC(
     while (aflag > 0)
     {
         aflag = 0;
+        // smallest norm kept in a row that exceeds its capacity
+        double smallest = DBL_MAX;
 
         for (int ib = 0; ib < NB; ib++)
         {
             int l = 0;
             for (int jp = 0; jp < A_nnzb[ib]; jp++)
             {
-                REAL_T *a = A_ptr_value[ROWMAJOR(ib, jp, NB, MB)];
-                int jb = A_indexb[ROWMAJOR(ib, jp, NB, MB)];
+                REAL_T *a = A_ptr_value[ROWMAJOR(ib, jp, NB, A_MB)];
+                int jb = A_indexb[ROWMAJOR(ib, jp, NB, A_MB)];
 
                 for (int kp = 0; kp < B_nnzb[jb]; kp++)
                 {
-                    int kb = B_indexb[ROWMAJOR(jb, kp, NB, MB)];
+                    int kb = B_indexb[ROWMAJOR(jb, kp, NB, B_MB)];
                     if (ix[kb] == 0)
                     {
-                        memset(x_ptr[kb], 0, maxbsize2);
+                        memset(x_ptr[kb], 0, maxbsize2 * sizeof(REAL_T));
                         jx[l] = kb;
                         ix[kb] = ib + 1;
                         l++;
                     }
                     // TEMPORARY STORAGE VECTOR LENGTH FULL N
-                    REAL_T *b = B_ptr_value[ROWMAJOR(jb, kp, NB, MB)];
+                    REAL_T *b = B_ptr_value[ROWMAJOR(jb, kp, NB, B_MB)];
                     REAL_T *x = x_ptr[kb];
-                    for (int ii = 0; ii < bsize[jb]; ii++)
+                    for (int ii = 0; ii < bsize[ib]; ii++)
                         for (int jj = 0; jj < bsize[kb]; jj++)
                         {
-                            int k = ii * bsize[kb] + jj;
-                            x[k] =
-                                x[k] +
-                                a[ROWMAJOR(ii, jj, bsize[ib], bsize[jb])] *
-                                b[ROWMAJOR(jj, ii, bsize[jb], bsize[kb])];
+                            int k = ROWMAJOR(ii, jj, bsize[ib], bsize[kb]);
+                            for (int kk = 0; kk < bsize[jb]; kk++)
+                                x[k] +=
+                                    a[ROWMAJOR(ii, kk, bsize[ib], bsize[jb])]
+                                    * b[ROWMAJOR
+                                        (kk, jj, bsize[jb], bsize[kb])];
                         }
                 }
             }
 
-            // Check for number of non-zeroes per row exceeded
-            // Need to adjust threshold
-            if (l > MB)
-            {
-                aflag = 1;
-            }
+            // remove the previous blocks of this row of C
+            TYPED_FUNC(bml_clear_block_row_ellblock) (C, ib);
 
             int ll = 0;
+            double row_smallest = DBL_MAX;
             for (int jb = 0; jb < l; jb++)
             {
                 int jp = jx[jb];
                 REAL_T *xtmp = x_ptr[jp];
                 double normx = TYPED_FUNC(bml_norm_inf)
                     (xtmp, bsize[ib], bsize[jp], bsize[jp]);
-                // Diagonal elements are saved in first column
-                if (jp == ib)
-                {
-                    memcpy(C_ptr_value[ROWMAJOR(ib, ll, NB, MB)], xtmp,
-                           bsize[ib] * bsize[ll] * sizeof(REAL_T));
-                    C_indexb[ROWMAJOR(ib, ll, NB, MB)] = jp;
-                    ll++;
-                }
-                else if (normx > adjust_threshold)
+                // Diagonal blocks are always saved
+                if (jp == ib || normx > adjust_threshold)
                 {
-                    memcpy(C_ptr_value[ROWMAJOR(ib, ll, NB, MB)], xtmp,
-                           bsize[ib] * bsize[ll] * sizeof(REAL_T));
-                    C_indexb[ROWMAJOR(ib, ll, NB, MB)] = jp;
+                    if (ll < C_MB)
+                    {
+                        int nelements = bsize[ib] * bsize[jp];
+                        int ind = ROWMAJOR(ib, ll, NB, C_MB);
+                        C_ptr_value[ind] =
+                            TYPED_FUNC(bml_allocate_block_ellblock) (C, ib,
+                                                                     nelements);
+                        memcpy(C_ptr_value[ind], xtmp,
+                               nelements * sizeof(REAL_T));
+                        C_indexb[ind] = jp;
+                    }
+                    if (jp != ib)
+                    {
+                        row_smallest = MIN(row_smallest, normx);
+                    }
                     ll++;
                 }
                 ix[jp] = 0;
                 memset(x_ptr[jp], 0, maxbsize2 * sizeof(REAL_T));
             }
+
+            // Check for number of non-zeroes per row exceeded
+            // Need to adjust threshold
+            if (ll > C_MB)
+            {
+                aflag = 1;
+                smallest = MIN(smallest, row_smallest);
+                ll = C_MB;
+            }
             C_nnzb[ib] = ll;
         }
 
-        adjust_threshold *= 2.0;
+        // drop at least the smallest block of the rows that do not fit
+        if (aflag > 0)
+        {
+            adjust_threshold = MAX(2.0 * adjust_threshold, smallest);
+        }
     }
+
+    for (int ib = 0; ib < NB; ib++)
+        free(x_ptr[ib]);
 }
-- 
2.43.0


From 53a671d3b373b9b8868c22a9025e12b00bb43efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:26 +0000
Subject: [PATCH 018/109] fix: bml_multiply_AB for ellblock replaces the
 previous blocks of C

---
 src/C-interface/ellblock/bml_multiply_ellblock_typed.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/C-interface/ellblock/bml_multiply_ellblock_typed.c b/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
index a103759..25f6fe1 100644
--- a/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
@@ -622,6 +622,9 @@ void TYPED_FUNC(
             LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
         }
 
+        // remove the previous blocks of this row of C
+        TYPED_FUNC(bml_clear_block_row_ellblock) (C, ib);
+
         int ll = 0;
         for (int jb = 0; jb < lb; jb++)
         {
-- 
2.43.0


From a8006f93a6ad3abef409c979cf18d1b3c3fb88ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:07 +0000
Subject: [PATCH 019/109] fix: bml_adjungate_triangle for ellpack replaces the
 other triangle within the row capacity

---
 .../bml_adjungate_triangle_ellpack_typed.c    | 132 ++++++++----------
 1 file changed, 57 insertions(+), 75 deletions(-)

diff --git a/src/C-interface/ellpack/bml_adjungate_triangle_ellpack_typed.c b/src/C-interface/ellpack/bml_adjungate_triangle_ellpack_typed.c
index 67b2279..5e27210 100644
--- a/src/C-interface/ellpack/bml_adjungate_triangle_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_adjungate_triangle_ellpack_typed.c
@@ -32,109 +32,91 @@ void TYPED_FUNC(
 {
     int A_N = A->N;
     int A_M = A->M;
-    int l;
-    int ll;
     REAL_T *A_value = (REAL_T *) A->value;
     int *A_index = A->index;
     int *A_nnz = A->nnz;
-#ifdef _OPENMP
-    omp_lock_t lock[A_M];
-#endif
 
-    switch (*triangle)
+    if (*triangle != 'u' && *triangle != 'l')
     {
-        case 'u':
-#ifdef _OPENMP
-            for (int i = 0; i < A_M; i++)
-                omp_init_lock(&(lock[i]));
-#endif
+        LOG_ERROR("unknown triangle %c\n", *triangle);
+    }
+    const int upper = (*triangle == 'u');
 
 #if defined(USE_OMP_OFFLOAD)
 #pragma omp target update from(A_value[:A_N*A_M], A_index[:A_N*A_M], A_nnz[:A_N])
 #endif
 
-#pragma omp parallel for                          \
-  shared(A_N, A_M, A_index, A_nnz, A_value, lock) \
-  private(l, ll)
-            // WARNING: Please, check for race conditions ...
-
-            for (int i = 0; i < A_N; i++)       // For every row
-            {
-                l = A_nnz[i];
-                for (int j = 0; j < l; j++)     // We search for indices gt 0.
-                {
-                    ll = A_index[ROWMAJOR(i, j, A_N, A_M)];
-                    if (ll > 0)
-                    {
-                        if (ll > i)
-                        {
-#ifdef _OPENMP
-                            omp_set_lock(&(lock[ll]));
-#endif
-                            A_index[ROWMAJOR(ll, A_nnz[ll], A_N, A_M)] = i;
-                            A_value[ROWMAJOR(ll, A_nnz[ll], A_N, A_M)] =
-                                conj(A_value[ROWMAJOR(i, j, A_N, A_M)]);
-                            A_nnz[ll]++;
+    // number of elements of each row outside of the triangle to be replaced
+    int *nnz = malloc(sizeof(int) * A_N);
 #ifdef _OPENMP
-                            omp_unset_lock(&(lock[ll]));
+    omp_lock_t *row_lock = malloc(sizeof(omp_lock_t) * A_N);
 #endif
 
-                        }
-                    }
-                }
+    // remove the elements of the triangle to be replaced
+#pragma omp parallel for                  \
+  shared(A_N, A_M, A_index, A_nnz, A_value, nnz)
+    for (int i = 0; i < A_N; i++)
+    {
+        int l = 0;
+        for (int j = 0; j < A_nnz[i]; j++)
+        {
+            int ll = A_index[ROWMAJOR(i, j, A_N, A_M)];
+            if (upper ? ll >= i : ll <= i)
+            {
+                A_index[ROWMAJOR(i, l, A_N, A_M)] = ll;
+                A_value[ROWMAJOR(i, l, A_N, A_M)] =
+                    A_value[ROWMAJOR(i, j, A_N, A_M)];
+                l++;
             }
+        }
+        A_nnz[i] = l;
+        nnz[i] = l;
 #ifdef _OPENMP
-            for (int i = 0; i < A_M; i++)
-                omp_destroy_lock(&(lock[i]));
+        omp_init_lock(&(row_lock[i]));
 #endif
+    }
 
-            break;
-
-        case 'l':
+    // append the mirror of the other triangle
 #ifdef _OPENMP
-            for (int i = 0; i < A_M; i++)
-                omp_init_lock(&(lock[i]));
+#pragma omp parallel for                          \
+  shared(A_N, A_M, A_index, A_nnz, A_value, nnz, row_lock)
 #endif
-
-#pragma omp parallel for                                \
-  shared(lock, A_N, A_M, A_index, A_nnz, A_value)       \
-  private(l, ll)
-            //    WARNING: Please, check for race conditions and parallel performances ...
-            for (int i = 0; i < A_N; i++)
+    for (int i = 0; i < A_N; i++)
+    {
+        for (int j = 0; j < nnz[i]; j++)
+        {
+            int ll = A_index[ROWMAJOR(i, j, A_N, A_M)];
+            if (ll != i)
             {
-                l = A_nnz[i];
-                for (int j = 0; j < l; j++)
-                {
-                    ll = A_index[ROWMAJOR(i, j, A_N, A_M)];
-                    if (ll >= 0)
-                    {
-                        if (ll < i)
-                        {
 #ifdef _OPENMP
-                            omp_set_lock(&(lock[ll]));
+                omp_set_lock(&(row_lock[ll]));
 #endif
-                            A_index[ROWMAJOR(ll, A_nnz[ll], A_N, A_M)] = i;
-                            A_value[ROWMAJOR(ll, A_nnz[ll], A_N, A_M)] =
-                                conj(A_value[ROWMAJOR(i, j, A_N, A_M)]);
-                            A_nnz[ll]++;
+                int l = A_nnz[ll];
+                if (l == A_M)
+                {
+                    LOG_ERROR
+                        ("Number of non-zeroes per row > M, Increase M\n");
+                }
+                A_index[ROWMAJOR(ll, l, A_N, A_M)] = i;
+                A_value[ROWMAJOR(ll, l, A_N, A_M)] =
+                    conj(A_value[ROWMAJOR(i, j, A_N, A_M)]);
+                A_nnz[ll]++;
 #ifdef _OPENMP
-                            omp_unset_lock(&(lock[ll]));
+                omp_unset_lock(&(row_lock[ll]));
 #endif
-
-                        }
-                    }
-                }
             }
+        }
+    }
+
 #ifdef _OPENMP
-            for (int i = 0; i < A_M; i++)
-                omp_destroy_lock(&(lock[i]));
+    for (int i = 0; i < A_N; i++)
+    {
+        omp_destroy_lock(&(row_lock[i]));
+    }
+    free(row_lock);
 #endif
+    free(nnz);
 
-            break;
-        default:
-            LOG_ERROR("unknown triangle %c\n", triangle);
-            break;
-    }
 #if defined(USE_OMP_OFFLOAD)
 #pragma omp target update to(A_value[:A_N*A_M], A_index[:A_N*A_M], A_nnz[:A_N])
 #endif
-- 
2.43.0


From 952168e0e5f5edbdd99ae59fd28b549816054ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:42 +0000
Subject: [PATCH 020/109] fix: bml_threshold_new for csr appends the kept
 elements

---
 src/C-interface/csr/bml_threshold_csr_typed.c | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/C-interface/csr/bml_threshold_csr_typed.c b/src/C-interface/csr/bml_threshold_csr_typed.c
index 6b27efc..7903119 100644
--- a/src/C-interface/csr/bml_threshold_csr_typed.c
+++ b/src/C-interface/csr/bml_threshold_csr_typed.c
@@ -6,6 +6,7 @@
 #include "../bml_types.h"
 #include "bml_allocate_csr.h"
 #include "bml_threshold_csr.h"
+#include "bml_setters_csr.h"
 #include "bml_types_csr.h"
 
 #include <complex.h>
@@ -39,10 +40,6 @@ bml_matrix_csr_t
     shared(N)
     for (int i = 0; i < N; i++)
     {
-        int *bcols = B->data_[i]->cols_;
-        REAL_T *bvals = (REAL_T *) B->data_[i]->vals_;
-        const int bnnz = B->data_[i]->NNZ_;
-
         int *cols = A->data_[i]->cols_;
         REAL_T *vals = (REAL_T *) A->data_[i]->vals_;
         const int annz = A->data_[i]->NNZ_;
@@ -50,11 +47,8 @@ bml_matrix_csr_t
         {
             if (is_above_threshold(vals[pos], threshold))
             {
-//                bml_set_element_new_csr(B, i, cols[pos], &vals[pos]);
-                bvals[bnnz] = vals[pos];
-                bcols[bnnz] = cols[pos];
-                /* update nnz of row i of B */
-                B->data_[i]->NNZ_++;
+                TYPED_FUNC(csr_set_row_element_new) (B->data_[i], cols[pos],
+                                                     &vals[pos]);
             }
         }
     }
-- 
2.43.0


From 6a359734b7e1fc5ba6688e2a1a8fbfb2d907046e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:21 +0000
Subject: [PATCH 021/109] fix: bml_transpose for ellpack does not overflow rows
 narrower than the matrix

---
 .../ellpack/bml_transpose_ellpack_typed.c     | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/C-interface/ellpack/bml_transpose_ellpack_typed.c b/src/C-interface/ellpack/bml_transpose_ellpack_typed.c
index 4e38d77..66684bc 100644
--- a/src/C-interface/ellpack/bml_transpose_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_transpose_ellpack_typed.c
@@ -5,6 +5,7 @@
 #include "../bml_transpose.h"
 #include "../bml_types.h"
 #include "bml_allocate_ellpack.h"
+#include "bml_copy_ellpack.h"
 #include "bml_transpose_ellpack.h"
 #include "bml_types_ellpack.h"
 #include "../bml_logger.h"
@@ -20,7 +21,6 @@
 
 #ifdef BML_USE_CUSPARSE
 #include <cusparse.h>
-#include "bml_copy_ellpack.h"
 #endif
 
 #define COMPUTE_ON_HOST
@@ -87,6 +87,11 @@ bml_matrix_ellpack_t
                 omp_set_lock(&row_lock[trow]);
 #endif
                 int colcnt = B_nnz[trow];
+                if (colcnt == M)
+                {
+                    LOG_ERROR
+                        ("Number of non-zeroes per row > M, Increase M\n");
+                }
                 B_index[ROWMAJOR(trow, colcnt, N, M)] = i;
                 B_value[ROWMAJOR(trow, colcnt, N, M)] =
                     A_value[ROWMAJOR(i, j, N, M)];
@@ -420,7 +425,18 @@ void TYPED_FUNC(
      * consider: ellpack_transpose_right_looking(A) - for structurally symmetric matrices
      * Either algorithm is sufficient for arbitrary sparse matrices
     */
-    TYPED_FUNC(ellpack_transpose_left_looking) (A);
+    if (A->M < A->N)
+    {
+        /* rows can temporarily need more than M elements during the in-place
+         * transpose */
+        bml_matrix_ellpack_t *B = TYPED_FUNC(bml_transpose_new_ellpack) (A);
+        TYPED_FUNC(bml_copy_ellpack) (B, A);
+        bml_deallocate_ellpack(B);
+    }
+    else
+    {
+        TYPED_FUNC(ellpack_transpose_left_looking) (A);
+    }
 }    
 
 #if defined(BML_USE_CUSPARSE)
-- 
2.43.0


From 6334a217e305aeeacdd4a4526724643eb2302b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:31 +0000
Subject: [PATCH 022/109] fix: bml_transpose for ellblock does not overflow
 block rows narrower than the matrix

---
 .../ellblock/bml_transpose_ellblock_typed.c    | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/C-interface/ellblock/bml_transpose_ellblock_typed.c b/src/C-interface/ellblock/bml_transpose_ellblock_typed.c
index e4ea7ac..a7bb906 100644
--- a/src/C-interface/ellblock/bml_transpose_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_transpose_ellblock_typed.c
@@ -3,8 +3,10 @@
 #include "../bml_allocate.h"
 #include "../bml_parallel.h"
 #include "../bml_transpose.h"
+#include "../bml_logger.h"
 #include "../bml_types.h"
 #include "bml_allocate_ellblock.h"
+#include "bml_copy_ellblock.h"
 #include "bml_transpose_ellblock.h"
 #include "bml_types_ellblock.h"
 
@@ -52,12 +54,16 @@ bml_matrix_ellblock_t
         {
             int indA = ROWMAJOR(ib, jp, NB, MB);
             int jb = A_indexb[indA];
+            if (B_nnzb[jb] == MB)
+            {
+                LOG_ERROR("Number of blocks per block row > MB, Increase MB\n");
+            }
             int indB = ROWMAJOR(jb, B_nnzb[jb], NB, MB);
             //add a new block in B
             B_indexb[indB] = ib;
             int nelements = bsize[ib] * bsize[jb];
             B_ptr_value[indB] =
-                TYPED_FUNC(bml_allocate_block_ellblock) (B, ib, nelements);
+                TYPED_FUNC(bml_allocate_block_ellblock) (B, jb, nelements);
             B_nnzb[jb]++;
             //transpose block
             REAL_T *B_value = B_ptr_value[indB];
@@ -119,6 +125,16 @@ void TYPED_FUNC(
     int NB = A->NB;
     int MB = A->MB;
 
+    if (MB < NB)
+    {
+        /* block rows can temporarily need more than MB blocks during the
+         * in-place transpose */
+        bml_matrix_ellblock_t *B = TYPED_FUNC(bml_transpose_new_ellblock) (A);
+        TYPED_FUNC(bml_copy_ellblock) (B, A);
+        bml_deallocate_ellblock(B);
+        return;
+    }
+
     REAL_T **A_ptr_value = (REAL_T **) A->ptr_value;
     int *A_indexb = A->indexb;
     int *A_nnzb = A->nnzb;
-- 
2.43.0


From c310e3e3799644072fc27f761458317ab38b0396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:18 +0000
Subject: [PATCH 023/109] fix: sums of squares take the modulus of complex
 elements

---
 src/C-interface/csr/bml_norm_csr_typed.c           |  6 +++---
 src/C-interface/dense/bml_norm_dense_typed.c       | 10 +++++-----
 src/C-interface/ellblock/bml_norm_ellblock_typed.c |  6 +++---
 src/C-interface/ellpack/bml_norm_ellpack_typed.c   | 10 +++++-----
 4 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/C-interface/csr/bml_norm_csr_typed.c b/src/C-interface/csr/bml_norm_csr_typed.c
index a6be2d4..568e467 100644
--- a/src/C-interface/csr/bml_norm_csr_typed.c
+++ b/src/C-interface/csr/bml_norm_csr_typed.c
@@ -42,7 +42,7 @@ double TYPED_FUNC(
         for (int pos = 0; pos < annz; pos++)
         {
             REAL_T xval = vals[pos];
-            sum += xval * xval;
+            sum += xval * conj(xval);
         }
     }
 
@@ -78,7 +78,7 @@ double TYPED_FUNC(
             if (cols[pos] < core_size)
             {
                 REAL_T value = vals[pos];
-                sum += value * value;
+                sum += value * conj(value);
             }
         }
     }
@@ -217,7 +217,7 @@ double TYPED_FUNC(
         {
             if (ABS(cvals[k]) > threshold)
             {
-                sum += cvals[k] * cvals[k];
+                sum += cvals[k] * conj(cvals[k]);
             }
             // reset cvals
             cvals[k] = 0.;
diff --git a/src/C-interface/dense/bml_norm_dense_typed.c b/src/C-interface/dense/bml_norm_dense_typed.c
index 462e16e..ad685d5 100644
--- a/src/C-interface/dense/bml_norm_dense_typed.c
+++ b/src/C-interface/dense/bml_norm_dense_typed.c
@@ -77,7 +77,7 @@ double TYPED_FUNC(
     for (int i = A_localRowMin[myRank] * N; i < A_localRowMax[myRank] * N;
          i++)
     {
-        sum += A_matrix[i] * A_matrix[i];
+        sum += A_matrix[i] * conj(A_matrix[i]);
     }
 #endif
 
@@ -135,7 +135,7 @@ double TYPED_FUNC(
   reduction(+:sum)
     for (int i = 0; i < core_size * N; i++)
     {
-        sum += A_matrix[i] * A_matrix[i];
+        sum += A_matrix[i] * conj(A_matrix[i]);
     }
 
 /*
@@ -145,7 +145,7 @@ double TYPED_FUNC(
         for (int j = 0; j < N; j++)
         {
             REAL_T value = A_matrix[ROWMAJOR(i, j, N, N)];
-            sum += value * value;
+            sum += value * conj(value);
         }
     }
 */
@@ -297,7 +297,7 @@ double TYPED_FUNC(
         REAL_T temp = alpha_ * A_matrix[i] + beta_ * B_matrix[i];
 #endif
         if (ABS(temp) > threshold)
-            sum += temp * temp;
+            sum += temp * conj(temp);
     }
 #ifdef BML_USE_MAGMA
     free(A_matrix);
@@ -371,7 +371,7 @@ double TYPED_FUNC(
          i++)
     {
         temp = A_matrix[i] - B_matrix[i];
-        fnorm += temp * temp;
+        fnorm += temp * conj(temp);
     }
 
 #ifdef BML_USE_MPI
diff --git a/src/C-interface/ellblock/bml_norm_ellblock_typed.c b/src/C-interface/ellblock/bml_norm_ellblock_typed.c
index 51b837c..25dede8 100644
--- a/src/C-interface/ellblock/bml_norm_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_norm_ellblock_typed.c
@@ -48,7 +48,7 @@ double TYPED_FUNC(
                 for (int jj = 0; jj < bsize[jb]; jj++)
                 {
                     int index = ROWMAJOR(ii, jj, bsize[ib], bsize[jb]);
-                    sum += xval[index] * xval[index];
+                    sum += xval[index] * conj(xval[index]);
                 }
         }
     }
@@ -352,7 +352,7 @@ double TYPED_FUNC(
                 {
                     int index = ROWMAJOR(ii, jj, bsize[ib], bsize[jb]);
                     temp = A_value[index] - rvalue[index];
-                    fnorm += temp * temp;
+                    fnorm += temp * conj(temp);
                 }
         }
 
@@ -379,7 +379,7 @@ double TYPED_FUNC(
                     {
                         int index = ROWMAJOR(ii, jj, bsize[ib], bsize[jb]);
                         temp = B_value[index];
-                        fnorm += temp * temp;
+                        fnorm += temp * conj(temp);
                     }
             }
         }
diff --git a/src/C-interface/ellpack/bml_norm_ellpack_typed.c b/src/C-interface/ellpack/bml_norm_ellpack_typed.c
index b18ce4b..4ce3606 100644
--- a/src/C-interface/ellpack/bml_norm_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_norm_ellpack_typed.c
@@ -54,7 +54,7 @@ double TYPED_FUNC(
         for (int j = 0; j < A_nnz[i]; j++)
         {
             REAL_T xval = A_value[ROWMAJOR(i, j, N, M)];
-            sum += xval * xval;
+            sum += xval * conj(xval);
         }
     }
 
@@ -97,7 +97,7 @@ double TYPED_FUNC(
             if (A_index[ROWMAJOR(i, j, N, M)] < core_size)
             {
                 REAL_T value = A_value[ROWMAJOR(i, j, N, M)];
-                sum += value * value;
+                sum += value * conj(value);
             }
         }
     }
@@ -326,7 +326,7 @@ double TYPED_FUNC(
         for (int jp = 0; jp < l; jp++)
         {
             if (ABS(y[jjb[jp]]) > threshold)
-                sum += y[jjb[jp]] * y[jjb[jp]];
+                sum += y[jjb[jp]] * conj(y[jjb[jp]]);
 
             /* reset marker array */
             ix[jjb[jp]] = 0;
@@ -419,7 +419,7 @@ double TYPED_FUNC(
             }
 
             temp = A_value[ROWMAJOR(i, j, N, M)] - rvalue;
-            fnorm += temp * temp;
+            fnorm += temp * conj(temp);
         }
 
         for (int j = 0; j < B_nnz[i]; j++)
@@ -438,7 +438,7 @@ double TYPED_FUNC(
             if (rvalue == 0.0)
             {
                 temp = B_value[ROWMAJOR(i, j, N, M)];
-                fnorm += temp * temp;
+                fnorm += temp * conj(temp);
             }
         }
     }
-- 
2.43.0


From 86f7a77e3bc20e1bf747bf02bb49b66ac8570fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:18 +0000
Subject: [PATCH 024/109] fix: norm of a difference races in dense and reads
 past rows in ellpack

---
 src/C-interface/dense/bml_norm_dense_typed.c  |  5 +---
 .../ellpack/bml_norm_ellpack_typed.c          | 29 ++++++++++---------
 2 files changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/C-interface/dense/bml_norm_dense_typed.c b/src/C-interface/dense/bml_norm_dense_typed.c
index ad685d5..2ce76b3 100644
--- a/src/C-interface/dense/bml_norm_dense_typed.c
+++ b/src/C-interface/dense/bml_norm_dense_typed.c
@@ -353,8 +353,6 @@ double TYPED_FUNC(
     int *A_localRowMax = A->domain->localRowMax;
 
     double fnorm = 0.0;
-    REAL_T temp;
-
     int myRank = bml_getMyRank();
 
 #ifdef MKL_GPU
@@ -362,7 +360,6 @@ double TYPED_FUNC(
 #pragma omp target update from(B_matrix[0:N*N])
 #endif
 #pragma omp parallel for                        \
-  shared(temp)                                  \
   shared(N, A_matrix, B_matrix)                 \
   shared(A_localRowMin, A_localRowMax, myRank)  \
   reduction(+:fnorm)
@@ -370,7 +367,7 @@ double TYPED_FUNC(
     for (int i = A_localRowMin[myRank] * N; i < A_localRowMax[myRank] * N;
          i++)
     {
-        temp = A_matrix[i] - B_matrix[i];
+        REAL_T temp = A_matrix[i] - B_matrix[i];
         fnorm += temp * conj(temp);
     }
 
diff --git a/src/C-interface/ellpack/bml_norm_ellpack_typed.c b/src/C-interface/ellpack/bml_norm_ellpack_typed.c
index 4ce3606..ba15a7e 100644
--- a/src/C-interface/ellpack/bml_norm_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_norm_ellpack_typed.c
@@ -373,7 +373,8 @@ double TYPED_FUNC(
     bml_matrix_ellpack_t * B)
 {
     int N = A->N;
-    int M = A->M;
+    int A_M = A->M;
+    int B_M = B->M;
     double fnorm = 0.0;
     REAL_T rvalue;
 
@@ -394,11 +395,11 @@ double TYPED_FUNC(
 
 #ifdef USE_OMP_OFFLOAD
 //#pragma omp target map(tofrom:fnorm)
-#pragma omp target update from(A_nnz[:N], A_index[:N*M], A_value[:N*M])
+#pragma omp target update from(A_nnz[:N], A_index[:N*A_M], A_value[:N*A_M])
 #endif
 #pragma omp parallel for                        \
   private(rvalue, temp)                         \
-  shared(N, M, A_nnz, A_index, A_value)         \
+  shared(N, A_M, B_M, A_nnz, A_index, A_value)         \
   shared(A_localRowMin, A_localRowMax, myRank)  \
   shared(B_nnz, B_index, B_value)               \
   reduction(+:fnorm)
@@ -407,37 +408,37 @@ double TYPED_FUNC(
     {
         for (int j = 0; j < A_nnz[i]; j++)
         {
+            rvalue = 0.0;
             for (int k = 0; k < B_nnz[i]; k++)
             {
-                if (A_index[ROWMAJOR(i, j, N, M)] ==
-                    B_index[ROWMAJOR(i, k, N, M)])
+                if (A_index[ROWMAJOR(i, j, N, A_M)] ==
+                    B_index[ROWMAJOR(i, k, N, B_M)])
                 {
-                    rvalue = B_value[ROWMAJOR(i, k, N, M)];
+                    rvalue = B_value[ROWMAJOR(i, k, N, B_M)];
                     break;
                 }
-                rvalue = 0.0;
             }
 
-            temp = A_value[ROWMAJOR(i, j, N, M)] - rvalue;
+            temp = A_value[ROWMAJOR(i, j, N, A_M)] - rvalue;
             fnorm += temp * conj(temp);
         }
 
         for (int j = 0; j < B_nnz[i]; j++)
         {
+            int found = 0;
             for (int k = 0; k < A_nnz[i]; k++)
             {
-                if (A_index[ROWMAJOR(i, k, N, M)] ==
-                    B_index[ROWMAJOR(i, j, N, M)])
+                if (A_index[ROWMAJOR(i, k, N, A_M)] ==
+                    B_index[ROWMAJOR(i, j, N, B_M)])
                 {
-                    rvalue = A_value[ROWMAJOR(i, k, N, M)];
+                    found = 1;
                     break;
                 }
-                rvalue = 0.0;
             }
 
-            if (rvalue == 0.0)
+            if (!found)
             {
-                temp = B_value[ROWMAJOR(i, j, N, M)];
+                temp = B_value[ROWMAJOR(i, j, N, B_M)];
                 fnorm += temp * conj(temp);
             }
         }
-- 
2.43.0


From 8be37524c8f8c85999b1d534390c96d00fae10e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:18 +0000
Subject: [PATCH 025/109] fix: dense sum of squares of a submatrix covers the
 core columns only

---
 src/C-interface/dense/bml_norm_dense_typed.c | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/C-interface/dense/bml_norm_dense_typed.c b/src/C-interface/dense/bml_norm_dense_typed.c
index 2ce76b3..e9013d4 100644
--- a/src/C-interface/dense/bml_norm_dense_typed.c
+++ b/src/C-interface/dense/bml_norm_dense_typed.c
@@ -133,22 +133,14 @@ double TYPED_FUNC(
 #pragma omp parallel for                        \
   shared(N, A_matrix)                           \
   reduction(+:sum)
-    for (int i = 0; i < core_size * N; i++)
-    {
-        sum += A_matrix[i] * conj(A_matrix[i]);
-    }
-
-/*
     for (int i = 0; i < core_size; i++)
     {
-        //for (int j = 0; j < core_size; j++)
-        for (int j = 0; j < N; j++)
+        for (int j = 0; j < core_size; j++)
         {
             REAL_T value = A_matrix[ROWMAJOR(i, j, N, N)];
             sum += value * conj(value);
         }
     }
-*/
 #endif
 
     return (double) REAL_PART(sum);
-- 
2.43.0


From 3c59cb0856f3046ba7f5d0733842a08ea2a306d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:19 +0000
Subject: [PATCH 026/109] fix: bml_sum_AB for ellblock sums the signed element
 products

---
 .../ellblock/bml_norm_ellblock_typed.c        | 21 +++++++++++--------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/C-interface/ellblock/bml_norm_ellblock_typed.c b/src/C-interface/ellblock/bml_norm_ellblock_typed.c
index 25dede8..42f64fe 100644
--- a/src/C-interface/ellblock/bml_norm_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_norm_ellblock_typed.c
@@ -75,7 +75,8 @@ double TYPED_FUNC(
     double threshold)
 {
     int NB = A->NB;
-    int MB = A->MB;
+    int A_MB = A->MB;
+    int B_MB = B->MB;
 
     int *A_indexb = A->indexb;
     int *A_nnzb = A->nnzb;
@@ -97,7 +98,7 @@ double TYPED_FUNC(
     for (int ib = 0; ib < NB; ib++)
         y_ptr[ib] = calloc(maxbsize2, sizeof(REAL_T));
 
-    int ix[NB], jjb[MB];
+    int ix[NB], jjb[NB];
 
     memset(jjb, 0, NB * sizeof(int));
 
@@ -108,7 +109,7 @@ double TYPED_FUNC(
         memset(ix, 0, NB * sizeof(int));       
         for (int jp = 0; jp < A_nnzb[ib]; jp++)
         {
-            int ind = ROWMAJOR(ib, jp, NB, MB);
+            int ind = ROWMAJOR(ib, jp, NB, A_MB);
             int jb = A_indexb[ind];
 
             ix[jb] = 1;
@@ -125,7 +126,7 @@ double TYPED_FUNC(
 
         for (int jp = 0; jp < B_nnzb[ib]; jp++)
         {
-            int ind = ROWMAJOR(ib, jp, NB, MB);
+            int ind = ROWMAJOR(ib, jp, NB, B_MB);
             int jb = B_indexb[ind];
             if (ix[jb] != 0)
             {
@@ -147,11 +148,13 @@ double TYPED_FUNC(
 
         for (int jp = 0; jp < lb; jp++)
         {
-            double normx = TYPED_FUNC(bml_sum_AB)
-                (y_ptr[jjb[jp]], bsize[ib], bsize[jjb[jp]], bsize[jjb[jp]]);
-
-            if (normx > threshold * threshold)
-                sum += normx;
+            REAL_T *y_value = y_ptr[jjb[jp]];
+            int nelements = bsize[ib] * bsize[jjb[jp]];
+            for (int k = 0; k < nelements; k++)
+            {
+                if (ABS(y_value[k]) > threshold)
+                    sum += y_value[k];
+            }
         }
     }
 
-- 
2.43.0


From 194cf654a5be023ea25737ce8c69124c703202dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:19 +0000
Subject: [PATCH 027/109] fix: bml_sum_squares2 for ellblock takes the row
 stride of each matrix

---
 src/C-interface/ellblock/bml_norm_ellblock_typed.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/C-interface/ellblock/bml_norm_ellblock_typed.c b/src/C-interface/ellblock/bml_norm_ellblock_typed.c
index 42f64fe..fe7ce08 100644
--- a/src/C-interface/ellblock/bml_norm_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_norm_ellblock_typed.c
@@ -183,7 +183,8 @@ double TYPED_FUNC(
     double threshold)
 {
     int NB = A->NB;
-    int MB = A->MB;
+    int A_MB = A->MB;
+    int B_MB = B->MB;
 
     int *A_indexb = A->indexb;
     int *A_nnzb = A->nnzb;
@@ -216,7 +217,7 @@ double TYPED_FUNC(
         int lb = 0;
         for (int jp = 0; jp < A_nnzb[ib]; jp++)
         {
-            int ind = ROWMAJOR(ib, jp, NB, MB);
+            int ind = ROWMAJOR(ib, jp, NB, A_MB);
             int jb = A_indexb[ind];
             int nelements = bsize[ib] * bsize[jb];
 
@@ -236,7 +237,7 @@ double TYPED_FUNC(
 
         for (int jp = 0; jp < B_nnzb[ib]; jp++)
         {
-            int ind = ROWMAJOR(ib, jp, NB, MB);
+            int ind = ROWMAJOR(ib, jp, NB, B_MB);
             int jb = B_indexb[ind];
             int nelements = bsize[ib] * bsize[jb];
             if (ix[jb] == 0)
-- 
2.43.0


From 5f0b625b88cf0ab7659246583ea69869b7e1e018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:19 +0000
Subject: [PATCH 028/109] fix: bml_trace_mult returns the trace of A times B

---
 src/C-interface/dense/bml_trace_dense_typed.c | 12 ++++++---
 .../distributed2d/bml_trace_distributed2d.c   |  7 ++++-
 .../ellpack/bml_trace_ellpack_typed.c         | 26 +++++++++++--------
 3 files changed, 29 insertions(+), 16 deletions(-)

diff --git a/src/C-interface/dense/bml_trace_dense_typed.c b/src/C-interface/dense/bml_trace_dense_typed.c
index 2beddd8..2000a7a 100644
--- a/src/C-interface/dense/bml_trace_dense_typed.c
+++ b/src/C-interface/dense/bml_trace_dense_typed.c
@@ -120,13 +120,13 @@ double TYPED_FUNC(
     {
 #if defined(SINGLE_COMPLEX) || defined(DOUBLE_COMPLEX)
         MAGMA_T ttrace = MAGMA(dotu) (N, (MAGMA_T *) A->matrix + i * A->ld, 1,
-                                      (MAGMA_T *) B->matrix + i * B->ld, 1,
+                                      (MAGMA_T *) B->matrix + i, B->ld,
                                       bml_queue());
         trace +=
             MAGMACOMPLEX(REAL) (ttrace) + I * MAGMACOMPLEX(IMAG) (ttrace);
 #else
         trace += MAGMA(dot) (N, (REAL_T *) A->matrix + i * A->ld, 1,
-                             (REAL_T *) B->matrix + i * B->ld, 1,
+                             (REAL_T *) B->matrix + i, B->ld,
                              bml_queue());
 #endif
     }
@@ -143,9 +143,13 @@ double TYPED_FUNC(
   shared(N, A_matrix, B_matrix)                 \
   shared(rowMin, rowMax, myRank)  \
   reduction(+:trace)
-    for (int i = rowMin * N; i < rowMax * N; i++)
+    for (int i = rowMin; i < rowMax; i++)
     {
-        trace += A_matrix[i] * B_matrix[i];
+        for (int j = 0; j < N; j++)
+        {
+            trace +=
+                A_matrix[ROWMAJOR(i, j, N, N)] * B_matrix[ROWMAJOR(j, i, N, N)];
+        }
     }
 
 #ifdef MKL_GPU
diff --git a/src/C-interface/distributed2d/bml_trace_distributed2d.c b/src/C-interface/distributed2d/bml_trace_distributed2d.c
index 704a71b..a5b82a9 100644
--- a/src/C-interface/distributed2d/bml_trace_distributed2d.c
+++ b/src/C-interface/distributed2d/bml_trace_distributed2d.c
@@ -1,8 +1,11 @@
 #include "../bml_logger.h"
+#include "../bml_norm.h"
 #include "../bml_trace.h"
 #include "../bml_types.h"
 #include "../bml_parallel.h"
+#include "bml_allocate_distributed2d.h"
 #include "bml_trace_distributed2d.h"
+#include "bml_transpose_distributed2d.h"
 #include "bml_types_distributed2d.h"
 
 #include <stdlib.h>
@@ -43,7 +46,9 @@ bml_trace_mult_distributed2d(
     bml_matrix_distributed2d_t * A,
     bml_matrix_distributed2d_t * B)
 {
-    double trace = bml_trace_mult(A->matrix, B->matrix);;
+    bml_matrix_distributed2d_t *BT = bml_transpose_new_distributed2d(B);
+    double trace = bml_sum_AB(A->matrix, BT->matrix, 1., 0.);
+    bml_deallocate_distributed2d(BT);
 
     bml_sumRealReduce(&trace);
 
diff --git a/src/C-interface/ellpack/bml_trace_ellpack_typed.c b/src/C-interface/ellpack/bml_trace_ellpack_typed.c
index 68ce825..ba6322c 100644
--- a/src/C-interface/ellpack/bml_trace_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_trace_ellpack_typed.c
@@ -115,7 +115,6 @@ double TYPED_FUNC(
 
     REAL_T trace = 0.0;
     REAL_T *A_value = (REAL_T *) A->value;
-    REAL_T *rvalue;
 
     int myRank = bml_getMyRank();
     int rowMin = A_localRowMin[myRank];
@@ -130,32 +129,37 @@ double TYPED_FUNC(
     int B_N = B->N;
     int B_M = B->M;
 
-#ifdef USE_OMP_OFFLOAD
     REAL_T *B_value = (REAL_T *) B->value;
     int *B_index = (int *) B->index;
     int *B_nnz = (int *) B->nnz;
+
+#ifdef USE_OMP_OFFLOAD
 #pragma omp target update from(A_nnz[:A_N], A_index[:A_N*A_M], A_value[:A_N*A_M])
 #pragma omp target update from(B_nnz[:B_N], B_index[:B_N*B_M], B_value[:B_N*B_M])
 #endif
 
 #pragma omp parallel for                        \
-  private(rvalue)                               \
-  shared(B, A_N, A_M, A_value, A_index, A_nnz)  \
+  shared(A_N, A_M, A_value, A_index, A_nnz)     \
+  shared(B_N, B_M, B_value, B_index, B_nnz)     \
   shared(A_localRowMin, A_localRowMax, myRank)  \
   reduction(+:trace)
     //for (int i = 0; i < A_N; i++)
     for (int i = rowMin; i < rowMax; i++)
     {
-        rvalue =
-            TYPED_FUNC(bml_getVector_ellpack) (B,
-                                               &A_index[ROWMAJOR
-                                                        (i, 0, A_N, A_M)], i,
-                                               A_nnz[i]);
         for (int j = 0; j < A_nnz[i]; j++)
         {
-            trace += A_value[ROWMAJOR(i, j, A_N, A_M)] * rvalue[j];
+            int k = A_index[ROWMAJOR(i, j, A_N, A_M)];
+            for (int l = 0; l < B_nnz[k]; l++)
+            {
+                if (B_index[ROWMAJOR(k, l, B_N, B_M)] == i)
+                {
+                    trace +=
+                        A_value[ROWMAJOR(i, j, A_N, A_M)] *
+                        B_value[ROWMAJOR(k, l, B_N, B_M)];
+                    break;
+                }
+            }
         }
-        bml_free_memory(rvalue);
     }
 
     return (double) REAL_PART(trace);
-- 
2.43.0


From 4971be93536a13ac4cc7991d994cd1acb70737c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:24 +0000
Subject: [PATCH 029/109] fix: Gershgorin upper bound of matrices whose bounds
 are all negative

---
 src/C-interface/csr/bml_normalize_csr_typed.c                 | 4 ++--
 src/C-interface/dense/bml_normalize_dense_typed.c             | 4 ++--
 .../distributed2d/bml_normalize_distributed2d_typed.c         | 2 +-
 src/C-interface/ellblock/bml_normalize_ellblock_typed.c       | 2 +-
 src/C-interface/ellpack/bml_normalize_ellpack_typed.c         | 4 ++--
 5 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/C-interface/csr/bml_normalize_csr_typed.c b/src/C-interface/csr/bml_normalize_csr_typed.c
index 6db4d27..5096e72 100644
--- a/src/C-interface/csr/bml_normalize_csr_typed.c
+++ b/src/C-interface/csr/bml_normalize_csr_typed.c
@@ -86,7 +86,7 @@ void *TYPED_FUNC(
     REAL_T radius, absham, dvalue;
 
     double emin = DBL_MAX;
-    double emax = DBL_MIN;
+    double emax = -DBL_MAX;
 
     double *eval = bml_allocate_memory(sizeof(double) * 2);
 
@@ -168,7 +168,7 @@ void *TYPED_FUNC(
     REAL_T radius, absham, dvalue;
 
     double emin = DBL_MAX;
-    double emax = DBL_MIN;
+    double emax = -DBL_MAX;
 
     double *eval = bml_allocate_memory(sizeof(double) * 2);
 
diff --git a/src/C-interface/dense/bml_normalize_dense_typed.c b/src/C-interface/dense/bml_normalize_dense_typed.c
index 289f486..e604c84 100644
--- a/src/C-interface/dense/bml_normalize_dense_typed.c
+++ b/src/C-interface/dense/bml_normalize_dense_typed.c
@@ -108,7 +108,7 @@ void *TYPED_FUNC(
     int myRank = bml_getMyRank();
 
     double emin = DBL_MAX;
-    double emax = DBL_MIN;
+    double emax = -DBL_MAX;
 
     double *eval = bml_allocate_memory(sizeof(double) * 2);
 #ifdef BML_USE_MAGMA
@@ -199,7 +199,7 @@ void *TYPED_FUNC(
     REAL_T *A_matrix = (REAL_T *) A->matrix;
 
     double emin = DBL_MAX;
-    double emax = DBL_MIN;
+    double emax = -DBL_MAX;
 
     double *eval = bml_allocate_memory(sizeof(double) * 2);
 
diff --git a/src/C-interface/distributed2d/bml_normalize_distributed2d_typed.c b/src/C-interface/distributed2d/bml_normalize_distributed2d_typed.c
index 31d3ab2..e37d487 100644
--- a/src/C-interface/distributed2d/bml_normalize_distributed2d_typed.c
+++ b/src/C-interface/distributed2d/bml_normalize_distributed2d_typed.c
@@ -41,7 +41,7 @@ void *TYPED_FUNC(
     free(offdiag_sum);
 
     double emin = DBL_MAX;
-    double emax = DBL_MIN;
+    double emax = -DBL_MAX;
 
     if (A->myprow == A->mypcol)
     {
diff --git a/src/C-interface/ellblock/bml_normalize_ellblock_typed.c b/src/C-interface/ellblock/bml_normalize_ellblock_typed.c
index 4f957f8..a181d33 100644
--- a/src/C-interface/ellblock/bml_normalize_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_normalize_ellblock_typed.c
@@ -100,7 +100,7 @@ void *TYPED_FUNC(
     bml_matrix_ellblock_t * A)
 {
     double emin = DBL_MAX;
-    double emax = DBL_MIN;
+    double emax = -DBL_MAX;
 
     double *eval = bml_allocate_memory(sizeof(double) * 2);
 
diff --git a/src/C-interface/ellpack/bml_normalize_ellpack_typed.c b/src/C-interface/ellpack/bml_normalize_ellpack_typed.c
index 0cac81b..4ee1c3b 100644
--- a/src/C-interface/ellpack/bml_normalize_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_normalize_ellpack_typed.c
@@ -86,7 +86,7 @@ void *TYPED_FUNC(
     REAL_T radius, absham, dvalue;
 
     double emin = DBL_MAX;
-    double emax = DBL_MIN;
+    double emax = -DBL_MAX;
 
     double *eval = bml_allocate_memory(sizeof(double) * 2);
 
@@ -191,7 +191,7 @@ void *TYPED_FUNC(
     REAL_T radius, absham, dvalue;
 
     double emin = DBL_MAX;
-    double emax = DBL_MIN;
+    double emax = -DBL_MAX;
 
     double *eval = bml_allocate_memory(sizeof(double) * 2);
 
-- 
2.43.0


From cb5a7bfeb6b651c4e95237b80ab5c13370377365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:24 +0000
Subject: [PATCH 030/109] fix: dense Gershgorin radius is summed without the
 diagonal instead of cancelling it

---
 src/C-interface/dense/bml_normalize_dense_typed.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/C-interface/dense/bml_normalize_dense_typed.c b/src/C-interface/dense/bml_normalize_dense_typed.c
index e604c84..21a9cca 100644
--- a/src/C-interface/dense/bml_normalize_dense_typed.c
+++ b/src/C-interface/dense/bml_normalize_dense_typed.c
@@ -139,14 +139,14 @@ void *TYPED_FUNC(
 
         for (int j = 0; j < N; j++)
         {
+            if (j == i)
+                continue;
             absham = ABS(A_matrix[ROWMAJOR(i, j, N, N)]);
             radius += (double) absham;
         }
 
         dvalue = A_matrix[ROWMAJOR(i, i, N, N)];
 
-        radius -= ABS(dvalue);
-
 /*
         emax =
             (emax >
@@ -218,14 +218,14 @@ void *TYPED_FUNC(
 
         for (int j = 0; j < N; j++)
         {
+            if (j == i)
+                continue;
             absham = ABS(A_matrix[ROWMAJOR(i, j, N, N)]);
             radius += (double) absham;
         }
 
         dvalue = A_matrix[ROWMAJOR(i, i, N, N)];
 
-        radius -= ABS(dvalue);
-
         if (REAL_PART(dvalue + radius) > emax)
             emax = REAL_PART(dvalue + radius);
         if (REAL_PART(dvalue - radius) < emin)
-- 
2.43.0


From 2396a9dbd48bdabc63d9a8e9732e26672d4edaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:51 +0000
Subject: [PATCH 031/109] fix: bml_assign_submatrix for ellpack and csr
 replaces the block, extraction checks the capacity and frees its scratch

---
 src/C-interface/csr/bml_submatrix_csr_typed.c | 17 ++++++++++++++
 .../ellpack/bml_submatrix_ellpack_typed.c     | 23 +++++++++++++++++++
 2 files changed, 40 insertions(+)

diff --git a/src/C-interface/csr/bml_submatrix_csr_typed.c b/src/C-interface/csr/bml_submatrix_csr_typed.c
index 23f994c..61a07ac 100644
--- a/src/C-interface/csr/bml_submatrix_csr_typed.c
+++ b/src/C-interface/csr/bml_submatrix_csr_typed.c
@@ -56,6 +56,8 @@ bml_matrix_csr_t
 
         TYPED_FUNC(bml_set_sparse_row_csr) (B, i - irow, count, newcols,
                                             newvals, 0.);
+        bml_free_memory(newcols);
+        bml_free_memory(newvals);
     }
 
     return B;
@@ -88,6 +90,21 @@ void TYPED_FUNC(
         }
         REAL_T *vals = TYPED_FUNC(csr_get_column_entries) (B->data_[i]);
 
+        // remove the elements of A the block replaces
+        csr_sparse_row_t *arow = A->data_[i + irow];
+        REAL_T *avals = (REAL_T *) arow->vals_;
+        int kept = 0;
+        for (int j = 0; j < arow->NNZ_; j++)
+        {
+            if (arow->cols_[j] < icol || arow->cols_[j] >= icol + B_N)
+            {
+                arow->cols_[kept] = arow->cols_[j];
+                avals[kept] = avals[j];
+                kept++;
+            }
+        }
+        arow->NNZ_ = kept;
+
         for (int j = 0; j < nz; j++)
         {
             TYPED_FUNC(csr_set_row_element_new) (A->data_[i + irow],
diff --git a/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c b/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
index 7a96319..c159c9b 100644
--- a/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
@@ -588,6 +588,10 @@ bml_matrix_ellpack_t
             if (j >= icol && j < icol + B_N)
             {
                 int iB = i - irow;
+                if (B_nnz[iB] >= B_M)
+                {
+                    LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+                }
                 B_index[ROWMAJOR(i - irow, B_nnz[iB], B_N, B_M)] = j - icol;
                 B_value[ROWMAJOR(i - irow, B_nnz[iB], B_N, B_M)] =
                     A_value[ROWMAJOR(i, jp, A_N, A_M)];
@@ -628,6 +632,25 @@ void TYPED_FUNC(
     // loop over rows of B
     for (int i = 0; i < B_N; i++)
     {
+        // remove the elements of A the block replaces
+        int kept = 0;
+        for (int jp = 0; jp < A_nnz[i + irow]; jp++)
+        {
+            int jA = A_index[ROWMAJOR(i + irow, jp, A_N, A_M)];
+            if (jA < icol || jA >= icol + B_N)
+            {
+                A_index[ROWMAJOR(i + irow, kept, A_N, A_M)] = jA;
+                A_value[ROWMAJOR(i + irow, kept, A_N, A_M)] =
+                    A_value[ROWMAJOR(i + irow, jp, A_N, A_M)];
+                kept++;
+            }
+        }
+        A_nnz[i + irow] = kept;
+
+        if (kept + B_nnz[i] > A_M)
+        {
+            LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+        }
         for (int jp = 0; jp < B_nnz[i]; jp++)
         {
             int jB = B_index[ROWMAJOR(i, jp, B_N, B_M)];
-- 
2.43.0


From ad963ae43f1597398a5ae2a832088e407f9819c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:38 +0000
Subject: [PATCH 032/109] fix: bml_add for ellblock takes the row stride of
 each matrix

---
 src/C-interface/ellblock/bml_add_ellblock_typed.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/C-interface/ellblock/bml_add_ellblock_typed.c b/src/C-interface/ellblock/bml_add_ellblock_typed.c
index 739503a..d84154d 100644
--- a/src/C-interface/ellblock/bml_add_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_add_ellblock_typed.c
@@ -46,6 +46,7 @@ void TYPED_FUNC(
 
     int NB = A->NB;
     int MB = A->MB;
+    int B_MB = B->MB;
 
     int *A_nnzb = A->nnzb;
     int *A_indexb = A->indexb;
@@ -141,7 +142,7 @@ void TYPED_FUNC(
         if (beta > (double) 0.0 || beta < (double) 0.0)
             for (int jp = 0; jp < B_nnzb[ib]; jp++)
             {
-                int ind = ROWMAJOR(ib, jp, NB, MB);
+                int ind = ROWMAJOR(ib, jp, NB, B_MB);
                 int jb = B_indexb[ind];
                 REAL_T *x = x_ptr[jb];
                 int nelements = bsize[ib] * bsize[jb];
@@ -220,6 +221,7 @@ double TYPED_FUNC(
 {
     int NB = A->NB;
     int MB = A->MB;
+    int B_MB = B->MB;
 
     int ix[NB], jx[NB];
 
@@ -288,7 +290,7 @@ double TYPED_FUNC(
 
         for (int jp = 0; jp < B_nnzb[ib]; jp++)
         {
-            int ind = ROWMAJOR(ib, jp, NB, MB);
+            int ind = ROWMAJOR(ib, jp, NB, B_MB);
             int jb = B_indexb[ind];
             if (ix[jb] == 0)
             {
-- 
2.43.0


From 8ce5143bbac7b5063f76975c062ff2c23886d795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:58 +0000
Subject: [PATCH 033/109] fix: bml_trace_mult for ellblock takes the row stride
 of each matrix

---
 src/C-interface/ellblock/bml_trace_ellblock_typed.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/C-interface/ellblock/bml_trace_ellblock_typed.c b/src/C-interface/ellblock/bml_trace_ellblock_typed.c
index 9383a12..d68379c 100644
--- a/src/C-interface/ellblock/bml_trace_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_trace_ellblock_typed.c
@@ -85,7 +85,7 @@ double TYPED_FUNC(
     REAL_T **A_ptr_value = (REAL_T **) A->ptr_value;
     REAL_T **B_ptr_value = (REAL_T **) B->ptr_value;
 
-    if (NB != B->NB || MB != B->MB)
+    if (NB != B->NB)
     {
         LOG_ERROR
             ("bml_trace_mult_ellblock: Matrices A and B have different number of blocks.");
@@ -101,7 +101,7 @@ double TYPED_FUNC(
 
             for (int kp = 0; kp < B_nnzb[jb]; kp++)
             {
-                int indB = ROWMAJOR(jb, kp, NB, MB);
+                int indB = ROWMAJOR(jb, kp, NB, B->MB);
                 int kb = B_indexb[indB];
                 if (kb == ib)
                 {
-- 
2.43.0


From 6c733fbfa438bcb4004465e3c6135b8f2a7f55a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:58 +0000
Subject: [PATCH 034/109] fix: bml_extract_submatrix and bml_assign_submatrix
 for ellblock follow the blocks of the matrix

---
 .../ellblock/bml_submatrix_ellblock_typed.c   | 85 ++++++++++++++-----
 1 file changed, 64 insertions(+), 21 deletions(-)

diff --git a/src/C-interface/ellblock/bml_submatrix_ellblock_typed.c b/src/C-interface/ellblock/bml_submatrix_ellblock_typed.c
index 9b3fe7e..fd75355 100644
--- a/src/C-interface/ellblock/bml_submatrix_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_submatrix_ellblock_typed.c
@@ -34,43 +34,58 @@ bml_matrix_ellblock_t
     int *A_nnzb = A->nnzb;
     REAL_T **A_ptr_value = (REAL_T **) A->ptr_value;
 
-    bml_matrix_ellblock_t *B;
-    B = TYPED_FUNC(bml_zero_matrix_ellblock) (B_N, B_M, A->distribution_mode);
-
-    int *B_indexb = B->indexb;
-    int *B_nnzb = B->nnzb;
-    REAL_T **B_ptr_value = (REAL_T **) B->ptr_value;
-
-    int B_NB = B->NB;
-    int B_MB = B->MB;
-
     int *bsize = A->bsize;
     int count = 0;
     int irowb = 0;
-    while (count < irow)
+    while (count < irow && irowb < A_NB)
     {
         count += bsize[irowb];
         irowb++;
     }
-    assert(count == irow);
+    if (count != irow)
+    {
+        LOG_ERROR("submatrix does not match the blocks of the matrix\n");
+    }
 
     count = 0;
     int icolb = 0;
-    while (count < icol)
+    while (count < icol && icolb < A_NB)
     {
         count += bsize[icolb];
         icolb++;
     }
-    assert(count == icol);
+    if (count != icol)
+    {
+        LOG_ERROR("submatrix does not match the blocks of the matrix\n");
+    }
 
     //count number of block rows/cols in B
     count = 0;
     int nb = 0;
-    while (count < B_N)
+    while (count < B_N && irowb + nb < A_NB && icolb + nb < A_NB)
     {
-        count += bsize[nb];
+        // B has the same row and column blocks
+        if (bsize[irowb + nb] != bsize[icolb + nb])
+            break;
+        count += bsize[irowb + nb];
         nb++;
     }
+    if (count != B_N)
+    {
+        LOG_ERROR("submatrix does not match the blocks of the matrix\n");
+    }
+
+    bml_matrix_ellblock_t *B =
+        TYPED_FUNC(bml_block_matrix_ellblock) (nb, nb, MIN(B_M, B_N),
+                                               bsize + irowb,
+                                               A->distribution_mode);
+
+    int *B_indexb = B->indexb;
+    int *B_nnzb = B->nnzb;
+    REAL_T **B_ptr_value = (REAL_T **) B->ptr_value;
+
+    int B_NB = B->NB;
+    int B_MB = B->MB;
 
     // loop over subset of block rows of A
     for (int ib = irowb; ib < irowb + nb; ib++)
@@ -133,29 +148,57 @@ void TYPED_FUNC(
     int *bsize = A->bsize;
     int count = 0;
     int irowb = 0;
-    while (count < irow)
+    while (count < irow && irowb < A_NB)
     {
         count += bsize[irowb];
         irowb++;
     }
-    assert(count == irow);
+    if (count != irow)
+    {
+        LOG_ERROR("submatrix does not match the blocks of the matrix\n");
+    }
 
     count = 0;
     int icolb = 0;
-    while (count < icol)
+    while (count < icol && icolb < A_NB)
     {
         count += bsize[icolb];
         icolb++;
     }
-    assert(count == icol);
+    if (count != icol)
+    {
+        LOG_ERROR("submatrix does not match the blocks of the matrix\n");
+    }
+
+    // the blocks of B have to match the blocks of A they replace
+    for (int ib = 0; ib < B_NB; ib++)
+    {
+        if (ib + irowb >= A_NB || ib + icolb >= A_NB
+            || bsize[ib + irowb] != B->bsize[ib]
+            || bsize[ib + icolb] != B->bsize[ib])
+        {
+            LOG_ERROR("submatrix does not match the blocks of the matrix\n");
+        }
+    }
 
     // loop over block rows of B
     for (int ib = 0; ib < B_NB; ib++)
     {
+        // remove the blocks of A the submatrix replaces
+        for (int jp = A_nnzb[ib + irowb] - 1; jp >= 0; jp--)
+        {
+            int jb = A_indexb[ROWMAJOR(ib + irowb, jp, A_NB, A_MB)];
+            if (jb >= icolb && jb < icolb + B_NB)
+                TYPED_FUNC(bml_free_block_ellblock) (A, ib + irowb, jb);
+        }
+        if (A_nnzb[ib + irowb] + B_nnzb[ib] > A_MB)
+        {
+            LOG_ERROR("Number of non-zeroes per row > MB, Increase MB\n");
+        }
         for (int jp = 0; jp < B_nnzb[ib]; jp++)
         {
             int jb = B_indexb[ROWMAJOR(ib, jp, B_NB, B_MB)];
-            int nelements = bsize[ib] * bsize[jb];
+            int nelements = B->bsize[ib] * B->bsize[jb];
             int indA = ROWMAJOR(ib + irowb, A_nnzb[ib + irowb], A_NB, A_MB);
             int indB = ROWMAJOR(ib, jp, B_NB, B_MB);
             A_ptr_value[indA] =
-- 
2.43.0


From e0419ff8cb91955c161242b7ac240b55e675e688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:58 +0000
Subject: [PATCH 035/109] fix: default ellblock block sizes follow the size and
 capacity of each matrix

---
 .../ellblock/bml_allocate_ellblock.c          | 72 +++++++++++++------
 .../ellblock/bml_allocate_ellblock_typed.c    |  6 +-
 2 files changed, 54 insertions(+), 24 deletions(-)

diff --git a/src/C-interface/ellblock/bml_allocate_ellblock.c b/src/C-interface/ellblock/bml_allocate_ellblock.c
index 5389619..266b27d 100644
--- a/src/C-interface/ellblock/bml_allocate_ellblock.c
+++ b/src/C-interface/ellblock/bml_allocate_ellblock.c
@@ -8,14 +8,35 @@
 
 #include <assert.h>
 #include <stdio.h>
+#include <string.h>
 
 /*
  * variables visible only in that file
  */
 static int *s_default_bsize = NULL;
 static int s_default_block_dim = 4;
+static int s_default_N = 0;     // matrix size the block sizes add up to
 static int s_nb = 0;
 static int s_mb = 0;
+static int *s_user_bsize = NULL;        // block sizes set by the user
+static int s_user_nb = 0;
+static int s_user_mb = 0;
+static int s_user_N = 0;
+
+static void
+set_default_block_sizes(
+    const int *bsize,
+    int nb,
+    int mb,
+    int N)
+{
+    bml_free_memory(s_default_bsize);
+    s_default_bsize = bml_noinit_allocate_memory(nb * sizeof(int));
+    memcpy(s_default_bsize, bsize, nb * sizeof(int));
+    s_nb = nb;
+    s_mb = mb;
+    s_default_N = N;
+}
 
 /*
  *  * function to set values of static variables visible in that file only
@@ -36,13 +57,16 @@ bml_set_block_sizes(
      */
     assert(s_nb == 0);
 
-    s_nb = nb;
-    s_mb = mb;
-    s_default_bsize = malloc(nb * sizeof(int));
+    s_user_nb = nb;
+    s_user_mb = mb;
+    s_user_N = 0;
+    s_user_bsize = bml_noinit_allocate_memory(nb * sizeof(int));
     for (int ib = 0; ib < nb; ib++)
     {
-        s_default_bsize[ib] = bsize[ib];
+        s_user_bsize[ib] = bsize[ib];
+        s_user_N += bsize[ib];
     }
+    set_default_block_sizes(s_user_bsize, s_user_nb, s_user_mb, s_user_N);
 }
 
 int *
@@ -50,32 +74,38 @@ bml_get_block_sizes(
     int N,
     int M)
 {
-    if (s_default_bsize == NULL)
+    // block sizes set by the user apply to matrices of their size
+    if (s_user_bsize != NULL && s_user_N == N)
+    {
+        if (s_default_N != N)
+            set_default_block_sizes(s_user_bsize, s_user_nb, s_user_mb, N);
+    }
+    else
     {
         assert(M > 0);
 
-        s_nb = N / s_default_block_dim;
-        if (s_nb * s_default_block_dim < N)
-            s_nb++;
-        printf("s_nb = %d\n", s_nb);
+        int nb = N / s_default_block_dim;
+        if (nb * s_default_block_dim < N)
+            nb++;
 
-        s_mb = M / s_default_block_dim;
-        if (s_mb * s_default_block_dim < M)
-            s_mb++;
-        if (s_mb < 4)
-            s_mb = 4;
+        int mb = M / s_default_block_dim;
+        if (mb * s_default_block_dim < M)
+            mb++;
+        if (mb < 4)
+            mb = 4;
         // the number of blocks/row cannot exceed the number
         // of row blocks
-        if (s_mb > s_nb)
-            s_mb = s_nb;
-        printf("s_mb = %d\n", s_mb);
+        if (mb > nb)
+            mb = nb;
 
-        s_default_bsize = bml_noinit_allocate_memory(s_nb * sizeof(int));
-        for (int ib = 0; ib < s_nb - 1; ib++)
+        int *bsize = bml_noinit_allocate_memory(nb * sizeof(int));
+        for (int ib = 0; ib < nb - 1; ib++)
         {
-            s_default_bsize[ib] = s_default_block_dim;
+            bsize[ib] = s_default_block_dim;
         }
-        s_default_bsize[s_nb - 1] = N - s_default_block_dim * (s_nb - 1);
+        bsize[nb - 1] = N - s_default_block_dim * (nb - 1);
+        set_default_block_sizes(bsize, nb, mb, N);
+        bml_free_memory(bsize);
     }
     return s_default_bsize;
 }
diff --git a/src/C-interface/ellblock/bml_allocate_ellblock_typed.c b/src/C-interface/ellblock/bml_allocate_ellblock_typed.c
index 1fb2ccd..26f4b09 100644
--- a/src/C-interface/ellblock/bml_allocate_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_allocate_ellblock_typed.c
@@ -181,10 +181,10 @@ bml_matrix_ellblock_t
     int N = matrix_dimension.N_rows;
     int M = matrix_dimension.N_nz_max;
 
+    int *bsize = bml_get_block_sizes(N, M);
+
     return TYPED_FUNC(bml_block_matrix_ellblock) (bml_get_nb(), bml_get_mb(),
-                                                  M, bml_get_block_sizes(N,
-                                                                         0),
-                                                  distrib_mode);
+                                                  M, bsize, distrib_mode);
 }
 
 /** Allocate the zero matrix.
-- 
2.43.0


From 246ddca69765e132d5faa0644af311fd5e6478df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:02 +0000
Subject: [PATCH 036/109] fix: importing a dense matrix refuses rows that
 exceed the capacity

---
 src/C-interface/ellblock/bml_import_ellblock_typed.c | 5 +++++
 src/C-interface/ellpack/bml_import_ellpack_typed.c   | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/src/C-interface/ellblock/bml_import_ellblock_typed.c b/src/C-interface/ellblock/bml_import_ellblock_typed.c
index e75e5d5..4f63d71 100644
--- a/src/C-interface/ellblock/bml_import_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_import_ellblock_typed.c
@@ -84,6 +84,11 @@ bml_matrix_ellblock_t
                 (A_ij, A_bsize[ib], A_bsize[jb], A_bsize[jb]);
             if (norminf > threshold)
             {
+                if (A_nnzb[ib] >= MB)
+                {
+                    LOG_ERROR
+                        ("Number of non-zeroes per row > MB, Increase MB\n");
+                }
                 int ind = ROWMAJOR(ib, A_nnzb[ib], NB, MB);
                 A_bml->ptr_value[ind] =
                     TYPED_FUNC(bml_allocate_block_ellblock) (A_bml, ib,
diff --git a/src/C-interface/ellpack/bml_import_ellpack_typed.c b/src/C-interface/ellpack/bml_import_ellpack_typed.c
index dc811d5..90e31b5 100644
--- a/src/C-interface/ellpack/bml_import_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_import_ellpack_typed.c
@@ -62,6 +62,10 @@ bml_matrix_ellpack_t
             }
             if (is_above_threshold(A_ij, threshold))
             {
+                if (A_nnz[i] >= M)
+                {
+                    LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+                }
                 A_value[ROWMAJOR(i, A_nnz[i], N, M)] = A_ij;
                 A_index[ROWMAJOR(i, A_nnz[i], N, M)] = j;
                 A_nnz[i]++;
-- 
2.43.0


From db568152c34ade9b7da8f59d2313c3542dff8603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:02 +0000
Subject: [PATCH 037/109] fix: bml_copy for ellpack follows the row stride of
 the destination

---
 src/C-interface/ellpack/bml_copy_ellpack_typed.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/C-interface/ellpack/bml_copy_ellpack_typed.c b/src/C-interface/ellpack/bml_copy_ellpack_typed.c
index 2c378ec..c820cca 100644
--- a/src/C-interface/ellpack/bml_copy_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_copy_ellpack_typed.c
@@ -92,6 +92,7 @@ void TYPED_FUNC(
 
     int N = A->N;
     int M = A->M;
+    int B_M = B->M;
 
     int *A_index = A->index;
     int *A_nnz = A->nnz;
@@ -132,10 +133,10 @@ void TYPED_FUNC(
 #pragma omp parallel for
     for (int i = 0; i < N; i++)
     {
-        memcpy(&B_index[ROWMAJOR(i, 0, N, M)], &A_index[ROWMAJOR(i, 0, N, M)],
-               M * sizeof(int));
-        memcpy(&B_value[ROWMAJOR(i, 0, N, M)], &A_value[ROWMAJOR(i, 0, N, M)],
-               M * sizeof(REAL_T));
+        memcpy(&B_index[ROWMAJOR(i, 0, N, B_M)],
+               &A_index[ROWMAJOR(i, 0, N, M)], A_nnz[i] * sizeof(int));
+        memcpy(&B_value[ROWMAJOR(i, 0, N, B_M)],
+               &A_value[ROWMAJOR(i, 0, N, M)], A_nnz[i] * sizeof(REAL_T));
         //      A_nnz[perm[i]] = B_nnz[i];
     }
 #endif
-- 
2.43.0


From f2468ac223cf12e466d27d03628b17ac4543299a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:02 +0000
Subject: [PATCH 038/109] fix: bml_copy for csr grows the rows of the
 destination

---
 src/C-interface/csr/bml_copy_csr_typed.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/C-interface/csr/bml_copy_csr_typed.c b/src/C-interface/csr/bml_copy_csr_typed.c
index cc08a44..2a3da40 100644
--- a/src/C-interface/csr/bml_copy_csr_typed.c
+++ b/src/C-interface/csr/bml_copy_csr_typed.c
@@ -81,8 +81,7 @@ bml_matrix_csr_t *TYPED_FUNC(
  *  \ingroup copy_group
  *
  *  \param arow The row to be copied
- *  \param brow Copy of arow. Assumes brow is already allocated
- *              and has the same size and number of entries as A.
+ *  \param brow Copy of arow. Assumes brow is already allocated.
  */
 void TYPED_FUNC(
     csr_copy_row) (
@@ -90,10 +89,13 @@ void TYPED_FUNC(
     csr_sparse_row_t * brow)
 {
     const int NNZ = arow->NNZ_;
-    // Check size for data
+    // reallocate memory if needed
     if (brow->alloc_size_ < NNZ)
     {
-        LOG_ERROR("CSR row size mismatch\n");
+        brow->alloc_size_ = NNZ;
+        brow->cols_ = bml_reallocate_memory(brow->cols_, sizeof(int) * NNZ);
+        brow->vals_ =
+            bml_reallocate_memory(brow->vals_, sizeof(REAL_T) * NNZ);
     }
 
     memcpy(brow->cols_, arow->cols_, NNZ * sizeof(int));
-- 
2.43.0


From 5adafec734ecffb72f5f7d89448b783f89be273a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:02 +0000
Subject: [PATCH 039/109] fix: bml_copy_new for ellblock accepts blocks of ten
 and more

---
 src/C-interface/ellblock/bml_copy_ellblock_typed.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/C-interface/ellblock/bml_copy_ellblock_typed.c b/src/C-interface/ellblock/bml_copy_ellblock_typed.c
index ab94c46..b3d8b20 100644
--- a/src/C-interface/ellblock/bml_copy_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_copy_ellblock_typed.c
@@ -43,7 +43,6 @@ bml_matrix_ellblock_t
     for (int ib = 0; ib < NB; ib++)
     {
         assert(B->bsize[ib] > 0);
-        assert(B->bsize[ib] < 10);
         for (int jp = 0; jp < A->nnzb[ib]; jp++)
         {
             int ind = ROWMAJOR(ib, jp, NB, MB);
-- 
2.43.0


From 3dc8c3d9a54ae0ce2cd92ae6c5726e8be0022550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:53 +0000
Subject: [PATCH 040/109] fix: bml_convert converts the elements when the
 precision changes

---
 src/C-interface/bml_convert.c | 84 +++++++++++++++++++++++++++++++++++
 1 file changed, 84 insertions(+)

diff --git a/src/C-interface/bml_convert.c b/src/C-interface/bml_convert.c
index a6091a2..a9c79cc 100644
--- a/src/C-interface/bml_convert.c
+++ b/src/C-interface/bml_convert.c
@@ -1,4 +1,8 @@
+#include "bml_allocate.h"
 #include "bml_convert.h"
+#include "bml_export.h"
+#include "bml_import.h"
+#include "bml_introspection.h"
 #include "bml_logger.h"
 #include "dense/bml_convert_dense.h"
 #include "ellpack/bml_convert_ellpack.h"
@@ -8,8 +12,83 @@
 #include "distributed2d/bml_convert_distributed2d.h"
 #endif
 
+#include <complex.h>
 #include <stdlib.h>
 
+/** Convert a bml matrix to another type and another precision.
+ *
+ * \ingroup convert_group_C
+ *
+ * \param A The input matrix
+ * \param matrix_type The type of the output matrix
+ * \param matrix_precision The precision of the output matrix
+ * \param M The number of non-zeroes per row
+ * \param distrib_mode The distribution mode
+ * \return The converted matrix
+ */
+static bml_matrix_t *
+convert_precision(
+    bml_matrix_t * A,
+    bml_matrix_type_t matrix_type,
+    bml_matrix_precision_t matrix_precision,
+    int M,
+    bml_distribution_mode_t distrib_mode)
+{
+    int N = bml_get_N(A);
+    bml_matrix_precision_t A_precision = bml_get_precision(A);
+    void *A_dense = bml_export_to_dense(A, dense_row_major);
+    void *B_dense = bml_allocate_memory(sizeof(double complex) * N * N);
+
+    for (int i = 0; i < N * N; i++)
+    {
+        double complex value = 0.0;
+        switch (A_precision)
+        {
+            case single_real:
+                value = ((float *) A_dense)[i];
+                break;
+            case double_real:
+                value = ((double *) A_dense)[i];
+                break;
+            case single_complex:
+                value = ((float complex *) A_dense)[i];
+                break;
+            case double_complex:
+                value = ((double complex *) A_dense)[i];
+                break;
+            default:
+                LOG_ERROR("unknown precision\n");
+                break;
+        }
+        switch (matrix_precision)
+        {
+            case single_real:
+                ((float *) B_dense)[i] = creal(value);
+                break;
+            case double_real:
+                ((double *) B_dense)[i] = creal(value);
+                break;
+            case single_complex:
+                ((float complex *) B_dense)[i] = value;
+                break;
+            case double_complex:
+                ((double complex *) B_dense)[i] = value;
+                break;
+            default:
+                LOG_ERROR("unknown precision\n");
+                break;
+        }
+    }
+
+    bml_matrix_t *B =
+        bml_import_from_dense(matrix_type, matrix_precision, dense_row_major,
+                              N, M, B_dense, 0.0, distrib_mode);
+    bml_free_memory(A_dense);
+    bml_free_memory(B_dense);
+
+    return B;
+}
+
 /** Convert a bml matrix to another type.
  *
  * \f$ A \rightarrow B \f$
@@ -30,6 +109,11 @@ bml_convert(
         return bml_convert_distributed2d(A, matrix_type, matrix_precision, M);
     else
 #endif
+    if (bml_get_type(A) != type_uninitialized
+        && bml_get_precision(A) != matrix_precision)
+        return convert_precision(A, matrix_type, matrix_precision, M,
+                                 distrib_mode);
+    else
         switch (matrix_type)
         {
             case dense:
-- 
2.43.0


From e2c0085b99522b024d175152f6401aa367ff98c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:27 +0000
Subject: [PATCH 041/109] fix: bml_copy refuses an ellpack destination that is
 too narrow

---
 src/C-interface/ellpack/bml_copy_ellpack_typed.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/C-interface/ellpack/bml_copy_ellpack_typed.c b/src/C-interface/ellpack/bml_copy_ellpack_typed.c
index c820cca..1f9ea8a 100644
--- a/src/C-interface/ellpack/bml_copy_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_copy_ellpack_typed.c
@@ -2,6 +2,7 @@
 #include "../../typed.h"
 #include "../bml_allocate.h"
 #include "../bml_copy.h"
+#include "../bml_logger.h"
 #include "../bml_types.h"
 #include "bml_allocate_ellpack.h"
 #include "bml_copy_ellpack.h"
@@ -127,6 +128,14 @@ void TYPED_FUNC(
       B_value[i] = A_value[i];
     }
 #else
+    for (int i = 0; i < N; i++)
+    {
+        if (A_nnz[i] > B_M)
+        {
+            LOG_ERROR("row %d has %d elements, destination can hold %d\n",
+                      i, A_nnz[i], B_M);
+        }
+    }
     // memcpy(B->index, A->index, sizeof(int) * A->N * A->M);
     memcpy(B->nnz, A->nnz, sizeof(int) * A->N);
     //    memcpy(B->value, A->value, sizeof(REAL_T) * A->N * A->M);
-- 
2.43.0


From 0c7764ecc8c8376e6fff3610ff6787996cd57d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:01 +0000
Subject: [PATCH 042/109] fix: bml_convert to ellpack stores only the non-zero
 elements

---
 src/C-interface/ellpack/bml_convert_ellpack_typed.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/C-interface/ellpack/bml_convert_ellpack_typed.c b/src/C-interface/ellpack/bml_convert_ellpack_typed.c
index 2cf5062..c1b5fda 100644
--- a/src/C-interface/ellpack/bml_convert_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_convert_ellpack_typed.c
@@ -1,5 +1,6 @@
 #include "../../macros.h"
 #include "../../typed.h"
+#include "../bml_allocate.h"
 #include "../bml_getters.h"
 #include "../bml_introspection.h"
 #include "../bml_logger.h"
@@ -28,10 +29,9 @@ bml_matrix_ellpack_t *TYPED_FUNC(
 
     for (int i = 0; i < N; i++)
     {
-        for (int j = 0; j < N; j++)
-        {
-            bml_set_element(B, i, j, bml_get_element(A, i, j));
-        }
+        REAL_T *row = bml_get_row(A, i);
+        bml_set_row(B, i, row, 0.0);
+        bml_free_memory(row);
     }
 
     return B;
-- 
2.43.0


From 9c976da1019681f5115b9d737a0159fd7021ac0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:17 +0000
Subject: [PATCH 043/109] fix: bml_adjacency counts the off-diagonal elements
 of each row

---
 .../ellpack/bml_submatrix_ellpack.c           | 21 ++++++-------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/src/C-interface/ellpack/bml_submatrix_ellpack.c b/src/C-interface/ellpack/bml_submatrix_ellpack.c
index e3e75bd..69393d5 100644
--- a/src/C-interface/ellpack/bml_submatrix_ellpack.c
+++ b/src/C-interface/ellpack/bml_submatrix_ellpack.c
@@ -349,29 +349,20 @@ bml_adjacency_ellpack(
     int *A_index = A->index;
 
     int j;
-    int check;
 
     xadj[0] = 0;
 
-    // Check if diagonal elements are included
-    check = 0;
-    for (int i = 0; i < A_nnz[0]; i++)
+    // Diagonal elements are not included
+    for (int i = 0; i < A_N; i++)
     {
-        if (A_index[ROWMAJOR(0, i, A_N, A_M)] == 0)
+        xadj[i + 1] = xadj[i];
+        for (int jj = 0; jj < A_nnz[i]; jj++)
         {
-            check = 1;
-            break;
+            if (A_index[ROWMAJOR(i, jj, A_N, A_M)] != i)
+                xadj[i + 1]++;
         }
     }
 
-    for (int i = 1; i < A_N + 1; i++)
-    {
-        if (check == 1)
-            xadj[i] = xadj[i - 1] + A_nnz[i - 1] - 1;
-        else
-            xadj[i] = xadj[i - 1] + A_nnz[i - 1];
-    }
-
 #pragma omp parallel for                                \
   private(j)                                            \
   shared(A_N, A_M, A_index, A_nnz, xadj, adjncy)
-- 
2.43.0


From d8c085ebdefaacdabca272f4c4ff99047f63df1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:17 +0000
Subject: [PATCH 044/109] fix: bml_adjacency_group writes past the end of the
 adjacency list

---
 src/C-interface/ellpack/bml_submatrix_ellpack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C-interface/ellpack/bml_submatrix_ellpack.c b/src/C-interface/ellpack/bml_submatrix_ellpack.c
index 69393d5..692455b 100644
--- a/src/C-interface/ellpack/bml_submatrix_ellpack.c
+++ b/src/C-interface/ellpack/bml_submatrix_ellpack.c
@@ -488,7 +488,7 @@ bml_adjacency_group_ellpack(
     {
 #pragma omp parallel for                        \
   shared(xadj, A_N, adjncy)
-        for (int i = 0; i <= xadj[nnodes]; i++)
+        for (int i = 0; i < xadj[nnodes]; i++)
         {
             adjncy[i] += 1;
         }
-- 
2.43.0


From 373137c10a20554013e7179d9df44f761a4392f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:17 +0000
Subject: [PATCH 045/109] fix: bml_matrix2submatrix returns uninitialized
 values for empty rows

---
 src/C-interface/ellpack/bml_submatrix_ellpack_typed.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c b/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
index c159c9b..f11c9fb 100644
--- a/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
@@ -392,6 +392,7 @@ void *TYPED_FUNC(
 
     for (int i = 0; i < colCnt; i++)
     {
+        rvalue[i] = ZERO;
         for (int j = 0; j < A_nnz[irow]; j++)
         {
             if (A_index[ROWMAJOR(irow, j, A_N, A_M)] == jj[i])
@@ -399,7 +400,6 @@ void *TYPED_FUNC(
                 rvalue[i] = A_value[ROWMAJOR(irow, j, A_N, A_M)];
                 break;
             }
-            rvalue[i] = ZERO;
         }
     }
     return rvalue;
-- 
2.43.0


From 78f30ea1ad1655cf7476b02c410864174b9d6189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:17 +0000
Subject: [PATCH 046/109] fix: bml_group_matrix misses groups already met by an
 earlier group

---
 src/C-interface/ellpack/bml_submatrix_ellpack_typed.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c b/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
index f11c9fb..d0b6a7b 100644
--- a/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
@@ -484,9 +484,8 @@ bml_matrix_ellpack_t
 
 #if defined(__IBMC_) || defined(__ibmxl__)
         int ix[ngroups];
-
-        memset(ix, 0, sizeof(int) * ngroups);
 #endif
+        memset(ix, 0, sizeof(int) * ngroups);
 
         ix[i] = i + 1;
         B_index[ROWMAJOR(i, 0, B_N, B_M)] = i;
-- 
2.43.0


From 9198b7709b556e67410941d01659bbd59004b86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:17 +0000
Subject: [PATCH 047/109] fix: bml_submatrix2matrix checks the row capacity
 before writing

---
 src/C-interface/ellpack/bml_submatrix_ellpack_typed.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c b/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
index d0b6a7b..df35125 100644
--- a/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
@@ -352,17 +352,17 @@ void TYPED_FUNC(
         {
             if (ABS(A_matrix[ROWMAJOR(ja, jb, A_N, A_N)]) > threshold)
             {
+                if (icol >= B_M)
+                {
+                    LOG_ERROR
+                        ("Number of non-zeroes per row >= M, Increase M\n");
+                }
                 B_index[ROWMAJOR(ii, icol, B_N, B_M)] = core_halo_index[jb];
                 B_value[ROWMAJOR(ii, icol, B_N, B_M)] =
                     A_matrix[ROWMAJOR(ja, jb, A_N, A_N)];
                 icol++;
             }
         }
-        if (icol > B_M)
-        {
-            LOG_ERROR("Number of non-zeroes per row >= M, Increase M\n");
-        }
-
         B_nnz[ii] = icol;
     }
 #ifdef BML_USE_MAGMA
-- 
2.43.0


From 8fe083a6f5c20970e0879ef865b05ce6c1234113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:01 +0000
Subject: [PATCH 048/109] fix: bml_adjacency_group releases its node list

---
 src/C-interface/ellpack/bml_submatrix_ellpack.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/C-interface/ellpack/bml_submatrix_ellpack.c b/src/C-interface/ellpack/bml_submatrix_ellpack.c
index 692455b..a693dd2 100644
--- a/src/C-interface/ellpack/bml_submatrix_ellpack.c
+++ b/src/C-interface/ellpack/bml_submatrix_ellpack.c
@@ -500,6 +500,8 @@ bml_adjacency_group_ellpack(
         }
     }
 
+    free(hnode);
+
 }
 
 /** Extract submatrix into new matrix of same format
-- 
2.43.0


From 0eb1150076a49bee8342e8f8775b5fe047f19b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:01 +0000
Subject: [PATCH 049/109] fix: bml_add of CSR matrices used a row's values
 after reallocation

---
 src/C-interface/csr/bml_add_csr_typed.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/C-interface/csr/bml_add_csr_typed.c b/src/C-interface/csr/bml_add_csr_typed.c
index 3a4b6e7..c55274a 100644
--- a/src/C-interface/csr/bml_add_csr_typed.c
+++ b/src/C-interface/csr/bml_add_csr_typed.c
@@ -71,7 +71,8 @@ void TYPED_FUNC(
                 REAL_T val = beta * bvals[pos];
                 if (idx)
                 {
-                    avals[*idx] += val;
+                    // the row may have been reallocated by an insertion
+                    ((REAL_T *) A->data_[i]->vals_)[*idx] += val;
                 }
                 else
                 {
-- 
2.43.0


From 9dce2aeddcedcd3b1d61874fd856a98d82762ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:01 +0000
Subject: [PATCH 050/109] fix: bml_transpose of ellblock matrices leaves stale
 block pointers behind

---
 src/C-interface/ellblock/bml_transpose_ellblock_typed.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/C-interface/ellblock/bml_transpose_ellblock_typed.c b/src/C-interface/ellblock/bml_transpose_ellblock_typed.c
index a7bb906..ca26380 100644
--- a/src/C-interface/ellblock/bml_transpose_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_transpose_ellblock_typed.c
@@ -204,6 +204,7 @@ void TYPED_FUNC(
                     /* nonsymmetric entry. Insert block entries and swap position */
                     const int nnz_jb = A_nnzb[jb];
                     A_ptr_value[ROWMAJOR(jb, A_nnzb[jb], NB, MB)] = A_ptr_value[ROWMAJOR(ib, iposb, NB, MB)];
+                    A_ptr_value[ROWMAJOR(ib, iposb, NB, MB)] = NULL;
                     A_indexb[ROWMAJOR(jb, A_nnzb[jb], NB, MB)] = ib;
                     A_nnzb[jb]++;
                     
@@ -236,6 +237,7 @@ void TYPED_FUNC(
                 // insert block entries in block row jb
                 const int nnz_jb = A_nnzb[jb];
                 A_ptr_value[ROWMAJOR(jb, nnz_jb, NB, MB)] = A_ptr_value[ROWMAJOR(ib, iposb, NB, MB)];
+                A_ptr_value[ROWMAJOR(ib, iposb, NB, MB)] = NULL;
                 A_indexb[ROWMAJOR(jb, nnz_jb, NB, MB)] = ib;
                 A_nnzb[jb]++;
 
-- 
2.43.0


From e52f8282a48a46c8df06b319997079bc305d7240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:31 +0000
Subject: [PATCH 051/109] fix: ellpack additions check the row capacity before
 writing

---
 .../ellpack/bml_add_ellpack_typed.c           | 34 +++++++++++++++----
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/C-interface/ellpack/bml_add_ellpack_typed.c b/src/C-interface/ellpack/bml_add_ellpack_typed.c
index c441524..f65c515 100644
--- a/src/C-interface/ellpack/bml_add_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_add_ellpack_typed.c
@@ -2,6 +2,7 @@
 #include "../../typed.h"
 #include "../bml_add.h"
 #include "../bml_allocate.h"
+#include "../bml_logger.h"
 #include "../bml_parallel.h"
 #include "../bml_types.h"
 #include "bml_add_ellpack.h"
@@ -195,6 +196,13 @@ void TYPED_FUNC(
             REAL_T xTmp = x[jind];
             if (is_above_threshold(xTmp, threshold))
             {
+#ifndef USE_OMP_OFFLOAD
+                if (ll == A_M)
+                {
+                    LOG_ERROR
+                        ("Number of non-zeroes per row > M, Increase M\n");
+                }
+#endif
                 A_value[ROWMAJOR(i, ll, N, A_M)] = xTmp;
                 A_index[ROWMAJOR(i, ll, N, A_M)] = jind;
                 ll++;
@@ -385,6 +393,13 @@ double TYPED_FUNC(
             trnorm += y[jind] * y[jind];
             if (is_above_threshold(xTmp, threshold))
             {
+#ifndef USE_OMP_OFFLOAD
+                if (ll == A_M)
+                {
+                    LOG_ERROR
+                        ("Number of non-zeroes per row > M, Increase M\n");
+                }
+#endif
                 A_value[ROWMAJOR(i, ll, N, A_M)] = xTmp;
                 A_index[ROWMAJOR(i, ll, N, A_M)] = jind;
                 ll++;
@@ -433,11 +448,11 @@ void TYPED_FUNC(
     //Should be safe to use BML_OFFLOAD_CHUNKS here but preserving old version
     //#if !(defined(__IBMC__) || defined(__ibmxl__) || (defined(USE_OMP_OFFLOAD) && (defined(INTEL_SDK) || defined(CRAY_SDK))))
 #if !(defined(__IBMC__) || defined(__ibmxl__) || (defined(USE_OMP_OFFLOAD) && BML_OFFLOAD_CHUNKS ))
-    int jx[A_M];
-    REAL_T x[A_M];
+    int jx[A_M + 1];
+    REAL_T x[A_M + 1];
 
-    memset(jx, 0, A_M * sizeof(int));
-    memset(x, 0.0, A_M * sizeof(REAL_T));
+    memset(jx, 0, (A_M + 1) * sizeof(int));
+    memset(x, 0.0, (A_M + 1) * sizeof(REAL_T));
 #endif
 
 #if BML_OFFLOAD_CHUNKS
@@ -494,8 +509,8 @@ void TYPED_FUNC(
     {
 
 #if defined(__IBMC__) || defined(__ibmxl__)
-        int jx[A_M];
-        REAL_T x[A_M];
+        int jx[A_M + 1];
+        REAL_T x[A_M + 1];
 #endif
 #endif
         int l = 0;
@@ -533,6 +548,13 @@ void TYPED_FUNC(
             REAL_T xTmp = x[jp];
             if (is_above_threshold(xTmp, threshold))
             {
+#ifndef USE_OMP_OFFLOAD
+                if (ll == A_M)
+                {
+                    LOG_ERROR
+                        ("Number of non-zeroes per row > M, Increase M\n");
+                }
+#endif
                 A_value[ROWMAJOR(i, ll, N, A_M)] = xTmp;
                 A_index[ROWMAJOR(i, ll, N, A_M)] = jind;
                 ll++;
-- 
2.43.0


From 6811de8814b26eea6dcddc534097a3945852da52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:45 +0000
Subject: [PATCH 052/109] fix: ellpack squaring never writes past the row
 capacity

---
 .../ellpack/bml_multiply_ellpack_typed.c         | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/C-interface/ellpack/bml_multiply_ellpack_typed.c b/src/C-interface/ellpack/bml_multiply_ellpack_typed.c
index 110b5bc..f3d67aa 100644
--- a/src/C-interface/ellpack/bml_multiply_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_multiply_ellpack_typed.c
@@ -306,22 +306,26 @@ void *TYPED_FUNC(
             if (jp == i)
             {
                 traceX2 = traceX2 + xtmp;
-                X2_value[ROWMAJOR(i, ll, X2_N, X2_M)] = xtmp;
-                X2_index[ROWMAJOR(i, ll, X2_N, X2_M)] = jp;
+                if (ll < X2_M)
+                {
+                    X2_value[ROWMAJOR(i, ll, X2_N, X2_M)] = xtmp;
+                    X2_index[ROWMAJOR(i, ll, X2_N, X2_M)] = jp;
+                }
                 ll++;
             }
             else if (is_above_threshold(xtmp, threshold))
             {
-                X2_value[ROWMAJOR(i, ll, X2_N, X2_M)] = xtmp;
-                X2_index[ROWMAJOR(i, ll, X2_N, X2_M)] = jp;
+                if (ll < X2_M)
+                {
+                    X2_value[ROWMAJOR(i, ll, X2_N, X2_M)] = xtmp;
+                    X2_index[ROWMAJOR(i, ll, X2_N, X2_M)] = jp;
+                }
                 ll++;
             }
             ix[jp] = 0;
             x[jp] = 0.0;
         }
         // Check for number of non-zeroes per row exceeded
-        // We should do it before assigning values to X2_value above,
-        // but that would be a lot of checks
         if (ll > X2_M)
         {
 #ifndef USE_OMP_OFFLOAD
-- 
2.43.0


From 167ca0184d2c2ecd7ca7b1a1afefecedbeb3d66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:34 +0000
Subject: [PATCH 053/109] fix: internal gemm honours the leading dimensions

---
 src/internal-blas/bml_gemm.c | 46 ++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/src/internal-blas/bml_gemm.c b/src/internal-blas/bml_gemm.c
index 2fd247a..ba929d4 100644
--- a/src/internal-blas/bml_gemm.c
+++ b/src/internal-blas/bml_gemm.c
@@ -104,7 +104,7 @@ void TYPED_FUNC(
             {
                 for (int i = 0; i < *m; i++)
                 {
-                    c[COLMAJOR(i, j, *m, *n)] = 0;
+                    c[COLMAJOR(i, j, *ldc, *n)] = 0;
                 }
             }
         }
@@ -114,8 +114,8 @@ void TYPED_FUNC(
             {
                 for (int i = 0; i < *m; i++)
                 {
-                    c[COLMAJOR(i, j, *m, *n)] =
-                        *beta * c[COLMAJOR(i, j, *m, *n)];
+                    c[COLMAJOR(i, j, *ldc, *n)] =
+                        *beta * c[COLMAJOR(i, j, *ldc, *n)];
                 }
             }
         }
@@ -135,24 +135,24 @@ void TYPED_FUNC(
                 {
                     for (int i = 0; i < *m; i++)
                     {
-                        c[COLMAJOR(i, j, *m, *n)] = 0;
+                        c[COLMAJOR(i, j, *ldc, *n)] = 0;
                     }
                 }
                 else if (*beta != 1.0)
                 {
                     for (int i = 0; i < *m; i++)
                     {
-                        c[COLMAJOR(i, j, *m, *n)] *= *beta;
+                        c[COLMAJOR(i, j, *ldc, *n)] *= *beta;
                     }
                 }
 
                 for (int l = 0; l < *k; l++)
                 {
-                    REAL_T temp = *alpha * b[COLMAJOR(l, j, *k, *n)];
+                    REAL_T temp = *alpha * b[COLMAJOR(l, j, *ldb, *n)];
                     for (int i = 0; i < *m; i++)
                     {
-                        c[COLMAJOR(i, j, *m, *n)] +=
-                            temp * a[COLMAJOR(i, l, *m, *k)];
+                        c[COLMAJOR(i, j, *ldc, *n)] +=
+                            temp * a[COLMAJOR(i, l, *lda, *k)];
                     }
                 }
             }
@@ -170,17 +170,17 @@ void TYPED_FUNC(
                     for (int l = 0; l < *k; l++)
                     {
                         temp +=
-                            a[COLMAJOR(l, i, *k, *m)] *
-                            b[COLMAJOR(l, j, *k, *n)];
+                            a[COLMAJOR(l, i, *lda, *m)] *
+                            b[COLMAJOR(l, j, *ldb, *n)];
                     }
                     if (*beta == 0)
                     {
-                        c[COLMAJOR(i, j, *m, *n)] = *alpha * temp;
+                        c[COLMAJOR(i, j, *ldc, *n)] = *alpha * temp;
                     }
                     else
                     {
-                        c[COLMAJOR(i, j, *m, *n)] =
-                            *alpha * temp + *beta * c[COLMAJOR(i, j, *m, *n)];
+                        c[COLMAJOR(i, j, *ldc, *n)] =
+                            *alpha * temp + *beta * c[COLMAJOR(i, j, *ldc, *n)];
                     }
                 }
             }
@@ -199,24 +199,24 @@ void TYPED_FUNC(
                 {
                     for (int i = 0; i < *m; i++)
                     {
-                        c[COLMAJOR(i, j, *m, *n)] = 0;
+                        c[COLMAJOR(i, j, *ldc, *n)] = 0;
                     }
                 }
                 else if (*beta != 1.0)
                 {
                     for (int i = 0; i < *m; i++)
                     {
-                        c[COLMAJOR(i, j, *m, *n)] *= *beta;
+                        c[COLMAJOR(i, j, *ldc, *n)] *= *beta;
                     }
                 }
 
                 for (int l = 0; l < *k; l++)
                 {
-                    REAL_T temp = *alpha * b[COLMAJOR(j, l, *n, *k)];
+                    REAL_T temp = *alpha * b[COLMAJOR(j, l, *ldb, *k)];
                     for (int i = 0; i < *m; i++)
                     {
-                        c[COLMAJOR(i, j, *m, *n)] +=
-                            temp * a[COLMAJOR(i, l, *m, *k)];
+                        c[COLMAJOR(i, j, *ldc, *n)] +=
+                            temp * a[COLMAJOR(i, l, *lda, *k)];
                     }
                 }
             }
@@ -234,18 +234,18 @@ void TYPED_FUNC(
                     for (int l = 0; l < *k; l++)
                     {
                         temp +=
-                            a[COLMAJOR(l, i, *k, *m)] *
-                            b[COLMAJOR(j, l, *n, *k)];
+                            a[COLMAJOR(l, i, *lda, *m)] *
+                            b[COLMAJOR(j, l, *ldb, *k)];
                     }
 
                     if (*beta == 0)
                     {
-                        c[COLMAJOR(i, j, *m, *n)] = *alpha * temp;
+                        c[COLMAJOR(i, j, *ldc, *n)] = *alpha * temp;
                     }
                     else
                     {
-                        c[COLMAJOR(i, j, *m, *n)] =
-                            *alpha * temp + *beta * c[COLMAJOR(i, j, *m, *n)];
+                        c[COLMAJOR(i, j, *ldc, *n)] =
+                            *alpha * temp + *beta * c[COLMAJOR(i, j, *ldc, *n)];
                     }
                 }
             }
-- 
2.43.0


From 6c21c4e2c0090d5cbba428284e2b629babd2aef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:34 +0000
Subject: [PATCH 054/109] fix: internal gemm conjugates operands for option 'C'

---
 src/internal-blas/bml_gemm.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/internal-blas/bml_gemm.c b/src/internal-blas/bml_gemm.c
index ba929d4..45cf965 100644
--- a/src/internal-blas/bml_gemm.c
+++ b/src/internal-blas/bml_gemm.c
@@ -49,6 +49,9 @@ void TYPED_FUNC(
         N_rows_B = *n;
     }
 
+    const int conja = (*transa == 'C');
+    const int conjb = (*transb == 'C');
+
     int info = 0;
 
     if (*transa != 'N' && *transa != 'C' && *transa != 'T')
@@ -170,7 +173,8 @@ void TYPED_FUNC(
                     for (int l = 0; l < *k; l++)
                     {
                         temp +=
-                            a[COLMAJOR(l, i, *lda, *m)] *
+                            (conja ? COMPLEX_CONJUGATE(a[COLMAJOR(l, i, *lda, *m)])
+                             : a[COLMAJOR(l, i, *lda, *m)]) *
                             b[COLMAJOR(l, j, *ldb, *n)];
                     }
                     if (*beta == 0)
@@ -212,7 +216,12 @@ void TYPED_FUNC(
 
                 for (int l = 0; l < *k; l++)
                 {
-                    REAL_T temp = *alpha * b[COLMAJOR(j, l, *ldb, *k)];
+                    REAL_T temp = b[COLMAJOR(j, l, *ldb, *k)];
+                    if (conjb)
+                    {
+                        temp = COMPLEX_CONJUGATE(temp);
+                    }
+                    temp *= *alpha;
                     for (int i = 0; i < *m; i++)
                     {
                         c[COLMAJOR(i, j, *ldc, *n)] +=
@@ -234,8 +243,10 @@ void TYPED_FUNC(
                     for (int l = 0; l < *k; l++)
                     {
                         temp +=
-                            a[COLMAJOR(l, i, *lda, *m)] *
-                            b[COLMAJOR(j, l, *ldb, *k)];
+                            (conja ? COMPLEX_CONJUGATE(a[COLMAJOR(l, i, *lda, *m)])
+                             : a[COLMAJOR(l, i, *lda, *m)]) *
+                            (conjb ? COMPLEX_CONJUGATE(b[COLMAJOR(j, l, *ldb, *k)])
+                             : b[COLMAJOR(j, l, *ldb, *k)]);
                     }
 
                     if (*beta == 0)
-- 
2.43.0


From 5d3d7d09cd91cb6f4693934f757a8d3d897fc5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:34 +0000
Subject: [PATCH 055/109] fix: bml_reorder of dense matrices lost the row
 permutation

---
 src/C-interface/dense/bml_copy_dense_typed.c | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/C-interface/dense/bml_copy_dense_typed.c b/src/C-interface/dense/bml_copy_dense_typed.c
index 8130f79..10197f4 100644
--- a/src/C-interface/dense/bml_copy_dense_typed.c
+++ b/src/C-interface/dense/bml_copy_dense_typed.c
@@ -125,22 +125,14 @@ void TYPED_FUNC(
 // pull from GPU
 #pragma omp target update from(A_matrix[0:N*N])
 #endif
-    // Reorder rows - need to copy
-#pragma omp parallel for
-    for (int i = 0; i < N; i++)
-    {
-        memcpy(&A_matrix[ROWMAJOR(perm[i], 0, N, N)],
-               &B_matrix[ROWMAJOR(i, 0, N, N)], N * sizeof(REAL_T));
-    }
-
-    // Reorder elements in each row - just change index
+    // Move element (i, j) to (perm[i], perm[j])
 #pragma omp parallel for
     for (int i = 0; i < N; i++)
     {
         for (int j = 0; j < N; j++)
         {
-            A_matrix[ROWMAJOR(i, j, N, N)] =
-                B_matrix[ROWMAJOR(i, perm[j], N, N)];
+            A_matrix[ROWMAJOR(perm[i], perm[j], N, N)] =
+                B_matrix[ROWMAJOR(i, j, N, N)];
         }
     }
 #ifdef MKL_GPU
-- 
2.43.0


From 12e133a10cff31a6c2ab183b8ba1f70a39574260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:34 +0000
Subject: [PATCH 056/109] fix: bml_reorder of ellblock matrices permutes the
 blocks

---
 .../ellblock/bml_copy_ellblock_typed.c        | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/C-interface/ellblock/bml_copy_ellblock_typed.c b/src/C-interface/ellblock/bml_copy_ellblock_typed.c
index b3d8b20..b655189 100644
--- a/src/C-interface/ellblock/bml_copy_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_copy_ellblock_typed.c
@@ -137,29 +137,22 @@ void TYPED_FUNC(
     bml_matrix_ellblock_t *B = bml_copy_new(A);
     int *B_indexb = B->indexb;
     int *B_nnzb = B->nnzb;
-    REAL_T **B_ptr_value = (REAL_T **) B->ptr_value;
     int *B_bsize = B->bsize;
 
     for (int i = 0; i < NB; i++)
     {
-        A_bsize[i] = B_bsize[perm[i]];
+        A_bsize[perm[i]] = B_bsize[i];
     }
 
-    // Reorder rows - need to copy
+    // Reorder block rows: the blocks themselves stay where they are
+    REAL_T *ptr_value[NB * MB];
+    memcpy(ptr_value, A_ptr_value, NB * MB * sizeof(REAL_T *));
     for (int ib = 0; ib < NB; ib++)
     {
         memcpy(&A_indexb[ROWMAJOR(perm[ib], 0, NB, MB)],
                &B_indexb[ROWMAJOR(ib, 0, NB, MB)], MB * sizeof(int));
-        int count = 0;
-        for (int jp = 0; jp < MB; jp++)
-        {
-            int ind = ROWMAJOR(ib, jp, NB, MB);
-            int jb = B_indexb[ind];
-            count += B_bsize[jb];
-        }
-        memcpy(A_ptr_value[ROWMAJOR(perm[ib], 0, NB, MB)],
-               B_ptr_value[ROWMAJOR(ib, 0, NB, MB)],
-               B_bsize[ib] * count * sizeof(REAL_T));
+        memcpy(&A_ptr_value[ROWMAJOR(perm[ib], 0, NB, MB)],
+               &ptr_value[ROWMAJOR(ib, 0, NB, MB)], MB * sizeof(REAL_T *));
         A_nnzb[perm[ib]] = B_nnzb[ib];
     }
 
-- 
2.43.0


From 3834783fcbe463282d10b27e6e54dcd2e24484dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:38 +0000
Subject: [PATCH 057/109] fix: setters reject indices outside the matrix

---
 src/C-interface/bml_setters.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/C-interface/bml_setters.c b/src/C-interface/bml_setters.c
index 75ad8d6..878cbbc 100644
--- a/src/C-interface/bml_setters.c
+++ b/src/C-interface/bml_setters.c
@@ -16,6 +16,10 @@ bml_set_element_new(
     int j,
     void *value)
 {
+    if (i < 0 || i >= bml_get_N(A) || j < 0 || j >= bml_get_N(A))
+    {
+        LOG_ERROR("matrix element (%d, %d) out of bounds\n", i, j);
+    }
     switch (bml_get_type(A))
     {
         case dense:
@@ -44,6 +48,10 @@ bml_set_element(
     int j,
     void *value)
 {
+    if (i < 0 || i >= bml_get_N(A) || j < 0 || j >= bml_get_N(A))
+    {
+        LOG_ERROR("matrix element (%d, %d) out of bounds\n", i, j);
+    }
     switch (bml_get_type(A))
     {
         case dense:
@@ -71,6 +79,10 @@ bml_set_row(
     void *row,
     double threshold)
 {
+    if (i < 0 || i >= bml_get_N(A))
+    {
+        LOG_ERROR("row index %d out of bounds\n", i);
+    }
     switch (bml_get_type(A))
     {
         case dense:
-- 
2.43.0


From e8109647f62eb4a0bffe71246695a6db9ce3073f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:38 +0000
Subject: [PATCH 058/109] fix: getters of all formats reject indices outside
 the matrix

---
 src/C-interface/bml_getters.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/C-interface/bml_getters.c b/src/C-interface/bml_getters.c
index 47caab9..c3f6096 100644
--- a/src/C-interface/bml_getters.c
+++ b/src/C-interface/bml_getters.c
@@ -24,6 +24,10 @@ bml_get_element(
     int i,
     int j)
 {
+    if (i < 0 || i >= bml_get_N(A) || j < 0 || j >= bml_get_N(A))
+    {
+        LOG_ERROR("matrix element (%d, %d) out of bounds\n", i, j);
+    }
     switch (bml_get_type(A))
     {
         case dense:
@@ -56,6 +60,10 @@ bml_get_row(
     bml_matrix_t * A,
     int i)
 {
+    if (i < 0 || i >= bml_get_N(A))
+    {
+        LOG_ERROR("row index %d out of bounds\n", i);
+    }
     switch (bml_get_type(A))
     {
         case dense:
-- 
2.43.0


From d2e83ab54628e52ae48aedcf908790cea4ba3a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:38 +0000
Subject: [PATCH 059/109] fix: bml_copy refuses a destination of another
 precision

---
 src/C-interface/bml_copy.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/C-interface/bml_copy.c b/src/C-interface/bml_copy.c
index d24ed31..22f8082 100644
--- a/src/C-interface/bml_copy.c
+++ b/src/C-interface/bml_copy.c
@@ -77,6 +77,10 @@ bml_copy(
     {
         LOG_ERROR("matrix is not initialized\n");
     }
+    if (bml_get_precision(A) != bml_get_precision(B))
+    {
+        LOG_ERROR("matrix precision mismatch\n");
+    }
     if (bml_get_N(A) != bml_get_N(B))
     {
         LOG_ERROR("matrix size mismatch\n");
-- 
2.43.0


From fdbe0b47c0d491392a9ce264d806fcf140dd013c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:38 +0000
Subject: [PATCH 060/109] fix: bml_transpose_triangle reports an unknown
 triangle

---
 src/C-interface/dense/bml_transpose_triangle_dense_typed.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/C-interface/dense/bml_transpose_triangle_dense_typed.c b/src/C-interface/dense/bml_transpose_triangle_dense_typed.c
index d4e61b4..999af8f 100644
--- a/src/C-interface/dense/bml_transpose_triangle_dense_typed.c
+++ b/src/C-interface/dense/bml_transpose_triangle_dense_typed.c
@@ -2,6 +2,7 @@
 #include "../../typed.h"
 #include "../bml_allocate.h"
 #include "../bml_transpose_triangle.h"
+#include "../bml_logger.h"
 #include "../bml_types.h"
 #include "bml_allocate_dense.h"
 #include "bml_transpose_triangle_dense.h"
@@ -57,5 +58,9 @@ void TYPED_FUNC(
                 }
             }
             break;
+
+        default:
+            LOG_ERROR("Unknown triangle type in bml_transpose_triangle\n");
+            break;
     }
 }
-- 
2.43.0


From caf4a6c1602b12e9511c39d3a6a4b239b316d1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:48 +0000
Subject: [PATCH 061/109] fix: typed element getters reject indices outside the
 matrix

---
 src/C-interface/bml_elemental.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/C-interface/bml_elemental.c b/src/C-interface/bml_elemental.c
index c361033..9526914 100644
--- a/src/C-interface/bml_elemental.c
+++ b/src/C-interface/bml_elemental.c
@@ -21,6 +21,11 @@ bml_get_element_single_real(
     int i,
     int j)
 {
+    int N = bml_get_N(A);
+    if (i < 0 || i >= N || j < 0 || j >= N)
+    {
+        LOG_ERROR("element (%d,%d) outside of matrix\n", i, j);
+    }
     switch (bml_get_type(A))
     {
         case dense:
@@ -49,6 +54,11 @@ bml_get_element_double_real(
     int i,
     int j)
 {
+    int N = bml_get_N(A);
+    if (i < 0 || i >= N || j < 0 || j >= N)
+    {
+        LOG_ERROR("element (%d,%d) outside of matrix\n", i, j);
+    }
     switch (bml_get_type(A))
     {
         case dense:
@@ -78,6 +88,11 @@ bml_get_element_single_complex(
     int i,
     int j)
 {
+    int N = bml_get_N(A);
+    if (i < 0 || i >= N || j < 0 || j >= N)
+    {
+        LOG_ERROR("element (%d,%d) outside of matrix\n", i, j);
+    }
     switch (bml_get_type(A))
     {
         case dense:
@@ -106,6 +121,11 @@ bml_get_element_double_complex(
     int i,
     int j)
 {
+    int N = bml_get_N(A);
+    if (i < 0 || i >= N || j < 0 || j >= N)
+    {
+        LOG_ERROR("element (%d,%d) outside of matrix\n", i, j);
+    }
     switch (bml_get_type(A))
     {
         case dense:
-- 
2.43.0


From dd48d23222499423eb5a0cf956916259dccd40df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:50 +0000
Subject: [PATCH 062/109] fix: eigenvectors of complex Hermitian matrices were
 conjugated

---
 src/C-interface/dense/bml_diagonalize_dense.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/C-interface/dense/bml_diagonalize_dense.c b/src/C-interface/dense/bml_diagonalize_dense.c
index ee5d480..51232a4 100644
--- a/src/C-interface/dense/bml_diagonalize_dense.c
+++ b/src/C-interface/dense/bml_diagonalize_dense.c
@@ -748,6 +748,8 @@ bml_diagonalize_dense_single_complex(
                  rwork, &lrwork, iwork, &liwork, &info);
     }
 #endif
+    /* LAPACK saw the transpose of the (row-major) matrix, i.e. its conjugate,
+     * and returned the conjugate eigenvectors. */
     A_matrix = (float complex *) eigenvectors->matrix;
     for (int i = 0; i < A->N; i++)
     {
@@ -755,7 +757,7 @@ bml_diagonalize_dense_single_complex(
         for (int j = 0; j < A->N; j++)
         {
             A_matrix[ROWMAJOR(i, j, A->N, A->N)] =
-                evecs[COLMAJOR(i, j, A->N, A->N)];
+                conjf(evecs[COLMAJOR(i, j, A->N, A->N)]);
         }
     }
 
@@ -858,6 +860,8 @@ bml_diagonalize_dense_double_complex(
                  rwork, &lrwork, iwork, &liwork, &info);
     }
 #endif
+    /* LAPACK saw the transpose of the (row-major) matrix, i.e. its conjugate,
+     * and returned the conjugate eigenvectors. */
     A_matrix = (double complex *) eigenvectors->matrix;
     for (int i = 0; i < A->N; i++)
     {
@@ -865,7 +869,7 @@ bml_diagonalize_dense_double_complex(
         for (int j = 0; j < A->N; j++)
         {
             A_matrix[ROWMAJOR(i, j, A->N, A->N)] =
-                evecs[COLMAJOR(i, j, A->N, A->N)];
+                conj(evecs[COLMAJOR(i, j, A->N, A->N)]);
         }
     }
 
-- 
2.43.0


From 0636b24d4b103c2df3de31b75dc3387bc0de53f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:57 +0000
Subject: [PATCH 063/109] fix: bml_inverse reports singular matrices

---
 src/C-interface/dense/bml_inverse_dense_typed.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/C-interface/dense/bml_inverse_dense_typed.c b/src/C-interface/dense/bml_inverse_dense_typed.c
index 3d8e66a..5ac55be 100644
--- a/src/C-interface/dense/bml_inverse_dense_typed.c
+++ b/src/C-interface/dense/bml_inverse_dense_typed.c
@@ -122,7 +122,11 @@ void TYPED_FUNC(
 #pragma omp target update from(A_matrix[0:N*N])
 #endif
     C_BLAS(GETRF) (&M, &N, A->matrix, &lda, ipiv, &info);
+    if (info != 0)
+        LOG_ERROR("ERROR in getrf, matrix is singular\n");
     C_BLAS(GETRI) (&N, A->matrix, &N, ipiv, work, &lwork, &info);
+    if (info != 0)
+        LOG_ERROR("ERROR in getri\n");
 #ifdef MKL_GPU
 // push back to GPU
 #pragma omp target update to(A_matrix[0:N*N])
-- 
2.43.0


From 183d9ff46ce9eb2fe07b0520e04344b088b96765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:57 +0000
Subject: [PATCH 064/109] fix: reading or writing a file that cannot be opened
 is an error

---
 src/C-interface/csr/bml_utilities_csr_typed.c           | 8 ++++++++
 src/C-interface/dense/bml_utilities_dense_typed.c       | 8 ++++++++
 src/C-interface/ellblock/bml_utilities_ellblock_typed.c | 8 ++++++++
 src/C-interface/ellpack/bml_utilities_ellpack_typed.c   | 8 ++++++++
 4 files changed, 32 insertions(+)

diff --git a/src/C-interface/csr/bml_utilities_csr_typed.c b/src/C-interface/csr/bml_utilities_csr_typed.c
index 6f71845..641ebc3 100644
--- a/src/C-interface/csr/bml_utilities_csr_typed.c
+++ b/src/C-interface/csr/bml_utilities_csr_typed.c
@@ -31,6 +31,10 @@ void TYPED_FUNC(
     REAL_T value;
 
     hFile = fopen(filename, "r");
+    if (hFile == NULL)
+    {
+        LOG_ERROR("cannot open file %s\n", filename);
+    }
 
     // Read header
     if (fscanf(hFile, "%s %s %s %s %s", header1, header2, header3, header4,
@@ -129,6 +133,10 @@ void TYPED_FUNC(
         return;
 
     mFile = fopen(filename, "w");
+    if (mFile == NULL)
+    {
+        LOG_ERROR("cannot open file %s\n", filename);
+    }
 
     // Write header
 #if defined(SINGLE_REAL) || defined(DOUBLE_REAL)
diff --git a/src/C-interface/dense/bml_utilities_dense_typed.c b/src/C-interface/dense/bml_utilities_dense_typed.c
index f2cf671..a01257a 100644
--- a/src/C-interface/dense/bml_utilities_dense_typed.c
+++ b/src/C-interface/dense/bml_utilities_dense_typed.c
@@ -47,6 +47,10 @@ void TYPED_FUNC(
 #endif
 
     matrix_file = fopen(filename, "r");
+    if (matrix_file == NULL)
+    {
+        LOG_ERROR("cannot open file %s\n", filename);
+    }
 
     // Read header
     if ((values_read = fscanf
@@ -154,6 +158,10 @@ void TYPED_FUNC(
 #endif
 
     matrix_file = fopen(filename, "w");
+    if (matrix_file == NULL)
+    {
+        LOG_ERROR("cannot open file %s\n", filename);
+    }
 
     // Write header
 #if defined(SINGLE_REAL) || defined(DOUBLE_REAL)
diff --git a/src/C-interface/ellblock/bml_utilities_ellblock_typed.c b/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
index 13921d8..db4f393 100644
--- a/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
@@ -41,6 +41,10 @@ void TYPED_FUNC(
     int *A_bsize = A->bsize;
 
     hFile = fopen(filename, "r");
+    if (hFile == NULL)
+    {
+        LOG_ERROR("cannot open file %s\n", filename);
+    }
 
     // Read header
     if (fscanf(hFile, "%s %s %s %s %s", header1, header2, header3, header4,
@@ -191,6 +195,10 @@ void TYPED_FUNC(
         return;
 
     mFile = fopen(filename, "w");
+    if (mFile == NULL)
+    {
+        LOG_ERROR("cannot open file %s\n", filename);
+    }
 
     // Write header
 #if defined(SINGLE_REAL) || defined(DOUBLE_REAL)
diff --git a/src/C-interface/ellpack/bml_utilities_ellpack_typed.c b/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
index fa500b1..b0c5db3 100644
--- a/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
@@ -39,6 +39,10 @@ void TYPED_FUNC(
     int *A_nnz = A->nnz;
 
     hFile = fopen(filename, "r");
+    if (hFile == NULL)
+    {
+        LOG_ERROR("cannot open file %s\n", filename);
+    }
 
     // Read header
     if (fscanf(hFile, "%s %s %s %s %s", header1, header2, header3, header4,
@@ -149,6 +153,10 @@ void TYPED_FUNC(
         return;
 
     mFile = fopen(filename, "w");
+    if (mFile == NULL)
+    {
+        LOG_ERROR("cannot open file %s\n", filename);
+    }
 
     // Write header
 #if defined(SINGLE_REAL) || defined(DOUBLE_REAL)
-- 
2.43.0


From bd34abb7191aa584838043d01c12b0dce2417875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:57 +0000
Subject: [PATCH 065/109] fix: bml_read_bml_matrix replaces the previous
 contents of the matrix

---
 src/C-interface/csr/bml_utilities_csr_typed.c           | 3 +++
 src/C-interface/dense/bml_utilities_dense_typed.c       | 2 ++
 src/C-interface/ellblock/bml_utilities_ellblock_typed.c | 2 ++
 src/C-interface/ellpack/bml_utilities_ellpack_typed.c   | 3 +++
 4 files changed, 10 insertions(+)

diff --git a/src/C-interface/csr/bml_utilities_csr_typed.c b/src/C-interface/csr/bml_utilities_csr_typed.c
index 641ebc3..8876be0 100644
--- a/src/C-interface/csr/bml_utilities_csr_typed.c
+++ b/src/C-interface/csr/bml_utilities_csr_typed.c
@@ -5,6 +5,7 @@
 #include "../bml_types.h"
 #include "../bml_utilities.h"
 #include "bml_types_csr.h"
+#include "bml_allocate_csr.h"
 #include "bml_setters_csr.h"
 #include "bml_utilities_csr.h"
 
@@ -56,6 +57,8 @@ void TYPED_FUNC(
 
     LOG_DEBUG("hdimx = %d, nnz = %d\n", hdimx, nnz);
 
+    TYPED_FUNC(bml_clear_csr) (A);
+
     // Read in values
     for (int i = 0; i < nnz; i++)
     {
diff --git a/src/C-interface/dense/bml_utilities_dense_typed.c b/src/C-interface/dense/bml_utilities_dense_typed.c
index a01257a..13ee5db 100644
--- a/src/C-interface/dense/bml_utilities_dense_typed.c
+++ b/src/C-interface/dense/bml_utilities_dense_typed.c
@@ -67,6 +67,8 @@ void TYPED_FUNC(
         LOG_ERROR("Line 2, Expected 3 entries, read %d\n", values_read);
     }
 
+    TYPED_FUNC(bml_clear_dense) (A);
+
     // Read in values
     for (int i = 0; i < nnz; i++)
     {
diff --git a/src/C-interface/ellblock/bml_utilities_ellblock_typed.c b/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
index db4f393..843c01f 100644
--- a/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
@@ -61,6 +61,8 @@ void TYPED_FUNC(
         LOG_ERROR("read error\n");
     }
 
+    TYPED_FUNC(bml_clear_ellblock) (A);
+
     // Read in values
     for (int i = 0; i < nnz; i++)
     {
diff --git a/src/C-interface/ellpack/bml_utilities_ellpack_typed.c b/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
index b0c5db3..c385a28 100644
--- a/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
@@ -5,6 +5,7 @@
 #include "../bml_types.h"
 #include "../bml_utilities.h"
 #include "bml_types_ellpack.h"
+#include "bml_allocate_ellpack.h"
 #include "bml_utilities_ellpack.h"
 
 #include <complex.h>
@@ -64,6 +65,8 @@ void TYPED_FUNC(
 
     LOG_DEBUG("hdimx = %d, nnz = %d\n", hdimx, nnz);
 
+    TYPED_FUNC(bml_clear_ellpack) (A);
+
     // Read in values
     for (int i = 0; i < nnz; i++)
     {
-- 
2.43.0


From b16184350b8308d148118b45b18fe625761ced1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:58 +0000
Subject: [PATCH 066/109] fix: bml_read_bml_matrix checks the header of the
 file

---
 src/C-interface/csr/bml_utilities_csr_typed.c        | 12 +++++++++++-
 src/C-interface/dense/bml_utilities_dense_typed.c    | 12 +++++++++++-
 .../ellblock/bml_utilities_ellblock_typed.c          | 12 +++++++++++-
 .../ellpack/bml_utilities_ellpack_typed.c            | 12 +++++++++++-
 4 files changed, 44 insertions(+), 4 deletions(-)

diff --git a/src/C-interface/csr/bml_utilities_csr_typed.c b/src/C-interface/csr/bml_utilities_csr_typed.c
index 8876be0..0cf8127 100644
--- a/src/C-interface/csr/bml_utilities_csr_typed.c
+++ b/src/C-interface/csr/bml_utilities_csr_typed.c
@@ -38,7 +38,7 @@ void TYPED_FUNC(
     }
 
     // Read header
-    if (fscanf(hFile, "%s %s %s %s %s", header1, header2, header3, header4,
+    if (fscanf(hFile, "%19s %19s %19s %19s %19s", header1, header2, header3, header4,
                header5) != 5)
     {
         LOG_ERROR("read error on header\n");
@@ -49,6 +49,16 @@ void TYPED_FUNC(
 
     int symflag = strcmp(header5, "symmetric");
 
+    // The numbers in the file must be of the kind stored in the matrix
+#if defined(SINGLE_REAL) || defined(DOUBLE_REAL)
+    if (strcmp(header4, "real") != 0 && strcmp(header4, "integer") != 0)
+#else
+    if (strcmp(header4, "complex") != 0)
+#endif
+    {
+        LOG_ERROR("file contains %s numbers\n", header4);
+    }
+
     // Read N, N, # of non-zeroes
     if (fscanf(hFile, "%d %d %d", &hdimx, &hdimx, &nnz) != 3)
     {
diff --git a/src/C-interface/dense/bml_utilities_dense_typed.c b/src/C-interface/dense/bml_utilities_dense_typed.c
index 13ee5db..7d47247 100644
--- a/src/C-interface/dense/bml_utilities_dense_typed.c
+++ b/src/C-interface/dense/bml_utilities_dense_typed.c
@@ -54,12 +54,22 @@ void TYPED_FUNC(
 
     // Read header
     if ((values_read = fscanf
-         (matrix_file, "%s %s %s %s %s", header1, header2, header3, header4,
+         (matrix_file, "%19s %19s %19s %19s %19s", header1, header2, header3, header4,
           header5)) < 5)
     {
         LOG_ERROR("Line 1, expected 5 entries, read %d\n", values_read);
     }
 
+    // The numbers in the file must be of the kind stored in the matrix
+#if defined(SINGLE_REAL) || defined(DOUBLE_REAL)
+    if (strcmp(header4, "real") != 0 && strcmp(header4, "integer") != 0)
+#else
+    if (strcmp(header4, "complex") != 0)
+#endif
+    {
+        LOG_ERROR("file contains %s numbers\n", header4);
+    }
+
     // Read N, N, # of non-zeroes
     if ((values_read =
          fscanf(matrix_file, "%d %d %d", &hdimx, &hdimx, &nnz)) < 3)
diff --git a/src/C-interface/ellblock/bml_utilities_ellblock_typed.c b/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
index 843c01f..2911db3 100644
--- a/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
@@ -47,7 +47,7 @@ void TYPED_FUNC(
     }
 
     // Read header
-    if (fscanf(hFile, "%s %s %s %s %s", header1, header2, header3, header4,
+    if (fscanf(hFile, "%19s %19s %19s %19s %19s", header1, header2, header3, header4,
                header5) != 5)
     {
         LOG_ERROR("read error on header\n");
@@ -55,6 +55,16 @@ void TYPED_FUNC(
 
     int symflag = strcmp(header5, "symmetric");
 
+    // The numbers in the file must be of the kind stored in the matrix
+#if defined(SINGLE_REAL) || defined(DOUBLE_REAL)
+    if (strcmp(header4, "real") != 0 && strcmp(header4, "integer") != 0)
+#else
+    if (strcmp(header4, "complex") != 0)
+#endif
+    {
+        LOG_ERROR("file contains %s numbers\n", header4);
+    }
+
     // Read N, N, # of non-zeroes
     if (fscanf(hFile, "%d %d %d", &hdimx, &hdimx, &nnz) != 3)
     {
diff --git a/src/C-interface/ellpack/bml_utilities_ellpack_typed.c b/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
index c385a28..74aea86 100644
--- a/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
@@ -46,7 +46,7 @@ void TYPED_FUNC(
     }
 
     // Read header
-    if (fscanf(hFile, "%s %s %s %s %s", header1, header2, header3, header4,
+    if (fscanf(hFile, "%19s %19s %19s %19s %19s", header1, header2, header3, header4,
                header5) != 5)
     {
         LOG_ERROR("read error on header\n");
@@ -57,6 +57,16 @@ void TYPED_FUNC(
 
     int symflag = strcmp(header5, "symmetric");
 
+    // The numbers in the file must be of the kind stored in the matrix
+#if defined(SINGLE_REAL) || defined(DOUBLE_REAL)
+    if (strcmp(header4, "real") != 0 && strcmp(header4, "integer") != 0)
+#else
+    if (strcmp(header4, "complex") != 0)
+#endif
+    {
+        LOG_ERROR("file contains %s numbers\n", header4);
+    }
+
     // Read N, N, # of non-zeroes
     if (fscanf(hFile, "%d %d %d", &hdimx, &hdimx, &nnz) != 3)
     {
-- 
2.43.0


From c6974c40ed0160d329b388a5ebd2998e951a4cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:58 +0000
Subject: [PATCH 067/109] fix: bml_read_bml_matrix rejects files of other
 dimensions and indices outside the matrix

---
 src/C-interface/csr/bml_utilities_csr_typed.c | 14 ++++++++--
 .../dense/bml_utilities_dense_typed.c         | 26 +++++++++++++++++--
 .../ellblock/bml_utilities_ellblock_typed.c   | 14 ++++++++--
 .../ellpack/bml_utilities_ellpack_typed.c     | 14 ++++++++--
 4 files changed, 60 insertions(+), 8 deletions(-)

diff --git a/src/C-interface/csr/bml_utilities_csr_typed.c b/src/C-interface/csr/bml_utilities_csr_typed.c
index 0cf8127..a9d7133 100644
--- a/src/C-interface/csr/bml_utilities_csr_typed.c
+++ b/src/C-interface/csr/bml_utilities_csr_typed.c
@@ -28,7 +28,7 @@ void TYPED_FUNC(
 {
     FILE *hFile;
     char header1[20], header2[20], header3[20], header4[20], header5[20];
-    int hdimx, nnz, irow, icol;
+    int hdimx, hdimy, nnz, irow, icol;
     REAL_T value;
 
     hFile = fopen(filename, "r");
@@ -60,13 +60,19 @@ void TYPED_FUNC(
     }
 
     // Read N, N, # of non-zeroes
-    if (fscanf(hFile, "%d %d %d", &hdimx, &hdimx, &nnz) != 3)
+    if (fscanf(hFile, "%d %d %d", &hdimx, &hdimy, &nnz) != 3)
     {
         LOG_ERROR("read error\n");
     }
 
     LOG_DEBUG("hdimx = %d, nnz = %d\n", hdimx, nnz);
 
+    if (hdimx != A->N_ || hdimy != A->N_ || nnz < 0)
+    {
+        LOG_ERROR("file with %d entries of a %dx%d matrix does not match\n",
+                  nnz, hdimx, hdimy);
+    }
+
     TYPED_FUNC(bml_clear_csr) (A);
 
     // Read in values
@@ -106,6 +112,10 @@ void TYPED_FUNC(
         LOG_ERROR("unknown precision\n");
 #endif
 
+        if (irow < 1 || irow > A->N_ || icol < 1 || icol > A->N_)
+        {
+            LOG_ERROR("element (%d,%d) is outside the matrix\n", irow, icol);
+        }
         irow--;
         icol--;
         // set new element
diff --git a/src/C-interface/dense/bml_utilities_dense_typed.c b/src/C-interface/dense/bml_utilities_dense_typed.c
index 7d47247..c443717 100644
--- a/src/C-interface/dense/bml_utilities_dense_typed.c
+++ b/src/C-interface/dense/bml_utilities_dense_typed.c
@@ -31,7 +31,7 @@ void TYPED_FUNC(
 {
     FILE *matrix_file;
     char header1[20], header2[20], header3[20], header4[20], header5[20];
-    int hdimx, nnz, irow, icol;
+    int hdimx, hdimy, nnz, irow, icol;
     int values_read;
     double real_part;
 #if (defined(SINGLE_COMPLEX) || defined(DOUBLE_COMPLEX))
@@ -72,11 +72,17 @@ void TYPED_FUNC(
 
     // Read N, N, # of non-zeroes
     if ((values_read =
-         fscanf(matrix_file, "%d %d %d", &hdimx, &hdimx, &nnz)) < 3)
+         fscanf(matrix_file, "%d %d %d", &hdimx, &hdimy, &nnz)) < 3)
     {
         LOG_ERROR("Line 2, Expected 3 entries, read %d\n", values_read);
     }
 
+    if (hdimx != N || hdimy != N || nnz < 0)
+    {
+        LOG_ERROR("file with %d entries of a %dx%d matrix does not match\n",
+                  nnz, hdimx, hdimy);
+    }
+
     TYPED_FUNC(bml_clear_dense) (A);
 
     // Read in values
@@ -90,6 +96,10 @@ void TYPED_FUNC(
             LOG_ERROR("Line %d, expected 3 entries, read %d\n", i + 3,
                       values_read);
         }
+        if (irow < 1 || irow > N || icol < 1 || icol > N)
+        {
+            LOG_ERROR("element (%d,%d) is outside the matrix\n", irow, icol);
+        }
         A_matrix[ROWMAJOR(irow - 1, icol - 1, N, N)] = real_part;
 #elif defined(DOUBLE_REAL)
         if ((values_read =
@@ -99,6 +109,10 @@ void TYPED_FUNC(
             LOG_ERROR("Line %d, expected 3 entries, read %d\n", i + 3,
                       values_read);
         }
+        if (irow < 1 || irow > N || icol < 1 || icol > N)
+        {
+            LOG_ERROR("element (%d,%d) is outside the matrix\n", irow, icol);
+        }
         A_matrix[ROWMAJOR(irow - 1, icol - 1, N, N)] = real_part;
 #elif defined(SINGLE_COMPLEX)
         if ((values_read =
@@ -108,6 +122,10 @@ void TYPED_FUNC(
             LOG_ERROR("Line %d, expected 4 entries, read %d\n", i + 3,
                       values_read);
         }
+        if (irow < 1 || irow > N || icol < 1 || icol > N)
+        {
+            LOG_ERROR("element (%d,%d) is outside the matrix\n", irow, icol);
+        }
         A_matrix[ROWMAJOR(irow - 1, icol - 1, N, N)] =
             real_part + I * imaginary_part;
 #elif defined(DOUBLE_COMPLEX)
@@ -118,6 +136,10 @@ void TYPED_FUNC(
             LOG_ERROR("Line %d, expected 4 entries, read %d\n", i + 3,
                       values_read);
         }
+        if (irow < 1 || irow > N || icol < 1 || icol > N)
+        {
+            LOG_ERROR("element (%d,%d) is outside the matrix\n", irow, icol);
+        }
         A_matrix[ROWMAJOR(irow - 1, icol - 1, N, N)] =
             real_part + I * imaginary_part;
 #else
diff --git a/src/C-interface/ellblock/bml_utilities_ellblock_typed.c b/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
index 2911db3..1996df1 100644
--- a/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
@@ -30,7 +30,7 @@ void TYPED_FUNC(
 
     FILE *hFile;
     char header1[20], header2[20], header3[20], header4[20], header5[20];
-    int hdimx, nnz, irow, icol;
+    int hdimx, hdimy, nnz, irow, icol;
     REAL_T value;
 
     int NB = A->NB;
@@ -66,11 +66,17 @@ void TYPED_FUNC(
     }
 
     // Read N, N, # of non-zeroes
-    if (fscanf(hFile, "%d %d %d", &hdimx, &hdimx, &nnz) != 3)
+    if (fscanf(hFile, "%d %d %d", &hdimx, &hdimy, &nnz) != 3)
     {
         LOG_ERROR("read error\n");
     }
 
+    if (hdimx != A->N || hdimy != A->N || nnz < 0)
+    {
+        LOG_ERROR("file with %d entries of a %dx%d matrix does not match\n",
+                  nnz, hdimx, hdimy);
+    }
+
     TYPED_FUNC(bml_clear_ellblock) (A);
 
     // Read in values
@@ -99,6 +105,10 @@ void TYPED_FUNC(
         LOG_ERROR("unknown matrix precision\n");
 #endif
 
+        if (irow < 1 || irow > A->N || icol < 1 || icol > A->N)
+        {
+            LOG_ERROR("element (%d,%d) is outside the matrix\n", irow, icol);
+        }
         irow--;
         icol--;
 
diff --git a/src/C-interface/ellpack/bml_utilities_ellpack_typed.c b/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
index 74aea86..ccb56fe 100644
--- a/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
@@ -27,7 +27,7 @@ void TYPED_FUNC(
 {
     FILE *hFile;
     char header1[20], header2[20], header3[20], header4[20], header5[20];
-    int hdimx, nnz, irow, icol, ind;
+    int hdimx, hdimy, nnz, irow, icol, ind;
 #if (defined(SINGLE_COMPLEX)||defined(DOUBLE_COMPLEX))
     double real_part, imaginary_part;
 #endif
@@ -68,13 +68,19 @@ void TYPED_FUNC(
     }
 
     // Read N, N, # of non-zeroes
-    if (fscanf(hFile, "%d %d %d", &hdimx, &hdimx, &nnz) != 3)
+    if (fscanf(hFile, "%d %d %d", &hdimx, &hdimy, &nnz) != 3)
     {
         LOG_ERROR("read error\n");
     }
 
     LOG_DEBUG("hdimx = %d, nnz = %d\n", hdimx, nnz);
 
+    if (hdimx != N || hdimy != N || nnz < 0)
+    {
+        LOG_ERROR("file with %d entries of a %dx%d matrix does not match\n",
+                  nnz, hdimx, hdimy);
+    }
+
     TYPED_FUNC(bml_clear_ellpack) (A);
 
     // Read in values
@@ -112,6 +118,10 @@ void TYPED_FUNC(
         LOG_ERROR("unknown precision\n");
 #endif
 
+        if (irow < 1 || irow > N || icol < 1 || icol > N)
+        {
+            LOG_ERROR("element (%d,%d) is outside the matrix\n", irow, icol);
+        }
         irow--;
         icol--;
         ind = A_nnz[irow];
-- 
2.43.0


From fb2483455baddbc5027578d7e32529da9a16f0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:58 +0000
Subject: [PATCH 068/109] fix: bml_read_bml_matrix never writes past the
 capacity of a row

---
 src/C-interface/ellblock/bml_utilities_ellblock_typed.c | 5 ++++-
 src/C-interface/ellpack/bml_utilities_ellpack_typed.c   | 8 ++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/C-interface/ellblock/bml_utilities_ellblock_typed.c b/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
index 1996df1..bfebec3 100644
--- a/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
@@ -144,7 +144,10 @@ void TYPED_FUNC(
         if (found_block == 0)
         {
             //printf("Add new block %d, %d\n",ib, jb);
-            assert(A_nnzb[ib] < MB);
+            if (A_nnzb[ib] == MB)
+            {
+                LOG_ERROR("Number of non-zeroes per row > MB, Increase MB\n");
+            }
             int ind = ROWMAJOR(ib, A_nnzb[ib], NB, MB);
             A_indexb[ind] = jb;
             A_nnzb[ib]++;
diff --git a/src/C-interface/ellpack/bml_utilities_ellpack_typed.c b/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
index ccb56fe..7297a82 100644
--- a/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
@@ -124,6 +124,10 @@ void TYPED_FUNC(
         }
         irow--;
         icol--;
+        if (A_nnz[irow] == M)
+        {
+            LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+        }
         ind = A_nnz[irow];
         A_index[ROWMAJOR(irow, ind, N, M)] = icol;
         A_value[ROWMAJOR(irow, ind, N, M)] = value;
@@ -132,6 +136,10 @@ void TYPED_FUNC(
         // Set symmetric value if necessary
         if (symflag == 0 && icol != irow)
         {
+            if (A_nnz[icol] == M)
+            {
+                LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+            }
             ind = A_nnz[icol];
             A_index[ROWMAJOR(icol, ind, N, M)] = irow;
             A_value[ROWMAJOR(icol, ind, N, M)] = value;
-- 
2.43.0


From 1ca5a70cc57a7000fe6e86bda27546d5e9f6d92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:58 +0000
Subject: [PATCH 069/109] fix: dense and ellblock read symmetric Matrix Market
 files

---
 .../dense/bml_utilities_dense_typed.c         |  8 +++++
 .../ellblock/bml_utilities_ellblock_typed.c   | 31 ++++---------------
 2 files changed, 14 insertions(+), 25 deletions(-)

diff --git a/src/C-interface/dense/bml_utilities_dense_typed.c b/src/C-interface/dense/bml_utilities_dense_typed.c
index c443717..32c40fe 100644
--- a/src/C-interface/dense/bml_utilities_dense_typed.c
+++ b/src/C-interface/dense/bml_utilities_dense_typed.c
@@ -60,6 +60,8 @@ void TYPED_FUNC(
         LOG_ERROR("Line 1, expected 5 entries, read %d\n", values_read);
     }
 
+    int symflag = strcmp(header5, "symmetric");
+
     // The numbers in the file must be of the kind stored in the matrix
 #if defined(SINGLE_REAL) || defined(DOUBLE_REAL)
     if (strcmp(header4, "real") != 0 && strcmp(header4, "integer") != 0)
@@ -145,6 +147,12 @@ void TYPED_FUNC(
 #else
         LOG_ERROR("unknown precision\n");
 #endif
+        // Set symmetric value if necessary
+        if (symflag == 0)
+        {
+            A_matrix[ROWMAJOR(icol - 1, irow - 1, N, N)] =
+                A_matrix[ROWMAJOR(irow - 1, icol - 1, N, N)];
+        }
     }
 
 #ifdef BML_USE_MAGMA
diff --git a/src/C-interface/ellblock/bml_utilities_ellblock_typed.c b/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
index bfebec3..343cf68 100644
--- a/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
@@ -7,6 +7,7 @@
 #include "bml_types_ellblock.h"
 #include "bml_utilities_ellblock.h"
 #include "bml_allocate_ellblock.h"
+#include "bml_setters_ellblock.h"
 
 #include <complex.h>
 #include <math.h>
@@ -80,7 +81,7 @@ void TYPED_FUNC(
     TYPED_FUNC(bml_clear_ellblock) (A);
 
     // Read in values
-    for (int i = 0; i < nnz; i++)
+    for (int k = 0; k < nnz; k++)
     {
 #if defined(SINGLE_REAL)
         if (fscanf(hFile, "%d %d %e\n", &irow, &icol, &value) != 3)
@@ -111,6 +112,8 @@ void TYPED_FUNC(
         }
         irow--;
         icol--;
+        int i = irow;
+        int j = icol;
 
         /*compute block indexes */
         int ib = 0;
@@ -161,31 +164,9 @@ void TYPED_FUNC(
         }
 
         // Set symmetric value if necessary
-        if (symflag == 0 && icol != irow)
+        if (symflag == 0 && i != j)
         {
-            int found_block = 0;
-            for (int ip = 0; ip < A_nnzb[jb]; ip++)
-            {
-                int ind = ROWMAJOR(jb, ip, NB, MB);
-                int ibb = A_indexb[ROWMAJOR(jb, ip, NB, MB)];
-                if (ibb == ib)
-                {
-                    found_block = 1;
-                    REAL_T *A_value = A_ptr_value[ind];
-                    A_value[ROWMAJOR(icol, irow, A_bsize[jb], A_bsize[ib])] =
-                        value;
-                }
-            }
-            //add block if needed
-            if (found_block == 0)
-            {
-                A_indexb[A_nnzb[jb]] = ib;
-                int ind = ROWMAJOR(jb, A_nnzb[jb], NB, MB);
-                A_nnzb[jb]++;
-                REAL_T *A_value = A_ptr_value[ind];
-                A_value[ROWMAJOR(icol, irow, A_bsize[jb], A_bsize[ib])] =
-                    value;
-            }
+            TYPED_FUNC(bml_set_element_ellblock) (A, j, i, &value);
         }
     }
 
-- 
2.43.0


From e14c4aa723745d807128aeed8cdbea21dd2776db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:58 +0000
Subject: [PATCH 070/109] fix: bml_read_bml_matrix rejects symmetries it does
 not implement

---
 src/C-interface/csr/bml_utilities_csr_typed.c           | 5 +++++
 src/C-interface/dense/bml_utilities_dense_typed.c       | 5 +++++
 src/C-interface/ellblock/bml_utilities_ellblock_typed.c | 5 +++++
 src/C-interface/ellpack/bml_utilities_ellpack_typed.c   | 5 +++++
 4 files changed, 20 insertions(+)

diff --git a/src/C-interface/csr/bml_utilities_csr_typed.c b/src/C-interface/csr/bml_utilities_csr_typed.c
index a9d7133..8054b25 100644
--- a/src/C-interface/csr/bml_utilities_csr_typed.c
+++ b/src/C-interface/csr/bml_utilities_csr_typed.c
@@ -59,6 +59,11 @@ void TYPED_FUNC(
         LOG_ERROR("file contains %s numbers\n", header4);
     }
 
+    if (symflag != 0 && strcmp(header5, "general") != 0)
+    {
+        LOG_ERROR("unsupported symmetry %s\n", header5);
+    }
+
     // Read N, N, # of non-zeroes
     if (fscanf(hFile, "%d %d %d", &hdimx, &hdimy, &nnz) != 3)
     {
diff --git a/src/C-interface/dense/bml_utilities_dense_typed.c b/src/C-interface/dense/bml_utilities_dense_typed.c
index 32c40fe..428d301 100644
--- a/src/C-interface/dense/bml_utilities_dense_typed.c
+++ b/src/C-interface/dense/bml_utilities_dense_typed.c
@@ -72,6 +72,11 @@ void TYPED_FUNC(
         LOG_ERROR("file contains %s numbers\n", header4);
     }
 
+    if (symflag != 0 && strcmp(header5, "general") != 0)
+    {
+        LOG_ERROR("unsupported symmetry %s\n", header5);
+    }
+
     // Read N, N, # of non-zeroes
     if ((values_read =
          fscanf(matrix_file, "%d %d %d", &hdimx, &hdimy, &nnz)) < 3)
diff --git a/src/C-interface/ellblock/bml_utilities_ellblock_typed.c b/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
index 343cf68..8b546dc 100644
--- a/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
@@ -66,6 +66,11 @@ void TYPED_FUNC(
         LOG_ERROR("file contains %s numbers\n", header4);
     }
 
+    if (symflag != 0 && strcmp(header5, "general") != 0)
+    {
+        LOG_ERROR("unsupported symmetry %s\n", header5);
+    }
+
     // Read N, N, # of non-zeroes
     if (fscanf(hFile, "%d %d %d", &hdimx, &hdimy, &nnz) != 3)
     {
diff --git a/src/C-interface/ellpack/bml_utilities_ellpack_typed.c b/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
index 7297a82..4c15998 100644
--- a/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
@@ -67,6 +67,11 @@ void TYPED_FUNC(
         LOG_ERROR("file contains %s numbers\n", header4);
     }
 
+    if (symflag != 0 && strcmp(header5, "general") != 0)
+    {
+        LOG_ERROR("unsupported symmetry %s\n", header5);
+    }
+
     // Read N, N, # of non-zeroes
     if (fscanf(hFile, "%d %d %d", &hdimx, &hdimy, &nnz) != 3)
     {
-- 
2.43.0


From 021c178c2fe4b963c9f8b5b3eba556d1a9ae6cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:46 +0000
Subject: [PATCH 071/109] fix: bml_write_bml_matrix reports a failed write

---
 src/C-interface/csr/bml_utilities_csr_typed.c           | 6 +++++-
 src/C-interface/dense/bml_utilities_dense_typed.c       | 6 +++++-
 src/C-interface/ellblock/bml_utilities_ellblock_typed.c | 6 +++++-
 src/C-interface/ellpack/bml_utilities_ellpack_typed.c   | 6 +++++-
 4 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/C-interface/csr/bml_utilities_csr_typed.c b/src/C-interface/csr/bml_utilities_csr_typed.c
index 8054b25..95efd9b 100644
--- a/src/C-interface/csr/bml_utilities_csr_typed.c
+++ b/src/C-interface/csr/bml_utilities_csr_typed.c
@@ -210,5 +210,9 @@ void TYPED_FUNC(
         }
     }
 
-    fclose(mFile);
+    int write_error = ferror(mFile);
+    if (fclose(mFile) != 0 || write_error)
+    {
+        LOG_ERROR("error writing file %s\n", filename);
+    }
 }
diff --git a/src/C-interface/dense/bml_utilities_dense_typed.c b/src/C-interface/dense/bml_utilities_dense_typed.c
index 428d301..f10779e 100644
--- a/src/C-interface/dense/bml_utilities_dense_typed.c
+++ b/src/C-interface/dense/bml_utilities_dense_typed.c
@@ -256,7 +256,11 @@ void TYPED_FUNC(
 #ifdef BML_USE_MAGMA
     bml_free_memory(A_matrix);
 #endif
-    fclose(matrix_file);
+    int write_error = ferror(matrix_file);
+    if (fclose(matrix_file) != 0 || write_error)
+    {
+        LOG_ERROR("error writing file %s\n", filename);
+    }
 }
 
 void TYPED_FUNC(
diff --git a/src/C-interface/ellblock/bml_utilities_ellblock_typed.c b/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
index 8b546dc..c587f85 100644
--- a/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
@@ -273,7 +273,11 @@ void TYPED_FUNC(
     }
     free(offset);
 
-    fclose(mFile);
+    int write_error = ferror(mFile);
+    if (fclose(mFile) != 0 || write_error)
+    {
+        LOG_ERROR("error writing file %s\n", filename);
+    }
 }
 
 double TYPED_FUNC(
diff --git a/src/C-interface/ellpack/bml_utilities_ellpack_typed.c b/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
index 4c15998..6a09d58 100644
--- a/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
@@ -239,5 +239,9 @@ void TYPED_FUNC(
         }
     }
 
-    fclose(mFile);
+    int write_error = ferror(mFile);
+    if (fclose(mFile) != 0 || write_error)
+    {
+        LOG_ERROR("error writing file %s\n", filename);
+    }
 }
-- 
2.43.0


From 10fb7a81fc8a86d624d8f3dc6c6aacc0a7ea7539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:24 +0000
Subject: [PATCH 072/109] fix: bml_allGatherVParallel gathers the matrix's own
 element type

---
 src/C-interface/dense/bml_parallel_dense_typed.c     | 2 +-
 src/C-interface/ellpack/bml_parallel_ellpack_typed.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/C-interface/dense/bml_parallel_dense_typed.c b/src/C-interface/dense/bml_parallel_dense_typed.c
index 384da6e..78798c2 100644
--- a/src/C-interface/dense/bml_parallel_dense_typed.c
+++ b/src/C-interface/dense/bml_parallel_dense_typed.c
@@ -41,7 +41,7 @@ void TYPED_FUNC(
 
     MPI_Allgatherv(MPI_IN_PLACE, 0, MPI_DATATYPE_NULL,
                    A_matrix, A_domain->localElements,
-                   A_domain->localDispl, REAL_MPI_TYPE, ccomm);
+                   A_domain->localDispl, MPI_T, ccomm);
 #endif
 }
 
diff --git a/src/C-interface/ellpack/bml_parallel_ellpack_typed.c b/src/C-interface/ellpack/bml_parallel_ellpack_typed.c
index ac3d38c..a8e9bc7 100644
--- a/src/C-interface/ellpack/bml_parallel_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_parallel_ellpack_typed.c
@@ -67,7 +67,7 @@ void TYPED_FUNC(
     // Values
     MPI_Allgatherv(MPI_IN_PLACE, 0, MPI_DATATYPE_NULL,
                    A_value, A_domain->localElements, A_domain->localDispl,
-                   REAL_MPI_TYPE, ccomm);
+                   MPI_T, ccomm);
 
 /*
     for (int i = 0; i < nRanks; i++)
-- 
2.43.0


From 3d40bea8f52efddd284df65bd0f89e485f023c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:40 +0000
Subject: [PATCH 073/109] fix: distributed2d communicators are released

---
 src/C-interface/bml_parallel.c                     |  1 +
 .../distributed2d/bml_allocate_distributed2d.c     | 14 ++++++++++++++
 .../distributed2d/bml_allocate_distributed2d.h     |  3 +++
 3 files changed, 18 insertions(+)

diff --git a/src/C-interface/bml_parallel.c b/src/C-interface/bml_parallel.c
index 5ddab25..d3f80f0 100644
--- a/src/C-interface/bml_parallel.c
+++ b/src/C-interface/bml_parallel.c
@@ -115,6 +115,7 @@ bml_shutdownParallel(
 #ifdef BML_USE_MPI
     free(requestList);
     free(rUsed);
+    bml_freecomm_distributed2d();
 #endif
 }
 
diff --git a/src/C-interface/distributed2d/bml_allocate_distributed2d.c b/src/C-interface/distributed2d/bml_allocate_distributed2d.c
index ae9e2ff..73b981f 100644
--- a/src/C-interface/distributed2d/bml_allocate_distributed2d.c
+++ b/src/C-interface/distributed2d/bml_allocate_distributed2d.c
@@ -38,6 +38,18 @@ bml_setcomm_distributed2d(
     srand(13 * mytask + 17);
 }
 
+// release the communicator created by bml_setcomm_distributed2d()
+void
+bml_freecomm_distributed2d(
+    void)
+{
+    int finalized;
+
+    MPI_Finalized(&finalized);
+    if (s_comm != MPI_COMM_NULL && !finalized)
+        MPI_Comm_free(&s_comm);
+}
+
 // set various fields in matrix struct
 void
 bml_setup_distributed2d(
@@ -87,6 +99,8 @@ bml_deallocate_distributed2d(
     assert(A != NULL);
     assert(A->matrix != NULL);
     bml_deallocate(&(A->matrix));
+    MPI_Comm_free(&A->row_comm);
+    MPI_Comm_free(&A->col_comm);
     bml_free_memory(A);
 }
 
diff --git a/src/C-interface/distributed2d/bml_allocate_distributed2d.h b/src/C-interface/distributed2d/bml_allocate_distributed2d.h
index 066a415..230fa40 100644
--- a/src/C-interface/distributed2d/bml_allocate_distributed2d.h
+++ b/src/C-interface/distributed2d/bml_allocate_distributed2d.h
@@ -6,6 +6,9 @@
 void bml_setcomm_distributed2d(
     MPI_Comm comm);
 
+void bml_freecomm_distributed2d(
+    void);
+
 void bml_setup_distributed2d(
     const int N,
     bml_matrix_distributed2d_t * A);
-- 
2.43.0


From 5073e22d208c98b62ed5fe8b9afee9113aa79f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:41 +0000
Subject: [PATCH 074/109] fix: bml_mpi_recv grows csr rows to hold the received
 entries

---
 src/C-interface/csr/bml_parallel_csr_typed.c | 21 ++++++++------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/C-interface/csr/bml_parallel_csr_typed.c b/src/C-interface/csr/bml_parallel_csr_typed.c
index dfbabf8..92826b9 100644
--- a/src/C-interface/csr/bml_parallel_csr_typed.c
+++ b/src/C-interface/csr/bml_parallel_csr_typed.c
@@ -90,37 +90,32 @@ void TYPED_FUNC(
     int totnnz = 0;
     for (int i = 0; i < A->N_; i++)
     {
-        A->data_[i]->NNZ_ = nnz[i];
         totnnz += nnz[i];
     }
-    bml_free_memory(nnz);
 
     // recv columns indexes
     int *cols = bml_allocate_memory(sizeof(int) * totnnz);
     mpiret = MPI_Recv(cols, totnnz, MPI_INT, src, 112, comm, &status);
     if (mpiret != MPI_SUCCESS)
         LOG_ERROR("MPI_Recv failed for cols");
-    int *pcols = cols;
-    for (int i = 0; i < A->N_; i++)
-    {
-        csr_sparse_row_t *row = A->data_[i];
-        memcpy(row->cols_, pcols, row->NNZ_ * sizeof(int));
-        pcols += row->NNZ_;
-    }
-    bml_free_memory(cols);
 
     // recv matrix elements
     REAL_T *values = bml_allocate_memory(sizeof(REAL_T) * totnnz);
     mpiret = MPI_Recv(values, totnnz, MPI_T, src, 113, comm, &status);
     if (mpiret != MPI_SUCCESS)
         LOG_ERROR("MPI_Recv failed for values");
+
+    // move data into matrix, growing its rows where needed
+    int *pcols = cols;
     REAL_T *pvalues = values;
     for (int i = 0; i < A->N_; i++)
     {
-        csr_sparse_row_t *row = A->data_[i];
-        memcpy(row->vals_, pvalues, row->NNZ_ * sizeof(REAL_T));
-        pvalues += row->NNZ_;
+        TYPED_FUNC(bml_set_sparse_row_csr) (A, i, nnz[i], pcols, pvalues, 0.);
+        pcols += nnz[i];
+        pvalues += nnz[i];
     }
+    bml_free_memory(nnz);
+    bml_free_memory(cols);
     bml_free_memory(values);
 }
 
-- 
2.43.0


From c05c55714bad5ace9bbb3a39f33ca392b419b2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:41 +0000
Subject: [PATCH 075/109] fix: bml_mpi_irecv makes room for csr rows longer
 than the estimate

---
 src/C-interface/csr/bml_parallel_csr_typed.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/C-interface/csr/bml_parallel_csr_typed.c b/src/C-interface/csr/bml_parallel_csr_typed.c
index 92826b9..10e5f91 100644
--- a/src/C-interface/csr/bml_parallel_csr_typed.c
+++ b/src/C-interface/csr/bml_parallel_csr_typed.c
@@ -132,11 +132,12 @@ void TYPED_FUNC(
     if (mpiret != MPI_SUCCESS)
         LOG_ERROR("MPI_Irecv failed for nnz");
 
-    // estimate total number of non-zero one may receive
-    int totnnz = A->NZMAX_ * A->N_ * 2;
+    // the number of non-zeros is not known yet: make room for full rows
+    int totnnz = A->N_ * A->N_;
 
     // receive column indexes
-    A->cols_buffer = bml_allocate_memory(sizeof(int) * totnnz);
+    A->cols_buffer =
+        bml_noinit_allocate_memory(sizeof(int) * (size_t) totnnz);
     mpiret =
         MPI_Irecv(A->cols_buffer, totnnz, MPI_INT, src, 112, comm,
                   A->req + 1);
@@ -144,7 +145,7 @@ void TYPED_FUNC(
         LOG_ERROR("MPI_Irecv failed for cols");
 
     // recv matrix elements
-    A->buffer = bml_allocate_memory(sizeof(REAL_T) * totnnz);
+    A->buffer = bml_noinit_allocate_memory(sizeof(REAL_T) * (size_t) totnnz);
     mpiret = MPI_Irecv(A->buffer, totnnz, MPI_T, src, 113, comm, A->req + 2);
     if (mpiret != MPI_SUCCESS)
         LOG_ERROR("MPI_Irecv failed for values");
-- 
2.43.0


From 012b7b1b259ae15fb5ef5ace374edcf49c66d274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:41 +0000
Subject: [PATCH 076/109] fix: bml_mpi_bcast_matrix works on any communicator
 and for a zero csr matrix

---
 src/C-interface/csr/bml_parallel_csr_typed.c         | 12 +++++++-----
 .../ellblock/bml_parallel_ellblock_typed.c           |  9 ++++++---
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/C-interface/csr/bml_parallel_csr_typed.c b/src/C-interface/csr/bml_parallel_csr_typed.c
index 10e5f91..4b83640 100644
--- a/src/C-interface/csr/bml_parallel_csr_typed.c
+++ b/src/C-interface/csr/bml_parallel_csr_typed.c
@@ -195,19 +195,21 @@ void TYPED_FUNC(
 {
     assert(A->N_ > 0);
 
+    int myrank;
+    MPI_Comm_rank(comm, &myrank);
+
     int totnnz = 0;
-    if (bml_getMyRank() == root)
+    if (myrank == root)
         for (int i = 0; i < A->N_; i++)
         {
             totnnz += A->data_[i]->NNZ_;
         }
     MPI_Bcast(&totnnz, 1, MPI_INT, root, comm);
-    assert(totnnz > 0);
 
     // bcast cols
     int *cols = bml_allocate_memory(sizeof(int) * totnnz);
     int *pcols = cols;
-    if (bml_getMyRank() == root)
+    if (myrank == root)
         for (int i = 0; i < A->N_; i++)
         {
             csr_sparse_row_t *row = A->data_[i];
@@ -218,7 +220,7 @@ void TYPED_FUNC(
 
     // bcast nnz
     int *nnz = bml_allocate_memory(sizeof(int) * A->N_);
-    if (bml_getMyRank() == root)
+    if (myrank == root)
         for (int i = 0; i < A->N_; i++)
         {
             csr_sparse_row_t *row = A->data_[i];
@@ -229,7 +231,7 @@ void TYPED_FUNC(
     // bcast matrix elements
     REAL_T *values = bml_allocate_memory(sizeof(REAL_T) * totnnz);
     REAL_T *pvalues = values;
-    if (bml_getMyRank() == root)
+    if (myrank == root)
         for (int i = 0; i < A->N_; i++)
         {
             csr_sparse_row_t *row = A->data_[i];
diff --git a/src/C-interface/ellblock/bml_parallel_ellblock_typed.c b/src/C-interface/ellblock/bml_parallel_ellblock_typed.c
index 296a6d5..5547b1f 100644
--- a/src/C-interface/ellblock/bml_parallel_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_parallel_ellblock_typed.c
@@ -164,12 +164,15 @@ void TYPED_FUNC(
     assert(A->NB > 0);
     assert(A->MB > 0);
 
+    int myrank;
+    MPI_Comm_rank(comm, &myrank);
+
     int *indexb = bml_allocate_memory(sizeof(int) * A->NB * A->MB);
-    if (bml_getMyRank() == root)
+    if (myrank == root)
         memcpy(indexb, A->indexb, A->NB * A->MB * sizeof(int));
 
     int *nnzb = bml_allocate_memory(sizeof(int) * A->NB);
-    if (bml_getMyRank() == root)
+    if (myrank == root)
         memcpy(nnzb, A->nnzb, sizeof(int) * A->NB);
 
     MPI_Bcast(nnzb, A->NB, MPI_INT, root, comm);
@@ -178,7 +181,7 @@ void TYPED_FUNC(
     // bcast matrix elements
     REAL_T **A_ptr_value = (REAL_T **) A->ptr_value;
     REAL_T *values = bml_allocate_memory(sizeof(REAL_T) * A->N * A->M);
-    if (bml_getMyRank() == root)
+    if (myrank == root)
     {
         REAL_T *pvalues = values;
         for (int ib = 0; ib < A->NB; ib++)
-- 
2.43.0


From 501ad53f89e825f73b7431547a953556414de475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:03 +0000
Subject: [PATCH 077/109] fix: MPI transfers of ellblock matrices carry every
 stored block

---
 .../ellblock/bml_parallel_ellblock_typed.c    | 61 ++++++++++++++++---
 1 file changed, 53 insertions(+), 8 deletions(-)

diff --git a/src/C-interface/ellblock/bml_parallel_ellblock_typed.c b/src/C-interface/ellblock/bml_parallel_ellblock_typed.c
index 5547b1f..0e83038 100644
--- a/src/C-interface/ellblock/bml_parallel_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_parallel_ellblock_typed.c
@@ -19,6 +19,41 @@
 #endif
 
 #ifdef BML_USE_MPI
+/*
+ * Number of matrix elements in the stored blocks described by nnzb and indexb
+ */
+static int TYPED_FUNC(
+    count_elements_ellblock) (
+    const bml_matrix_ellblock_t * A,
+    const int *nnzb,
+    const int *indexb)
+{
+    int count = 0;
+    for (int ib = 0; ib < A->NB; ib++)
+    {
+        for (int jp = 0; jp < nnzb[ib]; jp++)
+        {
+            int jb = indexb[ROWMAJOR(ib, jp, A->NB, A->MB)];
+            count += A->bsize[ib] * A->bsize[jb];
+        }
+    }
+    return count;
+}
+
+/*
+ * Largest number of matrix elements the blocks of A can hold
+ */
+static int TYPED_FUNC(
+    max_elements_ellblock) (
+    const bml_matrix_ellblock_t * A)
+{
+    int maxbsize = 0;
+    for (int ib = 0; ib < A->NB; ib++)
+        maxbsize = A->bsize[ib] > maxbsize ? A->bsize[ib] : maxbsize;
+    int row = A->MB * maxbsize;
+    return A->N * (row < A->N ? row : A->N);
+}
+
 void TYPED_FUNC(
     bml_mpi_send_ellblock) (
     bml_matrix_ellblock_t * A,
@@ -36,7 +71,9 @@ void TYPED_FUNC(
 
     REAL_T **A_ptr_value = (REAL_T **) A->ptr_value;
 
-    REAL_T *values = bml_allocate_memory(sizeof(REAL_T) * A->N * A->M);
+    const int count =
+        TYPED_FUNC(count_elements_ellblock) (A, A->nnzb, A->indexb);
+    REAL_T *values = bml_noinit_allocate_memory(sizeof(REAL_T) * (count + 1));
     REAL_T *pvalues = values;
     for (int ib = 0; ib < A->NB; ib++)
     {
@@ -49,7 +86,7 @@ void TYPED_FUNC(
             pvalues += nelements;
         }
     }
-    MPI_Send(values, A->N * A->M, MPI_T, dst, 111, comm);
+    MPI_Send(values, count, MPI_T, dst, 111, comm);
 
     bml_free_memory(nnzb);
     bml_free_memory(indexb);
@@ -71,8 +108,12 @@ void TYPED_FUNC(
     int *nnzb = bml_allocate_memory(sizeof(int) * A->NB);
     MPI_Recv(nnzb, A->NB, MPI_INT, src, 113, comm, &status);
 
-    REAL_T *values = bml_allocate_memory(sizeof(REAL_T) * A->N * A->M);
-    MPI_Recv(values, A->N * A->M, MPI_T, src, 111, comm, &status);
+    const int count = TYPED_FUNC(count_elements_ellblock) (A, nnzb, indexb);
+    REAL_T *values = bml_noinit_allocate_memory(sizeof(REAL_T) * (count + 1));
+    MPI_Recv(values, count, MPI_T, src, 111, comm, &status);
+
+    // release the previous blocks of A
+    bml_clear_ellblock(A);
 
     // copy data into bml matrix
     memcpy(A->nnzb, nnzb, sizeof(int) * A->NB);
@@ -105,13 +146,16 @@ void TYPED_FUNC(
     const int src,
     MPI_Comm comm)
 {
+    // release the previous blocks of A
+    bml_clear_ellblock(A);
 
     MPI_Irecv(A->indexb, A->NB * A->MB, MPI_INT, src, 112, comm, A->req);
 
     MPI_Irecv(A->nnzb, A->NB, MPI_INT, src, 113, comm, A->req + 1);
 
-    A->buffer = bml_allocate_memory(sizeof(REAL_T) * A->N * A->M);
-    MPI_Irecv(A->buffer, A->N * A->M, MPI_T, src, 111, comm, A->req + 2);
+    const int count = TYPED_FUNC(max_elements_ellblock) (A);
+    A->buffer = bml_noinit_allocate_memory(sizeof(REAL_T) * count);
+    MPI_Irecv(A->buffer, count, MPI_T, src, 111, comm, A->req + 2);
 }
 
 void TYPED_FUNC(
@@ -180,7 +224,8 @@ void TYPED_FUNC(
 
     // bcast matrix elements
     REAL_T **A_ptr_value = (REAL_T **) A->ptr_value;
-    REAL_T *values = bml_allocate_memory(sizeof(REAL_T) * A->N * A->M);
+    const int count = TYPED_FUNC(count_elements_ellblock) (A, nnzb, indexb);
+    REAL_T *values = bml_noinit_allocate_memory(sizeof(REAL_T) * (count + 1));
     if (myrank == root)
     {
         REAL_T *pvalues = values;
@@ -196,7 +241,7 @@ void TYPED_FUNC(
             }
         }
     }
-    MPI_Bcast(values, A->N * A->M, MPI_T, root, comm);
+    MPI_Bcast(values, count, MPI_T, root, comm);
 
     bml_clear_ellblock(A);
 
-- 
2.43.0


From e6205c024f175725b1b3220625ce676b08aa2060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:57 +0000
Subject: [PATCH 078/109] fix: distributed2d identity is added to the diagonal
 submatrices only

---
 .../distributed2d/bml_add_distributed2d.c            | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/C-interface/distributed2d/bml_add_distributed2d.c b/src/C-interface/distributed2d/bml_add_distributed2d.c
index 9bb68e1..2f25ada 100644
--- a/src/C-interface/distributed2d/bml_add_distributed2d.c
+++ b/src/C-interface/distributed2d/bml_add_distributed2d.c
@@ -75,7 +75,11 @@ bml_add_identity_distributed2d(
     double beta,
     double threshold)
 {
-    bml_add_identity(A->matrix, beta, threshold);
+    // the identity has elements in the diagonal submatrices only
+    if (A->myprow == A->mypcol)
+        bml_add_identity(A->matrix, beta, threshold);
+    else
+        bml_add_identity(A->matrix, 0., threshold);
 }
 
 /** Matrix addition.
@@ -95,5 +99,9 @@ bml_scale_add_identity_distributed2d(
     double beta,
     double threshold)
 {
-    bml_scale_add_identity(A->matrix, alpha, beta, threshold);
+    // the identity has elements in the diagonal submatrices only
+    if (A->myprow == A->mypcol)
+        bml_scale_add_identity(A->matrix, alpha, beta, threshold);
+    else
+        bml_scale_add_identity(A->matrix, alpha, 0., threshold);
 }
-- 
2.43.0


From c341c864dc2e0b403e2672b76836c72df80c49b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:57 +0000
Subject: [PATCH 079/109] fix: imported distributed2d matrices know their
 precision

---
 src/C-interface/distributed2d/bml_import_distributed2d_typed.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/C-interface/distributed2d/bml_import_distributed2d_typed.c b/src/C-interface/distributed2d/bml_import_distributed2d_typed.c
index 4edbdd2..b36f691 100644
--- a/src/C-interface/distributed2d/bml_import_distributed2d_typed.c
+++ b/src/C-interface/distributed2d/bml_import_distributed2d_typed.c
@@ -42,6 +42,7 @@ bml_matrix_distributed2d_t *TYPED_FUNC(
     bml_setup_distributed2d(N, A_bml);
     assert(A_bml->comm != MPI_COMM_NULL);
     A_bml->M = M;
+    A_bml->matrix_precision = MATRIX_PRECISION;
 
     // local submatrix dimensions
     int n = A_bml->n;
-- 
2.43.0


From f1a4fad70442177a586e82551fd0ba53f3834513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:57 +0000
Subject: [PATCH 080/109] fix: distributed2d import and export place
 column-major blocks

---
 .../distributed2d/bml_export_distributed2d_typed.c        | 8 ++++++--
 .../distributed2d/bml_import_distributed2d_typed.c        | 7 +++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/C-interface/distributed2d/bml_export_distributed2d_typed.c b/src/C-interface/distributed2d/bml_export_distributed2d_typed.c
index 3b6246b..d13a162 100644
--- a/src/C-interface/distributed2d/bml_export_distributed2d_typed.c
+++ b/src/C-interface/distributed2d/bml_export_distributed2d_typed.c
@@ -67,8 +67,12 @@ void *TYPED_FUNC(
             int ip = coords[0];
             int jp = coords[1];
             MPI_Wait(&request[src - 1], &status);
-            C_BLAS(LACPY) ("A", &n, &n, recvbuf[src - 1], &n,
-                           A_dense + n * N * ip + n * jp, &N);
+            REAL_T *block = A_dense;
+            if (order == dense_row_major)
+                block += n * N * ip + n * jp;
+            else
+                block += n * N * jp + n * ip;
+            C_BLAS(LACPY) ("A", &n, &n, recvbuf[src - 1], &n, block, &N);
         }
         for (int src = 1; src < ntasks; src++)
         {
diff --git a/src/C-interface/distributed2d/bml_import_distributed2d_typed.c b/src/C-interface/distributed2d/bml_import_distributed2d_typed.c
index b36f691..7ce142c 100644
--- a/src/C-interface/distributed2d/bml_import_distributed2d_typed.c
+++ b/src/C-interface/distributed2d/bml_import_distributed2d_typed.c
@@ -71,8 +71,11 @@ bml_matrix_distributed2d_t *TYPED_FUNC(
             // pack data into buffer
             sendbuf[dest - 1] = bml_allocate_memory(n * n * sizeof(REAL_T));
             REAL_T *array = (REAL_T *) (A);
-            C_BLAS(LACPY) ("A", &n, &n, array + N * n * ip + n * jp, &N,
-                           sendbuf[dest - 1], &n);
+            if (order == dense_row_major)
+                array += N * n * ip + n * jp;
+            else
+                array += N * n * jp + n * ip;
+            C_BLAS(LACPY) ("A", &n, &n, array, &N, sendbuf[dest - 1], &n);
             MPI_Isend(sendbuf[dest - 1], n * n, MPI_T, dest, tag, A_bml->comm,
                       &request[dest - 1]);
         }
-- 
2.43.0


From 44248bce728e12f84608f0f7a035ada9178d883c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:58 +0000
Subject: [PATCH 081/109] fix: distributed2d functions release their temporary
 memory

---
 src/C-interface/distributed2d/bml_convert_distributed2d.c   | 2 ++
 .../distributed2d/bml_export_distributed2d_typed.c          | 1 +
 .../distributed2d/bml_getters_distributed2d_typed.c         | 1 +
 src/C-interface/distributed2d/bml_utilities_distributed2d.c | 6 ++++--
 4 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/C-interface/distributed2d/bml_convert_distributed2d.c b/src/C-interface/distributed2d/bml_convert_distributed2d.c
index 8abf870..c4e31a8 100644
--- a/src/C-interface/distributed2d/bml_convert_distributed2d.c
+++ b/src/C-interface/distributed2d/bml_convert_distributed2d.c
@@ -1,4 +1,5 @@
 #include "../bml_introspection.h"
+#include "../bml_allocate.h"
 #include "../bml_convert.h"
 #include "../bml_logger.h"
 #include "bml_allocate_distributed2d.h"
@@ -22,6 +23,7 @@ bml_convert_distributed2d(
                                                                   M);
     bml_matrix_t *matrix = bml_get_local_matrix(A);
     int m = bml_get_M(matrix);
+    bml_deallocate(&B->matrix);
     B->matrix = bml_convert(matrix, matrix_type,
                             matrix_precision, m, sequential);
 
diff --git a/src/C-interface/distributed2d/bml_export_distributed2d_typed.c b/src/C-interface/distributed2d/bml_export_distributed2d_typed.c
index d13a162..5badd92 100644
--- a/src/C-interface/distributed2d/bml_export_distributed2d_typed.c
+++ b/src/C-interface/distributed2d/bml_export_distributed2d_typed.c
@@ -81,6 +81,7 @@ void *TYPED_FUNC(
         bml_free_memory(request);
         bml_free_memory(recvbuf);
     }
+    bml_free_memory(sendbuf);
 
     return A_dense;
 }
diff --git a/src/C-interface/distributed2d/bml_getters_distributed2d_typed.c b/src/C-interface/distributed2d/bml_getters_distributed2d_typed.c
index 5de1ee6..d8a0a3a 100644
--- a/src/C-interface/distributed2d/bml_getters_distributed2d_typed.c
+++ b/src/C-interface/distributed2d/bml_getters_distributed2d_typed.c
@@ -47,6 +47,7 @@ void *TYPED_FUNC(
         LOG_ERROR
             ("bml_get_row_distributed2d: MPI_Allgatherv, MPI_ERR_BUFFER");
 
+    bml_free_memory(sub_row);
     free(recvcounts);
     free(counts);
     free(displs);
diff --git a/src/C-interface/distributed2d/bml_utilities_distributed2d.c b/src/C-interface/distributed2d/bml_utilities_distributed2d.c
index 0032279..357fa0c 100644
--- a/src/C-interface/distributed2d/bml_utilities_distributed2d.c
+++ b/src/C-interface/distributed2d/bml_utilities_distributed2d.c
@@ -22,7 +22,7 @@ bml_read_bml_matrix_distributed2d(
     int B_NB;
     int B_MB;
     int lnb;
-    int *bsizes;
+    int *bsizes = NULL;
     bml_matrix_t *Alocal = bml_get_local_matrix(A);
     bml_matrix_t *B;
     switch (bml_get_type(A->matrix))
@@ -63,6 +63,7 @@ bml_read_bml_matrix_distributed2d(
 
     bml_deallocate(&B);
     bml_deallocate(&C);
+    bml_free_memory(bsizes);
 }
 
 void
@@ -73,7 +74,7 @@ bml_write_bml_matrix_distributed2d(
     int B_NB;
     int B_MB;
     int lnb;
-    int *bsizes;
+    int *bsizes = NULL;
     bml_matrix_t *Alocal = bml_get_local_matrix(A);
 
     // task 0 collects all blocks and write matrix
@@ -127,6 +128,7 @@ bml_write_bml_matrix_distributed2d(
         // print "big" matrix containing all the distributed submatrices
         bml_write_bml_matrix(B, filename);
         bml_deallocate(&B);
+        bml_free_memory(bsizes);
     }
     else
     {
-- 
2.43.0


From f0d6e9d29a11020a8144bdd75ae7fe1852733cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:58 +0000
Subject: [PATCH 082/109] fix: bml_get_row places the pieces from more than two
 process columns

---
 src/C-interface/distributed2d/bml_getters_distributed2d_typed.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C-interface/distributed2d/bml_getters_distributed2d_typed.c b/src/C-interface/distributed2d/bml_getters_distributed2d_typed.c
index d8a0a3a..e7828f9 100644
--- a/src/C-interface/distributed2d/bml_getters_distributed2d_typed.c
+++ b/src/C-interface/distributed2d/bml_getters_distributed2d_typed.c
@@ -37,7 +37,7 @@ void *TYPED_FUNC(
 
     int *displs = calloc(A->ntasks, sizeof(int));
     for (int i = 0; i < A->ntasks - 1; i++)
-        displs[i + 1] += recvcounts[i];
+        displs[i + 1] = displs[i] + recvcounts[i];
 
     MPI_Allgatherv(sub_row, mycount, MPI_T, row, recvcounts, displs, MPI_T,
                    A->comm);
-- 
2.43.0


From 333c8291c6e4bec7e8fd49fe2442c0230880e150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:58 +0000
Subject: [PATCH 083/109] fix: distributed2d Gershgorin bounds release bml
 memory with bml_free_memory

---
 .../distributed2d/bml_normalize_distributed2d_typed.c         | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/C-interface/distributed2d/bml_normalize_distributed2d_typed.c b/src/C-interface/distributed2d/bml_normalize_distributed2d_typed.c
index e37d487..bb2ecf4 100644
--- a/src/C-interface/distributed2d/bml_normalize_distributed2d_typed.c
+++ b/src/C-interface/distributed2d/bml_normalize_distributed2d_typed.c
@@ -38,7 +38,7 @@ void *TYPED_FUNC(
     REAL_T *offdiag_sum =
         bml_accumulate_offdiag(A->matrix, A->myprow != A->mypcol);
     MPI_Allreduce(offdiag_sum, rad, nloc, MPI_T, MPI_SUM, A->row_comm);
-    free(offdiag_sum);
+    bml_free_memory(offdiag_sum);
 
     double emin = DBL_MAX;
     double emax = -DBL_MAX;
@@ -54,7 +54,7 @@ void *TYPED_FUNC(
             if (REAL_PART(dval[i] - rad[i]) < emin)
                 emin = REAL_PART(dval[i] - rad[i]);
         }
-        free(dval);
+        bml_free_memory(dval);
     }
     bml_free_memory(rad);
 
-- 
2.43.0


From 765c8e51a8d91b4c17ab0b598b2b0b74d72dd354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:34 +0000
Subject: [PATCH 084/109] fix: distributed2d sparsity does not overflow an int

---
 .../distributed2d/bml_introspection_distributed2d.c           | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/C-interface/distributed2d/bml_introspection_distributed2d.c b/src/C-interface/distributed2d/bml_introspection_distributed2d.c
index df0d49e..111771f 100644
--- a/src/C-interface/distributed2d/bml_introspection_distributed2d.c
+++ b/src/C-interface/distributed2d/bml_introspection_distributed2d.c
@@ -117,10 +117,10 @@ bml_get_sparsity_distributed2d(
 {
     double sp = bml_get_sparsity(A->matrix, threshold);
     int nloc = A->N / A->nprows;
-    sp *= nloc * nloc;
+    sp *= (double) nloc *nloc;
 
     bml_sumRealReduce(&sp);
-    sp /= (A->N * A->N);
+    sp /= ((double) A->N * A->N);
 
     return sp;
 }
-- 
2.43.0


From 51176d4fcfa891b5a39c6ddb17ceddaa56045068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:34 +0000
Subject: [PATCH 085/109] fix: distributed2d bml_multiply_x2 returns the traces

---
 .../distributed2d/bml_multiply_distributed2d.c           | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/C-interface/distributed2d/bml_multiply_distributed2d.c b/src/C-interface/distributed2d/bml_multiply_distributed2d.c
index b1c9ed1..62eb8d7 100644
--- a/src/C-interface/distributed2d/bml_multiply_distributed2d.c
+++ b/src/C-interface/distributed2d/bml_multiply_distributed2d.c
@@ -1,7 +1,9 @@
+#include "../bml_allocate.h"
 #include "../bml_logger.h"
 #include "../bml_multiply.h"
 #include "../bml_types.h"
 #include "bml_multiply_distributed2d.h"
+#include "bml_trace_distributed2d.h"
 
 #include <stdio.h>
 #include <stdlib.h>
@@ -95,7 +97,12 @@ bml_multiply_x2_distributed2d(
             LOG_ERROR("unknown precision\n");
             break;
     }
-    return NULL;
+    // traces of X and X2
+    double *trace = bml_allocate_memory(sizeof(double) * 2);
+    trace[0] = bml_trace_distributed2d(X);
+    trace[1] = bml_trace_distributed2d(X2);
+
+    return trace;
 }
 
 /** Matrix multiply.
-- 
2.43.0


From c19c22c3b390a7129970c8cf548af25866a9a3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:26 +0000
Subject: [PATCH 086/109] fix: dense bml_add works on the rows of its own rank

---
 src/C-interface/dense/bml_add_dense_typed.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/C-interface/dense/bml_add_dense_typed.c b/src/C-interface/dense/bml_add_dense_typed.c
index 95938b0..da6aa66 100644
--- a/src/C-interface/dense/bml_add_dense_typed.c
+++ b/src/C-interface/dense/bml_add_dense_typed.c
@@ -134,9 +134,11 @@ void TYPED_FUNC(
 #ifdef NOBLAS
     LOG_ERROR("No BLAS library");
 #else
-    C_BLAS(SCAL) (&nElems, &alpha_, A->matrix + startIndex, &inc);
-    C_BLAS(AXPY) (&nElems, &beta_, B->matrix + startIndex, &inc,
-                  A->matrix + startIndex, &inc);
+    REAL_T *A_local = (REAL_T *) A->matrix + startIndex;
+    REAL_T *B_local = (REAL_T *) B->matrix + startIndex;
+
+    C_BLAS(SCAL) (&nElems, &alpha_, A_local, &inc);
+    C_BLAS(AXPY) (&nElems, &beta_, B_local, &inc, A_local, &inc);
 #endif
 #endif
 }
-- 
2.43.0


From c2018db7aeee7d1e132a15ef2f26dab646d95bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:26 +0000
Subject: [PATCH 087/109] fix: bml_multiply_x2 hands back the traces of
 distributed2d matrices

---
 src/C-interface/bml_multiply.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C-interface/bml_multiply.c b/src/C-interface/bml_multiply.c
index 463852b..7b4e638 100644
--- a/src/C-interface/bml_multiply.c
+++ b/src/C-interface/bml_multiply.c
@@ -90,7 +90,7 @@ bml_multiply_x2(
             break;
 #ifdef BML_USE_MPI
         case distributed2d:
-            bml_multiply_x2_distributed2d(X, X2, threshold);
+            return bml_multiply_x2_distributed2d(X, X2, threshold);
             break;
 #endif
         default:
-- 
2.43.0


From a13166c24b2f02fedc9056af4cee711b21dd5734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:26 +0000
Subject: [PATCH 088/109] fix: bml_fnorm2 dispatches distributed2d matrices

---
 src/C-interface/bml_norm.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/C-interface/bml_norm.c b/src/C-interface/bml_norm.c
index 60252fb..301d17f 100644
--- a/src/C-interface/bml_norm.c
+++ b/src/C-interface/bml_norm.c
@@ -230,6 +230,11 @@ bml_fnorm2(
         case csr:
             return bml_fnorm2_csr(A, B);
             break;
+#ifdef BML_USE_MPI
+        case distributed2d:
+            return bml_fnorm2_distributed2d(A, B);
+            break;
+#endif
         default:
             LOG_ERROR("unknown matrix type\n");
             break;
-- 
2.43.0


From e10cc371b1c84d980cbefe6aca147e74f4ddfbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:26 +0000
Subject: [PATCH 089/109] fix: bml_get_distribution_mode dispatches
 distributed2d matrices

---
 src/C-interface/bml_introspection.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/C-interface/bml_introspection.c b/src/C-interface/bml_introspection.c
index c5470fa..bc8b8c6 100644
--- a/src/C-interface/bml_introspection.c
+++ b/src/C-interface/bml_introspection.c
@@ -282,6 +282,11 @@ bml_get_distribution_mode(
         case csr:
             return bml_get_distribution_mode_csr(A);
             break;
+#ifdef BML_USE_MPI
+        case distributed2d:
+            return bml_get_distribution_mode_distributed2d(A);
+            break;
+#endif
         default:
             LOG_ERROR("unknown matrix type in bml_get_distribution_mode\n");
             break;
-- 
2.43.0


From 1031d3dd7e243b00e54dae1a8102f2c6557259db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:26 +0000
Subject: [PATCH 090/109] fix: bml_convert gives local matrices their share of
 M

---
 src/C-interface/distributed2d/bml_convert_distributed2d.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C-interface/distributed2d/bml_convert_distributed2d.c b/src/C-interface/distributed2d/bml_convert_distributed2d.c
index c4e31a8..60a73f7 100644
--- a/src/C-interface/distributed2d/bml_convert_distributed2d.c
+++ b/src/C-interface/distributed2d/bml_convert_distributed2d.c
@@ -22,7 +22,7 @@ bml_convert_distributed2d(
                                                                   N,
                                                                   M);
     bml_matrix_t *matrix = bml_get_local_matrix(A);
-    int m = bml_get_M(matrix);
+    int m = M / B->npcols;
     bml_deallocate(&B->matrix);
     B->matrix = bml_convert(matrix, matrix_type,
                             matrix_precision, m, sequential);
-- 
2.43.0


From feeaa12b9fdfb8450689b585aee1dccc802e51c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:02 +0000
Subject: [PATCH 091/109] fix: Fortran bml_clear passes the matrix, not the
 address of its pointer

---
 src/Fortran-interface/bml_c_interface_m.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Fortran-interface/bml_c_interface_m.F90 b/src/Fortran-interface/bml_c_interface_m.F90
index 3be9493..7c3b1b7 100644
--- a/src/Fortran-interface/bml_c_interface_m.F90
+++ b/src/Fortran-interface/bml_c_interface_m.F90
@@ -214,7 +214,7 @@ module bml_c_interface_m
 
     subroutine bml_clear_C(a) bind(C, name="bml_clear")
       import :: C_PTR
-      type(C_PTR) :: a
+      type(C_PTR), value, intent(in) :: a
     end subroutine bml_clear_C
 
     subroutine bml_free_C(cptr) bind(C, name="bml_free_ptr")
-- 
2.43.0


From 2322414ada84b3f68c09d807b73d5223f00558b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:02 +0000
Subject: [PATCH 092/109] fix: Fortran introspection knows the number of the
 csr format

---
 src/Fortran-interface/bml_introspection_m.F90 | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Fortran-interface/bml_introspection_m.F90 b/src/Fortran-interface/bml_introspection_m.F90
index bbd87d5..599892c 100644
--- a/src/Fortran-interface/bml_introspection_m.F90
+++ b/src/Fortran-interface/bml_introspection_m.F90
@@ -96,8 +96,10 @@ contains
       bml_get_type = "ellpack"
     case(3)
       bml_get_type = "ellblock"
-    case(5)
+    case(4)
       bml_get_type = "csr"
+    case(5)
+      bml_get_type = "distributed2d"
     case default
       stop 'Unknown matrix type in bml_get_type'
     end select
@@ -125,7 +127,7 @@ contains
       bml_get_deep_type = "ellpack"
     case(3)
       bml_get_deep_type = "ellblock"
-    case(5)
+    case(4)
       bml_get_deep_type = "csr"
     case default
       stop 'Unknown matrix type in bml_get_deep_type'
-- 
2.43.0


From 48435dab503c3a3b0768c21bd9fe1f4098b4b2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:02 +0000
Subject: [PATCH 093/109] fix: Fortran introspection knows the number of the
 graph distributed mode

---
 src/Fortran-interface/bml_introspection_m.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Fortran-interface/bml_introspection_m.F90 b/src/Fortran-interface/bml_introspection_m.F90
index 599892c..84a465e 100644
--- a/src/Fortran-interface/bml_introspection_m.F90
+++ b/src/Fortran-interface/bml_introspection_m.F90
@@ -225,7 +225,7 @@ contains
       bml_get_distribution_mode = "sequential"
     case(1)
       bml_get_distribution_mode = "distributed"
-    case(3)
+    case(2)
       bml_get_distribution_mode = "graph_distributed"
     case default
       stop 'Unknown distribution type in bml_get_distribution_mode'
-- 
2.43.0


From ed41ebc1eeb4d7e9f387a1cd21858c59264c23b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:02 +0000
Subject: [PATCH 094/109] fix: Fortran bml_get_element_precision of complex
 matrices

---
 src/Fortran-interface/bml_introspection_m.F90 | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Fortran-interface/bml_introspection_m.F90 b/src/Fortran-interface/bml_introspection_m.F90
index 84a465e..ea94094 100644
--- a/src/Fortran-interface/bml_introspection_m.F90
+++ b/src/Fortran-interface/bml_introspection_m.F90
@@ -172,6 +172,10 @@ contains
       bml_get_element_precision = kind(1.0)
     case(2)
       bml_get_element_precision = kind(1.0d0)
+    case(3)
+      bml_get_element_precision = kind(1.0)
+    case(4)
+      bml_get_element_precision = kind(1.0d0)
     case default
       stop 'Unknown elements type/precision'
     end select
-- 
2.43.0


From f59b798b0f42e16dfbe3372c4b7f82ae5532cd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:02 +0000
Subject: [PATCH 095/109] fix: Fortran bml_transpose_triangle passes the
 triangle

---
 src/Fortran-interface/bml_transpose_triangle_m.F90 | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Fortran-interface/bml_transpose_triangle_m.F90 b/src/Fortran-interface/bml_transpose_triangle_m.F90
index e4a2f6b..cf33b54 100644
--- a/src/Fortran-interface/bml_transpose_triangle_m.F90
+++ b/src/Fortran-interface/bml_transpose_triangle_m.F90
@@ -20,7 +20,12 @@ contains
     type(bml_matrix_t), intent(inout) :: a
     character(C_CHAR), intent(in) :: triangle
 
-    call bml_transpose_triangle_C(a%ptr, triangle)
+    ! gfortran passes a byte of the address when a dummy argument is handed
+    ! on by value, so hand on a local variable.
+    character(C_CHAR) :: triangle_
+
+    triangle_ = triangle
+    call bml_transpose_triangle_C(a%ptr, triangle_)
 
   end subroutine bml_transpose_triangle
 
-- 
2.43.0


From da3c5e664579ada2e853b668e243677eea8e675f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:02 +0000
Subject: [PATCH 096/109] fix: Fortran array sections are packed before C reads
 them

---
 src/Fortran-interface/bml_import_m.F90          | 8 ++++----
 src/Fortran-interface/bml_utilities_typed_m.F90 | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/Fortran-interface/bml_import_m.F90 b/src/Fortran-interface/bml_import_m.F90
index 9c80ca9..2ee14e0 100644
--- a/src/Fortran-interface/bml_import_m.F90
+++ b/src/Fortran-interface/bml_import_m.F90
@@ -32,7 +32,7 @@ contains
        & m, distrib_mode)
 
     character(len=*), intent(in) :: matrix_type
-    real(C_FLOAT), target, intent(in) :: a_dense(:, :)
+    real(C_FLOAT), target, contiguous, intent(in) :: a_dense(:, :)
     type(bml_matrix_t), intent(inout) :: a
     real(C_DOUBLE), optional, intent(in) :: threshold
     integer, optional, intent(in) :: m
@@ -93,7 +93,7 @@ contains
        & m, distrib_mode)
 
     character(len=*), intent(in) :: matrix_type
-    real(C_DOUBLE), target, intent(in) :: a_dense(:, :)
+    real(C_DOUBLE), target, contiguous, intent(in) :: a_dense(:, :)
     type(bml_matrix_t), intent(inout) :: a
     real(C_DOUBLE), optional, intent(in) :: threshold
     integer, optional, intent(in) :: m
@@ -153,7 +153,7 @@ contains
   subroutine bml_import_from_dense_single_complex(matrix_type, a_dense, a, threshold, m, distrib_mode)
 
     character(len=*), intent(in) :: matrix_type
-    complex(C_FLOAT_COMPLEX), target, intent(in) :: a_dense(:, :)
+    complex(C_FLOAT_COMPLEX), target, contiguous, intent(in) :: a_dense(:, :)
     type(bml_matrix_t), intent(inout) :: a
     real(C_DOUBLE), optional, intent(in) :: threshold
     integer, optional, intent(in) :: m
@@ -213,7 +213,7 @@ contains
   subroutine bml_import_from_dense_double_complex(matrix_type, a_dense, a, threshold, m, distrib_mode)
 
     character(len=*), intent(in) :: matrix_type
-    complex(C_DOUBLE_COMPLEX), target, intent(in) :: a_dense(:, :)
+    complex(C_DOUBLE_COMPLEX), target, contiguous, intent(in) :: a_dense(:, :)
     type(bml_matrix_t), intent(inout) :: a
     real(C_DOUBLE), optional, intent(in) :: threshold
     integer, optional, intent(in) :: m
diff --git a/src/Fortran-interface/bml_utilities_typed_m.F90 b/src/Fortran-interface/bml_utilities_typed_m.F90
index d62ac3b..0d4d99d 100644
--- a/src/Fortran-interface/bml_utilities_typed_m.F90
+++ b/src/Fortran-interface/bml_utilities_typed_m.F90
@@ -29,7 +29,7 @@ contains
   subroutine bml_print_dense_matrix_MATRIX_TYPE(tag, a, i_l, i_u, j_l, j_u)
 
     character(len=*), intent(in) :: tag
-    REAL_TYPE, target, intent(in) :: a(:, :)
+    REAL_TYPE, target, contiguous, intent(in) :: a(:, :)
     integer(C_INT), intent(in) :: i_l
     integer(C_INT), intent(in) :: i_u
     integer(C_INT), intent(in) :: j_l
-- 
2.43.0


From e02387bea7e066ac3c195ef5b3fb56f481cf41a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:02 +0000
Subject: [PATCH 097/109] fix: Fortran adjacency lists are output arguments

---
 src/Fortran-interface/bml_submatrix_m.F90 | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Fortran-interface/bml_submatrix_m.F90 b/src/Fortran-interface/bml_submatrix_m.F90
index 76690a1..9f56a14 100644
--- a/src/Fortran-interface/bml_submatrix_m.F90
+++ b/src/Fortran-interface/bml_submatrix_m.F90
@@ -119,8 +119,8 @@ contains
   subroutine bml_adjacency(a, xadj, adjncy, base_flag)
 
     type(bml_matrix_t), intent(in) :: a
-    integer(C_INT), target, intent(in) :: xadj(*)
-    integer(C_INT), target, intent(in) :: adjncy(*)
+    integer(C_INT), target, intent(inout) :: xadj(*)
+    integer(C_INT), target, intent(inout) :: adjncy(*)
     integer(C_INT), intent(in) :: base_flag
 
     call bml_adjacency_C(a%ptr, c_loc(xadj), c_loc(adjncy), base_flag)
@@ -141,8 +141,8 @@ contains
 
     type(bml_matrix_t), intent(in) :: a
     integer(C_INT), target, intent(in) :: hindex(*)
-    integer(C_INT), target, intent(in) :: xadj(*)
-    integer(C_INT), target, intent(in) :: adjncy(*)
+    integer(C_INT), target, intent(inout) :: xadj(*)
+    integer(C_INT), target, intent(inout) :: adjncy(*)
     integer(C_INT), intent(in) :: nnodes, base_flag
 
     call bml_adjacency_group_C(a%ptr, c_loc(hindex), nnodes, c_loc(xadj), c_loc(adjncy), base_flag)
-- 
2.43.0


From 8ffa23d8b4677a3ec07317674ed35376f9f2b6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:02 +0000
Subject: [PATCH 098/109] fix: Fortran refuses unknown element types and kinds

---
 src/Fortran-interface/bml_interface_m.F90 | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Fortran-interface/bml_interface_m.F90 b/src/Fortran-interface/bml_interface_m.F90
index b0fb9e0..28abf52 100644
--- a/src/Fortran-interface/bml_interface_m.F90
+++ b/src/Fortran-interface/bml_interface_m.F90
@@ -137,6 +137,7 @@ contains
         id = bml_matrix_precision_double_real_enum_id
       case default
         print "(A,1X,I0)", "Unknown element kind:", element_kind
+        error stop
       end select
 
     case (BML_ELEMENT_COMPLEX)
@@ -147,10 +148,12 @@ contains
         id = bml_matrix_precision_double_complex_enum_id
       case default
         print "(A,1X,I0)", "Unknown element kind:", element_kind
+        error stop
       end select
 
     case default
       print "(A,1X,A)", "Unknown element type:", element_type
+      error stop
 
     end select
 
-- 
2.43.0


From da65dd8b7bfbf17588a33f768f12a2ec4c742fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:02 +0000
Subject: [PATCH 099/109] fix: bml_get_distribution_mode dispatches ellblock

---
 src/C-interface/bml_introspection.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/C-interface/bml_introspection.c b/src/C-interface/bml_introspection.c
index bc8b8c6..8f4fb64 100644
--- a/src/C-interface/bml_introspection.c
+++ b/src/C-interface/bml_introspection.c
@@ -279,6 +279,9 @@ bml_get_distribution_mode(
         case ellpack:
             return bml_get_distribution_mode_ellpack(A);
             break;
+        case ellblock:
+            return bml_get_distribution_mode_ellblock(A);
+            break;
         case csr:
             return bml_get_distribution_mode_csr(A);
             break;
-- 
2.43.0


From 68f9a13fb0bae7265703eb2b25ba9ca160ba6a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:51 +0000
Subject: [PATCH 100/109] fix: Fortran bml_diagonalize returns eigenvalues of
 every element type

---
 src/Fortran-interface/bml_diagonalize_m.F90 | 25 ++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/Fortran-interface/bml_diagonalize_m.F90 b/src/Fortran-interface/bml_diagonalize_m.F90
index 7b6c4ce..48a047a 100644
--- a/src/Fortran-interface/bml_diagonalize_m.F90
+++ b/src/Fortran-interface/bml_diagonalize_m.F90
@@ -23,7 +23,30 @@ contains
     real(C_DOUBLE), target, intent(inout) :: eigenvalues(*)
     type(bml_matrix_t), intent(inout) :: eigenvectors
 
-    call bml_diagonalize_C(a%ptr, c_loc(eigenvalues), eigenvectors%ptr)
+    ! The C interface stores eigenvalues in the element type of the matrix.
+    real(C_FLOAT), allocatable, target :: e_s(:)
+    complex(C_FLOAT_COMPLEX), allocatable, target :: e_c(:)
+    complex(C_DOUBLE_COMPLEX), allocatable, target :: e_z(:)
+    integer :: n
+
+    n = bml_get_N(a)
+
+    select case(bml_get_precision(a))
+    case(1)
+      allocate(e_s(n))
+      call bml_diagonalize_C(a%ptr, c_loc(e_s), eigenvectors%ptr)
+      eigenvalues(1:n) = real(e_s, C_DOUBLE)
+    case(3)
+      allocate(e_c(n))
+      call bml_diagonalize_C(a%ptr, c_loc(e_c), eigenvectors%ptr)
+      eigenvalues(1:n) = real(e_c, C_DOUBLE)
+    case(4)
+      allocate(e_z(n))
+      call bml_diagonalize_C(a%ptr, c_loc(e_z), eigenvectors%ptr)
+      eigenvalues(1:n) = real(e_z, C_DOUBLE)
+    case default
+      call bml_diagonalize_C(a%ptr, c_loc(eigenvalues), eigenvectors%ptr)
+    end select
 
   end subroutine bml_diagonalize
 
-- 
2.43.0


From 92769fee8f7027764ea048432cca3429e3bead3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:24 +0000
Subject: [PATCH 101/109] fix: failed aligned allocations are reported instead
 of using an uninitialized pointer

---
 src/C-interface/bml_allocate.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/C-interface/bml_allocate.c b/src/C-interface/bml_allocate.c
index 7372cbc..a63bf18 100644
--- a/src/C-interface/bml_allocate.c
+++ b/src/C-interface/bml_allocate.c
@@ -54,8 +54,13 @@ bml_allocate_memory(
         ptr[i] = 0;
     }
 #elif defined(BML_USE_POSIX_MEMALIGN)
-    char *ptr;
-    posix_memalign((void **) &ptr, MALLOC_ALIGNMENT, size);
+    char *ptr = NULL;
+    errno = posix_memalign((void **) &ptr, MALLOC_ALIGNMENT, size);
+    if (errno != 0)
+    {
+        LOG_ERROR("error allocating memory of size %zu: %s\n", size,
+                  strerror(errno));
+    }
 #pragma omp simd
     for (size_t i = 0; i < size; i++)
     {
@@ -67,7 +72,7 @@ bml_allocate_memory(
 
     if (ptr == NULL)
     {
-        LOG_ERROR("error allocating memory of size %d: %s\n", size,
+        LOG_ERROR("error allocating memory of size %zu: %s\n", size,
                   strerror(errno));
     }
     return (void *) ptr;
@@ -88,7 +93,11 @@ bml_noinit_allocate_memory(
     void *ptr = _mm_malloc(size, MALLOC_ALIGNMENT);
 #elif defined(BML_USE_POSIX_MEMALIGN)
     void *ptr;
-    posix_memalign(&ptr, MALLOC_ALIGNMENT, size);
+    errno = posix_memalign(&ptr, MALLOC_ALIGNMENT, size);
+    if (errno != 0)
+    {
+        ptr = NULL;
+    }
 #else
     void *ptr = malloc(size);
 #endif
-- 
2.43.0


From d3cc75cd011a4fea139486b03ff77fd0465be87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:24 +0000
Subject: [PATCH 102/109] fix: ellblock work arrays are allocated with an error
 check

---
 src/C-interface/ellblock/bml_add_ellblock_typed.c   | 12 ++++++------
 .../ellblock/bml_convert_ellblock_typed.c           |  8 ++++----
 .../ellblock/bml_export_ellblock_typed.c            |  4 ++--
 .../ellblock/bml_getters_ellblock_typed.c           |  9 +++++----
 .../ellblock/bml_import_ellblock_typed.c            |  8 ++++----
 .../ellblock/bml_multiply_ellblock_typed.c          |  8 ++++----
 src/C-interface/ellblock/bml_norm_ellblock_typed.c  | 13 +++++++------
 .../ellblock/bml_normalize_ellblock_typed.c         | 10 +++++-----
 .../ellblock/bml_utilities_ellblock_typed.c         |  5 +++--
 9 files changed, 40 insertions(+), 37 deletions(-)

diff --git a/src/C-interface/ellblock/bml_add_ellblock_typed.c b/src/C-interface/ellblock/bml_add_ellblock_typed.c
index d84154d..26bd033 100644
--- a/src/C-interface/ellblock/bml_add_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_add_ellblock_typed.c
@@ -76,7 +76,7 @@ void TYPED_FUNC(
 #else
     const int nthreads = 1;
 #endif
-    REAL_T *x_ptr_storage = calloc(maxbsize2 * NB * nthreads, sizeof(REAL_T));
+    REAL_T *x_ptr_storage = bml_allocate_memory(sizeof(REAL_T) * maxbsize2 * NB * nthreads);
 
     char xptrset = 0;
 #if defined(__IBMC__) || defined(__ibmxl__)
@@ -196,7 +196,7 @@ void TYPED_FUNC(
         A_nnzb[ib] = ll;
     }
 
-    free(x_ptr_storage);
+    bml_free_memory(x_ptr_storage);
 }
 
 /** Matrix addition.
@@ -243,14 +243,14 @@ double TYPED_FUNC(
     for (int ib = 0; ib < NB; ib++)
         maxbsize = MAX(maxbsize, bsize[ib]);
     int maxbsize2 = maxbsize * maxbsize;
-    x[0] = (REAL_T *) calloc(maxbsize2 * NB, sizeof(REAL_T));
+    x[0] = (REAL_T *) bml_allocate_memory(sizeof(REAL_T) * maxbsize2 * NB);
     for (int i = 1; i < NB; i++)
     {
         x[i] = x[0] + i * maxbsize2;
     }
 
     REAL_T *y[NB];
-    y[0] = (REAL_T *) calloc(maxbsize2 * NB, sizeof(REAL_T));
+    y[0] = (REAL_T *) bml_allocate_memory(sizeof(REAL_T) * maxbsize2 * NB);
     for (int i = 1; i < NB; i++)
     {
         y[i] = y[0] + i * maxbsize2;
@@ -355,8 +355,8 @@ double TYPED_FUNC(
         A_nnzb[ib] = ll;
     }
 
-    free(x[0]);
-    free(y[0]);
+    bml_free_memory(x[0]);
+    bml_free_memory(y[0]);
 
     return trnorm;
 }
diff --git a/src/C-interface/ellblock/bml_convert_ellblock_typed.c b/src/C-interface/ellblock/bml_convert_ellblock_typed.c
index 33de04b..1450e3b 100644
--- a/src/C-interface/ellblock/bml_convert_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_convert_ellblock_typed.c
@@ -36,7 +36,7 @@ bml_matrix_ellblock_t *TYPED_FUNC(
                                                distrib_mode);
 
     int NB = B->NB;
-    int *offset = malloc(NB * sizeof(int));
+    int *offset = bml_noinit_allocate_memory(NB * sizeof(int));
     offset[0] = 0;
     for (int ib = 1; ib < NB; ib++)
         offset[ib] = offset[ib - 1] + bsize[ib - 1];
@@ -54,7 +54,7 @@ bml_matrix_ellblock_t *TYPED_FUNC(
                 = TYPED_FUNC(bml_allocate_block_ellblock) (B, ib, nelements);
             B->indexb[ind] = jb;
 
-            REAL_T *block = malloc(nelements * sizeof(REAL_T));
+            REAL_T *block = bml_noinit_allocate_memory(nelements * sizeof(REAL_T));
             for (int ii = 0; ii < bsize[ib]; ii++)
                 for (int jj = 0; jj < bsize[jb]; jj++)
                 {
@@ -64,10 +64,10 @@ bml_matrix_ellblock_t *TYPED_FUNC(
                     block[ROWMAJOR(ii, jj, bsize[ib], bsize[jb])] = alpha;
                 }
             TYPED_FUNC(bml_set_block_ellblock) (B, ib, jb, block);
-            free(block);
+            bml_free_memory(block);
         }
     }
-    free(offset);
+    bml_free_memory(offset);
 
     return B;
 }
diff --git a/src/C-interface/ellblock/bml_export_ellblock_typed.c b/src/C-interface/ellblock/bml_export_ellblock_typed.c
index a86c987..0c792dc 100644
--- a/src/C-interface/ellblock/bml_export_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_export_ellblock_typed.c
@@ -40,7 +40,7 @@ void *TYPED_FUNC(
     int *bsize = A->bsize;
     REAL_T *A_dense = bml_allocate_memory(sizeof(REAL_T) * N * N);
     REAL_T **A_ptr_value = (REAL_T **) A->ptr_value;
-    int *offset = malloc(NB * sizeof(int));
+    int *offset = bml_noinit_allocate_memory(NB * sizeof(int));
     offset[0] = 0;
     for (int ib = 1; ib < NB; ib++)
     {
@@ -96,7 +96,7 @@ void *TYPED_FUNC(
             LOG_ERROR("unknown order\n");
             break;
     }
-    free(offset);
+    bml_free_memory(offset);
 
     return A_dense;
 }
diff --git a/src/C-interface/ellblock/bml_getters_ellblock_typed.c b/src/C-interface/ellblock/bml_getters_ellblock_typed.c
index 01a13a1..3eac1d8 100644
--- a/src/C-interface/ellblock/bml_getters_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_getters_ellblock_typed.c
@@ -1,3 +1,4 @@
+#include "../bml_allocate.h"
 #include "bml_getters_ellblock.h"
 #include "../bml_introspection.h"
 #include "../bml_logger.h"
@@ -85,7 +86,7 @@ void *TYPED_FUNC(
     int *A_nnzb = A->nnzb;
     int *bsize = A->bsize;
 
-    REAL_T *row = calloc(A->N, sizeof(REAL_T));
+    REAL_T *row = bml_allocate_memory(sizeof(REAL_T) * A->N);
     for (int ii = 0; ii < A->N; ii++)
     {
         row[ii] = 0.0;
@@ -100,7 +101,7 @@ void *TYPED_FUNC(
         ib++;
     }
 
-    int *offset = malloc(A_NB * sizeof(int));
+    int *offset = bml_noinit_allocate_memory(A_NB * sizeof(int));
     offset[0] = 0;
     for (int jb = 1; jb < A_NB; jb++)
         offset[jb] = offset[jb - 1] + bsize[jb - 1];
@@ -119,7 +120,7 @@ void *TYPED_FUNC(
             }
         }
     }
-    free(offset);
+    bml_free_memory(offset);
 
     return row;
 }
@@ -142,7 +143,7 @@ void *TYPED_FUNC(
     int *indexb = A->indexb;
     int *nnzb = A->nnzb;
     int *bsize = A->bsize;
-    REAL_T *diagonal = calloc(A->N, sizeof(REAL_T));
+    REAL_T *diagonal = bml_allocate_memory(sizeof(REAL_T) * A->N);
 
     int offset = 0;
     for (int ib = 0; ib < NB; ib++)
diff --git a/src/C-interface/ellblock/bml_import_ellblock_typed.c b/src/C-interface/ellblock/bml_import_ellblock_typed.c
index 4f63d71..2482569 100644
--- a/src/C-interface/ellblock/bml_import_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_import_ellblock_typed.c
@@ -45,7 +45,7 @@ bml_matrix_ellblock_t
 
     REAL_T *dense_A = (REAL_T *) A;
 
-    int *offset = malloc(NB * sizeof(int));
+    int *offset = bml_noinit_allocate_memory(NB * sizeof(int));
     offset[0] = 0;
     for (int ib = 1; ib < NB; ib++)
     {
@@ -59,7 +59,7 @@ bml_matrix_ellblock_t
         for (int jb = 0; jb < NB; jb++)
         {
             int nelements = A_bsize[ib] * A_bsize[jb];
-            REAL_T *A_ij = malloc(nelements * sizeof(REAL_T));
+            REAL_T *A_ij = bml_noinit_allocate_memory(nelements * sizeof(REAL_T));
             switch (order)
             {
                 case dense_row_major:
@@ -99,10 +99,10 @@ bml_matrix_ellblock_t
                 A_indexb[ind] = jb;
                 A_nnzb[ib]++;
             }
-            free(A_ij);
+            bml_free_memory(A_ij);
         }
     }
-    free(offset);
+    bml_free_memory(offset);
 
     return A_bml;
 }
diff --git a/src/C-interface/ellblock/bml_multiply_ellblock_typed.c b/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
index 25f6fe1..489a66d 100644
--- a/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
@@ -527,7 +527,7 @@ void TYPED_FUNC(
 #else
     int nthreads = 1;
 #endif
-    REAL_T *x_ptr_storage = calloc(maxbsize2 * NB * nthreads, sizeof(REAL_T));
+    REAL_T *x_ptr_storage = bml_allocate_memory(sizeof(REAL_T) * maxbsize2 * NB * nthreads);
 
     char xptrset = 0;
 
@@ -653,7 +653,7 @@ void TYPED_FUNC(
         bml_free_memory(T_value_right);
     }
 
-    free(x_ptr_storage);
+    bml_free_memory(x_ptr_storage);
 }
 
 /** Matrix multiply with threshold adjustment.
@@ -709,7 +709,7 @@ void TYPED_FUNC(
         maxbsize = MAX(maxbsize, bsize[ib]);
     int maxbsize2 = maxbsize * maxbsize;
     for (int ib = 0; ib < NB; ib++)
-        x_ptr[ib] = calloc(maxbsize2, sizeof(REAL_T));
+        x_ptr[ib] = bml_allocate_memory(sizeof(REAL_T) * maxbsize2);
 
     while (aflag > 0)
     {
@@ -805,5 +805,5 @@ void TYPED_FUNC(
     }
 
     for (int ib = 0; ib < NB; ib++)
-        free(x_ptr[ib]);
+        bml_free_memory(x_ptr[ib]);
 }
diff --git a/src/C-interface/ellblock/bml_norm_ellblock_typed.c b/src/C-interface/ellblock/bml_norm_ellblock_typed.c
index fe7ce08..16efda9 100644
--- a/src/C-interface/ellblock/bml_norm_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_norm_ellblock_typed.c
@@ -1,3 +1,4 @@
+#include "../bml_allocate.h"
 #include "../../macros.h"
 #include "../../typed.h"
 #include "../bml_norm.h"
@@ -96,7 +97,7 @@ double TYPED_FUNC(
     int maxbsize2 = maxbsize * maxbsize;
     REAL_T *y_ptr[NB];
     for (int ib = 0; ib < NB; ib++)
-        y_ptr[ib] = calloc(maxbsize2, sizeof(REAL_T));
+        y_ptr[ib] = bml_allocate_memory(sizeof(REAL_T) * maxbsize2);
 
     int ix[NB], jjb[NB];
 
@@ -159,7 +160,7 @@ double TYPED_FUNC(
     }
 
     for (int ib = 0; ib < NB; ib++)
-        free(y_ptr[ib]);
+        bml_free_memory(y_ptr[ib]);
     return (double) REAL_PART(sum);
 }
 
@@ -205,7 +206,7 @@ double TYPED_FUNC(
     int maxbsize2 = maxbsize * maxbsize;
     REAL_T *y_ptr[NB];
     for (int ib = 0; ib < NB; ib++)
-        y_ptr[ib] = calloc(maxbsize2, sizeof(REAL_T));
+        y_ptr[ib] = bml_allocate_memory(sizeof(REAL_T) * maxbsize2);
 
     int ix[NB], jjb[NB];
 
@@ -271,7 +272,7 @@ double TYPED_FUNC(
     }
 
     for (int ib = 0; ib < NB; ib++)
-        free(y_ptr[ib]);
+        bml_free_memory(y_ptr[ib]);
     return (double) REAL_PART(sum);
 }
 
@@ -331,7 +332,7 @@ double TYPED_FUNC(
     for (int ib = 0; ib < NB; ib++)
         maxbsize = MAX(maxbsize, bsize[ib]);
     int maxbsize2 = maxbsize * maxbsize;
-    REAL_T *zero_block = calloc(maxbsize2, sizeof(REAL_T));
+    REAL_T *zero_block = bml_allocate_memory(sizeof(REAL_T) * maxbsize2);
 
     for (int ib = 0; ib < NB; ib++)
     {
@@ -398,7 +399,7 @@ double TYPED_FUNC(
 
     fnorm = sqrt(fnorm);
 
-    free(zero_block);
+    bml_free_memory(zero_block);
 
     return (double) REAL_PART(fnorm);
 }
diff --git a/src/C-interface/ellblock/bml_normalize_ellblock_typed.c b/src/C-interface/ellblock/bml_normalize_ellblock_typed.c
index a181d33..5c9ee9e 100644
--- a/src/C-interface/ellblock/bml_normalize_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_normalize_ellblock_typed.c
@@ -56,7 +56,7 @@ void *TYPED_FUNC(
     int *A_indexb = (int *) A->indexb;
     int *bsize = A->bsize;
 
-    REAL_T *offdiag_sum = calloc(A->N, sizeof(REAL_T));
+    REAL_T *offdiag_sum = bml_allocate_memory(sizeof(REAL_T) * A->N);
 
     REAL_T **A_ptr_value = (REAL_T **) A->ptr_value;
 
@@ -110,8 +110,8 @@ void *TYPED_FUNC(
     int *A_indexb = (int *) A->indexb;
     int *bsize = A->bsize;
 
-    REAL_T *rad = calloc(A->N, sizeof(REAL_T));
-    REAL_T *dval = calloc(A->N, sizeof(REAL_T));
+    REAL_T *rad = bml_allocate_memory(sizeof(REAL_T) * A->N);
+    REAL_T *dval = bml_allocate_memory(sizeof(REAL_T) * A->N);
 
     REAL_T **A_ptr_value = (REAL_T **) A->ptr_value;
 
@@ -163,8 +163,8 @@ void *TYPED_FUNC(
     eval[1] = emax;
 
     //printf("Global %d: emin = %e emax = %e\n", myRank, emin, emax);
-    free(dval);
-    free(rad);
+    bml_free_memory(dval);
+    bml_free_memory(rad);
 
     return eval;
 }
diff --git a/src/C-interface/ellblock/bml_utilities_ellblock_typed.c b/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
index c587f85..4c13dd3 100644
--- a/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
@@ -1,3 +1,4 @@
+#include "../bml_allocate.h"
 #include "../../macros.h"
 #include "../../typed.h"
 #include "../bml_logger.h"
@@ -234,7 +235,7 @@ void TYPED_FUNC(
     }
     fprintf(mFile, "%d %d %d\n", A->N, A->N, msum);
 
-    int *offset = malloc(NB * sizeof(int));
+    int *offset = bml_noinit_allocate_memory(NB * sizeof(int));
     offset[0] = 0;
     for (int ib = 1; ib < NB; ib++)
     {
@@ -271,7 +272,7 @@ void TYPED_FUNC(
                 }
         }
     }
-    free(offset);
+    bml_free_memory(offset);
 
     int write_error = ferror(mFile);
     if (fclose(mFile) != 0 || write_error)
-- 
2.43.0


From 8c6f265820050d224f4b97255c54ebdc573592c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:24 +0000
Subject: [PATCH 103/109] fix: ellpack work arrays are allocated with an error
 check

---
 .../ellpack/bml_adjungate_triangle_ellpack_typed.c       | 9 +++++----
 src/C-interface/ellpack/bml_getters_ellpack_typed.c      | 5 +++--
 src/C-interface/ellpack/bml_normalize_ellpack_typed.c    | 2 +-
 src/C-interface/ellpack/bml_submatrix_ellpack.c          | 5 +++--
 src/C-interface/ellpack/bml_trace_ellpack_typed.c        | 4 ++--
 src/C-interface/ellpack/bml_transpose_ellpack_typed.c    | 4 ++--
 6 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/C-interface/ellpack/bml_adjungate_triangle_ellpack_typed.c b/src/C-interface/ellpack/bml_adjungate_triangle_ellpack_typed.c
index 5e27210..0eb0404 100644
--- a/src/C-interface/ellpack/bml_adjungate_triangle_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_adjungate_triangle_ellpack_typed.c
@@ -1,3 +1,4 @@
+#include "../bml_allocate.h"
 #include "../../macros.h"
 #include "../../typed.h"
 #include "../bml_introspection.h"
@@ -47,9 +48,9 @@ void TYPED_FUNC(
 #endif
 
     // number of elements of each row outside of the triangle to be replaced
-    int *nnz = malloc(sizeof(int) * A_N);
+    int *nnz = bml_noinit_allocate_memory(sizeof(int) * A_N);
 #ifdef _OPENMP
-    omp_lock_t *row_lock = malloc(sizeof(omp_lock_t) * A_N);
+    omp_lock_t *row_lock = bml_noinit_allocate_memory(sizeof(omp_lock_t) * A_N);
 #endif
 
     // remove the elements of the triangle to be replaced
@@ -113,9 +114,9 @@ void TYPED_FUNC(
     {
         omp_destroy_lock(&(row_lock[i]));
     }
-    free(row_lock);
+    bml_free_memory(row_lock);
 #endif
-    free(nnz);
+    bml_free_memory(nnz);
 
 #if defined(USE_OMP_OFFLOAD)
 #pragma omp target update to(A_value[:A_N*A_M], A_index[:A_N*A_M], A_nnz[:A_N])
diff --git a/src/C-interface/ellpack/bml_getters_ellpack_typed.c b/src/C-interface/ellpack/bml_getters_ellpack_typed.c
index 4607432..e9053bd 100644
--- a/src/C-interface/ellpack/bml_getters_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_getters_ellpack_typed.c
@@ -1,3 +1,4 @@
+#include "../bml_allocate.h"
 #include "bml_getters_ellpack.h"
 #include "../bml_introspection.h"
 #include "../bml_logger.h"
@@ -74,7 +75,7 @@ void *TYPED_FUNC(
     REAL_T *A_value = (REAL_T *) A->value;
     int *A_index = A->index;
     int *A_nnz = A->nnz;
-    REAL_T *row = calloc(A_N, sizeof(REAL_T));
+    REAL_T *row = bml_allocate_memory(sizeof(REAL_T) * A_N);
 
 #ifdef USE_OMP_OFFLOAD
 #pragma omp target update from(A_nnz[:A_N], A_index[:A_N*A_M], A_value[:A_N*A_M])
@@ -114,7 +115,7 @@ void *TYPED_FUNC(
     REAL_T *A_value = (REAL_T *) A->value;
     int *A_index = A->index;
     int *A_nnz = A->nnz;
-    REAL_T *diagonal = calloc(A_N, sizeof(REAL_T));
+    REAL_T *diagonal = bml_allocate_memory(sizeof(REAL_T) * A_N);
 
 #ifdef USE_OMP_OFFLOAD
 #pragma omp target update from(A_nnz[:A_N], A_index[:A_N*A_M], A_value[:A_N*A_M])
diff --git a/src/C-interface/ellpack/bml_normalize_ellpack_typed.c b/src/C-interface/ellpack/bml_normalize_ellpack_typed.c
index 4ee1c3b..5fdfce4 100644
--- a/src/C-interface/ellpack/bml_normalize_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_normalize_ellpack_typed.c
@@ -53,7 +53,7 @@ void *TYPED_FUNC(
     int M = A->M;
     int *A_nnz = (int *) A->nnz;
     int *A_index = (int *) A->index;
-    REAL_T *offdiag_sum = calloc(N, sizeof(REAL_T));
+    REAL_T *offdiag_sum = bml_allocate_memory(sizeof(REAL_T) * N);
     REAL_T *A_value = (REAL_T *) A->value;
 
     for (int i = 0; i < N; i++)
diff --git a/src/C-interface/ellpack/bml_submatrix_ellpack.c b/src/C-interface/ellpack/bml_submatrix_ellpack.c
index a693dd2..e94fcb9 100644
--- a/src/C-interface/ellpack/bml_submatrix_ellpack.c
+++ b/src/C-interface/ellpack/bml_submatrix_ellpack.c
@@ -1,3 +1,4 @@
+#include "../bml_allocate.h"
 #include "../../macros.h"
 #include "../bml_logger.h"
 #include "../bml_submatrix.h"
@@ -434,7 +435,7 @@ bml_adjacency_group_ellpack(
     int *A_nnz = A->nnz;
     int *A_index = A->index;
 
-    int *hnode = malloc(nnodes * sizeof(int));
+    int *hnode = bml_noinit_allocate_memory(nnodes * sizeof(int));
     for (int i = 0; i < nnodes; i++)
     {
         hnode[i] = hindex[i] - 1;
@@ -500,7 +501,7 @@ bml_adjacency_group_ellpack(
         }
     }
 
-    free(hnode);
+    bml_free_memory(hnode);
 
 }
 
diff --git a/src/C-interface/ellpack/bml_trace_ellpack_typed.c b/src/C-interface/ellpack/bml_trace_ellpack_typed.c
index ba6322c..25c4d2c 100644
--- a/src/C-interface/ellpack/bml_trace_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_trace_ellpack_typed.c
@@ -48,7 +48,7 @@ double TYPED_FUNC(
 #ifdef USE_OMP_OFFLOAD
     int numrows = rowMax - rowMin;
     REAL_T *diag;
-    diag = (REAL_T *) calloc(numrows, sizeof(REAL_T));
+    diag = (REAL_T *) bml_allocate_memory(sizeof(REAL_T) * numrows);
 #pragma omp target enter data map(to:diag[:numrows])
 #pragma omp target teams distribute
     //for (int i = 0; i < N; i++)
@@ -69,7 +69,7 @@ double TYPED_FUNC(
     for (int i = 0; i < numrows; i++)
         trace += diag[i];
 #pragma omp target exit data map(delete:diag[:numrows])
-    free(diag);
+    bml_free_memory(diag);
 #else
 #pragma omp parallel for                        \
   shared(A_value, A_index, A_nnz)         \
diff --git a/src/C-interface/ellpack/bml_transpose_ellpack_typed.c b/src/C-interface/ellpack/bml_transpose_ellpack_typed.c
index 66684bc..c9c1e62 100644
--- a/src/C-interface/ellpack/bml_transpose_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_transpose_ellpack_typed.c
@@ -58,7 +58,7 @@ bml_matrix_ellpack_t
 #else
     // Transpose all elements
 #ifdef _OPENMP
-    omp_lock_t *row_lock = (omp_lock_t *) malloc(sizeof(omp_lock_t) * N);
+    omp_lock_t *row_lock = (omp_lock_t *) bml_noinit_allocate_memory(sizeof(omp_lock_t) * N);
 
 #pragma omp parallel for
     for (int i = 0; i < N; i++)
@@ -108,7 +108,7 @@ bml_matrix_ellpack_t
     {
         omp_destroy_lock(&row_lock[i]);
     }
-    free(row_lock);
+    bml_free_memory(row_lock);
 #endif
 
 #if defined (USE_OMP_OFFLOAD) && defined(COMPUTE_ON_HOST)
-- 
2.43.0


From 0f1a2df2d41c6bf93bef386ce86ecebb8b2e2d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:24 +0000
Subject: [PATCH 104/109] fix: csr work arrays are allocated with an error
 check

---
 src/C-interface/csr/bml_getters_csr_typed.c   | 6 +++---
 src/C-interface/csr/bml_normalize_csr_typed.c | 2 +-
 src/C-interface/csr/bml_transpose_csr_typed.c | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/C-interface/csr/bml_getters_csr_typed.c b/src/C-interface/csr/bml_getters_csr_typed.c
index fbec160..34e5775 100644
--- a/src/C-interface/csr/bml_getters_csr_typed.c
+++ b/src/C-interface/csr/bml_getters_csr_typed.c
@@ -128,8 +128,8 @@ void TYPED_FUNC(
     int *nnz)
 {
     int nz = TYPED_FUNC(csr_get_nnz) (A->data_[i]);
-    int *colids = malloc(nz * sizeof(int));
-    REAL_T *colvals = malloc(nz * sizeof(REAL_T));
+    int *colids = bml_noinit_allocate_memory(nz * sizeof(int));
+    REAL_T *colvals = bml_noinit_allocate_memory(nz * sizeof(REAL_T));
     memcpy(colids, (int *) TYPED_FUNC(csr_get_column_indexes) (A->data_[i]),
            nz * sizeof(int));
     memcpy(colvals,
@@ -184,7 +184,7 @@ void *TYPED_FUNC(
     bml_matrix_csr_t * A)
 {
     int A_N = A->N_;
-    REAL_T *diagonal = calloc(A_N, sizeof(REAL_T));
+    REAL_T *diagonal = bml_allocate_memory(sizeof(REAL_T) * A_N);
 
     for (int i = 0; i < A_N; i++)
     {
diff --git a/src/C-interface/csr/bml_normalize_csr_typed.c b/src/C-interface/csr/bml_normalize_csr_typed.c
index 5096e72..724e02b 100644
--- a/src/C-interface/csr/bml_normalize_csr_typed.c
+++ b/src/C-interface/csr/bml_normalize_csr_typed.c
@@ -50,7 +50,7 @@ void *TYPED_FUNC(
     int include_diag)
 {
     int N = A->N_;
-    REAL_T *offdiag_sum = calloc(N, sizeof(REAL_T));
+    REAL_T *offdiag_sum = bml_allocate_memory(sizeof(REAL_T) * N);
 
     for (int i = 0; i < N; i++)
     {
diff --git a/src/C-interface/csr/bml_transpose_csr_typed.c b/src/C-interface/csr/bml_transpose_csr_typed.c
index b2f55f7..baa21e3 100644
--- a/src/C-interface/csr/bml_transpose_csr_typed.c
+++ b/src/C-interface/csr/bml_transpose_csr_typed.c
@@ -37,7 +37,7 @@ bml_matrix_csr_t *TYPED_FUNC(
 
 #ifdef _OPENMP
     omp_lock_t *row_lock =
-        (omp_lock_t *) malloc(sizeof(omp_lock_t) * matrix_dimension.N_rows);
+        (omp_lock_t *) bml_noinit_allocate_memory(sizeof(omp_lock_t) * matrix_dimension.N_rows);
 
 #pragma omp parallel for
     for (int i = 0; i < matrix_dimension.N_rows; i++)
@@ -72,7 +72,7 @@ bml_matrix_csr_t *TYPED_FUNC(
         omp_destroy_lock(&row_lock[i]);
     }
 
-    free(row_lock);
+    bml_free_memory(row_lock);
 #endif
 
     return B;
-- 
2.43.0


From a7100eaee80ae7f59e3ceae2385a234ff27459de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:24 +0000
Subject: [PATCH 105/109] fix: dense work arrays are allocated with an error
 check

---
 src/C-interface/dense/bml_diagonalize_dense.c | 178 +++++++++---------
 .../dense/bml_normalize_dense_typed.c         |   2 +-
 2 files changed, 90 insertions(+), 90 deletions(-)

diff --git a/src/C-interface/dense/bml_diagonalize_dense.c b/src/C-interface/dense/bml_diagonalize_dense.c
index 51232a4..a6c18ce 100644
--- a/src/C-interface/dense/bml_diagonalize_dense.c
+++ b/src/C-interface/dense/bml_diagonalize_dense.c
@@ -56,16 +56,16 @@ bml_diagonalize_dense_magma_single_real(
     magma_int_t ret = magma_smalloc(&evecs, A->N * A->ld);
     assert(ret == MAGMA_SUCCESS);
 
-    float *evals = malloc(A->N * sizeof(float));
+    float *evals = bml_noinit_allocate_memory(A->N * sizeof(float));
     int lwork = 2 * A->N + A->N * nb;
     int tmp = 1 + 6 * A->N + 2 * A->N * A->N;
     if (tmp > lwork)
         lwork = tmp;
-    float *work = malloc(lwork * sizeof(float));
+    float *work = bml_noinit_allocate_memory(lwork * sizeof(float));
     int liwork = 3 + 5 * A->N;
-    int *iwork = malloc(liwork * sizeof(int));
+    int *iwork = bml_noinit_allocate_memory(liwork * sizeof(int));
     int ldwa = A->ld;
-    float *wa = malloc(A->N * ldwa * sizeof(float));
+    float *wa = bml_noinit_allocate_memory(A->N * ldwa * sizeof(float));
 
     //copy matrix into evecs
     magmablas_slacpy(MagmaFull, A->N, A->N, A->matrix, A->ld, evecs, A->ld,
@@ -86,9 +86,9 @@ bml_diagonalize_dense_magma_single_real(
     magma_queue_sync(bml_queue());
 
     magma_free(evecs);
-    free(wa);
-    free(evals);
-    free(work);
+    bml_free_memory(wa);
+    bml_free_memory(evals);
+    bml_free_memory(work);
 }
 #endif
 
@@ -109,8 +109,8 @@ bml_diagonalize_dense_gpu_single_real(
     float *A_matrix = (float *) A->matrix;
     float *typed_eigenvalues = (float *) eigenvalues;
 
-    float *evecs = (float *) malloc(A->N * A->N * sizeof(float));
-    float *evals = (float *) malloc(A->N * sizeof(float));
+    float *evecs = (float *) bml_noinit_allocate_memory(A->N * A->N * sizeof(float));
+    float *evals = (float *) bml_noinit_allocate_memory(A->N * sizeof(float));
 
 #pragma omp target enter data map(alloc:evecs[0:N*N])
 #pragma omp target enter data map(alloc:evals[0:N])
@@ -162,9 +162,9 @@ bml_diagonalize_dense_gpu_single_real(
 #ifdef BML_SYEVD
     // Divide and conquer solver
     MKL_INT lwork = 1 + 6 * N + 2 * N * N;
-    float *work = (float *) malloc(lwork * sizeof(float));
+    float *work = (float *) bml_noinit_allocate_memory(lwork * sizeof(float));
     MKL_INT liwork = 3 + 5 * N;
-    MKL_INT *iwork = (MKL_INT *) malloc(liwork * sizeof(MKL_INT));
+    MKL_INT *iwork = (MKL_INT *) bml_noinit_allocate_memory(liwork * sizeof(MKL_INT));
 #pragma omp target enter data map(alloc:work[0:lwork])
 #pragma omp target enter data map(alloc:iwork[0:liwork])
 
@@ -172,7 +172,7 @@ bml_diagonalize_dense_gpu_single_real(
     ssyevd("V", "U", &N, evecs, &N, evals, work, &lwork, iwork, &liwork,
            &info);
 #pragma omp target exit data map(release:iwork)
-    free(iwork);
+    bml_free_memory(iwork);
 #else
     MKL_INT lwork = 3 * N;
     float *work = (float *) mkl_malloc(lwork * sizeof(float), 64);
@@ -221,9 +221,9 @@ bml_diagonalize_dense_gpu_single_real(
 #pragma omp target exit data map(release:evecs)
 #pragma omp target exit data map(release:evals)
 #pragma omp target exit data map(release:work)
-    free(evecs);
-    free(evals);
-    free(work);
+    bml_free_memory(evecs);
+    bml_free_memory(evals);
+    bml_free_memory(work);
 #endif // NOBLAS
 }
 #endif // MKL_GPU
@@ -242,25 +242,25 @@ bml_diagonalize_dense_cpu_single_real(
     float *A_matrix;
     float *typed_eigenvalues = (float *) eigenvalues;
 
-    float *evecs = calloc(A->N * A->N, sizeof(float));
-    float *evals = calloc(A->N, sizeof(float));
+    float *evecs = bml_allocate_memory(sizeof(float) * A->N * A->N);
+    float *evals = bml_allocate_memory(sizeof(float) * A->N);
 
     memcpy(evecs, A->matrix, A->N * A->N * sizeof(float));
 
 #ifdef BML_SYEVD
     // Divide and conquer solver
     const int lwork = 1 + 6 * N + 2 * N * N;
-    float *work = malloc(lwork * sizeof(float));
+    float *work = bml_noinit_allocate_memory(lwork * sizeof(float));
     const int liwork = 3 + 5 * N;
-    int *iwork = malloc(liwork * sizeof(int));
+    int *iwork = bml_noinit_allocate_memory(liwork * sizeof(int));
     printf("%d, %d \n", lwork, liwork);
 
     C_SSYEVD("V", "U", &N, evecs, &N, evals, work, &lwork,
              iwork, &liwork, &info);
-    free(iwork);
+    bml_free_memory(iwork);
 #else
     const int lwork = 3 * A->N;
-    float *work = calloc(lwork, sizeof(float));
+    float *work = bml_allocate_memory(sizeof(float) * lwork);
     C_SSYEV("V", "U", &N, evecs, &N, evals, work, &lwork, &info);
 #endif // BML_SYEVD
 
@@ -275,9 +275,9 @@ bml_diagonalize_dense_cpu_single_real(
         }
     }
 
-    free(evecs);
-    free(evals);
-    free(work);
+    bml_free_memory(evecs);
+    bml_free_memory(evals);
+    bml_free_memory(work);
 #endif // NOBLAS
 }
 
@@ -418,28 +418,28 @@ bml_diagonalize_dense_magma_double_real(
 #else // MAGMA
     int nb = magma_get_ssytrd_nb(A->N);
 
-    double *evals = malloc(A->N * sizeof(double));
+    double *evals = bml_noinit_allocate_memory(A->N * sizeof(double));
     int lwork = 2 * A->N + A->N * nb;
     int tmp = 1 + 6 * A->N + 2 * A->N * A->N;
     if (tmp > lwork)
         lwork = tmp;
-    double *work = malloc(lwork * sizeof(double));
+    double *work = bml_noinit_allocate_memory(lwork * sizeof(double));
     int liwork = 3 + 5 * A->N;
-    int *iwork = malloc(liwork * sizeof(int));
+    int *iwork = bml_noinit_allocate_memory(liwork * sizeof(int));
     int ldwa = A->N;
-    double *wa = malloc(A->N * ldwa * sizeof(double));
+    double *wa = bml_noinit_allocate_memory(A->N * ldwa * sizeof(double));
 
     magma_dsyevd_gpu(MagmaVec, MagmaUpper, A->N, evecs, A->ld, evals,
                      wa, ldwa, work, lwork, iwork, liwork, &info);
     if (info != 0)
         LOG_ERROR("ERROR in magma_dsyevd_gpu");
 
-    free(wa);
-    free(work);
+    bml_free_memory(wa);
+    bml_free_memory(work);
 
     for (int i = 0; i < A->N; i++)
         typed_eigenvalues[i] = (double) evals[i];
-    free(evals);
+    bml_free_memory(evals);
 
     //verify norm eigenvectors
     //for(int i= 0;i<A->N;i++)
@@ -482,8 +482,8 @@ bml_diagonalize_dense_gpu_double_real(
     double *A_matrix = A->matrix;
     double *typed_eigenvalues = (double *) eigenvalues;
 
-    double *evecs = (double *) calloc(A->N * A->N, sizeof(double));
-    double *evals = (double *) calloc(A->N, sizeof(double));
+    double *evecs = (double *) bml_allocate_memory(sizeof(double) * A->N * A->N);
+    double *evals = (double *) bml_allocate_memory(sizeof(double) * A->N);
 
 #pragma omp target enter data map(alloc:evecs[0:N*N])
 #pragma omp target enter data map(alloc:evals[0:N])
@@ -531,9 +531,9 @@ bml_diagonalize_dense_gpu_double_real(
 #ifdef BML_SYEVD
     // Divide and conquer solver
     const MKL_INT lwork = 1 + 6 * N + 2 * N * N;
-    double *work = malloc(lwork * sizeof(double));
+    double *work = bml_noinit_allocate_memory(lwork * sizeof(double));
     const MKL_INT liwork = 3 + 5 * N;
-    MKL_INT *iwork = malloc(liwork * sizeof(MKL_INT));
+    MKL_INT *iwork = bml_noinit_allocate_memory(liwork * sizeof(MKL_INT));
 #pragma omp target enter data map(alloc:work[0:lwork])
 #pragma omp target enter data map(alloc:iwork[0:liwork])
 
@@ -541,10 +541,10 @@ bml_diagonalize_dense_gpu_double_real(
     dsyevd("V", "U", &N, evecs, &N, evals, work, &lwork,
            iwork, &liwork, &info);
 #pragma omp target exit data map(release:iwork)
-    free(iwork);
+    bml_free_memory(iwork);
 #else
     const MKL_INT lwork = 3 * N;
-    double *work = calloc(lwork, sizeof(double));
+    double *work = bml_allocate_memory(sizeof(double) * lwork);
 #pragma omp target enter data map(alloc:work[0:lwork])
 #pragma omp target variant dispatch device(dnum) use_device_ptr(evecs, evals, work)
     dsyev("V", "U", &N, evecs, &N, evals, work, &lwork, &info);
@@ -592,9 +592,9 @@ bml_diagonalize_dense_gpu_double_real(
 #pragma omp target exit data map(release:evals)
 #pragma omp target exit data map(release:work)
 
-    free(evecs);
-    free(evals);
-    free(work);
+    bml_free_memory(evecs);
+    bml_free_memory(evals);
+    bml_free_memory(work);
 #endif // NOBLAS
 }
 #endif // MKL_GPU
@@ -613,23 +613,23 @@ bml_diagonalize_dense_cpu_double_real(
     double *A_matrix = A->matrix;
     double *typed_eigenvalues = (double *) eigenvalues;
 
-    double *evecs = calloc(A->N * A->N, sizeof(double));
-    double *evals = calloc(A->N, sizeof(double));
+    double *evecs = bml_allocate_memory(sizeof(double) * A->N * A->N);
+    double *evals = bml_allocate_memory(sizeof(double) * A->N);
 
     memcpy(evecs, A->matrix, A->N * A->N * sizeof(double));
 
 #ifdef BML_SYEVD
     // Divide and conquer solver
     int lwork = 1 + 6 * A->N + 2 * A->N * A->N;
-    double *work = malloc(lwork * sizeof(double));
+    double *work = bml_noinit_allocate_memory(lwork * sizeof(double));
     int liwork = 3 + 5 * A->N;
-    int *iwork = malloc(liwork * sizeof(int));
+    int *iwork = bml_noinit_allocate_memory(liwork * sizeof(int));
     C_DSYEVD("V", "U", &A->N, evecs, &A->N, evals, work, &lwork,
              iwork, &liwork, &info);
-    free(iwork);
+    bml_free_memory(iwork);
 #else
     int lwork = 3 * A->N;
-    double *work = calloc(lwork, sizeof(double));
+    double *work = bml_allocate_memory(sizeof(double) * lwork);
     C_DSYEV("V", "U", &A->N, evecs, &A->N, evals, work, &lwork, &info);
 #endif
 
@@ -643,9 +643,9 @@ bml_diagonalize_dense_cpu_double_real(
                 evecs[COLMAJOR(i, j, A->N, A->N)];
         }
     }
-    free(evecs);
-    free(evals);
-    free(work);
+    bml_free_memory(evecs);
+    bml_free_memory(evals);
+    bml_free_memory(work);
 #endif // NOBLAS
 }
 
@@ -680,18 +680,18 @@ bml_diagonalize_dense_single_complex(
     magma_int_t ret = magma_cmalloc(&evecs, A->N * A->ld);
     assert(ret == MAGMA_SUCCESS);
 
-    float *evals = malloc(A->N * sizeof(float));
+    float *evals = bml_noinit_allocate_memory(A->N * sizeof(float));
     int lwork = 2 * A->N + A->N * nb;
     int tmp = 1 + 6 * A->N + 2 * A->N * A->N;
     if (tmp > lwork)
         lwork = tmp;
-    magmaFloatComplex *work = malloc(lwork * sizeof(magmaFloatComplex));
+    magmaFloatComplex *work = bml_noinit_allocate_memory(lwork * sizeof(magmaFloatComplex));
     int liwork = 3 + 5 * A->N;
-    int *iwork = malloc(liwork * sizeof(int));
+    int *iwork = bml_noinit_allocate_memory(liwork * sizeof(int));
     int ldwa = A->ld;
-    magmaFloatComplex *wa = malloc(A->N * ldwa * sizeof(magmaFloatComplex));
+    magmaFloatComplex *wa = bml_noinit_allocate_memory(A->N * ldwa * sizeof(magmaFloatComplex));
     int lrwork = 1 + 5 * A->N + 2 * A->N * A->N;
-    float *rwork = malloc(lrwork * sizeof(float));
+    float *rwork = bml_noinit_allocate_memory(lrwork * sizeof(float));
 
     //copy matrix into evecs
     magmablas_clacpy(MagmaFull, A->N, A->N, A->matrix, A->ld, evecs, A->ld,
@@ -713,20 +713,20 @@ bml_diagonalize_dense_single_complex(
     magma_queue_sync(bml_queue());
 
     magma_free(evecs);
-    free(wa);
+    bml_free_memory(wa);
 #else
-    int *isuppz = calloc(2 * A->N, sizeof(int));
+    int *isuppz = bml_allocate_memory(sizeof(int) * 2 * A->N);
     int lwork = 2 * A->N;
     int liwork = 10 * A->N;
     int lrwork = 24 * A->N;
-    int *iwork = calloc(liwork, sizeof(int));
+    int *iwork = bml_allocate_memory(sizeof(int) * liwork);
     int M;
-    float *evals = calloc(A->N, sizeof(float));
-    float *rwork = calloc(lrwork, sizeof(float));
-    float complex *A_copy = calloc(A->N * A->N, sizeof(float complex));
+    float *evals = bml_allocate_memory(sizeof(float) * A->N);
+    float *rwork = bml_allocate_memory(sizeof(float) * lrwork);
+    float complex *A_copy = bml_allocate_memory(sizeof(float complex) * A->N * A->N);
     float complex *A_matrix;
-    float complex *evecs = calloc(A->N * A->N, sizeof(float complex));
-    float complex *work = calloc(lwork, sizeof(float complex));
+    float complex *evecs = bml_allocate_memory(sizeof(float complex) * A->N * A->N);
+    float complex *work = bml_allocate_memory(sizeof(float complex) * lwork);
 
 #ifdef MKL_GPU
 // pull from GPU
@@ -765,14 +765,14 @@ bml_diagonalize_dense_single_complex(
 // push back to GPU
 #pragma omp target update to(A_matrix[0:N*N])
 #endif
-    free(A_copy);
-    free(evecs);
-    free(isuppz);
+    bml_free_memory(A_copy);
+    bml_free_memory(evecs);
+    bml_free_memory(isuppz);
 #endif
-    free(work);
-    free(rwork);
-    free(iwork);
-    free(evals);
+    bml_free_memory(work);
+    bml_free_memory(rwork);
+    bml_free_memory(iwork);
+    bml_free_memory(evals);
 }
 
 void
@@ -791,18 +791,18 @@ bml_diagonalize_dense_double_complex(
     magma_int_t ret = magma_zmalloc(&evecs, A->N * A->ld);
     assert(ret == MAGMA_SUCCESS);
 
-    double *evals = malloc(A->N * sizeof(double));
+    double *evals = bml_noinit_allocate_memory(A->N * sizeof(double));
     int lwork = 2 * A->N + A->N * nb;
     int tmp = 1 + 6 * A->N + 2 * A->N * A->N;
     if (tmp > lwork)
         lwork = tmp;
-    magmaDoubleComplex *work = malloc(lwork * sizeof(magmaDoubleComplex));
+    magmaDoubleComplex *work = bml_noinit_allocate_memory(lwork * sizeof(magmaDoubleComplex));
     int liwork = 3 + 5 * A->N;
-    int *iwork = malloc(liwork * sizeof(int));
+    int *iwork = bml_noinit_allocate_memory(liwork * sizeof(int));
     int ldwa = A->ld;
-    magmaDoubleComplex *wa = malloc(A->N * ldwa * sizeof(magmaDoubleComplex));
+    magmaDoubleComplex *wa = bml_noinit_allocate_memory(A->N * ldwa * sizeof(magmaDoubleComplex));
     int lrwork = 1 + 5 * A->N + 2 * A->N * A->N;
-    double *rwork = malloc(lrwork * sizeof(double));
+    double *rwork = bml_noinit_allocate_memory(lrwork * sizeof(double));
 
     //copy matrix into evecs
     magmablas_zlacpy(MagmaFull, A->N, A->N, A->matrix, A->ld, evecs, A->ld,
@@ -825,20 +825,20 @@ bml_diagonalize_dense_double_complex(
     magma_queue_sync(bml_queue());
 
     magma_free(evecs);
-    free(wa);
+    bml_free_memory(wa);
 #else
-    int *isuppz = calloc(2 * A->N, sizeof(int));
+    int *isuppz = bml_allocate_memory(sizeof(int) * 2 * A->N);
     int liwork = 10 * A->N;
     int lrwork = 24 * A->N;
     int lwork = 2 * A->N;
-    int *iwork = calloc(liwork, sizeof(int));
+    int *iwork = bml_allocate_memory(sizeof(int) * liwork);
     int M;
-    double *evals = calloc(A->N, sizeof(double));
-    double *rwork = calloc(lrwork, sizeof(double));
-    double complex *A_copy = calloc(A->N * A->N, sizeof(double complex));
+    double *evals = bml_allocate_memory(sizeof(double) * A->N);
+    double *rwork = bml_allocate_memory(sizeof(double) * lrwork);
+    double complex *A_copy = bml_allocate_memory(sizeof(double complex) * A->N * A->N);
     double complex *A_matrix;
-    double complex *evecs = calloc(A->N * A->N, sizeof(double complex));
-    double complex *work = calloc(lwork, sizeof(double complex));
+    double complex *evecs = bml_allocate_memory(sizeof(double complex) * A->N * A->N);
+    double complex *work = bml_allocate_memory(sizeof(double complex) * lwork);
 
 #ifdef MKL_GPU
 // pull from GPU
@@ -877,14 +877,14 @@ bml_diagonalize_dense_double_complex(
 // push back to GPU
 #pragma omp target update to(A_matrix[0:N*N])
 #endif
-    free(A_copy);
-    free(evecs);
-    free(isuppz);
+    bml_free_memory(A_copy);
+    bml_free_memory(evecs);
+    bml_free_memory(isuppz);
 #endif
-    free(work);
-    free(rwork);
-    free(iwork);
-    free(evals);
+    bml_free_memory(work);
+    bml_free_memory(rwork);
+    bml_free_memory(iwork);
+    bml_free_memory(evals);
 }
 
 void
diff --git a/src/C-interface/dense/bml_normalize_dense_typed.c b/src/C-interface/dense/bml_normalize_dense_typed.c
index 21a9cca..673b1bd 100644
--- a/src/C-interface/dense/bml_normalize_dense_typed.c
+++ b/src/C-interface/dense/bml_normalize_dense_typed.c
@@ -53,7 +53,7 @@ void *TYPED_FUNC(
     int include_diag)
 {
     int N = A->N;
-    REAL_T *offdiag_sum = calloc(N, sizeof(REAL_T));
+    REAL_T *offdiag_sum = bml_allocate_memory(sizeof(REAL_T) * N);
 
 #ifdef BML_USE_MAGMA
     // copy matrix into tmp matrix on CPU
-- 
2.43.0


From 8562f094feb13418208a030accb12b1eb313368b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:24 +0000
Subject: [PATCH 106/109] fix: parallel and distributed work arrays are
 allocated with an error check

---
 src/C-interface/bml_parallel.c                       |  9 +++++----
 .../bml_diagonalize_distributed2d_typed.c            | 12 ++++++------
 .../distributed2d/bml_getters_distributed2d_typed.c  | 12 ++++++------
 3 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/C-interface/bml_parallel.c b/src/C-interface/bml_parallel.c
index d3f80f0..f93165c 100644
--- a/src/C-interface/bml_parallel.c
+++ b/src/C-interface/bml_parallel.c
@@ -1,3 +1,4 @@
+#include "bml_allocate.h"
 #include "bml_parallel.h"
 #include "bml_introspection.h"
 #include "bml_logger.h"
@@ -82,8 +83,8 @@ bml_initParallel(
 
     bml_setcomm_distributed2d(comm);
 
-    requestList = (MPI_Request *) malloc(nRanks * sizeof(MPI_Request));
-    rUsed = (int *) malloc(nRanks * sizeof(int));
+    requestList = (MPI_Request *) bml_noinit_allocate_memory(nRanks * sizeof(MPI_Request));
+    rUsed = (int *) bml_noinit_allocate_memory(nRanks * sizeof(int));
     for (int i = 0; i < nRanks; i++)
     {
         rUsed[i] = 0;
@@ -113,8 +114,8 @@ bml_shutdownParallel(
     void)
 {
 #ifdef BML_USE_MPI
-    free(requestList);
-    free(rUsed);
+    bml_free_memory(requestList);
+    bml_free_memory(rUsed);
     bml_freecomm_distributed2d();
 #endif
 }
diff --git a/src/C-interface/distributed2d/bml_diagonalize_distributed2d_typed.c b/src/C-interface/distributed2d/bml_diagonalize_distributed2d_typed.c
index 0785fcd..a6201ea 100644
--- a/src/C-interface/distributed2d/bml_diagonalize_distributed2d_typed.c
+++ b/src/C-interface/distributed2d/bml_diagonalize_distributed2d_typed.c
@@ -228,10 +228,10 @@ void TYPED_FUNC(
     int lwork = m + (2 * np0 + mb) * mb;
 #endif
 #if defined(SINGLE_REAL) || defined(SINGLE_COMPLEX)
-    float *ev = malloc(A->N * sizeof(float));
+    float *ev = bml_noinit_allocate_memory(A->N * sizeof(float));
 #endif
 #if defined(DOUBLE_REAL) || defined(DOUBLE_COMPLEX)
-    double *ev = malloc(A->N * sizeof(double));
+    double *ev = bml_noinit_allocate_memory(A->N * sizeof(double));
 #endif
 
 #if defined(SINGLE_COMPLEX) || defined(DOUBLE_COMPLEX)
@@ -288,7 +288,7 @@ void TYPED_FUNC(
         typed_eigenvalues[i] = (REAL_T) ev[i];
 
     // clean up
-    free(ev);
+    bml_free_memory(ev);
     bml_free_memory(work);
     bml_free_memory(iwork);
 #if defined(SINGLE_COMPLEX) || defined(DOUBLE_COMPLEX)
@@ -445,11 +445,11 @@ void TYPED_FUNC(
     // copy eigenvalues to CPU
     LOG_DEBUG("copy eigenvalues to CPU");
 #if defined(SINGLE_REAL) || defined(SINGLE_COMPLEX)
-    float *tmp = malloc(na * sizeof(float));
+    float *tmp = bml_noinit_allocate_memory(na * sizeof(float));
     magma_sgetvector(na, ev, 1, tmp, 1, bml_queue());
 #endif
 #if defined(DOUBLE_REAL) || defined(DOUBLE_COMPLEX)
-    double *tmp = malloc(na * sizeof(double));
+    double *tmp = bml_noinit_allocate_memory(na * sizeof(double));
     magma_dgetvector(na, ev, 1, tmp, 1, bml_queue());
 #endif
     magma_queue_sync(bml_queue());
@@ -457,7 +457,7 @@ void TYPED_FUNC(
     REAL_T *ev_ptr = eigenvalues;
     for (int i = 0; i < A->N; i++)
         ev_ptr[i] = (REAL_T) tmp[i];
-    free(tmp);
+    bml_free_memory(tmp);
 
     magma_free(ev);
 
diff --git a/src/C-interface/distributed2d/bml_getters_distributed2d_typed.c b/src/C-interface/distributed2d/bml_getters_distributed2d_typed.c
index e7828f9..1093a56 100644
--- a/src/C-interface/distributed2d/bml_getters_distributed2d_typed.c
+++ b/src/C-interface/distributed2d/bml_getters_distributed2d_typed.c
@@ -16,7 +16,7 @@ void *TYPED_FUNC(
     REAL_T *row = bml_allocate_memory(A->N * sizeof(REAL_T));
 
     REAL_T *sub_row = NULL;
-    int *counts = calloc(A->ntasks, sizeof(int));
+    int *counts = bml_allocate_memory(sizeof(int) * A->ntasks);
 
     int mycount = 0;
     // get (piece of) row if "i" corresponds to local row
@@ -27,7 +27,7 @@ void *TYPED_FUNC(
         mycount = nloc;
     }
 
-    int *recvcounts = calloc(A->ntasks, sizeof(int));
+    int *recvcounts = bml_allocate_memory(sizeof(int) * A->ntasks);
     int ret =
         MPI_Allgather(&mycount, 1, MPI_INT, recvcounts, 1, MPI_INT, A->comm);
     if (ret == MPI_ERR_COUNT)
@@ -35,7 +35,7 @@ void *TYPED_FUNC(
     if (ret == MPI_ERR_BUFFER)
         LOG_ERROR("MPI_ERR_BUFFER");
 
-    int *displs = calloc(A->ntasks, sizeof(int));
+    int *displs = bml_allocate_memory(sizeof(int) * A->ntasks);
     for (int i = 0; i < A->ntasks - 1; i++)
         displs[i + 1] = displs[i] + recvcounts[i];
 
@@ -48,9 +48,9 @@ void *TYPED_FUNC(
             ("bml_get_row_distributed2d: MPI_Allgatherv, MPI_ERR_BUFFER");
 
     bml_free_memory(sub_row);
-    free(recvcounts);
-    free(counts);
-    free(displs);
+    bml_free_memory(recvcounts);
+    bml_free_memory(counts);
+    bml_free_memory(displs);
 
     return row;
 }
-- 
2.43.0


From 8f64a8f4698a1ecb41585f6836d15a1d49066bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:50 +0000
Subject: [PATCH 107/109] fix: refuse to save or restore the domain of a csr
 matrix, which has none

---
 src/C-interface/csr/bml_copy_csr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/C-interface/csr/bml_copy_csr.c b/src/C-interface/csr/bml_copy_csr.c
index 478ac65..dec3420 100644
--- a/src/C-interface/csr/bml_copy_csr.c
+++ b/src/C-interface/csr/bml_copy_csr.c
@@ -125,7 +125,7 @@ void
 bml_save_domain_csr(
     bml_matrix_csr_t * A)
 {
-    bml_copy_domain(A->domain, A->domain2);
+    LOG_ERROR("bml_save_domain_csr not implemented\n");
 }
 
 /** Restore the domain for a csr matrix.
@@ -138,5 +138,5 @@ void
 bml_restore_domain_csr(
     bml_matrix_csr_t * A)
 {
-    bml_copy_domain(A->domain2, A->domain);
+    LOG_ERROR("bml_restore_domain_csr not implemented\n");
 }
-- 
2.43.0


From 931114fde62d34a2a56b8c4564d83419a1f7fd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:03 +0000
Subject: [PATCH 108/109] fix: ellpack in-place transpose keeps the row
 partition when rows are narrower than the matrix

---
 src/C-interface/ellpack/bml_transpose_ellpack_typed.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/C-interface/ellpack/bml_transpose_ellpack_typed.c b/src/C-interface/ellpack/bml_transpose_ellpack_typed.c
index c9c1e62..9e7b56f 100644
--- a/src/C-interface/ellpack/bml_transpose_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_transpose_ellpack_typed.c
@@ -1,6 +1,7 @@
 #include "../../macros.h"
 #include "../../typed.h"
 #include "../bml_allocate.h"
+#include "../bml_copy.h"
 #include "../bml_parallel.h"
 #include "../bml_transpose.h"
 #include "../bml_types.h"
@@ -430,6 +431,9 @@ void TYPED_FUNC(
         /* rows can temporarily need more than M elements during the in-place
          * transpose */
         bml_matrix_ellpack_t *B = TYPED_FUNC(bml_transpose_new_ellpack) (A);
+        /* the row partition of A stays */
+        bml_copy_domain(A->domain, B->domain);
+        bml_copy_domain(A->domain2, B->domain2);
         TYPED_FUNC(bml_copy_ellpack) (B, A);
         bml_deallocate_ellpack(B);
     }
-- 
2.43.0


From 0ca50dec9a4a294d86b87966bbc8176682020184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:36 +0000
Subject: [PATCH 109/109] fix: converting a distributed matrix to an ordinary
 one of another precision crashed on ranks other than 0

---
 src/C-interface/bml_convert.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/C-interface/bml_convert.c b/src/C-interface/bml_convert.c
index a9c79cc..7ddc1d3 100644
--- a/src/C-interface/bml_convert.c
+++ b/src/C-interface/bml_convert.c
@@ -36,6 +36,19 @@ convert_precision(
 {
     int N = bml_get_N(A);
     bml_matrix_precision_t A_precision = bml_get_precision(A);
+#ifdef BML_USE_MPI
+    /* only one rank exports a distributed matrix, gather it on every rank */
+    if (bml_get_type(A) == distributed2d)
+    {
+        bml_matrix_t *A_local =
+            bml_convert_ellpack(A, A_precision, N, sequential);
+        bml_matrix_t *B =
+            convert_precision(A_local, matrix_type, matrix_precision, M,
+                              distrib_mode);
+        bml_deallocate(&A_local);
+        return B;
+    }
+#endif
     void *A_dense = bml_export_to_dense(A, dense_row_major);
     void *B_dense = bml_allocate_memory(sizeof(double complex) * N * N);
 
-- 
2.43.0

