/* Reads the stored structure of a matrix: well-formedness and a canonical dump (for state hashing).
   Built as a stub when the structures cannot be compiled against; the checks then observe through
   the public API only. */
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#ifdef LAYOUT_STUB
int layout_available(void) { return 0; }
int layout_check(void *A, char *m, int n) { (void) A; (void) m; (void) n; return 0; }
int layout_dump(void *A, char *b, int n) { (void) A; if (n) b[0] = 0; return 0; }
int layout_row_nnz(void *A, int i) { (void) A; (void) i; return -1; }
int layout_stored(void *A, char *o) { (void) A; (void) o; return 0; }
int layout_row_cap(void *A, int i) { (void) A; (void) i; return -1; }
int layout_domain(void *A, void **d) { (void) A; (void) d; return 0; }
#else
#include "bml.h"
#include "dense/bml_types_dense.h"
#include "ellpack/bml_types_ellpack.h"
#include "ellblock/bml_types_ellblock.h"
#include "csr/bml_types_csr.h"
int layout_available(void) { return 1; }
static int esz(int p) { return p == single_real ? 4 : p == double_complex ? 16 : 8; }
int layout_check(void *A0, char *m, int n)
{
    if (bml_get_type(A0) == ellpack) {
        bml_matrix_ellpack_t *A = A0;
        for (int i = 0; i < A->N; i++) {
            if (A->nnz[i] < 0 || A->nnz[i] > A->M) { snprintf(m, n, "ellpack row %d stores %d entries, capacity %d", i, A->nnz[i], A->M); return 1; }
            for (int k = 0; k < A->nnz[i]; k++) {
                int c = A->index[i * A->M + k];
                if (c < 0 || c >= A->N) { snprintf(m, n, "ellpack row %d slot %d has column %d", i, k, c); return 1; }
                for (int q = 0; q < k; q++) if (A->index[i * A->M + q] == c) { snprintf(m, n, "ellpack row %d stores column %d twice", i, c); return 1; }
            }
        }
    } else if (bml_get_type(A0) == ellblock) {
        bml_matrix_ellblock_t *A = A0; int s = 0;
        for (int i = 0; i < A->NB; i++) s += A->bsize[i];
        if (s != A->N) { snprintf(m, n, "ellblock block sizes sum to %d, N is %d", s, A->N); return 1; }
        for (int i = 0; i < A->NB; i++) {
            if (A->nnzb[i] < 0 || A->nnzb[i] > A->MB) { snprintf(m, n, "ellblock block row %d stores %d blocks, capacity %d", i, A->nnzb[i], A->MB); return 1; }
            for (int k = 0; k < A->nnzb[i]; k++) {
                int c = A->indexb[i * A->MB + k];
                if (c < 0 || c >= A->NB) { snprintf(m, n, "ellblock block row %d slot %d has block column %d", i, k, c); return 1; }
                if (!A->ptr_value[i * A->MB + k]) { snprintf(m, n, "ellblock block (%d,%d) has no storage", i, c); return 1; }
                for (int q = 0; q < k; q++) if (A->indexb[i * A->MB + q] == c) { snprintf(m, n, "ellblock block row %d stores block column %d twice", i, c); return 1; }
            }
        }
    } else if (bml_get_type(A0) == csr) {
        bml_matrix_csr_t *A = A0;
        for (int i = 0; i < A->N_; i++) {
            csr_sparse_row_t *r = A->data_[i];
            if (r->NNZ_ < 0 || r->NNZ_ > r->alloc_size_) { snprintf(m, n, "csr row %d stores %d entries, capacity %d", i, r->NNZ_, r->alloc_size_); return 1; }
            for (int k = 0; k < r->NNZ_; k++) {
                int c = r->cols_[k];
                if (c < 0 || c >= A->N_) { snprintf(m, n, "csr row %d slot %d has column %d", i, k, c); return 1; }
                for (int q = 0; q < k; q++) if (r->cols_[q] == c) { snprintf(m, n, "csr row %d stores column %d twice", i, c); return 1; }
            }
        }
    }
    return 0;
}
static void val(char *b, int n, int *o, int p, void *v, long k)
{
    char *q = (char *) v + k * esz(p);
    if (*o >= n - 80) return;
    switch (p) {
        case single_real: *o += snprintf(b + *o, n - *o, "%.9g,", ((float *) q)[0]); break;
        case double_real: *o += snprintf(b + *o, n - *o, "%.9g,", ((double *) q)[0]); break;
        case single_complex: *o += snprintf(b + *o, n - *o, "%.9g:%.9g,", ((float *) q)[0], ((float *) q)[1]); break;
        default: *o += snprintf(b + *o, n - *o, "%.9g:%.9g,", ((double *) q)[0], ((double *) q)[1]);
    }
}
#define P(...) do { if (o < n - 80) o += snprintf(b + o, n - o, __VA_ARGS__); } while (0)
int layout_dump(void *A0, char *b, int n)
{
    int o = 0; b[0] = 0;
    switch (bml_get_type(A0)) {
        case dense: { bml_matrix_dense_t *A = A0; P("D%d|", A->N); for (int k = 0; k < A->N * A->N; k++) val(b, n, &o, A->matrix_precision, A->matrix, k); break; }
        case ellpack: { bml_matrix_ellpack_t *A = A0; P("E%d,%d|", A->N, A->M);
            for (int i = 0; i < A->N; i++) { P("r%d:", A->nnz[i]); for (int k = 0; k < A->nnz[i]; k++) { P("%d=", A->index[i * A->M + k]); val(b, n, &o, A->matrix_precision, A->value, i * A->M + k); } } break; }
        case ellblock: { bml_matrix_ellblock_t *A = A0; P("B%d,%d|", A->NB, A->MB);
            for (int i = 0; i < A->NB; i++) { P("r%d:", A->nnzb[i]);
                for (int k = 0; k < A->nnzb[i]; k++) { int c = A->indexb[i * A->MB + k]; P("%d=", c); for (int e = 0; e < A->bsize[i] * A->bsize[c]; e++) val(b, n, &o, A->matrix_precision, A->ptr_value[i * A->MB + k], e); }
                P("/"); for (int k = A->nnzb[i]; k < A->MB; k++) P("%d", A->ptr_value[i * A->MB + k] != NULL); }
            break; }
        case csr: { bml_matrix_csr_t *A = A0; P("C%d|", A->N_);
            for (int i = 0; i < A->N_; i++) { csr_sparse_row_t *r = A->data_[i]; P("r%d/%d:", r->NNZ_, r->alloc_size_); for (int k = 0; k < r->NNZ_; k++) { P("%d=", r->cols_[k]); val(b, n, &o, A->matrix_precision, r->vals_, k); } } break; }
        default: break;
    }
    return o;
}
/* marks the stored positions of an N x N matrix (every element of a stored block) */
int layout_stored(void *A0, char *o)
{
    int N = bml_get_N(A0);
    if (bml_get_type(A0) == ellpack) {
        bml_matrix_ellpack_t *A = A0; memset(o, 0, (size_t) N * N);
        for (int i = 0; i < N; i++) for (int k = 0; k < A->nnz[i]; k++) o[i * N + A->index[i * A->M + k]] = 1;
    } else if (bml_get_type(A0) == ellblock) {
        bml_matrix_ellblock_t *A = A0; memset(o, 0, (size_t) N * N);
        int ri = 0;
        for (int ib = 0; ib < A->NB; ri += A->bsize[ib++]) for (int k = 0; k < A->nnzb[ib]; k++) {
            int jb = A->indexb[ib * A->MB + k], cj = 0;
            for (int q = 0; q < jb; q++) cj += A->bsize[q];
            for (int i = 0; i < A->bsize[ib]; i++) for (int j = 0; j < A->bsize[jb]; j++) o[(ri + i) * N + cj + j] = 1;
        }
    } else return 0;
    return 1;
}
int layout_row_nnz(void *A0, int i)
{
    switch (bml_get_type(A0)) { case ellpack: return ((bml_matrix_ellpack_t *) A0)->nnz[i]; case csr: return ((bml_matrix_csr_t *) A0)->data_[i]->NNZ_; default: return -1; }
}
int layout_row_cap(void *A0, int i)
{
    switch (bml_get_type(A0)) { case ellpack: return ((bml_matrix_ellpack_t *) A0)->M; case csr: return ((bml_matrix_csr_t *) A0)->data_[i]->alloc_size_; default: return -1; }
}
/* the matrix's record of how its rows are distributed */
int layout_domain(void *A0, void **d)
{
    switch (bml_get_type(A0)) {
        case dense: *d = ((bml_matrix_dense_t *) A0)->domain; return 1;
        case ellpack: *d = ((bml_matrix_ellpack_t *) A0)->domain; return 1;
        case ellblock: *d = ((bml_matrix_ellblock_t *) A0)->domain; return 1;
        default: return 0;
    }
}
#endif
