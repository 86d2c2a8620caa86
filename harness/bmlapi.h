// C++ declarations of the public bml C API (bml.h itself uses C99 complex types).
#pragma once
#include <stddef.h>
extern "C" {
typedef void bml_matrix_t;
enum { F_UNINIT, F_DENSE, F_ELLPACK, F_ELLBLOCK, F_CSR, F_DIST };
enum { P_UNINIT, P_SR, P_DR, P_SC, P_DC };
enum { ROWMAJ, COLMAJ };
enum { D_SEQ, D_DIST, D_GRAPH };
typedef struct { int N_rows, N_cols, N_nz_max; int *bsizes; int NB; } bml_matrix_dimension_t;
struct bml_domain_t {
  int totalProcs, totalRows, totalCols, globalRowMin, globalRowMax, globalRowExtent, maxLocalExtent, minLocalExtent;
  int *localRowMin, *localRowMax, *localRowExtent, *localElements, *localDispl;
};
void bml_add(void *, void *, double, double, double);
double bml_add_norm(void *, void *, double, double, double);
void bml_add_identity(void *, double, double);
void bml_scale_add_identity(void *, double, double, double);
void bml_adjungate_triangle(void *, char *);
void bml_transpose_triangle(void *, char);
int bml_allocated(void *);
void *bml_allocate_memory(size_t);
void *bml_noinit_allocate_memory(size_t);
void *bml_reallocate_memory(void *, const size_t);
void bml_free_memory(void *);
void bml_free_ptr(void **);
void bml_deallocate(void **);
void bml_deallocate_domain(bml_domain_t *);
void bml_clear(void *);
void *bml_noinit_rectangular_matrix(int, int, bml_matrix_dimension_t, int);
void *bml_noinit_matrix(int, int, int, int, int);
void *bml_zero_matrix(int, int, int, int, int);
void *bml_block_matrix(int, int, int, int, int, int *, int);
void *bml_random_matrix(int, int, int, int, int);
void *bml_banded_matrix(int, int, int, int, int);
void *bml_identity_matrix(int, int, int, int, int);
bml_domain_t *bml_default_domain(int, int, int);
void bml_update_domain(void *, int *, int *, int *);
void *bml_convert(void *, int, int, int, int);
void *bml_copy_new(void *);
void bml_copy(void *, void *);
void bml_reorder(void *, int *);
void bml_copy_domain(bml_domain_t *, bml_domain_t *);
void bml_save_domain(void *);
void bml_restore_domain(void *);
void bml_diagonalize(void *, void *, void *);
void bml_element_multiply_AB(void *, void *, void *, double);
float bml_get_element_single_real(void *, int, int);
double bml_get_element_double_real(void *, int, int);
float _Complex bml_get_element_single_complex(void *, int, int);
double _Complex bml_get_element_double_complex(void *, int, int);
void *bml_export_to_dense(void *, int);
void *bml_get_element(void *, int, int);
void *bml_get_row(void *, int);
void *bml_get_diagonal(void *);
void *bml_import_from_dense(int, int, int, int, int, void *, double, int);
int bml_get_type(void *);
int bml_get_deep_type(void *);
int bml_get_precision(void *);
int bml_get_N(void *);
int bml_get_M(void *);
int bml_get_NB(void *);
int bml_get_row_bandwidth(void *, int);
int bml_get_bandwidth(void *);
double bml_get_sparsity(void *, double);
int bml_get_distribution_mode(void *);
void *bml_get_data_ptr(void *);
void *bml_inverse(void *);
void bml_multiply(void *, void *, void *, double, double, double);
void *bml_multiply_x2(void *, void *, double);
void bml_multiply_AB(void *, void *, void *, double);
void bml_multiply_adjust_AB(void *, void *, void *, double);
double bml_sum_squares(void *);
double bml_sum_squares2(void *, void *, double, double, double);
double bml_sum_AB(void *, void *, double, double);
double bml_sum_squares_submatrix(void *, int);
double bml_fnorm(void *);
double bml_fnorm2(void *, void *);
void bml_normalize(void *, double, double);
void *bml_gershgorin(void *);
void *bml_gershgorin_partial(void *, int);
void *bml_accumulate_offdiag(void *, int);
void *bml_scale_new(void *, void *);
void bml_scale(void *, void *, void *);
void bml_scale_inplace(void *, void *);
void bml_set_element_new(void *, int, int, void *);
void bml_set_element(void *, int, int, void *);
void bml_set_row(void *, int, void *, double);
void bml_set_diagonal(void *, void *, double);
void bml_matrix2submatrix_index(void *, void *, int *, int, int *, int *, int);
void bml_matrix2submatrix_index_graph(void *, int *, int, int *, int *, int);
void bml_matrix2submatrix(void *, void *, int *, int);
void bml_submatrix2matrix(void *, void *, int *, int, int, double);
void bml_adjacency(void *, int *, int *, int);
void bml_adjacency_group(void *, int *, int, int *, int *, int);
void *bml_group_matrix(void *, int *, int, double);
void *bml_extract_submatrix(void *, int, int, int, int);
void bml_assign_submatrix(void *, void *, int, int);
void *bml_threshold_new(void *, double);
void bml_threshold(void *, double);
double bml_trace(void *);
double bml_trace_mult(void *, void *);
void *bml_transpose_new(void *);
void bml_transpose(void *);
void bml_print_dense_matrix(int, int, int, void *, int, int, int, int);
void bml_print_dense_vector(int, int, void *, int, int);
void bml_print_bml_vector(void *, int, int);
void bml_print_bml_matrix(void *, int, int, int, int);
void bml_read_bml_matrix(void *, char *);
void bml_write_bml_matrix(void *, char *);
int bml_sqrtint(int);
void *bml_get_local_matrix(void *);
int bml_getNRanks(void);
int bml_getMyRank(void);
int bml_printRank(void);
void bml_barrierParallel(void);
void bml_sumRealReduce(double *);
void bml_minRealReduce(double *);
void bml_maxRealReduce(double *);
void bml_allGatherVParallel(void *);
char *bml_version(void);
// layout shim
int layout_available(void);
int layout_check(void *A, char *msg, int n);
int layout_dump(void *A, char *buf, int n);   // canonical text of the stored structure
int layout_stored(void *A, char *out);         // marks stored positions; 0: unknown, out untouched
int layout_row_nnz(void *A, int i);            // stored entries of row i (-1: unknown)
int layout_row_cap(void *A, int i);            // capacity of row i
}
