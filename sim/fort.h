// Drives the library through its Fortran interface: while the plan asks for it, a library
// call made inside lib() goes to the shim of the same name in fshim.F90.
#pragma once
extern "C" {
typedef void *FM;
FM fs_zero_matrix(int, int, int, int, int); FM fs_identity_matrix(int, int, int, int, int); FM fs_random_matrix(int, int, int, int, int); FM fs_banded_matrix(int, int, int, int, int); FM fs_noinit_matrix(int, int, int, int, int);
void fs_invalid(int, int, int, int); FM fs_block_matrix(int, int, int, int, int, int *, int);
FM fs_import_from_dense(int, int, int, int, int, void *, double, int); void *fs_export_to_dense(FM, int);
void *fs_get_row(FM, int); void *fs_get_diagonal(FM);
void fs_set_element(FM, int, int, void *); void fs_set_element_new(FM, int, int, void *); void fs_set_row(FM, int, void *, double); void fs_set_diagonal(FM, void *, double);
float fs_get_element_single_real(FM, int, int); double fs_get_element_double_real(FM, int, int); float _Complex fs_get_element_single_complex(FM, int, int); double _Complex fs_get_element_double_complex(FM, int, int);
void fs_scale_inplace(void *, FM); void fs_scale(void *, FM, FM);
void fs_add(FM, FM, double, double, double); double fs_add_norm(FM, FM, double, double, double); void fs_add_identity(FM, double, double); void fs_scale_add_identity(FM, double, double, double);
void fs_multiply(FM, FM, FM, double, double, double); void fs_element_multiply_AB(FM, FM, FM, double); void *fs_multiply_x2(FM, FM, double);
void *fs_gershgorin(FM); void *fs_gershgorin_partial(FM, int);
double fs_sum_squares(FM); double fs_fnorm(FM); double fs_trace(FM); double fs_fnorm2(FM, FM); double fs_trace_mult(FM, FM); double fs_sum_squares_submatrix(FM, int); double fs_sum_squares2(FM, FM, double, double, double); double fs_sum_AB(FM, FM, double, double);
void fs_normalize(FM, double, double); void fs_threshold(FM, double); void fs_clear(FM); int fs_allocated(FM); void fs_deallocate(FM *);
FM fs_transpose_new(FM); FM fs_inverse(FM); FM fs_copy_new(FM); void fs_copy(FM, FM); void fs_transpose_triangle(FM, char); void fs_adjungate_triangle(FM, char *); void fs_reorder(FM, int *);
void fs_save_domain(FM); void fs_restore_domain(FM); void fs_allGatherVParallel(FM); void fs_update_domain(FM, int *, int *, int *); void fs_diagonalize(FM, void *, FM);
int fs_get_N(FM); int fs_get_M(FM); int fs_get_precision(FM); int fs_get_bandwidth(FM); int fs_get_row_bandwidth(FM, int); double fs_get_sparsity(FM, double); int fs_get_type(FM); int fs_get_deep_type(FM); int fs_element_info(FM); int fs_get_distribution_mode(FM);
int fs_getNRanks(void); int fs_getMyRank(void); void fs_init(int); void fs_shutdown(void);
void fs_matrix2submatrix_index(FM, FM, int *, int, int *, int *, int); void fs_matrix2submatrix_index_graph(FM, int *, int, int *, int *, int); void fs_matrix2submatrix(FM, FM, int *, int); void fs_submatrix2matrix(FM, FM, int *, int, int, double);
void fs_adjacency(FM, int *, int *, int); void fs_adjacency_group(FM, int *, int, int *, int *, int); FM fs_group_matrix(FM, int *, int, double);
void fs_print_bml_matrix(FM, int, int, int, int); void fs_read_bml_matrix(FM, char *); void fs_write_bml_matrix(FM, char *);
int sim_fvar(int);
}
extern bool g_fort[MAX_RANKS];          // this rank is inside a library call of a Fortran program
extern uint64_t g_fvar[MAX_RANKS];
static inline bool FORT() { return g_fort[S.cur_rank]; }
#define FB(call, ccall) (FORT() ? (call) : (ccall))
#define bml_zero_matrix(...) (FORT() ? (bml_matrix_t *)fs_zero_matrix(__VA_ARGS__) : bml_zero_matrix(__VA_ARGS__))
#define bml_block_matrix(...) (FORT() ? (bml_matrix_t *)fs_block_matrix(__VA_ARGS__) : bml_block_matrix(__VA_ARGS__))
#define bml_noinit_matrix(...) (FORT() ? (bml_matrix_t *)fs_noinit_matrix(__VA_ARGS__) : bml_noinit_matrix(__VA_ARGS__))
#define bml_identity_matrix(...) (FORT() ? (bml_matrix_t *)fs_identity_matrix(__VA_ARGS__) : bml_identity_matrix(__VA_ARGS__))
#define bml_random_matrix(...) (FORT() ? (bml_matrix_t *)fs_random_matrix(__VA_ARGS__) : bml_random_matrix(__VA_ARGS__))
#define bml_banded_matrix(...) (FORT() ? (bml_matrix_t *)fs_banded_matrix(__VA_ARGS__) : bml_banded_matrix(__VA_ARGS__))
#define bml_import_from_dense(...) (FORT() ? (bml_matrix_t *)fs_import_from_dense(__VA_ARGS__) : bml_import_from_dense(__VA_ARGS__))
#define bml_transpose_new(...) (FORT() ? (bml_matrix_t *)fs_transpose_new(__VA_ARGS__) : bml_transpose_new(__VA_ARGS__))
#define bml_inverse(...) (FORT() ? (bml_matrix_t *)fs_inverse(__VA_ARGS__) : bml_inverse(__VA_ARGS__))
#define bml_copy_new(...) (FORT() ? (bml_matrix_t *)fs_copy_new(__VA_ARGS__) : bml_copy_new(__VA_ARGS__))
#define bml_group_matrix(...) (FORT() ? (bml_matrix_t *)fs_group_matrix(__VA_ARGS__) : bml_group_matrix(__VA_ARGS__))
#define bml_export_to_dense(...) (FORT() ? (void *)fs_export_to_dense(__VA_ARGS__) : bml_export_to_dense(__VA_ARGS__))
#define bml_get_row(...) (FORT() ? (void *)fs_get_row(__VA_ARGS__) : bml_get_row(__VA_ARGS__))
#define bml_get_diagonal(...) (FORT() ? (void *)fs_get_diagonal(__VA_ARGS__) : bml_get_diagonal(__VA_ARGS__))
#define bml_multiply_x2(...) (FORT() ? (void *)fs_multiply_x2(__VA_ARGS__) : bml_multiply_x2(__VA_ARGS__))
#define bml_gershgorin(...) (FORT() ? (void *)fs_gershgorin(__VA_ARGS__) : bml_gershgorin(__VA_ARGS__))
#define bml_gershgorin_partial(...) (FORT() ? (void *)fs_gershgorin_partial(__VA_ARGS__) : bml_gershgorin_partial(__VA_ARGS__))
#define bml_get_element_single_real(...) (FORT() ? fs_get_element_single_real(__VA_ARGS__) : bml_get_element_single_real(__VA_ARGS__))
#define bml_get_element_double_real(...) (FORT() ? fs_get_element_double_real(__VA_ARGS__) : bml_get_element_double_real(__VA_ARGS__))
#define bml_get_element_single_complex(...) (FORT() ? fs_get_element_single_complex(__VA_ARGS__) : bml_get_element_single_complex(__VA_ARGS__))
#define bml_get_element_double_complex(...) (FORT() ? fs_get_element_double_complex(__VA_ARGS__) : bml_get_element_double_complex(__VA_ARGS__))
#define bml_add_norm(...) (FORT() ? fs_add_norm(__VA_ARGS__) : bml_add_norm(__VA_ARGS__))
#define bml_sum_squares(...) (FORT() ? fs_sum_squares(__VA_ARGS__) : bml_sum_squares(__VA_ARGS__))
#define bml_fnorm(...) (FORT() ? fs_fnorm(__VA_ARGS__) : bml_fnorm(__VA_ARGS__))
#define bml_trace(...) (FORT() ? fs_trace(__VA_ARGS__) : bml_trace(__VA_ARGS__))
#define bml_fnorm2(...) (FORT() ? fs_fnorm2(__VA_ARGS__) : bml_fnorm2(__VA_ARGS__))
#define bml_trace_mult(...) (FORT() ? fs_trace_mult(__VA_ARGS__) : bml_trace_mult(__VA_ARGS__))
#define bml_sum_squares_submatrix(...) (FORT() ? fs_sum_squares_submatrix(__VA_ARGS__) : bml_sum_squares_submatrix(__VA_ARGS__))
#define bml_sum_squares2(...) (FORT() ? fs_sum_squares2(__VA_ARGS__) : bml_sum_squares2(__VA_ARGS__))
#define bml_sum_AB(...) (FORT() ? fs_sum_AB(__VA_ARGS__) : bml_sum_AB(__VA_ARGS__))
#define bml_allocated(...) (FORT() ? fs_allocated(__VA_ARGS__) : bml_allocated(__VA_ARGS__))
#define bml_get_N(...) (FORT() ? fs_get_N(__VA_ARGS__) : bml_get_N(__VA_ARGS__))
#define bml_get_M(...) (FORT() ? fs_get_M(__VA_ARGS__) : bml_get_M(__VA_ARGS__))
#define bml_get_bandwidth(...) (FORT() ? fs_get_bandwidth(__VA_ARGS__) : bml_get_bandwidth(__VA_ARGS__))
#define bml_get_row_bandwidth(...) (FORT() ? fs_get_row_bandwidth(__VA_ARGS__) : bml_get_row_bandwidth(__VA_ARGS__))
#define bml_get_sparsity(...) (FORT() ? fs_get_sparsity(__VA_ARGS__) : bml_get_sparsity(__VA_ARGS__))
#define bml_getNRanks(...) (FORT() ? fs_getNRanks(__VA_ARGS__) : bml_getNRanks(__VA_ARGS__))
#define bml_getMyRank(...) (FORT() ? fs_getMyRank(__VA_ARGS__) : bml_getMyRank(__VA_ARGS__))
#define bml_set_element(...) (FORT() ? fs_set_element(__VA_ARGS__) : bml_set_element(__VA_ARGS__))
#define bml_set_element_new(...) (FORT() ? fs_set_element_new(__VA_ARGS__) : bml_set_element_new(__VA_ARGS__))
#define bml_set_row(...) (FORT() ? fs_set_row(__VA_ARGS__) : bml_set_row(__VA_ARGS__))
#define bml_set_diagonal(...) (FORT() ? fs_set_diagonal(__VA_ARGS__) : bml_set_diagonal(__VA_ARGS__))
#define bml_scale_inplace(...) (FORT() ? fs_scale_inplace(__VA_ARGS__) : bml_scale_inplace(__VA_ARGS__))
#define bml_scale(...) (FORT() ? fs_scale(__VA_ARGS__) : bml_scale(__VA_ARGS__))
#define bml_add(...) (FORT() ? fs_add(__VA_ARGS__) : bml_add(__VA_ARGS__))
#define bml_add_identity(...) (FORT() ? fs_add_identity(__VA_ARGS__) : bml_add_identity(__VA_ARGS__))
#define bml_scale_add_identity(...) (FORT() ? fs_scale_add_identity(__VA_ARGS__) : bml_scale_add_identity(__VA_ARGS__))
#define bml_multiply(...) (FORT() ? fs_multiply(__VA_ARGS__) : bml_multiply(__VA_ARGS__))
#define bml_element_multiply_AB(...) (FORT() ? fs_element_multiply_AB(__VA_ARGS__) : bml_element_multiply_AB(__VA_ARGS__))
#define bml_normalize(...) (FORT() ? fs_normalize(__VA_ARGS__) : bml_normalize(__VA_ARGS__))
#define bml_threshold(...) (FORT() ? fs_threshold(__VA_ARGS__) : bml_threshold(__VA_ARGS__))
#define bml_clear(...) (FORT() ? fs_clear(__VA_ARGS__) : bml_clear(__VA_ARGS__))
#define bml_copy(...) (FORT() ? fs_copy(__VA_ARGS__) : bml_copy(__VA_ARGS__))
#define bml_transpose_triangle(...) (FORT() ? fs_transpose_triangle(__VA_ARGS__) : bml_transpose_triangle(__VA_ARGS__))
#define bml_adjungate_triangle(...) (FORT() ? fs_adjungate_triangle(__VA_ARGS__) : bml_adjungate_triangle(__VA_ARGS__))
#define bml_reorder(...) (FORT() ? fs_reorder(__VA_ARGS__) : bml_reorder(__VA_ARGS__))
#define bml_save_domain(...) (FORT() ? fs_save_domain(__VA_ARGS__) : bml_save_domain(__VA_ARGS__))
#define bml_restore_domain(...) (FORT() ? fs_restore_domain(__VA_ARGS__) : bml_restore_domain(__VA_ARGS__))
#define bml_allGatherVParallel(...) (FORT() ? fs_allGatherVParallel(__VA_ARGS__) : bml_allGatherVParallel(__VA_ARGS__))
#define bml_update_domain(...) (FORT() ? fs_update_domain(__VA_ARGS__) : bml_update_domain(__VA_ARGS__))
#define bml_diagonalize(...) (FORT() ? fs_diagonalize(__VA_ARGS__) : bml_diagonalize(__VA_ARGS__))
#define bml_matrix2submatrix_index(...) (FORT() ? fs_matrix2submatrix_index(__VA_ARGS__) : bml_matrix2submatrix_index(__VA_ARGS__))
#define bml_matrix2submatrix_index_graph(...) (FORT() ? fs_matrix2submatrix_index_graph(__VA_ARGS__) : bml_matrix2submatrix_index_graph(__VA_ARGS__))
#define bml_matrix2submatrix(...) (FORT() ? fs_matrix2submatrix(__VA_ARGS__) : bml_matrix2submatrix(__VA_ARGS__))
#define bml_submatrix2matrix(...) (FORT() ? fs_submatrix2matrix(__VA_ARGS__) : bml_submatrix2matrix(__VA_ARGS__))
#define bml_adjacency(...) (FORT() ? fs_adjacency(__VA_ARGS__) : bml_adjacency(__VA_ARGS__))
#define bml_adjacency_group(...) (FORT() ? fs_adjacency_group(__VA_ARGS__) : bml_adjacency_group(__VA_ARGS__))
#define bml_print_bml_matrix(...) (FORT() ? fs_print_bml_matrix(__VA_ARGS__) : bml_print_bml_matrix(__VA_ARGS__))
#define bml_read_bml_matrix(...) (FORT() ? fs_read_bml_matrix(__VA_ARGS__) : bml_read_bml_matrix(__VA_ARGS__))
#define bml_write_bml_matrix(...) (FORT() ? fs_write_bml_matrix(__VA_ARGS__) : bml_write_bml_matrix(__VA_ARGS__))
#define bml_shutdown(...) (FORT() ? fs_shutdown(__VA_ARGS__) : bml_shutdown(__VA_ARGS__))
#define bml_get_precision(...) (FORT() ? (bml_matrix_precision_t)fs_get_precision(__VA_ARGS__) : bml_get_precision(__VA_ARGS__))
#define bml_get_type(...) (FORT() ? (bml_matrix_type_t)fs_get_type(__VA_ARGS__) : bml_get_type(__VA_ARGS__))
#define bml_get_deep_type(...) (FORT() ? (bml_matrix_type_t)fs_get_deep_type(__VA_ARGS__) : bml_get_deep_type(__VA_ARGS__))
#define bml_get_distribution_mode(...) (FORT() ? (bml_distribution_mode_t)fs_get_distribution_mode(__VA_ARGS__) : bml_get_distribution_mode(__VA_ARGS__))
#define bml_deallocate(p) (FORT() ? fs_deallocate((FM *)(p)) : bml_deallocate(p))
#define bml_init(c) (FORT() ? fs_init(MPI_Comm_c2f(c)) : bml_init(c))
