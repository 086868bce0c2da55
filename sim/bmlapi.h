#pragma once
#include "mpi.h"
#define BML_USE_MPI 1
#define BML_COMPLEX 1
#define complex _Complex
extern "C" {
#include <complex.h>
#include "bml.h"
#include "bml_adjungate_triangle.h"
#include "bml_transpose_triangle.h"
#include "bml_parallel.h"
void bml_set_block_sizes(int *bsize, int nb, int mb);
bml_matrix_t *bml_block_matrix(bml_matrix_type_t type, bml_matrix_precision_t prec, int nb, int mb, int m, int *bsizes, bml_distribution_mode_t mode);
}
#undef complex
