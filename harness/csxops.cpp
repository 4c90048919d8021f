#include <vector>
#include <string>
#include <map>
#include <functional>
#include <algorithm>
#include <complex>
#include <memory>
#include <stack>
#include <omp.h>
#define private public
#define protected public
#include "math/operations/fill_dnx.cpp"
#include "math/operations/copy_csx.cpp"
#include "math/operations/convert_csx_csy.cpp"
#include "math/operations/convert_csx_csy_map.cpp"
#include "math/operations/transpose_csx_csx_map.cpp"
#include "math/operations/permute_csx_csx.cpp"
#include "math/operations/permute_csx_csx_map.cpp"
#include "math/operations/submatrix_csx_csy.cpp"
#include "math/operations/submatrix_csx_csy_map.cpp"
#include "math/operations/quadrisect_csx_csy.cpp"
#include "math/operations/concat_csx.cpp"
#include "math/operations/complete_csx_csy_map.cpp"
#include "math/operations/pruning_subset_csx.cpp"
#include "math/operations/prune_csx_matx.cpp"
#include "math/operations/pivots_trails_csx.cpp"
#include "math/operations/sorting_permutation.cpp"
#undef private
#undef protected
#include "common.h"
using namespace espreso; using namespace espreso::math::operations;
// caller's memory: accessible from the host
struct Host : Allocator_new { void* alloc(size_t) override { return nullptr; } void free(void*&) override {} bool is_data_accessible_cpu() override { return true; } bool is_data_accessible_gpu() override { return false; } };
typedef MatrixCsxView_new<double, int> S; typedef VectorDenseView_new<int> X; typedef PermutationView_new<int> P;
typedef std::complex<double> Z; typedef MatrixCsxView_new<Z, int> ZS;
AllocatorCPU_new AllocatorCPU_new::singleton;
#define BEGIN Host host; new (&AllocatorCPU_new::singleton) AllocatorCPU_new();
#define CM(N, R, C, NZ, O, U, PP, I, VV) S N; N.set_view(R, C, NZ, O, (int*)PP, (int*)I, (double*)VV, &host); N.prop.uplo = U;
#define ZM(N, R, C, NZ, O, U, PP, I, VV) ZS N; N.set_view(R, C, NZ, O, (int*)PP, (int*)I, (Z*)VV, &host); N.prop.uplo = U;
#define SRC const int *p, const int *i, const double *v, long nnz, long r, long c, int o
#define DST int *dp, int *di, double *dv
V void v_copy(SRC, DST) { BEGIN CM(A, r, c, nnz, o, 'F', p, i, v) CM(B, r, c, nnz, o, 'F', dp, di, dv) copy_csx<double, int>::do_all(&A, &B); }
V void v_cvt(SRC, DST, int od) { BEGIN CM(A, r, c, nnz, o, 'F', p, i, v) CM(B, r, c, nnz, od, 'F', dp, di, dv) convert_csx_csy<double, int>::do_all(&A, &B); }
// the pattern once, the values again from a second set of values: the second result counts
V void v_cvtm(SRC, DST, int od, const double *w) { BEGIN CM(A, r, c, nnz, o, 'F', p, i, v) CM(B, r, c, nnz, od, 'F', dp, di, dv) { convert_csx_csy_map<double, int> op; op.set_matrix_src(&A); op.set_matrix_dst(&B); op.perform_pattern(); op.perform_values(); A.vals = (double*)w; op.perform_values(); } }
V void v_trm(SRC, DST, const double *w) { BEGIN CM(A, r, c, nnz, o, 'F', p, i, v) CM(B, c, r, nnz, o, 'F', dp, di, dv) { transpose_csx_csx_map<double, int> op; op.set_matrix_src(&A); op.set_matrix_dst(&B); op.perform_pattern(); op.perform_values(); A.vals = (double*)w; op.perform_values(); } }
#define PERMS P R, C; R.set_view(r, (int*)rd, (int*)rs, &host); C.set_view(c, (int*)cd, (int*)cs, &host);
V void v_perm(SRC, DST, const int *rd, const int *rs, const int *cd, const int *cs, int mr, int mc) { BEGIN CM(A, r, c, nnz, o, 'F', p, i, v) CM(B, r, c, nnz, o, 'F', dp, di, dv) PERMS permute_csx_csx<double, int>::do_all(&A, &B, mr ? &R : nullptr, mc ? &C : nullptr); }
V void v_permm(SRC, DST, const int *rd, const int *rs, const int *cd, const int *cs, int mr, int mc, int u, const double *w) { BEGIN CM(A, r, c, nnz, o, u, p, i, v) CM(B, r, c, nnz, o, u, dp, di, dv) PERMS
    { permute_csx_csx_map<double, int> op; op.set_matrix_src(&A); op.set_matrix_dst(&B); op.set_perm_rows(mr ? &R : nullptr); op.set_perm_cols(mc ? &C : nullptr); op.perform_pattern(); op.perform_values(); A.vals = (double*)w; op.perform_values(); } }
V void v_sub(SRC, DST, long *nz, int od, long r0, long r1, long c0, long c1) { BEGIN CM(A, r, c, nnz, o, 'F', p, i, v) submatrix_csx_csy<double, int> op; op.set_matrix_src(&A); op.set_bounds(r0, r1, c0, c1); op.setup(); *nz = op.get_output_matrix_nnz(); CM(B, r1 - r0, c1 - c0, *nz, od, 'F', dp, di, dv) op.set_matrix_dst(&B); op.perform(); }
V void v_subm(SRC, DST, long *nz, int od, long r0, long r1, long c0, long c1, const double *w) { BEGIN CM(A, r, c, nnz, o, 'F', p, i, v) submatrix_csx_csy_map<double, int> op; op.set_matrix_src(&A); op.set_bounds(r0, r1, c0, c1); op.setup(); *nz = op.get_output_matrix_nnz(); CM(B, r1 - r0, c1 - c0, *nz, od, 'F', dp, di, dv) op.set_matrix_dst(&B); op.perform_pattern(); op.perform_values(); A.vals = (double*)w; op.perform_values(); }
// the four blocks lie behind each other in the destination arrays: (max(r, c) + 1) pointers and nnz entries each
V void v_quad(SRC, DST, long *nz, int o1, int o2, int o3, int o4, long rc, long cc) { BEGIN CM(A, r, c, nnz, o, 'F', p, i, v) long L = (r > c ? r : c) + 1; quadrisect_csx_csy<double, int> op; op.set_matrix_src(&A); op.set_bounds(rc, cc); op.setup();
    nz[0] = op.get_output_matrix_11_nnz(); nz[1] = op.get_output_matrix_12_nnz(); nz[2] = op.get_output_matrix_21_nnz(); nz[3] = op.get_output_matrix_22_nnz();
    CM(B11, rc, cc, nz[0], o1, 'F', dp, di, dv) CM(B12, rc, c - cc, nz[1], o2, 'F', dp + L, di + nnz, dv + nnz) CM(B21, r - rc, cc, nz[2], o3, 'F', dp + 2 * L, di + 2 * nnz, dv + 2 * nnz) CM(B22, r - rc, c - cc, nz[3], o4, 'F', dp + 3 * L, di + 3 * nnz, dv + 3 * nnz)
    op.set_matrices_dst(&B11, &B12, &B21, &B22); op.perform(); }
// the blocks in one array with their pointer/entry offsets: off[2k] pointers, off[2k+1] entries, nz[k] entries, or[k] order, 0 = missing block
V void v_cat(const int *p, const int *i, const double *v, const int *off, const int *nz, const int *ord, long r, long c, long rc, long cc, int o, long nnz, DST) { BEGIN
    long R[4] = {rc, rc, r - rc, r - rc}, C[4] = {cc, c - cc, cc, c - cc}; S b[4];
    for (int k = 0; k < 4; ++k) if (ord[k]) b[k].set_view(R[k], C[k], nz[k], ord[k], (int*)p + off[2 * k], (int*)i + off[2 * k + 1], (double*)v + off[2 * k + 1], &host);
    CM(A, r, c, nnz, o, 'F', dp, di, dv) concat_csx<double, int>::do_all(ord[0] ? b : nullptr, ord[1] ? b + 1 : nullptr, ord[2] ? b + 2 : nullptr, ord[3] ? b + 3 : nullptr, &A); }
V void v_cpl(SRC, DST, long *nz, int u, int od, int cj, long dnnz, const double *w) { BEGIN ZM(A, r, c, nnz, o, u, p, i, v) ZM(B, r, c, dnnz, od, 'F', dp, di, dv) { complete_csx_csy_map<Z, int> op; op.set_matrix_src(&A); op.set_matrix_dst(&B); op.set_conj(cj); *nz = op.get_dst_nnz(); if (*nz != dnnz) return; op.perform_pattern(); op.perform_values(); A.vals = (Z*)w; op.perform_values(); } }
V void v_prs(SRC, long *nz, int *rows, int *cols, int pr, int pc) { BEGIN CM(A, r, c, nnz, o, 'F', p, i, v) { pruning_subset_csx<double, int> op; op.set_matrix(&A); op.set_pruning_mode(pr, pc); op.setup(); nz[0] = op.get_pruned_nrows(); nz[1] = op.get_pruned_ncols();
    X R, C; R.set_view(nz[0], rows, &host); C.set_view(nz[1], cols, &host); op.set_vector_pruned_rows(&R); op.set_vector_pruned_cols(&C); op.perform(); } }
V void v_prm(SRC, DST, long *nz, int *rows, int *cols, int pr, int pc) { BEGIN CM(A, r, c, nnz, o, 'F', p, i, v) { prune_csx_matx<double, int> op; op.set_matrix_src(&A); op.set_pruning_mode(pr, pc); op.setup(); nz[0] = op.get_dst_matrix_nrows(); nz[1] = op.get_dst_matrix_ncols();
    X R, C; R.set_view(nz[0], rows, &host); C.set_view(nz[1], cols, &host); if (pr) op.set_vector_pruned_rows(&R); if (pc) op.set_vector_pruned_cols(&C); op.preprocess(); CM(B, nz[0], nz[1], nnz, o, 'F', dp, di, dv) op.set_matrix_dst_sp(&B); op.perform(); } }
V void v_prd(SRC, double *d, long ld, long *nz, int *rows, int *cols, int pr, int pc) { BEGIN CM(A, r, c, nnz, o, 'F', p, i, v) { prune_csx_matx<double, int> op; op.set_matrix_src(&A); op.set_pruning_mode(pr, pc); op.setup(); nz[0] = op.get_dst_matrix_nrows(); nz[1] = op.get_dst_matrix_ncols();
    X R, C; R.set_view(nz[0], rows, &host); C.set_view(nz[1], cols, &host); if (pr) op.set_vector_pruned_rows(&R); if (pc) op.set_vector_pruned_cols(&C); op.preprocess(); MatrixDenseView_new<double> B; B.set_view(nz[0], nz[1], ld, o, d, &host); op.set_matrix_dst_dn(&B); op.perform(); } }
V void v_piv(SRC, int *out, int rc, int pt, int comp) { BEGIN CM(A, r, c, nnz, o, 'F', p, i, v) X Y; Y.set_view(rc == 'R' ? r : c, out, &host); pivots_trails_csx<double, int>::do_all(&A, &Y, rc, pt, comp); }
V void v_srt(const int *x, long n, int *d2s, int *s2d) { BEGIN X Y; Y.set_view(n, (int*)x, &host); P Q; Q.set_view(n, d2s, s2d, &host); sorting_permutation<int, int>::do_all(&Y, &Q); }
