#include <vector>
#include <string>
#include <map>
#include <functional>
#include <algorithm>
#include <complex>
#include <memory>
#include <stack>
#include <omp.h>
#define private public
#define protected public
#undef ESPRESO_USE_WRAPPER_DNBLAS_MKL
#define HAVE_BLAS 1
#define ESPRESO_USE_WRAPPER_DNBLAS_BLAS 1
#include "math/operations/fill_dnx.cpp"
#include "math/operations/copy_dnx.cpp"
#include "math/operations/convert_dnx_dny.cpp"
#include "math/operations/transpose_dnx_dnx.cpp"
#include "math/operations/complete_dnx_dnx.cpp"
#include "math/operations/convert_dnx.cpp"
#include "math/operations/permute_dnx_dnx.cpp"
#include "math/operations/submatrix_dnx_dnx_noncontig.cpp"
#include "math/operations/supermatrix_dnx_dnx_noncontig.cpp"
#include "math/operations/lincomb_matrix_dnx.cpp"
#include "math/operations/lincomb_vector.cpp"
#include "math/operations/convert_csx_dny.cpp"
#include "math/operations/submatrix_csx_dny.cpp"
#include "math/operations/gemv_csx.cpp"
#include "math/operations/lincomb_dnx_csy.cpp"
#include "wrappers/blas/w.blas.cpp"
#undef private
#undef protected
#include "common.h"
using namespace espreso; using namespace espreso::math::operations;
// caller's memory: accessible from the host
struct Host : Allocator_new { void* alloc(size_t) override { return nullptr; } void free(void*&) override {} bool is_data_accessible_cpu() override { return true; } bool is_data_accessible_gpu() override { return false; } };
typedef MatrixDenseView_new<double> D; typedef MatrixCsxView_new<double, int> S; typedef VectorDenseView_new<int> X; typedef PermutationView_new<int> P; typedef VectorDenseView_new<double> DV;
AllocatorCPU_new AllocatorCPU_new::singleton;
#define DM(N, R, C, L, O, U, V) D N; N.set_view(R, C, L, O, (double*)V, &host); N.prop.uplo = U;
#define DD(N, R, C, L, O, U, VV, SY) D N; N.set_view(R, C, L, O, (double*)VV, &host); N.prop.uplo = U; N.prop.symm = SY;
#define CM(N, R, C, Z, O, U, PP, I, VV) S N; N.set_view(R, C, Z, O, (int*)PP, (int*)I, (double*)VV, &host); N.prop.uplo = U;
V void v_fill(double *m, long r, long c, long ld, int o, int u, double v) { Host host; DM(M, r, c, ld, o, u, m) fill_dnx<double>::do_all(&M, v); }
V void v_copy(const double *s, double *d, long r, long c, long lds, long ldd, int o, int us, int ud) { Host host; DM(A, r, c, lds, o, us, s) DM(B, r, c, ldd, o, ud, d) copy_dnx<double>::do_all(&A, &B); }
V void v_lin(double *x, const double *a, const double *b, long r, long c, long ldx, long lda, long ldb, int o, int u, double al, double be) { Host host; DM(X, r, c, ldx, o, u, x) DM(A, r, c, lda, o, u, a) DM(B, r, c, ldb, o, u, b) lincomb_matrix_dnx<double>::do_all(&X, al, &A, be, &B); }
V void v_perm(const double *s, double *d, long r, long c, long lds, long ldd, int o, const int *pr, const int *pc, int inplace) { Host host; DM(A, r, c, lds, o, 'F', s) DM(B, r, c, ldd, o, 'F', d)
    P R, C; R.set_view(r, (int*)pr, nullptr, &host); C.set_view(c, (int*)pc, nullptr, &host); permute_dnx_dnx<double, int>::do_all(inplace ? &B : &A, &B, pr ? &R : nullptr, pc ? &C : nullptr); }
V void v_sub(const double *s, double *d, long rs, long cs, long r, long c, long lds, long ldd, int o, const int *mr, const int *mc) { Host host; DM(A, rs, cs, lds, o, 'F', s) DM(B, r, c, ldd, o, 'F', d)
    X R, C; R.set_view(r, (int*)mr, &host); C.set_view(c, (int*)mc, &host); submatrix_dnx_dnx_noncontig<double, int>::do_all(&A, &B, mr ? &R : nullptr, mc ? &C : nullptr); }
V void v_sup(const double *s, double *d, long rd, long cd, long r, long c, long lds, long ldd, int o, const int *mr, const int *mc, int mode) { Host host; DM(A, r, c, lds, o, 'F', s) DM(B, rd, cd, ldd, o, 'F', d)
    X R, C; R.set_view(r, (int*)mr, &host); C.set_view(c, (int*)mc, &host); typedef supermatrix_dnx_dnx_noncontig<double, int> T; T::do_all(&A, &B, mr ? &R : nullptr, mc ? &C : nullptr, mode ? T::mode::accumulate : T::mode::assign); }
V void v_c2d(const int *p, const int *i, const double *v, long nnz, double *d, long r, long c, long ldd, int os, int od, int u) { Host host; CM(A, r, c, nnz, os, u, p, i, v) DM(B, r, c, ldd, od, u, d) convert_csx_dny<double, int>::do_all(&A, &B); }
V void v_subc(const int *p, const int *i, const double *v, long nnz, long rs, long cs, double *d, long r0, long r1, long c0, long c1, long ldd, int os, int od) { Host host; CM(A, rs, cs, nnz, os, 'F', p, i, v) DM(B, r1 - r0, c1 - c0, ldd, od, 'F', d) submatrix_csx_dny<double, int>::do_all(&A, &B, r0, r1, c0, c1); }
V void v_linc(double *x, const double *a, long r, long c, long ldx, long lda, const int *p, const int *i, const double *v, long nnz, int ox, int ob, double al, double be) { Host host; DM(X, r, c, ldx, ox, 'F', x) DM(A, r, c, lda, ox, 'F', a) CM(B, r, c, nnz, ob, 'F', p, i, v) lincomb_dnx_csy<double, int>::do_all(&X, al, x == a ? &X : &A, be, &B); }
V void v_gemv(const int *p, const int *i, const double *v, long nnz, long r, long c, int o, const double *x, double *y, double al, double be) { Host host; CM(A, r, c, nnz, o, 'F', p, i, v) DV X, Y; X.set_view(c, (double*)x, &host); Y.set_view(r, y, &host); gemv_csx<double, int>::do_all(&A, &X, &Y, al, be); }
V void v_linv(double *x, const double *a, const double *b, long n, double al, double be) { Host host; DV X, A, B; X.set_view(n, x, &host); A.set_view(n, (double*)a, &host); B.set_view(n, (double*)b, &host); lincomb_vector<double>::do_all(&X, al, &A, be, &B); }
typedef std::complex<double> Z; typedef MatrixDenseView_new<Z> ZD;
#define ZM(N, R, C, L, O, U, V) ZD N; N.set_view(R, C, L, O, (Z*)V, &host); N.prop.uplo = U;
V void v_zcopy(const double *s, double *d, long r, long c, long lds, long ldd, int o, int u, int cj) { Host host; ZM(A, r, c, lds, o, u, s) ZM(B, r, c, ldd, o, u, d) copy_dnx<Z>::do_all(&A, &B, cj); }
V void v_ztr(const double *s, double *d, long r, long c, long lds, long ldd, int o, int cj) { Host host; ZM(A, r, c, lds, o, 'F', s) ZM(B, c, r, ldd, o, 'F', d) transpose_dnx_dnx<Z>::do_all(&A, &B, cj); }
V void v_dtr(const double *s, double *d, long r, long c, long lds, long ldd, int o) { Host host; DM(A, r, c, lds, o, 'F', s) DM(B, c, r, ldd, o, 'F', d) transpose_dnx_dnx<double>::do_all(&A, &B, false); }
V void v_ztri(double *d, long r, long ldd, int o, int cj) { Host host; ZM(B, r, r, ldd, o, 'F', d) transpose_dnx_dnx<Z>::do_all(&B, &B, cj); }
// the source represents a symmetric / Hermitian matrix: mirrored when it is stored in full, real diagonal when Hermitian
V void v_zcvt(const double *s, double *d, long r, long c, long lds, long ldd, int os, int od, int us, int ud, int sy) { Host host; new (&AllocatorCPU_new::singleton) AllocatorCPU_new();
    double b[2 * 5 * 4]; long n = os == 'R' ? r : c; for (long k = 0; k < 2 * lds * n; ++k) b[k] = s[k];
    if (sy) for (long i = 0; i < r; ++i) for (long j = 0; j <= i; ++j) { long p = os == 'R' ? i * lds + j : j * lds + i, q = os == 'R' ? j * lds + i : i * lds + j;
        if (i == j) { if (sy == 2) b[2 * p + 1] = 0; } else if (us == 'F') { b[2 * p] = b[2 * q]; b[2 * p + 1] = sy == 2 ? -b[2 * q + 1] : b[2 * q + 1]; } }
    ZM(A, r, c, lds, os, us, b) ZM(B, r, c, ldd, od, ud, d) A.prop.symm = B.prop.symm = sy == 0 ? MatrixSymmetry_new::general : sy == 1 ? MatrixSymmetry_new::symmetric : MatrixSymmetry_new::hermitian; convert_dnx<Z>::do_all(&A, &B); }
V void v_zcpl(const double *s, double *d, long r, long lds, long ldd, int o, int u, int cj) { Host host; ZM(A, r, r, lds, o, u, s) ZM(B, r, r, ldd, o, 'F', d) complete_dnx_dnx<Z>::do_all(&A, &B, cj); }
