#include "simdutil.h"
#include "analysis/assembler/general/math.h"
using namespace espreso;
#define MULT(NAME, R, K, C, NA, NB, NC) V void v_##NAME##_##R##_##K##_##C(double *c, const double *a, const double *b, const double *s) { \
    SIMD A[NA], B[NB], CC[NC], S[1]; vin(A, a, NA); vin(B, b, NB); vin(CC, c, NC); vin(S, s, 1); \
    NAME<R, K, C>(CC, A, B, S[0]); vout(c, CC, NC); }
#define MULTS(NAME) MULT(NAME,2,3,4,6,12,8) MULT(NAME,3,3,3,9,9,9) MULT(NAME,6,6,6,36,36,36) MULT(NAME,3,1,2,3,2,6) MULT(NAME,1,4,3,4,12,3) MULT(NAME,2,2,2,4,4,4) MULT(NAME,3,8,3,24,24,9)
MULTS(multAB) MULTS(multAtB) MULTS(multABt) MULTS(multAtBt)
#define MULT3(NAME, R, C, NA, NB, NC) V void v_##NAME##_##R##_##C(double *c, const double *a, const double *b, const double *s) { \
    SIMD A[NA], B[NB], CC[NC], S[1]; vin(A, a, NA); vin(B, b, NB); vin(CC, c, NC); vin(S, s, 1); \
    NAME<R, C>(CC, A, B, S[0]); vout(c, CC, NC); }
MULT3(multAtBA,3,2,6,9,4) MULT3(multAtBA,2,3,6,4,9) MULT3(multAtBA,6,6,36,36,36) MULT3(multAtBA,3,8,24,9,64)
MULT3(multABAt,3,2,6,4,9) MULT3(multABAt,2,3,6,9,4) MULT3(multABAt,6,6,36,36,36)
V void v_set(double *c, const double *v) { SIMD C[6], X[1]; vin(C, c, 6); vin(X, v, 1); set<2,3>(C, X[0]); vout(c, C, 6); }
V void v_inv22(const double *a, double *d, double *r) { SIMD A[4], D, R[4]; vin(A, a, 4); inv22(A, D, R); vout(d, &D, 1); vout(r, R, 4); }
V void v_inv33(const double *a, double *d, double *r) { SIMD A[9], D, R[9]; vin(A, a, 9); inv33(A, D, R); vout(d, &D, 1); vout(r, R, 9); }
V void v_inv22n(const double *a, double *d, double *r) { SIMD A[4], D, R[4]; vin(A, a, 4); inv22(A, R); D = determinant22(A); vout(d, &D, 1); vout(r, R, 4); }
V void v_inv33n(const double *a, double *d, double *r) { SIMD A[9], D, R[9]; vin(A, a, 9); inv33(A, R); D = determinant33(A); vout(d, &D, 1); vout(r, R, 9); }
V void v_m33v6(const double *a, double *r) { SIMD A[9], R[6]; vin(A, a, 9); matrix33ToVoigt6(A, R); vout(r, R, 6); }
V void v_v6m33(const double *a, double *r) { SIMD A[6], R[9]; vin(A, a, 6); voigt6ToMatrix33(A, R); vout(r, R, 9); }
V void v_v3m22(const double *a, double *r) { SIMD A[3], R[4]; vin(A, a, 3); voigt3ToMatrix22(A, R); vout(r, R, 4); }
V void v_maps(int *a36, int *a81, int *a9, int *a6) {
    for (int i = 0; i < 36; ++i) a36[i] = voigt36ToMatrix3333(i);
    for (int i = 0; i < 81; ++i) a81[i] = matrix3333ToVoigh36(i);
    for (int i = 0; i < 9; ++i) a9[i] = matrix33ToVoigh6(i);
    for (int i = 0; i < 6; ++i) a6[i] = voigt6ToMatrix33(i);
}
