// std headers first: the project classes are then opened so that the entry points can place plain arrays in them
#include <vector>
#include <string>
#include <map>
#include <functional>
#include <algorithm>
#include <numeric>
#include <random>
#include <iostream>
#include <sstream>
#include <fstream>
#include <cstdio>
#include <cstring>
#include <cmath>
#include <complex>
#include <mutex>
#include <thread>
#include <memory>
#include <set>
#include <unordered_map>
#include <chrono>
#include <omp.h>
#include <mpi.h>
#define private public
#define protected public
#include "feti/common/applyB.h"
#include "feti/common/dual_map.h"
#include "mesh/mesh.h"
#include "analysis/linearsystem/constrains/equalityconstrains.cpp"
#include "analysis/linearsystem/regularization/regularization.heattransfer.cpp"
#include "analysis/linearsystem/regularization/regularization.elasticity.cpp"
#include "math/primitives/matrix_info.cpp"
#undef private
#undef protected
#include "common.h"
using namespace espreso;
template <typename T> struct Raw { alignas(T) char b[sizeof(T)]; Raw() { memset(b, 0, sizeof(T)); } T& operator()() { return *reinterpret_cast<T*>(b); } };
template <typename T> struct Over { T *b, *e, *c; Over() {} Over(T *x, size_t n): b(x), e(x + n), c(x + n) {} std::vector<T>& operator()() { return *reinterpret_cast<std::vector<T>*>(this); } };
typedef Matrix_CSR<double, int> M; typedef Vector_Dense<double, int> VD; typedef Vector_Dual<double> VU;
template <typename T> static inline void put(std::vector<T> &v, Raw<T> *r, size_t n) { ((void**)&v)[0] = r; ((void**)&v)[1] = ((void**)&v)[2] = r + n; }
static inline void puti(std::vector<std::vector<int> > &v, Over<int> *r, size_t n) { ((void**)&v)[0] = r; ((void**)&v)[1] = ((void**)&v)[2] = r + n; }
#define BARGS(K) const int *rows##K, const int *cols##K, const double *vals##K, int nrows##K, const int *d2c##K
#define BSET(K, D) B[D]().nrows = nrows##K; B[D]().rows = (int*)rows##K; B[D]().cols = (int*)cols##K; B[D]().vals = (double*)vals##K; c[D] = Over<int>((int*)d2c##K, nrows##K);
#define FETI2 Raw<FETI<double> > f; Raw<M> B[2], K[2]; Over<int> c[2] = {Over<int>(nullptr, 0), Over<int>(nullptr, 0)}; put(f().B1, B, 2); put(f().K, K, 2); puti(f().D2C, c, 2);
// domain 1 of two, whose gluing matrix is given
V void v_bt(BARGS(1), const double *in, int nin, double *out, int nout, double a) { FETI2 BSET(1, 1) Raw<VU> I; Raw<VD> O; I().size = nin; I().vals = (double*)in; O().size = nout; O().vals = out; applyBt(f(), 1, I(), O(), a); }
V void v_ext(BARGS(1), const double *in, int nin, double *out, int nout) { FETI2 BSET(1, 1) Raw<VU> I; Raw<VD> O; I().size = nin; I().vals = (double*)in; O().size = nout; O().vals = out; extractDomain(f(), 1, I(), O()); }
// two domains
#define IN2 Raw<VD> I[2]; I[0]().size = n0; I[0]().vals = (double*)x0; I[1]().size = n1; I[1]().vals = (double*)x1; std::vector<VD> dummy; Over<Raw<VD> > iv(I, 2); std::vector<VD> &in = *reinterpret_cast<std::vector<VD>*>(&iv); Raw<VU> O; O().size = nout; O().vals = out;
#define BB BARGS(0), BARGS(1), const double *x0, int n0, const double *x1, int n1, double *out, int nout
V void v_b(BB) { FETI2 BSET(0, 0) BSET(1, 1) IN2 applyB(f(), in, O()); }
V void v_bthr(BB) { FETI2 BSET(0, 0) BSET(1, 1) IN2 applyB_threaded(f(), in, O()); }
V void v_bfil(BB, const int *fil, long nf) { FETI2 BSET(0, 0) BSET(1, 1) IN2 Over<int> F((int*)fil, nf); applyB(f(), in, O(), F()); }
V void v_ins(BB) { FETI2 BSET(0, 0) BSET(1, 1) IN2 insertDomains(f(), in, O()); }
typedef serializededata<esint, DecompositionFETI::DIndex> DM;
// the map of degrees of freedom to (domain, index) pairs placed over plain arrays
static inline void dmap(Raw<DM> &m, const int *dist, int ndof, const int *pairs) {
    DM &d = m(); d._edatasize = -1; d._eboundaries._data = (int*)dist; d._eboundaries._size = ndof + 1; d._eboundaries._distribution = { 0, (size_t)ndof + 1 };
    d._edata._data = (DecompositionFETI::DIndex*)pairs; d._edata._size = dist[ndof]; d._edata._distribution = { 0, (size_t)dist[ndof] }; d.inititerators();
}
#define DARGS const int *dist, int ndof, const int *pairs, int dbegin, int ndom, const int *ksize
#define DEC Raw<DM> dm; dmap(dm, dist, ndof, pairs); Raw<DecompositionFETI> dec; dec().dmap = &dm(); dec().dbegin = dbegin; dec().dend = dbegin + ndom;
#define FEQ DEC Raw<FETI<double> > f; f().decomposition = &dec(); f().K.resize(ndom); f().x.resize(ndom); for (int d = 0; d < ndom; ++d) { f().K[d].nrows = ksize[d]; f().x[d].resize(ksize[d]); }
// set, update and enforce the constraints; info: size, equalities, intervals, halo, own, length of cmap, then (lines, entries, columns, length of d2c) of the domains
V void v_eq(DARGS, const int *fix, int nfix, const double *fv, int *inf, int stride, int *rows, int *cols, double *vals, int *d2c, int *cmap, double *c, int nc, double *x, const double *x0) {
    FEQ Raw<Vector_Distributed<Vector_Sparse, double> > dir; dir().cluster.size = ndof; dir().cluster.nnz = nfix; dir().cluster.indices = (int*)fix; dir().cluster.vals = (double*)fv;
    Raw<step::Step> step; EqualityConstrains<double> eq; eq.set(step(), f(), dir());
    inf[0] = f().lambdas.size; inf[1] = f().lambdas.equalities; inf[2] = (int)f().lambdas.intervals.size(); inf[3] = f().lambdas.intervals[0].halo; inf[4] = f().lambdas.intervals[0].size; inf[5] = (int)f().lambdas.cmap.size(); inf[6] = f().c.size;
    for (int i = 0; i < inf[5]; ++i) cmap[i] = f().lambdas.cmap[i];
    for (int d = 0, o = 0; d < ndom; ++d) { M &B = f().B1[d]; inf[7 + 4 * d] = B.nrows; inf[8 + 4 * d] = B.nnz; inf[9 + 4 * d] = B.ncols; inf[10 + 4 * d] = (int)f().D2C[d].size();
        for (int i = 0; i <= B.nrows; ++i) rows[d * stride + i] = B.rows[i];
        for (int i = 0; i < B.nnz; ++i) { cols[d * stride + i] = B.cols[i]; vals[d * stride + i] = B.vals[i]; }
        for (int i = 0; i < B.nrows; ++i) d2c[d * stride + i] = f().D2C[d][i];
        for (int i = 0; i < ksize[d]; ++i, ++o) f().x[d].vals[i] = x0[o]; }
    for (int i = 0; i < nc; ++i) f().c.vals[i] = 13;   // the right-hand side is set, not added to
    eq.update(step(), f(), dir()); for (int i = 0; i < nc; ++i) c[i] = f().c.vals[i];
    eq.enforce(step(), f(), dir()); for (int d = 0, o = 0; d < ndom; ++d) for (int i = 0; i < ksize[d]; ++i) x[o++] = f().x[d].vals[i];
}
// ---- kernels and regularization
namespace espreso { namespace info { Mesh *mesh; } void DebugOutput::fixPoints(const std::vector<esint> &fixPoints, double *solution) { }
// the dense kernels of the external libraries, as the mathematical operations they stand for
namespace math { namespace blas {
template <> void AAt(const Matrix_Dense<double, int> &A, Matrix_Dense<double, int> &C, bool trans) { for (int i = 0; i < A.nrows; ++i) for (int j = 0; j < A.nrows; ++j) { double s = 0; for (int k = 0; k < A.ncols; ++k) s += A.vals[i * A.ncols + k] * A.vals[j * A.ncols + k]; C.vals[i * C.ncols + j] = s; } }
template <> void multiply(double alpha, const Matrix_Dense<double, int> &A, const Matrix_Dense<double, int> &B, double beta, Matrix_Dense<double, int> &C, bool transA, bool transB) {
    int n = transA ? A.ncols : A.nrows, m = transB ? B.nrows : B.ncols, q = transA ? A.nrows : A.ncols;
    for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) { double s = 0; for (int k = 0; k < q; ++k) s += (transA ? A.vals[k * A.ncols + i] : A.vals[i * A.ncols + k]) * (transB ? B.vals[j * B.ncols + k] : B.vals[k * B.ncols + j]); C.vals[i * C.ncols + j] = beta == 0 ? alpha * s : alpha * s + beta * C.vals[i * C.ncols + j]; } }
}
namespace lapack { template <> void solve_sym_upper(Matrix_Dense<double, int> &A, Matrix_Dense<double, int> &rhs) {
    int n = A.nrows, m = rhs.ncols; double *a = A.vals, *b = rhs.vals;
    for (int k = 0; k < n; ++k) for (int i = 0; i < k; ++i) a[k * n + i] = a[i * n + k];
    for (int k = 0; k < n; ++k) for (int i = 0; i < n; ++i) if (i != k) { double f = a[i * n + k] / a[k * n + k]; for (int j = k; j < n; ++j) a[i * n + j] -= f * a[k * n + j]; for (int j = 0; j < m; ++j) b[i * m + j] -= f * b[k * m + j]; }
    for (int k = 0; k < n; ++k) for (int j = 0; j < m; ++j) b[k * m + j] /= a[k * n + k]; } }
} }
#define KSET(D) f().K[D].nrows = f().K[D].ncols = nr; f().K[D].rows = (int*)kr; f().K[D].vals = (double*)kv;
typedef Regularization<double> RG;
#define FREG Raw<FETI<double> > f; Raw<FETIConfiguration> cfg; *(void**)&f() = &cfg; cfg().regularization = FETIConfiguration::REGULARIZATION::ANALYTIC; f().updated.K = true; Raw<RG> rg; rg().regMat = rg().R1 = true;
// the kernel and the regularization of two domains with the matrix of the last one given; the maximum of the first entries of lines
V void v_heat(const int *kr, const double *kv, int nr, int n0, const int *kr0, const double *kv0, double *r, int *inf, int *rows, int *cols, double *vals, int from) { FREG rg().fromAssemblerK = from;
    Raw<M> K[2]; put(f().K, K, 2); KSET(1) f().K[0].nrows = f().K[0].ncols = n0; f().K[0].rows = (int*)kr0; f().K[0].vals = (double*)kv0; f().K[1].type = Matrix_Type::REAL_SYMMETRIC_POSITIVE_DEFINITE; f().K[1].shape = Matrix_Shape::UPPER;
    f().RegMat.resize(2); f().R1.resize(2); f().KR1.resize(2); Raw<HeatTransferLoadStepConfiguration> ls; rg().set(f(), ls()); rg().update(f(), ls());
    Matrix_Dense<double> &R = from ? f().KR1[1] : f().R1[1]; M &G = f().RegMat[1]; inf[0] = R.nrows; inf[1] = R.ncols; inf[2] = G.nrows; inf[3] = G.ncols; inf[4] = G.nnz; inf[5] = G.type == f().K[1].type && G.shape == f().K[1].shape;
    for (int i = 0; i < nr; ++i) r[i] = R.vals[i]; for (int i = 0; i <= nr; ++i) rows[i] = G.rows[i]; cols[0] = G.cols[0]; vals[0] = G.vals[0]; }
V void v_maxfirst(const int *kr, const double *kv, int nr, double *out) { Raw<M> K, G; K().nrows = K().ncols = nr; K().rows = (int*)kr; K().vals = (double*)kv; G().vals = out; updateRegMat(K(), G()); }
#define COO Raw<Mesh> m; Raw<NodeStore> ns; Raw<serializededata<esint, Point> > co; info::mesh = &m(); m().nodes = &ns(); m().dimension = dim; ns().coordinates = &co(); std::vector<Point> pts(ndof / dim); for (int i = 0; i < ndof / dim; ++i) pts[i] = dim == 2 ? Point(coo[2 * i], coo[2 * i + 1], 0) : Point(coo[3 * i], coo[3 * i + 1], coo[3 * i + 2]); co()._edata._data = pts.data();
#define SOL Raw<Vector_Distributed<Vector_Dense, double> > so; so().cluster.size = ndof; so().cluster.vals = (double*)sol; Vector_Distributed<Vector_Dense, double> *sp = usesol ? &so() : nullptr;
// the kernel of a domain of a mechanical problem
V void v_mech(DARGS, int dim, const double *coo, int dom, double *r, int *inf, int from) { DEC FREG rg().fromAssemblerK = from; rg().regMat = false; COO f().decomposition = &dec(); f().K.resize(ndom); f().R1.resize(ndom); f().KR1.resize(ndom);
    for (int d = 0; d < ndom; ++d) f().K[d].nrows = f().K[d].ncols = ksize[d];
    Raw<StructuralMechanicsLoadStepConfiguration> ls; rg().set(f(), ls()); rg().update(f(), ls(), nullptr); Matrix_Dense<double> &R = from ? f().KR1[dom] : f().R1[dom]; inf[0] = R.nrows; inf[1] = R.ncols; for (int i = 0; i < R.nrows * R.ncols; ++i) r[i] = R.vals[i]; }
// the regularization of a domain by its fix points
V void v_regm(DARGS, int dim, const double *coo, int dom, const int *fp, int nfp, const int *kr, const double *kv, int nr, int *rows, int *cols, double *vals, int *inf, const double *sol, int usesol) { DEC COO SOL
    Raw<M> K; K().nrows = K().ncols = nr; K().rows = (int*)kr; K().vals = (double*)kv; M G; std::vector<esint> points(fp, fp + nfp), fc, perm; setRegMat(K(), G, &dec(), dom, points, fc, perm);
    inf[0] = G.nrows; inf[1] = G.ncols; inf[2] = G.nnz; inf[3] = G.shape == Matrix_Shape::UPPER; for (int i = 0; i <= nr; ++i) rows[i] = G.rows[i]; for (int i = 0; i < G.nnz; ++i) cols[i] = G.cols[i];
    updateRegMat(K(), G, &dec(), dom, points, fc, perm, sp); for (int i = 0; i < G.nnz; ++i) vals[i] = G.vals[i]; }
