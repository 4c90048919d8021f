// std headers first: the project classes are then opened so that the entry points can place plain arrays in them
#include <vector>
#include <string>
#include <map>
#include <set>
#include <functional>
#include <algorithm>
#include <numeric>
#include <iostream>
#include <sstream>
#include <fstream>
#include <cstdio>
#include <cstring>
#include <cmath>
#include <complex>
#include <mutex>
#include <thread>
#include <memory>
#include <unordered_map>
#include <chrono>
#include <omp.h>
#include <mpi.h>
#define private public
#define protected public
#include "mesh/mesh.h"
#include "mesh/store/domainstore.h"
#include "mesh/store/boundaryregionstore.h"
#include "mesh/store/elementstore.h"
#include "mesh/store/nodestore.h"
#include "math/wrappers/math.blas.h"
#include "math/wrappers/math.spblas.h"
// the kernels of the external libraries, as the operations they stand for
namespace espreso { namespace math { namespace blas {
template <> void copy(const int size, double *x, const int incX, const double *y, const int incY) { for (int i = 0; i < size; ++i) x[i * incX] = y[i * incY]; }
template <> void add(const int size, double *x, const int incX, const double &alpha, const double *y, const int incY) { for (int i = 0; i < size; ++i) x[i * incX] += alpha * y[i * incY]; }
template <> void scale(const int size, const double &alpha, double *x, const int incX) { for (int i = 0; i < size; ++i) x[i * incX] *= alpha; }
template <> double dot(const int size, const double *x, const int incX, const double *y, const int incY) { double s = 0; for (int i = 0; i < size; ++i) s += x[i * incX] * y[i * incY]; return s; }
} } }
static bool general;   // the result is not read when beta is zero
namespace espreso { template <> SpBLAS<Matrix_CSR, double, int>::SpBLAS() { matrix = nullptr; _spblas = nullptr; } template <> SpBLAS<Matrix_CSR, double, int>::~SpBLAS() { }
template <> void SpBLAS<Matrix_CSR, double, int>::insert(Matrix_CSR<double, int> &a, bool trans) { matrix = &a; }
template <> void SpBLAS<Matrix_CSR, double, int>::apply(Vector_Dense<double, int> &y, const double &alpha, const double &beta, const Vector_Dense<double, int> &x) { for (int r = 0; r < matrix->nrows; ++r) { double s = 0;
    for (int c = matrix->rows[r] - Indexing::CSR; c < matrix->rows[r + 1] - Indexing::CSR; ++c) s += matrix->vals[c] * x.vals[matrix->cols[c] - Indexing::CSR];
    if (!general && beta == 0) y.vals[r] = alpha * s; else y.vals[r] = alpha * s + beta * y.vals[r]; } } }
#include "analysis/linearsystem/directsolver.cpp"
#include "analysis/math/matrix_feti.h"
#include "analysis/pattern/decomposition.direct.cpp"
#include "analysis/pattern/decomposition.feti.cpp"
#include "analysis/pattern/matrix.uniform.direct.cpp"
#include "analysis/pattern/matrix.uniform.feti.cpp"
#include "analysis/pattern/vector.uniform.dense.cpp"
#include "analysis/pattern/vector.uniform.sparse.cpp"
#include "math/primitives/matrix_info.cpp"
#undef private
#undef protected
#include "common.h"
#ifndef VERIF_NATIVE
// the red-black tree of the standard library as a search tree that is not rebalanced (the order of the elements is the same)
namespace std {
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) noexcept {
    x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; x->_M_color = _S_black; } else if (p == h._M_left) h._M_left = x; } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; } }
static _Rb_tree_node_base *inc(_Rb_tree_node_base *x) { if (x->_M_right != 0) { x = x->_M_right; while (x->_M_left != 0) x = x->_M_left; } else { _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) noexcept { return inc(x); }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) noexcept { return inc((_Rb_tree_node_base*)x); }
static _Rb_tree_node_base *dec(_Rb_tree_node_base *x) { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left != 0) { _Rb_tree_node_base *y = x->_M_left; while (y->_M_right != 0) y = y->_M_right; return y; } _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y; }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) noexcept { return dec(x); }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) noexcept { return dec((_Rb_tree_node_base*)x); }
}
#endif
using namespace espreso;
template <typename T> struct Raw { alignas(T) char b[sizeof(T)]; Raw() { memset(b, 0, sizeof(T)); } T& operator()() { return *reinterpret_cast<T*>(b); } };
typedef Matrix_CSR<double, int> M; typedef Vector_Dense<double, int> VD; typedef serializededata<esint, esint> SD; typedef DirectLinearSystemSolver<double> DS;
namespace espreso { namespace info { Mesh *mesh; ECF *ecf; namespace mpi { int rank, size; MPI_Comm comm; } namespace env { int threads = 1; } } }
void eslog::info(const char*) { } double eslog::time() { return 0; } static std::vector<esint> *domdist; std::vector<esint> DomainStore::gatherProcDistribution() { return *domdist; }
MPIGroup *MPITools::procs; int Communication::TAG::EX_UNKNOWN, Communication::TAG::EX_KNOWN, Communication::TAG::R_UP_UNKNOWN, Communication::TAG::R_LOW_KNOWN, Communication::TAG::GATHER_UNIFORM;
// the other processes: messages are recorded (target and length, then the data) and given in the order in which they arrive
struct Pack { double v; int a, b; };
static int given, *from, *len, *gint, sentn, senti, sentd, *to, *sint; static double *gdbl, *sdbl; static bool used[64], pairs; static int ioff[64], doff[64], now;
// kind of the data: 0 integers, 1 doubles, 2 doubles with two indices, 3 pairs of integers
static int *kinds;
static void world(int rank, int size, int n, const int *src, const int *ln, const int *kd, const int *gi, const double *gd, int *dst, int *si, double *sd) {
    info::mpi::rank = rank; info::mpi::size = size; given = n; from = (int*)src; len = (int*)ln; kinds = (int*)kd; gint = (int*)gi; gdbl = (double*)gd; to = dst; sint = si; sdbl = sd; sentn = senti = sentd = 0;
    for (int i = 0, a = 0, b = 0; i < n; ++i) { used[i] = false; ioff[i] = a; doff[i] = b; if (kd[i] != 1) a += ln[i] * (kd[i] ? 2 : 1); if (kd[i] == 1 || kd[i] == 2) b += ln[i]; } pairs = false; }
static void send(const void *buf, int n, MPI_Datatype t, int rank) { int k = t == MPI_INT ? 0 : t == MPI_DOUBLE ? 1 : pairs ? 3 : 2; if (k == 2) n /= (int)sizeof(Pack); if (k == 3) n /= 8; to[2 * sentn] = rank; to[2 * sentn++ + 1] = n;
    for (int i = 0; i < n; ++i) { if (k == 0) sint[senti++] = ((const int*)buf)[i]; if (k == 1) sdbl[sentd++] = ((const double*)buf)[i]; if (k == 2) { Pack p; memcpy(&p, (const char*)buf + i * sizeof(Pack), sizeof(Pack)); sdbl[sentd++] = p.v; sint[senti++] = p.a; sint[senti++] = p.b; } if (k == 3) { sint[senti++] = ((const int*)buf)[2 * i]; sint[senti++] = ((const int*)buf)[2 * i + 1]; } } }
static int size(int m) { return kinds[m] == 2 ? len[m] * (int)sizeof(Pack) : kinds[m] == 3 ? len[m] * 8 : len[m]; }
static void take(int m, void *buf) { used[m] = true; for (int i = 0; i < len[m]; ++i) { if (kinds[m] == 0) ((int*)buf)[i] = gint[ioff[m] + i]; if (kinds[m] == 1) ((double*)buf)[i] = gdbl[doff[m] + i]; if (kinds[m] == 3) { ((int*)buf)[2 * i] = gint[ioff[m] + 2 * i]; ((int*)buf)[2 * i + 1] = gint[ioff[m] + 2 * i + 1]; }
    if (kinds[m] == 2) { Pack p = { gdbl[doff[m] + i], gint[ioff[m] + 2 * i], gint[ioff[m] + 2 * i + 1] }; memcpy((char*)buf + i * sizeof(Pack), &p, sizeof(Pack)); } } }
extern "C" int MPI_Isend(const void *buf, int n, MPI_Datatype t, int rank, int, MPI_Comm, MPI_Request*) { send(buf, n, t, rank); return 0; }
extern "C" int MPI_Irecv(void *buf, int n, MPI_Datatype, int rank, int, MPI_Comm, MPI_Request*) { for (int m = 0; m < given; ++m) if (!used[m] && from[m] == rank) { take(m, buf); break; } return 0; }
extern "C" int MPI_Probe(int, int, MPI_Comm, MPI_Status *st) { for (now = 0; now < given && used[now]; ++now); st->MPI_SOURCE = from[now]; return 0; }
extern "C" int MPI_Get_count(const MPI_Status*, MPI_Datatype, int *count) { *count = size(now); return 0; }
extern "C" int MPI_Recv(void *buf, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*) { take(now, buf); return 0; }
extern "C" int MPI_Waitall(int, MPI_Request*, MPI_Status*) { return 0; }
extern "C" int MPI_Barrier(MPI_Comm) { return 0; }
bool Communication::allReduce(void *in, void *out, size_t size, MPI_Datatype type, MPI_Op op, MPIGroup *group) { return true; }
#define WARGS int rank, int nprocs, const int *neigh, int nn, const int *ndof, int nmsg, const int *src, const int *ln, const int *kd, const int *gi, const double *gd, int *dst, int *si, double *sd, int *nsent
#define WORLD Raw<MPIGroup> grp; MPITools::procs = &grp(); grp().rank = rank; grp().size = nprocs; grp().communicator = MPI_COMM_WORLD; world(rank, nprocs, nmsg, src, ln, kd, gi, gd, dst, si, sd); Raw<Mesh> me; info::mesh = &me(); me().neighbors.assign(neigh, neigh + nn);
#define WEND nsent[0] = sentn; nsent[1] = senti; nsent[2] = sentd;
// Dirichlet conditions of the direct solvers: lines of the halo first, then mine
V void v_dir(const int *rows, const int *cols, double *vals, int nrows, const int *halo, int nhalo, int begin, const int *fix, int nfix, const double *g, double *b, WARGS) { WORLD
    Raw<DS> s; Raw<DecompositionDirect> dec; s().A.decomposition = &dec(); dec().begin = begin; dec().end = begin + nrows - nhalo; dec().halo.assign(halo, halo + nhalo); dec().neighDOF.assign(ndof, ndof + nn + 1); dec().neighbors = me().neighbors;
    s().A.cluster.nrows = nrows; s().A.cluster.rows = (int*)rows; s().A.cluster.cols = (int*)cols; s().A.cluster.vals = vals; s().b.cluster.size = nrows; s().b.cluster.vals = b; s().dirichlet.cluster.nnz = nfix; s().dirichlet.cluster.size = nrows; s().dirichlet.cluster.indices = (int*)fix; s().dirichlet.cluster.vals = (double*)g;
    s().setDirichlet(); WEND }
// ---- lines of the halo are added to their owners
#define DECO(T) Raw<T> dec; dec().begin = begin; dec().end = begin + nrows - nhalo; dec().halo.assign(halo, halo + nhalo); dec().neighDOF.assign(ndof, ndof + nn + 1); dec().neighbors = me().neighbors;
V void v_sync(const int *rows, const int *cols, double *vals, int nrows, const int *halo, int nhalo, int begin, int twice, WARGS) { WORLD
    Raw<MatrixUniformDirect> mm; MatrixUniformDirect &m = mm(); m.decomposition.begin = begin; m.decomposition.end = begin + nrows - nhalo; m.decomposition.halo.assign(halo, halo + nhalo); m.decomposition.neighDOF.assign(ndof, ndof + nn + 1); m.decomposition.neighbors = me().neighbors;
    m.pattern.nrows = nrows; m.pattern.row.assign(rows, rows + nrows + 1); m.pattern.column.assign(cols, cols + rows[nrows]);
    Raw<Matrix_Distributed<double> > A; A().cluster.nrows = nrows; A().cluster.rows = (int*)rows; A().cluster.cols = (int*)cols; A().cluster.vals = vals;
    Raw<MatrixUniformDirect::Sync<double> > s; s().init(m); if (twice) s().init(m); s().MatrixUniformDirect::Sync<double>::gatherFromUpper(A()); WEND }
typedef Vector_Distributed<Vector_Dense, double> VC; typedef Vector_Distributed<Matrix_Dense, double> VM; typedef Vector_FETI<Vector_Dense, double> VF;
V void v_vsync(double *vals, int nrows, const int *halo, int nhalo, int begin, int op, WARGS) { WORLD DECO(DecompositionDirect)
    VC &v = *new VC(); v.cluster.size = nrows; v.cluster.vals = vals; v.decomposition = &dec(); VectorUniformDense::SyncVector<double> s; s.init(dec());
    if (op & 1) s.gatherFromUpper(v); if (op & 2) s.scatterToUpper(v); if (op & 4) { v.sync = &s; v.synchronize(); } if (op & 8) { v.sync = &s; v.scatter(); } WEND }
V void v_msync(double *vals, int nrows, const int *halo, int nhalo, int begin, int op, WARGS) { WORLD DECO(DecompositionDirect)
    VM &v = *new VM(); v.cluster.nrows = 1; v.cluster.ncols = nrows; v.cluster.vals = vals; v.decomposition = &dec(); VectorUniformDense::SyncMatrix<double> s; s.init(dec());
    if (op & 1) s.gatherFromUpper(v); if (op & 2) s.scatterToUpper(v); if (op & 4) { v.sync = &s; v.synchronize(); } if (op & 8) { v.sync = &s; v.scatter(); } WEND }
// ---- y = alpha * A * x + beta * y of a distributed matrix; the product of the local matrix is the mathematical one
V void v_apply(const int *rows, const int *cols, const double *vals, int nrows, const int *halo, int nhalo, int begin, const double *x, double *y, double alpha, double beta, WARGS) { WORLD DECO(DecompositionDirect)
    Raw<MatrixUniformDirect> mm; MatrixUniformDirect &m = mm(); m.decomposition.begin = dec().begin; m.decomposition.end = dec().end; m.decomposition.halo.assign(halo, halo + nhalo); m.decomposition.neighDOF.assign(ndof, ndof + nn + 1); m.decomposition.neighbors = me().neighbors;
    m.pattern.nrows = nrows; m.pattern.row.assign(rows, rows + nrows + 1); m.pattern.column.assign(cols, cols + rows[nrows]);
    Raw<Matrix_Distributed<double> > A; A().decomposition = &dec(); A().cluster.nrows = nrows; A().cluster.rows = (int*)rows; A().cluster.cols = (int*)cols; A().cluster.vals = (double*)vals;
    VC &X = *new VC(), &Y = *new VC(); X.cluster.size = Y.cluster.size = nrows; X.cluster.vals = (double*)x; Y.cluster.vals = y; X.decomposition = Y.decomposition = &dec();
    VectorUniformDense::SyncVector<double> s; s.init(dec()); Y.sync = &s; pairs = true; general = true; Raw<MatrixUniformDirect::Apply<double> > a; a().init(m); a().MatrixUniformDirect::Apply<double>::apply(A(), Y, alpha, beta, X); WEND }
// ---- vectors of the domains
typedef serializededata<esint, DecompositionFETI::DIndex> DM;
static inline void dmap(Raw<DM> &m, const int *dist, int ndof, const int *pairs) {
    DM &d = m(); d._edatasize = -1; d._eboundaries._data = (int*)dist; d._eboundaries._size = ndof + 1; d._eboundaries._distribution = { 0, (size_t)ndof + 1 };
    d._edata._data = (DecompositionFETI::DIndex*)pairs; d._edata._size = dist[ndof]; d._edata._distribution = { 0, (size_t)dist[ndof] }; d.inititerators();
}
V double v_fvec(int op, const int *dist, int nrows, const int *mp, int dbegin, int ndom, const int *dsize, double *f, double *x, double alpha, const int *halo, int nhalo, int begin, WARGS) { WORLD DECO(DecompositionFETI)
    Raw<DM> dm; dmap(dm, dist, nrows, mp); dec().dmap = &dm(); dec().dbegin = dbegin; dec().dend = dbegin + ndom;
    Raw<VF> F; F().decomposition = &dec(); F().domains.resize(ndom); for (int d = 0, o = 0; d < ndom; o += dsize[d++]) { F().domains[d].size = dsize[d]; F().domains[d].vals = f + o; }
    VC &C = *new VC(); C.decomposition = &dec(); C.cluster.size = nrows; C.cluster.vals = x; VectorUniformDense::SyncVector<double> s; s.init(dec()); C.sync = &s; double r = 0; std::vector<double> out;
    switch (op) {
    case 0: C.VC::copyTo(&F()); break;
    case 1: C.VC::spliteTo(&F()); break;
    case 2: F().VF::copyTo(&C); break;
    case 3: F().VF::addTo(alpha, &C); break;
    case 4: F().VF::sumTo(&C); break;
    case 5: F().VF::averageTo(&C); break;
    case 6: r = F()._dot(F().domains); break;
    case 7: out.assign(x, x + nrows); F().VF::storeTo(out); for (int i = 0; i < nrows; ++i) x[i] = out[i]; break;
    case 8: out.assign(x, x + nrows); F().VF::setFrom(out); break;
    }
    WEND for (auto &d: F().domains) d.vals = nullptr; return r; }
V void v_fsp(const int *dist, int nrows, const int *mp, int dbegin, int ndom, const int *dsize, double *f, const int *fix, int nfix, double *x, double alpha) {
    Raw<DecompositionFETI> dec; Raw<DM> dm; dmap(dm, dist, nrows, mp); dec().dmap = &dm(); dec().dbegin = dbegin; dec().dend = dbegin + ndom;
    Raw<VF> F; F().decomposition = &dec(); F().domains.resize(ndom); for (int d = 0, o = 0; d < ndom; o += dsize[d++]) { F().domains[d].size = dsize[d]; F().domains[d].vals = f + o; }
    Vector_Distributed<Vector_Sparse, double> &C = *new Vector_Distributed<Vector_Sparse, double>(); C.cluster.size = nrows; C.cluster.nnz = nfix; C.cluster.indices = (int*)fix; C.cluster.vals = x; F().VF::addTo(alpha, &C); for (auto &d: F().domains) d.vals = nullptr; }
// y = alpha * A * x + beta * y of the matrices of the domains
V void v_fapply(const int *dist, int nrows, const int *mp, int dbegin, int ndom, const int *dsize, const int *rows, const int *cols, double *vals, const double *x, double *y, double alpha, double beta, const int *halo, int nhalo, int begin, WARGS) { WORLD DECO(DecompositionFETI)
    Raw<DM> dm; dmap(dm, dist, nrows, mp); Raw<MatrixUniformFETI> mm; DecompositionFETI &D = mm().decomposition; D.begin = dec().begin; D.end = dec().end; D.halo.assign(halo, halo + nhalo); D.neighbors = dec().neighbors; D.dmap = &dm(); D.dbegin = dbegin; D.dend = dbegin + ndom; D.dsize.assign(dsize, dsize + ndom); D.neighDOF = dec().neighDOF;
    Raw<Matrix_FETI<double> > A; A().decomposition = &D; A().domains.resize(ndom); for (int d = 0, r = 0, n = 0; d < ndom; r += dsize[d++] + 1) { M &m = A().domains[d]; m.nrows = m.ncols = dsize[d]; m.rows = (int*)rows + r; m.cols = (int*)cols + n; m.vals = vals + n; m.nnz = rows[r + dsize[d]]; n += m.nnz; }
    VC &X = *new VC(), &Y = *new VC(); X.cluster.size = Y.cluster.size = nrows; X.cluster.vals = (double*)x; Y.cluster.vals = y; X.decomposition = Y.decomposition = &D; VectorUniformDense::SyncVector<double> s; s.init(D); Y.sync = &s;
    general = false; Raw<MatrixUniformFETI::Apply<double> > a; a().init(mm()); a().MatrixUniformFETI::Apply<double>::apply(A(), Y, alpha, beta, X); WEND for (auto &m: A().domains) { m.rows = m.cols = nullptr; m.vals = nullptr; } }
// ---- patterns of meshes: el = (begin, end) of the nodes of the elements; rk: processes of the nodes; regions of the boundary likewise
struct Flat { const int *p; int n() { return *p++; } std::vector<int> list() { int k = *p++; std::vector<int> v(p, p + k); p += k; return v; } };
typedef std::vector<int> VI;
static SD *ser(Flat &f) { int n = f.n(); VI d = { 0 }, v; for (int i = 0; i < n; ++i) { VI l = f.list(); v.insert(v.end(), l.begin(), l.end()); d.push_back((int)v.size()); } return new SD(tarray<esint>(d), tarray<esint>(v)); }
static void intervals(Flat &f, std::vector<ElementsInterval> &e) { VI l = f.list(); for (size_t i = 0; i + 1 < l.size(); i += 2) e.push_back(ElementsInterval(l[i], l[i + 1])); }
static void meshof(Flat &f, Mesh &m) { m.nodes = (NodeStore*)calloc(1, sizeof(NodeStore)); m.elements = (ElementStore*)calloc(1, sizeof(ElementStore)); m.domains = (DomainStore*)calloc(1, sizeof(DomainStore));
    NodeStore &n = *m.nodes; VI u = f.list(); n.uniqInfo.nhalo = u[0]; n.uniqInfo.offset = u[1]; n.uniqInfo.size = u[2]; n.uniqInfo.totalSize = u[3]; n.size = u[0] + u[2]; m.dimension = u[4]; n.uniqInfo.position = f.list(); n.ranks = (serializededata<esint, int>*)ser(f); n.domains = (serializededata<esint, int>*)ser(f);
    m.elements->nodes = ser(f); intervals(f, m.elements->eintervals); m.elements->eintervalsDistribution = f.list(); VI d = f.list(); m.domains->offset = d[0]; m.domains->size = d[1]; m.domains->totalSize = d[2]; m.domains->elements = f.list();
    int nr = f.n(); for (int r = 0; r < nr; ++r) { BoundaryRegionStore *b = (BoundaryRegionStore*)calloc(1, sizeof(BoundaryRegionStore)); b->dimension = f.n(); b->elements = ser(f); intervals(f, b->eintervals); b->eintervalsDistribution.assign(m.domains->size + 1, 0); VI nd = f.list(), ds = f.list(); b->nodes = new SD(1, tarray<esint>(std::vector<size_t>(ds.begin(), ds.end()), nd)); m.boundaryRegions.push_back(b); } }
static void put(int *&o, int v) { *o++ = v; } static void put(int *&o, const VI &v) { put(o, (int)v.size()); for (int x: v) *o++ = x; }
template <typename R> static void region(int *&o, R &r) { put(o, VI(r.offset.begin(), r.offset.end())); put(o, VI(r.permutation.begin(), r.permutation.end())); }
V void v_dpat(const int *mesh, int dofs, int *out, WARGS) { WORLD Flat f = { mesh }; meshof(f, me()); MatrixUniformDirect m(dofs); int *o = out; put(o, m.pattern.nrows); put(o, m.pattern.ncols); put(o, m.pattern.row); put(o, m.pattern.column); region(o, m.elements); put(o, (int)m.boundary.size()); for (auto &b: m.boundary) region(o, b);
    put(o, m.decomposition.begin); put(o, m.decomposition.end); put(o, m.decomposition.totalSize); put(o, m.decomposition.halo); put(o, m.decomposition.neighDOF); put(o, m.decomposition.neighbors); WEND }
V void v_vpat(const int *mesh, int dofs, int *out, WARGS) { WORLD Flat f = { mesh }; meshof(f, me()); VectorUniformDense m(dofs); int *o = out; region(o, m.elements); put(o, (int)m.boundary.size()); for (auto &b: m.boundary) region(o, b); WEND }
V void v_fpat(const int *mesh, int dofs, int full, const int *dd, int *out, WARGS) { WORLD Flat f = { mesh }; meshof(f, me()); std::vector<esint> D(dd, dd + nprocs + 1); domdist = &D; Raw<MatrixUniformFETI> mm; MatrixUniformFETI &m = mm(); m.dofs = dofs; m.shape = full ? Matrix_Shape::FULL : Matrix_Shape::UPPER; m.decomposition.dbegin = 0;
    m.fillDecomposition(dofs); for (int d = 0; d < me().domains->size; ++d) m.buildPattern(dofs, m.shape, d);
    Matrix_FETI<double> A; MatrixUniformFETI::Sync<double> sync; MatrixUniformFETI::Apply<double> apply; m.set<double>(&A, sync, apply); m.map<double>(&A); int *o = out; put(o, m.decomposition.dsize); put(o, m.decomposition.halo); put(o, m.decomposition.neighDomain); put(o, m.decomposition.begin); put(o, m.decomposition.end); put(o, m.decomposition.totalSize); put(o, m.decomposition.dtotal);
    for (auto d = m.decomposition.dmap->cbegin(); d != m.decomposition.dmap->cend(); ++d) { put(o, (int)d->size()); for (auto &x: *d) { put(o, x.domain); put(o, x.index); } }
    for (auto &a: A.domains) { put(o, a.nrows); put(o, a.nnz); put(o, (int)a.shape); put(o, VI(a.rows, a.rows + a.nrows + 1)); put(o, VI(a.cols, a.cols + a.nnz)); } for (auto &e: m.elements) region(o, e);
    put(o, (int)A.mapping.elements.size()); size_t i = 0; for (size_t d = 0; d < m.elements.size(); ++d) for (size_t j = 0; j < m.elements[d].offset.size(); ++j, ++i) { put(o, A.mapping.elements[i].data == A.domains[d].vals); put(o, (int)(A.mapping.elements[i].position - m.elements[d].permutation.data())); } WEND }
V void v_spat(const int *set, int nset, const int *perm, const int *len, int n, int *out) { Raw<VectorUniformSparse> v; v().dirichlet.resize(n); for (int r = 0, k = 0; r < n; k += len[r++]) v().dirichlet[r].permutation.assign(perm + k, perm + k + len[r]); std::vector<int> is(set, set + nset); v().buildPattern(is); int *o = out; put(o, v().indices); for (auto &d: v().dirichlet) put(o, d.permutation); }
