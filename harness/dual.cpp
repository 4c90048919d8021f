#include <vector>
#include <string>
#include <map>
#include <functional>
#include <algorithm>
#include <numeric>
#include <iostream>
#include <sstream>
#include <fstream>
#include <cstdio>
#include <cstring>
#include <cmath>
#include <complex>
#include <mutex>
#include <thread>
#include <memory>
#include <set>
#include <unordered_map>
#include <chrono>
#include <omp.h>
#include <mpi.h>
#define private public
#define protected public
#include "feti/feti.h"
#include "math/wrappers/math.blas.h"
#include "wrappers/mpi/communication.h"
// the kernels of the external libraries, as the operations they stand for; messages are recorded and given
namespace espreso { namespace math { namespace blas {
template <> void copy(const int size, double *x, const int incX, const double *y, const int incY) { for (int i = 0; i < size; ++i) x[i * incX] = y[i * incY]; }
template <> void add(const int size, double *x, const int incX, const double &alpha, const double *y, const int incY) { for (int i = 0; i < size; ++i) x[i * incX] += alpha * y[i * incY]; }
template <> double dot(const int size, const double *x, const int incX, const double *y, const int incY) { double s = 0; for (int i = 0; i < size; ++i) s += x[i * incX] * y[i * incY]; return s; }
} } }
namespace espreso { template <> int Communication::exscan(int &value, MPIGroup *group) { int s = value; value = 0; return s; } }
#include "feti/common/dual_map.cpp"
#include "feti/common/vector_dual.cpp"
#undef private
#undef protected
#include "common.h"
using namespace espreso;
template <typename T> struct Raw { alignas(T) char b[sizeof(T)]; Raw() { memset(b, 0, sizeof(T)); } T& operator()() { return *reinterpret_cast<T*>(b); } };
static double *sent; static const double *given; static int room, *counts;
MPIGroup *MPITools::procs; int Communication::TAG::EX_KNOWN;
static int slot(int rank) { for (size_t i = 0; i < Dual_Map::neighbors.size(); ++i) if (Dual_Map::neighbors[i] == rank) return (int)i; return 0; }
extern "C" int MPI_Isend(const void *buf, int n, MPI_Datatype, int rank, int, MPI_Comm, MPI_Request*) { int k = slot(rank); counts[2 * k] += n; for (int i = 0; i < n; ++i) sent[k * room + i] = ((const double*)buf)[i]; return 0; }
extern "C" int MPI_Irecv(void *buf, int n, MPI_Datatype, int rank, int, MPI_Comm, MPI_Request*) { int k = slot(rank); counts[2 * k + 1] += n; for (int i = 0; i < n; ++i) ((double*)buf)[i] = given[k * room + i]; return 0; }
extern "C" int MPI_Waitall(int, MPI_Request*, MPI_Status*) { return 0; }
// the other processes contribute nothing to the reductions
bool Communication::allReduce(void *in, void *out, size_t size, MPI_Datatype type, MPI_Op op, MPIGroup *group) { if (out) *(int*)out = *(int*)in; return true; }
bool Communication::exscan(void *in, void *out, size_t size, MPI_Datatype type, MPI_Op op, MPIGroup *group) { return true; }
// cmap: groups of multipliers with their domains; messages of a neighbor are `stride` long; counts: sent and received, then sizes
V void v_dual(const int *cmap, int ncmap, int size, int halo, const int *neigh, int nn, const int *ndom, int dbegin, int dend, double *v, const double *w, const double *recv, double *snt, int stride, int *cnt, int *inf, double *to, double *dots) {
    Raw<FETI<double> > f; Raw<DecompositionFETI> dec; Raw<MPIGroup> g; MPITools::procs = &g(); f().decomposition = &dec(); f().lambdas.size = size; f().lambdas.intervals.push_back({ halo, size - halo }); f().lambdas.cmap.assign(cmap, cmap + ncmap);
    dec().dbegin = dbegin; dec().dend = dend; dec().neighbors.assign(neigh, neigh + nn); dec().neighDomain.assign(ndom, ndom + nn + 1);
    Dual_Map::set(f()); inf[0] = Dual_Map::size; inf[1] = Dual_Map::total; inf[2] = Dual_Map::local_intervals.size(); inf[3] = Dual_Map::local_intervals[0].start; inf[4] = Dual_Map::local_intervals[0].end; inf[5] = Dual_Map::local_intervals[0].size; inf[6] = Dual_Map::local_intervals[0].total;
    Vector_Dual<double>::initBuffers(); for (int i = 0; i < nn; ++i) inf[7 + i] = Dual_Map::nsize[i];
    sent = snt; given = recv; room = stride; counts = cnt; Vector_Dual<double> x; for (int i = 0; i < size; ++i) x.vals[i] = v[i]; x.synchronize(); inf[7 + nn] = x.size; for (int i = 0; i < size; ++i) v[i] = x.vals[i];
    Raw<Vector_Dense<double> > o, y; o().size = size; o().vals = to; x.copyToWithoutHalo(o()); y().size = size; y().vals = (double*)w; dots[0] = x.dot(y()); dots[1] = x.dot(); }
