// std headers first: the project classes are then opened so that the entry points can place plain arrays in them
#include <vector>
#include <string>
#include <map>
#include <functional>
#include <algorithm>
#include <iostream>
#include <sstream>
#include <fstream>
#include <cstdio>
#include <cmath>
#include <complex>
#include <mutex>
#include <thread>
#include <memory>
#include <set>
#include <unordered_map>
#include <chrono>
#include <omp.h>
#include <mpi.h>
#define private public
#define protected public
#include "analysis/assembler/heattransfer/element.h"
#include "analysis/assembler/structuralmechanics/element.h"
#include "analysis/assembler/general/op.temperature.h"
#include "analysis/assembler/general/op.thickness.h"
#include "analysis/assembler/general/op.coordinates.h"
#include "analysis/assembler/general/filler.h"
#include "analysis/assembler/heattransfer/op.gradient.h"
#include "analysis/assembler/heattransfer/op.flux.h"
#include "analysis/assembler/structuralmechanics/op.displacement.h"
#include "analysis/assembler/structuralmechanics/op.velocity.h"
#include "mesh/mesh.h"
#undef private
#undef protected
#include "simdutil.h"
using namespace espreso;
namespace espreso { namespace info { Mesh *mesh; } }
template <typename T> struct Raw { alignas(T) char b[sizeof(T)]; Raw() { memset(b, 0, sizeof(T)); } T& operator()() { return *reinterpret_cast<T*>(b); } };
typedef serializededata<esint, esint>::const_iterator It;
// iterator at element e of a list of n elements with the given boundaries
static inline void at(It &i, const int *dist, int n, const int *nodes, int e, int per) { i._element = dist + e; i._end = dist + n; i._edata._begin = nodes + e * per; i._edata._end = i._edata._begin + (e < n ? per : 0); }
static inline void uni(It &i, const int *nodes, int e, int per) { i._element = nullptr; i._end = nullptr; i._edata._begin = nodes + e * per; i._edata._end = i._edata._begin + per; }
template <typename K> static inline void place(K &k, const int *dist, int n, const int *nodes, int e, int e2, int per, int uniform) { if (uniform) { uni(k.enodes, nodes, e, per); uni(k.end, nodes, e2, per); } else { at(k.enodes, dist, n, nodes, e, per); at(k.end, dist, n, nodes, e2, per); } }
template <typename K> static inline void where(K &k, const int *dist, const int *nodes, int per, int uniform, int *pos) { pos[0] = (int)(k.enodes._edata._begin - nodes); pos[1] = uniform ? pos[0] : (int)(k.enodes._element - dist) * per; }
#define ARGS const int *dist, int n, const int *nodes, int e, int e2, int *pos
#define DATA(BASE) Raw<BASE> b; place(b(), dist, n, nodes, e, e2, N_, U_);
#define G(N, D, U) \
V void v_coo_##N##_##D##_##U(double *x, int *cnt, const double *coo, ARGS) { enum { N_ = N, U_ = U }; HeatTransferElement<N, 2, D, D> el; vin(&el.coords.node[0][0], x, N * D); DATA(Coordinates) \
    Raw<Mesh> m; Raw<NodeStore> ns; Raw<serializededata<esint, Point>> c; info::mesh = &m(); m().nodes = &ns(); ns().coordinates = &c(); c()._edata._data = (Point*)coo; \
    CoordinatesKernel<N, D> k(b()); k.simd(el); vout(x, &el.coords.node[0][0], N * D); cnt[0] = el.elements; where(k, dist, nodes, N, U, pos); } \
V void v_disp_##N##_##D##_##U(double *x, const double *src, ARGS) { enum { N_ = N, U_ = U }; StructuralMechanicsElement<N, 2, D, D> el; vin(&el.displacement[0][0], x, N * D); DATA(Displacement) b().source = src; \
    DisplacementKernel<N, D> k(b()); k.simd(el); vout(x, &el.displacement[0][0], N * D); where(k, dist, nodes, N, U, pos); } \
V void v_vel_##N##_##D##_##U(const double *x, double *dst, ARGS) { enum { N_ = N, U_ = U }; StructuralMechanicsElement<N, 2, D, D> el; vin(&el.velocity[0][0], x, N * D); DATA(Velocity) b().target = dst; \
    InitialVelocityKernel<N, D> k(b()); k.simd(el); where(k, dist, nodes, N, U, pos); }
G(2,2,0) G(2,3,0) G(3,2,1) G(4,3,0) G(8,3,0)
#define S(N, U) \
V void v_temp_##N##_##U(double *x, const double *src, ARGS) { enum { N_ = N, U_ = U }; HeatTransferElement<N, 2, 2, 2> el; vin(el.temperature.node, x, N); DATA(Temperature) b().source = (double*)src; \
    TemperatureKernel<N> k(b()); k.simd(el); vout(x, el.temperature.node, N); where(k, dist, nodes, N, U, pos); } \
V void v_tini_##N##_##U(const double *x, double *dst, ARGS) { enum { N_ = N, U_ = U }; HeatTransferElement<N, 2, 2, 2> el; vin(el.temperature.initial, x, N); DATA(Temperature) b().source = dst; \
    InitialTemperatureKernel<N> k(b()); k.simd(el); where(k, dist, nodes, N, U, pos); } \
V void v_thf_##N##_##U(double *x, const double *src, ARGS) { enum { N_ = N, U_ = U }; HeatTransferElement<N, 2, 2, 2> el; vin(el.thickness.node, x, N); DATA(Thickness) b().target = (double*)src; \
    ThicknessFromNodes<N, 2> k(b()); k.simd(el); vout(x, el.thickness.node, N); where(k, dist, nodes, N, U, pos); } \
V void v_tht_##N##_##U(const double *x, double *dst, ARGS) { enum { N_ = N, U_ = U }; HeatTransferElement<N, 2, 2, 2> el; vin(el.thickness.node, x, N); DATA(Thickness) b().target = dst; \
    ThicknessToNodes<N, 2> k(b()); k.simd(el); where(k, dist, nodes, N, U, pos); }
S(2,0) S(3,0) S(4,1) S(8,0)
// assembly: element matrices and vectors to global data through the position list
static inline void fil(DataFiller &k, double *out, const int *pos, int64_t elements, int dofs, int size) { k.out = out; k.position = pos; k.elements = elements; k.dofs = dofs; k.size = size; }
#define F(N, D) \
V void v_mat_##N##_##D(double *m, double *out, const int *pos, int64_t elements, int shape, int64_t *res) { SIMD M[N * D * N * D]; vin(M, m, N * D * N * D); MatrixFillerKernel<N> k{DataFiller()}; fil(k, out, pos, elements, D, 0); k.shape = (Matrix_Shape)shape; \
    k.simd(M); vout(m, M, N * D * N * D); res[0] = k.position - pos; res[1] = k.elements; } \
V void v_rhs_##N##_##D(double *m, double *out, const int *pos, int64_t elements, int64_t *res) { SIMD M[N * D]; vin(M, m, N * D); RHSFillerKernel<N> k{DataFiller()}; fil(k, out, pos, elements, D, 0); \
    k.simd(M); vout(m, M, N * D); res[0] = k.position - pos; res[1] = k.elements; } \
V void v_nrhs_##N##_##D(double *m, double *out, const int *pos, int64_t elements, int size, int64_t *res) { SIMD M[2 * N * D]; vin(M, m, 2 * N * D); RHSFillerKernel<N> k{DataFiller()}; fil(k, out, pos, elements, D, size); \
    k.simd(M, 2); res[0] = k.position - pos; res[1] = k.elements; }
F(2,1) F(2,2) F(3,1) F(1,3) F(4,1) F(3,2) F(8,1) F(4,3)
typedef StructuralMechanicsElement<2, 1, 3, 3> EL;
V void v_set(const double *m, double *out, const int *pos, int64_t elements, int filter, int64_t *res) { EL el; vin(&el.displacement[0][0], m, 6);
    std::function<double(EL &element, size_t &n, size_t &d, size_t &s)> f = [] (EL &e, size_t &n, size_t &d, size_t &s) { return e.displacement[n][d][s]; };
    VectorSetterKernel<2, EL> k(DataFiller(), f); fil(k, out, pos, elements, 3, 0); k.filter = filter; k.simd(el); res[0] = k.position - pos; res[1] = k.DataFiller::elements; }
// element results: the interval [b, e) of the result array
#define R(D, BASE, KER, FLD, ACT) V void v_##FLD##_##D(const double *x, double *data, int b0, int e0, int64_t c, int64_t *res) { HeatTransferElement<4, 8, D, D> el; vin(el.FLD, x, D); \
    Raw<Mesh> m; Raw<ElementStore> es; Raw<ElementsInterval> iv; Raw<NamedData> nd; info::mesh = &m(); m().dimension = D; m().elements = &es(); *(ElementsInterval**)&es().eintervals = &iv(); ((ElementsInterval**)&es().eintervals)[1] = &iv() + 1; iv().begin = b0; iv().end = e0; \
    ((double**)&nd().data)[0] = data; ((double**)&nd().data)[1] = data + D * (int64_t)res[2]; BASE b; ACT; KER<4, 8, D> k(b); k.FLD += D * c; k.store(el); res[0] = k.FLD - data; res[1] = el.FLD[0][0] == 0 && el.FLD[0][1] == 0 && el.FLD[D - 1][0] == 0 && el.FLD[D - 1][1] == 0; }
R(2, TemperatureGradient, TemperatureGradientKernel, gradient, b.activate(0, &nd())) R(3, TemperatureGradient, TemperatureGradientKernel, gradient, b.activate(0, &nd()))
R(2, TemperatureFlux, TemperatureFluxKernel, flux, b.activate(0, &nd(), ThermalConductivityConfiguration::MODEL::ISOTROPIC)) R(3, TemperatureFlux, TemperatureFluxKernel, flux, b.activate(0, &nd(), ThermalConductivityConfiguration::MODEL::ISOTROPIC))
