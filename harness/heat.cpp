#include "simdutil.h"
#include "analysis/assembler/heattransfer/element.h"
#include "analysis/assembler/general/op.matrix.mass.h"
#include "analysis/assembler/general/op.temperature.h"
#include "analysis/assembler/general/op.thickness.h"
#include "analysis/assembler/general/op.coordinates.h"
#include "analysis/assembler/heattransfer/op.matrix.conductivity.h"
#include "analysis/assembler/heattransfer/op.heatsource.h"
#include "analysis/assembler/heattransfer/op.externalheat.h"
#include "analysis/assembler/heattransfer/op.gradient.h"
#include "analysis/assembler/heattransfer/op.flux.h"
#include "analysis/assembler/heattransfer/op.advection.h"
#include <new>
using namespace espreso;
typedef ThermalConductivityConfiguration::MODEL MODEL;
// base sub-kernels whose constructors need a mesh are taken from zeroed storage
template <typename T> struct Raw { alignas(T) char b[sizeof(T)]; Raw() { memset(b, 0, sizeof(T)); } T& operator()() { return *reinterpret_cast<T*>(b); } };
template <typename E> static inline void base(E &e, size_t nodes, const double *N, const double *w) { for (size_t n = 0; n < nodes; ++n) { e.N[0][n] = 0; e.N[1][n] = N[n]; } e.w[0] = 0; e.w[1] = w[0]; }
#define KC(N, D) V void v_K_##N##_##D(double *K, const double *dND, const double *det, const double *w, const double *C, const double *th, int model) { \
    HeatTransferElement<N, 2, D, D> e; e.w[0] = 0; e.w[1] = w[0]; vin(e.K, K, N * N); vin(e.dND, dND, N * D); vin(&e.det, det, 1); vin(e.conductivity, C, D * D); vin(&e.thickness.gp, th, 1); \
    MatrixConductivity b; b.activate((MODEL)model); MatrixConductivityKernel<N, D> k(b); k.simd(e, 1); vout(K, e.K, N * N); }
KC(3,2) KC(4,2) KC(6,2) KC(8,2) KC(4,3) KC(5,3) KC(6,3) KC(8,3) KC(10,3) KC(13,3) KC(15,3) KC(20,3)
#define GR(N, D) V void v_grad_##N##_##D(double *g, const double *dND, const double *T) { \
    HeatTransferElement<N, 2, D, D> e; vin(e.gradient, g, D); vin(e.dND, dND, N * D); vin(e.temperature.node, T, N); \
    TemperatureGradientKernel<N, 2, D> k{TemperatureGradient()}; k.simd(e, 1); vout(g, e.gradient, D); } \
V void v_flux_##N##_##D(double *q, const double *dND, const double *T, const double *C, int model) { \
    HeatTransferElement<N, 2, D, D> e; vin(e.flux, q, D); vin(e.dND, dND, N * D); vin(e.temperature.node, T, N); vin(e.conductivity, C, D * D); \
    TemperatureFlux b; b.model = (MODEL)model; TemperatureFluxKernel<N, 2, D> k(b); k.simd(e, 1); vout(q, e.flux, D); }
GR(3,2) GR(4,2) GR(6,2) GR(8,2) GR(4,3) GR(5,3) GR(6,3) GR(8,3) GR(10,3) GR(13,3) GR(15,3) GR(20,3)
#define MM(N) V void v_M1_##N(double *M, const double *N_, const double *det, const double *w, const double *rho) { \
    HeatTransferElement<N, 2, 3, 3> e; base(e, N, N_, w); vin(e.M, M, N * N); vin(&e.det, det, 1); vin(&e.ecf.density, rho, 1); MatrixMassKernel<N, 1> k{MatrixMass()}; k.simd(e, 1); vout(M, e.M, N * N); } \
V void v_src_##N(double *f, const double *N_, const double *det, const double *w, const double *q) { \
    HeatTransferElement<N, 2, 3, 3> e; base(e, N, N_, w); vin(e.f, f, N); vin(&e.det, det, 1); vin(&e.ecf.heatSource, q, 1); Raw<BoundaryCondition> b; HeatSourceKernel<N> k(b()); k.simd(e, 1); vout(f, e.f, N); } \
V void v_tgp_##N(double *g, const double *N_, const double *T) { double w = 0; HeatTransferElement<N, 2, 3, 3> e; base(e, N, N_, &w); vin(&e.temperature.gp, g, 1); vin(e.temperature.node, T, N); Raw<Temperature> b; TemperatureToGPsKernel<N> k(b()); k.simd(e, 1); vout(g, &e.temperature.gp, 1); } \
V void v_xgp_##N(double *g, const double *N_, const double *x) { double w = 0; HeatTransferElement<N, 2, 3, 3> e; base(e, N, N_, &w); vin(e.coords.gp, g, 3); vin(&e.coords.node[0][0], x, 3 * N); Raw<Coordinates> b; CoordinatesToGPsKernel<N, 3> k(b()); k.simd(e, 1); vout(g, e.coords.gp, 3); }
MM(3) MM(4) MM(5) MM(6) MM(8) MM(10) MM(13) MM(15) MM(20)
#define M2(N) V void v_thgp_##N(double *g, const double *N_, const double *T) { double w = 0; HeatTransferElement<N, 2, 2, 2> e; base(e, N, N_, &w); vin(&e.thickness.gp, g, 1); vin(e.thickness.node, T, N); Raw<Thickness> b; ThicknessToGp<N, 2> k(b()); k.simd(e, 1); vout(g, &e.thickness.gp, 1); } \
V void v_x2gp_##N(double *g, const double *N_, const double *x) { double w = 0; HeatTransferElement<N, 2, 2, 2> e; base(e, N, N_, &w); vin(e.coords.gp, g, 2); vin(&e.coords.node[0][0], x, 2 * N); Raw<Coordinates> b; CoordinatesToGPsKernel<N, 2> k(b()); k.simd(e, 1); vout(g, e.coords.gp, 2); }
M2(3) M2(4) M2(6) M2(8)
#define EH(N, ND, ED) V void v_ext_##N##_##ND(double *f, const double *N_, const double *det, const double *w, const double *th, const double *flow, const double *flux, const double *htc, const double *ext, double area) { \
    HeatTransferBoundary<N, 2, ND, ED> e; base(e, N, N_, w); vin(e.f, f, N); vin(&e.det, det, 1); vin(&e.thickness.gp, th, 1); vin(&e.ecf.heatFlow, flow, 1); vin(&e.ecf.heatFlux, flux, 1); vin(&e.ecf.htc, htc, 1); vin(&e.ecf.extTemp, ext, 1); \
    Raw<ExternalHeat> b; b().area = area; ExternalHeatKernel<N> k(b()); k.simd(e, 1); vout(f, e.f, N); }
EH(2,2,1) EH(3,2,1) EH(3,3,2) EH(4,3,2) EH(6,3,2) EH(8,3,2)
#define ADV(N, D) V void v_adv_##N##_##D(double *K, double *C, const double *dND, const double *N_, const double *det, const double *w, const double *u, const double *rho, const double *cp, double sigma) { \
    HeatTransferElement<N, 2, D, D> e; base(e, N, N_, w); vin(e.K, K, N * N); vin(e.conductivity, C, D * D); vin(e.dND, dND, N * D); vin(&e.det, det, 1); vin(e.ecf.advection, u, D); vin(&e.ecf.density, rho, 1); vin(&e.ecf.heatCapacity, cp, 1); \
    Raw<Advection> b; b().sigma = sigma; AdvectionKernel<N, D> k(b()); k.simd(e, 1); vout(K, e.K, N * N); vout(C, e.conductivity, D * D); }
ADV(3,2) ADV(4,2) ADV(4,3) ADV(8,3)
