#include "simdutil.h"
#include "analysis/assembler/general/element.h"
#include "analysis/assembler/general/op.integration.h"
using namespace espreso;
template <size_t nodes, size_t d> struct El: GeneralElement<nodes, 2, d, d> { alignas(16) SIMD displacement[nodes][d]; };
template <size_t nodes, size_t d> static inline void in(El<nodes, d> &e, const double *x, const double *u, const double *dN, const double *dNN) {
    vin(&e.coords.node[0][0], x, nodes * d); if (u) vin(&e.displacement[0][0], u, nodes * d);
    for (size_t g = 0; g < 2; ++g) for (size_t n = 0; n < nodes; ++n) for (size_t k = 0; k < d; ++k) e.dN[g][n][k] = dN[(g * nodes + n) * d + k];
    for (size_t m = 0; m < nodes; ++m) for (size_t n = 0; n < nodes; ++n) for (size_t k = 0; k < d; ++k) e.dNN[m][n][k] = dNN ? dNN[n * d + k] * (m == nodes - 1) : 0;
}
template <size_t nodes, size_t d> static inline void out(El<nodes, d> &e, double *det, double *inv, double *dND) { vout(det, &e.det, 1); vout(inv, e.invJ, d * d); vout(dND, e.dND, nodes * d); }
#define VOL(N, D) \
V void v_vol_coords_##N##_##D(const double *x, const double *dN, double *det, double *inv, double *dND) { El<N, D> e; in(e, x, nullptr, dN, nullptr); IntegrationKernel<N, D, D> k{Integration()}; k.coords(e, 1); out(e, det, inv, dND); } \
V void v_vol_disp_##N##_##D(const double *x, const double *u, const double *dN, double *det, double *inv, double *dND) { El<N, D> e; in(e, x, u, dN, nullptr); IntegrationKernel<N, D, D> k{Integration()}; k.displacement(e, 1); out(e, det, inv, dND); } \
V void v_vol_nodes_##N##_##D(const double *x, const double *dN, const double *dNN, double *det, double *inv, double *dND) { El<N, D> e; in(e, x, nullptr, dN, dNN); IntegrationKernel<N, D, D> k{Integration()}; k.coordsInNodes(e, N - 1); out(e, det, inv, dND); }
VOL(3,2) VOL(4,2) VOL(6,2) VOL(8,2) VOL(4,3) VOL(5,3) VOL(6,3) VOL(8,3) VOL(10,3) VOL(13,3) VOL(15,3) VOL(20,3)
#define BND(N, ND, ED) V void v_bnd_##N##_##ND##_##ED(const double *x, const double *dN, double *det, double *normal) { GeneralBoundary<N, 2, ND, ED> e; vin(&e.coords.node[0][0], x, N * ND); \
    for (size_t g = 0; g < 2; ++g) for (size_t n = 0; n < N; ++n) for (size_t k = 0; k < ED; ++k) e.dN[g][n][k] = dN[(g * N + n) * ED + k]; \
    IntegrationKernel<N, ND, ED> k{Integration()}; k.coords(e, 1); vout(det, &e.det, 1); if (normal) vout(normal, e.normal, ND); }
BND(3,3,2) BND(4,3,2) BND(6,3,2) BND(8,3,2) BND(2,2,1) BND(3,2,1)
#define EDG(N) V void v_edge_##N(const double *x, const double *dN, double *det) { v_bnd_##N##_3_1(x, dN, det, nullptr); }
BND(2,3,1) BND(3,3,1)
EDG(2) EDG(3)
