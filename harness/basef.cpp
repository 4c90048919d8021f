#include "simdutil.h"
#include "mesh/element.h"
#include "analysis/assembler/general/basefunctions.h"
using namespace espreso;
template <size_t nodes, size_t gps, size_t edim> struct Tables {
    double w[gps], N[gps][nodes], dN[gps][nodes][edim], NN[nodes][nodes], dNN[nodes][nodes][edim];
};
#define TAB(EC, NODES, GPS, EDIM) V void v_tab_##EC##_##GPS(double *w, double *N, double *dN, double *NN, double *dNN) { \
    Tables<NODES, GPS, EDIM> t; BaseFunctions<Element::CODE::EC, GPS>::simd(t); \
    for (int g = 0; g < GPS; ++g) { w[g] = t.w[g]; for (int n = 0; n < NODES; ++n) { N[g * NODES + n] = t.N[g][n]; for (int d = 0; d < EDIM; ++d) dN[(g * NODES + n) * EDIM + d] = t.dN[g][n][d]; } } \
    for (int m = 0; m < NODES; ++m) for (int n = 0; n < NODES; ++n) { NN[m * NODES + n] = t.NN[m][n]; for (int d = 0; d < EDIM; ++d) dNN[(m * NODES + n) * EDIM + d] = t.dNN[m][n][d]; } }
TAB(LINE2,2,2,1) TAB(LINE3,3,3,1) TAB(LINE3,3,4,1)
TAB(TRIANGLE3,3,6,2) TAB(TRIANGLE3,3,4,2) TAB(TRIANGLE3,3,1,2) TAB(SQUARE4,4,4,2) TAB(SQUARE4,4,1,2) TAB(TRIANGLE6,6,6,2) TAB(SQUARE8,8,9,2) TAB(SQUARE8,8,16,2)
TAB(TETRA4,4,8,3) TAB(TETRA4,4,4,3) TAB(PYRAMID5,5,8,3) TAB(PRISMA6,6,9,3) TAB(PRISMA6,6,8,3) TAB(HEXA8,8,8,3) TAB(TETRA10,10,15,3)
TAB(PYRAMID13,13,14,3) TAB(PYRAMID13,13,27,3) TAB(PRISMA15,15,9,3) TAB(HEXA20,20,27,3)
TAB(LINE2,2,1,1) TAB(LINE2,2,5,1) TAB(LINE2,2,6,1) TAB(LINE2,2,7,1) TAB(LINE2,2,8,1)
