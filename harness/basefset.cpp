#include "simdutil.h"
#include "mesh/element.h"
#include "analysis/assembler/general/basefunctions.h"
using namespace espreso;
#define S1(EC, NODES, GPS) V void v_set_##EC##_##GPS(double *N, double *dN, double r) { BaseFunctions<Element::CODE::EC, GPS>::set(N, (double (*)[1])dN, r); }
#define S2(EC, NODES, GPS) V void v_set_##EC##_##GPS(double *N, double *dN, double r, double s) { BaseFunctions<Element::CODE::EC, GPS>::set(N, (double (*)[2])dN, r, s); }
#define S3(EC, NODES, GPS) V void v_set_##EC##_##GPS(double *N, double *dN, double r, double s, double t) { BaseFunctions<Element::CODE::EC, GPS>::set(N, (double (*)[3])dN, r, s, t); }
S1(LINE2,2,2) S1(LINE3,3,3)
S2(TRIANGLE3,3,6) S2(TRIANGLE3,3,4) S2(SQUARE4,4,4) S2(TRIANGLE6,6,6) S2(SQUARE8,8,9)
S3(TETRA4,4,8) S3(TETRA4,4,4) S3(PYRAMID5,5,8) S3(PRISMA6,6,9) S3(PRISMA6,6,8) S3(HEXA8,8,8) S3(TETRA10,10,15) S3(PYRAMID13,13,14) S3(PYRAMID13,13,27) S3(PRISMA15,15,9) S3(HEXA20,20,27)
