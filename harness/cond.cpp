#include "simdutil.h"
#include "analysis/assembler/heattransfer/element.h"
#include "analysis/assembler/structuralmechanics/element.h"
#include "analysis/assembler/heattransfer/op.conductivity.h"
#include "analysis/assembler/general/op.coordinatesystem.h"
using namespace espreso;
typedef ThermalConductivityConfiguration::MODEL MODEL;
typedef CoordinateSystemConfiguration::TYPE CTYPE;
template <typename T> struct Raw { alignas(T) char b[sizeof(T)]; Raw() { memset(b, 0, sizeof(T)); } T& operator()() { return *reinterpret_cast<T*>(b); } };
#define CO(D) V void v_cond_##D(double *C, double *cs, const double *raw, const double *x, const double *center, int model, int type, int rotated, int constRotation, int whole) { \
    HeatTransferElement<4, 1, D, D> e; vin(e.conductivity, C, D * D); vin(e.rotation.cossin, cs, 2 * D); vin(e.ecf.conductivity, raw, D * D); vin(e.coords.gp, x, D); vin(e.rotation.center, center, D); \
    Raw<ThermalConductivityConfiguration> c; c().model = (MODEL)model; Conductivity b; b.conductivity = &c(); b.type = (CTYPE)type; b.rotated = rotated; b.constRotation = constRotation; \
    ConductivityKernel<D> k(b); if (whole) k.simd(e); else k.simd(e, 0); vout(C, e.conductivity, D * D); vout(cs, e.rotation.cossin, 2 * D); }
CO(2) CO(3)
#define CS(D, M) V void v_cs_##D##_##M(double *cs, const double *x, const double *center, int type, int isconst) { \
    StructuralMechanicsElement<4, 1, D, D> e; vin(e.rotation.cossin, cs, 2 * D * M); vin(e.coords.gp, x, D); vin(e.rotation.center, center, D); CoordinateSystem<D, M>::simd(e, (CTYPE)type, isconst); vout(cs, e.rotation.cossin, 2 * D * M); }
CS(2,1) CS(2,2) CS(3,1) CS(3,2)
