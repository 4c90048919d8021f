#include "simdutil.h"
#include "analysis/assembler/structuralmechanics/element.h"
#include "analysis/assembler/general/op.matrix.mass.h"
#include "analysis/assembler/general/op.matrix.apply.h"
#include "analysis/assembler/structuralmechanics/op.matrix.elasticity.h"
#include "analysis/assembler/structuralmechanics/op.material.h"
#include "analysis/assembler/structuralmechanics/op.acceleration.h"
#include "analysis/assembler/structuralmechanics/op.angularvelocity.h"
#include "analysis/assembler/structuralmechanics/op.pressure.h"
#include "analysis/assembler/structuralmechanics/op.normalpressure.h"
#include "analysis/assembler/structuralmechanics/op.force.h"
#include "analysis/assembler/structuralmechanics/op.harmonicforce.h"
#include <new>
using namespace espreso;
typedef StructuralMechanicsGlobalSettings::ELEMENT_BEHAVIOUR BEH;
template <typename T> struct Raw { alignas(T) char b[sizeof(T)]; Raw() { memset(b, 0, sizeof(T)); } T& operator()() { return *reinterpret_cast<T*>(b); } };
template <typename E> static inline void base(E &e, size_t nodes, const double *N, const double *w) { for (size_t n = 0; n < nodes; ++n) { e.N[0][n] = 0; e.N[1][n] = N[n]; } e.w[0] = 0; e.w[1] = w[0]; }
#define EL(N, D) V void v_el_##N##_##D(double *K, double *nf, const double *dND, const double *det, const double *w, const double *C, const double *F, const double *S, const double *th, int beh, int nonlinear) { \
    StructuralMechanicsElement<N, 2, D, D> e; e.w[0] = 0; e.w[1] = w[0]; vin(e.K, K, N * N * D * D); vin(e.nf, nf, N * D); vin(e.dND, dND, N * D); vin(&e.det, det, 1); vin(e.vC4, C, D == 2 ? 9 : 36); vin(e.F, F, D * D); vin(e.vS, S, D == 2 ? 3 : 6); vin(&e.thickness.gp, th, 1); \
    MatrixElasticity b; b.activate((BEH)beh, nonlinear); MatrixElasticityKernel<N, D> k(b); k.simd(e, 1); vout(K, e.K, N * N * D * D); vout(nf, e.nf, N * D); }
EL(3,2) EL(4,2) EL(6,2) EL(8,2) EL(4,3) EL(5,3) EL(6,3) EL(8,3) EL(10,3) EL(13,3) EL(15,3) EL(20,3)
#define AX(N) V void v_ax_##N(double *K, const double *dND, const double *N_, const double *det, const double *w, const double *C, const double *r) { \
    StructuralMechanicsElement<N, 2, 2, 2> e; base(e, N, N_, w); vin(e.K, K, N * N * 4); vin(e.dND, dND, N * 2); vin(&e.det, det, 1); vin(e.vC4, C, 16); vin(e.coords.gp, r, 1); \
    MatrixElasticity b; b.activate(BEH::AXISYMMETRIC, false); MatrixElasticityKernel<N, 2> k(b); k.simd(e, 1); vout(K, e.K, N * N * 4); }
AX(3) AX(4) AX(6) AX(8)
#define MD(N, D) V void v_M_##N##_##D(double *M, const double *N_, const double *det, const double *w, const double *rho) { \
    StructuralMechanicsElement<N, 2, D, D> e; base(e, N, N_, w); vin(e.M, M, N * N * D * D); vin(&e.det, det, 1); vin(&e.ecf.density, rho, 1); MatrixMassKernel<N, D> k{MatrixMass()}; k.simd(e, 1); vout(M, e.M, N * N * D * D); } \
V void v_acc_##N##_##D(double *f, const double *N_, const double *det, const double *w, const double *rho, const double *th, const double *x, const double *a, int beh) { \
    StructuralMechanicsElement<N, 2, D, D> e; base(e, N, N_, w); vin(e.f, f, N * D); vin(&e.det, det, 1); vin(&e.ecf.density, rho, 1); vin(&e.thickness.gp, th, 1); vin(e.coords.gp, x, D); vin(e.ecf.acceleration, a, D); \
    Raw<ElementCondition> b; b().behaviour = (BEH)beh; AccelerationKernel<N, D> k(b()); k.simd(e, 1); vout(f, e.f, N * D); } \
V void v_ang_##N##_##D(double *f, const double *N_, const double *det, const double *w, const double *rho, const double *th, const double *x, const double *a, int beh) { \
    StructuralMechanicsElement<N, 2, D, D> e; base(e, N, N_, w); vin(e.f, f, N * D); vin(&e.det, det, 1); vin(&e.ecf.density, rho, 1); vin(&e.thickness.gp, th, 1); vin(e.coords.gp, x, D); vin(e.ecf.angularVelocity, a, 3); \
    Raw<ElementCondition> b; b().behaviour = (BEH)beh; AngularVelocityKernel<N, D> k(b()); k.simd(e, 1); vout(f, e.f, N * D); }
MD(3,2) MD(4,2) MD(6,2) MD(8,2) MD(4,3) MD(5,3) MD(6,3) MD(8,3) MD(10,3) MD(13,3) MD(15,3) MD(20,3)
#define PR(N, D, ED) V void v_pr_##N##_##D(double *f, const double *N_, const double *det, const double *w, const double *x, const double *p, const double *dir, int beh) { \
    StructuralMechanicsBoundary<N, 2, D, ED> e; base(e, N, N_, w); vin(e.f, f, N * D); vin(&e.det, det, 1); vin(e.coords.gp, x, D); vin(&e.ecf.pressure.pressure, p, 1); vin(e.ecf.pressure.direction, dir, D); \
    Raw<Pressure> b; b().behaviour = (BEH)beh; PressureKernel<N, D> k(b()); k.simd(e, 1); vout(f, e.f, N * D); } \
V void v_np_##N##_##D(double *f, const double *N_, const double *det, const double *w, const double *x, const double *p, const double *dir, int beh) { \
    StructuralMechanicsBoundary<N, 2, D, ED> e; base(e, N, N_, w); vin(e.f, f, N * D); vin(&e.det, det, 1); vin(e.coords.gp, x, D); vin(&e.ecf.normalPressure, p, 1); vin(e.normal, dir, D); \
    Raw<NormalPressure> b; b().behaviour = (BEH)beh; NormalPressureKernel<N, D> k(b()); k.simd(e, 1); vout(f, e.f, N * D); } \
V void v_fo_##N##_##D(double *f, const double *p) { StructuralMechanicsBoundary<N, 2, D, ED> e; vin(e.f, f, N * D); vin(e.ecf.force, p, D); Raw<Force> b; ForceKernel<N, D> k(b()); k.simd(e); vout(f, e.f, N * D); }
PR(2,2,1) PR(3,2,1) PR(3,3,2) PR(4,3,2) PR(6,3,2) PR(8,3,2)
#define HF(D) V void v_hf_##D(double *f, double *g, const double *m, const double *c, const double *s, int beh) { StructuralMechanicsDirichlet<D> e; vin(e.f, f, D); vin(e.imf, g, D); vin(e.ecf.harmonicForceMag, m, D); vin(e.ecf.harmonicForceCos, c, D); vin(e.ecf.harmonicForceSin, s, D); \
    Raw<HarmonicForce> b; b().behaviour = (BEH)beh; HarmonicForceKernel<D> k(b()); k.simd(e); vout(f, e.f, D); vout(g, e.imf, D); } \
V void v_nf_##D(double *f, const double *p) { StructuralMechanicsDirichlet<D> e; vin(e.f, f, D); vin(e.ecf.force, p, D); Raw<Force> b; ForceKernel<1, D> k(b()); k.simd(e); vout(f, e.f, D); }
HF(2) HF(3)
#define MA(N, D) V void v_mat_##N##_##D(double *F, double *C2, double *C4, double *S, const double *dND, const double *u, const double *E, const double *nu, int model, int beh) { \
    StructuralMechanicsElement<N, 2, D, D> e; vin(e.dND, dND, N * D); vin(&e.displacement[0][0], u, N * D); vin(e.ecf.youngModulus, E, 1); vin(e.ecf.poissonRatio, nu, 1); \
    Raw<MaterialConfiguration> c; c().elasticity_properties.material_model = (ElasticityPropertiesConfiguration::MATERIAL_MODEL)model; \
    Raw<MaterialStructuralMechanics> b; b().activate(&c(), (BEH)beh, false); MaterialStructuralMechanicsKernel<N, 2, D> k(b()); k.simd(e); \
    vout(F, e.F, D * D); vout(C2, e.C2, D * D); vout(C4, e.vC4, D == 2 ? 16 : 36); vout(S, e.vS, D == 2 ? 3 : 6); }
MA(3,2) MA(4,2) MA(4,3)
#define AP(N) V void v_apply_##N(double *o, const double *A, const double *x, double s) { SIMD O[N], M[N * N], X[N]; vin(O, o, N); vin(M, A, N * N); vin(X, x, N); MatrixApplyKernel<N> k{MatrixApply()}; k.simd(O, M, X, s); vout(o, O, N); }
AP(4) AP(8) AP(12)
