#include "common.h"
#include "wrappers/simd/simd.h"
#define LN SIMD::size
static inline SIMD in(const double *a) { SIMD x; for (size_t s = 0; s < LN; ++s) x[s] = a[s]; return x; }
static inline void out(double *r, const SIMD &x) { for (size_t s = 0; s < LN; ++s) r[s] = x[s]; }
V int v_size() { return (int)LN; }
#define U(F, EX) V void v_##F(double *r, const double *a) { SIMD x = in(a); out(r, EX); }
#define B(F, EX) V void v_##F(double *r, const double *a, const double *b) { SIMD x = in(a), y = in(b); out(r, EX); }
U(neg, -x) U(pos, +x) U(negate, negate(x)) U(sqrt, sqrt(x)) U(rsqrt14, rsqrt14(x)) U(log, log(x)) U(exp, exp(x)) U(abs, abs(x)) U(recip, positive_guarded_recip(x)) U(cos, cos(x)) U(acos, acos(x)) U(ispos, ispositive(x)) U(zeros, zeros()) U(ones, ones())
U(load1, load1(a[0])) U(copy, SIMD(x))
V void v_def(double *r, const double *a) { SIMD x; out(r, x); }
V void v_asg(double *r, const double *a) { SIMD x = in(a), y; y = x; out(r, y); }
V void v_ldst(double *r, const double *a) { alignas(64) double p[LN], q[LN]; for (size_t s = 0; s < LN; ++s) { p[s] = a[s]; q[s] = 0; } store(q, load(p)); for (size_t s = 0; s < LN; ++s) r[s] = q[s]; }
B(add, x + y) B(sub, x - y) B(mul, x * y) B(div, x / y) B(max, max(x, y))
