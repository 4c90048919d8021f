#ifndef VERIF_SIMDUTIL_H_
#define VERIF_SIMDUTIL_H_
#include "common.h"
#include "wrappers/simd/simd.h"
static_assert(SIMD::size == 2, "lanes");
static inline void vin(SIMD *x, const double *a, size_t n) { for (size_t i = 0; i < n; ++i) for (size_t s = 0; s < SIMD::size; ++s) x[i][s] = a[i * SIMD::size + s]; }
static inline void vout(double *a, const SIMD *x, size_t n) { for (size_t i = 0; i < n; ++i) for (size_t s = 0; s < SIMD::size; ++s) a[i * SIMD::size + s] = x[i][s]; }
#endif
