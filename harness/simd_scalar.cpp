// CXXFLAGS: -DSIMD_OFF
#include "simd.inc"
