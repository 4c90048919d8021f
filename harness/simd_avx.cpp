// CXXFLAGS: -mavx
#include "simd.inc"
