#include "simd.inc"
