// Thin entry points: each v_* function only copies plain arrays into the
// project's own types, calls the project's code, and copies the results out.
#ifndef VERIF_HARNESS_COMMON_H_
#define VERIF_HARNESS_COMMON_H_
#include <cstddef>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#define V extern "C" __attribute__((visibility("default")))
#endif
