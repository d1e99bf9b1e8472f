// The engine instantiates its operations for many table widths; the
// instrumented builds keep the dynamic width and a few static ones. The PLAIN
// builds use the engine's own dispatch.
#pragma once
#include "engine/CallFixedSize.h"
#undef CALL_FIXED_SIZE_1
#undef CALL_FIXED_SIZE_2
#undef CALL_FIXED_SIZE_3
#define CALL_FIXED_SIZE_1(i, func, ...) \
  do {                                  \
    if ((i) == 1)                       \
      func<1>(__VA_ARGS__);             \
    else if ((i) == 2)                  \
      func<2>(__VA_ARGS__);             \
    else                                \
      func<0>(__VA_ARGS__);             \
  } while (0)
#define CALL_FIXED_SIZE_2(i, j, func, ...) \
  do {                                     \
    if ((i) == 1 && (j) == 1)              \
      func<1, 1>(__VA_ARGS__);             \
    else if ((i) == 2 && (j) == 2)         \
      func<2, 2>(__VA_ARGS__);             \
    else                                   \
      func<0, 0>(__VA_ARGS__);             \
  } while (0)
#define CALL_FIXED_SIZE_3(i, j, k, func, ...)      \
  do {                                             \
    if ((i) == 2 && (j) == 2 && (k) == 3)          \
      func<2, 2, 3>(__VA_ARGS__);                  \
    else if ((i) == 2 && (j) == 2 && (k) == 2)     \
      func<2, 2, 2>(__VA_ARGS__);                  \
    else                                           \
      func<0, 0, 0>(__VA_ARGS__);                  \
  } while (0)
