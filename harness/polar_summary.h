// forced into the material translation unit of the symbolic build: Polar_Decomp by its contract (decided by T03)
#pragma once
#ifdef SE_SYM
#include "nimble_utils.h"
void se_polar_model(const double* f, double* v, double* r);
template <>
inline void
Polar_Decomp<double>(const double* const mat, double* const left_stretch, double* const rotation)
{
  se_polar_model(mat, left_stretch, rotation);
}
#endif
