// Stand-in for the Gridsynth C interface: the harness decides what is answered.
#pragma once
#include <cstddef>
inline int (*vf_gridsynth)(double, const char*, char*, size_t) = nullptr;
inline int gridsynth_angle_to_seq_with_precision_hs(double digits, const char* angle, char* out, size_t size) { return vf_gridsynth ? vf_gridsynth(digits, angle, out, size) : 1; }
