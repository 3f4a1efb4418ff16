// The modified Bessel function of the standard library is replaced by an
// uninterpreted even function (of order zero) that is at least one, while the
// repository's headers are compiled; the native replay uses the real one.
#pragma once
#include "dsym.h"
#include <cmath>
namespace std {
inline float dsym_cyl_bessel_i(float n, float x) {
	if (n != 0) __builtin_trap();
	return dsym_i0f(x);
}
inline double dsym_cyl_bessel_i(double n, double x) {
	if (n != 0) __builtin_trap();
	return dsym_i0(x);
}
}  // namespace std
#define cyl_bessel_i dsym_cyl_bessel_i
