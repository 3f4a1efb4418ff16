#pragma once
#include "gcd_stub.h"
#include <cassert>
#include <tuple>
#define gcd dsym_gcd
#define lcm dsym_lcm
#include <dspbb/Math/Rational.hpp>
#undef gcd
#undef lcm
using dspbb::Rational;
template <class T>
Rational<T> rat(const char* n, int64_t nmax, int64_t dmax) {
	const T num = T(dsym_i64(n, -nmax, nmax));
	const T den = T(dsym_i64(n, 1, dmax));
	return Rational<T>{ num, den };
}
