// std::gcd / std::lcm are library code outside of the repository; while the
// repository's headers are compiled they are replaced by a single-term
// encoding (Euclid's algorithm, unrolled to the bound) so that computing them
// does not split paths. The native replay uses the real std::gcd / std::lcm.
#pragma once
#include "dsym.h"
#include <cstdint>
#include <numeric>
#include <type_traits>
namespace std {
template <class A, class B>
constexpr std::common_type_t<A, B> dsym_gcd(A a, B b) {
	using C = std::common_type_t<A, B>;
	if (!dsym_is_engine()) return std::gcd(a, b);
	const int64_t x = a, y = b;
	return C(dsym_gcd_i64(x < 0 ? -x : x, y < 0 ? -y : y));
}
template <class A, class B>
constexpr std::common_type_t<A, B> dsym_lcm(A a, B b) {
	using C = std::common_type_t<A, B>;
	if (!dsym_is_engine()) return std::lcm(a, b);
	const int64_t x = a < 0 ? -int64_t(a) : int64_t(a), y = b < 0 ? -int64_t(b) : int64_t(b);
	return C(x / dsym_gcd_i64(x, y) * y);
}
}  // namespace std
