// C02: comparison, rounding and fractional part follow the rational line
// @bound every numerator and integer operand in [-N,N] (symbolic; N=200 quick, 2000 thorough; N=15/63 where both gcds are symbolic), every denominator in [1,D] (D=8 quick, 14 thorough)
// @bound large numerators: within N of +-12*2^26/lcm (32 bit) and +-12*2^56/lcm (64 bit) times the denominator, denominators 1..4
// @assume std::gcd and std::lcm return the greatest common divisor / least common multiple (modelled by a split over the divisors)
#include "rational.h"
using namespace dspbb;
#ifdef THOROUGH
constexpr int D = 14, N = 63, NF = 400;
#else
constexpr int D = 8, N = 15, NF = 100;
#endif

template <class A, class B>
void six(const A& a, const B& b, int64_t l, int64_t r) {
	// a and b stand for l/x and r/x with the same x > 0
	dsym_assert((a == b) == (l == r), "==");
	dsym_assert((a != b) == (l != r), "!=");
	dsym_assert((a < b) == (l < r), "<");
	dsym_assert((a > b) == (l > r), ">");
	dsym_assert((a <= b) == (l <= r), "<=");
	dsym_assert((a >= b) == (l >= r), ">=");
}
template <class T1, class T2>
void compare() {
	const int64_t ad = dsym_choose("ad", 1, D), bd = dsym_choose("bd", 1, D);
	const int64_t an = dsym_i64("an", -N, N), bn = dsym_i64("bn", -N, N);
	six(Rational<T1>{ T1(an), T1(ad) }, Rational<T2>{ T2(bn), T2(bd) }, an * bd, bn * ad);
}
template <class T>
void compareInt() {
	const int64_t ad = dsym_choose("ad", 1, D);
	const int64_t an = dsym_i64("an", -N, N), k = dsym_i64("k", -N, N);
	const Rational<T> a{ T(an), T(ad) };
	if (dsym_choose("side", 0, 1)) six(a, T(k), an, k * ad);
	else six(T(k), a, k * ad, an);
}
template <class T>
void rounding() {
	const int64_t d = dsym_choose("d", 1, D), n = dsym_i64("n", -NF, NF);
	const Rational<T> r{ T(n), T(d) };
	const int64_t f = floor(r), c = ceil(r);
	dsym_assert(f * d <= n && n < (f + 1) * d, "floor is the largest integer not above");
	dsym_assert((c - 1) * d < n && n <= c * d, "ceil is the smallest integer not below");
	const Rational<T> fr = frac(r);
	dsym_assert(fr.Numerator() >= 0 && fr.Numerator() < fr.Denominator(), "frac lies in [0,1)");
	dsym_assert((int64_t(fr.Numerator()) + f * fr.Denominator()) * d == n * fr.Denominator(), "frac = r - floor");
}
template <class T>
void convert() {
	const int64_t d = dsym_choose("d", 1, D), n = dsym_i64("n", -NF, NF);
	const Rational<T> r{ T(n), T(d) };
	// the quotient of the numbers in lowest terms, correctly rounded
	dsym::close(double(r), double(n) / double(d), 1e-12 * NF, "conversion to double");
	dsym::close(float(r), float(n) / float(d), 2.5e-7 * NF, "conversion to float");
}
// numerators that no floating point type can tell apart
template <class T>
void compareLarge(int64_t base) {
	const int64_t ad = dsym_choose("ad", 1, 4), bd = dsym_choose("bd", 1, 4), sign = dsym_choose("negative", 0, 1) ? -1 : 1;
	const int64_t c = std::lcm(ad, bd);
	const int64_t an = sign * (base * ad / c * 1 + dsym_i64("an", -N, N)), bn = sign * (base * bd / c + dsym_i64("bn", -N, N));
	six(Rational<T>{ T(an), T(ad) }, Rational<T>{ T(bn), T(bd) }, an * (c / ad), bn * (c / bd));
}
HARNESS C02_large_i32() { compareLarge<int>(int64_t(12) << 26); }
HARNESS C02_large_i64() { compareLarge<int64_t>(int64_t(12) << 56); }
HARNESS C02_compare_i32() { compare<int, int>(); }
HARNESS C02_compare_i64() { compare<int64_t, int64_t>(); }
HARNESS C02_compare_mixed() { compare<int, int64_t>(); }
HARNESS C02_compareInt_i32() { compareInt<int>(); }
HARNESS C02_compareInt_i64() { compareInt<int64_t>(); }
HARNESS C02_rounding_i32() { rounding<int>(); }
HARNESS C02_rounding_i64() { rounding<int64_t>(); }
HARNESS C02_convert() { convert<int>(); }
