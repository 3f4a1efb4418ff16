// C01: Rational arithmetic is exact and canonical
// @bound every numerator and integer operand in [-N,N] (symbolic; N=15 quick, 63 thorough), every denominator in [1,D] (D=8 quick, 14 thorough); for division the divisor's numerator in [-D,D]
// @bound large operands: denominators 2^16*{1,2} (32 bit) and 2^33*{1,2} (64 bit) whose product does not fit while the result does
// @assume std::gcd and std::lcm return the greatest common divisor / least common multiple (modelled by Euclid's algorithm as one term)
#include "rational.h"
using namespace dspbb;
#ifdef THOROUGH
constexpr int D = 14, N = 63;
#else
constexpr int D = 8, N = 15;
#endif

template <class T>
void canonical(const Rational<T>& r) {
	const int64_t n = r.Numerator(), d = r.Denominator();
	dsym_assert(d > 0, "denominator is positive");
	dsym_assert(dsym_gcd_i64(n < 0 ? -n : n, d) == 1, "lowest terms");
}
// r == n/d exactly
template <class T>
void exact(const Rational<T>& r, int64_t n, int64_t d) {
	dsym_assert(int64_t(r.Numerator()) * d == n * int64_t(r.Denominator()), "exact value");
}
template <class T>
void binary(int lo, int hi) {
	const int op = dsym_choose("op", lo, hi);
	const int form = dsym_choose("form", 0, 1);
	const int64_t an = dsym_i64("an", -N, N), ad = dsym_choose("ad", 1, D), bd = dsym_choose("bd", 1, D);
	const int64_t bn = op == 3 ? dsym_choose("bn", -D, D) : dsym_i64("bn", -N, N);
	if (op == 3) dsym_assume(bn != 0);
	Rational<T> a{ T(an), T(ad) };
	const Rational<T> b{ T(bn), T(bd) };
	Rational<T> r{ 1 };
	if (form == 0) {
		switch (op) {
			case 0: r = a + b; break;
			case 1: r = a - b; break;
			case 2: r = a * b; break;
			default: r = a / b; break;
		}
	}
	else {
		r = a;
		switch (op) {
			case 0: r += b; break;
			case 1: r -= b; break;
			case 2: r *= b; break;
			default: r /= b; break;
		}
	}
	switch (op) {
		case 0: exact(r, an * bd + bn * ad, ad * bd); break;
		case 1: exact(r, an * bd - bn * ad, ad * bd); break;
		case 2: exact(r, an * bn, ad * bd); break;
		default: exact(r, an * bd, ad * bn); break;
	}
	canonical(r);
	exact(a, an, ad);
	exact(b, bn, bd);
}
template <class T>
void mixed(int lo, int hi) {
	const int op = dsym_choose("op", lo, hi);
	const int form = dsym_choose("form", 0, 2);	 // rational op int, int op rational, compound
	const bool ca = op == 3 && form == 1, ck = op == 3 && form != 1;
	const int64_t an = ca ? dsym_choose("an", -D, D) : dsym_i64("an", -N, N), ad = dsym_choose("ad", 1, D);
	const int64_t k = ck ? dsym_choose("k", -D, D) : dsym_i64("k", -N, N);
	if (op == 3) {
		if (form == 1) dsym_assume(an != 0);
		else dsym_assume(k != 0);
	}
	const Rational<T> a{ T(an), T(ad) };
	const T s = T(k);
	Rational<T> r = a;
	switch (op * 3 + form) {
		case 0: r = a + s; break;
		case 1: r = s + a; break;
		case 2: r += s; break;
		case 3: r = a - s; break;
		case 4: r = s - a; break;
		case 5: r -= s; break;
		case 6: r = a * s; break;
		case 7: r = s * a; break;
		case 8: r *= s; break;
		case 9: r = a / s; break;
		case 10: r = s / a; break;
		default: r /= s; break;
	}
	switch (op) {
		case 0: exact(r, an + k * ad, ad); break;
		case 1: form == 1 ? exact(r, k * ad - an, ad) : exact(r, an - k * ad, ad); break;
		case 2: exact(r, an * k, ad); break;
		default: form == 1 ? exact(r, k * ad, an) : exact(r, an, ad * k); break;
	}
	canonical(r);
}
template <class T>
void basics() {
	const int64_t an = dsym_i64("an", -N, N), ad = dsym_choose("ad", 1, 3 * D);
	Rational<T> a{ T(an), T(ad) };
	canonical(a);
	exact(a, an, ad);
	const Rational<T> w{ T(an) };
	dsym_assert(w.Numerator() == an && w.Denominator() == 1, "whole number");
	Rational<T> b = a;
	switch (dsym_choose("op", 0, 3)) {
		case 0:
			dsym_assert(&++b == &b, "increment returns itself");
			exact(b, an + ad, ad);
			break;
		case 1:
			exact(b++, an, ad);
			exact(b, an + ad, ad);
			break;
		case 2:
			dsym_assert(&--b == &b, "decrement returns itself");
			exact(b, an - ad, ad);
			break;
		default:
			exact(b--, an, ad);
			exact(b, an - ad, ad);
			break;
	}
	canonical(b);
}
// large denominators with a common factor: the result fits though the product of the denominators does not
template <class T>
void large(int64_t k) {
	const int op = dsym_choose("op", 0, 3), form = dsym_choose("form", 0, 1);
	const int64_t x = dsym_choose("x", 1, 2), y = dsym_choose("y", 1, 2), ad = k * x, bd = k * y;
	const int64_t an = dsym_i64("an", -7, 7);
	int64_t bn = op > 1 ? dsym_choose("bn", -3, 3) : dsym_i64("bn", -7, 7);
	if (op == 3) dsym_assume(bn != 0);
	// a product fits if the factors cancel
	const bool cancel = op == 2;
	if (cancel) bn *= k;
	const Rational<T> a{ T(an), T(ad) }, b{ T(bn), T(cancel ? y : bd) };
	Rational<T> r = a;
	switch (op * 2 + form) {
		case 0: r = a + b; break;
		case 1: r += b; break;
		case 2: r = a - b; break;
		case 3: r -= b; break;
		case 4: r = a * b; break;
		case 5: r *= b; break;
		case 6: r = a / b; break;
		default: r /= b; break;
	}
	switch (op) {
		case 0: exact(r, an * y + bn * x, k * x * y); break;
		case 1: exact(r, an * y - bn * x, k * x * y); break;
		case 2: exact(r, an * (bn / k), x * y); break;
		default: exact(r, an * y, x * bn); break;
	}
	canonical(r);
}
HARNESS C01_large_i32() { large<int>(1 << 16); }
HARNESS C01_large_i64() { large<int64_t>(int64_t(1) << 33); }
HARNESS C01_add_i32() { binary<int>(0, 0); }
HARNESS C01_sub_i32() { binary<int>(1, 1); }
HARNESS C01_mul_i32() { binary<int>(2, 2); }
HARNESS C01_div_i32() { binary<int>(3, 3); }
HARNESS C01_addsub_i64() { binary<int64_t>(0, 1); }
HARNESS C01_muldiv_i64() { binary<int64_t>(2, 3); }
HARNESS C01_mixed_i32() { mixed<int>(0, 3); }
HARNESS C01_mixed_i64() { mixed<int64_t>(0, 3); }
HARNESS C01_basics_i32() { basics<int>(); }
HARNESS C01_basics_i64() { basics<int64_t>(); }
// a zero or negative denominator is not a rational in canonical form: rejected
HARNESS C01_reject() {
	const int n = dsym_i64("n", -100, 100), d = dsym_i64("d", -100, 0);
	dsym_reject_begin("denominator not positive");
	Rational<int> r{ n, d };
	dsym_assert(r.Denominator() <= 0, "unreachable");
	dsym_reject_end();
}
