// C14: all representations of a discrete system describe the same transfer function
// @bound transfer function: 0..3 real roots and 0..2 complex pairs (thorough 0..4, 0..3) of zeros and of poles; cascades: 0..3 real roots and 0..1 pairs of zeros and of poles in any order and sign (thorough 0..4 and 0..2), and 4..6 real roots (thorough 4..8) in disjoint bands in two orders; roots and gain in [-2,2]; every evaluation point in [-2,2] + [-2,2]i
// @assume arithmetic on the reals: rounding is out of scope (except in C14_expand_*, which bounds it); evaluation of a ratio assumes a non-zero denominator
#include "dsym.h"
#include <dspbb/LTISystems/Systems.hpp>
using namespace dspbb;
using C = std::complex<double>;

#ifdef THOROUGH
constexpr int NR = 4, NC = 3, CR = 4, CC = 2;
#else
constexpr int NR = 3, NC = 2, CR = 3, CC = 1;
#endif
template <class T>
void roots(FactoredPolynomial<T>& p, int real, int pairs, const char* n) {
	p.resize(real, pairs);
	for (auto& r : p.real_roots()) r = dsym::In<T>::rval(n, 2);
	for (auto& r : p.complex_pairs()) r = dsym::In<std::complex<T>>::rval(n, 2);
}
template <class T>
void close(T a, T e, const char* id) { dsym::close(a, e, 1e-6, id); }

// value of the product of (z - root), a pair counting as (z - root)(z - conj(root))
template <class T>
C product(const FactoredPolynomial<T>& p, C z) {
	double re = 1, im = 0;
	auto times = [&](double a, double b) {
		const double r = re * a - im * b;
		im = re * b + im * a;
		re = r;
	};
	for (auto r : p.real_roots()) times(z.real() - r, z.imag());
	for (auto r : p.complex_pairs()) {
		times(z.real() - r.real(), z.imag() - r.imag());
		times(z.real() - r.real(), z.imag() + r.imag());
	}
	return { re, im };
}
template <class It>
C horner(It first, It last, C z) {
	double re = 0, im = 0;
	while (last != first) {
		--last;
		const double r = re * z.real() - im * z.imag() + *last;
		im = re * z.imag() + im * z.real();
		re = r;
	}
	return { re, im };
}

HARNESS C14_transfer_function() {
	dsym_real_mode(1);
	DiscreteZeroPoleGain<double> zpk;
	zpk.gain = dsym_f64("gain", -2, 2);
	const int zr = dsym_choose("real zeros", 0, NR), zc = dsym_choose("zero pairs", 0, NC), pr = dsym_choose("real poles", 0, NR), pc = dsym_choose("pole pairs", 0, NC);
	roots(zpk.zeros, zr, zc, "zero");
	roots(zpk.poles, pr, pc, "pole");
	const C z = dsym::In<C>::rval("z", 2);
	const DiscreteTransferFunction<double> tf{ zpk };
	const auto num = tf.numerator.coefficients(), den = tf.denominator.coefficients();
	dsym_assert(num.size() == size_t(zr + 2 * zc + 1) && den.size() == size_t(pr + 2 * pc + 1), "number of coefficients");
	dsym_assert(tf.order() == size_t(std::max(zr + 2 * zc, pr + 2 * pc)) && zpk.order() == tf.order(), "order");
	const C n = horner(num.begin(), num.end(), z), d = horner(den.begin(), den.end(), z);
	const C ez = product(zpk.zeros, z), ep = product(zpk.poles, z);
	close(n.real(), zpk.gain * ez.real(), "numerator of transfer function");
	close(n.imag(), zpk.gain * ez.imag(), "numerator of transfer function");
	close(d.real(), ep.real(), "denominator of transfer function");
	close(d.imag(), ep.imag(), "denominator of transfer function");
	close(tf.denominator(z), ep, "evaluated denominator");
	close(zpk.zeros(z), ez, "evaluated zeros");
	const double x = z.real();
	close(tf.numerator(x), zpk.gain * product(zpk.zeros, x).real(), "numerator at real point");
	close(zpk.poles(x), product(zpk.poles, x).real(), "poles at real point");
}
HARNESS C14_evaluate_real() {
	dsym_real_mode(1);
	DiscreteZeroPoleGain<double> zpk;
	zpk.gain = dsym_f64("gain", -2, 2);
	const int zr = dsym_choose("real zeros", 0, 2), zc = dsym_choose("zero pairs", 0, 1), pr = dsym_choose("real poles", 0, 2), pc = dsym_choose("pole pairs", 0, 1);
	roots(zpk.zeros, zr, zc, "zero");
	roots(zpk.poles, pr, pc, "pole");
	const double x = dsym_f64("x", -2, 2);
	const DiscreteTransferFunction<double> tf{ zpk };
	const double p = product(zpk.poles, x).real(), h = zpk.gain * product(zpk.zeros, x).real() * (1.0 / p);
	close(zpk(x), h, "zero-pole-gain at real point");
	close(tf(x), h, "transfer function at real point");
}
// complex evaluation with the poles at given places
HARNESS C14_evaluate_complex() {
	dsym_real_mode(1);
	DiscreteZeroPoleGain<double> zpk;
	zpk.gain = dsym_f64("gain", -2, 2);
	const int zr = dsym_choose("real zeros", 0, 2), zc = dsym_choose("zero pairs", 0, 1), poles = dsym_choose("poles", 0, 3);
	roots(zpk.zeros, zr, zc, "zero");
	zpk.poles.resize(poles % 2, poles / 2);
	for (auto& r : zpk.poles.real_roots()) r = 0.5;
	for (auto& r : zpk.poles.complex_pairs()) r = { -0.25, 0.5 };
	const double zs[][2] = { { 1, 0 }, { -1, 0 }, { 0, 1 }, { 0.6, -0.8 }, { 2, 1 } };
	const int at = dsym_choose("z", 0, 4);
	const C z = { zs[at][0], zs[at][1] };
	const DiscreteTransferFunction<double> tf{ zpk };
	const CascadedBiquad<double> cascade{ DiscreteZeroPoleGain<double>{ 1, {}, zpk.poles } };
	const C p = product(zpk.poles, z), n = product(zpk.zeros, z), h = zpk.gain * n;
	const C a = zpk(z), b = tf(z), c = cascade(z);
	close(C(a * p), h, "zero-pole-gain at complex point");
	close(C(b * p), h, "transfer function at complex point");
	close(C(c * p), C(1), "cascade at complex point");
}

void cascade(int zr, int zc, int pr, int pc) {
	dsym_real_mode(1);
	DiscreteZeroPoleGain<double> zpk;
	zpk.gain = dsym_f64("gain", -2, 2);
	roots(zpk.zeros, zr, zc, "zero");
	roots(zpk.poles, pr, pc, "pole");
	const C z = dsym::In<C>::rval("z", 2);
	const CascadedBiquad<double> cascade{ zpk };
	dsym_assert(cascade.order() == zpk.order(), "order of cascade");
	dsym_assert(cascade.sections.size() == size_t(std::max({ 1, (zr + 1) / 2 + zc, (pr + 1) / 2 + pc })), "number of sections");
	double nr = 1, ni = 0, dr = 1, di = 0, rx = 1;
	const double x = z.real();
	for (const auto& s : cascade.sections) {
		// a section holds the coefficients of z^-2, z^-1 and 1 relative to its order
		const double c0[3] = { s.numOrder == 2 ? s.numerator[0] : s.numOrder == 1 ? s.numerator[1] : s.numerator[2],
							   s.numOrder == 2 ? s.numerator[1] : s.numOrder == 1 ? s.numerator[2] : 0,
							   s.numOrder == 2 ? s.numerator[2] : 0 };
		const double c1[3] = { s.denOrder == 2 ? s.denominator[0] : s.denOrder == 1 ? s.denominator[1] : 1,
							   s.denOrder == 2 ? s.denominator[1] : s.denOrder == 1 ? 1.0 : 0,
							   s.denOrder == 2 ? 1.0 : 0 };
		if (s.numOrder < 2) dsym::close(s.numerator[0], 0.0, 0, "unused numerator coefficient");
		if (s.numOrder < 1) dsym::close(s.numerator[1], 0.0, 0, "unused numerator coefficient");
		if (s.denOrder < 2) dsym::close(s.denominator[0], 0.0, 0, "unused denominator coefficient");
		if (s.denOrder < 1) dsym::close(s.denominator[1], 0.0, 0, "unused denominator coefficient");
		const C n = horner(c0, c0 + 3, z), d = horner(c1, c1 + 3, z);
		double r = nr * n.real() - ni * n.imag();
		ni = nr * n.imag() + ni * n.real();
		nr = r;
		r = dr * d.real() - di * d.imag();
		di = dr * d.imag() + di * d.real();
		dr = r;
		rx *= horner(c0, c0 + 3, x).real() / horner(c1, c1 + 3, x).real();
	}
	const C ez = product(zpk.zeros, z), ep = product(zpk.poles, z);
	close(nr, zpk.gain * ez.real(), "numerator of cascade");
	close(ni, zpk.gain * ez.imag(), "numerator of cascade");
	close(dr, ep.real(), "denominator of cascade");
	close(di, ep.imag(), "denominator of cascade");
	close(cascade(x), rx, "cascade at real point");
}
HARNESS C14_cascade_zeros() { cascade(dsym_choose("real zeros", 0, CR), dsym_choose("zero pairs", 0, CC), dsym_choose("real poles", 0, 1), dsym_choose("pole pairs", 0, 1)); }
HARNESS C14_cascade_poles() { cascade(dsym_choose("real zeros", 0, 1), dsym_choose("zero pairs", 0, 1), dsym_choose("real poles", 0, CR), dsym_choose("pole pairs", 0, CC)); }

// more real roots: n disjoint bands, so every order of presentation and every position of zero among them are covered by a few paths
#ifdef THOROUGH
constexpr int MANY = 8;
#else
constexpr int MANY = 6;
#endif
HARNESS C14_cascade_many() {
	dsym_real_mode(1);
	const int n = dsym_choose("real roots", 4, MANY), negative = dsym_choose("negative roots", 0, n), step = n % 3 ? 3 : 5, pairs = dsym_choose("pairs", 0, 1);
	const bool poles = dsym_choose("of poles", 0, 1), descending = dsym_choose("descending", 0, 1);
	DiscreteZeroPoleGain<double> zpk;
	zpk.gain = dsym_f64("gain", -2, 2);
	auto& f = poles ? zpk.poles : zpk.zeros;
	f.resize(n, pairs);
	for (int i = 0; i < n; ++i) {
		const int k = (descending ? n - 1 - i : i) * step % n;
		f.real_roots()[i] = dsym_f64("root", (k - negative + 0.1) * 0.4, (k - negative + 0.9) * 0.4);
	}
	for (auto& r : f.complex_pairs()) r = dsym::In<C>::rval("pair", 2);
	const double x = dsym_f64("x", -2, 2);
	const CascadedBiquad<double> cascade{ zpk };
	dsym_assert(cascade.order() == zpk.order(), "order of cascade");
	dsym_assert(cascade.sections.size() == size_t((n + 1) / 2 + pairs), "number of sections");
	double num = 1, den = 1, rx = 1;
	for (const auto& s : cascade.sections) {
		double v[2];
		for (int j = 0; j < 2; ++j) {
			const int order = j ? s.denOrder : s.numOrder;
			const double c[3] = { j ? s.denominator[0] : s.numerator[0], j ? s.denominator[1] : s.numerator[1], j ? 1.0 : s.numerator[2] };
			v[j] = order == 2 ? c[0] + x * c[1] + x * x * c[2] : order == 1 ? c[1] + x * c[2] : c[2];
		}
		num *= v[0];
		den *= v[1];
		rx *= v[0] / v[1];
	}
	close(num, zpk.gain * product(zpk.zeros, x).real(), "numerator of cascade");
	close(den, product(zpk.poles, x).real(), "denominator of cascade");
	close(cascade(x), rx, "cascade at real point");
}

// expansion in working precision
template <class T>
void expand() {
	FactoredPolynomial<T> f;
	const int r = dsym_choose("real", 0, NR), p = dsym_choose("pairs", 0, NC);
	roots(f, r, p, "root");
	const auto e = ExpandPolynomial(f);
	dsym_assert(e.size() == size_t(r + 2 * p + 1), "number of coefficients");
	// reference: convolution of the factors
	std::vector<double> c{ 1 };
	auto times = [&c](std::vector<double> q) {
		std::vector<double> n(c.size() + q.size() - 1, 0.0);
		for (size_t i = 0; i < c.size(); ++i)
			for (size_t j = 0; j < q.size(); ++j) n[i + j] += c[i] * q[j];
		c = n;
	};
	for (auto x : f.real_roots()) times({ -double(x), 1 });
	for (auto x : f.complex_pairs()) times({ double(x.real()) * x.real() + double(x.imag()) * x.imag(), -2 * double(x.real()), 1 });
	for (size_t i = 0; i < c.size(); ++i) dsym::close(e.coefficients()[i], c[i], std::is_same_v<T, float> ? 0.05 : 1e-9, "coefficient");
	dsym::same(e.coefficients()[c.size() - 1], T(1), "monic");
}
HARNESS C14_expand_f() { expand<float>(); }
HARNESS C14_expand_d() { expand<double>(); }
