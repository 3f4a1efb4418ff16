// C29: classical IIR designs meet their specified ripples and band edges
// @bound double precision designs of prototype order 1..5 (thorough 1..8; band filters have twice the order), given edges (seven cutoffs between 0.02 and 0.98, or bands; thorough eleven) and three pairs of ripples (thorough six); every frequency between zero and the Nyquist frequency, both included, is symbolic
// @assume the designs are computed with rounding as the compiled code does; the evaluation on the unit circle is on the reals; magnitudes squared are compared up to 1e-4
// @opts ALL --nlsat
#include "dsym.h"
#include <dspbb/Filtering/IIR.hpp>
using namespace dspbb;
using DZ = DiscreteZeroPoleGain<double>;

#ifdef THOROUGH
constexpr int NO = 8, NE = 10, NRIP = 5;
#else
constexpr int NO = 5, NE = 6, NRIP = 2;
#endif
constexpr double PI = 3.14159265358979323846, TOL = 1e-4;
constexpr double CUT[] = { 0.3, 0.02, 0.5, 0.8, 0.65, 0.98, 0.1, 0.15, 0.4, 0.7, 0.01 };
constexpr double BAND[][2] = { { 0.35, 0.6 }, { 0.02, 0.3 }, { 0.25, 0.75 }, { 0.5, 0.55 }, { 0.03, 0.97 }, { 0.7, 0.98 }, { 0.1, 0.2 }, { 0.15, 0.9 }, { 0.4, 0.6 }, { 0.02, 0.05 }, { 0.9, 0.95 } };
constexpr double RIPPLE[][2] = { { 0.05, 0.02 }, { 0.2, 0.1 }, { 0.01, 0.3 }, { 0.1, 0.001 }, { 0.001, 0.1 }, { 0.4, 0.2 } };

enum { LOW, HIGH, PASS, STOP };

// |p(z)|^2 on the unit circle at z = (sqrt(v) + i sqrt(u)) / (sqrt(v) - i sqrt(u)), times a power of (u+v)
double magnitude2(const FactoredPolynomial<double>& p, double u, double v) {
	double m = 1;
	for (auto r : p.real_roots()) m *= (1 - r) * (1 - r) * v + (1 + r) * (1 + r) * u;
	for (auto r : p.complex_pairs()) {
		const double q = r.real() * r.real() + r.imag() * r.imag(), c = (1 + q) * (v - u) - 2 * r.real() * (u + v);
		m *= c * c + 4 * (1 - q) * (1 - q) * u * v;
	}
	return m;
}
double power(double x, int n) {
	double v = 1;
	for (int i = 0; i < n; ++i) v *= x;
	return v;
}
// square of the frequency the analog prototype has at tan(w/2)^2 = u/v, as a ratio
void prototype(int kind, double e0, double e1, double u, double v, double& n, double& d) {
	const double t0 = std::tan(PI / 2 * e0), t1 = std::tan(PI / 2 * e1);
	if (kind == LOW) n = u, d = v * (t0 * t0);
	if (kind == HIGH) n = v * (t0 * t0), d = u;
	const double c = u - (t0 * t1) * v, b = (t1 - t0) * (t1 - t0) * u * v;
	if (kind == PASS) n = c * c, d = b;
	if (kind == STOP) n = b, d = c * c;
}
// d^order times the square of the Chebyshev polynomial at sqrt(n/d)
double chebyshev2(int order, double n, double d) {
	const double x = 2 * n - d;
	double a = 1, b = x;
	for (int k = 1; k < order; ++k) {
		const double c = 2 * x * b - d * d * a;
		a = b, b = c;
	}
	return (b + power(d, order)) / 2;
}
double agm(double a, double b) {
	for (int i = 0; i < 40; ++i) {
		const double c = (a + b) / 2;
		b = std::sqrt(a * b), a = c;
	}
	return a;
}
// pass band edge divided by stop band edge of the elliptic filter
double selectivity(int order, double rp, double rs) {
	const double k1 = std::sqrt((1 / ((1 - rp) * (1 - rp)) - 1) / (1 / (rs * rs) - 1));
	const double nome1 = std::exp(-PI * agm(1, std::sqrt(1 - k1 * k1)) / agm(1, k1));
	double q = std::pow(nome1, 1.0 / order), t2 = 0, t3 = 1;
	for (int i = 0; i < 30; ++i) t2 += 2 * std::pow(q, (i + 0.5) * (i + 0.5)), t3 += 2 * std::pow(q, (i + 1.0) * (i + 1.0));
	return (t2 / t3) * (t2 / t3);
}

struct Case {
	int kind, n, order;
	double e0, e1, rp, rs;
};
Case any_case(int kind) {
	Case c{ kind };
	c.n = dsym_choose("prototype order", 1, NO);
	c.order = kind < PASS ? c.n : 2 * c.n;
	const int at = dsym_choose("edges", 0, NE);
	c.e0 = kind < PASS ? CUT[at] : BAND[at][0];
	c.e1 = kind < PASS ? 0.25 : BAND[at][1];
	return c;
}
void any_ripple(Case& c) {
	const int at = dsym_choose("ripples", 0, NRIP);
	c.rp = RIPPLE[at][0], c.rs = RIPPLE[at][1];
}
void stable(const DZ& f, const Case& c) {
	dsym_assert(int(f.poles.num_roots()) == c.order && int(f.zeros.num_roots()) == c.order, "order of the filter");
	for (auto r : f.poles.real_roots()) dsym_assert(std::abs(r) < 1, "stable real pole");
	for (auto r : f.poles.complex_pairs()) dsym_assert(r.real() * r.real() + r.imag() * r.imag() < 1, "stable pair of poles");
}
// any frequency: u/v = tan(w/2)^2 in [0,infinity]
void any_frequency(double& u, double& v) {
	const double y = dsym_f64("tan(w/2)^2 or inverse", 0, 1);
	const bool upper = dsym_choose("upper half", 0, 1);
	u = upper ? 1.0 : y;
	v = upper ? y : 1.0;
}
// gain^2 is num/den
void response(const DZ& f, double u, double v, double num, double den) {
	const double a = f.gain * f.gain * magnitude2(f.zeros, u, v), b = magnitude2(f.poles, u, v);
	const double left = a * den, right = b * num, slack = TOL * b * den;
	dsym_assert(left - right <= slack, "gain not above the ideal one");
	dsym_assert(right - left <= slack, "gain not below the ideal one");
}

#define DESIGN(FAMILY, RIPPLES) \
	(kind == LOW ? DesignFilter<double>(c.order, Iir.Lowpass.FAMILY.Cutoff(c.e0) RIPPLES) : kind == HIGH ? DesignFilter<double>(c.order, Iir.Highpass.FAMILY.Cutoff(c.e0) RIPPLES) : kind == PASS ? DesignFilter<double>(c.order, Iir.Bandpass.FAMILY.Band(c.e0, c.e1) RIPPLES) : DesignFilter<double>(c.order, Iir.Bandstop.FAMILY.Band(c.e0, c.e1) RIPPLES))

void butterworth(int kind) {
	const Case c = any_case(kind);
	const DZ f = DESIGN(Butterworth, );
	stable(f, c);
	dsym_real_mode(1);
	double u, v, n, d;
	any_frequency(u, v);
	prototype(kind, c.e0, c.e1, u, v, n, d);
	response(f, u, v, power(d, c.n), power(d, c.n) + power(n, c.n));
}
void chebyshev_1(int kind) {
	Case c = any_case(kind);
	any_ripple(c);
	const DZ f = DESIGN(Chebyshev1, .PassbandRipple(c.rp));
	stable(f, c);
	dsym_real_mode(1);
	double u, v, n, d;
	any_frequency(u, v);
	prototype(kind, c.e0, c.e1, u, v, n, d);
	const double e = 1 / ((1 - c.rp) * (1 - c.rp)) - 1;
	response(f, u, v, power(d, c.n), power(d, c.n) + e * chebyshev2(c.n, n, d));
}
void chebyshev_2(int kind) {
	Case c = any_case(kind);
	any_ripple(c);
	const DZ f = DESIGN(Chebyshev2, .StopbandRipple(c.rs));
	stable(f, c);
	dsym_real_mode(1);
	double u, v, n, d;
	any_frequency(u, v);
	prototype(kind, c.e0, c.e1, u, v, n, d);
	const double e = 1 / (c.rs * c.rs) - 1, p = chebyshev2(c.n, d, n);
	response(f, u, v, p, p + e * power(n, c.n));
}
void elliptic(int kind) {
	Case c = any_case(kind);
	any_ripple(c);
	const DZ f = DESIGN(Elliptic, .PassbandRipple(c.rp).StopbandRipple(c.rs));
	stable(f, c);
	const double k = selectivity(c.n, c.rp, c.rs);
	dsym_real_mode(1);
	double u, v, n, d;
	any_frequency(u, v);
	prototype(kind, c.e0, c.e1, u, v, n, d);
	const double a = f.gain * f.gain * magnitude2(f.zeros, u, v), b = magnitude2(f.poles, u, v);
	dsym_assert(a <= (1 + TOL) * b, "gain not above one");
	const double low = (1 - c.rp) * (1 - c.rp) - TOL, high = c.rs * c.rs + TOL;
	// outside of the band, or within bounds
	dsym_assert(n > d || a >= low * b, "gain in the pass band");
	dsym_assert(n * (k * k) < d || a <= high * b, "gain in the stop band");
	// at the edges
	for (int i = 0; i < 2; ++i) {
		const double t = std::tan(PI / 2 * (kind >= PASS && i ? c.e1 : c.e0)), at = magnitude2(f.poles, t * t, 1);
		const double left = f.gain * f.gain * magnitude2(f.zeros, t * t, 1), right = (1 - c.rp) * (1 - c.rp) * at;
		dsym_assert(std::abs(left - right) <= 10 * TOL * at, "gain at the edge of the band");
	}
}

HARNESS C29_butterworth_lowpass() { butterworth(LOW); }
HARNESS C29_butterworth_highpass() { butterworth(HIGH); }
HARNESS C29_butterworth_bandpass() { butterworth(PASS); }
HARNESS C29_butterworth_bandstop() { butterworth(STOP); }
HARNESS C29_chebyshev_1_lowpass() { chebyshev_1(LOW); }
HARNESS C29_chebyshev_1_highpass() { chebyshev_1(HIGH); }
HARNESS C29_chebyshev_1_bandpass() { chebyshev_1(PASS); }
HARNESS C29_chebyshev_1_bandstop() { chebyshev_1(STOP); }
HARNESS C29_chebyshev_2_lowpass() { chebyshev_2(LOW); }
HARNESS C29_chebyshev_2_highpass() { chebyshev_2(HIGH); }
HARNESS C29_chebyshev_2_bandpass() { chebyshev_2(PASS); }
HARNESS C29_chebyshev_2_bandstop() { chebyshev_2(STOP); }
HARNESS C29_elliptic_lowpass() { elliptic(LOW); }
HARNESS C29_elliptic_highpass() { elliptic(HIGH); }
HARNESS C29_elliptic_bandpass() { elliptic(PASS); }
HARNESS C29_elliptic_bandstop() { elliptic(STOP); }
