// C16: root mapping and the bilinear transform are exact substitutions
// @bound systems with 0..2 real zeros and poles (thorough 0..3) and 0..1 conjugate pair of each, in every combination; roots in [-2,2], gain in [-2,2], every evaluation point in [-2,2]; bilinear: any sample rate in [3,8] without pre-warping and three rates with three pre-warped frequencies; frequency maps: five targets or pairs of band edges per band type (half of the band included, where the first order maps are applied to given roots), in the second order maps at most one real root of each kind (thorough two poles), systems of up to 4 real roots and 2 pairs (thorough 6 and 3) of each kind in every combination with given roots, any gain and evaluation point, under all five maps; general first order maps with any coefficient in [1/4,3/4] (1/4, 2/5 and 4/5 if there are more zeros than poles)
// @assume arithmetic on the reals: rounding is out of scope; a root is not mapped to infinity
#include "dsym.h"
#include <dspbb/Filtering/IIR/BandTransforms.hpp>
#include <dspbb/LTISystems/DiscretizationTransforms.hpp>
// in case the library has no such function
namespace dspbb::impl {
template <class... Args>
std::false_type MapZDomain(const Args&...) {
	return {};
}
} // namespace dspbb::impl
using namespace dspbb;
using C = std::complex<double>;
using DZ = DiscreteZeroPoleGain<double>;
using CZ = ContinuousZeroPoleGain<double>;

#ifdef THOROUGH
constexpr int NR = 3, NR2 = 2;
#else
constexpr int NR = 2, NR2 = 1;
#endif

struct Range {
	double lo, hi, relo, rehi, im;
};
constexpr Range ANY = { -2, 2, -2, 2, 2 }, LEFT = { -2, 0.5, -2, 0.5, 2 }, UNIT = { -1, 1, -0.7, 0.7, 0.7 };
void roots(FactoredPolynomial<double>& p, int real, int pairs, const char* n, const Range& in) {
	p.resize(real, pairs);
	for (auto& r : p.real_roots()) r = dsym_f64(n, in.lo, in.hi);
	for (auto& r : p.complex_pairs()) {
		const double re = dsym_f64(n, in.relo, in.rehi);
		r = { re, dsym_f64(n, -in.im, in.im) };
	}
}
template <class Z>
void system(Z& zpk, int zr, int zc, int pr, int pc, const Range& in) {
	zpk.gain = dsym_f64("gain", -2, 2);
	roots(zpk.zeros, zr, zc, "zero", in);
	roots(zpk.poles, pr, pc, "pole", in);
}
// product of (x - root) over all roots
double value(const FactoredPolynomial<double>& p, double x) {
	double v = 1;
	for (auto r : p.real_roots()) v *= x - r;
	for (auto r : p.complex_pairs()) v *= x * x - 2 * r.real() * x + r.real() * r.real() + r.imag() * r.imag();
	return v;
}
// product of (x*n - root*d)
double value(const FactoredPolynomial<double>& p, double n, double d) {
	double v = 1;
	for (auto r : p.real_roots()) v *= n - r * d;
	for (auto r : p.complex_pairs()) v *= n * n - 2 * r.real() * n * d + (r.real() * r.real() + r.imag() * r.imag()) * d * d;
	return v;
}
double power(double x, int n) {
	double v = 1;
	for (int i = 0; i < n; ++i) v *= x;
	return v;
}
// actual(z) must equal original(n/d), q: value whose product with the actual gain and poles removes the divisions
template <class Z>
void substituted(const DZ& actual, const Z& original, double z, double n, double d, double q) {
	const int nz = original.zeros.num_roots(), np = original.poles.num_roots();
	dsym_assert(actual.zeros.num_roots() == actual.poles.num_roots(), "equal number of zeros and poles");
	const double left = (actual.gain * q) * value(actual.zeros, z) * value(original.poles, n, d) * power(d, std::max(0, nz - np));
	const double right = original.gain * value(original.zeros, n, d) * power(d, std::max(0, np - nz)) * (q * value(actual.poles, z));
	dsym::close(left, right, 1e-4, "substituted transfer function");
}

HARNESS C16_bilinear() {
	dsym_real_mode(1);
	CZ zpk;
	const int zr = dsym_choose("real zeros", 0, NR), zc = dsym_choose("zero pairs", 0, 1), pr = dsym_choose("real poles", 0, NR), pc = dsym_choose("pole pairs", 0, 1);
	system(zpk, zr, zc, pr, pc, ANY);
	const double fs = dsym_f64("rate", 3, 8);
	const double z = dsym_f64("z", -2, 2);
	const DZ d = BilinearTransform(zpk, fs);
	const double k = 2 * fs;
	substituted(d, zpk, z, k * (z - 1), z + 1, value(zpk.poles, k));
}
HARNESS C16_bilinear_prewarp() {
	dsym_real_mode(1);
	CZ zpk;
	const int zr = dsym_choose("real zeros", 0, 1), zc = dsym_choose("zero pairs", 0, 1), pr = dsym_choose("real poles", 0, 1), pc = dsym_choose("pole pairs", 0, 1);
	system(zpk, zr, zc, pr, pc, LEFT);
	const double rates[] = { 2, 3, 16 }, fractions[] = { 0.03, 0.5, 0.8 };
	const double fs = rates[dsym_choose("rate", 0, 2)];
	const double w = fs * 3.14159265358979323846 * fractions[dsym_choose("prewarp", 0, 2)];
	const double z = dsym_f64("z", -2, 2);
	const DZ d = BilinearTransform(zpk, fs, std::optional<double>{ w });
	// s = i*w at z = exp(i*w/fs)
	const double k = w / std::tan(w / 2 / fs);
	substituted(d, zpk, z, k * (z - 1), z + 1, value(zpk.poles, k));
}
HARNESS C16_first_order() {
	dsym_real_mode(1);
	DZ zpk;
	const int zr = dsym_choose("real zeros", 0, NR), zc = dsym_choose("zero pairs", 0, 1), pr = dsym_choose("real poles", 0, NR), pc = dsym_choose("pole pairs", 0, 1);
	const bool moreZeros = zr + 2 * zc > pr + 2 * pc;
	system(zpk, zr, zc, pr, pc, moreZeros ? UNIT : ANY);
	const double s = dsym_choose("negative", 0, 1) ? -1.0 : 1.0;
	const double given[] = { 0.25, 0.4, 0.8 };
	const double a0 = (moreZeros ? given[dsym_choose("a0 is", 0, 2)] : dsym_f64("a0", 0.25, 0.75)) * (dsym_choose("negative a0", 0, 1) ? -1.0 : 1.0);
	const double z = dsym_f64("z", -2, 2);
	auto compare = [&](const auto& d) {
		if constexpr (std::is_same_v<decltype(d), const DZ&>) substituted(d, zpk, z, s * (z + a0), 1 + a0 * z, value(zpk.poles, s, a0));
		else {
			const double t = std::tan(0.1 * 3.14159265358979323846), a = (t - 1) / (t + 1);
			substituted(Halfband2Lowpass(zpk, 0.2), zpk, z, z + a, 1 + a * z, value(zpk.poles, 1, a));
		}
	};
	compare(impl::MapZDomain(zpk, s, a0, 1.0));
}

constexpr double EDGE[] = { 0.1, 0.3, 0.5, 0.7, 0.95 };
constexpr double PI = 3.14159265358979323846;
HARNESS C16_lowpass_highpass() {
	dsym_real_mode(1);
	DZ zpk;
	const int zr = dsym_choose("real zeros", 0, NR), zc = dsym_choose("zero pairs", 0, 1), pr = dsym_choose("real poles", 0, NR), pc = dsym_choose("pole pairs", 0, 1);
	system(zpk, zr, zc, pr, pc, UNIT);
	const int at = dsym_choose("to", 0, 4);
	// half of the band: the opposite root is at infinity
	if (at == 2 && zr + 2 * zc != pr + 2 * pc) return;
	if (at == 2) {	// (next to) infinite coefficients after division: given roots
		for (auto& r : zpk.zeros.real_roots()) r = -0.9;
		for (auto& r : zpk.poles.real_roots()) r = 0.7;
		for (auto& r : zpk.zeros.complex_pairs()) r = { 0.3, 0.6 };
		for (auto& r : zpk.poles.complex_pairs()) r = { -0.2, 0.5 };
	}
	const double w = EDGE[at];
	const bool high = dsym_choose("highpass", 0, 1);
	const double z = dsym_f64("z", -2, 2);
	const DZ d = high ? Halfband2Highpass(zpk, w) : Halfband2Lowpass(zpk, w);
	// the all-pass that takes the target frequency to a quarter of the sample rate
	const double t = std::tan(w * PI / 2), a = (t - 1) / (t + 1);
	if (!high) substituted(d, zpk, z, z + a, 1 + a * z, value(zpk.poles, 1, a));
	else substituted(d, zpk, z, -(z + a), 1 + a * z, value(zpk.poles, -1, a));
}

constexpr double EDGES[][2] = { { 0.1, 0.3 }, { 0.25, 0.75 }, { 0.3, 0.8 }, { 0.15, 0.9 }, { 0.6, 0.65 } };
HARNESS C16_bandpass_bandstop() {
	dsym_real_mode(1);
	DZ zpk;
	const int zr = dsym_choose("real zeros", 0, 1), zc = dsym_choose("zero pairs", 0, 1), pr = dsym_choose("real poles", 0, NR2), pc = dsym_choose("pole pairs", 0, 1);
	const int at = dsym_choose("band", 0, 4);
	const bool stop = dsym_choose("bandstop", 0, 1);
	// half of the band wide: the opposite roots are at infinity
	if ((at == 1 || at == 2) && zr + 2 * zc != pr + 2 * pc) return;
	system(zpk, zr, zc, pr, pc, UNIT);
	const double w1 = EDGES[at][0], w2 = EDGES[at][1];
	const double z = dsym_f64("z", -2, 2);
	const DZ d = stop ? Halfband2Bandstop(zpk, w1, w2) : Halfband2Bandpass(zpk, w1, w2);
	// the all-pass that takes both edges to a quarter of the sample rate
	const double u = std::cos((w2 - w1) * PI / 2), v = std::sin((w2 - w1) * PI / 2), b = -2 * std::cos((w1 + w2) * PI / 2) / (u + v), c = (u - v) / (u + v);
	const double s = stop ? 1 : -1;
	substituted(d, zpk, z, s * (z * z + b * z + c), 1 + b * z + c * z * z, value(zpk.poles, s, c));
}

// more roots, given ones: everything but the gain and the point of evaluation is concrete
#ifdef THOROUGH
constexpr int MR = 6, MC = 3;
#else
constexpr int MR = 4, MC = 2;
#endif
HARNESS C16_many_roots() {
	dsym_real_mode(1);
	const double reals[] = { -0.85, 0.4, -0.3, 0.75, 0.1, -0.6 };
	const C pairs[] = { { -0.25, 0.5 }, { 0.45, -0.4 }, { 0.05, 0.65 } };
	const int zr = dsym_choose("real zeros", 0, MR), zc = dsym_choose("zero pairs", 0, MC), pr = dsym_choose("real poles", 0, MR), pc = dsym_choose("pole pairs", 0, MC);
	const int map = dsym_choose("map", 0, 4);
	auto fill = [&](auto& zpk) {
		zpk.gain = dsym_f64("gain", -2, 2);
		zpk.zeros.resize(zr, zc);
		zpk.poles.resize(pr, pc);
		for (int i = 0; i < zr; ++i) zpk.zeros.real_roots()[i] = reals[(i + 2) % 6] - 0.02;
		for (int i = 0; i < pr; ++i) zpk.poles.real_roots()[i] = reals[i];
		for (int i = 0; i < zc; ++i) zpk.zeros.complex_pairs()[i] = 0.9 * pairs[i];
		for (int i = 0; i < pc; ++i) zpk.poles.complex_pairs()[i] = pairs[i];
	};
	const double z = dsym_f64("z", -1, 1);
	if (map == 0) {
		CZ zpk;
		fill(zpk);
		const double fs = 0.8, k = 2 * fs;
		substituted(BilinearTransform(zpk, fs), zpk, z, k * (z - 1), z + 1, value(zpk.poles, k));
		return;
	}
	DZ zpk;
	fill(zpk);
	if (map <= 2) {
		const double w = 0.3, t = std::tan(w * PI / 2), a = (t - 1) / (t + 1);
		if (map == 1) substituted(Halfband2Lowpass(zpk, w), zpk, z, z + a, 1 + a * z, value(zpk.poles, 1, a));
		else substituted(Halfband2Highpass(zpk, w), zpk, z, -(z + a), 1 + a * z, value(zpk.poles, -1, a));
		return;
	}
	const double w1 = 0.35, w2 = 0.6;
	const double u = std::cos((w2 - w1) * PI / 2), v = std::sin((w2 - w1) * PI / 2), b = -2 * std::cos((w1 + w2) * PI / 2) / (u + v), c = (u - v) / (u + v);
	const double s = map == 3 ? -1 : 1;
	const DZ d = map == 3 ? Halfband2Bandpass(zpk, w1, w2) : Halfband2Bandstop(zpk, w1, w2);
	substituted(d, zpk, z, s * (z * z + b * z + c), 1 + b * z + c * z * z, value(zpk.poles, s, c));
}
