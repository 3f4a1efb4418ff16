// C31: measuring filters
// @bound frequency responses of impulse responses of 1..5 taps on grids of 1..9 points (default grid: 1..2 taps) and of transfer functions, zero-pole-gain systems and cascaded biquads up to order 2 on grids of 1..6 points and the default, any coefficients in [-8,8], exact arithmetic; classification of any response of 0..5 bins (thorough 6) with values in [0,1.5]; ripples and edges of 2 and 3 band responses with 1..6 bins per band (thorough 7), any values in [0,0.25] and [0.75,1.25]
// @assume the least squares fit of a band edge (Bisect on the error function) returns any value of its search interval; the response is not exactly zero where its phase is compared
#include "dsym.h"
#include "xsimd_stub.h"
#include <dspbb/Math/Solvers.hpp>
#include <stdexcept>
namespace dspbb {
template <class Func, class T>
T dsym_bisect(Func func, T a, T b) {
	if (!dsym_is_engine()) return Bisect(func, a, b);
	if constexpr (sizeof(T) == 4) return dsym_f32("fit", a < b ? a : b, a < b ? b : a);
	else return dsym_f64("fit", a < b ? a : b, a < b ? b : a);
}
}  // namespace dspbb
#define Bisect dsym_bisect
#include <dspbb/Filtering/MeasureFilter.hpp>
#undef Bisect
using namespace dspbb;
#ifdef THOROUGH
constexpr int BINS = 6, BAND = 7;
#else
constexpr int BINS = 5, BAND = 6;
#endif
template <class T>
T real(const char* n, double lo, double hi) {
	if constexpr (std::is_same_v<T, float>) return dsym_f32(n, lo, hi);
	else return dsym_f64(n, lo, hi);
}
const double PI = 3.14159265358979323846;

// amplitude and phase are those of re + j im
template <class T>
void polar(T amplitude, T phase, T re, T im) {
	dsym_assert(amplitude >= T(0), "amplitude is not negative");
	dsym::alike(T(amplitude * amplitude), T(re * re + im * im), "amplitude");
	dsym::alike(T(amplitude * std::cos(phase)), re, "phase, real part");
	dsym::alike(T(amplitude * std::sin(phase)), im, "phase, imaginary part");
}
template <class T>
void impulseResponse() {
	dsym_real_mode(1);
	const int taps = dsym_choose("taps", 1, 5), grid = dsym_choose("grid", 0, 9);
	if (grid == 0 && taps > 2) return;
	Signal<T> h(taps);
	for (auto& v : h) v = real<T>("tap", 1, 8);
	const auto [amplitude, phase] = dsym_choose("view", 0, 1) ? FrequencyResponse(AsConstView(h), grid) : FrequencyResponse(h, grid);
	const int g = grid ? grid : 10 * taps, padded = std::max(taps, 2 * g - 1);
	if (taps <= 2 * g - 1) dsym_assert(amplitude.size() == size_t(g), "size of the grid");
	dsym_assert(amplitude.size() == size_t(padded / 2 + 1) && phase.size() == amplitude.size(), "size");
	for (size_t k = 0; k < amplitude.size(); ++k) {
		T re = 0, im = 0;
		for (int n = 0; n < taps; ++n) {
			re += h[n] * T(std::cos(2 * PI * n * k / padded));
			im -= h[n] * T(std::sin(2 * PI * n * k / padded));
		}
		polar(amplitude[k], phase[k], re, im);
	}
}
template <class T>
void system(int which) {
	dsym_real_mode(1);
	const int grid = dsym_choose("grid", 0, 6);
	const T gain = real<T>("gain", 0.5, 8), a = real<T>("a", 0.5, 8), b = real<T>("b", 0.5, 8);
	const int order = dsym_choose("order", 0, 2);
	std::pair<Spectrum<T>, Spectrum<T>> response;
	using C = std::complex<T>;
	// numerator and denominator at a point of the unit circle
	auto value = [&](C z) -> C {
		const C num = which == 0 ? (order == 0 ? C(gain) : order == 1 ? gain + a * z : gain + a * z + b * z * z) : order == 0 ? C(gain) : order == 1 ? gain * (z - a) : gain * (z * z - T(2) * a * z + (a * a + b * b));
		const C den = order == 0 ? C(1) : order == 1 ? z - T(0.5) : z * z - T(0.5) * z + T(0.3125);
		return num / den;
	};
	if (which == 0) {
		DiscreteTransferFunction<T> tf;
		tf.numerator = order == 0 ? Polynomial<T>{ gain } : order == 1 ? Polynomial<T>{ gain, a } : Polynomial<T>{ gain, a, b };
		tf.denominator = order == 0 ? Polynomial<T>{ T(1) } : order == 1 ? Polynomial<T>{ T(-0.5), T(1) } : Polynomial<T>{ T(0.3125), T(-0.5), T(1) };
		response = FrequencyResponse(tf, grid);
	}
	else {
		DiscreteZeroPoleGain<T> zpk;
		zpk.gain = gain;
		if (order == 1) zpk.zeros = FactoredPolynomial<T>{ a }, zpk.poles = FactoredPolynomial<T>{ T(0.5) };
		if (order == 2) zpk.zeros = FactoredPolynomial<T>{ C(a, b), C(a, -b) }, zpk.poles = FactoredPolynomial<T>{ C(T(0.25), T(0.5)), C(T(0.25), T(-0.5)) };
		response = which == 1 ? FrequencyResponse(zpk, grid) : FrequencyResponse(CascadedBiquad<T>{ zpk }, grid);
	}
	const size_t g = grid ? grid : (1 + order) * 20;
	dsym_assert(response.first.size() == g && response.second.size() == g, "size of the grid");
	for (size_t k = 0; k < g; ++k) {
		const double w = g > 1 ? PI * k / (g - 1) : 0;
		const C e = value(C(T(std::cos(w)), T(std::sin(w))));
		// (real values are compared by amplitude alone: the sign of a rounded zero is not determined)
		const bool onAxis = std::fabs(std::sin(w)) < 1e-6 || order == 0;
		dsym_assert(response.first[k] >= T(0), "amplitude is not negative");
		dsym::alike(T(response.first[k] * response.first[k]), T(e.real() * e.real() + e.imag() * e.imag()), "amplitude");
		if (onAxis) continue;
		dsym::alike(T(response.first[k] * std::cos(response.second[k])), e.real(), "phase, real part");
		dsym::alike(T(response.first[k] * std::sin(response.second[k])), e.imag(), "phase, imaginary part");
	}
}
template <class F>
void only(bool right, F measure) {
	if (right) {
		measure();
		return;
	}
	dsym_reject_begin("another kind of filter");
	measure();
	dsym_reject_end();
}
// the sequence of bands by hysteresis around one half
template <class T>
std::vector<int> bandSequence(const Spectrum<T>& y) {
	std::vector<int> bands;
	for (auto v : y) {
		if (bands.empty()) bands.push_back(v > T(0.5));
		else if (bands.back() && !(v > T(0.5) - T(0.0005))) bands.push_back(false);
		else if (!bands.back() && v > T(0.5) + T(0.0005)) bands.push_back(true);
	}
	return bands;
}
template <class T>
void classify() {
	const int n = dsym_choose("bins", 0, BINS), which = dsym_choose("which", 0, 4);
	Spectrum<T> y(n);
	for (auto& v : y) v = real<T>("response", 0, 1.5);
	const auto bands = bandSequence(y);
	// alternating bands: the first one and their number say it all
	const int count = (int)bands.size();
	const int kind = count == 2 ? (bands[0] ? 1 : 2) : count == 3 ? (bands[0] ? 4 : 3) : 0;
	switch (which) {
		case 0: dsym_assert(int(MeasureFilter(y).index()) == kind, "kind of filter"); break;
		case 1: only(kind == 1, [&] { MeasureLowpassFilter(y); }); break;
		case 2: only(kind == 2, [&] { MeasureHighpassFilter(y); }); break;
		case 3: only(kind == 3, [&] { MeasureBandpassFilter(y); }); break;
		case 4: only(kind == 4, [&] { MeasureBandstopFilter(y); }); break;
	}
}
// largest distance from the ideal at extrema of five bins within a band
template <class T>
T rippleOf(const Spectrum<T>& y, int first, int last, bool pass) {
	T ripple = 0;
	for (int c = first + 2; c + 2 < last; ++c) {
		bool least = true, greatest = true;
		for (int k = c - 2; k <= c + 2; ++k) {
			least = least && y[c] <= y[k];
			greatest = greatest && y[c] >= y[k];
		}
		if (least || greatest) ripple = std::max(ripple, std::abs(T(pass) - y[c]));
	}
	return ripple;
}
template <class T>
void parameters(bool three) {
	const bool pass = dsym_choose("pass", 0, 1), generic = dsym_choose("generic", 0, 1);
	const int measured = three ? 1 : dsym_choose("band", 0, 1);
	int first[4] = { 0 };
	for (int b = 0; b < (three ? 3 : 2); ++b) first[b + 1] = first[b] + (b == measured ? dsym_choose("width", 1, BAND) : dsym_choose("other width", 1, 2));
	const int n = first[three ? 3 : 2];
	Spectrum<T> y(n);
	auto isPass = [&](int b) { return pass != (b == 1); };
	for (int b = 0; b < (three ? 3 : 2); ++b)
		for (int i = first[b]; i < first[b + 1]; ++i) y[i] = b == measured ? (isPass(b) ? real<T>("pass", 0.75, 1.25) : real<T>("stop", 0, 0.25)) : T(isPass(b));
	T ripple[3] = {}, edge[4] = {};
	auto two = [&](T e0, T e1, T r0, T r1) {
		edge[0] = e0, edge[1] = e1, ripple[0] = r0, ripple[1] = r1;
	};
	auto more = [&](T e0, T e1, T e2, T e3, T r0, T r1, T r2) {
		edge[0] = e0, edge[1] = e1, edge[2] = e2, edge[3] = e3, ripple[0] = r0, ripple[1] = r1, ripple[2] = r2;
	};
	if (!three) {
		if (pass) {
			const auto p = generic ? std::get<LowpassParameters<T>>(MeasureFilter(y)) : MeasureLowpassFilter(y);
			two(p.passbandEdge, p.stopbandEdge, p.passbandRipple, p.stopbandAtten);
		}
		else {
			const auto p = generic ? std::get<HighpassParameters<T>>(MeasureFilter(y)) : MeasureHighpassFilter(y);
			two(p.stopbandEdge, p.passbandEdge, p.stopbandAtten, p.passbandRipple);
		}
	}
	else {
		if (pass) {
			const auto p = generic ? std::get<BandstopParameters<T>>(MeasureFilter(y)) : MeasureBandstopFilter(y);
			more(p.lowerPassbandEdge, p.stopbandLowerEdge, p.stopbandUpperEdge, p.upperPassbandEdge, p.lowerPassbandRipple, p.stopbandAtten, p.upperPassbandRipple);
		}
		else {
			const auto p = generic ? std::get<BandpassParameters<T>>(MeasureFilter(y)) : MeasureBandpassFilter(y);
			more(p.lowerStopbandEdge, p.passbandLowerEdge, p.passbandUpperEdge, p.upperStopbandEdge, p.lowerStopbandAtten, p.passbandRipple, p.upperStopbandAtten);
		}
	}
	for (int b = 0; b < (three ? 3 : 2); ++b) dsym::close(ripple[b], rippleOf(y, first[b], first[b + 1], isPass(b)), 1e-6, "ripple");
	// every edge lies in its band
	const T eps = 1e-6;
	for (int e = 0; e < (three ? 4 : 2); ++e) {
		const int b = (e + 1) / 2;
		dsym_assert(edge[e] >= T(first[b]) / T(n) - eps, "edge is not below its band");
		dsym_assert(edge[e] <= T(first[b + 1]) / T(n) + eps, "edge is not above its band");
	}
}
HARNESS C31_impulse_f32() { impulseResponse<float>(); }
HARNESS C31_impulse_f64() { impulseResponse<double>(); }
HARNESS C31_tf_f64() { system<double>(0); }
HARNESS C31_zpk_f64() { system<double>(1); }
HARNESS C31_zpk_f32() { system<float>(1); }
HARNESS C31_biquad_f64() { system<double>(2); }
HARNESS C31_classify_f64() { classify<double>(); }
HARNESS C31_twoBands_f64() { parameters<double>(false); }
HARNESS C31_threeBands_f64() { parameters<double>(true); }
