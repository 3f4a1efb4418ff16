// C21: rational-rate resampling evaluates the interpolated signal at the right instants
// @bound filters of 1..6 taps (thorough 1..9), 1..4 phases (thorough 1..5), inputs of 1..3 samples (thorough 1..4), eight input/output rate ratios from 1/7 to 3, six start points (full and central start included), every output length that fits (outputs of up to 12 samples) and every split into two calls; taps and samples any real numbers in [-16,16], real and complex
#include "dsym.h"
#include <dspbb/Filtering/Resample.hpp>
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
using namespace dspbb;
using Q = Rational<int64_t>;

#ifdef THOROUGH
constexpr int TAPS = 9, PHASES = 5, LEN = 4;
#else
constexpr int TAPS = 6, PHASES = 4, LEN = 3;
#endif
constexpr int64_t RATES[][2] = { { 1, 1 }, { 1, 2 }, { 2, 1 }, { 3, 2 }, { 2, 3 }, { 1, 7 }, { 7, 5 }, { 3, 1 } };
constexpr int64_t STARTS[][2] = { { 0, 1 }, { 1, 3 }, { 1, 2 }, { 1, 1 }, { 7, 4 }, { 3, 1 } };

template <class T>
Signal<T> values(int n, const char* name) {
	Signal<T> s(n);
	for (auto& x : s) x = dsym::In<T>::rval(name, 16);
	return s;
}
int64_t floorDiv(int64_t a, int64_t b) { return a / b - (a % b < 0); }

// sample n of the zero-stuffed input convolved with the scaled filter
template <class T, class S>
T interpolated(const Signal<T>& x, const Signal<S>& filter, int phases, int64_t n) {
	T sum(0);
	for (int i = 0; i < (int)x.size(); ++i) {
		const int64_t k = n - i * phases;
		if (k >= 0 && k < (int)filter.size()) sum += x[i] * filter[k];
	}
	return sum * S(phases);
}
// the signal at the input instant num/den (in input samples)
template <class T, class S>
T at(const Signal<T>& x, const Signal<S>& filter, int phases, int64_t num, int64_t den) {
	const int64_t n = floorDiv(num * phases, den), r = num * phases - n * den;
	return (interpolated(x, filter, phases, n) * S(den - r) + interpolated(x, filter, phases, n + 1) * S(r)) / S(den);
}

template <class T, class S>
void resample() {
	dsym_real_mode(1);
	const int taps = dsym_choose("taps", 1, TAPS), phases = dsym_choose("phases", 1, PHASES), len = dsym_choose("length", 1, LEN);
	const auto& r = RATES[dsym_choose("rate", 0, 7)];
	const auto filter = values<S>(taps, "tap");
	const auto x = values<T>(len, "x");
	const auto polyphase = PolyphaseDecompose(filter, phases);
	const Q rate{ r[0], r[1] };
	const int64_t full = len * phases + taps - 1, central = std::max(len * phases, taps) - std::min(len * phases, taps) + 1;
	const int form = dsym_choose("form", 0, 2);
	auto check = [&](const T& y, int64_t k, const Q& start, const char* id) {
		// (start + k) * rate
		dsym::close(y, at(x, filter, phases, (start.Numerator() + k * start.Denominator()) * r[0], start.Denominator() * r[1]), 1e-3, id);
	};
	if (form == 0) {
		const auto y = Resample(x, polyphase, rate, CONV_FULL);
		dsym_assert(int64_t(y.size()) == full * r[1] / (r[0] * phases), "full length");
		for (size_t k = 0; k < y.size() && k < 20; ++k) check(y[k], k, Q{ 0, 1 }, "full sample");
		return;
	}
	if (form == 1) {
		const auto y = Resample(x, polyphase, rate, CONV_CENTRAL);
		dsym_assert(int64_t(y.size()) == central * r[1] / (r[0] * phases), "central length");
		const Q start{ (std::min(taps, len * phases) - 1) * r[1], phases * r[0] };
		for (size_t k = 0; k < y.size() && k < 20; ++k) check(y[k], k, start, "central sample");
		return;
	}
	const auto& s = STARTS[dsym_choose("start", 0, 5)];
	const Q start{ s[0], s[1] };
	// start + count <= full / (rate * phases)
	const int64_t most = floorDiv(full * r[1] * s[1] - s[0] * r[0] * phases, r[0] * phases * s[1]);
	if (most < 0) return;
	const int count = std::min<int64_t>(most, 12);
	const int first = dsym_choose("first", 0, 12);
	if (first > count) return;
	Signal<T> y(count + 2, T(42));
	const auto resume = Resample(AsView(y).subsignal(1, first), x, polyphase, rate, start);
	// the resume point is the next instant
	const int64_t nextNum = (s[0] + first * s[1]) * r[0], nextDen = s[1] * r[1];
	const Q point = resume.startPoint;
	const int64_t pn = point.Numerator() * r[0] + int64_t(resume.firstInputSample) * point.Denominator() * r[1], pd = point.Denominator() * r[1];
	dsym_assert(pn * nextDen == nextNum * pd, "next instant");
	dsym_assert(resume.firstInputSample <= size_t(len), "first input sample");
	const auto rest = AsView(x).subsignal(resume.firstInputSample);
	if (first < count) Resample(AsView(y).subsignal(1 + first, count - first), rest, polyphase, rate, resume.startPoint);
	for (int k = 0; k < count; ++k) check(y[1 + k], k, start, k < first ? "resampled sample" : "continued sample");
	dsym::same(y[0], T(42), "before output");
	dsym::same(y[count + 1], T(42), "after output");
}
HARNESS C21_resample_double() { resample<double, double>(); }
HARNESS C21_resample_complex() { resample<std::complex<float>, float>(); }

HARNESS C21_quantities() {
	const int taps = dsym_choose("taps", 1, 12), phases = dsym_choose("phases", 1, 6), len = dsym_choose("length", 1, 6);
	const auto& r = RATES[dsym_choose("rate", 0, 7)];
	const Q rate{ r[0], r[1] };
	const int64_t full = len * phases + taps - 1, central = std::max(len * phases, taps) - std::min(len * phases, taps) + 1;
	auto is = [](const Q& q, int64_t n, int64_t d, const char* id) { dsym_assert(q.Numerator() * d == n * q.Denominator() && q.Denominator() > 0, id); };
	is(ResampleLength(len, taps, phases, rate, CONV_FULL), full * r[1], phases * r[0], "full length");
	is(ResampleLength(len, taps, phases, rate, CONV_CENTRAL), central * r[1], phases * r[0], "central length");
	is(ResampleDelay(taps, phases, rate), (taps - 1) * r[1], 2 * phases * r[0], "delay");
	dsym::close(ResampleFilterCutoff(rate, phases), std::min(1.0, double(r[1]) / r[0]) / phases, 1e-12, "cutoff");
	dsym::close(InterpolFilterCutoff(phases), 1.0 / phases, 1e-12, "interpolation cutoff");
}
