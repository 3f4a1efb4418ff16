// C20: polyphase interpolation equals expansion followed by filtering, from any resume point
// @bound filters of 1..9 taps (thorough 1..14), 1..4 phases (thorough 1..6) including more phases than taps, inputs of 0..4 samples (thorough 0..6), every offset and length within the full result, every split into two calls; taps and samples any integers in [-16,16] (so that sums are exact), real and complex; histories of 3 (thorough 4) assignments, moves, copies and writes of two polyphase filters of five shapes
#include "dsym.h"
#include <dspbb/Filtering/Resample.hpp>
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
using namespace dspbb;

#ifdef THOROUGH
constexpr int TAPS = 14, PHASES = 6, LEN = 6, STEPS = 4;
#else
constexpr int TAPS = 9, PHASES = 4, LEN = 4, STEPS = 3;
#endif
template <class T>
Signal<T> values(int n, const char* name) {
	Signal<T> s(n);
	for (auto& x : s) x = dsym::In<T>::ival(name, 16);
	return s;
}

template <class T>
void decompose() {
	const int taps = dsym_choose("taps", 1, TAPS + 4), phases = dsym_choose("phases", 1, PHASES + 2);
	const auto filter = values<T>(taps, "tap");
	Signal<T> buffer(taps + 2, T(42));
	const int form = dsym_choose("form", 0, 1);
	PolyphaseFilter<T, eSignalDomain::TIME> owned;
	if (form == 0) {
		owned = PolyphaseDecompose(filter, phases);
		dsym_assert(owned.Buffer().size() == size_t(taps), "size of buffer");
	}
	PolyphaseView<T, eSignalDomain::TIME> view = owned;
	if (form == 1) {
		view = PolyphaseDecompose(AsView(buffer).subsignal(1, taps), AsConstView(filter), phases);
		dsym::same(buffer[0], T(42), "before buffer");
		dsym::same(buffer[taps + 1], T(42), "after buffer");
	}
	dsym_assert(view.num_phases() == size_t(phases) && view.size_original() == size_t(taps), "shape");
	dsym_assert(view.size_per_phase() == size_t((taps + phases - 1) / phases), "size per phase");
	size_t total = 0;
	for (int p = 0; p < phases; ++p) {
		const auto phase = view[p];
		total += phase.size();
		size_t expected = 0;
		for (int i = p; i < taps; i += phases) ++expected;
		dsym_assert(phase.size() == expected, "size of phase");
		// the taps of a phase are reversed
		for (size_t i = 0; i < expected; ++i) dsym::same(phase[expected - 1 - i], T(filter[p + i * phases] * T(phases)), "tap of phase");
	}
	dsym_assert(total == size_t(taps), "number of taps");
	// copies own their taps
	auto copy = owned;
	auto moved = std::move(owned);
	if (form == 0) {
		for (auto& t : copy.Buffer()) t = T(7);
		for (int p = 0; p < phases; ++p)
			for (size_t i = 0; i < moved[p].size(); ++i) dsym::same(moved[p][moved[p].size() - 1 - i], T(filter[p + i * phases] * T(phases)), "moved filter");
		for (int p = 0; p < phases; ++p)
			for (size_t i = 0; i < copy[p].size(); ++i) dsym::same(copy[p][i], T(7), "written copy");
	}
}
// polyphase filters are values: whatever was assigned, moved and written before
template <class T>
void history() {
	struct Model {
		Signal<T> taps;
		int phases = 1;
	} model[2];
	using Filter = PolyphaseFilter<T, eSignalDomain::TIME>;
	Filter real[2];
	for (int step = 0; step < STEPS; ++step) {
		const int op = dsym_choose("op", 0, 4), i = dsym_choose("which", 0, 1), j = 1 - i;
		switch (op) {
			case 0: {
				static const int shapes[][2] = { { 0, 1 }, { 5, 2 }, { 5, 3 }, { 3, 5 }, { 4, 1 } };
				const int* shape = shapes[dsym_choose("shape", 0, 4)];
				model[i].taps = values<T>(shape[0], "tap");
				model[i].phases = shape[1];
				real[i] = Filter(shape[0], shape[1]);
				for (int k = 0; k < shape[0]; ++k) real[i].Buffer()[k] = model[i].taps[k];
				break;
			}
			case 1:
				real[i] = real[j];
				model[i] = model[j];
				break;
			case 2:
				real[i] = std::move(real[j]);
				model[i] = model[j];
				model[j] = {};
				break;
			case 3: {
				Filter copy(real[i]);
				for (auto& t : real[i].Buffer()) t = T(3);
				for (size_t k = 0; k < copy.Buffer().size(); ++k) dsym::same(copy.Buffer()[k], model[i].taps[k], "copy");
				dsym_assert(copy.num_phases() == size_t(model[i].phases), "phases of copy");
				real[i] = copy;
				break;
			}
			default: {
				Filter moved(std::move(real[i]));
				dsym_assert(moved.num_phases() == size_t(model[i].phases), "phases of moved");
				for (auto& t : moved.Buffer()) t = -t;
				for (auto& t : model[i].taps) t = -t;
				real[i] = std::move(moved);
			}
		}
	}
	for (int i = 0; i < 2; ++i) {
		const Filter& f = real[i];
		const size_t n = model[i].taps.size(), phases = model[i].phases;
		dsym_assert(f.num_phases() == phases && f.size_original() == n && f.Buffer().size() == n, "shape");
		size_t k = 0;
		for (size_t p = 0; p < phases; ++p) {
			dsym_assert(f[p].size() == n / phases + (p < n % phases), "size of phase");
			for (auto x : f[p]) {
				dsym_assert(k < n, "number of taps");
				dsym::same(x, model[i].taps[k], "tap");
				++k;
			}
		}
	}
}
HARNESS C20_history() { history<float>(); }
HARNESS C20_decompose_float() { decompose<float>(); }
HARNESS C20_decompose_double() { decompose<double>(); }

// sample n of the zero-stuffed input convolved with the scaled filter
template <class T, class S>
auto sample(const Signal<T>& x, const Signal<S>& filter, int phases, int n) {
	using R = decltype(T() * S());
	R sum(0);
	for (int i = 0; i < (int)x.size(); ++i) {
		const int k = n - i * phases;
		if (k >= 0 && k < (int)filter.size()) sum += x[i] * filter[k];
	}
	return sum * S(phases);
}

template <class T, class S>
void interpolate() {
	const int taps = dsym_choose("taps", 1, TAPS), phases = dsym_choose("phases", 1, PHASES), len = dsym_choose("length", 0, LEN);
	const int full = len ? len * phases + taps - 1 : 0;
	dsym_assert(int(InterpolLength(len, taps, phases, CONV_FULL)) == full, "full length");
	if (len) dsym_assert(int(InterpolLength(len, taps, phases, CONV_CENTRAL)) == std::max(len * phases, taps) - std::min(len * phases, taps) + 1, "central length");
	const auto filter = values<S>(taps, "tap");
	const auto x = values<T>(len, "x");
	const auto polyphase = PolyphaseDecompose(filter, phases);
	using R = decltype(T() * S());
	const int offset = dsym_choose("offset", 0, full), count = full - offset;
	if (dsym_choose("form", 0, 1)) {
		const auto y = Interpolate(x, polyphase, offset, count);
		dsym_assert(y.size() == size_t(count), "interpolated length");
		for (int i = 0; i < count; ++i) dsym::same(y[i], R(sample(x, filter, phases, offset + i)), "returned sample");
		return;
	}
	// in two calls, the second one with the input it asks for
	const int first = dsym_choose("first", 0, count);
	Signal<R> y(count + 2, R(42));
	const auto resume = Interpolate(AsView(y).subsignal(1, first), x, polyphase, offset);
	dsym_assert(resume.firstInputSample <= size_t(len), "first input sample");
	dsym_assert(resume.startPoint + resume.firstInputSample * phases == size_t(offset + first), "start point");
	const auto rest = AsView(x).subsignal(resume.firstInputSample);
	if (count > first) Interpolate(AsView(y).subsignal(1 + first, count - first), rest, polyphase, resume.startPoint);
	for (int i = 0; i < count; ++i) dsym::same(y[1 + i], R(sample(x, filter, phases, offset + i)), "interpolated sample");
	dsym::same(y[0], R(42), "before output");
	dsym::same(y[count + 1], R(42), "after output");
}
HARNESS C20_interpolate_float() { interpolate<float, float>(); }
HARNESS C20_interpolate_complex() { interpolate<std::complex<double>, double>(); }
