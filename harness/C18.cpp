// C18: spectrum shifts are mutual inverses and bins map to the right frequencies
// @bound shifts of 0..17 elements (thorough 0..40) of any value, of signals and views, out-of-place, in-place on the same object and in-place through different views; bins: lengths 1..33 (thorough 1..100), every bin, seven sample rates from 1 to 4*10^9, every frequency in a bin's interval except the 10^-9 parts next to its ends
#include "dsym.h"
#include <dspbb/Math/FFT.hpp>
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
using namespace dspbb;
using C = std::complex<float>;

#ifdef THOROUGH
constexpr int N = 40, BINS = 100;
#else
constexpr int N = 17, BINS = 33;
#endif
template <class T>
void fill(T& s, const char* name) {
	using V = std::decay_t<decltype(s[0])>;
	for (auto& v : s) v = dsym::In<V>::any(name);
}
template <class V, class S>
void shifted(const S& out, const std::vector<V>& in, size_t first, const char* id) {
	dsym_assert(out.size() == in.size(), "size");
	for (size_t i = 0; i < in.size(); ++i) dsym::same(V(out[i]), in[(i + first) % in.size()], id);
}

template <class V>
void shift() {
	const int n = dsym_choose("length", 0, N);
	Spectrum<V> in(n);
	fill(in, "in");
	const std::vector<V> values(in.begin(), in.end());
	// the zero frequency moves to element n/2
	const size_t fwd = n - n / 2, bwd = n / 2;
	switch (dsym_choose("form", 0, 5)) {
		case 0: {
			const auto a = FftShift(in), b = IfftShift(in);
			shifted(a, values, fwd, "shift");
			shifted(b, values, bwd, "inverse shift");
			shifted(IfftShift(a), values, 0, "inverse after shift");
			shifted(FftShift(b), values, 0, "shift after inverse");
			break;
		}
		case 1: {
			Spectrum<V> out(n), out2(n);
			FftShift(out, in);
			IfftShift(out2, in);
			shifted(out, values, fwd, "shift to output");
			shifted(out2, values, bwd, "inverse shift to output");
			break;
		}
		case 2: {
			FftShift(in, in);
			shifted(in, values, fwd, "shift in place");
			IfftShift(in, in);
			shifted(in, values, 0, "inverse in place");
			IfftShift(in, in);
			shifted(in, values, bwd, "inverse shift in place");
			return;
		}
		case 3: {
			FftShift(AsView(in), AsView(in));
			shifted(in, values, fwd, "shift through views");
			IfftShift(AsView(in), in);
			shifted(in, values, 0, "inverse through a view");
			IfftShift(in, AsConstView(in));
			shifted(in, values, bwd, "inverse shift from a view");
			return;
		}
		case 4: {
			// a part of a larger buffer
			Spectrum<V> buffer(n + 2);
			fill(buffer, "buffer");
			const V before = buffer[0], after = buffer[n + 1];
			FftShift(AsView(buffer).subsignal(1, n), AsView(in));
			shifted(AsView(buffer).subsignal(1, n), values, fwd, "shift to part");
			dsym::same(V(buffer[0]), before, "before part");
			dsym::same(V(buffer[n + 1]), after, "after part");
			break;
		}
		default: {
			Spectrum<V> out(n + (dsym_choose("longer", 0, 1) || n == 0 ? 1 : -1));
			dsym_reject_begin("size mismatch accepted");
			if (dsym_choose("inverse", 0, 1)) IfftShift(out, in);
			else FftShift(out, in);
			dsym_reject_end();
			return;
		}
	}
	shifted(in, values, 0, "input unchanged");
}
HARNESS C18_shift_real() { shift<double>(); }
HARNESS C18_shift_complex() { shift<C>(); }

constexpr double RATES[] = { 1, 3, 8000, 44100, 48000, 1000003, 4e9, 192000001, 4503599627370497 };
HARNESS C18_bins() {
	const int n = dsym_choose("bins", 1, BINS), k = dsym_choose("bin", 0, BINS - 1);
	if (k >= n) return;
	const double rate = RATES[dsym_choose("rate", 0, 8)];
	const uint64_t fs = (uint64_t)rate;
	const double f = FourierBin2Frequency(k, n, fs);
	dsym::close(f, k * rate / n, rate * 1e-12, "frequency of bin");
	dsym_assert(FourierFrequency2Bin(f, n, fs) == size_t(k), "bin of frequency");
	if (k == 0) dsym::same(f, 0.0, "zero frequency");
}
void nearest(int first, int last) {
	const int n = dsym_choose("bins", 1, BINS), k = dsym_choose("bin", 0, BINS - 1);
	if (k >= n) return;
	const double rate = RATES[dsym_choose("rate", first, last)];
	// any frequency of the interval around the bin
	const double at = dsym_f64("position", k == 0 ? 0.0 : k - 0.5 + 1e-9, k + 0.5 - 1e-9);
	dsym_assert(FourierFrequency2Bin(at * rate / n, n, (uint64_t)rate) == size_t(k), "nearest bin");
}
HARNESS C18_nearest_low() { nearest(0, 1); }
HARNESS C18_nearest() { nearest(2, 8); }
