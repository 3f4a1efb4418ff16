// C23: windowed FIR design
// @bound 1..13 taps (odd; Hilbert also even up to 12; thorough 1..21), any window coefficients in [1/2,1] given as a signal or through a functor, symmetric or not, and the default Hamming window; any cutoff in [1/16,1], any band 0 <= lower < upper <= 1; arbitrary responses with any real or complex values in [-4,4] on the design grid; exact arithmetic
// @assume the window times the cardinal sine does not sum to zero (the normalisation is undefined)
#include "dsym.h"
#include <dspbb/Filtering/FIR.hpp>
#include <dspbb/Filtering/Resample.hpp>
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
using namespace dspbb;

#ifdef THOROUGH
constexpr int HALF = 10;
#else
constexpr int HALF = 6;
#endif
template <class T>
Signal<T> anyWindow(int n, bool symmetric) {
	Signal<T> w(n);
	for (int i = 0; i < n; ++i) w[i] = symmetric && i > n / 2 ? w[n - 1 - i] : T(dsym_f64("window", 0.5, 1));
	return w;
}
template <class T>
struct CopyWindow {
	const Signal<T>* w;
	template <class S, std::enable_if_t<is_mutable_signal_v<S>, int> = 0>
	void operator()(S&& out) const {
		dsym_assert(out.size() == w->size(), "size handed to the window function");
		for (size_t i = 0; i < out.size(); ++i) out[i] = (*w)[i];
	}
};
template <class T>
T real(const char* n, double lo, double hi) {
	if constexpr (std::is_same_v<T, float>) return dsym_f32(n, lo, hi);
	else return dsym_f64(n, lo, hi);
}
// the normalised window times the cardinal sine
template <class T>
std::vector<T> lowpassTaps(const Signal<T>& w, T cutoff) {
	const int n = (int)w.size(), c = n / 2;
	std::vector<T> h(n);
	T sum = 0;
	for (int i = 0; i < n; ++i) {
		const T x = T(i - c) * (cutoff * pi_v<T>);
		h[i] = i == c ? w[i] : w[i] * (std::sin(x) / x);
		sum += h[i];
	}
	for (auto& v : h) v *= T(1) / sum;
	return h;
}
template <class T, class D, class F>
void design(int n, const D& desc, F expected, int sign, bool dc) {
	const int form = dsym_choose("form", 0, 4);
	Signal<T> w(n);
	if (form < 4) w = anyWindow<T>(n, form >= 2);
	if (form == 4) HammingWindow(w);
	if (form == 4 && n == 1) return;
	Signal<T> out(n + 2, T(42));
	auto view = AsView(out).subsignal(1, n);
	if (form == 0 || form == 2) DesignFilter(view, desc.Window(w));
	if (form == 1 || form == 3) DesignFilter(view, desc.Window(CopyWindow<T>{ &w }));
	if (form == 4) DesignFilter(view, desc);
	dsym::same(out[0], T(42), "before filter");
	dsym::same(out[n + 1], T(42), "after filter");
	const auto want = expected(w);
	T sum = 0;
	for (int i = 0; i < n; ++i) {
		dsym::close(view[i], want[i], 1e-3, "tap");
		sum += view[i];
		if (form == 2 || form == 3) dsym::close(view[i], T(T(sign) * view[n - 1 - i]), 1e-3, "linear phase");
	}
	if (dc) dsym::close(sum, T(1), 1e-3, "unit gain at zero frequency");
}
template <class T>
void lowpass() {
	dsym_real_mode(1);
	const int n = 2 * dsym_choose("half", 0, HALF) + 1;
	const T cutoff = real<T>("cutoff", 1. / 16, 1);
	design<T>(n, Fir.Lowpass.Windowed.Cutoff(cutoff), [&](const Signal<T>& w) { return lowpassTaps(w, cutoff); }, 1, true);
}
template <class T>
void highpass() {
	dsym_real_mode(1);
	const int n = 2 * dsym_choose("half", 0, HALF) + 1;
	const T cutoff = real<T>("cutoff", 1. / 16, 1);
	design<T>(
		n, Fir.Highpass.Windowed.Cutoff(cutoff), [&](const Signal<T>& w) {
			auto h = lowpassTaps(w, cutoff);
			for (auto& v : h) v = -v;
			h[n / 2] += T(1);
			return h;
		},
		1, false);
}
template <class T>
void band(bool stop) {
	dsym_real_mode(1);
	const int n = 2 * dsym_choose("half", 0, HALF) + 1;
	const T lower = real<T>("lower", 0, 1), upper = real<T>("upper", 0, 1);
	dsym_assume(lower < upper);
	const auto expected = [&](const Signal<T>& w) {
		auto h = lowpassTaps(w, T((upper - lower) / T(2)));
		const T centre = (upper + lower) / T(2);
		for (int i = 0; i < n; ++i) h[i] *= T(2) * std::cos(T(i - n / 2) * (pi_v<T> * centre));
		if (stop) {
			for (auto& v : h) v = -v;
			h[n / 2] += T(1);
		}
		return h;
	};
	if (stop) design<T>(n, Fir.Bandstop.Windowed.Band(lower, upper), expected, 1, false);
	else design<T>(n, Fir.Bandpass.Windowed.Band(lower, upper), expected, 1, false);
}
template <class T>
void hilbert(int n) {
	dsym_real_mode(1);
	const int form = dsym_choose("form", 0, 4);
	const int m = n % 2 ? n : 2 * n - 1;
	Signal<T> w(m);
	if (form < 4) w = anyWindow<T>(m, form >= 2);
	if (form == 4) HammingWindow(w);
	if (form == 4 && m == 1) return;
	Signal<T> out(n, T(42));
	if (form == 0 || form == 2) DesignFilter(out, Fir.Hilbert.Windowed.Window(w));
	if (form == 1 || form == 3) DesignFilter(out, Fir.Hilbert.Windowed.Window(CopyWindow<T>{ &w }));
	if (form == 4) DesignFilter(out, Fir.Hilbert.Windowed);
	const auto h = lowpassTaps(w, T(0.5));
	for (int i = 0; i < n; ++i) {
		const int j = n % 2 ? i : 2 * i, k = (((j - m / 2) % 4) + 4) % 4;
		const T g = k == 1 ? T(2) : k == 3 ? T(-2) : T(0);
		dsym::close(out[i], T(g * h[j]), 1e-3, "Hilbert tap");
		if (form == 2 || form == 3) dsym::close(out[i], T(-out[n - 1 - i]), 1e-3, "anti-symmetry");
	}
}

template <class T, class V>
struct Response {
	int* calls;
	std::vector<V>* values;
	int bins;
	template <class F>
	V operator()(F f) const {
		const int k = (*calls)++;
		dsym_assert(k < bins, "evaluations of the response");
		dsym::close(T(f), T(bins > 1 ? double(k) / (bins - 1) : 0.), 1e-5, "frequency on the design grid");
		return (*values)[k];
	}
};
template <class T, class V>
void arbitrary() {
	dsym_real_mode(1);
	const int n = 2 * dsym_choose("half", 1, HALF) + 1, h = n / 2;
	const int form = dsym_choose("form", 0, 2);
	Signal<T> w(n);
	if (form < 2) w = anyWindow<T>(n, false);
	else HammingWindow(w);
	std::vector<V> r(h + 1);
	for (auto& v : r) v = dsym::In<V>::rval("response", 4);
	int calls = 0;
	const Response<T, V> response{ &calls, &r, h + 1 };
	Signal<T> out(n, T(42));
	if (form == 0) DesignFilter(out, Fir.Arbitrary.Windowed.Response(response).Window(w));
	if (form == 1) DesignFilter(out, Fir.Arbitrary.Windowed.Window(CopyWindow<T>{ &w }).Response(response));
	if (form == 2) DesignFilter(out, Fir.Arbitrary.Windowed.Response(response));
	dsym_assert(calls == h + 1, "number of evaluations");
	for (int i = 0; i < n; ++i) {
		T sum = std::real(r[0]);
		for (int j = 1; j <= h; ++j) {
			const double a = 2 * pi_v<double> * ((j * (i - h + n)) % n) / n;
			sum += T(2) * std::real(r[j]) * T(std::cos(a)) - T(2) * T(std::imag(r[j])) * T(std::sin(a));
		}
		dsym::close(out[i], T(w[i] * sum / T(n)), 1e-3, "tap");
	}
}
HARNESS C23_lowpass_float() { lowpass<float>(); }
HARNESS C23_lowpass_double() { lowpass<double>(); }
HARNESS C23_highpass_float() { highpass<float>(); }
HARNESS C23_highpass_double() { highpass<double>(); }
HARNESS C23_bandpass_float() { band<float>(false); }
HARNESS C23_bandpass_double() { band<double>(false); }
HARNESS C23_bandstop_float() { band<float>(true); }
HARNESS C23_bandstop_double() { band<double>(true); }
HARNESS C23_hilbert_odd_float() { hilbert<float>(2 * dsym_choose("half", 0, HALF) + 1); }
HARNESS C23_hilbert_even_float() { hilbert<float>(2 * dsym_choose("half", 1, HALF)); }
HARNESS C23_hilbert_even_double() { hilbert<double>(2 * dsym_choose("half", 1, HALF)); }
HARNESS C23_arbitrary_float() { arbitrary<float, float>(); }
HARNESS C23_arbitrary_double() { arbitrary<double, double>(); }
HARNESS C23_arbitrary_complex() { arbitrary<double, std::complex<double>>(); }
