// C24: filter descriptions accept exactly valid parameters, builders change nothing else
// @bound sequences of up to 3 (thorough 4) builder calls in any order on every FIR and IIR description; every value of the parameters (bit-precise float and double, including NaN and infinities)
#include "dsym.h"
#include <dspbb/Filtering/FIR.hpp>
#include <dspbb/Filtering/IIR.hpp>
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
using namespace dspbb;

#ifdef THOROUGH
constexpr int CALLS = 4;
#else
constexpr int CALLS = 3;
#endif
template <class T>
T any(const char* n) { return dsym::In<T>::any(n); }
template <class F>
bool rejected(F f) {
	bool r = false;
	try {
		f();
	}
	catch (const std::exception&) {
		r = true;
	}
	return r;
}
template <class T>
bool valid(T a) { return a >= T(0) && a <= T(1); }
template <class T>
bool valid(T a, T b) { return valid(a) && valid(b) && a <= b; }
template <class T>
bool valid(T a, T b, T c, T d) { return valid(a) && valid(b) && valid(c) && valid(d) && a <= b && b <= c && c <= d; }

// a window that knows who it is
struct Tagged {
	int tag = 0;
	template <class S, std::enable_if_t<is_mutable_signal_v<S>, int> = 0>
	void operator()(S&&) const {}
};
// tries a frequency setter; rejected exactly if not ok. Paths of rejected calls end here
template <class F>
auto setter(bool ok, F f) {
	if (!ok) {
		dsym_reject_begin("invalid frequency accepted");
		f();
		dsym_reject_end();
	}
	return f();
}

//------------------------------------------------------------------------------
// FIR windowed
template <class T, class D>
void splitWindowed(const D& initial) {
	auto d = initial.Cutoff(T(0.5)).Window(Tagged{ 0 });
	T cutoff = T(0.5);
	int tag = 0;
	dsym_assert(initial.cutoff == 0.5f, "default cutoff");
	for (int k = 0; k < CALLS; ++k) {
		if (dsym_choose("call", 0, 1)) {
			cutoff = any<T>("cutoff");
			d = setter(valid(cutoff), [&] { return d.Cutoff(cutoff); });
		}
		else d = d.Window(Tagged{ tag = k + 1 });
		dsym::same(d.cutoff, cutoff, "cutoff");
		dsym_assert(d.window.tag == tag, "window");
	}
}
template <class T, class D>
void bandWindowed(const D& initial) {
	dsym_assert(initial.lower == 0.25f && initial.upper == 0.75f, "default band");
	auto d = initial.Band(T(0.25), T(0.5)).Window(Tagged{ 0 });
	T lower = T(0.25), upper = T(0.5);
	int tag = 0;
	for (int k = 0; k < CALLS; ++k) {
		if (dsym_choose("call", 0, 1)) {
			lower = any<T>("lower"), upper = any<T>("upper");
			d = setter(valid(lower, upper), [&] { return d.Band(lower, upper); });
		}
		else d = d.Window(Tagged{ tag = k + 1 });
		dsym::same(d.lower, lower, "lower");
		dsym::same(d.upper, upper, "upper");
		dsym_assert(d.window.tag == tag, "window");
	}
}
template <class T>
void windowSignal() {
	Signal<T> w{ any<T>("w0"), any<T>("w1"), any<T>("w2") };
	const auto same = [&](const Signal<T>& s) {
		dsym_assert(s.size() == 3, "size of window");
		for (int i = 0; i < 3; ++i) dsym::same(s[i], w[i], "window");
	};
	const auto a = Fir.Lowpass.Windowed.Window(w).Cutoff(T(0.25));
	same(a.window);
	dsym::same(a.cutoff, T(0.25), "cutoff");
	const auto b = Fir.Bandstop.Windowed.Window(w).Band(T(0.25), T(0.5));
	same(b.window);
	dsym::same(b.lower, T(0.25), "lower");
	dsym::same(b.upper, T(0.5), "upper");
	const auto c = Fir.Bandpass.Windowed.Band(T(0.25), T(0.5)).Window(w);
	same(c.window);
	dsym::same(c.lower, T(0.25), "lower");
	dsym::same(c.upper, T(0.5), "upper");
	const auto d = Fir.Highpass.Windowed.Cutoff(T(0.25)).Window(w);
	same(d.window);
	dsym::same(d.cutoff, T(0.25), "cutoff");
	same(Fir.Hilbert.Windowed.Window(w).window);
	const T level = any<T>("level");
	const auto response = [level](auto) { return level; };
	const auto e = Fir.Arbitrary.Windowed.Response(response).Window(w), f = Fir.Arbitrary.Windowed.Window(w).Response(response);
	same(e.window);
	same(f.window);
	dsym::same(e.responseFunc(0.f), level, "response");
	dsym::same(f.responseFunc(0.f), level, "response");
	dsym_assert(Fir.Hilbert.Windowed.Window(Tagged{ 5 }).window.tag == 5, "window");
}

//------------------------------------------------------------------------------
// FIR least squares
template <class T, class D>
void splitLeastSquares(const D& initial) {
	struct {
		T b, e, l, t, h;
		size_t g;
	} m{ T(0.45), T(0.55), 1, 0, 1, 0 };
	decltype(initial.Cutoff(T(0.45), T(0.55))) d;
	bool first = true;
	for (int k = 0; k < CALLS; ++k) {
		const int call = dsym_choose("call", 0, first ? 1 : 2);
		if (call == 0) {
			m.b = any<T>("begin"), m.e = any<T>("end");
			d = setter(valid(m.b, m.e), [&] { return first ? initial.Cutoff(m.b, m.e) : d.Cutoff(m.b, m.e); });
		}
		if (call == 1) {
			m.l = any<T>("low"), m.t = any<T>("transition"), m.h = any<T>("high");
			d = first ? initial.Weight(m.l, m.t, m.h) : d.Weight(m.l, m.t, m.h);
		}
		if (call == 2) d = d.Grid(m.g = 10 + k);
		first = false;
		dsym::same(d.cutoffBegin, m.b, "cutoff begin");
		dsym::same(d.cutoffEnd, m.e, "cutoff end");
		dsym::same(d.weightLow, m.l, "low weight");
		dsym::same(d.weightTransition, m.t, "transition weight");
		dsym::same(d.weightHigh, m.h, "high weight");
		dsym_assert(d.grid == m.g, "grid");
	}
}
template <class T, class D>
void bandLeastSquares(const D& initial) {
	struct {
		T f[4], w[5];
		size_t g;
	} m{ { T(0.2), T(0.3), T(0.7), T(0.8) }, { 1, 0, 1, 0, 1 }, 0 };
	decltype(initial.Band(m.f[0], m.f[1], m.f[2], m.f[3])) d;
	bool first = true;
	for (int k = 0; k < CALLS; ++k) {
		const int call = dsym_choose("call", 0, first ? 1 : 2);
		if (call == 0) {
			for (auto& f : m.f) f = any<T>("frequency");
			d = setter(valid(m.f[0], m.f[1], m.f[2], m.f[3]), [&] { return first ? initial.Band(m.f[0], m.f[1], m.f[2], m.f[3]) : d.Band(m.f[0], m.f[1], m.f[2], m.f[3]); });
		}
		if (call == 1) {
			for (auto& w : m.w) w = any<T>("weight");
			d = first ? initial.Weight(m.w[0], m.w[1], m.w[2], m.w[3], m.w[4]) : d.Weight(m.w[0], m.w[1], m.w[2], m.w[3], m.w[4]);
		}
		if (call == 2) d = d.Grid(m.g = 10 + k);
		first = false;
		dsym::same(d.lowerBegin, m.f[0], "lower begin");
		dsym::same(d.lowerEnd, m.f[1], "lower end");
		dsym::same(d.upperBegin, m.f[2], "upper begin");
		dsym::same(d.upperEnd, m.f[3], "upper end");
		dsym::same(d.weightLow, m.w[0], "low weight");
		dsym::same(d.weightTransition1, m.w[1], "first transition weight");
		dsym::same(d.weightMid, m.w[2], "mid weight");
		dsym::same(d.weightTransition2, m.w[3], "second transition weight");
		dsym::same(d.weightHigh, m.w[4], "high weight");
		dsym_assert(d.grid == m.g, "grid");
	}
}
template <class T>
void otherLeastSquares() {
	T width = T(1), weight = T(1);
	size_t grid = 0;
	decltype(Fir.Hilbert.LeastSquares.TransitionWidth(T(1))) d;
	bool first = true;
	for (int k = 0; k < CALLS; ++k) {
		const int call = dsym_choose("call", 0, first ? 1 : 2);
		if (call == 0) width = any<T>("width"), d = first ? Fir.Hilbert.LeastSquares.TransitionWidth(width) : d.TransitionWidth(width);
		if (call == 1) weight = any<T>("weight"), d = first ? Fir.Hilbert.LeastSquares.TransitionWeight(weight) : d.TransitionWeight(weight);
		if (call == 2) d = d.Grid(grid = 10 + k);
		first = false;
		dsym::same(d.transitionWidth, width, "transition width");
		dsym::same(d.transitionWeight, weight, "transition weight");
		dsym_assert(d.grid == grid, "grid");
	}
	const T r = any<T>("response"), w = any<T>("weight");
	const auto response = [r](auto) { return r; };
	const auto weightf = [w](auto) { return w; };
	const auto check = [&](const auto& a, size_t g) {
		dsym::same(a.responseFunc(0.f), r, "response");
		dsym::same(a.weightFunc(0.f), w, "weight");
		dsym_assert(a.grid == g, "grid");
	};
	check(Fir.Arbitrary.LeastSquares.Response(response).Weight(weightf), 0);
	check(Fir.Arbitrary.LeastSquares.Weight(weightf).Response(response), 0);
	check(Fir.Arbitrary.LeastSquares.Grid(7).Weight(weightf).Response(response), 7);
	check(Fir.Arbitrary.LeastSquares.Weight(weightf).Grid(8).Response(response), 8);
	check(Fir.Arbitrary.LeastSquares.Response(response).Weight(weightf).Grid(9), 9);
	dsym::same(Fir.Arbitrary.LeastSquares.Grid(7).responseFunc(0.f), 1.f, "default response");
	dsym::same(Fir.Arbitrary.LeastSquares.Grid(7).weightFunc(0.f), 1.f, "default weight");
}

//------------------------------------------------------------------------------
// IIR
template <class D, class = void>
struct has_pass : std::false_type {};
template <class D>
struct has_pass<D, std::void_t<decltype(std::declval<D>().passbandRipple)>> : std::true_type {};
template <class D, class = void>
struct has_stop : std::false_type {};
template <class D>
struct has_stop<D, std::void_t<decltype(std::declval<D>().stopbandRipple)>> : std::true_type {};
template <class T, bool Band, class D>
void iir(const D& initial) {
	T f0 = T(Band ? 0.25 : 0.5), f1 = T(0.75), pass = T(0.1), stop = T(0.1);
	const auto set = [&](const auto& x) {
		if constexpr (Band) return x.Band(f0, f1);
		else return x.Cutoff(f0);
	};
	using Desc = decltype(set(initial));
	constexpr bool P = has_pass<Desc>::value, S = has_stop<Desc>::value;
	Desc d;
	bool first = true;
	for (int k = 0; k < CALLS; ++k) {
		const int call = dsym_choose("call", 0, 2);
		if (call == 0) {
			f0 = any<T>("frequency");
			if (Band) f1 = any<T>("upper frequency");
			d = setter(Band ? valid(f0, f1) : valid(f0), [&] { return first ? set(initial) : set(d); });
			first = false;
		}
		if constexpr (P) {
			if (call == 1) {
				pass = any<T>("passband ripple");
				d = first ? initial.PassbandRipple(pass) : d.PassbandRipple(pass);
				first = false;
			}
		}
		if constexpr (S) {
			if (call == 2) {
				stop = any<T>("stopband ripple");
				d = first ? initial.StopbandRipple(stop) : d.StopbandRipple(stop);
				first = false;
			}
		}
		if constexpr (Band) {
			dsym::same(d.lower, f0, "lower");
			dsym::same(d.upper, f1, "upper");
		}
		else dsym::same(d.cutoff, f0, "cutoff");
		if constexpr (P) dsym::same(d.passbandRipple, pass, "passband ripple");
		if constexpr (S) dsym::same(d.stopbandRipple, stop, "stopband ripple");
	}
}
HARNESS C24_fir_lowpass_windowed_float() { splitWindowed<float>(Fir.Lowpass.Windowed); }
HARNESS C24_fir_lowpass_windowed_double() { splitWindowed<double>(Fir.Lowpass.Windowed); }
HARNESS C24_fir_highpass_windowed_float() { splitWindowed<float>(Fir.Highpass.Windowed); }
HARNESS C24_fir_bandpass_windowed_float() { bandWindowed<float>(Fir.Bandpass.Windowed); }
HARNESS C24_fir_bandstop_windowed_double() { bandWindowed<double>(Fir.Bandstop.Windowed); }
HARNESS C24_fir_window_signal_float() { windowSignal<float>(); }
HARNESS C24_fir_lowpass_ls_float() { splitLeastSquares<float>(Fir.Lowpass.LeastSquares); }
HARNESS C24_fir_highpass_ls_double() { splitLeastSquares<double>(Fir.Highpass.LeastSquares); }
HARNESS C24_fir_bandpass_ls_float() { bandLeastSquares<float>(Fir.Bandpass.LeastSquares); }
HARNESS C24_fir_bandstop_ls_double() { bandLeastSquares<double>(Fir.Bandstop.LeastSquares); }
HARNESS C24_fir_other_ls_float() { otherLeastSquares<float>(); }
HARNESS C24_iir_butterworth_split_float() { iir<float, false>(Iir.Lowpass.Butterworth), iir<double, false>(Iir.Highpass.Butterworth); }
HARNESS C24_iir_butterworth_band_float() { iir<float, true>(Iir.Bandpass.Butterworth); }
HARNESS C24_iir_butterworth_stop_double() { iir<double, true>(Iir.Bandstop.Butterworth); }
HARNESS C24_iir_chebyshev1_low() { iir<float, false>(Iir.Lowpass.Chebyshev1); }
HARNESS C24_iir_chebyshev1_high() { iir<double, false>(Iir.Highpass.Chebyshev1); }
HARNESS C24_iir_chebyshev1_pass() { iir<float, true>(Iir.Bandpass.Chebyshev1); }
HARNESS C24_iir_chebyshev1_stop() { iir<double, true>(Iir.Bandstop.Chebyshev1); }
HARNESS C24_iir_chebyshev2_low() { iir<float, false>(Iir.Lowpass.Chebyshev2); }
HARNESS C24_iir_chebyshev2_high() { iir<double, false>(Iir.Highpass.Chebyshev2); }
HARNESS C24_iir_chebyshev2_pass() { iir<float, true>(Iir.Bandpass.Chebyshev2); }
HARNESS C24_iir_chebyshev2_stop() { iir<double, true>(Iir.Bandstop.Chebyshev2); }
HARNESS C24_iir_elliptic_low() { iir<float, false>(Iir.Lowpass.Elliptic); }
HARNESS C24_iir_elliptic_high() { iir<double, false>(Iir.Highpass.Elliptic); }
HARNESS C24_iir_elliptic_pass() { iir<float, true>(Iir.Bandpass.Elliptic); }
HARNESS C24_iir_elliptic_stop() { iir<double, true>(Iir.Bandstop.Elliptic); }
