// C22: band transforms of FIR filters act on the taps as the change of the response requires
// @bound filters of 1..24 taps (thorough 1..64) for mirror, complement and shift; half-bands of every odd length 1..141 (thorough 1..281); any tap value for mirror (bit-precise), any real taps in [-8,8] elsewhere (exact arithmetic), any shift in [-2,2]; real and complex taps, in-place, out-of-place and through views
#include "dsym.h"
#include <dspbb/Filtering/FIR.hpp>
#include <dspbb/Filtering/Resample.hpp>
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
using namespace dspbb;

#ifdef THOROUGH
constexpr int N = 64, HALF = 140;
#else
constexpr int N = 24, HALF = 70;
#endif
template <class T>
std::vector<T> fill(Signal<T>& s) {
	std::vector<T> v;
	for (auto& x : s) v.push_back(x = dsym::In<T>::rval("tap", 8));
	return v;
}
template <class T>
struct Case {
	Signal<T> in, out;
	std::vector<T> h;
	int form;
	explicit Case(int n) : in(n), out(n, T(42)), h(fill(in)) { form = dsym_choose("form", 0, 2); }
	// writes the transform to where the form says, returns the result
	template <class F>
	Signal<T> run(F f, size_t size) {
		if (form == 0) {
			f(out, in);
			for (size_t i = 0; i < h.size(); ++i) dsym::same(in[i], h[i], "input unchanged");
			return out;
		}
		if (form == 1) {
			f(in, in);
			return in;
		}
		Signal<T> buf(size + 2, T(42));
		auto view = AsView(buf).subsignal(1, size);
		f(view, AsView(in));
		dsym::same(buf[0], T(42), "before output");
		dsym::same(buf[size + 1], T(42), "after output");
		return Signal<T>(buf.begin() + 1, buf.end() - 1);
	}
};

template <class T>
void mirror() {
	const int n = dsym_choose("taps", 0, N);
	Signal<T> in(n);
	std::vector<T> h;
	for (auto& x : in) h.push_back(x = dsym::In<T>::any("tap"));
	const int form = dsym_choose("form", 0, 1);
	Signal<T> out(n, T(42));
	if (form == 0) fir::MirrorResponse(out, in);
	if (form == 1) {
		fir::MirrorResponse(in, in);
		out = in;
	}
	dsym_assert(out.size() == size_t(n), "size");
	for (int i = 0; i < n; ++i) {
		if constexpr (is_complex_v<T>) {
			// the sign is multiplied as a complex number: only claimed for finite taps
			dsym::same(out[i], i % 2 ? T(-h[i]) : h[i], "mirrored tap");
		}
		else dsym::same(out[i], i % 2 ? -h[i] : h[i], "mirrored tap");
	}
}
template <class T>
void mirrorreal() {
	dsym_real_mode(1);
	const int n = dsym_choose("taps", 1, N);
	Case<T> c(n);
	const auto out = c.run([](auto&& o, const auto& i) { fir::MirrorResponse(o, i); }, n);
	for (int i = 0; i < n; ++i) dsym::close(out[i], i % 2 ? T(-c.h[i]) : c.h[i], 1e-6, "mirrored tap");
}
template <class T>
void complement() {
	dsym_real_mode(1);
	const int n = 2 * dsym_choose("half", 0, N / 2) + 1;
	Case<T> c(n);
	const auto out = c.run([](auto&& o, const auto& i) { fir::ComplementaryResponse(o, i); }, n);
	for (int i = 0; i < n; ++i) dsym::close(T(out[i] + c.h[i]), i == n / 2 ? T(1) : T(0), 1e-5, "filter plus complement is a centred delay");
}
template <class T>
void shift() {
	dsym_real_mode(1);
	using R = remove_complex_t<T>;
	const int n = dsym_choose("taps", 1, N);
	Case<T> c(n);
	const R f = dsym::In<R>::rval("shift", 2);
	const auto out = c.run([f](auto&& o, const auto& i) { fir::ShiftResponse(o, i, f); }, n);
	const R scale = pi_v<R> * f;
	for (int i = 0; i < n; ++i) {
		const R t = R(2 * i - (n - 1)) / R(2);
		dsym::close(out[i], T(R(2) * c.h[i] * R(std::cos(t * scale))), 1e-4, "shifted tap");
	}
}
static int hilbertSign(int k) { // k: distance from the centre
	return ((k % 4) + 4) % 4 == 1 ? 1 : ((k % 4) + 4) % 4 == 3 ? -1 : 0;
}
// h'[c + k] = 2 sin(pi k/2) h[c + k]
template <class T>
void hilbertOdd() {
	dsym_real_mode(1);
	const int n = 2 * dsym_choose("half", 0, HALF) + 1;
	Case<T> c(n);
	const auto out = c.run([](auto&& o, const auto& i) { fir::HalfbandToHilbertOdd(o, i); }, n);
	for (int i = 0; i < n; ++i) dsym::close(out[i], T(T(2 * hilbertSign(i - n / 2)) * c.h[i]), 1e-5, "Hilbert tap");
}
template <class T>
void hilbertEven() {
	dsym_real_mode(1);
	const int m = 2 * dsym_choose("half", 1, HALF / 2);
	const int n = 2 * m - 1;
	Signal<T> in(n), out(m, T(42));
	const auto h = fill(in);
	fir::HalfbandToHilbertEven(out, in);
	for (int i = 0; i < m; ++i) {
		dsym::close(out[i], T(T(2 * hilbertSign(2 * i - n / 2)) * h[2 * i]), 1e-5, "Hilbert tap");
	}
	for (int i = 0; i < n; ++i) dsym::same(in[i], h[i], "input unchanged");
}
HARNESS C22_mirror_any_float() { mirror<float>(); }
HARNESS C22_mirror_any_double() { mirror<double>(); }
HARNESS C22_mirror_float() { mirrorreal<float>(); }
HARNESS C22_mirror_cdouble() { mirrorreal<std::complex<double>>(); }
HARNESS C22_complement_float() { complement<float>(); }
HARNESS C22_complement_cdouble() { complement<std::complex<double>>(); }
HARNESS C22_shift_float() { shift<float>(); }
HARNESS C22_shift_double() { shift<double>(); }
HARNESS C22_shift_cdouble() { shift<std::complex<double>>(); }
HARNESS C22_hilbert_odd_float() { hilbertOdd<float>(); }
HARNESS C22_hilbert_odd_double() { hilbertOdd<double>(); }
HARNESS C22_hilbert_even_float() { hilbertEven<float>(); }
HARNESS C22_hilbert_even_double() { hilbertEven<double>(); }
