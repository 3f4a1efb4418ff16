// C17: the FFT equals the discrete Fourier transform and is inverted by the inverse FFT
// @bound transform lengths: 1..24 and 25, 27, 32, 49, 97 (Bluestein); thorough: 1..64 and 96, 97, 100, 101, 121, 127, 128; real and complex, float and double; samples/bins in [-1,1]; half and full spectra; every wrong buffer size up to 2N+3 for N <= 8
// @assume twiddle factors are those of the C library's sin and cos (evaluated concretely)
#include "dsym.h"
#include <dspbb/Math/FFT.hpp>
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
using namespace dspbb;

int length(int maxSelect) {
#ifdef THOROUGH
	constexpr int lens[] = { 97, 96, 100, 101, 121, 127, 128 };
	constexpr int seq = 64;
#else
	constexpr int lens[] = { 25, 27, 32, 49, 97 };
	constexpr int seq = 24;
#endif
	const int k = dsym_choose("length", 1, seq + std::min(maxSelect, int(std::size(lens))));
	return k <= seq ? k : lens[k - seq - 1];
}
struct Trig {
	std::vector<double> c, s;
	explicit Trig(int n) : c(n), s(n) {
		for (int i = 0; i < n; ++i) {
			c[i] = std::cos(2 * 3.14159265358979323846 * i / n);
			s[i] = std::sin(2 * 3.14159265358979323846 * i / n);
		}
	}
};
// sum of x[i]*exp(dir*2*pi*j*i*k/n)
template <class T>
std::complex<double> dft(const std::vector<std::complex<T>>& x, int k, int dir, const Trig& t) {
	double re = 0, im = 0;
	const int n = (int)x.size();
	for (int i = 0; i < n; ++i) {
		const int a = int((long long)i * k % n);
		const double c = t.c[a], s = dir * t.s[a];
		re += x[i].real() * c - x[i].imag() * s;
		im += x[i].real() * s + x[i].imag() * c;
	}
	return { re, im };
}
template <class T>
double tol(int n) {
	return (n > 64 ? 256 : 16) * (n + 3.) * (std::is_same_v<T, float> ? 1.2e-7 : 2.3e-16) * std::log2(n + 2.);
}

template <class T>
void realForward(int maxSelect) {
	const int n = length(maxSelect);
	const Trig t(n);
	Signal<T> x(n);
	std::vector<std::complex<T>> c;
	for (auto& v : x) {
		v = dsym::In<T>::rval("x", 1);
		c.push_back(v);
	}
	const auto keep = x;
	const auto full = Fft(x, FFT_FULL), half = Fft(x, FFT_HALF);
	dsym_assert(full.size() == size_t(n) && half.size() == size_t(n / 2 + 1), "spectrum size");
	for (int k = 0; k < n; ++k) {
		const auto e = dft(c, k, -1, t);
		dsym::close(full[k].real(), e.real(), tol<T>(n), "full spectrum, real part");
		dsym::close(full[k].imag(), e.imag(), tol<T>(n), "full spectrum, imaginary part");
		if (k < n / 2 + 1) dsym::close(half[k], std::complex<T>(full[k]), tol<T>(n), "half spectrum");
	}
	for (int k = 0; k < n; ++k) dsym::same(x[k], keep[k], "input unchanged");
	// round trip
	if (n <= 32) {
		const auto rf = Ifft(full, FFT_FULL), rh = Ifft(half, FFT_HALF, n % 2 == 0);
		dsym_assert(rf.size() == size_t(n) && rh.size() == size_t(n), "restored size");
		for (int k = 0; k < n; ++k) {
			dsym::close(rf[k], double(x[k]), 16 * tol<T>(n), "restored from full");
			dsym::close(rh[k], double(x[k]), 16 * tol<T>(n), "restored from half");
		}
	}
}
template <class T>
void complexBoth(int maxSelect) {
	const int n = length(maxSelect);
	const Trig t(n);
	const int dir = dsym_choose("inverse", 0, 1);
	std::vector<std::complex<T>> x(n);
	for (auto& v : x) v = dsym::In<std::complex<T>>::rval("x", 1);
	const auto keep = x;
	std::vector<std::complex<T>> out(n + 2, T(7));
	if (dir == 0) Fft(AsView<FREQUENCY_DOMAIN>(out.begin() + 1, out.end() - 1), AsConstView<TIME_DOMAIN>(x.begin(), x.end()));
	else Ifft(AsView<TIME_DOMAIN>(out.begin() + 1, out.end() - 1), AsConstView<FREQUENCY_DOMAIN>(x.begin(), x.end()));
	for (int k = 0; k < n; ++k) {
		auto e = dft(x, k, dir == 0 ? -1 : 1, t);
		if (dir) e /= n;
		dsym::close(out[k + 1].real(), e.real(), tol<T>(n) * 2, dir ? "complex inverse, real part" : "complex spectrum, real part");
		dsym::close(out[k + 1].imag(), e.imag(), tol<T>(n) * 2, dir ? "complex inverse, imaginary part" : "complex spectrum, imaginary part");
		dsym::same(x[k], keep[k], "input unchanged");
	}
	dsym::same(out[0], std::complex<T>(7), "before output");
	dsym::same(out[n + 1], std::complex<T>(7), "after output");
}
// inverse of an arbitrary conjugate symmetric spectrum
template <class T>
void realInverse(int maxSelect) {
	const int n = length(maxSelect);
	const Trig t(n);
	std::vector<std::complex<T>> c(n);
	c[0] = dsym::In<T>::rval("X", 1);
	for (int k = 1; 2 * k < n; ++k) {
		c[k] = dsym::In<std::complex<T>>::rval("X", 1);
		c[n - k] = std::conj(c[k]);
	}
	if (n % 2 == 0) c[n / 2] = dsym::In<T>::rval("X", 1);
	Spectrum<std::complex<T>> full(c.begin(), c.end()), half(c.begin(), c.begin() + n / 2 + 1);
	const auto rf = Ifft(full, FFT_FULL), rh = Ifft(half, FFT_HALF, n % 2 == 0);
	dsym_assert(rf.size() == size_t(n) && rh.size() == size_t(n), "signal size");
	for (int k = 0; k < n; ++k) {
		const auto e = dft(c, k, 1, t).real() / n;
		dsym::close(rf[k], e, tol<T>(n) * 2, "inverse of full");
		dsym::close(rh[k], e, tol<T>(n) * 2, "inverse of half");
		dsym::same(full[k], c[k], "input unchanged");
	}
}
HARNESS C17_real_f() { realForward<float>(0); }
HARNESS C17_real_d() { realForward<double>(9); }
HARNESS C17_complex_f() { complexBoth<float>(0); }
HARNESS C17_complex_d() { complexBoth<double>(4); }
HARNESS C17_inverse_f() { realInverse<float>(0); }
HARNESS C17_inverse_d() { realInverse<double>(9); }

HARNESS C17_reject() {
	const int n = dsym_choose("n", 1, 8), m = dsym_choose("m", 0, 2 * n + 3), how = dsym_choose("how", 0, 3);
	SignalF r(n, 1.f);
	SignalCF c(n, 1.f);
	SpectrumCF s(m, 1.f), z(n, 1.f);
	if (how < 2 ? (m == n || m == n / 2 + 1) : m == n) {
		dsym_assert(true, "accepted size");
		return;
	}
	dsym_reject_begin("buffer of the wrong size");
	if (how == 0) Fft(s, r);
	else if (how == 1) Ifft(r, s);
	else if (how == 2) Fft(s, c);
	else Ifft(c, s);
	dsym_reject_end();
}
