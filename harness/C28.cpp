// C28: window functions
// @bound lengths 1..24 (thorough 1..65), any previous content of the output, float, double and complex outputs, signals, views, out-of-place and function objects; any sigma in [1/8,2], alpha in [1/4,8], attenuation in [1/1024,1/2] (Dolph-Chebyshev: lengths 1..9, thorough 1..13); gains of any window of 1..16 samples; exact arithmetic
// @assume exp, cosh, acosh, cos, acos and the Bessel function are uninterpreted functions of symbolic arguments (of constants: libm), applied per lane of vectors (harness/xsimd_stub.h, harness/bessel_stub.h)
#include "dsym.h"
#include "xsimd_stub.h"
#include <algorithm>
#include <functional>
#include <numeric>
#include <random>
#include "bessel_stub.h"
#include <dspbb/Filtering/Windowing.hpp>
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
using namespace dspbb;

#ifdef THOROUGH
constexpr int N = 65, NC = 13;
#else
constexpr int N = 24, NC = 9;
#endif
template <class R>
R real(const char* n, double lo, double hi) {
	if constexpr (std::is_same_v<R, float>) return dsym_f32(n, lo, hi);
	else return dsym_f64(n, lo, hi);
}
template <class T>
void checkWindow(const std::vector<double>& want, const Signal<T>& got, double tol) {
	using R = remove_complex_t<T>;
	const int n = (int)want.size();
	for (int i = 0; i < n; ++i) {
		dsym::close(double(std::real(got[i])), want[i], tol, "sample");
		dsym::close(double(std::real(got[i])), double(std::real(got[n - 1 - i])), tol, "symmetry");
		if constexpr (is_complex_v<T>) dsym::same(got[i].imag(), R(0), "imaginary part");
	}
}
// the window as written by one of the forms of the interface
template <class T, class InPlace, class OutOfPlace>
Signal<T> generate(int n, InPlace inPlace, OutOfPlace outOfPlace) {
	using R = remove_complex_t<T>;
	const int form = dsym_choose("form", 0, 2);
	Signal<T> s(n + 2);
	for (auto& v : s) v = T(real<R>("previous", -9, 9));
	const T before = s[0], after = s[n + 1];
	Signal<T> r(n);
	if (form == 0) {
		auto view = AsView(s).subsignal(1, n);
		inPlace(view);
		for (int i = 0; i < n; ++i) r[i] = view[i];
	}
	if (form == 1) {
		for (int i = 0; i < n; ++i) r[i] = s[i];
		inPlace(r);
	}
	if (form == 2) r = outOfPlace(n);
	dsym::same(s[0], before, "before output");
	dsym::same(s[n + 1], after, "after output");
	dsym_assert(r.size() == size_t(n), "size");
	return r;
}
template <class T>
constexpr double tolerance() {
	return std::is_same_v<remove_complex_t<T>, float> ? 2e-5 : 1e-12;
}
const double PI = 3.14159265358979323846;
template <class T>
void fixedWindows() {
	const int n = dsym_choose("length", 1, N), which = dsym_choose("window", 0, 6);
	const bool object = dsym_choose("object", 0, 1);
	std::vector<double> want(n);
	for (int i = 0; i < n; ++i) {
		const double x = n > 1 ? double(i) / (n - 1) : 0, p = 2 * PI * x, c = 2 * x - 1;
		switch (which) {
			case 0: want[i] = 1; break;
			case 1: want[i] = 0.54 - 0.46 * std::cos(p); break;
			case 2: want[i] = 0.21557895 - 0.41663158 * std::cos(p) + 0.277263158 * std::cos(2 * p) - 0.083578947 * std::cos(3 * p) + 0.006947368 * std::cos(4 * p); break;
			case 3: want[i] = 1 - std::fabs(c); break;
			case 4: want[i] = 0.42 - 0.5 * std::cos(p) + 0.08 * std::cos(2 * p); break;
			case 5: want[i] = 0.35875 - 0.48829 * std::cos(p) + 0.14128 * std::cos(2 * p) - 0.01168 * std::cos(3 * p); break;
			case 6: want[i] = std::fabs(c) < 1e-9 ? 1 : std::sin(PI * c) / (PI * c); break;
		}
	}
	auto in = [&](auto&& s) {
		switch (which) {
			case 0: return object ? windows::rectangular(s) : RectangularWindow(s);
			case 1: return object ? windows::hamming(s) : HammingWindow(s);
			case 2: return object ? windows::flattop(s) : FlatTopWindow(s);
			case 3: return object ? windows::triangular(s) : TriangularWindow(s);
			case 4: return object ? windows::blackman(s) : BlackmanWindow(s);
			case 5: return object ? windows::blackmanHarris(s) : BlackmanHarrisWindow(s);
			case 6: return object ? windows::lanczos(s) : LanczosWindow(s);
		}
	};
	auto out = [&](size_t k) -> Signal<T> {
		switch (which) {
			case 0: return object ? windows::rectangular.template operator()<T>(k) : RectangularWindow<T>(k);
			case 1: return object ? windows::hamming.template operator()<T>(k) : HammingWindow<T>(k);
			case 2: return object ? windows::flattop.template operator()<T>(k) : FlatTopWindow<T>(k);
			case 3: return object ? windows::triangular.template operator()<T>(k) : TriangularWindow<T>(k);
			case 4: return object ? windows::blackman.template operator()<T>(k) : BlackmanWindow<T>(k);
			case 5: return object ? windows::blackmanHarris.template operator()<T>(k) : BlackmanHarrisWindow<T>(k);
			default: return object ? windows::lanczos.template operator()<T>(k) : LanczosWindow<T>(k);
		}
	};
	const auto got = generate<T>(n, in, out);
	checkWindow(want, got, tolerance<T>());
	double peak = double(std::real(got[0]));
	for (int i = 0; i < n; ++i) peak = std::max(peak, double(std::real(got[i])));
	dsym_assert(peak <= 1 + 1e-6, "bounded by one");	// published coefficients are rounded
	dsym_assert(std::real(got[n / 2]) >= peak - tolerance<T>(), "peak at the centre");
}
template <class T>
void gaussian() {
	dsym_real_mode(1);
	using R = remove_complex_t<T>;
	const int n = dsym_choose("length", 1, N);
	const bool object = dsym_choose("object", 0, 1);
	const R sigma = real<R>("sigma", 0.125, 2);
	const auto got = generate<T>(
		n, [&](auto&& s) { return object ? windows::gaussian.sigma(sigma)(s) : GaussianWindow(s, sigma); },
		[&](size_t k) -> Signal<T> {
			if constexpr (is_complex_v<T>) {	// does not compile for complex samples
				Signal<T> r(k);
				windows::gaussian.sigma(sigma)(r);
				return r;
			}
			else return object ? windows::gaussian.sigma(sigma).template operator()<T>(k) : GaussianWindow<T>(k, sigma);
		});
	const R M = R(n - 1) / R(2);
	for (int i = 0; i < n; ++i) {
		const R x = i == (n - 1) / 2.0 ? R(0) : R(R(i - (n - 1) / 2.0) * (R(1) / (sigma * M)));
		dsym::alike(R(std::real(got[i])), R(std::exp(R(R(-0.5) * (x * x)))), "sample");
		dsym::alike(R(std::real(got[i])), R(std::real(got[n - 1 - i])), "symmetry");
		if constexpr (is_complex_v<T>) dsym::same(got[i].imag(), R(0), "imaginary part");
	}
}
template <class T>
void kaiser() {
	dsym_real_mode(1);
	using R = remove_complex_t<T>;
	const int n = dsym_choose("length", 1, N);
	const bool object = dsym_choose("object", 0, 1);
	const R alpha = real<R>("alpha", 0.25, 8);
	const auto got = generate<T>(
		n, [&](auto&& s) { return object ? windows::kaiser.alpha(alpha)(s) : KaiserWindow(s, alpha); },
		[&](size_t k) -> Signal<T> {
			if constexpr (is_complex_v<T>) {	// does not compile for complex samples
				Signal<T> r(k);
				windows::kaiser.alpha(alpha)(r);
				return r;
			}
			else return object ? windows::kaiser.alpha(alpha).template operator()<T>(k) : KaiserWindow<T>(k, alpha);
		});
	for (int i = 0; i < n; ++i) {
		const double c = n > 1 ? 2.0 * i / (n - 1) - 1 : -1;
		const R top = std::cyl_bessel_i(R(0), R(R(std::sqrt(1 - c * c) * PI) * alpha)), bottom = std::cyl_bessel_i(R(0), R(R(PI) * alpha));
		dsym::alike(R(std::real(got[i])), R(top / bottom), "sample");
		dsym::alike(R(std::real(got[i])), R(std::real(got[n - 1 - i])), "symmetry");
		if constexpr (is_complex_v<T>) dsym::same(got[i].imag(), R(0), "imaginary part");
	}
}
template <class T>
void chebyshev() {
	dsym_real_mode(1);
	using R = remove_complex_t<T>;
	const int n = dsym_choose("length", 1, NC);
	const bool object = dsym_choose("object", 0, 1);
	const R attenuation = real<R>("attenuation", 1.0 / 1024, 0.5);
	const auto got = generate<T>(
		n, [&](auto&& s) { return object ? windows::dolphChebyshev.attenuation(attenuation)(s) : DolphChebyshevWindow(s, attenuation); },
		[&](size_t k) -> Signal<T> { return object ? windows::dolphChebyshev.attenuation(attenuation).template operator()<T>(k) : DolphChebyshevWindow<T>(k, attenuation); });
	for (int i = 0; i < n; ++i) dsym::alike(R(std::real(got[i])), R(std::real(got[n - 1 - i])), "symmetry");
	// the inverse transform of the Chebyshev polynomial on the unit circle
	const int m = n - 1;
	const R beta = std::cosh(R(1) / R(std::max(1, m)) * std::acosh(R(1) / R(attenuation)));
	std::vector<R> bin(n / 2 + 1);
	for (int k = 0; k <= n / 2; ++k) {
		const R x = beta * R(std::cos(PI * k / n));
		R last = R(1);
		bin[k] = m == 0 ? R(1) : x;
		for (int i = 1; i < m; ++i) {
			const R next = R(2) * x * bin[k] - last;
			last = bin[k];
			bin[k] = next;
		}
	}
	auto raw = [&](int i) {
		R sum = bin[0];
		for (int k = 1; k < n; ++k) sum += (k <= n / 2 ? bin[k] : bin[n - k]) * R(std::cos(2 * PI * k * (i - (n - 1) / 2.0) / n) * (k <= n / 2 || n % 2 ? 1 : -1));
		return sum;
	};
	std::vector<R> want(n);
	for (int i = 0; i < n; ++i) want[i] = raw(i);
	const int c = n / 2;
	for (int i = 0; i < n; ++i) dsym::alike(R(std::real(got[i]) * want[c]), R(std::real(got[c]) * want[i]), "proportions");
}
template <class T>
void gains() {
	using R = remove_complex_t<T>;
	const int n = dsym_choose("length", 1, 16), form = dsym_choose("form", 0, 1);
	Signal<T> w(n);
	T sum = 0, square = 0;
	for (auto& v : w) {
		v = dsym::In<T>::ival("window", 64);
		sum += v;
		square += v * v;
	}
	dsym::close(form ? CoherentGain(w) : CoherentGain(AsConstView(w)), sum / R(n), 1e-2, "coherent gain");
	dsym::close(form ? EnergyGain(w) : EnergyGain(AsConstView(w)), square / R(n), 1, "energy gain");
}
HARNESS C28_fixed_f32() { fixedWindows<float>(); }
HARNESS C28_fixed_f64() { fixedWindows<double>(); }
HARNESS C28_fixed_c32() { fixedWindows<std::complex<float>>(); }
HARNESS C28_gaussian_f32() { gaussian<float>(); }
HARNESS C28_gaussian_c64() { gaussian<std::complex<double>>(); }
HARNESS C28_kaiser_f64() { kaiser<double>(); }
HARNESS C28_kaiser_c32() { kaiser<std::complex<float>>(); }
HARNESS C28_chebyshev_f64() { chebyshev<double>(); }
HARNESS C28_gains_f32() { gains<float>(); }
HARNESS C28_gains_c64() { gains<std::complex<double>>(); }
