// C09: the dot product is the sum of products with the second operand conjugated
// @bound every length up to 300 (float), 200 (double), 100 (complex; mixed: 140) (thorough: 700, 400, 256; mixed: 256), parts in [-8,8], operands at different alignments
#include "dsym.h"
#include <dspbb/Math/DotProduct.hpp>
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
using namespace dspbb;

#ifdef THOROUGH
constexpr int NF = 700, ND = 400, NC = 256, NM = 256;
#else
constexpr int NF = 300, ND = 200, NC = 100, NM = 140;
#endif

template <class T>
std::complex<double> wide(T x) {
	if constexpr (is_complex_v<T>) return { x.real(), x.imag() };
	else return { x, 0 };
}
template <class T, class U>
void dot() {
	using R = decltype(T() * U());
	const int nmax = is_complex_v<T> && is_complex_v<U> ? NC : is_complex_v<T> || is_complex_v<U> ? NM : sizeof(T) == 4 ? NF : ND;
	const int n = dsym_choose("n", 0, nmax);
	std::vector<T> a(n + 1);
	std::vector<U> b(n + 2);
	for (auto& v : a) v = dsym::In<T>::rval("a", 8);
	for (auto& v : b) v = dsym::In<U>::rval("b", 8);
	BasicSignalView<const T, TIME_DOMAIN> va(a.begin(), size_t(n));
	BasicSignalView<const U, TIME_DOMAIN> vb(b.begin() + 1, size_t(n));
	const R r = DotProduct(va, vb);
	double re = 0, im = 0;
	for (int i = 0; i < n; ++i) {
		const auto x = wide(va[i]), y = wide(vb[i]);
		re += x.real() * y.real() + x.imag() * y.imag();
		im += x.imag() * y.real() - x.real() * y.imag();
	}
	const double tol = 64 * 2 * (n + 1) * (n + 3) * (std::is_same_v<remove_complex_t<R>, float> ? 1.2e-7 : 2.3e-16);
	dsym::close(wide(r).real(), re, tol, "real part");
	if constexpr (is_complex_v<R>) dsym::close(wide(r).imag(), im, tol, "imaginary part");
}
HARNESS C09_dot_f() { dot<float, float>(); }
HARNESS C09_dot_d() { dot<double, double>(); }
HARNESS C09_dot_cf() { dot<std::complex<float>, std::complex<float>>(); }
HARNESS C09_dot_cd() { dot<std::complex<double>, std::complex<double>>(); }
HARNESS C09_dot_f_cf() { dot<float, std::complex<float>>(); }
HARNESS C09_dot_cf_f() { dot<std::complex<float>, float>(); }
HARNESS C09_dot_d_cd() { dot<double, std::complex<double>>(); }
HARNESS C09_dot_cd_d() { dot<std::complex<double>, double>(); }

template <class T>
void wholeSignals() {
	const int n = dsym_choose("n", 0, 6);
	BasicSignal<T, FREQUENCY_DOMAIN> a(n), b(n);
	for (auto& v : a) v = dsym::In<T>::rval("a", 8);
	for (auto& v : b) v = dsym::In<T>::rval("b", 8);
	const auto ab = wide(DotProduct(a, b)), ba = wide(DotProduct(b, a)), aa = wide(DotProduct(a, a));
	dsym::close(ab.real(), ba.real(), 1e-2, "conjugate symmetry");
	dsym::close(ab.imag(), -ba.imag(), 1e-2, "conjugate symmetry");
	dsym::close(aa.imag(), 0.0, 1e-2, "product with itself is real");
	double q = 0;
	for (int i = 0; i < n; ++i) q += wide(a[i]).real() * wide(a[i]).real() + wide(a[i]).imag() * wide(a[i]).imag();
	dsym::close(aa.real(), q, 1e-2, "product with itself is the energy");
}
HARNESS C09_whole_f() { wholeSignals<float>(); }
HARNESS C09_whole_cf() { wholeSignals<std::complex<float>>(); }

HARNESS C09_reject() {
	const int na = dsym_choose("na", 0, 9), nb = dsym_choose("nb", 0, 9), cx = dsym_choose("complex", 0, 1);
	if (na == nb) return;
	SignalF a(na, 1.f), b(nb, 2.f);
	SignalCF ca(na, 1.f), cb(nb, 2.f);
	dsym_reject_begin("different lengths");
	if (cx) DotProduct(ca, cb);
	else DotProduct(a, b);
	dsym_reject_end();
}
