// C25: linear and logarithmic spaces
// @bound 0..40 elements (thorough 0..130), any ends in [-1000,1000] in either order, inclusive and exclusive, float, double and complex, signals, views and out-of-place; rounding included (tolerance 1e-5 (float), 1e-13 (double) of the range) for linear spaces; logarithmic spaces to 0..20 elements, exponents in [-3,3], bases 10, 2 and 1/2, exact arithmetic
// @assume the exponential is an uninterpreted positive function (exp of arguments that differ by at most d differ by a factor of 1+2d at most), applied per lane of vectors (harness/xsimd_stub.h)
#include "dsym.h"
#include "xsimd_stub.h"
#include <dspbb/Generators/Spaces.hpp>
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
using namespace dspbb;

#ifdef THOROUGH
constexpr int N = 130;
#else
constexpr int N = 40;
#endif
template <class R>
R real(const char* n, double b) {
	return dsym::In<R>::rval(n, b);
}
template <class T>
void linear() {
	using R = remove_complex_t<T>;
	const int n = dsym_choose("count", 0, N), inclusive = dsym_choose("inclusive", 0, 1), form = dsym_choose("form", 0, 3);
	const R start = real<R>("start", 1000), end = real<R>("end", 1000);
	const double tol = 2000 * (std::is_same_v<R, float> ? 1e-6 : 1e-15);
	Signal<T> s(n + 2, T(42));
	auto view = AsView(s).subsignal(1, n);
	if (form == 0) LinSpace(view, start, end, inclusive);
	if (form == 1) {
		const auto r = LinSpace<T, TIME_DOMAIN>(start, end, n, inclusive);
		dsym_assert(r.size() == size_t(n), "size");
		for (int i = 0; i < n; ++i) s[i + 1] = r[i];
	}
	if (form == 2) {
		// inclusive by default
		if (!inclusive) return;
		LinSpace(view, start, end);
	}
	if (form == 3) {
		if (!inclusive) return;
		const auto r = LinSpace<T, TIME_DOMAIN>(start, end, n);
		dsym_assert(r.size() == size_t(n), "size");
		for (int i = 0; i < n; ++i) s[i + 1] = r[i];
	}
	dsym::same(s[0], T(42), "before output");
	dsym::same(s[n + 1], T(42), "after output");
	if (n == 0) return;
	dsym::same(view[0], T(start), "first element");
	// the definition: start plus i steps
	const int steps = inclusive ? n - 1 : n;
	for (int i = 0; i < n; ++i) {
		const double e = steps == 0 ? double(start) : (double(start) * (steps - i) + double(end) * i) / steps;
		dsym::close(double(std::real(view[i])), e, tol, "element");
		if constexpr (is_complex_v<T>) dsym::same(view[i].imag(), R(0), "imaginary part");
	}
	if (inclusive && n > 1) dsym::close(double(std::real(view[n - 1])), double(end), tol, "last element");
}
template <class T>
void logarithmic() {
	dsym_real_mode(1);
	using R = remove_complex_t<T>;
	const int n = dsym_choose("count", 0, N / 2), inclusive = dsym_choose("inclusive", 0, 1), form = dsym_choose("form", 0, 2), pick = dsym_choose("base", 0, 2);
	const R base = pick == 0 ? R(10) : pick == 1 ? R(2) : R(0.5);
	const R start = real<R>("start", 3), end = real<R>("end", 3);
	Signal<T> s(n + 2, T(42));
	auto view = AsView(s).subsignal(1, n);
	if (form == 0) LogSpace(view, start, end, base, inclusive);
	if (form == 1) {
		const auto r = LogSpace<T, TIME_DOMAIN>(start, end, n, base, inclusive);
		dsym_assert(r.size() == size_t(n), "size");
		for (int i = 0; i < n; ++i) s[i + 1] = r[i];
	}
	if (form == 2) {
		// base 10, inclusive by default
		if (!inclusive || pick) return;
		LogSpace(view, start, end);
	}
	dsym::same(s[0], T(42), "before output");
	dsym::same(s[n + 1], T(42), "after output");
	const int steps = std::max(1, inclusive ? n - 1 : n);
	for (int i = 0; i < n; ++i) {
		const R e = std::exp((start + R(i) * ((end - start) / R(steps))) * std::log(base));
		dsym::close(view[i], T(e), 1e-2, "element");
	}
}
HARNESS C25_linear_float() { linear<float>(); }
HARNESS C25_linear_double() { linear<double>(); }
HARNESS C25_linear_cfloat() { linear<std::complex<float>>(); }
HARNESS C25_linear_cdouble() { linear<std::complex<double>>(); }
HARNESS C25_log_float() { logarithmic<float>(); }
HARNESS C25_log_double() { logarithmic<double>(); }
