// C10: convolution equals its defining sum for every length and window of the output
// @bound API: all lengths 1..8 (thorough 1..11) with every offset and output length (real, complex, mixed), and lengths around the algorithm switch (32..34 by 33..36, quick complex 32..33 by 34..35) with every offset and output lengths 1..6 and to the end; kernels: all lengths 1..9 by 1..11 with every offset and output lengths up to 10, and lengths around 512; samples in [-8,8]; rejection: every 64-bit offset
#include "dsym.h"
#include <dspbb/Math/Convolution.hpp>
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
using namespace dspbb;

#ifdef THOROUGH
constexpr int NMAX = 11, KU = 11, KV = 13, THOROUGH_AROUND = 1;
#else
constexpr int NMAX = 8, KU = 9, KV = 11, THOROUGH_AROUND = 0;
#endif
template <class T>
constexpr double eps = std::is_same_v<remove_complex_t<T>, float> ? 1.2e-7 : 2.3e-16;

template <class T>
std::complex<double> wide(T x) {
	if constexpr (is_complex_v<T>) return { x.real(), x.imag() };
	else return { x, 0 };
}
// element n of the full convolution
template <class U, class V>
std::complex<double> conv(const U& u, const V& v, int n, std::complex<double> init = 0) {
	double re = init.real(), im = init.imag();
	for (int i = 0; i < (int)u.size(); ++i) {
		const int j = n - i;
		if (j < 0 || j >= (int)v.size()) continue;
		const auto x = wide(u[i]), y = wide(v[j]);
		re += x.real() * y.real() - x.imag() * y.imag();
		im += x.imag() * y.real() + x.real() * y.imag();
	}
	return { re, im };
}
template <class R>
void element(R actual, std::complex<double> expected, int len, const char* id) {
	const double tol = (len > 30 ? 8192 : 128) * (len + 2.) * (len + 4.) * eps<R>;
	dsym::close(wide(actual).real(), expected.real(), tol, id);
	if constexpr (is_complex_v<R>) dsym::close(wide(actual).imag(), expected.imag(), tol, id);
}
template <class T>
void fill(T& s, const char* n) {
	for (auto& v : s) v = dsym::In<std::decay_t<decltype(v)>>::rval(n, 8);
}

template <class T, class U>
void api(int nu, int nv, int step) {
	using R = decltype(T() * U());
	BasicSignal<T, TIME_DOMAIN> u(nu);
	BasicSignal<U, TIME_DOMAIN> v(nv);
	fill(u, "u");
	fill(v, "v");
	const int full = nu + nv - 1, mn = std::min(nu, nv);
	dsym_assert(ConvolutionLength(nu, nv, CONV_FULL) == size_t(full), "full length");
	dsym_assert(ConvolutionLength(nu, nv, CONV_CENTRAL) == size_t(std::max(nu, nv) - mn + 1), "central length");
	const int how = dsym_choose("how", 0, 4);
	if (how == 0) {	 // full and central
		const auto f = Convolution(u, v, CONV_FULL), c = Convolution(u, v, CONV_CENTRAL);
		BasicSignal<R, TIME_DOMAIN> f2(full, R(3)), c2(c.size(), R(5));
		Convolution(f2, u, v, CONV_FULL);
		Convolution(c2, AsView(u), v, CONV_CENTRAL);
		dsym_assert(f.size() == size_t(full) && c.size() == size_t(std::max(nu, nv) - mn + 1), "result length");
		for (int n = 0; n < full; ++n) {
			element(f[n], conv(u, v, n), mn, "full");
			element(f2[n], conv(u, v, n), mn, "full into output");
		}
		for (int n = 0; n < (int)c.size(); ++n) {
			element(c[n], conv(u, v, n + mn - 1), mn, "central");
			element(c2[n], conv(u, v, n + mn - 1), mn, "central into output");
		}
		return;
	}
	const int offset = dsym_choose("offset", 0, full - 1);
	int len = dsym_choose("length", 0, step ? std::min(full - offset, 7) : full - offset);
	if (step && len == 7) len = full - offset;
	if (how == 1) {
		const auto r = Convolution(u, v, offset, len);
		dsym_assert(r.size() == size_t(len), "part length");
		for (int n = 0; n < len; ++n) element(r[n], conv(u, v, n + offset), mn, "part");
		return;
	}
	// into the middle of a buffer
	std::vector<R> o(len + 2);
	fill(o, "out");
	const auto o0 = o;
	BasicSignalView<R, TIME_DOMAIN> vo(o.begin() + 1, size_t(len));
	if (how == 2) Convolution(vo, u, v, size_t(offset));
	else if (how == 3) Convolution(vo, u, v, size_t(offset), false);
	else Convolution(vo, v, u, size_t(offset));
	for (int n = 0; n < len; ++n) element(o[n + 1], conv(u, v, n + offset, how == 3 ? wide(o0[n + 1]) : 0), mn, how == 3 ? "accumulated" : "overwritten");
	dsym::same(o[0], o0[0], "before output");
	dsym::same(o[len + 1], o0[len + 1], "after output");
}
template <class T, class U>
void small() {
	const int nu = dsym_choose("nu", 1, NMAX), nv = dsym_choose("nv", 1, NMAX);
	api<T, U>(nu, nv, 0);
}
template <class T, class U>
void around() {
	constexpr int wide = THOROUGH_AROUND || !is_complex_v<T>;
	const int nu = dsym_choose("nu", 32, wide ? 34 : 33), nv = dsym_choose("nv", wide ? 33 : 34, wide ? 36 : 35);
	api<T, U>(nu, nv, 1);
}
HARNESS C10_small_f() { small<float, float>(); }
HARNESS C10_small_d() { small<double, double>(); }
HARNESS C10_small_cf() { small<std::complex<float>, std::complex<float>>(); }
HARNESS C10_small_f_cf() { small<float, std::complex<float>>(); }
HARNESS C10_small_cd_d() { small<std::complex<double>, double>(); }
HARNESS C10_around_f() { around<float, float>(); }
HARNESS C10_around_d() { around<double, double>(); }
HARNESS C10_around_cf() { around<std::complex<float>, std::complex<float>>(); }
// @thoroughonly C10_around_f_cf
// @thoroughonly C10_around_cd_d
HARNESS C10_around_f_cf() { around<float, std::complex<float>>(); }
HARNESS C10_around_cd_d() { around<std::complex<double>, double>(); }

template <class T, class U>
void kernel() {
	using R = decltype(T() * U());
	const int nu = dsym_choose("nu", 1, KU), nv = dsym_choose("nv", 1, KV), full = nu + nv - 1;
	const int which = dsym_choose("kernel", 0, 4), acc = which == 2 ? 0 : dsym_choose("accumulate", 0, 1);
	const int offset = dsym_choose("offset", 0, full - 1);
	const int len = dsym_choose("length", 1, std::min(full - offset, 10));
	std::vector<T> u(nu);
	std::vector<U> v(nv);
	std::vector<R> o(len + 2);
	fill(u, "u");
	fill(v, "v");
	fill(o, "out");
	const auto o0 = o;
	const auto f = o.begin() + 1, l = o.begin() + 1 + len;
	switch (which) {
		case 0: kernels::ConvolutionNaive(u.begin(), u.end(), v.begin(), v.end(), f, l, offset, acc); break;
		case 1: kernels::ConvolutionSlide(u.begin(), u.end(), v.begin(), v.end(), f, l, offset, acc); break;
		case 2: kernels::ConvolutionReduce(u.begin(), u.end(), v.begin(), v.end(), f, l, offset); break;
		case 3: kernels::ConvolutionReduceVec(u.begin(), u.end(), v.begin(), v.end(), f, l, offset, acc, std::plus<>{}); break;
		default: kernels::ConvolutionReduceVec(u.begin(), u.end(), v.begin(), v.end(), f, l, offset, acc); break;
	}
	for (int n = 0; n < len; ++n) element(o[n + 1], conv(u, v, n + offset, acc ? wide(o0[n + 1]) : 0), nu, "kernel element");
	dsym::same(o[0], o0[0], "before output");
	dsym::same(o[len + 1], o0[len + 1], "after output");
}
HARNESS C10_kernel_f() { kernel<float, float>(); }
HARNESS C10_kernel_d() { kernel<double, double>(); }

// slide exchanges its operands at 512
HARNESS C10_kernel_512() {
	const int nu = dsym_choose("nu", 511, 514), nv = dsym_choose("nv", 511, 514);
	const int full = nu + nv - 1, at[] = { 0, 3, 508, 511, 513, 700, full - 4 };
	const int offset = at[dsym_choose("at", 0, 6)];
	std::vector<float> u(nu), v(nv), o(4);
	fill(u, "u");
	fill(v, "v");
	kernels::ConvolutionSlide(u.begin(), u.end(), v.begin(), v.end(), o.begin(), o.end(), offset);
	for (int n = 0; n < 4; ++n) element(o[n], conv(u, v, n + offset), 514, "long kernel element");
}

HARNESS C10_empty() {
	const int nu = dsym_choose("nu", 0, 5), nv = dsym_choose("nv", 0, 5);
	if (nu && nv) return;
	SignalF u(nu, 1.f), v(nv, 2.f), o;
	dsym_assert(ConvolutionLength(nu, nv, CONV_FULL) == 0 && ConvolutionLength(nu, nv, CONV_CENTRAL) == 0, "empty length");
	const int central = dsym_choose("central", 0, 1);
	if (central) {
		dsym_assert(Convolution(u, v, CONV_CENTRAL).empty(), "empty central");
		Convolution(o, u, v, CONV_CENTRAL);
	}
	else {
		dsym_assert(Convolution(u, v, CONV_FULL).empty(), "empty full");
		Convolution(o, u, v, CONV_FULL);
	}
	dsym_assert(o.empty(), "still empty");
}
HARNESS C10_reject() {
	const int nu = dsym_choose("nu", 1, 4), nv = dsym_choose("nv", 1, 4), len = dsym_choose("len", 0, 9), how = dsym_choose("how", 0, 2);
	SignalF u(nu, 1.f), v(nv, 2.f), o(len, 1.f);
	const uint64_t offset = (uint64_t)dsym_i64("offset", INT64_MIN, INT64_MAX);
	const uint64_t full = nu + nv - 1;
	if (how == 0) dsym_assume((offset > full) | (offset + len > full));
	if (how == 1 && len == (int)full) return;
	if (how == 2 && len == std::max(nu, nv) - std::min(nu, nv) + 1) return;
	dsym_reject_begin("part outside of the full convolution, or output of the wrong size");
	if (how == 0) Convolution(o, u, v, offset);
	else if (how == 1) Convolution(o, u, v, CONV_FULL);
	else Convolution(o, u, v, CONV_CENTRAL);
	dsym_reject_end();
}
