// C11: overlap-add convolution equals direct convolution for every chunk size
// @bound lengths 1..7 by 1..4 (and exchanged; double 4..6, complex 1..5 by 1..3; thorough 1..10 by 1..5, complex 1..8 by 1..4), every output offset and length, chunk sizes 2|v|-1 .. 2|v|+3 (thorough +6), |u|+|v|-1 and the automatic size; float, double, complex and mixed samples in [-4,4]; rejection: every 64-bit offset, every chunk size below 2|v|-1
// @assume twiddle factors are those of the C library's sin and cos (evaluated concretely)
#include "dsym.h"
#include <dspbb/Math/Convolution.hpp>
#include <dspbb/Math/OverlapAdd.hpp>
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
using namespace dspbb;

#ifdef THOROUGH
constexpr int NL = 10, NS = 5, NC = 6, NLC = 8, NSC = 4;
#else
constexpr int NL = 7, NS = 4, NC = 3, NLC = 5, NSC = 3;
#endif
template <class T>
std::complex<double> wide(T x) {
	if constexpr (is_complex_v<T>) return { x.real(), x.imag() };
	else return { x, 0 };
}
template <class U, class V>
std::complex<double> conv(const U& u, const V& v, int n, std::complex<double> init) {
	double re = init.real(), im = init.imag();
	for (int i = 0; i < (int)u.size(); ++i) {
		const int j = n - i;
		if (j < 0 || j >= (int)v.size()) continue;
		const auto x = wide(u[i]), y = wide(v[j]);
		re += x.real() * y.real() - x.imag() * y.imag();
		im += x.imag() * y.real() + x.real() * y.imag();
	}
	return { re, im };
}
template <class R>
void element(R actual, std::complex<double> expected, const char* id) {
	const double tol = std::is_same_v<remove_complex_t<R>, float> ? 0.05 : 1e-10;
	dsym::close(wide(actual).real(), expected.real(), tol, id);
	if constexpr (is_complex_v<R>) dsym::close(wide(actual).imag(), expected.imag(), tol, id);
}
template <class T>
void fill(T& s, const char* n) {
	for (auto& v : s) v = dsym::In<std::decay_t<decltype(v)>>::rval(n, 4);
}

template <class T, class U>
void ola() {
	using R = decltype(T() * U());
	constexpr bool big = !is_complex_v<T> && !is_complex_v<U>;
	constexpr bool dbl = big && std::is_same_v<T, double> && NL == 7;
	int nu = dsym_choose("longer", dbl ? 4 : 1, big ? NL - dbl : NLC), nv = dsym_choose("shorter", 1, std::min(nu, big ? NS : NSC));
	const int chunkChoice = dsym_choose("chunk", 0, NC + 2);
	const int chunk = chunkChoice == 0 ? 0 : chunkChoice == 1 ? nu + nv - 1 : 2 * nv - 1 + chunkChoice - 2;
	if (chunk && chunk < 2 * nv - 1) return;
	if (nu != nv && dsym_choose("exchange", 0, 1)) std::swap(nu, nv);
	BasicSignal<T, TIME_DOMAIN> u(nu);
	BasicSignal<U, TIME_DOMAIN> v(nv);
	fill(u, "u");
	fill(v, "v");
	const int full = nu + nv - 1, mn = std::min(nu, nv);
	const int how = dsym_choose("how", 0, 3);
	if (how == 0) {
		const auto f = OverlapAdd(u, v, CONV_FULL, chunk), c = OverlapAdd(u, v, CONV_CENTRAL, chunk);
		BasicSignal<R, TIME_DOMAIN> f2(full, R(3)), c2(c.size(), R(5));
		OverlapAdd(f2, u, v, CONV_FULL, chunk);
		OverlapAdd(c2, AsView(u), v, CONV_CENTRAL, chunk);
		dsym_assert(f.size() == size_t(full) && c.size() == size_t(std::max(nu, nv) - mn + 1), "result length");
		for (int n = 0; n < full; ++n) {
			element(f[n], conv(u, v, n, 0), "full");
			element(f2[n], conv(u, v, n, 0), "full into output");
		}
		for (int n = 0; n < (int)c.size(); ++n) {
			element(c[n], conv(u, v, n + mn - 1, 0), "central");
			element(c2[n], conv(u, v, n + mn - 1, 0), "central into output");
		}
		return;
	}
	const int offset = dsym_choose("offset", 0, full - 1);
	const int len = dsym_choose("length", 0, full - offset);
	if (how == 1) {
		const auto r = OverlapAdd(u, v, offset, len, chunk);
		dsym_assert(r.size() == size_t(len), "part length");
		for (int n = 0; n < len; ++n) element(r[n], conv(u, v, n + offset, 0), "part");
		return;
	}
	std::vector<R> o(len + 2);
	fill(o, "out");
	const auto o0 = o;
	BasicSignalView<R, TIME_DOMAIN> vo(o.begin() + 1, size_t(len));
	OverlapAdd(vo, u, v, size_t(offset), chunk, how == 2);
	for (int n = 0; n < len; ++n) element(o[n + 1], conv(u, v, n + offset, how == 3 ? wide(o0[n + 1]) : 0), how == 3 ? "accumulated" : "overwritten");
	dsym::same(o[0], o0[0], "before output");
	dsym::same(o[len + 1], o0[len + 1], "after output");
}
HARNESS C11_f() { ola<float, float>(); }
HARNESS C11_d() { ola<double, double>(); }
HARNESS C11_cf() { ola<std::complex<float>, std::complex<float>>(); }
HARNESS C11_cd_d() { ola<std::complex<double>, double>(); }
HARNESS C11_f_cf() { ola<float, std::complex<float>>(); }

HARNESS C11_empty() {
	const int nu = dsym_choose("nu", 0, 3), nv = dsym_choose("nv", 0, 3), chunk = dsym_choose("chunk", 0, 4);
	if (nu && nv) return;
	SignalF u(nu, 1.f), v(nv, 2.f), o;
	if (dsym_choose("central", 0, 1)) {
		dsym_assert(OverlapAdd(u, v, CONV_CENTRAL, chunk).empty(), "empty central");
		OverlapAdd(o, u, v, CONV_CENTRAL, chunk);
	}
	else {
		dsym_assert(OverlapAdd(u, v, CONV_FULL, chunk).empty(), "empty full");
		OverlapAdd(o, u, v, CONV_FULL, chunk);
	}
	dsym_assert(o.empty(), "still empty");
}
HARNESS C11_reject() {
	const int nu = dsym_choose("nu", 1, 4), nv = dsym_choose("nv", 1, 4), len = dsym_choose("len", 0, 9), how = dsym_choose("how", 0, 3);
	SignalF u(nu, 1.f), v(nv, 2.f), o(len, 1.f);
	const uint64_t offset = (uint64_t)dsym_i64("offset", INT64_MIN, INT64_MAX);
	const uint64_t full = nu + nv - 1;
	const int mn = std::min(nu, nv);
	if (how == 0) dsym_assume((offset > full) | (offset + len > full));
	if (how == 1 && len == (int)full) return;
	if (how == 2 && len == std::max(nu, nv) - mn + 1) return;
	const int chunk = how == 3 && mn > 1 ? dsym_choose("chunk", 1, 2 * mn - 2) : 8;
	if (how == 3 && mn == 1) return;
	dsym_reject_begin("part outside of the full convolution, output of the wrong size or chunk too small");
	if (how == 0) OverlapAdd(o, u, v, offset, chunk);
	else if (how == 1) OverlapAdd(o, u, v, CONV_FULL, chunk);
	else if (how == 2) OverlapAdd(o, u, v, CONV_CENTRAL, chunk);
	else OverlapAdd(u, v, CONV_FULL, chunk);
	dsym_reject_end();
}
