// C12: FIR filtering is independent of how the stream is cut into blocks
// @bound filters of 1..5 taps (complex and overlap-add partly 1..4; thorough 1..7), streams of up to 8 samples (complex 6, overlap-add 5..6; thorough 10) cut into up to 4 blocks (any lengths, empty blocks included), direct and overlap-add execution (automatic and minimal to +2 chunk sizes), arbitrary initial state; stateless filtering of 1..5 by 1..5 samples; long blocks of 30..37 samples with 32..34 taps (crossing the switch between convolution algorithms); float, double, complex; samples, taps and state in [-4,4]
// @assume twiddle factors are those of the C library's sin and cos (evaluated concretely)
#include "dsym.h"
#include <dspbb/Filtering/FIR.hpp>
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
using namespace dspbb;

#ifdef THOROUGH
constexpr int TAPS = 7, STREAM = 10;
#else
constexpr int TAPS = 5, STREAM = 8;
#endif
template <class T>
std::complex<double> wide(T x) {
	if constexpr (is_complex_v<T>) return { x.real(), x.imag() };
	else return { x, 0 };
}
template <class R>
void element(R actual, std::complex<double> expected, const char* id, double scale = 1) {
	const double tol = (std::is_same_v<remove_complex_t<R>, float> ? 0.05 : 1e-10) * scale;
	dsym::close(wide(actual).real(), expected.real(), tol, id);
	if constexpr (is_complex_v<R>) dsym::close(wide(actual).imag(), expected.imag(), tol, id);
}
template <class T>
void fill(T& s, const char* n) {
	for (auto& v : s) v = dsym::In<std::decay_t<decltype(v)>>::rval(n, 4);
}
// history h: the initial state followed by the stream
template <class H, class V>
std::complex<double> causal(const H& h, const V& f, int n) {
	double re = 0, im = 0;
	for (int k = 0; k < (int)f.size(); ++k) {
		const int i = n + (int)f.size() - 1 - k;
		const auto x = wide(h[i]), y = wide(f[k]);
		re += x.real() * y.real() - x.imag() * y.imag();
		im += x.imag() * y.real() + x.real() * y.imag();
	}
	return { re, im };
}

template <class T, class U>
void stream(bool ola, int taps, int total, int blocks, double scale = 1, int minBlock = 0) {
	using R = decltype(T() * U());
	BasicSignal<U, TIME_DOMAIN> f(taps);
	BasicSignal<T, TIME_DOMAIN> state(taps - 1);
	std::vector<T> h;
	fill(f, "tap");
	fill(state, "state");
	for (const auto& s : state) h.push_back(s);
	const int chunkChoice = ola ? dsym_choose("chunk", 0, 3) : 0;
	const size_t chunk = chunkChoice == 0 ? 0 : 2 * taps - 2 + chunkChoice;
	const int form = dsym_choose("form", 0, 1);
	int done = 0;
	for (int b = 0; b < blocks && done < total; ++b) {
		const int len = b == blocks - 1 ? total - done : dsym_choose("block", std::min(minBlock, total - done), total - done);
		BasicSignal<T, TIME_DOMAIN> x(len);
		fill(x, "x");
		for (const auto& s : x) h.push_back(s);
		if (form == 0) {
			const auto y = ola ? Filter(x, f, state, FILTER_OLA, chunk) : Filter(x, f, state, FILTER_CONV);
			dsym_assert(y.size() == size_t(len), "block size");
			for (int n = 0; n < len; ++n) element(y[n], causal(h, f, done + n), "filtered stream", scale);
		}
		else {
			std::vector<R> o(len + 2);
			fill(o, "out");
			const auto o0 = o;
			BasicSignalView<R, TIME_DOMAIN> vo(o.begin() + 1, size_t(len));
			auto vs = AsView(state);
			if (ola) Filter(vo, AsView(x), f, vs, FILTER_OLA, chunk);
			else Filter(vo, AsView(x), f, vs, FILTER_CONV);
			for (int n = 0; n < len; ++n) element(o[n + 1], causal(h, f, done + n), "filtered stream into output", scale);
			dsym::same(o[0], o0[0], "before output");
			dsym::same(o[len + 1], o0[len + 1], "after output");
		}
		done += len;
		dsym_assert(state.size() == size_t(taps - 1), "state size");
		for (int i = 0; i < taps - 1; ++i) dsym::same(state[i], h[done + i], "state holds the last samples");
		for (int i = 0; i < len; ++i) dsym::same(x[i], h[h.size() - len + i], "input unchanged");
	}
}
template <class T, class U>
void small(bool ola, int taps, int total) {
	const int t = dsym_choose("taps", 1, taps);
	stream<T, U>(ola, t, dsym_choose("total", 1, total), 4);
}
HARNESS C12_conv_f() { small<float, float>(false, TAPS, STREAM); }
HARNESS C12_conv_d() { small<double, double>(false, TAPS, STREAM); }
HARNESS C12_conv_cf_f() { small<std::complex<float>, float>(false, TAPS, STREAM - 2); }
HARNESS C12_conv_cf() { small<std::complex<float>, std::complex<float>>(false, TAPS - 1, STREAM - 2); }
HARNESS C12_ola_f() { small<float, float>(true, TAPS, STREAM - 2); }
HARNESS C12_ola_d() { small<double, double>(true, TAPS - 1, STREAM - 2); }
HARNESS C12_ola_cf_f() { small<std::complex<float>, float>(true, TAPS - 1, STREAM - 3); }
HARNESS C12_ola_cf() { small<std::complex<float>, std::complex<float>>(true, TAPS - 1, STREAM - 3); }
HARNESS C12_long_f() {
	const int taps = dsym_choose("taps", 32, 34);
	stream<float, float>(false, taps, dsym_choose("total", 66, 68), 2, 100, 30);
}
// more taps than samples in a block, by overlap-add
HARNESS C12_ola_short_blocks_f() {
	const int taps = dsym_choose("taps", 6, 8), len = dsym_choose("length", 2, 7);
	stream<float, float>(true, taps, 2 * len, 2, 4, len);
}

// taps of another kind than the samples
template <class T, class U>
void stateless() {
	using R = decltype(T() * U());
	const int nu = dsym_choose("n", 1, 5), nv = dsym_choose("taps", 1, 5);
	BasicSignal<T, TIME_DOMAIN> u(nu);
	BasicSignal<U, TIME_DOMAIN> v(nv);
	fill(u, "u");
	fill(v, "v");
	const int chunkChoice = dsym_choose("chunk", 0, 2), ola = dsym_choose("ola", 0, 1), central = dsym_choose("central", 0, 1);
	if (!ola && chunkChoice) return;
	const size_t chunk = chunkChoice == 0 ? 0 : 2 * std::min(nu, nv) - 2 + chunkChoice;
	const int at = central ? std::min(nu, nv) - 1 : 0, len = central ? std::max(nu, nv) - std::min(nu, nv) + 1 : nu + nv - 1;
	BasicSignal<R, TIME_DOMAIN> a(len, R(3)), b;
	if (central) {
		if (ola) Filter(a, u, v, CONV_CENTRAL, FILTER_OLA, chunk), b = Filter(u, v, CONV_CENTRAL, FILTER_OLA, chunk);
		else Filter(a, u, v, CONV_CENTRAL, FILTER_CONV), b = Filter(u, v, CONV_CENTRAL, FILTER_CONV);
	}
	else {
		if (ola) Filter(a, u, v, CONV_FULL, FILTER_OLA, chunk), b = Filter(u, v, CONV_FULL, FILTER_OLA, chunk);
		else Filter(a, u, v, CONV_FULL, FILTER_CONV), b = Filter(u, v, CONV_FULL, FILTER_CONV);
	}
	dsym_assert(b.size() == size_t(len), "filtered length");
	for (int n = 0; n < len; ++n) {
		double re = 0, im = 0;
		for (int i = 0; i < nu; ++i) {
			const int j = n + at - i;
			if (j < 0 || j >= nv) continue;
			const auto x = wide(u[i]), y = wide(v[j]);
			re += x.real() * y.real() - x.imag() * y.imag();
			im += x.imag() * y.real() + x.real() * y.imag();
		}
		element(a[n], { re, im }, "stateless filtering into output");
		element(b[n], { re, im }, "stateless filtering");
	}
}
HARNESS C12_stateless_f() { stateless<float, float>(); }
HARNESS C12_stateless_d_cd() { stateless<double, std::complex<double>>(); }
HARNESS C12_stateless_cf_f() { stateless<std::complex<float>, float>(); }

HARNESS C12_reject() {
	const int taps = dsym_choose("taps", 1, 4), s = dsym_choose("state", 0, 4), n = dsym_choose("n", 1, 4), o = dsym_choose("out", 1, 4), ola = dsym_choose("ola", 0, 1);
	if (s == taps - 1 && n == o) return;
	SignalF f(taps, 1.f), state(s, 1.f), x(n, 1.f), out(o, 1.f);
	dsym_reject_begin("state or output of the wrong size");
	if (ola) Filter(out, x, f, state, FILTER_OLA, 16);
	else Filter(out, x, f, state, FILTER_CONV);
	dsym_reject_end();
}
