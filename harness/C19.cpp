// C19: decimation and expansion pick and place exactly the right samples
// @bound lengths 0..17 (thorough 0..40), rates 1..9 (thorough 1..20), any sample value (bit-precise), real and complex, signals and views into larger buffers, outputs of every wrong size up to 3 off
#include "dsym.h"
#include <dspbb/Filtering/Resample.hpp>
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
using namespace dspbb;

#ifdef THOROUGH
constexpr int N = 40, R = 20;
#else
constexpr int N = 17, R = 9;
#endif
template <class T>
std::vector<T> fill(Signal<T>& s) {
	std::vector<T> v;
	for (auto& x : s) v.push_back(x = dsym::In<T>::any("x"));
	return v;
}

template <class T>
void decimate() {
	const int n = dsym_choose("length", 0, N), rate = dsym_choose("rate", 1, R);
	Signal<T> in(n);
	const auto x = fill(in);
	size_t m = 0;
	for (int i = 0; i < n; i += rate) ++m;
	const int form = dsym_choose("form", 0, 3);
	if (form == 3) {
		const int off = dsym_choose("off", -3, 3);
		if (off == 0 || int(m) + off < 0) return;
		Signal<T> out(m + off);
		dsym_reject_begin("wrong output size accepted");
		Decimate(out, in, rate);
		dsym_reject_end();
		return;
	}
	Signal<T> out(form == 0 ? 0 : m + (form == 2 ? 2 : 0), T(42));
	if (form == 0) out = Decimate(in, rate);
	if (form == 1) Decimate(out, in, rate);
	if (form == 2) Decimate(AsView(out).subsignal(1, m), AsConstView(in), rate);
	dsym_assert(out.size() == m + (form == 2 ? 2 : 0), "decimated size");
	for (size_t i = 0; i < m; ++i) dsym::same(out[i + (form == 2)], x[i * rate], "decimated sample");
	if (form == 2) {
		dsym::same(out[0], T(42), "before output");
		dsym::same(out[m + 1], T(42), "after output");
	}
	for (int i = 0; i < n; ++i) dsym::same(in[i], x[i], "input unchanged");
}
template <class T>
void expand() {
	const int n = dsym_choose("length", 0, N), rate = dsym_choose("rate", 1, R);
	Signal<T> in(n);
	const auto x = fill(in);
	const size_t m = n * rate;
	const int form = dsym_choose("form", 0, 3);
	if (form == 3) {
		const int off = dsym_choose("off", -3, 3);
		if (off == 0 || int(m) + off < 0) return;
		Signal<T> out(m + off);
		dsym_reject_begin("wrong output size accepted");
		Expand(out, in, rate);
		dsym_reject_end();
		return;
	}
	Signal<T> out(form == 0 ? 0 : m + (form == 2 ? 2 : 0), T(42));
	if (form == 0) out = Expand(in, rate);
	if (form == 1) Expand(out, in, rate);
	if (form == 2) Expand(AsView(out).subsignal(1, m), AsConstView(in), rate);
	dsym_assert(out.size() == m + (form == 2 ? 2 : 0), "expanded size");
	for (size_t i = 0; i < m; ++i) dsym::same(out[i + (form == 2)], i % rate ? T(0) : x[i / rate], "expanded sample");
	if (form == 2) {
		dsym::same(out[0], T(42), "before output");
		dsym::same(out[m + 1], T(42), "after output");
	}
	const auto back = Decimate(AsConstView(out).subsignal(form == 2, m), rate);
	dsym_assert(back.size() == size_t(n), "size of decimated expansion");
	for (int i = 0; i < n; ++i) dsym::same(back[i], x[i], "decimated expansion");
}
HARNESS C19_decimate_float() { decimate<float>(); }
HARNESS C19_decimate_complex() { decimate<std::complex<double>>(); }
HARNESS C19_expand_double() { expand<double>(); }
HARNESS C19_expand_complex() { expand<std::complex<float>>(); }
