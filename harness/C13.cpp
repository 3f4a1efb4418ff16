// C13: IIR realisations implement the difference equation in every block split
// @bound numerator and denominator orders 0..3 (thorough 0..5), realisation order equal to or one or two above the system's, 6 input samples (thorough 7) fed in any division into blocks, sample by sample and through Filter, a reset before any sample; cascades of 0..3 sections; coefficients in [-2,2], leading denominator coefficient in [-4,-1/4] or [1/4,4], inputs in [-4,4]; real and complex inputs
// @assume arithmetic on the reals: rounding of the recursion is out of scope
#include "dsym.h"
#include <dspbb/Filtering/IIR/Filter.hpp>
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
using namespace dspbb;

#ifdef THOROUGH
constexpr int ORDER = 5, STEPS = 7;
#else
constexpr int ORDER = 3, STEPS = 6;
#endif
template <class T>
struct Parts {
	static int n() { return 1; }
	static T get(T x, int) { return x; }
};
template <class T>
struct Parts<std::complex<T>> {
	static int n() { return 2; }
	static T get(std::complex<T> x, int i) { return i ? x.imag() : x.real(); }
};
template <class T>
void agree(T a, const double* e, const char* id) {
	for (int i = 0; i < Parts<T>::n(); ++i) dsym::close(Parts<T>::get(a, i), e[i], 1e-6, id);
}
double lead() {
	return dsym_choose("leadSign", 0, 1) ? dsym_f64("lead", -4, -0.25) : dsym_f64("lead", 0.25, 4);
}

// b, a: coefficients from the newest sample backwards
template <class T>
struct Equation {
	std::vector<double> b, a;
	std::vector<T> x;
	std::vector<double> y[2];
	const double* feed(T in) {
		static double out[2];
		x.push_back(in);
		const int n = (int)x.size() - 1;
		for (int p = 0; p < Parts<T>::n(); ++p) {
			double s = 0, r = 0;
			for (int k = 0; k < (int)b.size() && k <= n; ++k) s += b[k] * Parts<T>::get(x[n - k], p);
			for (int k = 1; k < (int)a.size() && k <= n; ++k) r += a[k] * y[p][n - k];
			y[p].push_back((s - r) * (1.0 / a[0]));
			out[p] = y[p].back();
		}
		return out;
	}
	void reset() {
		x.clear();
		y[0].clear();
		y[1].clear();
	}
};

template <class T, class State, class Sys, class Eq>
void drive(State& state, const Sys& sys, Eq& eq, int how) {
	const int resetAt = dsym_choose("resetAt", 0, STEPS - 1);
	for (int n = 0; n < STEPS;) {
		if (n && n == resetAt) {
			state.reset();
			eq.reset();
		}
		const int limit = resetAt > n ? resetAt : STEPS;
		int len = how == 0 ? 1 : dsym_choose("block", 1, limit - n);
		BasicSignal<T, TIME_DOMAIN> x(len), y(len);
		for (auto& v : x) v = dsym::In<T>::rval("x", 4);
		if (how == 0) y[0] = state.feed(x[0], sys);
		else if (how == 1) state.feed(x.begin(), x.end(), y.begin(), sys);
		else if (how == 2) y = Filter(x, sys, state);
		else {
			y = x;
			Filter(y, y, sys, state);  // in-place
		}
		dsym_assert(y.size() == size_t(len), "block size");
		for (int i = 0; i < len; ++i) agree<T>(y[i], eq.feed(x[i]), resetAt && n >= resetAt ? "output after reset" : "output");
		n += len;
	}
}

template <class Form, class T>
void direct() {
	dsym_real_mode(1);
	const int m = dsym_choose("numerator order", 0, ORDER), n = dsym_choose("denominator order", 0, ORDER), extra = dsym_choose("extra", 0, 2);
	const int how = dsym_choose("how", 0, 3);
	if (extra && how > 1) return;
	DiscreteTransferFunction<double> tf;
	Equation<T> eq;
	tf.numerator.resize(m + 1);
	tf.denominator.resize(n + 1);
	for (int i = 0; i <= m; ++i) tf.numerator.coefficients()[i] = dsym_f64("b", -2, 2);
	for (int i = 0; i < n; ++i) tf.denominator.coefficients()[i] = dsym_f64("a", -2, 2);
	tf.denominator.coefficients()[n] = dsym_choose("monic", 0, 1) ? 1 : lead();
	for (int i = m; i >= 0; --i) eq.b.push_back(tf.numerator.coefficients()[i]);
	for (int i = n; i >= 0; --i) eq.a.push_back(tf.denominator.coefficients()[i]);
	dsym_assert(tf.order() == size_t(std::max(m, n)), "order");
	Form state;
	if (dsym_choose("construct", 0, 1)) state = Form(tf.order() + extra);
	else state.order(tf.order() + extra);
	dsym_assert(state.order() == tf.order() + extra, "realisation order");
	drive<T>(state, tf, eq, how);
}
HARNESS C13_direct1() { direct<DirectFormI<double>, double>(); }
HARNESS C13_direct2() { direct<DirectFormII<double>, double>(); }
HARNESS C13_direct1_complex() { direct<DirectFormI<std::complex<double>>, std::complex<double>>(); }
HARNESS C13_direct2_complex() { direct<DirectFormII<std::complex<double>>, std::complex<double>>(); }

template <class T>
struct Cascade {
	std::vector<Equation<T>> eqs;
	double out[2];
	const double* feed(T in) {
		for (int p = 0; p < Parts<T>::n(); ++p) out[p] = Parts<T>::get(in, p);
		for (auto& e : eqs) {
			T v;
			if constexpr (std::is_same_v<T, double>) v = out[0];
			else v = { out[0], out[1] };
			const double* o = e.feed(v);
			out[0] = o[0];
			out[1] = o[1];
		}
		return out;
	}
	void reset() {
		for (auto& e : eqs) e.reset();
	}
};
template <class T>
void cascaded() {
	dsym_real_mode(1);
	const int sections = dsym_choose("sections", 0, 3), extra = dsym_choose("extra", 0, 2), how = dsym_choose("how", 0, 3);
	if (extra && how > 1) return;
	CascadedBiquad<double> sys;
	Cascade<T> eq;
	for (int i = 0; i < sections; ++i) {
		CascadedBiquad<double>::Biquad s;
		s.numOrder = s.denOrder = 2;
		for (auto& c : s.numerator) c = dsym_f64("b", -2, 2);
		for (auto& c : s.denominator) c = dsym_f64("a", -2, 2);
		sys.sections.push_back(s);
		eq.eqs.push_back({ { s.numerator[2], s.numerator[1], s.numerator[0] }, { 1, s.denominator[1], s.denominator[0] } });
	}
	CascadedForm<T> state;
	const int order = 2 * sections + extra;
	if (dsym_choose("construct", 0, 1)) state = CascadedForm<T>(order);
	else state.order(order);
	dsym_assert(state.order() >= size_t(order), "realisation order");
	drive<T>(state, sys, eq, how);
}
HARNESS C13_cascade() { cascaded<double>(); }
HARNESS C13_cascade_complex() { cascaded<std::complex<double>>(); }

// a system given by its zeros and poles, as a user builds it
HARNESS C13_from_zpk() {
	dsym_real_mode(1);
	DiscreteZeroPoleGain<double> zpk;
	const int zr = dsym_choose("real zeros", 0, 2), zc = dsym_choose("zero pairs", 0, 1), pr = dsym_choose("real poles", 0, 2), pc = dsym_choose("pole pairs", 0, 1);
	zpk.gain = dsym_f64("gain", -4, 4);
	zpk.zeros.resize(zr, zc);
	zpk.poles.resize(pr, pc);
	// concrete roots: conversions of symbolic roots are C14's
	for (int i = 0; i < zr; ++i) zpk.zeros.real_roots()[i] = 0.5 - 0.75 * i;
	for (int i = 0; i < pr; ++i) zpk.poles.real_roots()[i] = -0.25 + 0.875 * i;
	if (zc) zpk.zeros.complex_pairs()[0] = { 0.25, 0.5 };
	if (pc) zpk.poles.complex_pairs()[0] = { -0.5, 0.25 };
	const TransferFunction tf{ zpk };
	const CascadedBiquad cascade{ zpk };
	DirectFormI<double> d1{ zpk.order() };
	DirectFormII<double> d2{ zpk.order() };
	CascadedForm<double> c{ zpk.order() };
	for (int n = 0; n < STEPS; ++n) {
		const double x = dsym_f64("x", -4, 4);
		const double y1 = d1.feed(x, tf), y2 = d2.feed(x, tf), y3 = c.feed(x, cascade);
		dsym::close(y2, y1, 1e-6, "direct forms agree");
		dsym::close(y3, y1, 1e-6, "cascade agrees");
	}
}
HARNESS C13_reject() {
	const int n = dsym_choose("system", 0, 4), o = dsym_choose("order", 0, 4), form = dsym_choose("form", 0, 2);
	DiscreteTransferFunction<double> tf;
	tf.numerator.resize(n + 1, 1.0);
	tf.denominator.resize(1, 1.0);
	CascadedBiquad<double> c;
	c.sections.resize(n);
	DirectFormI<double> d1(o);
	DirectFormII<double> d2(o);
	CascadedForm<double> cf(o);
	if (form < 2 ? o >= n : (int)cf.order() >= 2 * n) return;
	dsym_reject_begin("realisation too small for the system");
	if (form == 0) d1.feed(1.0, tf);
	else if (form == 1) d2.feed(1.0, tf);
	else cf.feed(1.0, c);
	dsym_reject_end();
}
