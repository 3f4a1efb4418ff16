// C06: element-wise signal arithmetic
#include "dsym.h"
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
#include <stdexcept>
using namespace dspbb;

#ifdef THOROUGH
constexpr int NMAX = 19, PADMAX = 3;
#else
constexpr int NMAX = 11, PADMAX = 1;
#endif

template <class A, class B>
auto apply(int op, A a, B b) {
	switch (op) {
		case 0: return a + b;
		case 1: return a - b;
		case 2: return a * b;
		default: return a / b;
	}
}
template <class R, class A, class B>
void apply3(int op, R& r, const A& a, const B& b) {
	switch (op) {
		case 0: Add(r, a, b); break;
		case 1: Subtract(r, a, b); break;
		case 2: Multiply(r, a, b); break;
		default: Divide(r, a, b); break;
	}
}
template <class R, class A, class B>
void applyOps(int op, R& r, const A& a, const B& b) {
	switch (op) {
		case 0: r = a + b; break;
		case 1: r = a - b; break;
		case 2: r = a * b; break;
		default: r = a / b; break;
	}
}
template <class A, class B>
void applyAsg(int op, A& a, const B& b) {
	switch (op) {
		case 0: a += b; break;
		case 1: a -= b; break;
		case 2: a *= b; break;
		default: a /= b; break;
	}
}

// operand values: real types take any bit pattern; complex types take real
// numbers in [-8,8] (divisors stay away from zero).
template <class T>
T operand(const char* n, bool divisor) {
	if constexpr (!is_complex_v<T>) return dsym::In<T>::any(n);
	else if (!divisor) return dsym::In<T>::rval(n, 8);
	else {
		using F = typename T::value_type;
		F re, im;
		if constexpr (sizeof(F) == 4) re = dsym_f32(n, 1, 2), im = dsym_f32(n, -2, 2);
		else re = dsym_f64(n, 1, 2), im = dsym_f64(n, -2, 2);
		return { re, im };
	}
}
// mixed operations take real numbers for both
template <class T>
T operandMixed(const char* n, bool divisor) {
	if constexpr (is_complex_v<T>) return operand<T>(n, divisor);
	else if constexpr (sizeof(T) == 4) return divisor ? dsym_f32(n, 1, 2) : dsym_f32(n, -8, 8);
	else return divisor ? dsym_f64(n, 1, 2) : dsym_f64(n, -8, 8);
}
template <class R>
void check(int op, R actual, R expected, const char* id) {
	if constexpr (!is_complex_v<R>) dsym::same(actual, expected, id);
	else {
		// |quotient| <= 8*sqrt(2)/1, |product| <= 128
		const double eps = sizeof(R) == 8 ? 1.2e-7 : 2.3e-16;
		if (op < 2) dsym::same(actual, expected, id);
		else dsym::close(actual, expected, 1024 * eps, id);
	}
}
template <class T, class U>
T draw(const char* n, bool div) {
	if constexpr (is_complex_v<T> || is_complex_v<U>) return operandMixed<T>(n, div);
	else return operand<T>(n, div);
}

// shape: 0 signal-signal, 1 signal-scalar, 2 scalar-signal
template <class T, class U>
void three() {
	using R = decltype(T() * U());
	const int op = dsym_choose("op", 0, 3);
	const int shape = dsym_choose("shape", 0, 2);
	const int n = dsym_choose("n", 0, NMAX);
	const int pad = dsym_choose("pad", 0, PADMAX);
	std::vector<T> a(n + pad + 1);
	std::vector<U> b(n + pad + 1);
	std::vector<R> r(n + 2 * pad + 2);
	for (auto& v : a) v = draw<T, U>("a", false);
	for (auto& v : b) v = draw<U, T>("b", op == 3);
	for (auto& v : r) v = R(77);
	const std::vector<T> a0 = a;
	const std::vector<U> b0 = b;
	BasicSignalView<const T, TIME_DOMAIN> va(a.begin() + pad, size_t(n));
	BasicSignalView<const U, TIME_DOMAIN> vb(b.begin() + 1, size_t(n));
	BasicSignalView<R, TIME_DOMAIN> vr(r.begin() + pad + 1, size_t(n));
	if (shape == 0) apply3(op, vr, va, vb);
	else if (shape == 1) apply3(op, vr, va, b[0]);
	else apply3(op, vr, a[0], vb);
	for (int i = 0; i < n; ++i) {
		const T x = shape == 2 ? a0[0] : a0[i + pad];
		const U y = shape == 1 ? b0[0] : b0[i + 1];
		check<R>(op, r[pad + 1 + i], apply(op, x, y), "element");
	}
	for (int i = 0; i < pad + 1; ++i) {
		dsym::same(r[i], R(77), "before output untouched");
		dsym::same(r[pad + 1 + n + i], R(77), "after output untouched");
	}
	for (size_t i = 0; i < a.size(); ++i) dsym::same(a[i], a0[i], "first operand untouched");
	for (size_t i = 0; i < b.size(); ++i) dsym::same(b[i], b0[i], "second operand untouched");
	// binary operators
	BasicSignal<R, TIME_DOMAIN> o;
	if (shape == 0) applyOps(op, o, va, vb);
	else if (shape == 1) applyOps(op, o, va, b[0]);
	else applyOps(op, o, a[0], vb);
	dsym_assert(o.size() == size_t(n), "operator result size");
	for (int i = 0; i < n; ++i) {
		const T x = shape == 2 ? a0[0] : a0[i + pad];
		const U y = shape == 1 ? b0[0] : b0[i + 1];
		check<R>(op, o[i], apply(op, x, y), "operator element");
	}
}

// output aliases an input: compound operators and three operand functions
template <class T, class U>
void inplace() {
	const int op = dsym_choose("op", 0, 3);
	const int form = dsym_choose("form", 0, 6);
	const int n = dsym_choose("n", 0, NMAX);
	BasicSignal<T, TIME_DOMAIN> a(n + 2);
	BasicSignal<U, TIME_DOMAIN> b(n);
	for (auto& v : a) v = draw<T, U>("a", op == 3);
	for (auto& v : b) v = draw<U, T>("b", op == 3);
	const U s = draw<U, T>("s", op == 3);
	const BasicSignal<T, TIME_DOMAIN> a0 = a;
	auto va = AsView(a).subsignal(1, n);
	BasicSignalView<const T, TIME_DOMAIN> vc = va;
	switch (form) {
		case 0: applyAsg(op, va, b); break;
		case 1: applyAsg(op, va, s); break;
		case 2: apply3(op, va, va, b); break;
		case 3: apply3(op, va, va, s); break;
		case 4: apply3(op, va, s, va); break;
		case 5: apply3(op, va, b, va); break;
		default: apply3(op, va, vc, vc); break;
	}
	for (int i = 0; i < n; ++i) {
		const T x = a0[i + 1];
		T e;
		switch (form) {
			case 0:
			case 2: e = apply(op, x, b[i]); break;
			case 1:
			case 3: e = apply(op, x, s); break;
			case 4: e = apply(op, s, x); break;
			case 5: e = apply(op, b[i], x); break;
			default: e = apply(op, x, x); break;
		}
		check<T>(op, a[i + 1], e, "in-place element");
	}
	dsym::same(a[0], a0[0], "before output untouched");
	dsym::same(a[n + 1], a0[n + 1], "after output untouched");
}

template <class T>
void whole() {  // compound operators on whole signals
	const int op = dsym_choose("op", 0, 3);
	const bool scalar = dsym_choose("scalar", 0, 1);
	const int n = dsym_choose("n", 0, NMAX);
	BasicSignal<T, FREQUENCY_DOMAIN> a(n), b(n);
	for (auto& v : a) v = draw<T, T>("a", false);
	for (auto& v : b) v = draw<T, T>("b", op == 3);
	const T s = draw<T, T>("s", op == 3);
	const auto a0 = a;
	if (scalar) applyAsg(op, a, s);
	else applyAsg(op, a, b);
	dsym_assert(a.size() == size_t(n), "size kept");
	for (int i = 0; i < n; ++i) check<T>(op, a[i], apply(op, a0[i], scalar ? s : b[i]), "compound element");
}

HARNESS C06_three_f() { three<float, float>(); }
HARNESS C06_three_d() { three<double, double>(); }
HARNESS C06_three_cf() { three<std::complex<float>, std::complex<float>>(); }
HARNESS C06_three_f_cf() { three<float, std::complex<float>>(); }
HARNESS C06_three_cf_f() { three<std::complex<float>, float>(); }
HARNESS C06_three_cd_d() { three<std::complex<double>, double>(); }
HARNESS C06_three_d_cd() { three<double, std::complex<double>>(); }
HARNESS C06_three_cd() { three<std::complex<double>, std::complex<double>>(); }
HARNESS C06_inplace_f() { inplace<float, float>(); }
HARNESS C06_inplace_d() { inplace<double, double>(); }
HARNESS C06_inplace_cf() { inplace<std::complex<float>, std::complex<float>>(); }
HARNESS C06_inplace_cf_f() { inplace<std::complex<float>, float>(); }
HARNESS C06_inplace_cd() { inplace<std::complex<double>, std::complex<double>>(); }
HARNESS C06_whole_f() { whole<float>(); }
HARNESS C06_whole_cd() { whole<std::complex<double>>(); }

HARNESS C06_reject() {
	const int op = dsym_choose("op", 0, 3);
	const int form = dsym_choose("form", 0, 5);
	const int nr = dsym_choose("nr", 0, 6), na = dsym_choose("na", 0, 6), nb = dsym_choose("nb", 0, 6);
	BasicSignal<float, TIME_DOMAIN> r(nr, 1.f), a(na, 2.f), b(nb, 3.f);
	bool ok = nr == na && nr == nb;
	if (form == 1 || form == 3) ok = nr == na;
	if (form == 2) ok = nr == nb;
	if (form >= 4) ok = na == nb;
	if (ok) return;
	if (form == 1 && nb != 0) return;
	dsym_reject_begin("different lengths");
	try {
		switch (form) {
			case 0: apply3(op, r, a, b); break;
			case 1: apply3(op, r, a, 2.f); break;
			case 2: apply3(op, r, 2.f, b); break;
			case 3: applyAsg(op, r, a); break;
			case 4: applyAsg(op, a, b); break;
			default: applyOps(op, r, a, b); break;
		}
	}
	catch (...) {
		return;
	}
	dsym_reject_end();
}
