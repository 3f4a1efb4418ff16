// C07: element-wise functions map every element independently of its position
// @bound signals of up to 11 elements (thorough: 19) behind up to 1 (thorough: 3) leading elements, separate output or in place, views and signals; element values: any bit pattern (absolute value of complex numbers: parts in [-8,8], exact arithmetic)
// @assume libm functions are uninterpreted symbols (any function of their arguments); xsimd's vector versions of transcendental functions are replaced by applying the scalar function to every lane (harness/xsimd_stub.h)
#include "dsym.h"
#include "xsimd_stub.h"
#include <dspbb/Math/Functions.hpp>
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
using namespace dspbb;

#ifdef THOROUGH
constexpr int NMAX = 19, PADMAX = 3;
#else
constexpr int NMAX = 11, PADMAX = 1;
#endif

#define FN(NAME, STD)                                             \
	struct NAME##_ {                                              \
		template <class O, class I>                               \
		static void two(O&& o, const I& i) { NAME(o, i); }        \
		template <class I>                                        \
		static auto one(const I& i) { return NAME(i); }           \
		template <class T>                                        \
		static auto scalar(T v) { return std::STD(v); }           \
	};
FN(Abs, abs)
FN(Arg, arg)
FN(Real, real)
FN(Imag, imag)
FN(Conj, conj)
FN(Log, log)
FN(Log2, log2)
FN(Log10, log10)
FN(Exp, exp)
FN(Sqrt, sqrt)
FN(Cbrt, cbrt)
FN(Sin, sin)
FN(Cos, cos)
FN(Tan, tan)
FN(Asin, asin)
FN(Acos, acos)
FN(Atan, atan)
FN(Sinh, sinh)
FN(Cosh, cosh)
FN(Tanh, tanh)
FN(Asinh, asinh)
FN(Acosh, acosh)
FN(Atanh, atanh)
FN(Erf, erf)
FN(Erfc, erfc)
FN(TGamma, tgamma)
FN(LGamma, lgamma)
template <class T>
struct Exponent {
	static constexpr T value = T(3.7);
};
template <class T>
struct Exponent<std::complex<T>> {
	static constexpr std::complex<T> value{ T(3.7), T(-0.3) };
};
struct Pow_ {
	template <class O, class I>
	static void two(O&& o, const I& i) { Pow(o, i, Exponent<std::remove_const_t<typename I::value_type>>::value); }
	template <class I>
	static auto one(const I& i) { return Pow(BasicSignal<std::remove_const_t<typename I::value_type>, TIME_DOMAIN>(i.begin(), i.end()), Exponent<std::remove_const_t<typename I::value_type>>::value); }
	template <class T>
	static auto scalar(T v) { return std::pow(v, Exponent<T>::value); }
};

template <class F, class T>
void element(T x, decltype(F::scalar(T())) actual, const char* id) {
	using R = decltype(F::scalar(T()));
	if constexpr (std::is_same_v<F, Abs_> && is_complex_v<T>) dsym::close(actual, F::scalar(x), sizeof(R) == 4 ? 12 * 6e-7 : 12 * 1.2e-15, id);
	else dsym::same(actual, F::scalar(x), id);
}
template <class F, class T>
void map() {
	using R = decltype(F::scalar(T()));
	const int n = dsym_choose("n", 0, NMAX), pad = dsym_choose("pad", 0, PADMAX), how = dsym_choose("how", 0, 2);
	std::vector<T> a(n + pad + 1);
	for (auto& v : a) {
		// square root of a sum of squares: rounding is the business of libm and xsimd
		if constexpr (std::is_same_v<F, Abs_> && is_complex_v<T>) dsym_real_mode(1), v = dsym::In<T>::rval("a", 8);
		else v = dsym::In<T>::any("a");
	}
	const auto a0 = a;
	BasicSignalView<const T, TIME_DOMAIN> va(a.begin() + pad, size_t(n));
	if (how == 0) {
		std::vector<R> r(n + 2 * pad + 2, R(77));
		BasicSignalView<R, TIME_DOMAIN> vr(r.begin() + pad + 1, size_t(n));
		F::two(vr, va);
		for (int i = 0; i < n; ++i) element<F>(a0[pad + i], r[pad + 1 + i], "element");
		for (int i = 0; i <= pad; ++i) {
			dsym::same(r[i], R(77), "before output untouched");
			dsym::same(r[pad + 1 + n + i], R(77), "after output untouched");
		}
		for (size_t i = 0; i < a.size(); ++i) dsym::same(a[i], a0[i], "input untouched");
	}
	else if (how == 1) {
		const auto r = F::one(va);
		static_assert(std::is_same_v<std::decay_t<decltype(r[0])>, R>);
		dsym_assert(r.size() == size_t(n), "result size");
		for (int i = 0; i < n; ++i) element<F>(a0[pad + i], r[i], "returned element");
	}
	else if constexpr (std::is_same_v<R, T>) {
		BasicSignalView<T, TIME_DOMAIN> vr(a.begin() + pad, size_t(n));
		F::two(vr, va);
		for (int i = 0; i < (int)a.size(); ++i) {
			if (i >= pad && i < pad + n) element<F>(a0[i], a[i], "in-place element");
			else dsym::same(a[i], a0[i], "outside of output untouched");
		}
	}
}
template <class T, class... F>
void any() {
	const int f = dsym_choose("function", 0, sizeof...(F) - 1);
	int k = 0;
	((f == k++ ? map<F, T>() : void()), ...);
}
#define REAL_FUNCTIONS Abs_, Real_, Imag_, Conj_, Log_, Log2_, Log10_, Exp_, Sqrt_, Cbrt_, Sin_, Cos_, Tan_, Asin_, Acos_, Atan_, Sinh_, Cosh_, Tanh_, Asinh_, Acosh_, Atanh_, Erf_, Erfc_, TGamma_, LGamma_, Pow_
#define COMPLEX_FUNCTIONS Abs_, Arg_, Real_, Imag_, Conj_, Log_, Log10_, Exp_, Sqrt_, Sin_, Cos_, Tan_, Asin_, Acos_, Atan_, Sinh_, Cosh_, Tanh_, Asinh_, Acosh_, Atanh_, Pow_
HARNESS C07_map_f() { any<float, REAL_FUNCTIONS>(); }
HARNESS C07_map_d() { any<double, REAL_FUNCTIONS>(); }
HARNESS C07_map_cf() { any<std::complex<float>, COMPLEX_FUNCTIONS>(); }
HARNESS C07_map_cd() { any<std::complex<double>, COMPLEX_FUNCTIONS>(); }
HARNESS C07_arg_f() { any<float, Arg_>(); }
HARNESS C07_arg_d() { any<double, Arg_>(); }
