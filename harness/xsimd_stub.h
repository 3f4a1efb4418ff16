// xsimd's vector versions of transcendental functions are replaced by calling
// the scalar function for every lane: their numerical accuracy is xsimd's
// business and outside of this code base.
#pragma once
#include <cmath>
#include <complex>
#include <xsimd/xsimd.hpp>

namespace xsimd {
template <class T, class F>
batch<T> stub_lanes(const batch<T>& x, F f) {
	alignas(64) T v[batch<T>::size];
	x.store_aligned(v);
	for (auto& e : v) e = f(e);
	return batch<T>::load_aligned(v);
}
template <class T, class F>
batch<std::complex<T>> stub_lanes(const batch<std::complex<T>>& x, F f) {
	std::complex<T> v[batch<std::complex<T>>::size];
	x.store_unaligned(v);
	for (auto& e : v) e = f(e);
	return batch<std::complex<T>>::load_unaligned(v);
}
#define STUB_T(FN, ...) \
	inline batch<__VA_ARGS__> FN(const batch<__VA_ARGS__>& x) { return stub_lanes(x, [](auto e) { return std::FN(e); }); }
#define STUB_R(FN) STUB_T(FN, float) STUB_T(FN, double)
#define STUB_RC(FN) STUB_R(FN) STUB_T(FN, std::complex<float>) STUB_T(FN, std::complex<double>)
STUB_RC(exp)
STUB_RC(log)
STUB_R(log2)
STUB_RC(log10)
STUB_R(cbrt)
STUB_T(sqrt, std::complex<float>)
STUB_T(sqrt, std::complex<double>)
STUB_RC(sin)
STUB_RC(cos)
STUB_RC(tan)
STUB_RC(asin)
STUB_RC(acos)
STUB_RC(atan)
STUB_RC(sinh)
STUB_RC(cosh)
STUB_RC(tanh)
STUB_RC(asinh)
STUB_RC(acosh)
STUB_RC(atanh)
STUB_R(erf)
STUB_R(erfc)
STUB_R(tgamma)
STUB_R(lgamma)
STUB_R(arg)
#define STUB_POW(...) \
	inline batch<__VA_ARGS__> pow(const batch<__VA_ARGS__>& x, const batch<__VA_ARGS__>& y) { \
		__VA_ARGS__ a[batch<__VA_ARGS__>::size], b[batch<__VA_ARGS__>::size]; \
		x.store_unaligned(a); \
		y.store_unaligned(b); \
		for (size_t i = 0; i < batch<__VA_ARGS__>::size; ++i) a[i] = std::pow(a[i], b[i]); \
		return batch<__VA_ARGS__>::load_unaligned(a); \
	}
STUB_POW(float)
STUB_POW(double)
STUB_POW(std::complex<float>)
STUB_POW(std::complex<double>)
#define STUB_ARG(T) \
	inline batch<T> arg(const batch<std::complex<T>>& x) { \
		std::complex<T> a[batch<std::complex<T>>::size]; \
		T r[batch<std::complex<T>>::size]; \
		x.store_unaligned(a); \
		for (size_t i = 0; i < batch<std::complex<T>>::size; ++i) r[i] = std::arg(a[i]); \
		return batch<T>::load_unaligned(r); \
	}
STUB_ARG(float)
STUB_ARG(double)
}  // namespace xsimd
