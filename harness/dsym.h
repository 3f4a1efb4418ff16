// Interface between harnesses and the symbolic executor (engine/dsym.cpp).
// The same harness is compiled natively against rt_native.cpp to replay
// counterexamples and validate the encoding.
#pragma once
#include <cstddef>
#include <cstdint>

extern "C" {
// a value in [lo,hi], one execution path per value
int64_t dsym_choose(const char* name, int64_t lo, int64_t hi) __attribute__((nothrow));
// a symbolic integer in [lo,hi]
// gcd(a,b) of 0 <= a,b as a single term
int64_t dsym_gcd_i64(int64_t a, int64_t b) __attribute__((nothrow));
// modified Bessel function of the first kind, order zero, as an uninterpreted function
double dsym_i0(double x) __attribute__((nothrow));
float dsym_i0f(float x) __attribute__((nothrow));
int64_t dsym_i64(const char* name, int64_t lo, int64_t hi) __attribute__((nothrow));
// any real number representable as float/double in [lo,hi]
float dsym_f32(const char* name, double lo, double hi) __attribute__((nothrow));
double dsym_f64(const char* name, double lo, double hi) __attribute__((nothrow));
// any integer valued float/double in [lo,hi]
float dsym_if32(const char* name, double lo, double hi) __attribute__((nothrow));
double dsym_if64(const char* name, double lo, double hi) __attribute__((nothrow));
// any bit pattern whatsoever (decided bit-precisely)
float dsym_anyf32(const char* name) __attribute__((nothrow));
double dsym_anyf64(const char* name) __attribute__((nothrow));

void dsym_assume(bool cond);
void dsym_assert(bool cond, const char* id);
// same value (both NaN counts as same)
void dsym_same_f32(float actual, float expected, const char* id);
void dsym_same_f64(double actual, double expected, const char* id);
void dsym_close_f32(float actual, float expected, double tol, const char* id);
void dsym_close_f64(double actual, double expected, double tol, const char* id);
// exact arithmetic: the same polynomial of the inputs and function values, the
// coefficients equal up to rel times the largest one; else: close to 1e-3
void dsym_alike_f32(float actual, float expected, double rel, const char* id);
void dsym_alike_f64(double actual, double expected, double rel, const char* id);
void dsym_observe_f32(float v, const char* id);
void dsym_observe_f64(double v, const char* id);
// what is executed in between must be rejected (assertion or exception)
void dsym_reject_begin(const char* id);
void dsym_reject_end();
// what is executed in between may be rejected
void dsym_may_reject_begin(const char* id);
void dsym_may_reject_end();
// 1: arithmetic on symbolic reals is exact (rounding is out of scope); 2: also, nearly equal divisors share an inverse; +4: comparisons of computed values with the constant zero take them to be different
void dsym_real_mode(int on);
void dsym_done();
int dsym_is_engine();
void dsym_trace_i64(const char* id, int64_t v);
void dsym_trace_f64(const char* id, double v);
}

#define HARNESS extern "C" __attribute__((noinline, used)) void

#include <complex>
#include <vector>

namespace dsym {

inline void same(float a, float e, const char* id) { dsym_same_f32(a, e, id); }
inline void same(double a, double e, const char* id) { dsym_same_f64(a, e, id); }
inline void same(int64_t a, int64_t e, const char* id) { dsym_assert(a == e, id); }
inline void same(int32_t a, int32_t e, const char* id) { dsym_assert(a == e, id); }
inline void same(uint64_t a, uint64_t e, const char* id) { dsym_assert(a == e, id); }
template <class T>
inline void same(std::complex<T> a, std::complex<T> e, const char* id) {
	same(a.real(), e.real(), id);
	same(a.imag(), e.imag(), id);
}
inline void close(float a, float e, double tol, const char* id) { dsym_close_f32(a, e, tol, id); }
inline void close(float a, double e, double tol, const char* id) { dsym_close_f64(a, e, tol, id); }
inline void close(double a, double e, double tol, const char* id) { dsym_close_f64(a, e, tol, id); }
template <class T>
inline void close(std::complex<T> a, std::complex<T> e, double tol, const char* id) {
	close(a.real(), e.real(), tol, id);
	close(a.imag(), e.imag(), tol, id);
}

inline void alike(float a, float e, const char* id) { dsym_alike_f32(a, e, 1e-4, id); }
inline void alike(double a, double e, const char* id) { dsym_alike_f64(a, e, 1e-9, id); }

// inputs by type
template <class T>
struct In;
template <>
struct In<float> {
	static float ival(const char* n, double b) { return dsym_if32(n, -b, b); }
	static float rval(const char* n, double b) { return dsym_f32(n, -b, b); }
	static float any(const char* n) { return dsym_anyf32(n); }
};
template <>
struct In<double> {
	static double ival(const char* n, double b) { return dsym_if64(n, -b, b); }
	static double rval(const char* n, double b) { return dsym_f64(n, -b, b); }
	static double any(const char* n) { return dsym_anyf64(n); }
};
template <class T>
struct In<std::complex<T>> {
	static std::complex<T> ival(const char* n, double b) {
		T r = In<T>::ival(n, b);
		return { r, In<T>::ival(n, b) };
	}
	static std::complex<T> rval(const char* n, double b) {
		T r = In<T>::rval(n, b);
		return { r, In<T>::rval(n, b) };
	}
	static std::complex<T> any(const char* n) {
		T r = In<T>::any(n);
		return { r, In<T>::any(n) };
	}
};

}  // namespace dsym
