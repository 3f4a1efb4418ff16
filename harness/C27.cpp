// C27: bisection encloses a sign change, Newton's method finds roots
// @bound any continuous function: function values at every visited point are independent arbitrary numbers (float: every bit pattern but NaN, double: [-100,100]); brackets [0,1], [-3,5], [5,-3] and [1e6,1e6+16] narrowed up to 6 times (thorough 8), three brackets of up to 5 adjacent numbers with no tolerance; affine functions with any root in [-4,4], any slope in [1/8,8] of either sign, any bracket within [-6,6] at least 1 wide narrowed up to 6 times, cubic functions with one real root; Newton: any affine function from any start in [-100,100], any function whose first two values are in [-4,4] and derivatives in [0.5,4] (then a root) from any start in [-4,4]
// @assume affine and cubic functions, Newton's method: arithmetic on the reals
#include "dsym.h"
#include <cmath>
#include <limits>
#include <dspbb/Math/Solvers.hpp>
using namespace dspbb;

#ifdef THOROUGH
constexpr int K = 8;
#else
constexpr int K = 6;
#endif

template <class T>
struct Visited {
	T at[64], value[64];
	int count = 0;
};
template <class T>
T lookup(Visited<T>& v, T x, T (*fresh)()) {
	for (int i = 0; i < v.count; ++i)
		if (v.at[i] == x) return v.value[i];
	dsym_assert(v.count < 60, "terminates");
	const T value = fresh();
	v.at[v.count] = x;
	v.value[v.count++] = value;
	return value;
}
float anyFloat() {
	const float f = dsym_anyf32("f");
	dsym_assume(f == f);
	return f;
}
double someDouble() { return dsym_f64("f", -100, 100); }

template <class T>
void check(Visited<T>& v, T a, T b, T r, T precision) {
	dsym_assert(r >= std::min(a, b) && r <= std::max(a, b), "within the bracket");
	bool positive = false, negative = false;
	for (int i = 0; i < v.count; ++i) {
		if (std::abs(v.at[i] - r) > precision) continue;
		positive = positive || v.value[i] >= 0;
		negative = negative || v.value[i] <= 0;
	}
	dsym_assert(positive && negative, "sign change within the tolerance");
}
template <class T>
void bracket(T a, T b, T tolerance, T precision, T (*fresh)()) {
	Visited<T> v;
	const T fa = lookup(v, a, fresh), fb = lookup(v, b, fresh);
	dsym_assume((fa <= 0 && fb >= 0) || (fa >= 0 && fb <= 0));
	const T r = Bisect([&v, fresh](T x) { return lookup(v, x, fresh); }, a, b, tolerance);
	check(v, a, b, r, precision);
}
template <class T>
void tolerance(T (*fresh)()) {
	const T list[][2] = { { 0, 1 }, { -3, 5 }, { 5, -3 }, { 1000000, T(1000016) } };
	const int i = dsym_choose("bracket", 0, 3);
	const int steps = dsym_choose("steps", 0, K);
	const T tol = std::abs(list[i][1] - list[i][0]) / T(1 << steps);
	bracket(list[i][0], list[i][1], tol, tol, fresh);
}
template <class T>
void adjacent(T (*fresh)()) {
	const T list[] = { T(1), T(-0.75), T(3) };
	const T a = list[dsym_choose("start", 0, 2)];
	const int steps = dsym_choose("width", 1, 5);
	T b = a;
	for (int i = 0; i < steps; ++i) b = std::nextafter(b, std::numeric_limits<T>::max());
	const bool swap = dsym_choose("swap", 0, 1);
	bracket(swap ? b : a, swap ? a : b, T(0), std::abs(std::nextafter(a, std::numeric_limits<T>::max()) - a), fresh);
}
HARNESS C27_bisect_float() { tolerance<float>(anyFloat); }
HARNESS C27_bisect_double() { tolerance<double>(someDouble); }
HARNESS C27_adjacent_float() { adjacent<float>(anyFloat); }
HARNESS C27_adjacent_double() { adjacent<double>(someDouble); }

HARNESS C27_affine() {
	dsym_real_mode(1);
	const double root = dsym_f64("root", -4, 4), a = dsym_f64("a", -6, 6), b = dsym_f64("b", -6, 6);
	const double slope = dsym_choose("rising", 0, 1) ? dsym_f64("slope", 0.125, 8) : dsym_f64("slope", -8, -0.125);
	dsym_assume(std::abs(b - a) >= 1);
	dsym_assume(root >= std::min(a, b) && root <= std::max(a, b));
	const double tolerance = 0.25;
	const double r = Bisect([&](double x) { return slope * (x - root); }, a, b, tolerance);
	dsym_assert(std::abs(r - root) <= tolerance / 2 + 1e-9, "half the tolerance from the root");
}
HARNESS C27_cubic() {
	dsym_real_mode(1);
	const double root = dsym_f64("root", -2.9, 4.9), c = dsym_f64("c", 0, 2);
	const double tolerance = 8. / 16;
	const double r = Bisect([&](double x) { return (x - root) * (x * x + c); }, -3., 5., tolerance);
	dsym_assume(c > 0.01);
	dsym_assert(std::abs(r - root) <= tolerance / 2 + 1e-9, "half the tolerance from the root");
}
HARNESS C27_newton() {
	dsym_real_mode(1);
	const double root = dsym_f64("root", -4, 4), x0 = dsym_f64("x0", -100, 100);
	const double slope = dsym_choose("rising", 0, 1) ? dsym_f64("slope", 0.125, 8) : dsym_f64("slope", -8, -0.125);
	const double r = NewtonRaphson([&](double x) { return slope * (x - root); }, [&](double) { return slope; }, x0);
	dsym::close(r, root, 1e-9, "root");
}
// any function at all: every step is Newton's, and the last one is small or no longer shrinks
HARNESS C27_newton_steps() {
	dsym_real_mode(5);
	const double x0 = dsym_f64("x0", -4, 4), tolerance = dsym_choose("tolerant", 0, 1) ? 0.125 : 0.0;
	double at[8], f[8], d[8];
	int count = 0, last = -1, order[32], calls = 0;
	auto point = [&](double x) {
		for (int i = 0; i < count; ++i)
			if (at[i] == x) return i;
		dsym_assert(count < 6, "terminates");
		at[count] = x;
		f[count] = count < 2 ? dsym_f64("value", -4, 4) : 0.0;
		d[count] = dsym_f64("derivative", 0.5, 4);
		return count++;
	};
	const double r = NewtonRaphson([&](double x) {
		last = point(x);
		dsym_assert(calls < 30, "terminates");
		order[calls++] = last;
		return f[last]; }, [&](double x) { const int i = point(x); return d[i]; }, x0, tolerance);
	dsym_assert(calls > 0 && last >= 0, "evaluates the function");
	if (last < 0) return;
	dsym::close(at[0], x0, 1e-9, "starts at the guess");
	for (int i = 1; i < count; ++i) dsym::alike(at[i], at[i - 1] - f[i - 1] / d[i - 1], "step");
	dsym::alike(r, at[last] - f[last] / d[last], "last step");
	const double step = std::abs(f[last] / d[last]);
	int before = -1;
	for (int i = 0; i < calls; ++i)
		if (order[i] != last) before = order[i];
	dsym_assert(step <= tolerance || (before >= 0 && step >= std::abs(f[before] / d[before])), "goes on while the steps shrink");
}
