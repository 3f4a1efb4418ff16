// C03: intervals behave as half-open sets of numbers
// @bound all interval ends and points: every 64-bit integer in [-2^40,2^40], every int in [-2^20,2^20], every finite float and double bit pattern for equality, every bit pattern for shifts, every float and double in [-1e6,1e6] for the set operations
#include "dsym.h"
#include <cmath>
#include <dspbb/Utility/Interval.hpp>
using namespace dspbb;
template <class T>
T value(const char* n, bool real = true) {
	if constexpr (std::is_same_v<T, int64_t>) return dsym_i64(n, -(1ll << 40), 1ll << 40);
	else if constexpr (std::is_same_v<T, int>) return (int)dsym_i64(n, -(1 << 20), 1 << 20);
	else if (real) return dsym::In<T>::rval(n, 1e6);
	else {
		const T v = dsym::In<T>::any(n);
		dsym_assume(v - v == 0);  // finite
		return v;
	}
}
template <class T>
Interval<T> interval(const char* n, bool real = true) {
	const T a = value<T>(n, real), b = value<T>(n, real);
	dsym_assume(a <= b);
	return { a, b };
}
template <class T>
bool in(T x, const Interval<T>& i) { return (i.first <= x) & (x < i.last); }

template <class T>
void equality() {
	const auto a = interval<T>("a", false), b = interval<T>("b", false);
	const bool e = (a.first == b.first) & (a.last == b.last);
	dsym_assert((a == b) == e, "equal exactly if both ends are equal");
	dsym_assert((a != b) == !e, "unequal exactly if an end differs");
	dsym_assert(a == a, "reflexive");
	dsym_assert((b == a) == (a == b), "symmetric");
}
template <class T>
void sets() {
	const auto a = interval<T>("a"), b = interval<T>("b");
	const T x = value<T>("x");
	const auto i = Intersection(a, b);
	dsym_assert(in(x, i) == (in(x, a) & in(x, b)), "intersection");
	dsym_assert(i.first <= i.last, "intersection is an interval");
	const bool dis = IsDisjoint(a, b);
	if (dis) dsym_assert(!(in(x, a) & in(x, b)), "disjoint intervals have no common point");
	else {
		const T w = a.first < b.first ? b.first : a.first;	// the first common point
		dsym_assert(in(w, a) & in(w, b), "intervals that are not disjoint have a common point");
	}
	dsym_assert(IsDisjoint(b, a) == dis, "disjointness is symmetric");
	const auto e = EncompassingUnion(a, b);
	if (in(x, a) | in(x, b)) dsym_assert(in(x, e), "encompassing union contains both");
	dsym_assert(((e.first == a.first) | (e.first == b.first)) & ((e.last == a.last) | (e.last == b.last)), "encompassing union is tight");
	const auto u = Union(a, b);
	dsym_assert(u.has_value() == !dis, "union exists exactly for overlapping intervals");
	if (u) dsym_assert(in(x, *u) == (in(x, a) | in(x, b)), "union");
}
template <class T>
void shiftInt() {
	const auto a = interval<T>("a");
	const T s = value<T>("s"), x = value<T>("x");
	dsym_assert(in(T(x + s), a + s) == in(x, a), "shift up");
	dsym_assert(in(T(x - s), a - s) == in(x, a), "shift down");
	auto b = a;
	dsym_assert(&(b += s) == &b, "compound returns itself");
	dsym_assert((b.first == a.first + s) & (b.last == a.last + s), "compound shift up");
	b = a;
	dsym_assert(&(b -= s) == &b, "compound returns itself");
	dsym_assert((b.first == a.first - s) & (b.last == a.last - s), "compound shift down");
	dsym_assert(a.size() == a.last - a.first, "size");
	dsym_assert(((a + s) - s).first == a.first, "shifts cancel");
}
template <class T>
void shiftReal() {
	Interval<T> a{ dsym::In<T>::any("a"), dsym::In<T>::any("a") };
	const T s = dsym::In<T>::any("s");
	dsym::same((a + s).first, a.first + s, "shift up");
	dsym::same((a + s).last, a.last + s, "shift up");
	dsym::same((a - s).first, a.first - s, "shift down");
	dsym::same((a - s).last, a.last - s, "shift down");
	auto b = a;
	b += s;
	dsym::same(b.last, a.last + s, "compound shift up");
	b = a;
	b -= s;
	dsym::same(b.first, a.first - s, "compound shift down");
	dsym::same(a.size(), a.last - a.first, "size");
}
HARNESS C03_equality_i64() { equality<int64_t>(); }
HARNESS C03_equality_i32() { equality<int>(); }
HARNESS C03_equality_f() { equality<float>(); }
HARNESS C03_equality_d() { equality<double>(); }
HARNESS C03_sets_i64() { sets<int64_t>(); }
HARNESS C03_sets_i32() { sets<int>(); }
HARNESS C03_sets_f() { sets<float>(); }
HARNESS C03_sets_d() { sets<double>(); }
HARNESS C03_shift_i64() { shiftInt<int64_t>(); }
HARNESS C03_shift_i32() { shiftInt<int>(); }
HARNESS C03_shift_f() { shiftReal<float>(); }
HARNESS C03_shift_d() { shiftReal<double>(); }
