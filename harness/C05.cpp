// C05: views are exact windows onto their signal
// @bound signals of up to 5 elements (thorough: 7), two nested sub-views with every offset and length; rejection for every 64-bit offset and length; element values: any bit pattern
#include "dsym.h"
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
using namespace dspbb;

#ifdef THOROUGH
constexpr int NMAX = 7;
#else
constexpr int NMAX = 5;
#endif

template <class T, eSignalDomain D>
BasicSignalView<T, D> make(BasicSignal<std::remove_const_t<T>, D>& s, int& lo, int& hi) {
	const int how = dsym_choose("make", 0, 10);
	const int n = (int)s.size();
	lo = 0, hi = n;
	if (how >= 5) lo = dsym_choose("lo", 0, n), hi = dsym_choose("hi", lo, n);
	BasicSignalView<T, D> r;
	const BasicSignal<std::remove_const_t<T>, D>& c = s;
	switch (how) {
		case 0: return s;
		case 1: return AsView(s);
		case 2: r = AsView(s); return r;
		case 3:
			if constexpr (std::is_const_v<T>) return c;
			else return AsView(AsView(s));
		case 4:
			if constexpr (std::is_const_v<T>) return AsConstView(s);
			else return s;
		case 5: return { s.begin() + lo, s.begin() + hi };
		case 6: return { s.begin() + lo, size_t(hi - lo) };
		case 7: return { s.data() + lo, s.data() + hi };
		case 8: return { s.data() + lo, size_t(hi - lo) };
		case 9:
			if constexpr (std::is_const_v<T>) return AsConstView<D>(c.begin() + lo, c.begin() + hi);
			else return AsView<D>(s.begin() + lo, s.begin() + hi);
		default:
			if constexpr (std::is_const_v<T>) return AsConstView<D>(c.begin() + lo, size_t(hi - lo));
			else return AsView<D>(s.begin() + lo, size_t(hi - lo));
	}
}
template <class V>
V sub(V v, int& lo, int& hi) {
	const int how = dsym_choose("sub", 0, 4), n = hi - lo;
	if (how == 4) return v;
	const int k = dsym_choose("k", 0, n);
	switch (how) {
		case 0: hi = lo + k; return v.first(k);
		case 1: lo = hi - k; return v.last(k);
		case 2: lo += k; return v.subsignal(k);
		default: {
			const int c = dsym_choose("c", 0, n - k);
			lo += k, hi = lo + c;
			return v.subsignal(k, c);
		}
	}
}
template <class T, eSignalDomain D>
void windows() {
	using U = std::remove_const_t<T>;
	BasicSignal<U, D> s(dsym_choose("n", 0, NMAX));
	for (auto& v : s) v = dsym::In<U>::any("s");
	const auto s0 = s;
	int lo, hi;
	auto v = make<T, D>(s, lo, hi);
	v = sub(v, lo, hi);
	v = sub(v, lo, hi);
	const size_t n = hi - lo;
	dsym_assert(v.size() == n && v.empty() == (n == 0) && v.size_bytes() == n * sizeof(U), "size");
	dsym_assert(size_t(v.end() - v.begin()) == n && size_t(v.cend() - v.cbegin()) == n && size_t(v.rend() - v.rbegin()) == n && size_t(v.crend() - v.crbegin()) == n, "iterators");
	const BasicSignalView<const U, D> c = AsConstView(v);
	dsym_assert(c.size() == n && AsView(v).size() == n, "as view");
	if (n) {
		dsym_assert(&v[0] == s.data() + lo && v.data() == s.data() + lo && &v.front() == s.data() + lo && &v.back() == s.data() + hi - 1 && c.data() == s.data() + lo && AsView(v).data() == v.data(), "designates the elements");
		dsym_assert(&*v.begin() == s.data() + lo && &*v.cbegin() == s.data() + lo && &*v.rbegin() == s.data() + hi - 1 && &*v.crbegin() == s.data() + hi - 1, "iterators designate the elements");
	}
	for (size_t i = 0; i < n; ++i) dsym::same(v[i], s0[lo + i], "read");
	{  // a signal made of a view holds the same elements
		BasicSignal<U, D> copy(v.begin(), v.end());
		dsym_assert(copy.size() == n, "copied size");
		for (size_t i = 0; i < n; ++i) dsym::same(copy[i], s0[lo + i], "copied");
	}
	if constexpr (!std::is_const_v<T>) {
		if (n == 0) return;
		const int at = dsym_choose("at", 0, (int)n - 1), how = dsym_choose("write", 0, 2);
		const U w = dsym::In<U>::any("w");
		if (how == 0) v[at] = w;
		else if (how == 1) *(v.begin() + at) = w;
		else *(v.rend() - 1 - at) = w;
		for (size_t i = 0; i < s.size(); ++i) dsym::same(s[i], int(i) == lo + at ? w : s0[i], "written element and no other");
	}
}
HARNESS C05_windows_f() { windows<float, TIME_DOMAIN>(); }
HARNESS C05_windows_const_f() { windows<const float, TIME_DOMAIN>(); }
HARNESS C05_windows_cf() { windows<std::complex<float>, FREQUENCY_DOMAIN>(); }
HARNESS C05_windows_const_cd() { windows<const std::complex<double>, QUEFRENCY_DOMAIN>(); }

HARNESS C05_reject() {
	const int n = dsym_choose("n", 0, 6), how = dsym_choose("how", 0, 3);
	SignalF s(n, 1.f);
	auto v = AsView(s);
	const uint64_t k = (uint64_t)dsym_i64("k", INT64_MIN, INT64_MAX), c = (uint64_t)dsym_i64("c", INT64_MIN, INT64_MAX);
	if (how < 3) dsym_assume(k > uint64_t(n));
	else dsym_assume((k > uint64_t(n)) | (c > uint64_t(n)) | (k + c > uint64_t(n)));
	dsym_reject_begin("reaching outside of the viewed range");
	switch (how) {
		case 0: v.first(k); break;
		case 1: v.last(k); break;
		case 2: v.subsignal(k); break;
		default: v.subsignal(k, c); break;
	}
	dsym_reject_end();
}
