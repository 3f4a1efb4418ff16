// C04: signals behave as value-semantic sequences
// @bound histories of up to 2 operations (thorough: 3) from every start with up to 3 (thorough: 2) elements, every position and length argument; element values: any bit pattern
// @assume the other signal given to append, prepend and insert has up to 2 elements, or is the signal itself for append and prepend
#include "dsym.h"
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
using namespace dspbb;

#ifdef THOROUGH
constexpr int STEPS = 3, N0 = 2, T0 = 1;
#else
constexpr int STEPS = 2, N0 = 3, T0 = 2;
#endif

// the plain sequence the signal is compared to
template <class T>
struct Seq {
	T v[32];
	int n = 0;
	void put(int at, T x) {
		for (int i = n; i > at; --i) v[i] = v[i - 1];
		v[at] = x;
		++n;
	}
	void del(int at) {
		for (int i = at; i + 1 < n; ++i) v[i] = v[i + 1];
		--n;
	}
};

template <class T, eSignalDomain D>
void equal(const BasicSignal<T, D>& s, const Seq<T>& m, const char* id) {
	dsym_assert(s.size() == size_t(m.n), id);
	dsym_assert(s.empty() == (m.n == 0), id);
	dsym_assert(s.capacity() >= s.size(), id);
	for (int i = 0; i < m.n; ++i) dsym::same(s[i], m.v[i], id);
	dsym_assert(s.end() - s.begin() == m.n && s.cend() - s.cbegin() == m.n && s.rend() - s.rbegin() == m.n && s.crend() - s.crbegin() == m.n, id);
	if (m.n) {
		dsym_assert(s.data() == &s[0] && &*s.begin() == s.data() && &*s.cbegin() == s.data(), id);
		dsym::same(*s.rbegin(), m.v[m.n - 1], id);
		dsym::same(*s.crbegin(), m.v[m.n - 1], id);
	}
}

template <class T, eSignalDomain D>
void step(BasicSignal<T, D>& s, Seq<T>& m, BasicSignal<T, D>& t, Seq<T>& k) {
	using S = BasicSignal<T, D>;
	const int op = dsym_choose("op", 0, 21);
	const auto val = [] { return dsym::In<T>::any("v"); };
	switch (op) {
		case 0: {
			const int n = dsym_choose("count", 0, 4);
			s.resize(n);
			while (m.n > n) m.del(m.n - 1);
			while (m.n < n) m.put(m.n, T{});
			break;
		}
		case 1: {
			const int n = dsym_choose("count", 0, 4);
			const T v = val();
			s.resize(n, v);
			while (m.n > n) m.del(m.n - 1);
			while (m.n < n) m.put(m.n, v);
			break;
		}
		case 2:
			s.append(t);
			for (int i = 0; i < k.n; ++i) m.put(m.n, k.v[i]);
			break;
		case 3:
			s.prepend(t);
			for (int i = 0; i < k.n; ++i) m.put(i, k.v[i]);
			break;
		case 4: {
			const T v = val();
			s.push_back(v);
			m.put(m.n, v);
			break;
		}
		case 5: {
			const int n = dsym_choose("count", 0, m.n);
			t = s.extract_front(n);
			k.n = 0;
			for (int i = 0; i < n; ++i) k.put(i, m.v[0]), m.del(0);
			break;
		}
		case 6: {
			const int n = dsym_choose("count", 0, m.n);
			t = s.extract_back(n);
			k.n = 0;
			for (int i = 0; i < n; ++i) k.put(0, m.v[m.n - 1]), m.del(m.n - 1);
			break;
		}
		case 7:
		case 8:
		case 9: {
			const int at = dsym_choose("at", 0, m.n);
			if (op == 7) s.insert(size_t(at), t);
			else if (op == 8) s.insert(s.cbegin() + at, t);
			else s.insert(s.cbegin() + at, t.begin(), t.end());
			for (int i = 0; i < k.n; ++i) m.put(at + i, k.v[i]);
			break;
		}
		case 10: {
			if (m.n == 0) return;
			const int at = dsym_choose("at", 0, m.n - 1);
			s.erase(s.cbegin() + at);
			m.del(at);
			break;
		}
		case 11: {
			const int at = dsym_choose("at", 0, m.n), n = dsym_choose("count", 0, m.n - at);
			s.erase(s.cbegin() + at, s.cbegin() + at + n);
			for (int i = 0; i < n; ++i) m.del(at);
			break;
		}
		case 12:
			s.clear();
			m.n = 0;
			break;
		case 13:
			t = s;
			k = m;
			break;
		case 14:
			t = std::move(s);
			k = m;
			s = S();
			m.n = 0;
			break;
		case 15: {
			if (m.n == 0) return;
			const int at = dsym_choose("at", 0, m.n - 1), how = dsym_choose("how", 0, 3);
			const T v = val();
			switch (how) {
				case 0: s[at] = v; break;
				case 1: *(s.begin() + at) = v; break;
				case 2: *(s.rend() - 1 - at) = v; break;
				default: s.data()[at] = v; break;
			}
			m.v[at] = v;
			break;
		}
		case 16: {
			const bool front = dsym_choose("front", 0, 1);
			if (front) s.prepend(s);
			else s.append(s);
			const int n = m.n;
			for (int i = 0; i < n; ++i) m.put(n + i, m.v[i]);
			break;
		}
		case 17:
			s.reserve(dsym_choose("capacity", 0, 6));
			break;
		case 18: {
			S c(s);
			Seq<T> mc = m;
			S d(std::move(c));
			equal(d, mc, "copied and moved");
			d.push_back(T{});
			break;
		}
		case 19: {
			std::swap(s, t);
			std::swap(m, k);
			break;
		}
		case 20: {	// from iterators, from pointer and count
			S c(s.begin(), s.end()), d(s.size(), s.data());
			equal(c, m, "from iterators");
			equal(d, m, "from pointer and count");
			break;
		}
		default: {
			const int n = dsym_choose("count", 0, 3);
			const T v = val();
			if (dsym_choose("list", 0, 1)) {
				s = S{ v, T{}, v };
				m.n = 3, m.v[0] = v, m.v[1] = T{}, m.v[2] = v;
			}
			else {
				s = S(size_t(n), v);
				m.n = 0;
				while (m.n < n) m.put(m.n, v);
			}
			break;
		}
	}
}

template <class T, eSignalDomain D>
void history() {
	BasicSignal<T, D> s(dsym_choose("n", 0, N0)), t(dsym_choose("nt", 0, T0));
	Seq<T> m, k;
	for (auto& v : s) v = dsym::In<T>::any("s"), m.put(m.n, v);
	for (auto& v : t) v = dsym::In<T>::any("t"), k.put(k.n, v);
	for (int i = 0; i < STEPS; ++i) {
		step(s, m, t, k);
		equal(s, m, "the signal");
		equal(t, k, "the other signal");
	}
}

HARNESS C04_history_f() { history<float, TIME_DOMAIN>(); }
HARNESS C04_history_cf() { history<std::complex<float>, FREQUENCY_DOMAIN>(); }
HARNESS C04_history_d() { history<double, QUEFRENCY_DOMAIN>(); }

// conversions of the element type
template <class T, class U>
void convert() {
	const int n = dsym_choose("n", 0, 5), n0 = dsym_choose("n0", 0, 5);
	BasicSignal<U, TIME_DOMAIN> u(n);
	for (auto& v : u) v = dsym::In<U>::any("u");
	const auto u0 = u;
	BasicSignal<T, TIME_DOMAIN> c(u), a(n0);
	dsym_assert(&(a = u) == &a, "assignment returns the signal");
	dsym_assert(c.size() == size_t(n) && a.size() == size_t(n), "converted size");
	for (int i = 0; i < n; ++i) {
		dsym::same(c[i], T(u0[i]), "constructed");
		dsym::same(a[i], T(u0[i]), "assigned");
		dsym::same(u[i], u0[i], "source unchanged");
	}
}
HARNESS C04_convert_f_d() { convert<float, double>(); }
HARNESS C04_convert_d_f() { convert<double, float>(); }
HARNESS C04_convert_cf_f() { convert<std::complex<float>, float>(); }
HARNESS C04_convert_cd_cf() { convert<std::complex<double>, std::complex<float>>(); }

HARNESS C04_reject() {
	const int n = dsym_choose("n", 0, 5), back = dsym_choose("back", 0, 1);
	SignalF s(n, 1.f);
	const int64_t count = dsym_i64("count", 0, 100000);
	dsym_assume(count > n);
	dsym_reject_begin("extracting more than there is");
	if (back) s.extract_back(count);
	else s.extract_front(count);
	dsym_reject_end();
}
