// C15: factored polynomials keep their roots through every operation
// @bound construction from 0..4 roots (thorough 0..5) that are real, complex or conjugates of earlier ones in every arrangement; histories of 2 operations (thorough 3) among copy and move construction and assignment, self assignment, resize, regroup and writes on polynomials with 0..3 real roots and 0..2 pairs (the single resize and regroup: 0..5 and 0..3 before and after); evaluation of up to 4 real roots and 3 pairs, and of up to 7 coefficients; roots, coefficients and points in [-2,2]
// @assume arithmetic on the reals in evaluation: rounding is out of scope
#include "dsym.h"
#include <dspbb/Math/Polynomials.hpp>
using namespace dspbb;
using C = std::complex<double>;
using P = FactoredPolynomial<double>;

#ifdef THOROUGH
constexpr int CONSTRUCT = 5, OPS = 3;
#else
constexpr int CONSTRUCT = 4, OPS = 2;
#endif

struct Model {
	std::vector<double> real;
	std::vector<C> pairs;
	size_t num() const { return real.size() + 2 * pairs.size(); }
};
void check(const P& p, const Model& m) {
	dsym_assert(p.num_real_roots() == m.real.size() && p.real_roots().size() == m.real.size(), "number of real roots");
	dsym_assert(p.num_complex_pairs() == m.pairs.size() && p.complex_pairs().size() == m.pairs.size(), "number of pairs");
	dsym_assert(p.num_complex_roots() == 2 * m.pairs.size() && p.num_roots() == m.num() && p.order() == m.num(), "number of roots");
	for (size_t i = 0; i < m.real.size(); ++i) dsym::same(p.real_roots()[i], m.real[i], "real root");
	for (size_t i = 0; i < m.pairs.size(); ++i) dsym::same(p.complex_pairs()[i], m.pairs[i], "complex pair");
}
void make(P& p, Model& m, int real, int pairs, const char* n) {
	p.resize(real, pairs);
	for (auto& r : p.real_roots()) m.real.push_back(r = dsym::In<double>::rval(n, 2));
	for (auto& r : p.complex_pairs()) {
		r = dsym::In<C>::rval(n, 2);
		m.pairs.push_back(r);
	}
}
void resize(P& p, Model& m, int real, int pairs) {
	if (dsym_choose("fill given", 0, 1)) {
		const double fr = dsym_f64("fill", -2, 2);
		const C fc = dsym::In<C>::rval("fillc", 2);
		p.resize(real, pairs, fr, fc);
		m.real.resize(real, fr);
		m.pairs.resize(pairs, fc);
	}
	else {
		p.resize(real, pairs);
		m.real.resize(real);
		m.pairs.resize(pairs);
	}
}
void regroup(P& p, Model& m, size_t real) {
	const size_t num = m.num();
	const double fr = dsym_f64("fill", -2, 2);
	const C fc = dsym::In<C>::rval("fillc", 2);
	if (real > num || (num - real) % 2 != 0) {
		dsym_reject_begin("impossible grouping accepted");
		p.regroup(real, fr, fc);
		dsym_reject_end();
		return;
	}
	p.regroup(real, fr, fc);
	m.real.resize(real, fr);
	m.pairs.resize((num - real) / 2, fc);
}

HARNESS C15_resize() {
	P p;
	Model m;
	const int r0 = dsym_choose("real", 0, 5), c0 = dsym_choose("pairs", 0, 3);
	make(p, m, r0, c0, "root");
	const int r1 = dsym_choose("new real", 0, 5), c1 = dsym_choose("new pairs", 0, 3);
	resize(p, m, r1, c1);
	check(p, m);
}
HARNESS C15_regroup() {
	P p;
	Model m;
	const int r0 = dsym_choose("real", 0, 5), c0 = dsym_choose("pairs", 0, 3);
	make(p, m, r0, c0, "root");
	regroup(p, m, dsym_choose("new real", 0, 12));
	check(p, m);
}

HARNESS C15_history() {
	P p;
	Model m;
	const int r0 = dsym_choose("real", 0, 3), c0 = dsym_choose("pairs", 0, 2);
	make(p, m, r0, c0, "root");
	for (int i = 0; i < OPS; ++i) {
		const int op = dsym_choose("op", 0, 8);
		if (op <= 3) {
			// another polynomial is created from or assigned to this one, then they part
			P q;
			Model other;
			if (op == 2) {
				const int n = dsym_choose("other real", 0, 2);
				make(q, other, n, (n + 1) % 2, "other");
			}
			if (op == 0) {
				P copy{ p };
				check(copy, m);
				q.resize(1, 1);
				P& ret = (q = copy);
				dsym_assert(&ret == &q, "assignment returns its target");
				copy.resize(0, 0);
			}
			if (op == 1) {
				P& ret = (q = p);
				dsym_assert(&ret == &q, "assignment returns its target");
			}
			if (op == 2) {
				P& ret = (p = q);
				dsym_assert(&ret == &p, "assignment returns its target");
				m = other;
			}
			if (op == 3) {
				P moved{ std::move(p) };
				check(moved, m);
				P& ret = (q = std::move(moved));
				dsym_assert(&ret == &q, "assignment returns its target");
				p = q;
			}
			check(p, m);
			check(q, m);
			// writing one does not affect the other
			for (auto& r : q.real_roots()) r = 17;
			for (auto& r : q.complex_pairs()) r = { 17, 17 };
			check(p, m);
		}
		if (op == 4) {
			P& self = p;
			P& ret = (p = self);
			dsym_assert(&ret == &p, "assignment returns its target");
		}
		if (op == 5) {
			P q;
			Model other;
			make(q, other, 1, 1, "other");
			P& ret = (p = std::move(q));
			dsym_assert(&ret == &p, "assignment returns its target");
			m = other;
			dsym_assert(q.num_roots() == 0, "moved from");
		}
		if (op == 6) {
			const int real = dsym_choose("new real", 0, 3);
			resize(p, m, real, dsym_choose("new pairs", 0, 2));
		}
		if (op == 7) regroup(p, m, dsym_choose("new real", 0, 7));
		if (op == 8) {
			for (size_t k = 0; k < m.real.size(); ++k) p.real_roots()[k] = m.real[k] = dsym_f64("write", -2, 2);
			for (size_t k = 0; k < m.pairs.size(); ++k) p.complex_pairs()[k] = m.pairs[k] = dsym::In<C>::rval("writec", 2);
		}
		check(p, m);
	}
}

// value of the product over the roots
C times(C a, C b) { return { a.real() * b.real() - a.imag() * b.imag(), a.real() * b.imag() + a.imag() * b.real() }; }
C product(const Model& m, C x) {
	C v = 1;
	for (auto r : m.real) v = times(v, { x.real() - r, x.imag() });
	for (auto r : m.pairs) {
		v = times(v, { x.real() - r.real(), x.imag() - r.imag() });
		v = times(v, { x.real() - r.real(), x.imag() + r.imag() });
	}
	return v;
}

HARNESS C15_construct() {
	dsym_real_mode(1);
	const int n = dsym_choose("roots", 0, CONSTRUCT);
	std::vector<C> roots;
	Model m;
	for (int i = 0; i < n; ++i) {
		const int kind = dsym_choose("kind", 0, 2 + i);
		if (kind == 0) roots.push_back({ dsym_f64("real", -2, 2), 0.0 });
		else if (kind == 1) {
			const double re = dsym_f64("re", -2, 2);
			roots.push_back({ re, dsym_f64("im", 0.25, 2) });
		}
		else if (kind == 2) {
			const double re = dsym_f64("re", -2, 2);
			roots.push_back({ re, dsym_f64("im", -2, -0.25) });
		}
		else roots.push_back({ roots[kind - 3].real(), -roots[kind - 3].imag() });
	}
	bool paired = true;
	for (auto r : roots) {
		int same = 0, conj = 0;
		for (auto o : roots) {
			same += o.real() == r.real() && o.imag() == r.imag();
			conj += o.real() == r.real() && o.imag() == -r.imag();
		}
		paired = paired && same == conj;
		if (r.imag() == 0) m.real.push_back(r.real());
		else if (r.imag() > 0) m.pairs.push_back(r);
	}
	if (!paired) {
		dsym_reject_begin("unpaired complex root accepted");
		P p{ roots.begin(), roots.end() };
		dsym_reject_end();
		return;
	}
	P p{ roots.begin(), roots.end() };
	dsym_assert(p.num_real_roots() == m.real.size() && p.num_complex_pairs() == m.pairs.size(), "number of constructed roots");
	Model got;
	for (auto r : p.real_roots()) got.real.push_back(r);
	for (auto r : p.complex_pairs()) got.pairs.push_back(r);
	const double x = dsym_f64("x", -2, 2);
	// the polynomial in x determines the roots
	Model a, b;
	a.real = got.real;
	b.real = m.real;
	dsym::close(product(a, x).real(), product(b, x).real(), 1e-6, "constructed real roots");
	a.real.clear();
	b.real.clear();
	a.pairs = got.pairs;
	b.pairs = m.pairs;
	dsym::close(product(a, x).real(), product(b, x).real(), 1e-6, "constructed pairs");
}
HARNESS C15_construct_list() {
	const C a = dsym::In<C>::rval("a", 2);
	const double r = dsym_f64("r", -2, 2), s = dsym_f64("s", -2, 2);
	dsym_assume(a.imag() > 0.25);
	const P p = { a, r, std::conj(a), s };
	check(p, { { r, s }, { a } });
	const P e;
	check(e, {});
}

HARNESS C15_evaluate() {
	dsym_real_mode(1);
	P p;
	Model m;
	const int real = dsym_choose("real", 0, 4);
	make(p, m, real, dsym_choose("pairs", 0, 3), "root");
	const C x = dsym::In<C>::rval("x", 2);
	dsym::close(p(x), product(m, x), 1e-6, "factored at complex point");
	dsym::close(p(x.real()), product(m, x.real()).real(), 1e-6, "factored at real point");
}
HARNESS C15_coefficients() {
	dsym_real_mode(1);
	const int n = dsym_choose("coefficients", 0, 7);
	std::vector<double> c(n);
	for (auto& v : c) v = dsym_f64("c", -2, 2);
	Polynomial<double> p;
	switch (dsym_choose("how", 0, 1)) {
		case 0: p = Polynomial<double>{ c.begin(), c.end() }; break;
		default: {
			p.resize(n, 3);
			for (int i = 0; i < n; ++i) {
				dsym::same(p.coefficients()[i], 3.0, "value of new coefficients");
				p.coefficients()[i] = c[i];
			}
		}
	}
	dsym_assert(p.size() == size_t(n) && p.order() == size_t(n ? n - 1 : 0) && p.coefficients().size() == size_t(n), "size of polynomial");
	const C x = dsym::In<C>::rval("x", 2);
	C e = 0, xn = 1, r = 0;
	double rn = 1;
	for (int i = 0; i < n; ++i) {
		dsym::same(p.coefficients()[i], c[i], "coefficient");
		e += C{ xn.real() * c[i], xn.imag() * c[i] };
		r += rn * c[i];
		xn = times(xn, x);
		rn *= x.real();
	}
	dsym::close(p(x), e, 1e-6, "polynomial at complex point");
	dsym::close(p(x.real()), r.real(), 1e-6, "polynomial at real point");
	const int k = dsym_choose("resized", 0, 7);
	p.resize(k, 5);
	for (int i = 0; i < k; ++i) dsym::same(p.coefficients()[i], i < n ? c[i] : 5.0, "resized coefficient");
}
