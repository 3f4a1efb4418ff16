// C30: least-squares FIR designs minimise the weighted deviation from the requested response
// @bound arbitrary responses: 1..6 taps (thorough 1..9), every response value in [-2,2] at every point of the design grid, default grid and requested grids of 1..8 (thorough 1..14) points, five weight patterns (uniform, alternating, rising, zero in the middle, zero but for one point); band designs: 3 and 4 taps (thorough 3..6) on a grid of 5 points (thorough 7), every position of the band edges strictly between grid points (and edges on grid points and midpoints, coinciding ones included) for low-pass and high-pass, and with a non-empty pass or stop band (band-pass, band-stop), two sets of weights; Hilbert designs: 3, 4 and 7 taps, every transition width in [0,0.5], default and requested grids
// @assume arithmetic on the reals: rounding is out of scope; the design grid and the weights are concrete, so the factorisation of the normal equations is executed concretely for each of them and its right hand side symbolically
// @cflags -DEIGEN_DONT_VECTORIZE -DEIGEN_MAX_ALIGN_BYTES=0 -DEIGEN_NO_DEBUG
#include "dsym.h"
#include <dspbb/Filtering/Resample.hpp>
#include <dspbb/Filtering/FIR.hpp>
#include <cmath>
#include <vector>
using namespace dspbb;

#ifdef THOROUGH
constexpr int GRID = 14, BAND_TAPS = 6, BAND_GRID = 7;
#else
constexpr int GRID = 8, BAND_TAPS = 4, BAND_GRID = 5;
#endif
constexpr double PI = 3.14159265358979323846;

// what the design asks for: the points of its grid and the response and weight there
struct Grid {
	double f[80], d[80], w[80];
	int n = 0, weighed = 0;
	int at(double x) {
		for (int i = 0; i < n; ++i)
			if (std::abs(f[i] - x) < 1e-6) return i;
		f[n] = x;
		d[n] = w[n] = 1e300;
		return n++;
	}
};

template <class T>
void optimal(const Signal<T>& h, const Grid& g, bool rational = false) {
	const int n = h.size(), half = (n + 1) / 2, c = half - 1;
	for (int i = 0; i <= c; ++i) dsym::same(h[i], h[2 * c - i], "symmetric");
	if (n % 2 == 0) dsym::same(h[n - 1], T(0), "unused coefficient");
	// the response at each point of the grid, and no change of a coefficient lowers the sum of its weighted squares
	std::vector<double> a(g.n);
	for (int i = 0; i < g.n; ++i) {
		a[i] = h[c];
		for (int k = 1; k < half; ++k) a[i] += 2 * std::cos(k * PI * g.f[i]) * h[c + k];
	}
	for (int k = 0; k < half; ++k) {
		double designed = 0, requested = 0;
		for (int i = 0; i < g.n; ++i) {
			designed += g.w[i] * g.w[i] * std::cos(k * PI * g.f[i]) * a[i];
			requested += g.w[i] * g.w[i] * std::cos(k * PI * g.f[i]) * g.d[i];
		}
		if (rational) dsym::alike(designed, requested, "optimal");
		else dsym::close(T(designed), T(requested), std::is_same_v<T, float> ? 1e-2 : 1e-7, "optimal");
	}
}
void uniform(const Grid& g, int requested, int taps) {
	const int half = (taps + 1) / 2;
	dsym_assert(g.n >= 2 && g.n >= half, "grid determines the coefficients");
	if (requested) dsym_assert(g.n == std::max(std::max(requested, half), 2), "requested grid");
	for (int i = 0; i < g.n; ++i) {
		bool found = false;
		for (int j = 0; j < g.n; ++j) found = found || std::abs(g.f[j] - double(i) / (g.n - 1)) < 1e-6;
		dsym_assert(found, "uniform grid");
	}
}

//------------------------------------------------------------------------------
template <class T>
void arbitrary(int taps) {
	dsym_real_mode(1);
	const int requested = dsym_choose("grid", 0, GRID), pattern = dsym_choose("weights", 0, 4);
	Grid g;
	Grid* const pg = &g;
	auto response = [pg](auto f) {
		const int i = pg->at(f);
		if (pg->d[i] == 1e300) pg->d[i] = dsym_f64("response", -2, 2);
		return decltype(f)(pg->d[i]);
	};
	auto weight = [pg, pattern](auto f) {
		const int i = pg->at(f);
		switch (pattern) {
			case 0: pg->w[i] = 1; break;
			case 1: pg->w[i] = i % 2 ? 1 : 0.25; break;
			case 2: pg->w[i] = 0.5 + f; break;
			case 3: pg->w[i] = f > 0.3 && f < 0.7 ? 0 : 2; break;
			default: pg->w[i] = i == 1 ? 1 : 0;
		}
		return decltype(f)(pg->w[i]);
	};
	Signal<T> out(taps, T(7));
	if (pattern % 2 || dsym_choose("grid last", 0, 1)) DesignFilter(out, Fir.Arbitrary.LeastSquares.Response(response).Weight(weight).Grid(requested));
	else DesignFilter(out, Fir.Arbitrary.LeastSquares.Grid(requested).Weight(weight).Response(response));
	for (int i = 0; i < g.n; ++i) dsym_assert(g.w[i] < 1e300, "weight of every point asked for");
	uniform(g, requested, taps);
	optimal(out, g);
}
HARNESS C30_arbitrary_1() { arbitrary<double>(dsym_choose("taps", 1, 2)); }
HARNESS C30_arbitrary_3() { arbitrary<double>(3); }
HARNESS C30_arbitrary_4() { arbitrary<double>(4); }
HARNESS C30_arbitrary_5() { arbitrary<double>(5); }
HARNESS C30_arbitrary_6() { arbitrary<double>(6); }
// @thoroughonly C30_arbitrary_7
HARNESS C30_arbitrary_7() { arbitrary<double>(dsym_choose("taps", 7, 9)); }
HARNESS C30_arbitrary_float() { arbitrary<float>(dsym_choose("taps", 2, 4)); }

//------------------------------------------------------------------------------
// rising smoothly from 0 to 1 between the edges
double rise(double f, double begin, double end) {
	if (f <= begin) return 0;
	if (f >= end) return 1;
	const double t = (f - begin) / (end - begin);
	return 3 * t * t - 2 * t * t * t;
}
Grid grid(int n) {
	Grid g;
	g.n = n;
	for (int i = 0; i < n; ++i) g.f[i] = double(i) / (n - 1);
	return g;
}
// sorted edges: any strictly between the points of the grid, or any of the points and the middles between them
void edges(double* e, int count, int n, bool lattice) {
	int last = 0;
	for (int k = 0; k < count; ++k) {
		if (lattice) {
			last = dsym_choose("edge", k == 2 ? last + 1 : last, 2 * (n - 1) - (count == 4 && k < 2));
			e[k] = 0.5 * last / (n - 1);
			continue;
		}
		last = dsym_choose("cell", last, n - 2);
		e[k] = dsym_f64("edge", 0, 1);
		dsym_assume(e[k] > double(last) / (n - 1) && e[k] < double(last + 1) / (n - 1));
		if (k) dsym_assume(e[k] > e[k - 1]);
	}
}
template <class D>
void split(const D& desc, bool high, bool lattice) {
	dsym_real_mode(5);
	const int taps = dsym_choose("taps", 3, BAND_TAPS), n = BAND_GRID;
	const bool flat = dsym_choose("flat", 0, 1);
	double e[2];
	edges(e, 2, n, lattice);
	const double begin = e[0], end = e[1];
	const double w[3] = { flat ? 1.0 : 3.0, flat ? 0.0 : 0.25, 1.0 };
	Grid g = grid(n);
	for (int i = 0; i < n; ++i) {
		const double r = rise(g.f[i], begin, end);
		g.d[i] = high ? r : 1 - r;
		g.w[i] = g.f[i] <= begin ? w[0] : g.f[i] <= end ? w[1] : w[2];
	}
	Signal<double> out(taps, 7.0);
	if (flat) DesignFilter(out, desc.Cutoff(begin, end).Grid(n));
	else DesignFilter(out, desc.Cutoff(begin, end).Weight(w[0], w[1], w[2]).Grid(n));
	optimal(out, g, true);
}
HARNESS C30_lowpass() { split(Fir.Lowpass.LeastSquares, false, false); }
HARNESS C30_highpass() { split(Fir.Highpass.LeastSquares, true, false); }
HARNESS C30_split_edges() {
	if (dsym_choose("high", 0, 1)) split(Fir.Highpass.LeastSquares, true, true);
	else split(Fir.Lowpass.LeastSquares, false, true);
}

template <class D>
void band(const D& desc, bool stop, bool lattice) {
	dsym_real_mode(5);
	const int taps = dsym_choose("taps", 3, BAND_TAPS), n = BAND_GRID;
	const bool flat = dsym_choose("flat", 0, 1);
	double e[4];
	edges(e, 4, n, lattice);
	const double w[5] = { flat ? 1.0 : 3.0, flat ? 0.0 : 0.25, flat ? 1.0 : 2.0, flat ? 0.0 : 0.5, 1.0 };
	Grid g = grid(n);
	for (int i = 0; i < n; ++i) {
		const double r = g.f[i] <= e[1] ? rise(g.f[i], e[0], e[1]) : 1 - rise(g.f[i], e[2], e[3]);
		g.d[i] = stop ? 1 - r : r;
		int k = 0;
		while (k < 4 && g.f[i] > e[k]) ++k;
		g.w[i] = w[k];
	}
	Signal<double> out(taps, 7.0);
	if (flat) DesignFilter(out, desc.Band(e[0], e[1], e[2], e[3]).Grid(n));
	else DesignFilter(out, desc.Band(e[0], e[1], e[2], e[3]).Weight(w[0], w[1], w[2], w[3], w[4]).Grid(n));
	optimal(out, g, true);
}
HARNESS C30_bandpass() { band(Fir.Bandpass.LeastSquares, false, false); }
HARNESS C30_bandstop() { band(Fir.Bandstop.LeastSquares, true, false); }
HARNESS C30_band_edges() {
	if (dsym_choose("stop", 0, 1)) band(Fir.Bandstop.LeastSquares, true, true);
	else band(Fir.Bandpass.LeastSquares, false, true);
}

//------------------------------------------------------------------------------
HARNESS C30_hilbert() {
	dsym_real_mode(5);
	const int taps = dsym_choose("taps", 0, 2) + 3 + (dsym_choose("long", 0, 1) ? 2 : 0), n = dsym_choose("grid", 0, 1) ? 8 : 0;
	const double weight = dsym_choose("weight", 0, 1) ? 0.25 : 1.0;
	// widths of the transition: none, or any that does not end on a point of the grid
	const double width = dsym_choose("none", 0, 1) ? 0.0 : dsym_f64("width", 0.36, 0.42);
	const int half = taps % 2 ? taps : 2 * taps - 1;
	Signal<double> halfband(half), expected(taps), out(taps, 7.0);
	DesignFilter(halfband, Fir.Lowpass.LeastSquares.Cutoff(0.5 - width, 0.5 + width).Weight(1.0, weight, 1.0).Grid(n));
	if (taps % 2) fir::HalfbandToHilbertOdd(expected, halfband);
	else fir::HalfbandToHilbertEven(expected, halfband);
	DesignFilter(out, Fir.Hilbert.LeastSquares.TransitionWidth(width).TransitionWeight(weight).Grid(n));
	for (int i = 0; i < taps; ++i) dsym::alike(out[i], expected[i], "hilbert");
	for (int i = 0; i < taps; ++i) dsym::alike(out[i], -out[taps - 1 - i], "antisymmetric");
}
