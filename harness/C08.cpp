// C08: reductions and statistics equal their textbook definitions
// @bound sum and sum of squares (and mean, mean square): up to 78 floats or 46 doubles (thorough: 150, 80), i.e. every remainder of the 8-block, lane and tail loops; min, max: up to 41 floats, 23 doubles; central moments about a given mean: up to 41 floats, 23 doubles; statistics that compute the mean: up to 6 (float, double) elements; covariance about given means: up to 41 floats and 23 doubles; values in [-8,8]
// @assume statistics involving square roots, powers or the computed mean are decided in exact arithmetic (rounding is not part of the claim); xsimd's vector pow is replaced by the scalar function for every lane (harness/xsimd_stub.h)
#include "dsym.h"
#include "xsimd_stub.h"
#include <dspbb/Math/Statistics.hpp>
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
using namespace dspbb;

#ifdef THOROUGH
constexpr int NF = 150, ND = 80, MF = 73, MD = 41, SMALL = 9;
#else
constexpr int NF = 78, ND = 46, MF = 41, MD = 23, SMALL = 6;
#endif
template <class T>
constexpr double eps = std::is_same_v<T, float> ? 1.2e-7 : 2.3e-16;
template <class T>
constexpr int large = std::is_same_v<T, float> ? NF : ND;
template <class T>
constexpr int medium = std::is_same_v<T, float> ? MF : MD;

template <class T>
struct Data {
	std::vector<T> a;
	BasicSignalView<const T, TIME_DOMAIN> v;
	Data(int n, const char* name, double b = 8) : a(n + 2) {
		for (auto& e : a) e = dsym::In<T>::rval(name, b);
		v = { a.begin() + 1, size_t(n) };
	}
};

template <class T>
void sums() {
	const int n = dsym_choose("n", 0, large<T>);
	Data<T> d(n, "a");
	double s = 0, q = 0;
	for (int i = 0; i < n; ++i) s += double(d.v[i]), q += double(d.v[i]) * double(d.v[i]);
	const double k = std::max(n, 1);
	dsym::close(double(Sum(d.v)), s, 8 * k * k * eps<T>, "sum");
	dsym::close(double(Mean(d.v)), s / k, 8 * (k + 2) * eps<T>, "mean");
	dsym::close(double(SumSquare(d.v)), q, 64 * k * (k + 2) * eps<T>, "sum of squares");
	dsym::close(double(MeanSquare(d.v)), q / k, 64 * (k + 4) * eps<T>, "mean square");
}
HARNESS C08_sums_f() { sums<float>(); }
HARNESS C08_sums_d() { sums<double>(); }

template <class T>
void roots() {
	dsym_real_mode(1);
	const int n = dsym_choose("n", 1, medium<T>);
	Data<T> d(n, "a");
	T q = 0;
	for (int i = 0; i < n; ++i) q += d.v[i] * d.v[i];
	dsym::close(Norm(d.v), std::sqrt(q), 1e-3, "norm");
	dsym::close(RootMeanSquare(d.v), std::sqrt(q / T(n)), 1e-3, "root mean square");
}
HARNESS C08_roots_f() { roots<float>(); }
HARNESS C08_roots_d() { roots<double>(); }

template <class T>
void extrema() {
	const int n = dsym_choose("n", 1, medium<T>), k = dsym_choose("k", 0, n - 1);
	Data<T> d(n, "a");
	const bool mx = dsym_choose("max", 0, 1);
	for (int i = 0; i < n; ++i) dsym_assume(mx ? d.v[i] <= d.v[k] : d.v[i] >= d.v[k]);
	dsym::same(mx ? Max(d.v) : Min(d.v), d.v[k], "extremum");
}
HARNESS C08_extrema_f() { extrema<float>(); }
HARNESS C08_extrema_d() { extrema<double>(); }

template <class T>
T power(T x, int k) {
	T r = 1;
	for (int i = 0; i < k; ++i) r *= x;
	return r;
}
template <class T>
void momentAbout() {  // about a given mean
	const int n = dsym_choose("n", 1, medium<T>), k = dsym_choose("k", 2, 4);
	Data<T> d(n, "a");
	const T m = dsym::In<T>::rval("mean", 8);
	dsym_real_mode(1);
	T e = 0;
	for (int i = 0; i < n; ++i) e += power<T>(d.v[i] - m, k);
	dsym::close(CentralMoment(d.v, k, m), e / T(n), 1e-3, "central moment about mean");
	if (k == 2) dsym::close(Variance(d.v, m), e / T(n), 1e-3, "variance about mean");
}
HARNESS C08_moment_about_f() { momentAbout<float>(); }
HARNESS C08_moment_about_d() { momentAbout<double>(); }

template <class T>
void momentHigh() {	 // the general formula
	const int n = dsym_choose("n", 1, 6), k = dsym_choose("k", 5, 8);
	Data<T> d(n, "a");
	dsym_real_mode(1);
	T e = 0;
	const T m = dsym::In<T>::rval("mean", 8);
	for (int i = 0; i < n; ++i) e += power<T>(d.v[i] - m, k);
	dsym::close(CentralMoment(d.v, k, m), e / T(n), power<double>(16, k) * 1e-5, "higher central moment");
}
HARNESS C08_moment_high_f() { momentHigh<float>(); }
HARNESS C08_moment_high_d() { momentHigh<double>(); }

template <class T>
void rounded() {  // with the rounding of floats
	const int n = dsym_choose("n", 1, medium<T>);
	Data<T> a(n, "a"), b(n, "b");
	const T ma = dsym::In<T>::rval("am", 8), mb = dsym::In<T>::rval("bm", 8);
	double e = 0, c = 0;
	for (int i = 0; i < n; ++i) {
		const double x = double(a.v[i]) - double(ma);
		e += x * x;
		c += x * (double(b.v[i]) - double(mb));
	}
	dsym::close(double(CentralMoment(a.v, 2, ma)), e / n, 256 * (n + 6) * eps<T>, "rounded variance");
	dsym::close(double(Covariance(a.v, b.v, ma, mb)), c / n, 256 * (n + 6) * eps<T>, "rounded covariance");
}
HARNESS C08_rounded_f() { rounded<float>(); }
HARNESS C08_rounded_d() { rounded<double>(); }

template <class T>
void statistics() {	 // about the computed mean
	const int n = dsym_choose("n", 2, SMALL);
	dsym_real_mode(1);
	Data<T> a(n, "a"), b(n, "b");
	T am = 0, bm = 0, N = T(n);
	for (int i = 0; i < n; ++i) am += a.v[i], bm += b.v[i];
	am /= N, bm /= N;
	T m2 = 0, m3 = 0, m4 = 0, c = 0, bb = 0;
	for (int i = 0; i < n; ++i) {
		const T x = a.v[i] - am, y = b.v[i] - bm;
		m2 += x * x, m3 += x * x * x, m4 += x * x * x * x, c += x * y, bb += y * y;
	}
	m2 /= N, m3 /= N, m4 /= N, c /= N, bb /= N;
	switch (dsym_choose("what", 0, 8)) {
		case 0:
			dsym::close(CentralMoment(a.v, 0), T(0), 0, "moment 0 (as documented by the tests)");
			dsym::close(CentralMoment(a.v, 1), T(0), 0, "moment 1");
			dsym::close(CentralMoment(a.v, 2), m2, 1e-3, "moment 2");
			dsym::close(CentralMoment(a.v, 3), m3, 1e-3, "moment 3");
			dsym::close(CentralMoment(a.v, 4), m4, 1e-3, "moment 4");
			break;
		case 1: dsym::close(Variance(a.v), m2, 1e-3, "variance"); break;
		case 2: dsym::close(CorrectedVariance(a.v), m2 * N / (N - 1), 1e-3, "corrected variance"); break;
		case 3: dsym::close(Covariance(a.v, b.v), c, 1e-3, "covariance"); break;
		case 4: dsym::close(CorrectedCovariance(a.v, b.v), c * N / (N - 1), 1e-3, "corrected covariance"); break;
		case 5: dsym::close(StandardDeviation(a.v), std::sqrt(m2), 1e-3, "standard deviation"); break;
		case 6: dsym::close(CorrectedStandardDeviation(a.v), std::sqrt(m2 * N / (N - 1)), 1e-3, "corrected standard deviation"); break;
		case 7: dsym::close(StandardDeviation(a.v, bm), std::sqrt(CentralMoment(a.v, 2, bm)), 1e-3, "standard deviation about mean"); break;
		default:
			dsym::close(Covariance(b.v, a.v), c, 1e-3, "covariance is symmetric");
			dsym::close(Covariance(a.v, a.v), m2, 1e-3, "covariance with itself");
			break;
	}
}
HARNESS C08_statistics_f() { statistics<float>(); }
HARNESS C08_statistics_d() { statistics<double>(); }

template <class T>
void standardised() {
	const int n = dsym_choose("n", 1, 12);
	Data<T> a(n, "a");
	dsym_real_mode(1);
	const T m = dsym::In<T>::rval("mean", 8);
	const T N = T(n);
	T m2 = 0, m3 = 0, m4 = 0;
	for (int i = 0; i < n; ++i) {
		const T x = a.v[i] - m;
		m2 += x * x, m3 += x * x * x, m4 += x * x * x * x;
	}
	m2 /= N, m3 /= N, m4 /= N;
	switch (dsym_choose("what", 0, 3)) {
		case 0: dsym::close(StandardizedMoment(a.v, 2, m), T(1), 1e-3, "standardised moment 2"); break;
		case 1: dsym::close(StandardizedMoment(a.v, 3, m), m3 / (m2 * std::sqrt(m2)), 1e-3, "standardised moment 3"); break;
		case 2: dsym::close(Skewness(a.v, m), m3 / (m2 * std::sqrt(m2)), 1e-3, "skewness"); break;
		default:
			dsym::close(StandardizedMoment(a.v, 4, m), m4 / (m2 * m2), 1e-3, "standardised moment 4");
			dsym::close(Kurtosis(a.v, m), m4 / (m2 * m2), 1e-3, "kurtosis");
			break;
	}
}
HARNESS C08_standardised_f() { standardised<float>(); }
HARNESS C08_standardised_d() { standardised<double>(); }

// skewness, kurtosis and correlation about the computed mean
template <class T>
void shape() {
	const int what = dsym_choose("what", 0, 4);
	const int n = dsym_choose("n", what == 3 ? 4 : what == 1 ? 3 : 2, 4);
	dsym_real_mode(1);
	Data<T> a(n, "a"), b(n, "b");
	const T N = T(n);
	T am = 0, bm = 0, m2 = 0, m3 = 0, m4 = 0, c = 0, bb = 0;
	for (int i = 0; i < n; ++i) am += a.v[i], bm += b.v[i];
	am /= N, bm /= N;
	for (int i = 0; i < n; ++i) {
		const T x = a.v[i] - am, y = b.v[i] - bm;
		m2 += x * x, m3 += x * x * x, m4 += x * x * x * x, c += x * y, bb += y * y;
	}
	m2 /= N, m3 /= N, m4 /= N, c /= N, bb /= N;
	switch (what) {
		case 0: dsym::close(Skewness(a.v), m3 / (m2 * std::sqrt(m2)), 1e-3, "skewness"); break;
		case 1: {
			const T s = std::sqrt(N / (N - 1) * m2);
			dsym::close(CorrectedSkewness(a.v) * s * s * s, N * N / ((N - 1) * (N - 2)) * m3, 1e-2, "corrected skewness");
			break;
		}
		case 2: dsym::close(Kurtosis(a.v), m4 / (m2 * m2), 1e-3, "kurtosis"); break;
		case 3: {
			const T s2 = m2 * N / (N - 1);
			const T kx = (N - 1) / (N * N * N) * ((N * N - 3 * N + 3) * m4 + (6 * N - 9) * m2 * m2), sx = (N - 1) / N * m2;
			const T k = N * N / ((N - 1) * (N - 1) * (N - 1) * (N * N - 3 * N + 3)) * ((N * (N - 1) * (N - 1) + (6 * N - 9)) * kx - N * (6 * N - 9) * sx * sx);
			dsym::close(CorrectedKurtosis(a.v) * s2 * s2, k, 1, "corrected kurtosis (as cited in the source)");
			break;
		}
		default: dsym::close(Correlation(a.v, b.v), c / (std::sqrt(m2) * std::sqrt(bb)), 1e-3, "correlation"); break;
	}
}
HARNESS C08_shape_f() { shape<float>(); }
HARNESS C08_shape_d() { shape<double>(); }

HARNESS C08_empty() {
	SignalF s;
	dsym::same(Sum(s), 0.0f, "empty sum");
	dsym::same(SumSquare(s), 0.0f, "empty sum of squares");
	dsym::same(Mean(s), 0.0f, "empty mean");
	dsym::same(MeanSquare(s), 0.0f, "empty mean square");
}
HARNESS C08_reject() {
	const int na = dsym_choose("na", 0, 5), nb = dsym_choose("nb", 0, 5), how = dsym_choose("how", 0, 4);
	SignalF a(na, 1.f), b(nb, 2.f);
	if (how < 3 ? na == nb : na != 0) return;
	dsym_reject_begin("different lengths or no elements");
	switch (how) {
		case 0: Covariance(a, b, 0.f, 0.f); break;
		case 1: CorrectedCovariance(a, b); break;
		case 2: Correlation(a, b); break;
		case 3: Max(a); break;
		default: Min(a); break;
	}
	dsym_reject_end();
}
