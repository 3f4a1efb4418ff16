// C26: waveform generators follow their wave shape at every phase
// @bound 1..3 samples (sine 6, sawtooth and chirps 2; thorough one more, sine 9) at sample rates 8 and 44100 (thorough also 1 and 3), any frequency in [-2.2,2.3] times the sample rate, any phase in [-15.5,16], tilts 0, 1/4, 1/2, 1 and any in [1/8,7/8], fills 0, 1/4, 1/2, 1 and any in [0,1]; constant tones and chirps; float, double and complex outputs; exact arithmetic except for instants within 1e-6 periods of a jump of the wave (covered for phase 0)
// @assume sine is an uninterpreted function with values in [-1,1]
#include "dsym.h"
#include <dspbb/Generators/Waveforms.hpp>
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>
using namespace dspbb;

#ifdef THOROUGH
constexpr int N = 3, RATES = 4;
#else
constexpr int N = 2, RATES = 2;
#endif
constexpr double margin = 1e-6;
enum eWave { SINE, SAW, PWM, SQUARE };

template <class T, int Wave, bool Chirp>
void wave() {
	dsym_real_mode(1);
	constexpr int max = Wave == SINE ? 3 * N : Chirp || Wave == SAW ? N : N + 1;
	const int n = dsym_choose("samples", 1, max);
	const int rates[] = { 8, 44100, 1, 3 };
	const int rate = rates[dsym_choose("rate", 0, RATES - 1)];
	const double f0 = dsym_f64("frequency", -2.2, 2.3) * rate;
	const double f1 = Chirp ? dsym_f64("end frequency", -2.2, 2.3) * rate : f0;
	const double phase = dsym_f64("phase", -15.5, 16);
	double shape = 0;
	if (Wave == SAW || Wave == PWM) {
		const int pick = dsym_choose("shape", 0, 4);
		const double list[] = { 0, 0.25, 0.5, 1 };
		if (pick == 4) shape = Wave == SAW ? dsym_f64("tilt", 0.125, 0.875) : dsym_f64("fill", 0, 1);
		else shape = list[pick];
	}
	const int form = n == max ? 0 : dsym_choose("form", 0, 1);
	Signal<T> s(n + 2, T(42));
	auto view = AsView(s).subsignal(1, n);
	Signal<T> own;
	if (Wave == SINE) {
		if (!Chirp) form ? (void)(own = SineWave<T, TIME_DOMAIN>(n, rate, f0, phase)) : SineWave(view, rate, f0, phase);
		else form ? (void)(own = SineChirp<T, TIME_DOMAIN>(n, rate, f0, f1, phase)) : SineChirp(view, rate, f0, f1, phase);
	}
	if (Wave == SAW) {
		if (!Chirp) form ? (void)(own = SawtoothWave<T, TIME_DOMAIN>(n, rate, f0, phase, shape)) : SawtoothWave(view, rate, f0, phase, shape);
		else form ? (void)(own = SawtoothChirp<T, TIME_DOMAIN>(n, rate, f0, f1, phase, shape)) : SawtoothChirp(view, rate, f0, f1, phase, shape);
	}
	if (Wave == PWM) {
		if (!Chirp) form ? (void)(own = PwmWave<T, TIME_DOMAIN>(n, rate, f0, phase, shape)) : PwmWave(view, rate, f0, phase, shape);
		else form ? (void)(own = PwmChirp<T, TIME_DOMAIN>(n, rate, f0, f1, phase, shape)) : PwmChirp(view, rate, f0, f1, phase, shape);
	}
	if (Wave == SQUARE) {
		if (!Chirp) form ? (void)(own = SquareWave<T, TIME_DOMAIN>(n, rate, f0, phase)) : SquareWave(view, rate, f0, phase);
		else form ? (void)(own = SquareChirp<T, TIME_DOMAIN>(n, rate, f0, f1, phase)) : SquareChirp(view, rate, f0, f1, phase);
	}
	if (form) {
		dsym_assert(own.size() == size_t(n), "size");
		for (int i = 0; i < n; ++i) s[i + 1] = own[i];
	}
	dsym::same(s[0], T(42), "before output");
	dsym::same(s[n + 1], T(42), "after output");
	for (int i = 0; i < n; ++i) {
		const double time = double(i) / double(rate);
		const double length = double(n) / double(rate);
		double cycles = time * f0;
		if (Chirp) cycles = time * f0 + time * time / 2.0 * (f1 - f0) / length;
		const double turns = cycles + phase / (2.0 * pi_v<double>);
		double expected, scale = 1;	// of which the sample is the quotient
		if (Wave == SINE) expected = std::sin(turns * (2.0 * pi_v<double>));
		else {
			const double u = turns - std::floor(turns);
			dsym_assume(u > margin && u < 1 - margin);
			if (Wave == SAW) {
				if (shape > 0 && u <= shape) scale = shape, expected = 2 * u - shape;
				else scale = 1 - shape, expected = 2 * (1 - u) - (1 - shape);
			}
			else {
				const double fill = Wave == SQUARE ? 0.5 : shape;
				dsym_assume(u < fill - margin || u > fill + margin);
				expected = u < fill ? 1 : Wave == SQUARE ? -1 : 0;
			}
		}
		const auto v = std::real(view[i]);
		dsym::close(v * remove_complex_t<T>(scale), remove_complex_t<T>(expected), 1e-4, "sample");
		dsym_assert(v >= -1.000001 && v <= 1.000001, "range");
		if constexpr (is_complex_v<T>) dsym::same(view[i].imag(), remove_complex_t<T>(0), "imaginary part");
	}
}
// jumps and peaks that are hit exactly
template <class T>
void exact() {
	dsym_real_mode(1);
	const double f = dsym_f64("frequency", -2.2, 2.3), shape = dsym_f64("shape", 0.125, 0.875);
	const auto first = [](const Signal<T>& s) {
		dsym_assert(s.size() == 1, "size");
		return double(std::real(s[0]));
	};
	dsym::close(first(SineWave<T, TIME_DOMAIN>(1, 8, f)), 0., 1e-6, "sine starts at zero");
	dsym::close(first(SquareWave<T, TIME_DOMAIN>(1, 8, f)), 1., 1e-6, "square starts high");
	dsym::close(first(PwmWave<T, TIME_DOMAIN>(1, 8, f)), 1., 1e-6, "half filled pulse starts high");
	dsym::close(first(PwmWave<T, TIME_DOMAIN>(1, 8, f, 0., 0.)), 0., 1e-6, "empty pulse");
	dsym::close(first(PwmWave<T, TIME_DOMAIN>(1, 8, f, 0., shape)), 1., 1e-6, "pulse starts high");
	dsym::close(first(PwmWave<T, TIME_DOMAIN>(1, 8, f, 0., 1.)), 1., 1e-6, "full pulse");
	dsym::close(first(SawtoothWave<T, TIME_DOMAIN>(1, 8, f)), -1., 1e-6, "sawtooth starts low");
	dsym::close(first(SawtoothWave<T, TIME_DOMAIN>(1, 8, f, 0., shape)), -1., 1e-6, "tilted sawtooth starts low");
	dsym::close(first(SawtoothWave<T, TIME_DOMAIN>(1, 8, f, 0., 0.)), 1., 1e-6, "falling sawtooth starts high");
}
HARNESS C26_sine_float() { wave<float, SINE, false>(); }
HARNESS C26_sine_cdouble() { wave<std::complex<double>, SINE, false>(); }
HARNESS C26_saw_float() { wave<float, SAW, false>(); }
HARNESS C26_saw_double() { wave<double, SAW, false>(); }
HARNESS C26_saw_cfloat() { wave<std::complex<float>, SAW, false>(); }
HARNESS C26_pwm_float() { wave<float, PWM, false>(); }
HARNESS C26_pwm_double() { wave<double, PWM, false>(); }
HARNESS C26_square_float() { wave<float, SQUARE, false>(); }
HARNESS C26_square_cdouble() { wave<std::complex<double>, SQUARE, false>(); }
HARNESS C26_sine_chirp_float() { wave<float, SINE, true>(); }
HARNESS C26_sine_chirp_double() { wave<double, SINE, true>(); }
HARNESS C26_saw_chirp_double() { wave<double, SAW, true>(); }
HARNESS C26_pwm_chirp_float() { wave<float, PWM, true>(); }
HARNESS C26_square_chirp_double() { wave<double, SQUARE, true>(); }
HARNESS C26_exact_float() { exact<float>(); }
HARNESS C26_exact_cdouble() { exact<std::complex<double>>(); }
