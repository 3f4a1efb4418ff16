#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as code so that the texts stay readable).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": list(over), "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": ["include/dspbb/" + f for f in files],
            "state": [dict(name=a, meaning=b, where="include/dspbb/" + c) for a, b, c in state],
            "mechanism": [dict(name=a, where="include/dspbb/" + b) for a, b in mechanism],
            "observe_at": list(observe),
            "hook_needed": None,
        }})

p("C01", "Rational arithmetic is exact and results are in canonical form",
  "For all rationals and integers whose intermediate products fit the integer type, +, -, * and / (binary, compound, unary and mixed with plain integers on either side) give the mathematically exact result. Every rational that is constructed or computed is in lowest terms with a positive denominator, so numerator and denominator are unique for a value.",
  ["inputs"], "every numerator and denominator of either sign (non-zero denominators/divisors), every operator and operand order",
  "Test_Rational samples about one operand pair per operator, almost all positive; sign combinations, common factors and mixed integer operands form a 4-dimensional space.",
  ["Math/Rational.hpp"], [("constructor normalises; operators cross-reduce", "Math/Rational.hpp")],
  [("num, den", "normalised fraction", "Math/Rational.hpp")], ["Numerator()", "Denominator()"])

p("C02", "Rational comparison, rounding and fractional part follow the rational line",
  "For all pairs of rationals (and rationals with integers) the six comparison operators agree with the order of the exact values. floor(r) is the largest integer not above r, ceil(r) the smallest integer not below r, and frac(r) is r - floor(r), which lies in [0,1).",
  ["inputs"], "every pair of rationals of either sign; every rational for rounding",
  "The tests use a few positive fractions; negative values, equal values with different spelling and integers as rationals are not swept.",
  ["Math/Rational.hpp"], [("cross-multiplied comparisons, floor/ceil/frac", "Math/Rational.hpp")], (), ["operator<", "floor", "ceil", "frac"])

p("C03", "Intervals behave as half-open sets of numbers",
  "For all intervals, size, intersection, union, encompassing union, disjointness and shifting by a scalar agree with the set of numbers x with first <= x < last (a point lies in the result exactly if it should). Two intervals compare equal exactly if both their ends are equal.",
  ["inputs"], "every pair of intervals (integers and floats), every point",
  "Test_Interval has a handful of hand-picked pairs; the relative orders of four end points and a probe point are far more than those.",
  ["Utility/Interval.hpp"], [("Interval free functions", "Utility/Interval.hpp")], [("first,last", "half open bounds", "Utility/Interval.hpp")])

p("C04", "Signals behave as value-semantic sequences",
  "Under every sequence of resize, append, prepend, insert, erase, extract, clear, element writes, copies and moves, a signal holds exactly the elements the same operations leave in a plain sequence, in the same order. Extracted parts are returned unchanged, other signals are never affected by operations on a copy, and conversions between element types keep the values.",
  ["histories", "inputs"], "every history of container operations up to the stated length, every position/length argument, every element value",
  "Tests run each member function once on one fixed signal; interactions of positions, lengths and histories are not covered.",
  ["Primitives/Signal.hpp"], [("BasicSignal members over std::vector", "Primitives/Signal.hpp")], [("m_samples", "the sequence", "Primitives/Signal.hpp")])

p("C05", "Views are exact windows onto their signal",
  "For every signal, offset and length, a view (made from a signal, from iterators or a pointer and a size, or as a sub-view of a view) designates exactly the requested consecutive elements: reading yields those elements, writing changes those and no others. Sub-views that would reach outside of the viewed range are rejected instead of being created.",
  ["inputs", "histories"], "every signal length, every nesting of first/last/sub-view with every offset and length, every write position",
  "Tests create a few views with fixed offsets; boundary offsets/lengths and nested windows are a product space.",
  ["Primitives/SignalView.hpp", "Primitives/SignalTraits.hpp"], [("BasicSignalView constructors, subsignal", "Primitives/SignalView.hpp")], [("first,last", "window ends", "Primitives/SignalView.hpp")])

p("C06", "Element-wise signal arithmetic computes every element, and only those",
  "For every length and alignment, adding, subtracting, multiplying and dividing two signals, or a signal and a scalar on either side, stores at every position i exactly the scalar result of the operands at i, for real, complex and mixed element types, through operators, compound operators and three-operand functions, also when the output is one of the inputs. Elements outside the output are untouched, and operands or outputs of different lengths are rejected.",
  ["inputs"], "every length up to the stated bound (vectorised bodies, unrolled blocks and tails), every element value including NaN, infinities and signed zeros",
  "Tests use one or two lengths with fixed or random data; a defect in one SIMD lane, block or tail length, or for particular values, escapes.",
  ["Primitives/SignalArithmetic.hpp", "Kernels/Numeric.hpp", "Kernels/Functors.hpp"], [("Transform kernels with SIMD body and scalar tail", "Kernels/Numeric.hpp"), ("CheckSizes", "Primitives/SignalArithmetic.hpp")])

p("C07", "Element-wise functions map every element independently of its position",
  "For every length, the element-wise functions (absolute value, real part, imaginary part, conjugate, argument, square root, and the comparison-free mathematical functions) give at every position the value the scalar function gives for that element, for real and complex signals, out-of-place and in-place. Nothing outside of the output is written.",
  ["inputs"], "every length up to the stated bound, every element value in the stated range",
  "Tests use one length per function and random data; vector body/tail agreement for every length and lane is not examined.",
  ["Math/Functions.hpp", "Kernels/Math.hpp", "Kernels/Numeric.hpp"], [("function wrappers over Transform", "Math/Functions.hpp")])

p("C08", "Reductions and statistics equal their textbook definitions",
  "For every signal of every non-zero length, sum, sum of squares, mean, mean square, root mean square, norm, min, max, central and standardised moments (the central moments of order zero and one being zero), variance, standard deviation, skewness and kurtosis (plain and corrected), covariance and correlation equal their definitions over all elements: each element contributes exactly once. The results do not depend on where in the signal an element lies, beyond floating point rounding.",
  ["inputs"], "every length up to the stated bound, every element value in the stated range",
  "Tests check a few fixed signals; blocks, lanes and tails of the vectorised tree reductions are a function of length that is not swept, and a dropped or doubled element is invisible with near-constant or random data within tolerance.",
  ["Math/Statistics.hpp", "Kernels/Numeric.hpp", "Kernels/Functors.hpp"], [("Reduce / TransformReduce with singlet, doublet, quadruplet and 8-block unrolling", "Kernels/Numeric.hpp")])

p("C09", "The dot product is the sum of products with the second operand conjugated as documented",
  "For all pairs of equal length real, complex and mixed signals, the dot product equals the sum over i of a[i] times b[i] (with the library's stated conjugation for complex operands), every pair being used exactly once. Signals of different length are rejected.",
  ["inputs"], "every length up to the stated bound, every element value in the stated range, every real/complex type combination",
  "Tests use one length per type combination.",
  ["Math/DotProduct.hpp", "Kernels/Numeric.hpp"], [("InnerProduct", "Kernels/Numeric.hpp")])

p("C10", "Convolution equals its defining sum for every length and window of the output",
  "For all signals u and v, full convolution has length |u|+|v|-1 (empty if either operand is empty) and every element equals the sum of u[i]*v[n-i]; central convolution and convolution at an explicit offset return the corresponding part of the full result, and offsets and output lengths outside of the full convolution are rejected. It is commutative, the accumulating form adds to the previous output, and which internal algorithm is chosen is not observable beyond rounding.",
  ["inputs"], "every pair of lengths, every offset and output length, every sample value in the stated range, real and complex",
  "Tests fix a few lengths; algorithm selection depends on length and SIMD width and offsets interact with both operand ends.",
  ["Math/Convolution.hpp", "Kernels/Convolution.hpp"], [("ConvolutionSlide / ConvolutionReduceVec selection", "Math/Convolution.hpp")])

p("C11", "Overlap-add convolution equals direct convolution for every chunk size",
  "For all signals, output offsets, output lengths and every admissible chunk (FFT) size, overlap-add convolution returns the same values as direct convolution of the same signals, up to rounding. The accumulating form adds to the previous output.",
  ["inputs", "configurations"], "every pair of lengths, offset, output length and chunk size within bounds, every sample value",
  "Tests use a couple of chunk sizes and one offset pattern.",
  ["Math/OverlapAdd.hpp", "Math/FFT.hpp"], [("chunked FFT loop", "Math/OverlapAdd.hpp")])

p("C12", "FIR filtering is independent of how the stream is cut into blocks",
  "For every filter and every input stream, filtering block by block with carried state gives the same output as filtering the whole stream at once, for every way of cutting the stream, for direct and overlap-add execution, and equals the causal convolution of the stream with the filter. Stateless filtering equals the (full or central) convolution, and states or outputs of the wrong size are rejected.",
  ["histories", "inputs"], "every split of the stream into blocks, every block and filter length within bounds, every sample and tap value",
  "Tests use one split of one stream.",
  ["Filtering/FIR.hpp", "Math/Convolution.hpp", "Math/OverlapAdd.hpp"], [("state carry in Filter overloads", "Filtering/FIR.hpp")], [("state", "last taps-1 input samples", "Filtering/FIR.hpp")])

p("C13", "IIR realisations implement the difference equation in every block split",
  "Direct form I, direct form II and cascaded biquad realisations produce, for every transfer function and every input, the output of the difference equation sum a[k] y[n-k] = sum b[k] x[n-k] from a zero state (coefficients counted from the highest power of z, numerator and denominator aligned there), also for a leading denominator coefficient other than one. Splitting the input into blocks does not change the output, and after a reset the filter behaves as new.",
  ["histories", "inputs"], "every coefficient set of the stated orders, every input and every split into blocks, resets at every point",
  "Tests compare against a handful of fixed filters and one monic system.",
  ["Filtering/IIR/Realizations.hpp", "Filtering/IIR.hpp"], [("Feed of DirectFormI/II/CascadedForm", "Filtering/IIR/Realizations.hpp")], [("state lines", "delayed inputs/outputs", "Filtering/IIR/Realizations.hpp")])

p("C14", "All representations of a discrete system describe the same transfer function",
  "Converting a system between zero-pole-gain, transfer function (polynomial ratio) and cascaded biquad form leaves the value of its transfer function unchanged at every point z, for every gain and every number of real and complex-pair zeros and poles. Expanding a factored polynomial gives a polynomial with the same value everywhere.",
  ["inputs", "configurations"], "all root/pole counts within bounds, all root locations and gains, all evaluation points",
  "Tests convert single fixed systems.",
  ["LTISystems/Systems.hpp", "Math/Polynomials.hpp"], [("ExpandPolynomial, CascadedBiquad constructor", "LTISystems/Systems.hpp")])

p("C15", "Factored polynomials keep their roots through every operation",
  "Construction keeps exactly the given roots, grouped into real ones and conjugate pairs, and rejects unpaired complex roots. Copying, moving and assigning (copy assignment also to itself) a factored polynomial preserves its roots: copies are independent and equal, and assignment returns the target. Resizing and regrouping give the requested numbers of real roots and pairs, keep the roots of either kind that still fit and give new ones the fill value; regrouping keeps the total and rejects impossible groupings. Evaluating a polynomial at any point gives the product over its factors, respectively the sum of its coefficients times powers.",
  ["histories", "inputs"], "all real/complex-pair counts within bounds before and after, all root values, all operation sequences of the stated length",
  "Tests resize one polynomial in one or two ways.",
  ["Math/Polynomials.hpp"], [("FactoredPolynomial storage: real roots followed by complex pairs", "Math/Polynomials.hpp")], [("m_mem, m_real, m_complex", "root storage and views", "Math/Polynomials.hpp")])

p("C16", "Root mapping and the bilinear transform are exact substitutions",
  "Discretising a continuous system with the bilinear transform gives a discrete system whose transfer function at every z equals the continuous one at s = 2/T (z-1)/(z+1) (pre-warped at the requested frequency if one is given). Z-domain frequency mapping of zeros, poles and gain likewise equals substituting the all-pass map into the transfer function.",
  ["inputs", "configurations"], "all systems of the stated orders, all root locations and gains, all sample rates, all evaluation points",
  "Tests compare a fixed system at a few frequencies.",
  ["LTISystems/DiscretizationTransforms.hpp", "Math/RootTransforms.hpp", "Filtering/IIR/BandTransforms.hpp"], [("BilinearTransform", "LTISystems/DiscretizationTransforms.hpp"), ("TransformRoots", "Math/RootTransforms.hpp")])

p("C17", "The FFT equals the discrete Fourier transform and is inverted by the inverse FFT",
  "For every transform length and every input, the full FFT equals the discrete Fourier transform of the input up to rounding, the half FFT of a real signal equals the first half of the full one, and the inverse transform (from full or half spectra, even and odd lengths) returns the original signal. Buffers of the wrong size are rejected.",
  ["inputs"], "every length within bounds (even, odd, prime and composite), every input value in the stated range, real and complex",
  "Tests use one or two lengths (powers of two mostly) with special signals.",
  ["Math/FFT.hpp", "PocketFFT/pocketfft_hdronly.h"], [("Fft/Ifft wrappers over PocketFFT", "Math/FFT.hpp")])

p("C18", "Spectrum shifts are mutual inverses and bins map to the right frequencies",
  "For every length, the FFT shift moves the zero frequency bin to the centre position by a pure rotation, the inverse shift undoes it exactly, and both work in-place as well as out-of-place. Conversions between bins and frequencies agree with k*samplerate/N and with each other for every bin, length and sample rate.",
  ["inputs"], "every length (even and odd) within bounds, every element value, every bin",
  "Tests cover one even and one odd length.",
  ["Math/FFT.hpp"], [("BasicShift, FourierBin2Frequency", "Math/FFT.hpp")])

p("C19", "Decimation and expansion pick and place exactly the right samples",
  "For every signal and every rate, decimation returns exactly every rate-th sample starting from the first, and expansion places the input samples at multiples of the rate with zeros everywhere else. Decimating an expanded signal by the same rate returns the original signal, and output buffers of the wrong size are rejected.",
  ["inputs"], "every length and rate within bounds, every sample value",
  "Tests use one length and rate.",
  ["Filtering/Resample.hpp"], [("Decimate, Expand", "Filtering/Resample.hpp")])

p("C20", "Polyphase interpolation equals expansion followed by filtering, from any resume point",
  "For every filter, number of phases, input, output offset and output length, polyphase interpolation returns the corresponding samples of the zero-stuffed input convolved with the filter scaled by the number of phases. Every requested output sample is written, and continuing from the returned suspension point yields the same samples as producing all of them in one call. The polyphase decomposition contains every filter tap exactly once, in the phase and position given by its index, and copies, assignments and moves of a polyphase filter keep its phases, independent of the original.",
  ["inputs", "histories"], "every filter length, phase count, signal length, offset, output length and split within bounds, every sample and tap value",
  "Tests use a few fixed filter lengths and offsets.",
  ["Filtering/Resample.hpp", "Filtering/Polyphase.hpp"], [("Interpolate phase loop", "Filtering/Resample.hpp"), ("PolyphaseDecompose", "Filtering/Polyphase.hpp")], [("InterpSuspensionPoint", "where to resume", "Filtering/Resample.hpp")])

p("C21", "Rational-rate resampling evaluates the interpolated signal at the right instants",
  "For every filter, phase count, rate and start point, sample k of resampling is the linear interpolation between the two polyphase-interpolated samples that enclose the instant start + k*rate. The reported start points, lengths and delays agree with those instants exactly, and continuing from the returned suspension point gives the same samples as one uninterrupted call.",
  ["inputs", "histories"], "every filter length, phase count, rational rate, start point, output length and split within bounds, every sample and tap value",
  "Tests compare a few rates on one sine wave within loose tolerance.",
  ["Filtering/Resample.hpp", "Math/Rational.hpp"], [("ChangeSampleRate/ResamplingLength/Resample", "Filtering/Resample.hpp")], [("ResampleSuspensionPoint", "where to resume", "Filtering/Resample.hpp")])

p("C22", "FIR band transforms act on the taps as their frequency-domain meaning requires",
  "For every odd or even length and every tap value, the spectral mirror negates every second tap (so that response(f) becomes response(1-f)), the complementary filter (odd lengths) plus the original is a pure centred delay of one, and shifting by a normalised frequency f multiplies each tap by twice the cosine of pi*f times the tap's distance from the centre of the filter. The half-band to Hilbert transforms multiply the tap at distance k from the centre by 2*sin(pi*k/2), the even form keeping every second tap. Every tap of the output is written, nothing outside of it, and in-place use gives the same result.",
  ["inputs"], "every length within bounds, every tap value, every shift in the stated range",
  "Tests look at one filter's response at a few points.",
  ["Filtering/FIR/BandTransforms.hpp"], [("MirrorResponse, ComplementaryResponse, ShiftResponse, HalfbandToHilbert*", "Filtering/FIR/BandTransforms.hpp")])

p("C23", "Windowed FIR design gives symmetric, correctly normalised filters for every window",
  "For every odd tap count, cutoff and window (given as a signal or as a function), the windowed low-pass is the window times the cardinal sine of the cutoff, scaled to unit gain at zero frequency; the high-pass plus that low-pass is a pure centred delay; the band-pass is the low-pass of half of the band's width shifted to the centre of the band; the band-stop plus that band-pass is a pure centred delay. Filters with symmetric windows are symmetric. Hilbert filters (odd and even tap counts) are the Hilbert transform of the half-band low-pass and anti-symmetric for symmetric windows. Designs of arbitrary response evaluate the response once per point of an even grid from 0 to 1 and give the window times the centred inverse Fourier transform of those values.",
  ["inputs", "configurations"], "every tap count within bounds, every window coefficient, cutoff, band and response value in the stated ranges",
  "Tests look at frequency responses of a few fixed designs.",
  ["Filtering/FIR/Windowed.hpp", "Filtering/FIR/BandTransforms.hpp", "Filtering/FIR.hpp"], [("KernelWindowedLowpass, KernelWindowedArbitrary", "Filtering/FIR/Windowed.hpp"), ("DesignFilter", "Filtering/FIR.hpp")])

p("C24", "Filter descriptions accept exactly valid parameters and builders change nothing else",
  "For every FIR and IIR filter description and every value of the band edges and cutoffs (including NaN and infinities), setting frequencies that are outside of [0,1] or not in increasing order (equal edges are allowed) is rejected with an exception, and valid ones are accepted and stored exactly. Setting one parameter of a description (frequencies, ripples, weights, window, response, grid, in any order and any number of times) keeps all others unchanged; parameters never set have their defaults.",
  ["inputs", "histories"], "every combination of parameter values (bit-precise floats, including NaN and infinities), every order of builder calls",
  "Tests do a few valid and invalid values per filter type.",
  ["Filtering/FilterUtility.hpp", "Filtering/FIR/Descs.hpp", "Filtering/IIR/Descs.hpp"], [("ThrowIfNotNormalized, ThrowIfNotSorted", "Filtering/FilterUtility.hpp"), ("Desc builders", "Filtering/FIR/Descs.hpp"), ("Desc builders", "Filtering/IIR/Descs.hpp")])

p("C25", "Linear and logarithmic spaces are evenly spaced between the requested ends",
  "For every start, end and count, a linear space has exactly count elements, starts exactly at the start, ends at the end if the end is inclusive and one step short of it if it is exclusive, and consecutive elements differ by the same step; a logarithmic space is the base raised to the elements of the linear space. Filling a view writes exactly the elements of the view.",
  ["inputs"], "every count within bounds, every pair of ends in the stated range, both inclusiveness settings",
  "Tests use one count and pair of ends each.",
  ["Generators/Spaces.hpp"], [("LinSpace", "Generators/Spaces.hpp"), ("LogSpace", "Generators/Spaces.hpp")])

p("C26", "Waveform generators follow their wave shape at every phase",
  "For every sample rate, frequency, phase offset and shape parameter, sample n of a sine, sawtooth, pulse-width or square tone is the wave shape at the phase 2*pi*f*n/rate + phase, and of a chirp at 2*pi*(f0*t + t*t/2*(f1-f0)/duration) + phase with t=n/rate: the sine of the phase; a sawtooth that rises from -1 to 1 over the first `tilt` part of each period and falls back over the rest; a pulse that is 1 over the first `fill` part of each period and 0 otherwise; a square wave of 1 in the first and -1 in the second half of each period. The shapes have period 2*pi also at negative phases, so every sample is in [-1,1]. Complex outputs get a zero imaginary part, and filling a view writes exactly its elements.",
  ["inputs"], "every frequency and phase in the stated range, of either sign, every tilt and fill, every sample index within bounds",
  "Tests sample one frequency with zero or positive phase.",
  ["Generators/Waveforms.hpp"], [("GenericWave", "Generators/Waveforms.hpp"), ("GenericChirp", "Generators/Waveforms.hpp"), ("Sawtooth", "Generators/Waveforms.hpp"), ("Pwm", "Generators/Waveforms.hpp")])

p("C27", "Root finding converges to a sign change",
  "For every continuous function with values of opposite sign (or zero) at the ends of the bracket, given in either order, bisection terminates, and returns a point of the bracket within the tolerance (without a tolerance: within the spacing of the numbers there) of points where the function is not negative and not positive, however small or large the values of the function are. Newton's method returns the root of every affine function from any start, and for every function each step is x - f(x)/f'(x) until a step is within the tolerance or no shorter than the one before.",
  ["inputs"], "every sequence of function values at the visited points, every affine function in the stated range, both slopes",
  "Tests solve a couple of fixed functions.",
  ["Math/Solvers.hpp"], [("Bisect", "Math/Solvers.hpp"), ("NewtonRaphson", "Math/Solvers.hpp")])

p("C28", "Window functions equal their definitions: symmetric and normalised, whatever the buffer held",
  "For every length and shape parameter, every window function writes the samples of its defining formula (rectangular, Hamming, flat-top, triangular, Blackman, Blackman-Harris, Gaussian, Kaiser, Lanczos, and the Dolph-Chebyshev window as the transform of a Chebyshev polynomial): real, symmetric about the centre, independent of what the output held before, with nothing written outside of it, and the same through the in-place, out-of-place and function-object interfaces. The cosine-sum, triangular, rectangular and Lanczos windows do not exceed one and peak at the centre. Coherent gain is the mean and energy gain the mean square of any window.",
  ["inputs", "configurations"], "every window length, every sigma, alpha and attenuation, every previous content of the output, every window for the gains",
  "Tests check symmetry at two lengths per window and one value of each shape parameter, and compare no window with its definition.",
  ["Filtering/Windowing.hpp"], [("window generators; CoherentGain, EnergyGain", "Filtering/Windowing.hpp")])

p("C29", "Classical IIR designs meet their specified ripple and band edges",
  "For every order, ripple and band edge, the Butterworth, Chebyshev I, Chebyshev II and elliptic low-pass, high-pass, band-pass and band-stop designs have the requested order and are stable, and at every frequency their gain is the one of their family: Butterworth 1/sqrt(1+x^2n), Chebyshev I between 1-ripple and 1 in the pass band (1/sqrt(1+(e Tn(x))^2)) with 1-ripple at the edge, Chebyshev II at most the stop band ripple in the stop band and the ripple at its edge, elliptic between 1-ripple and 1 in the pass band, 1-ripple at its edge, and at most the stop band ripple beyond the transition band given by the order and the ripples; x is the pre-warped frequency relative to the requested edges.",
  ["inputs", "configurations"], "every order, ripple, band edge and frequency",
  "Tests design one or two filters per family and measure them on a grid of frequencies.",
  ["Filtering/IIR.hpp", "Filtering/IIR/Butterworth.hpp", "Filtering/IIR/Chebyshev.hpp", "Filtering/IIR/Elliptic.hpp", "Filtering/IIR/BandTransforms.hpp", "Math/EllipticFunctions.hpp"], [("DesignFilter, impl::DiscretizePrototype", "Filtering/IIR.hpp"), ("analog prototypes", "Filtering/IIR")])

p("C30", "Least-squares FIR design minimises the weighted squared response error",
  "For every tap count, requested response, weight and design grid, the least-squares design is symmetric about its centre and minimises the sum, over a uniform grid of at least as many frequencies as it has free coefficients (the requested number if larger), of the square of weight times deviation from the requested response; an even number of taps is the odd design followed by a zero, whatever the buffer held. The low-pass, high-pass, band-pass and band-stop designs request zero and one in their bands and a smooth step between the edges (a jump if the edges coincide) with the weight of the band each frequency is in, and the Hilbert design is the half-band low-pass design, with the requested grid, turned into a Hilbert transformer.",
  ["inputs", "configurations"], "every tap count, response, band layout, weight and grid size",
  "Tests design a few filters of one size and sample their response.",
  ["Filtering/FIR/LeastSquares.hpp", "Filtering/FIR.hpp"], [("normal equations solved with Eigen", "Filtering/FIR/LeastSquares.hpp"), ("responses and weights of the band designs", "Filtering/FIR.hpp")])

p("C31", "Measuring a filter: response on the unit circle, kind of filter, ripples and edges",
  "For every impulse response, transfer function, zero-pole-gain system and biquad cascade, the frequency response has the requested number of points from zero to the Nyquist frequency and its amplitude and phase at every point are those of the system evaluated on the unit circle. For every response, measuring it reports exactly the kind of filter given by the sequence of bands above and below one half (with hysteresis) - low-pass, high-pass, band-pass, band-stop or none - and the kind specific functions reject every other kind, an empty response included. Ripples are the largest distance from the ideal value at the local extrema within the band, and every reported edge lies in its band.",
  ["inputs"], "every system, grid size and response",
  "Tests measure a few synthetic responses of one size.",
  ["Filtering/MeasureFilter.hpp"], [("FrequencyResponse, ExtractFilterBands, ParametrizeFilterBands, Measure*Filter", "Filtering/MeasureFilter.hpp")], (), ["MeasureFilter", "FrequencyResponse"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for e in P: f.write(json.dumps(e, ensure_ascii=True) + "\n")
    print(len(P))
