#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": ["sci-rs/src/" + f for f in files],
                          "state": state or [],
                          "mechanism": [{"name": n, "where": "sci-rs/src/" + w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})
F = "signal/filter/"; D = F + "design/"

prop("C01", "Biquad cascades compute their difference equation through every entry point",
 "For every cascade of second-order sections with a0 = 1 (any number of sections, including none), every carried-in section state and every finite signal, filtering returns exactly one output per input sample, equal up to rounding to running each section's difference equation y[n] = b0 x[n] + b1 x[n-1] + b2 x[n-2] - a1 y[n-1] - a2 y[n-2] (transposed direct form II) in order. This holds identically for the collecting, lazy, single-sample, 32-bit float and integer-sample entry points, which convert integer samples by value. The sections are left holding the state that follows the last sample and their coefficients are untouched; output buffers of a different length than the input are rejected.",
 ["inputs"], "all section counts, coefficients, initial states, signal lengths and values, sample types (f32, f64, i8, i16, u8, isize) and entry points",
 "Existing tests filter a handful of fixed signals through 1-4 Butterworth sections; the code has 12 + 5 + 5 length-specialised branches and a tiling condition on length % 4 that they sample at a few points.",
 [F + "sosfilt.rs", D + "sos.rs"],
 [("sosfilt_dyn specialisations by section count", F + "sosfilt.rs"), ("_sosfilt32 / _sosfilt_isize_32 tiled loops", F + "sosfilt.rs"), ("sosfilt_item fold", F + "sosfilt.rs")],
 ["returned samples", "Sos.zi0/zi1 after the call"], [{"name": "Sos.zi0, Sos.zi1", "meaning": "delay line of a section", "where": "sci-rs/src/" + D + "sos.rs"}])

prop("C02", "Filtering a stream in pieces equals filtering it at once",
 "Splitting a signal into any number of consecutive pieces (empty pieces included) and filtering them one after another with the same sections, freely switching between the entry points from piece to piece, yields the concatenation and the final section state of filtering the whole signal in one call, up to rounding. A lazily evaluated filter advances its sections only by the samples actually pulled, so dropping it midway and continuing with another call loses and repeats nothing. Copies of the sections taken at any point restart from exactly that point.",
 ["histories", "inputs"], "all sequences of filter calls, split points, partially consumed iterators, saved and restored section states",
 "Tests call each filter function once on one array; no test reuses a section across calls, mixes entry points, or drops a lazy iterator midway.",
 [F + "sosfilt.rs", D + "sos.rs"],
 [("state kept in &mut [Sos]", F + "sosfilt.rs"), ("lazy map in sosfilt_st", F + "sosfilt.rs")],
 ["concatenated output", "Sos.zi0/zi1"], [{"name": "Sos.zi0, Sos.zi1", "meaning": "delay line of a section", "where": "sci-rs/src/" + D + "sos.rs"}])

prop("C03", "Steady-state initial conditions make the step response start settled",
 "For every filter without a pole at z = 1, the initial state computed for a numerator/denominator pair of equal length (any length of at least 2, leading denominator coefficient not necessarily 1; leading denominator zeros are dropped, as in SciPy) is the state for which a unit step input immediately yields the constant output equal to the filter's gain at zero frequency, forever. For a cascade of sections every section is initialised for the step as scaled by the sections before it, so that the whole cascade starts settled; any previous state is overwritten and coefficients are untouched. Unequal lengths and an all-zero denominator are rejected.",
 ["inputs"], "all coefficient pairs up to tens of taps, all cascades, f32 and f64",
 "Tests compare a few fixed coefficient sets of length 3-9 with SciPy; scaling across sections, non-unit leading coefficients and long filters are not explored.",
 [F + "lfilter_zi.rs", F + "sosfilt_zi.rs", "linalg/companion.rs"],
 [("closed-form companion solve", F + "lfilter_zi.rs"), ("running DC-gain scale", F + "sosfilt_zi.rs")], ["returned state", "Sos.zi0/zi1", "step response of sosfilt with that state"])

prop("C04", "Forward-backward filtering is the padded zero-phase filter of the signal",
 "For every signal longer than the padding, forward-backward filtering returns a signal of the same length equal, up to rounding, to: extend the signal oddly at both ends by 3*(2*sections + 1 - min(#sections with b2 = 0, #sections with a2 = 0)) samples, filter forward starting from the steady state scaled by the first extended sample, filter the result backward starting from the steady state scaled by its last sample, and cut the extension off. The state stored in the given sections has no influence and is not changed; constants come out scaled by the squared zero-frequency gain, the operation is linear, and a signal not longer than the padding is rejected rather than filtered.",
 ["inputs"], "all cascades without pole at z = 1, all signal lengths including the boundary, f32 and f64",
 "Tests use two fixed filters and one long ECG-like signal; boundary lengths, first-order sections, stale state and linearity are not covered.",
 [F + "sosfiltfilt.rs", F + "ext.rs", F + "sosfilt_zi.rs", F + "sosfilt.rs"],
 [("ntaps / pad computation", F + "sosfiltfilt.rs"), ("forward and reverse passes with scaled zi", F + "sosfiltfilt.rs")], ["returned samples", "panic on short input"])

prop("C05", "Padding extends a matrix exactly as its mode says, on either axis",
 "Padding a matrix by n samples along an axis (n given, or 3 times the tap count when not given) returns n and a matrix grown by n at both ends of that axis only: the middle is the input unchanged, and the extensions are, for odd mode, twice the edge value minus the mirrored samples, for even mode the mirrored samples (edge not repeated), for constant mode the edge value repeated, and nothing for no padding. It holds for every shape (static or dynamic), element type, axis and n smaller than the extent along that axis; a larger n or an axis other than 0 or 1 is rejected.",
 ["inputs"], "all matrix shapes, pad lengths, modes, axes, integer and float element types",
 "Tests check two small matrices with odd extension.",
 [F + "ext.rs"], [("pad dispatch", F + "ext.rs"), ("odd_ext_dyn index arithmetic (unchecked)", F + "ext.rs")], ["returned matrix", "returned edge", "panics"])

prop("C06", "Butterworth designs have the maximally flat response they are asked for",
 "For every order and critical frequency (digital with or without a sampling rate, or analog; lowpass, highpass, bandpass, bandstop; 32- and 64-bit), the designed Butterworth filter is real and stable and its complex frequency response equals, up to rounding, the normalised Butterworth prototype evaluated at the standard band transform of the (for digital: bilinearly pre-warped) frequency. In particular the gain is 1 in the pass band's reference point, exactly -3.01 dB at every critical frequency, monotone on either side, and the order (twice the order for band filters) is as requested.",
 ["inputs", "configurations"], "orders 1-16 and beyond while numerically meaningful, all band types, critical frequencies over the whole open band, any sampling rate, f32/f64, all three output forms",
 "Tests compare about ten fixed designs with SciPy output; orders, band edges near 0 or Nyquist, wide bands with real pole pairs, analog designs and f32 are not explored.",
 [D + "butter.rs", D + "iirfilter.rs", D + "lp2lp_zpk.rs", D + "lp2hp_zpk.rs", D + "lp2bp_zpk.rs", D + "lp2bs_zpk.rs", D + "bilinear_zpk.rs"],
 [("prototype poles", D + "iirfilter.rs"), ("pre-warping and band transform selection", D + "iirfilter.rs"), ("bilinear transform", D + "bilinear_zpk.rs")], ["zeros, poles, gain", "b, a", "sections"])

prop("C07", "Chebyshev I and II designs are equiripple with the requested ripple",
 "For every order, ripple and critical frequency, the Chebyshev type I design keeps its gain between -rp dB and 0 dB in the pass band, touching both the theoretical number of times and passing -rp dB exactly at the critical frequencies, and the type II design keeps its gain at or below -rs dB in the stop band, reaching exactly -rs dB at the critical frequencies and 0 dB at the pass-band reference; their complex responses equal the textbook prototypes under the same band and bilinear transforms as Butterworth designs. The analog prototypes themselves have unit cut-off, the requested ripple, conjugate-symmetric roots, the stated number of zeros and poles, and degenerate correctly at order 0.",
 ["inputs", "configurations"], "orders 0-16, ripples over several decades, all band types, digital and analog, f32/f64, all output forms",
 "Tests contain one fixed prototype of each type and no complete Chebyshev design at all.",
 [D + "iirfilter.rs", D + "lp2hp_zpk.rs", D + "lp2bs_zpk.rs", D + "lp2bp_zpk.rs"],
 [("cheb1ap_dyn", D + "iirfilter.rs"), ("cheb2ap_dyn", D + "iirfilter.rs"), ("cheby1_dyn / cheby2_dyn", D + "iirfilter.rs")], ["zeros, poles, gain", "b, a", "sections"])

prop("C08", "All three output forms of one design describe the same filter",
 "For the same design request, the zeros/poles/gain, numerator/denominator and second-order-section outputs have the same transfer function at every complex frequency, up to the rounding inherent in the form. The section form has the expected number of sections (half the pole count rounded up), each digital section monic in its denominator, poles inside the unit circle, and the sections ordered by how near their poles come to the unit circle (analog: to the imaginary axis), the nearest last; the polynomial form is monic in its denominator.",
 ["inputs", "configurations"], "all filter families, orders, bands, digital and analog, f32/f64",
 "Tests compare one output form per fixed design; equivalence between forms is never asserted and analog section output is never exercised.",
 [D + "iirfilter.rs", D + "zpk2sos.rs", D + "zpk2tf.rs", D + "cplx.rs", D + "sos.rs"],
 [("zpk2tf_dyn", D + "zpk2tf.rs"), ("zpk2sos_dyn pairing", D + "zpk2sos.rs"), ("cplxreal_dyn conjugate pairing", D + "cplx.rs")], ["zeros, poles, gain", "b, a", "sections"])

prop("C09", "Analog band transforms are the textbook substitutions",
 "For every proper real zeros/poles/gain prototype (roots closed under conjugation; none at the origin for the inverting highpass and bandstop transforms), the lowpass, highpass, bandpass and bandstop transforms return a filter whose transfer function at every complex s equals the prototype evaluated at s/wo, wo/s, (s^2+wo^2)/(bw s) and bw s/(s^2+wo^2) respectively, with the root counts the substitution implies (poles stay equal in number, or double; the degree deficit appears as zeros at the origin or at +-j wo). Omitted wo and bw mean 1. A prototype with more zeros than poles is rejected.",
 ["inputs"], "all conjugate-closed root sets, gains, wo > 0, bw > 0 (wide and narrow), f32/f64",
 "Tests use one to three fixed Butterworth-like inputs per transform.",
 [D + "lp2lp_zpk.rs", D + "lp2hp_zpk.rs", D + "lp2bp_zpk.rs", D + "lp2bs_zpk.rs", D + "relative_degree.rs"],
 [("root mapping and gain compensation", D + "lp2bp_zpk.rs"), ("relative degree check", D + "relative_degree.rs")], ["zeros, poles, gain", "panics"])

prop("C10", "The bilinear transform preserves the transfer function under s = 2fs(z-1)/(z+1)",
 "For every proper analog zeros/poles/gain filter and sampling rate, the bilinear transform returns a digital filter with as many zeros as poles whose transfer function at every z equals the analog one at s = 2 fs (z-1)/(z+1). Left-half-plane poles land strictly inside the unit circle, imaginary-axis roots on it, missing zeros at z = -1; a filter with more zeros than poles is rejected.",
 ["inputs"], "all conjugate-closed zero/pole sets up to tens of roots, gains, sampling rates over many decades, f32/f64",
 "Tests use two fixed inputs.",
 [D + "bilinear_zpk.rs", D + "relative_degree.rs"], [("root mapping, gain compensation, padding at Nyquist", D + "bilinear_zpk.rs")], ["zeros, poles, gain", "panics"])

prop("C11", "Root-to-coefficient conversions preserve the transfer function",
 "For every set of zeros and poles closed under conjugation (real, repeated, imaginary, on or near the unit circle, in any order, with conjugates equal only up to rounding) and every gain, converting to polynomial coefficients or to second-order sections (digital or analog; either pairing) yields real coefficients with the same transfer function up to rounding, and the polynomial of a root list is monic with exactly those roots. Sections are ordered by how near their poles come to the border of stability, the nearest last, and going from the last to the first the critical pole shares its section with the nearest remaining zero unless that is the only real one left (or the last real pole of an odd number needs a real one). The digital section conversion first fills the shorter of the two lists with roots at the origin; complex roots without a conjugate are rejected by the section conversion, as are more zeros than poles in the analog case and under minimal pairing; a flat SciPy section array is split into sections row by row and rejected when its length does not match.",
 ["inputs"], "all conjugate-closed root sets up to tens of roots in any order, zero and pole counts that differ, f32/f64, digital/analog, both pairings",
 "Tests convert a few fixed Butterworth root sets whose conjugates are bit-identical.",
 [D + "zpk2tf.rs", D + "zpk2sos.rs", D + "cplx.rs", D + "sos.rs"],
 [("poly_dyn", D + "zpk2tf.rs"), ("zpk2tf_dyn alignment", D + "zpk2tf.rs"), ("zpk2sos_dyn pairing and special cases", D + "zpk2sos.rs"), ("cplxreal_dyn", D + "cplx.rs"), ("from_scipy_dyn", D + "sos.rs")], ["b, a", "sections", "panics"])

prop("C12", "Design requests are validated and defaulted as documented",
 "A design request is rejected, never answered with a filter, when it has more than two critical frequencies, a frequency that is not positive, a digital frequency at or above Nyquist, a band filter whose edges are not increasing or whose count does not match the band type, a sampling rate together with analog, a negative ripple or attenuation, or a missing ripple (type I) or attenuation (type II). Every other combination of an implemented family (Butterworth, Chebyshev I and II) is accepted. Omitted options mean: lowpass, digital, coefficients output and Nyquist-normalised frequencies for the Butterworth and Chebyshev designers; band pass and Butterworth for the general designer; and giving a sampling rate is equivalent to dividing the frequencies by half of it.",
 ["inputs", "configurations"], "all combinations of options, valid and invalid, orders and frequencies",
 "Tests never exercise an invalid request or an omitted option other than the sampling rate.",
 [D + "iirfilter.rs", D + "butter.rs"], [("argument checks", D + "iirfilter.rs"), ("defaults", D + "butter.rs")], ["panic / returned filter"])

prop("C13", "Convolution and correlation equal their defining sums in every mode",
 "For all non-empty real inputs, FFT convolution equals the direct sum of x[k] y[n-k] up to rounding: full mode has n1+n2-1 samples, same mode is the centred n1 of them, valid mode the max-min+1 of them computed without zero padding, whichever input is longer. Correlation equals the convolution with the second input reversed, in the same modes, and the plain convolve entry point equals the FFT one; inputs are not modified.",
 ["inputs"], "all lengths (including 1, powers of two and their neighbours), value ranges, f32/f64, all three modes, both argument orders",
 "Tests use four inputs of length 3-4 plus one synthetic correlation.",
 ["signal/convolve.rs"], [("zero-padded FFT product", "signal/convolve.rs"), ("mode slicing", "signal/convolve.rs")], ["returned samples"])

prop("C14", "Fourier resampling keeps the retained band and removes the rest",
 "Resampling any signal to n samples returns n samples; constants and every sinusoid whose whole-period count is below half of both lengths (rounded down) are reproduced at the new sampling instants exactly up to rounding, and every sinusoid above half of the new length is removed. Resampling an even-length signal to its own length returns it, and resampling is linear.",
 ["inputs"], "all source and target lengths (up and down, even, odd, prime, equal), all harmonic contents, f32/f64",
 "Tests cover two fixed length pairs, one of which is expected to fail (the documented odd-length simplification).",
 ["signal/resample.rs"], [("half-spectrum copy and scaling", "signal/resample.rs")], ["returned samples"])

prop("C15", "Savitzky-Golay filtering is the local polynomial least-squares fit",
 "For every window length, polynomial order below it, derivative order and non-zero sample spacing for which the problem is well conditioned, the coefficients are those of the least-squares polynomial derivative at the window centre (odd and even windows), zero when the derivative exceeds the order. Filtering returns one value per sample (none for an empty signal), equal to applying those coefficients to the window centred at the sample with the signal extended by its first and last values, so polynomials up to the order are reproduced (or differentiated) away from the edges. Even windows and windows shorter than order + 2 are rejected by the filter, orders not below the window length by the designer.",
 ["inputs"], "window lengths to about 100, orders 0-8, derivatives 0-10, spacings over several decades, any signal including ones shorter than the window, f32/f64",
 "Tests compare three or four fixed parameter sets with SciPy.",
 [F + "savgol_filter.rs"], [("least-squares Vandermonde solve", F + "savgol_filter.rs"), ("nearest-edge padding and convolution", F + "savgol_filter.rs")], ["coefficients", "returned samples", "panics"])

prop("C16", "Descriptive statistics equal their definitions",
 "For every sequence, mean, median, (population) variance, standard deviation and median absolute deviation equal their mathematical definitions up to rounding and report the number of samples; z-scores and modified z-scores (factor 0.6745) return one score per sample in input order by those definitions. The median is the exact middle element of the sorted data, or half the sum of the two middle ones (truncated for integers, when that sum fits the type), for any order and any multiplicity, floats and integers; empty input gives zeros with count 0, a single sample its own mean and median and zero spread. The medians select in memory proportional to the number of samples whatever their order.",
 ["inputs"], "all sequences of f32, f64 and integers, with duplicates, large offsets, sorted/reversed/constant/alternating orders, lengths 0 to 33 million, regular shapes (ramps, V, sawtooth) that selection is sensitive to",
 "Tests check a handful of sequences of at most 16 small numbers.",
 ["stats.rs"], [("quickselect", "stats.rs"), ("two-pass variance", "stats.rs"), ("median_abs_deviation", "stats.rs")], ["returned statistics", "memory held"])

prop("C17", "Autocorrelation, RMS and successive-difference measures equal their definitions",
 "For every signal, the autocorrelation at lag k is the lag-k autocovariance (sum over the overlapping part divided by the full length) divided by the variance; the in-place 32-bit variant removes the mean from its input, returns the population variance and stores for each requested lag the raw lagged product sum over all overlapping samples. The RMS is the root mean square, the lag difference yields each successive difference in order (one fewer than the samples), and RMSSD is the root mean square of those differences.",
 ["inputs"], "all signals of length 0 to thousands, all lags up to and beyond the length, lengths of every residue modulo 4",
 "Tests evaluate one or two short sequences each; remainder handling of the tiled loops is not observed.",
 ["stats.rs"], [("autocorr", "stats.rs"), ("autocorr_fast32 tiled loop", "stats.rs"), ("rms_fast32 tiled loop", "stats.rs"), ("lag_diff / rmssd", "stats.rs")], ["returned values", "the mutated input"])

prop("C18", "The square wave is the 2*pi-periodic pulse train with the given duty",
 "For every array of times and every duty in [0, 1], the square wave has the shape of its input and is +1 exactly where the time modulo 2*pi (as a non-negative remainder) is below 2*pi*duty and -1 elsewhere, for negative and large times as well; in particular duty 0 is always -1 and duty 1 is +1. A duty outside [0, 1] is rejected.",
 ["inputs"], "all times (negative, large, exact multiples), duties including 0 and 1, dimensionalities, f32/f64",
 "Tests check three short arrays of non-extreme times.",
 ["signal/wave/mod.rs"], [("remainder normalisation and threshold", "signal/wave/mod.rs")], ["returned array", "panics"])

prop("C19", "Modified Bessel functions of order 0 are accurate on the whole line",
 "For every finite argument, the (exponentially scaled) modified Bessel function of order zero equals the mathematical function to within a few tens of units of rounding of the argument type (the unscaled one up to |x| = 709 in 64-bit and 88 in 32-bit precision, where exp(|x|) ends), is even, equals 1 at 0, and satisfies scaled = unscaled * exp(-|x|). On vectors and arrays of any shape it acts element by element and keeps the shape.",
 ["inputs"], "all finite f32 and f64 arguments including 0, the interval switch at 8, tiny and huge values; vectors and arrays of any shape",
 "Tests compare about a dozen points and one linspace with SciPy values.",
 ["special/bessel.rs", "special/xsf/i0.rs", "special/xsf/chbevl.rs"], [("two Chebyshev expansions", "special/xsf/i0.rs"), ("Clenshaw recurrence", "special/xsf/chbevl.rs")], ["returned values"])

prop("C20", "Combinatorial functions are exact whenever the result fits the type",
 "For every integer type and all n and k, combinations, combinations with repetition, k-permutations and Stirling numbers of the second kind return the exact mathematical value whenever that value fits the type (even if intermediate products would not). Combinations and permutations are 0 for negative arguments or k > n, Stirling numbers are 0 for negative arguments or k > n, and choosing nothing gives 1 (0 combinations with repetition from nothing).",
 ["inputs"], "all twelve integer types; all n, k exhaustively for 8-bit types and generated over the whole representable range for the others",
 "Tests check small tables (n up to about 10) for a few types.",
 ["special/combinatorics.rs"], [("multiplicative formula", "special/combinatorics.rs"), ("recursive Stirling numbers", "special/combinatorics.rs")], ["returned integers"])

prop("C21", "Factorials are exact whenever the result fits the type",
 "For every integer type, the factorial, double factorial and k-factorial of n return the exact product n (n-k) (n-2k) ... of positive terms whenever it fits the type, 1 for n = 0 and 0 for negative n, including across the boundary of the precomputed tables and for steps k larger than n. A step that is not positive is rejected.",
 ["inputs"], "all twelve integer types; exhaustive over every n with representable (double) factorial; generated (n, k) for k-factorials over the whole type range",
 "Tests check tables for some types; k-factorials are checked for small n and k only.",
 ["special/factorial.rs"], [("factorial tables", "special/factorial.rs"), ("partial_product", "special/factorial.rs")], ["returned integers", "panics"])

prop("C22", "The companion matrix has the given polynomial as characteristic polynomial",
 "For every coefficient sequence of length m >= 2 with non-zero leading coefficient, the companion matrix is the (m-1)x(m-1) matrix with -a[i]/a[0] in its first row, ones on the first subdiagonal and zeros elsewhere, so its characteristic polynomial is the given one made monic. A sequence longer than the stated size is rejected or cut off, never folded into other entries or written elsewhere, and an empty sequence is rejected.",
 ["inputs"], "all coefficient sequences of length 2 to tens, f32/f64, borrowed or owned items",
 "Tests check one fixed polynomial.",
 ["linalg/companion.rs"], [("first-row and subdiagonal fill (unchecked writes)", "linalg/companion.rs")], ["returned matrix", "panics"])

prop("C23", "No public call can read or write outside its own memory",
 "For every public function and every argument combination whose result fits in memory, valid or not (mismatched lengths, empty inputs, zero or oversized counts, NaN and infinite values), a call either returns normally or panics cleanly: it never reads or writes out of bounds, uses uninitialised or freed memory, or crashes the process. Code after a rejected call continues to work.",
 ["inputs", "fault_sequences"], "all public safe functions, arbitrary argument combinations, sequences of calls",
 "Tests only make well-formed calls; the unchecked indexing in the padding, companion, initial-state and Chebyshev code is never probed.",
 [F + "ext.rs", F + "lfilter_zi.rs", "linalg/companion.rs", F + "sosfilt.rs", "special/xsf/chbevl.rs", D + "iirfilter.rs", "stats.rs"],
 [("asserts guarding unchecked indexing", F + "ext.rs"), ("unchecked writes", "linalg/companion.rs"), ("unchecked reads", F + "lfilter_zi.rs")], ["process exit / AddressSanitizer report"])

prop("C24", "The default no_std build computes the same results as the std build",
 "Every function available without the standard library gives, for every input, the same result as in the std build up to the rounding of elementary functions, and accepts and rejects the same inputs. This covers filter design, filtering, padding, Savitzky-Golay, statistics, waves, special functions and linear algebra in both 32- and 64-bit precision.",
 ["configurations", "inputs"], "the two feature configurations times all inputs",
 "Most tests are compiled only with the std feature; nothing compares the two configurations.",
 ["lib.rs", "stats.rs", D + "iirfilter.rs", F + "sosfilt.rs", F + "savgol_filter.rs", "special/xsf/i0.rs"],
 [("feature-gated imports and implementations", "lib.rs")], ["results of two builds on the same inputs"])

prop("C25", "Debug plotting hands the exact data to Python and never disturbs the caller",
 "Plotting any collection of series sends the Python interpreter found on the path a complete script on its standard input that defines exactly the given finite values, series by series and in order, and plots each beside its normalised autocorrelation over all lags; the call waits for the interpreter to end, keeps the interpreter's output off the caller's, and returns. It returns normally also when no interpreter exists, when the interpreter fails, or when it exits without reading its input, for data of any size.",
 ["inputs", "fault_sequences"], "all finite data shapes and values up to sizes beyond the pipe buffer; interpreter present, missing, failing, noisy, dying, slow, or exiting early",
 "The function has no assertion-bearing test; failure modes of the child process are not exercised.",
 ["plot.rs"], [("spawn / write_all / wait with ignored errors", "plot.rs")], ["the script received by a stand-in interpreter", "return of the call"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
