"""Writes properties.jsonl (single place where the property texts live)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or ["return values of the public functions"], hook_needed=None)))

prop("C01", "PRBS generation follows its recurrence and streams without seams",
     "For every supported PRBS polynomial, every seed and every requested length, each generated bit is the modulo-2 sum of the earlier bits selected by the polynomial, the seed standing in for the bits before the start. The returned seed continues the sequence exactly: asking for a bits and then for b bits from the returned seed gives the same bits as asking for a+b at once, also when either request spans one or several full periods. The bit-at-a-time iterator produces the same bits and exposes the matching current and previous seeds.",
     ["inputs", "histories"], "all seeds (all-zero included), all lengths and all ways to split a request",
     "The tests compare one stored all-ones-seed sequence per polynomial at full period; other seeds, splits, lengths shorter than the register and multi-period requests are never run.",
     ["CommDspy/tx/prbs_generator.py", "CommDspy/tx/prbs_iterator.py", "CommDspy/auxiliary.py"],
     [("prbs_generator loop, tiling and seed extraction", "CommDspy/tx/prbs_generator.py"), ("PrbsIterator.__next__", "CommDspy/tx/prbs_iterator.py")])
prop("C02", "Every named PRBS polynomial is maximal-length",
     "For every PRBS type offered by the library and every non-zero seed, the shift-register state returns to the seed after exactly 2^n-1 bits and never earlier, and never becomes all-zero.",
     ["inputs", "configurations"], "all named polynomials and all 2^n-1 non-zero seeds of each",
     "Tests only look at the orbit of the all-ones seed for the short types; PRBS31's orbit cannot be enumerated at all.",
     ["CommDspy/auxiliary.py", "CommDspy/tx/prbs_generator.py", "CommDspy/tx/prbs_iterator.py"],
     [("get_polynomial tap table", "CommDspy/auxiliary.py"), ("PrbsIterator.__next__", "CommDspy/tx/prbs_iterator.py")])
prop("C03", "Bit-to-symbol conversion and its inverse are exact under every flag",
     "Grouping bits into symbols of a power-of-two alphabet and expanding the symbols again with the same bit-order, MSB, LSB and polarity flags returns the original bits, less any incomplete trailing group, for vectors and matrices of every size including a single symbol. Without flags the first bit of a group is its least significant bit, symbols stay inside the alphabet, each flag changes exactly the bit it names, and an alphabet whose size is not a power of two is rejected.",
     ["inputs", "configurations"], "all bit vectors and matrices, all flag combinations, alphabets 2, 4, 8, 16",
     "Tests run a few stored vectors for two alphabets and only some flag combinations.",
     ["CommDspy/tx/bin2symbol.py", "CommDspy/rx/symbol2bin.py"],
     [("bin2symbol", "CommDspy/tx/bin2symbol.py"), ("symbol2bin", "CommDspy/rx/symbol2bin.py")])
prop("C04", "Constellation mapping and de-mapping are inverse; full scale has unit power",
     "For every constellation, amplitude scaling and polarity setting, mapping symbol indices to levels and de-mapping with the same settings returns the indices, in an array of the same shape. Levels are strictly increasing and equally spaced, inverted polarity is exactly the negated level, full-scale levels have mean power 1 and are proportional to the unscaled ones, and caller-supplied levels are used as given when their number fits the constellation and rejected otherwise.",
     ["inputs", "configurations"], "all symbol arrays (1-D and 2-D), all four constellations, both scalings, both polarities, arbitrary custom levels",
     "Tests cover one stored PAM4 stream and a couple of flags.",
     ["CommDspy/tx/mapping.py", "CommDspy/rx/demapping.py", "CommDspy/auxiliary.py"],
     [("mapping", "CommDspy/tx/mapping.py"), ("demapping", "CommDspy/rx/demapping.py"), ("get_levels", "CommDspy/auxiliary.py")])
prop("C05", "The slicer always decides for a nearest level",
     "For every real-valued input of any vector or matrix shape and every increasing set of levels, slicing returns an array of the same shape whose entries are levels, each at minimal distance from the corresponding input. Slicing an already sliced array changes nothing, and omitting the levels means the four levels -3, -1, 1, 3.",
     ["inputs", "configurations"], "all real inputs, all increasing level sets up to the bound",
     "The slicer has no direct test; it is only used incidentally with one level set.",
     ["CommDspy/rx/slicer.py"], [("slicer distance matrix and argmin", "CommDspy/rx/slicer.py")])
prop("C06", "Quantisation uses exactly the documented fixed-point grid",
     "For every signal, total bit count, number of fractional bits (positive, zero or negative) and number format (unsigned, signed, signed-symmetric), every output lies on the documented fixed-point grid of that format and is a nearest grid point to the input, so inputs beyond the range saturate to the end points. An unknown format is rejected, and leaving the format out means unsigned.",
     ["inputs", "configurations"], "all real inputs, bit widths, fraction widths and formats within the bound",
     "There is no test of quantisation.",
     ["CommDspy/rx/quantiztion.py", "CommDspy/rx/slicer.py"], [("quantize level construction", "CommDspy/rx/quantiztion.py")])
prop("C07", "Gray coding is a bijection and neighbouring levels differ in one bit",
     "For the one- and two-bit constellations, Gray decoding inverts Gray encoding (and the other way round) for every symbol array and shape, and the labels of adjacent levels differ in exactly one bit. The Gray labelling of any number of levels consists of distinct labels that start at 0 and change one bit per step.",
     ["inputs", "configurations"], "all symbol arrays, all level counts within the bound",
     "Tests compare stored PAM4 streams only.",
     ["CommDspy/tx/coding.py", "CommDspy/rx/decoding.py", "CommDspy/auxiliary.py"],
     [("coding_gray", "CommDspy/tx/coding.py"), ("decoding_gray", "CommDspy/rx/decoding.py"), ("get_gray_level_vec", "CommDspy/auxiliary.py")])
prop("C08", "Differential coding accumulates modulo the alphabet and is inverted exactly",
     "For every constellation and every symbol array, each differentially encoded symbol is the modulo-alphabet sum of the previous encoded symbol and the current one, starting from zero and running through the array in row-major order. Differential decoding returns the original array, with its shape, for every input shape and length.",
     ["inputs", "configurations"], "all symbol arrays (1-D and 2-D), all constellations",
     "Tests use stored vectors for PAM4; other alphabets, matrices and long accumulations are not covered.",
     ["CommDspy/tx/coding.py", "CommDspy/rx/decoding.py"],
     [("coding_differential", "CommDspy/tx/coding.py"), ("decoding_differential", "CommDspy/rx/decoding.py")])
prop("C09", "Manchester and differential Manchester: waveform laws, inverse, error flags",
     "Manchester encoding turns every 1 into 1,0 and every 0 into 0,1; differential Manchester encoding starts low, always toggles at bit boundaries, and toggles inside the bit exactly for 0 bits. Decoding returns the original bits for every vector and matrix, halving the last dimension the encoder doubled. A Manchester-coded pair without a transition decodes to 0.5, and only such pairs do.",
     ["inputs"], "all bit vectors and matrices, and all binary received streams (not only valid code words)",
     "Tests use one stored stream and one stored corrupted stream.",
     ["CommDspy/tx/coding.py", "CommDspy/rx/decoding.py"],
     [("coding_manchester / coding_differential_manchester", "CommDspy/tx/coding.py"), ("decoding_manchester / decoding_differential_manchester", "CommDspy/rx/decoding.py")])
prop("C10", "Bipolar and MLT-3 line codes obey their laws, invert and flag violations",
     "Bipolar encoding sends every 0 as the middle level and gives successive 1s strictly alternating outer levels; MLT-3 holds its level on 0 and advances along the four-step cycle 0, 1, 2, 1 on 1, starting from level 0. Decoding returns the original bits for every vector and matrix. With error detection on, each run of consecutive same-sign marks decodes to half a unit with that run's sign and everything else decodes as usual, whatever stream is received.",
     ["inputs"], "all bit vectors and matrices, and all received ternary streams",
     "Tests use one stored stream each and one hand-written violation.",
     ["CommDspy/tx/coding.py", "CommDspy/rx/decoding.py"],
     [("coding_bipolar / coding_mlt3", "CommDspy/tx/coding.py"), ("decoding_bipolar / decoding_mlt3", "CommDspy/rx/decoding.py")])
prop("C11", "Binary-only coders reject every non-binary pattern and accept every binary one",
     "Each encoder and decoder documented as working on binary data raises an error for every input holding any value other than 0 and 1, wherever that value sits and whatever accompanies it, and raises none for any input of zeros and ones, constant ones included. The same holds for generator matrices and feedback polynomials.",
     ["inputs"], "all small integer arrays in place of the pattern, the generator matrix or the feedback polynomial",
     "No test passes non-binary data.",
     ["CommDspy/misc/help_functions.py", "CommDspy/tx/coding.py", "CommDspy/rx/decoding.py"],
     [("check_binary / check_valid_conv", "CommDspy/misc/help_functions.py")])
prop("C12", "Linear block codes: encoding is the GF(2) product, decoding is minimum distance",
     "Encoding equals the GF(2) product of each data block with the generator matrix, padding the last block with zeros. For every received bit stream each decoded block is a message whose code word has minimal Hamming distance to the received block, trailing bits that do not fill a block are ignored, and error-free code words of an injective code decode to the message. When asked, the returned error probability of a block is 0 for a code word and otherwise one over the number of nearest code words, and asking changes neither the decoded bits nor the received array.",
     ["inputs", "configurations"], "all messages, all received words, all generator matrices within the bound",
     "Tests use one Hamming code, a stored message and a few error patterns.",
     ["CommDspy/tx/coding.py", "CommDspy/rx/decoding.py", "CommDspy/misc/ml_decoding.py"],
     [("coding_linear", "CommDspy/tx/coding.py"), ("decoding_linear", "CommDspy/rx/decoding.py"), ("ml_decoding", "CommDspy/misc/ml_decoding.py")])
prop("C13", "Convolutional encoding realises its GF(2) transfer function, feedback included",
     "For every input stream, generator set, feedback polynomials and feedback-use table accepted by the encoder, output j at every step is the GF(2) sum over inputs of the input stream filtered by its transfer function (divided by the feedback polynomial where feedback is used), from the zero state, with serial inputs de-interleaved, outputs interleaved and an incomplete last group padded with zeros. This stays exact for streams of any length.",
     ["inputs", "configurations"], "all bit streams, generator sets and feedback polynomials within the bound; long streams",
     "Tests use two stored codes and short streams.",
     ["CommDspy/tx/coding.py", "CommDspy/misc/help_functions.py"], [("coding_conv", "CommDspy/tx/coding.py")])
prop("C14", "Exhaustive convolutional decoding returns a maximum-likelihood input block",
     "For every received stream, each block decoded by exhaustive search is an input whose encoding, from some encoder start state, has minimal Hamming distance to the received block among all inputs and start states. Its model of the encoder agrees with the encoder itself, so an error-free block encoded from the zero state has distance zero. Blocks are decoded independently of one another, and the reported error probability is 0 for exact matches and one over the number of nearest candidates otherwise.",
     ["inputs", "configurations"], "all received blocks and all generator sets with and without feedback within the bound",
     "Tests decode a few stored blocks with one code each.",
     ["CommDspy/rx/decoding.py", "CommDspy/misc/ml_decoding.py"],
     [("decoding_conv_ml", "CommDspy/rx/decoding.py"), ("Trellis / create_trellis_bin / ml_decoding", "CommDspy/misc/ml_decoding.py")])
prop("C15", "Viterbi decoding is maximum-likelihood and inverts error-free encoding",
     "For every received stream, each block decoded by the Viterbi decoder is an input whose encoding from some start state has minimal Hamming distance to the received block, that is, it is never worse than exhaustive search, and blocks are decoded independently of one another. The reported final state is the end state of such a path for the last block, and the error probability is one over the number of equally good end states, or 0 when the best end state is unique.",
     ["inputs", "configurations"], "all received streams and generator sets (with and without feedback) within the bound",
     "Tests decode error-free or once-corrupted stored streams.",
     ["CommDspy/rx/decoding.py", "CommDspy/misc/ml_decoding.py"],
     [("decoding_conv_viterbi", "CommDspy/rx/decoding.py"), ("Trellis", "CommDspy/misc/ml_decoding.py")])
prop("C16", "Framing a signal keeps every sample in its place",
     "Splitting a signal into frames of a given length puts sample k*(length-overlap)+i of the signal, preceded by the requested number of zeros, at row k, column i, for positive, zero and negative overlap, with zeros only beyond the end of the signal. No sample that the frames should cover is lost, no frame consists solely of samples already covered or of padding, and clipping removes exactly the incomplete last frame and nothing else, whatever values the signal holds.",
     ["inputs", "configurations"], "all signals and all lengths, overlaps and delays within the bound",
     "Tests compare a handful of ramp signals.",
     ["CommDspy/auxiliary.py"], [("buffer", "CommDspy/auxiliary.py")])
prop("C17", "Rate and bit helpers are exact: upsample, hold, binary conversion, distances",
     "Up-sampling by r places the samples r apart with zeros between, holding repeats each sample r times, so decimation by r recovers the signal in both cases. Converting unsigned integers to fixed-width MSB-first bits and back is the identity for every array shape, the table of all k-bit words lists each word once in counting order, Hamming tables hold the true distances with an index of a nearest word per block, and power and RMS are the mean square and its root.",
     ["inputs", "configurations"], "all signals, integers, words and sizes within the bound",
     "These helpers have no tests of their own.",
     ["CommDspy/auxiliary.py"],
     [("upsample, zoh, bin2uint, uint2bin, get_bin_perm, hamming, power, rms", "CommDspy/auxiliary.py")])
prop("C18", "Pattern lock returns the rotation that best correlates with the signal",
     "Locking a periodic pattern to a signal returns a cyclic rotation of that pattern, of the same length, whose correlation with the start of the signal is maximal among all rotations. Whenever the signal is an exact rotation of the pattern (or a repetition of one), the returned pattern equals the signal sample for sample over the period, for binary and for multi-level signals.",
     ["inputs"], "all patterns and signals within the bound; all rotations",
     "Tests lock one stored PRBS at three offsets.",
     ["CommDspy/rx/lock_pattern.py"],
     [("lock_pattern_to_signal_binary / lock_pattern_to_signal", "CommDspy/rx/lock_pattern.py")])
prop("C19", "PRBS checkers report exactly the bits that differ and decide lock from them",
     "For every received bit stream the locked checker's error vector marks exactly the positions that differ from the periodic reference sequence, the correct-bit count is the number of unmarked positions, and lock is lost exactly when the number of errors reaches the threshold; without initial lock the reference is first rotated to its best alignment, so an error-free stream at any phase shows no errors. The seed-from-data checker marks exactly the bits that break the recurrence started from the received bits of the attempt it reports, keeps lock on every error-free stream, and recovers on every stream whose errors all lie in its first bits, fewer than the degree of the polynomial.",
     ["inputs", "histories"], "all received streams and error patterns, thresholds, phases within the bound",
     "Tests use one stored capture.",
     ["CommDspy/rx/checker.py", "CommDspy/rx/lock_pattern.py", "CommDspy/tx/prbs_generator.py"],
     [("prbs_checker / prbs_checker_economy", "CommDspy/rx/checker.py")])
prop("C20", "Channels, CTLE and filter objects implement their difference equation and stream",
     "For all coefficients, initial memories and real signals, the noiseless channel, the equaliser front end and the stateful filter objects produce the output of the documented difference equation, normalised by the leading denominator coefficient. Processing a signal in consecutive chunks of any lengths while carrying the memory gives the same samples as processing it at once, and integer-typed signals are treated like the equal real-valued ones.",
     ["inputs", "histories"], "all real signals, coefficients and memories, all chunkings within the bound",
     "No test exercises chunked processing or the filter objects.",
     ["CommDspy/channel/additive_noise_functions.py", "CommDspy/rx/ctle_model.py", "CommDspy/misc/help_classes.py"],
     [("awgn_channel", "CommDspy/channel/additive_noise_functions.py"), ("ctle", "CommDspy/rx/ctle_model.py"), ("Filter / FilterTII / FfeDfeFilterTII", "CommDspy/misc/help_classes.py")])
prop("C21", "FFE/DFE equalisation follows its model and streams across chunks",
     "At symbol rate, each slicer input equals the feed-forward filtered signal minus the feedback taps applied to the most recent decisions, each decision being the nearest level to its slicer input; for an oversampled signal the same holds at the sampling instants of the given phase, with the decisions taken there. Feeding a signal in consecutive chunks while passing the returned memories back in gives the same outputs as one call, with feed-forward taps only, feedback taps only, or both. Memories of the wrong size are rejected with an error that says so.",
     ["inputs", "histories"], "all real signals, taps, levels and memories, all chunkings within the bound",
     "The equaliser is only run inside example scripts.",
     ["CommDspy/rx/ffe_dfe_model.py", "CommDspy/rx/slicer.py", "CommDspy/misc/help_classes.py"],
     [("ffe_dfe", "CommDspy/rx/ffe_dfe_model.py")])
prop("C22", "Pulse shaping is linear superposition of the documented pulse, without ISI",
     "The shaped signal is the superposition of one copy of the chosen pulse per input symbol, spaced by the oversampling ratio, and chunks shaped with the returned memory join without seams. Sinc and raised-cosine pulses are 1 at their centre and 0 at every other symbol instant, so symbol-rate sampling recovers the symbols for every roll-off; the rectangular pulse holds each symbol for one symbol period and the impulse only up-samples. All pulses are finite for every roll-off in the allowed range and a memory of the wrong length is rejected.",
     ["inputs", "histories", "configurations"], "all real symbol streams, chunkings, roll-offs, oversampling ratios and spans within the bound",
     "Pulse shaping is only plotted by example scripts.",
     ["CommDspy/channel/pulse_shaping.py", "CommDspy/auxiliary.py"],
     [("pulse_shape and the pulse functions", "CommDspy/channel/pulse_shaping.py")])
prop("C23", "AWGN has the requested SNR and is purely additive",
     "For every signal and every SNR in dB, the noisy signal is the input plus independent zero-mean Gaussian samples, one per sample and in the same shape, whose variance is the signal's mean power divided by the linear SNR, up to the sampling correction of the power estimate. A channel without an SNR adds no noise, and with one adds it after filtering without disturbing the returned memory.",
     ["inputs", "configurations"], "all real signals and all SNR values within the bound, all noise draws",
     "One test measures the variance of a single random draw.",
     ["CommDspy/channel/additive_noise_functions.py"],
     [("awgn / awgn_channel", "CommDspy/channel/additive_noise_functions.py")])
prop("C24", "Fractional delay and oversampling interpolate exactly and keep the samples",
     "Lagrange delay coefficients of order n reproduce every polynomial of degree up to n at every fractional delay, so they sum to one and reduce to the identity at zero delay; all methods reduce to the identity at zero delay and yield finite coefficients. Oversampling returns the original samples unchanged at every osr-th output position after the documented trimming, places each interpolated sample at its delay on the time axis it returns, and rejects unknown methods.",
     ["inputs", "configurations"], "all fractional delays, polynomials, signals, orders and ratios within the bound",
     "One test compares a few delays on one sine wave.",
     ["CommDspy/digital_delay.py"],
     [("dig_delay_*_coeffs, digital_oversample", "CommDspy/digital_delay.py")])
prop("C25", "LMS gradients equal the documented averages for every tap",
     "For every input, output, level set and set of tap positions, the decision-directed cost is the mean squared distance between outputs and their reference (the nearest levels unless a reference is given), and each gradient entry is half (minus half for feedback taps) the mean, over the samples where both are defined, of the error times the input or decision delayed by that tap. The soft variant uses the mean negative log-likelihood of the Gaussian mixture and the documented error term (weighted distance sum over mixture density) in the same way; the cost comes alone or followed by the feed-forward and then the feedback gradients according to which taps were requested, and a reference of the wrong length is rejected.",
     ["inputs", "configurations"], "all real signals, references and tap index sets within the bound",
     "The gradients have no test.",
     ["CommDspy/rx/least_mean_squares.py", "CommDspy/rx/slicer.py"],
     [("ddlms_grad / soft_ddlms_grad / _compute_derivatives", "CommDspy/rx/least_mean_squares.py")])
prop("C26", "Timing-recovery step has the documented sign and dead zone",
     "For every signal, reference, weights and tolerance, the step is the sign of the weighted post-cursor correlation minus the weighted pre-cursor correlation, each averaged over the adjacent-symbol pairs, and is 0 exactly when that difference is smaller in magnitude than the tolerance. It is therefore unchanged by a gain on the signal that does not cross the tolerance and flips when signal polarity flips.",
     ["inputs"], "all real signals, references, weights and tolerances within the bound",
     "One test steps through one simulated channel.",
     ["CommDspy/rx/clock_data_recovery.py"], [("mueller_muller_step", "CommDspy/rx/clock_data_recovery.py")])
prop("C27", "Channel and equaliser estimates are least-squares optimal for the stated model",
     "The returned channel taps minimise the squared error between the captured signal, averaged over whole periods, and the aligned reference filtered by those taps with the requested number of pre- and post-cursors; a capture of a noiseless channel that short is recovered exactly. The returned equaliser taps minimise the squared error between the equalised signal and the reference for the requested numbers of feed-forward and feedback taps (plus the ridge penalty when requested); normalisation divides all taps by the peak of the feed-forward taps and reports that peak; the reported residual is the squared error of those taps and the MSE is its power relative to the equalised signal in dB. Scaling, polarity, bit-order and Gray flags describe the reference that was sent.",
     ["inputs", "configurations"], "all real captures of the bounded length, all tap counts within the bound",
     "Tests run two stored channels and compare to a tolerance, normalised only.",
     ["CommDspy/channel_estimation.py", "CommDspy/equalization_estimation.py", "CommDspy/misc/least_squares.py"],
     [("channel_estimation_prbs", "CommDspy/channel_estimation.py"), ("equalization_estimation(_prbs)", "CommDspy/equalization_estimation.py"), ("least_squares", "CommDspy/misc/least_squares.py")])
prop("C28", "The eye diagram counts every sample once in its phase and amplitude bin",
     "Without interpolation, column p of the diagram (and its repetition one unit interval later) is the histogram of exactly the samples at phase p, with the amplitude range split evenly into the requested number of bins; every sample inside the range is counted once and those outside are not counted. The amplitude axis spans the full range, and the logarithmic form is the logarithm of the same counts with the documented offset.",
     ["inputs", "configurations"], "all real signals, bin counts, ranges and oversampling ratios within the bound",
     "The eye diagram is only plotted by example scripts.",
     ["CommDspy/eye_diagram.py"], [("eye_diagram", "CommDspy/eye_diagram.py")])
prop("C29", "The CTLE is stable and has the requested DC gain",
     "For all non-zero real zero and pole frequencies of either sign (at least one zero, at least as many poles as zeros), all DC gains, sampling rates and oversampling ratios, the discrete equaliser is the bilinear transform of the analogue filter whose zeros and poles lie on the negative real axis at those magnitudes: its poles are strictly inside the unit circle and its gain at DC is the requested gain in dB. Passing a signal through the CTLE applies exactly this filter, and splitting the signal into blocks with the carried state changes nothing.",
     ["configurations", "inputs"], "all zeros, poles, gains and rates within the bound",
     "The CTLE has no test.",
     ["CommDspy/rx/ctle_model.py"], [("get_ctle_filter", "CommDspy/rx/ctle_model.py")])
prop("C30", "The complete link is transparent while noise stays inside the decision regions",
     "For every bit stream and every constellation with whole bits per symbol, chaining bits-to-symbols, optional Gray and differential coding, mapping, an ideal channel with any bounded disturbance smaller than half the level spacing, slicing, de-mapping and the inverse codings delivers exactly the transmitted bits, under all matching scaling, polarity and bit-order settings. The same holds when the symbols pass through oversampled zero-ISI pulse shaping and are sampled at the symbol instants. The binary line codes (Manchester, differential Manchester, bipolar, MLT-3) are transparent over the same link.",
     ["inputs", "configurations"], "all bit streams, disturbances and settings within the bound",
     "Tests check stages one at a time on stored vectors.",
     ["CommDspy/tx/bin2symbol.py", "CommDspy/tx/coding.py", "CommDspy/tx/mapping.py", "CommDspy/channel/pulse_shaping.py", "CommDspy/rx/slicer.py", "CommDspy/rx/demapping.py", "CommDspy/rx/decoding.py", "CommDspy/rx/symbol2bin.py"],
     [("stage pairs tx/* and rx/*", "CommDspy/tx, CommDspy/rx")])
prop("C31", "Library calls never modify the caller's arrays and are repeatable",
     "No public function changes the contents of any array, list or dictionary passed to it, for any input values and settings, and a call with the same arguments returns the same result whatever was called before it and whatever the caller has since done to arrays it was given (functions that draw random numbers aside). Stateful objects change only their own memory.",
     ["inputs", "histories"], "all input values and flag settings within the bound, for every public function",
     "Tests never compare inputs before and after a call.",
     ["CommDspy/tx", "CommDspy/rx", "CommDspy/channel", "CommDspy/auxiliary.py", "CommDspy/digital_delay.py"],
     [("copy-before-modify in the public functions", "CommDspy/tx, CommDspy/rx, CommDspy/channel, CommDspy/auxiliary.py")])
prop("C32", "Spectrum analysis is the Welch estimate in the documented units of its mode",
     "For every signal, the analyser returns Welch's estimate: the squared magnitudes of the spectra of windowed, mean-free, overlapping segments, averaged over all segments and divided by the energy of the window, on the frequencies from 0 to half the sampling rate (all frequencies for complex signals). Each mode multiplies it by its documented factor, so that the density modes integrate to the signal's power over the load (half of it single-sided), the level relative to the carrier does not depend on a gain, and giving an occupied bandwidth selects that mode. Leaving the resolution bandwidth out works for every signal length, and an unknown mode is rejected.",
     ["inputs", "configurations"], "all real signals, windows, overlaps, modes and side-band modes within the bound",
     "The analyser has no test.",
     ["CommDspy/psa.py"], [("psa", "CommDspy/psa.py")])
prop("C33", "Random jitter moves sampling instants only, by the requested amount",
     "With random jitter enabled, every shaped sample is the un-jittered waveform (the cubic spline through its samples) evaluated at its instant displaced by one Gaussian offset per symbol, common to the samples of that symbol, whose standard deviation is the requested one in unit intervals. Jitter changes neither the number of samples nor the returned memory, and a jitter of zero changes nothing.",
     ["inputs", "configurations"], "all symbols, memories and jitter draws within the bound",
     "Jitter is only plotted by example scripts.",
     ["CommDspy/channel/pulse_shaping.py"], [("pulse_shape with rj_sigma", "CommDspy/channel/pulse_shaping.py")])
prop("C34", "Results depend on values alone, not on integer type or memory layout",
     "For every public function and any values of its arguments, storing the same numbers in another integer type of at most 32 bits (signed or unsigned, and bool for streams of bits), as long as they fit, gives the same results as storing them in the default types. The same holds for arrays that are views: every second entry of a larger array, reversed, a slice, or in column order.",
     ["inputs", "configurations"], "all input values within the bound, for every public function, integer type and layout",
     "Tests use freshly created 64-bit arrays only.",
     ["CommDspy/tx", "CommDspy/rx", "CommDspy/channel", "CommDspy/auxiliary.py", "CommDspy/digital_delay.py", "CommDspy/misc"],
     [("arithmetic on the caller's arrays in the public functions", "CommDspy/tx, CommDspy/rx, CommDspy/channel, CommDspy/auxiliary.py, CommDspy/digital_delay.py, CommDspy/misc/help_classes.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
if __name__ == "__main__":
    import re
    for p in P:
        n = len(re.findall(r"[.!?](?:\s|$)", p["statement"]))
        if n > 3: print(p["id"], n, "sentences?")
    print(len(P))
