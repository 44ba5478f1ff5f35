"""How each property is decided (text for DESIGN.md)."""
HOW = {
'C01': 'The real `prbs_gen` and `PrbsIterator` run with a seed of boolean unknowns; every output bit becomes an XOR expression over the seed bits and must equal the one obtained from the recurrence written down in the harness. Streaming is the equality of one call with the concatenation of several, threaded through the returned seed.',
'C02': 'One step of the real generator (and of the iterator) from a symbolic state is shown to be the linear map M read off the polynomial table; the full-period claim is then the symbolic query "some seed s != 0 with M^k s = s" for k = (2^n-1)/p over the prime factors p (must be unsat) and M^(2^n-1) s = s for all s. M^k is formed by repeated squaring, so PRBS31 is covered in full.',
'C03': 'Bits are boolean unknowns; the symbol is the base-2 value of its group in the documented order with the flags applied, and `symbol2bin(bin2symbol(x)) == x` bit by bit.',
'C04': 'Symbols are integer unknowns over the alphabet and custom levels real unknowns; levels, spacing, polarity, unit power, proportionality of full-scale levels, round trip and shape are separate obligations. Rejected level counts must raise.',
'C05': 'Inputs and levels are real unknowns; the result must be one of the levels and, for every level, not further from the input than it. Idempotence and the default levels are separate cases.',
'C06': 'The input is a real unknown; the oracle is the grid of the format (step 2^-f, range of u/s/ss): the result lies on the grid, inside the range, and no grid point is nearer (ties either way), including saturation at both ends. Wide words are decided around four points of the range to keep the case split finite.',
'C07': 'Gray labels: the number of differing bits between neighbouring labels (for a symbolic level index) is one, and decode(code(x)) = x on symbolic arrays.',
'C08': 'Symbol arrays are integer unknowns; coded[i] = (coded[i-1] + x[i]) mod L with zero before the start, decode(code(x)) = x and decode of any received stream is the difference of neighbours. Long streams have a few unknown entries at start, middle and end.',
'C09': 'Bits are boolean unknowns: the two half-bits of the Manchester and differential-Manchester encoders against the transition rules, DC balance, decode(code(x)) = x, and the majority rule of the decoder on arbitrary received streams.',
'C10': 'AMI/bipolar and MLT-3: the oracle is a small state machine in the harness (sign of the last mark; position in the four-step cycle). Error detection is decided on arbitrary ternary streams: an error is flagged at exactly the symbols that break alternation.',
'C11': 'Entries are integers (-2..3) or reals; the encoders must raise exactly on data that is not binary or whose shape does not fit, and accept everything else. `rejects` obligations are path obligations: on every path the raised/not-raised outcome must equal the symbolic predicate.',
'C12': 'Codewords are the GF(2) product; decoding is decided against the definition: the decoded word re-encodes to a codeword whose Hamming distance to the block is minimal over all 2^k codewords; error probability is one minus one over the number of nearest words.',
'C13': 'Output bits are XOR expressions over the input and the (symbolic) generator entries; the oracle is a shift-register encoder with feedback written bit by bit in props/convref.py. Long streams (400 bits, ten unknown) target overflow and rounding of the unreduced polynomial arithmetic.',
'C14': 'Exhaustive convolutional decoding, decided against the definition by quantifying over all candidate words and start states through the reference encoder: the answer attains the minimal Hamming distance, the reported state and error probability match the number of minimisers, blocks chain through the end state.',
'C15': 'The same definition for the Viterbi algorithm, plus agreement with the exhaustive decoder and, for longer blocks, the per-state least distances computed by symbolic dynamic programming over the reference encoder.',
'C16': 'The signal is a vector of real unknowns; each frame must hold the samples at the documented positions (length, overlap, delay), zeros outside the signal; clip removes exactly the incomplete last frame, whatever the values.',
'C17': 'ZOH, uint/bin conversion, word tables, Hamming distance tables, power, RMS and dB helpers: symbolic inputs against one-line definitions; `get_bin_perm` completeness as a query for a word that is not in the table.',
'C18': 'The correlation of every rotation with the signal is an exact sum over the unknowns; the returned rotation must attain the maximum, and an exact rotation of a pattern comes back aligned. One concrete pattern of 4095 symbols with solver-chosen rotations exercises the FFT path scipy takes.',
'C19': 'The received stream is boolean unknowns (or a PRBS with a few free bits); the number of errors must be the Hamming distance to the recurrence from the aligned reference, loss of lock exactly when it exceeds the threshold, and for the economy checker exactly the run-time predicate of the docstring.',
'C20': 'Taps, signal and memory are real unknowns. Outputs are polynomials that must equal those of the difference equation written in the harness (direct form from rest, transposed form II with memory), the state handed out must continue the stream: any split equals one call. Chunks of the filter objects likewise.',
'C21': 'FFE/DFE: outputs against the recursion y = FFE(x) - DFE(decisions) with decisions by nearest level, decided per path of the decisions (each path condition is a conjunction of linear inequalities), memories returned continue the stream, documented errors raised.',
'C22': 'Pulses are polynomials in the unknown signal with coefficients computed exactly where possible; the output is the superposition of displaced pulses, split calls equal one call. The roll-off is unknown in the zero-ISI and finiteness cases (sin/cos as atoms with their exact values at the singular points).',
'C23': 'The random generator is a stub returning unknown draws. The disturbance must be one common factor times one own draw per sample; factor^2 * SNR equals the mean power up to the sampling correction, for any signal and SNR (10**x an uninterpreted function with its multiplicative law).',
'C24': 'The delay is a real unknown: coefficients are polynomials in it that must reproduce the Lagrange/raised-cosine definition, sum and moment conditions; oversampling reproduces the input samples and every polynomial up to the interpolation order.',
'C25': 'LMS/DDLMS/soft gradients: inputs, outputs and references are real unknowns; each entry must equal the documented correlation of error and regressor at the tap position, decisions by nearest level; exp/log are uninterpreted in the soft variant.',
'C26': 'Mueller-Mueller gradient: the documented sum of products over all unknown samples, weights and tolerance, including the fall-back branches.',
'C27': 'Captures are a fixed PRBS through unknown taps: the real estimator (pattern lock included) must return those taps; with unknown disturbances the returned taps must satisfy the normal equations. `lstsq` and Ridge are stubs that return an arbitrary solution of the normal equations; where the matrix is symbolic the optimality conditions are checked on a Taylor-exact neighbourhood.',
'C28': 'Samples are real unknowns; the count of every (phase, amplitude bin) is a sum of indicator terms that must match the histogram definition; total counts, axis and logarithmic variant are separate obligations.',
'C29': 'Zeros, poles, symbol rate and gain are real unknowns; the returned digital numerator and denominator must be proportional to the bilinear image of the documented transfer function and have the documented DC gain; fixed GHz filters are compared through their response to any signal.',
'C30': 'End to end: bits -> symbols -> (Gray, differential) -> levels -> pulse shaping -> bounded unknown disturbance -> sampling -> slicer -> de-mapping -> bits; for every bit stream, flag combination and disturbance below half a level spacing, the received bits are the transmitted ones.',
'C31': 'Every exported function is run on the same symbolic arguments in two freshly loaded copies of the package, once alone and once after other calls; all results must be equal expressions and every argument array unchanged (entry by entry, dtype and shape included).',
'C32': 'The signal is a vector of real unknowns; the power of every bin is a quadratic form that must be the averaged modified periodogram in the documented unit of the mode, frequencies and side-band layout included.',
'C33': 'The draws are unknowns; the waveform must be the not-a-knot spline through the clean waveform at the displaced instants (one common displacement per symbol, standard deviation as documented), the carried memory undisturbed.',
'C34': 'A relation between two runs: each function is run on the same unknowns stored once in the default type and once as uint8/int8/int16/int32/bool (or as a strided, reversed, sliced or column-ordered view); element arithmetic in the engine wraps as the type does, so the solver is asked for values on which the two results differ. Signals are drawn from five values that reach the ends of the type.',
}
