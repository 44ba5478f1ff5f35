"""Writes known-findings.json: no finding is suppressed; the repairs of genuine defects are recorded."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
 ('C03', '702babc', 'symbol2bin of a single symbol with invert_msb or invert_lsb raised IndexError'),
 ('C04', '502dc2c', 'demapping with inverted polarity negated the caller\'s array in place (also C31)'),
 ('C05', '2c80285', 'slicer failed on a one-dimensional list'),
 ('C06', '2ed3c6f', 'quantize ignored negative fractional bit counts'),
 ('C06', 'e6406fc', 'quantize called with its own default format was rejected'),
 ('C08', 'e67a22f', 'differential decoding of a matrix ran in another order than the encoder, so decode(encode(x)) != x'),
 ('C10', '72ad6fe', 'bipolar error detection missed consecutive marks of equal sign and failed on matrices'),
 ('C10', '1b1b4f5', 'MLT-3 decoding failed on matrices'),
 ('C11', 'c907674', 'check_binary accepted two-valued data that is not binary, e.g. [2, 5]'),
 ('C12', '5ca808a', 'decoding with error_prob=True overwrote the received pattern (also C31)'),
 ('C13', 'a7ae153', 'convolutional encoding with feedback returned wrong bits for long patterns (unreduced values lost precision)'),
 ('C14', '619efc9', 'trellis dropped the memory of inputs without feedback when another input had feedback'),
 ('C15', '2588fc3', 'Viterbi decoding used the distance of the last step and transitions that do not exist, so its word was not the nearest'),
 ('C16', '53876a2', 'buffer with clip=True clipped frames by their values (data equal to the filler) instead of by position'),
 ('C18', '22c34b9', 'pattern lock returned fewer symbols than a period when the signal is shorter than the pattern'),
 ('C20', '3b45212', 'transposed filter object failed for memory-less filters'),
 ('C20', '7230c31', 'filter objects truncated their output to integers for integer-typed input'),
 ('C21', 'febebe6', 'ffe_dfe rejected the documented ffe_taps=None'),
 ('C21', 'a8e7f70', 'FFE-only memory lost the older samples when a chunk is shorter than the FFE'),
 ('C21', '3d60675', 'ffe_dfe failed with TypeError on memories of the wrong size'),
 ('C22', '9d9d244', 'raised-cosine pulses were NaN for roll-off 0 and inexact next to their singular points'),
 ('C22', '6b20fa1', 'pulse_shape with the impulse failed on its own memory length'),
 ('C24', 'aed355c', 'Lagrange delay of order 0 raised an error'),
 ('C24', 'adaaafb', 'raised-cosine delay coefficients were not finite at the singular points of the pulse'),
 ('C25', '1521df4', 'soft_ddlms_grad accepted a reference of the wrong length'),
 ('C27', '6d45161', 'regularised least squares fitted a hidden intercept and so did not minimise the documented objective'),
 ('C27', 'e05c7cf', 'channel estimation ignored inv_post_coding'),
 ('C27', '036afda', 'channel estimation scaled the taps by the power of the signal'),
 ('C27', '52d144e', 'equaliser estimation with normalize=True failed without DFE taps'),
 ('C27', '90c5c34', 'equaliser estimation used rows that reach over the end of the signal'),
 ('C27', '47fe439', 'equaliser estimation from a PRBS aligned the reference by FFE plus DFE postcursors'),
 ('C32', '5818166', 'psa returned a spectrum that was not in the documented units'),
 ('C32', 'bd90011', 'psa failed with its own default resolution bandwidth'),
 ('C34', '2b08e8a', 'hamming distance of unsigned or boolean patterns wrapped around or was rejected by numpy'),
 ('C34', 'a2f0750', 'power and rms of narrow integer signals overflowed'),
 ('C34', 'c4308c1', 'pattern lock failed to lock on unsigned and narrow integer patterns'),
 ('C34', '2d3080e', 'Manchester, bipolar and MLT-3 decoders wrapped around on unsigned patterns'),
 ('C34', '82b1b3a', 'Mueller-Muller step of narrow integer signals overflowed'),
 ('C34', '8bb6929', 'LMS gradients of narrow integer outputs and references overflowed'),
 ('C34', 'fd2ce32', 'pattern lock, Mueller-Muller and LMS rejected lists after the type repairs'),
 ('C34', 'ca761b4', 'slicing narrow integers with narrow integer levels chose levels that are not nearest'),
 ('C34', '64ab935', 'soft LMS of narrow integer outputs and levels overflowed'),
 ('C34', '010ba78', 'psa relative to the carrier overflowed for narrow integer signals'),
 ('C34', '2c2a8d5', 'Manchester encoding failed for bits stored as booleans'),
 ('C34', 'cb10350', 'mapping and de-mapping with inverted polarity failed for unsigned levels'),
 ('C34', 'e0827b2', 'ffe_dfe with narrow integer taps and signals overflowed'),
 ('C34', 'e63f6ed', 'filter objects with narrow integer taps and data overflowed'),
 ('C34', 'f09b7c7', 'CTLE failed for zeros and poles stored as unsigned integers'),
 ('C34', 'f62e89c', 'awgn_channel failed when taps, signal and memory were all integers'),
]
json.dump(dict(findings=[], fixed=['fixed: property=%s %s %s' % f for f in FIXED]), open(os.path.join(R, 'known-findings.json'), 'w'), indent=1)
