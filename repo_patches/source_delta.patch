From 702babc1d0df9eb8fa96a2723b04ac924599a4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:49 +0000
Subject: [PATCH 01/50] fix: symbol2bin accepts a single symbol with inversion
 flags

---
 CommDspy/rx/symbol2bin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/rx/symbol2bin.py b/CommDspy/rx/symbol2bin.py
index 2112404..cffdf52 100644
--- a/CommDspy/rx/symbol2bin.py
+++ b/CommDspy/rx/symbol2bin.py
@@ -25,7 +25,7 @@ def symbol2bin(symbol_mat, num_of_symbols, bit_order_inv=False, inv_msb=False, i
     # ==================================================================================================================
     # Converting to binary representation
     # ==================================================================================================================
-    symbol_mat_binary = np.squeeze(((symbol_vec[:, None] & (1 << np.arange(0, bits_per_symbol, 1))) > 0).astype(int))
+    symbol_mat_binary = ((symbol_vec[:, None] & (1 << np.arange(0, bits_per_symbol, 1))) > 0).astype(int)
     # ==================================================================================================================
     # Bit manipulations according to the flags
     # ==================================================================================================================
-- 
2.43.0


From c9076747980b4d29b5ff7f9c7d64d6315e7516e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:11 +0000
Subject: [PATCH 02/50] fix: check_binary rejects two-valued data that is not
 binary

---
 CommDspy/misc/help_functions.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/CommDspy/misc/help_functions.py b/CommDspy/misc/help_functions.py
index 5e98490..a0731f4 100644
--- a/CommDspy/misc/help_functions.py
+++ b/CommDspy/misc/help_functions.py
@@ -2,11 +2,7 @@ import numpy as np
 
 def check_binary(pattern):
     data_in = np.unique(pattern)
-    if len(data_in) == 1 and (0 not in data_in and 1 not in data_in):
-        raise ValueError('Data in is not binary, please consider other encoding methods')
-    elif len(data_in) == 2 and (0 not in data_in and 1 not in data_in):
-        raise ValueError('Data in is not binary, please consider other encoding methods')
-    elif len(data_in) > 2:
+    if not np.all(np.isin(data_in, [0, 1])):
         raise ValueError('Data in is not binary, please consider other encoding methods')
 
 def check_valid_conv(pattern, G, feedback, use_feedback):
-- 
2.43.0


From e67a22f4544130f5447dfbedad4eb819201bbfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:11 +0000
Subject: [PATCH 03/50] fix: differential decoding runs through matrices in the
 order the encoder uses

---
 CommDspy/rx/decoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/rx/decoding.py b/CommDspy/rx/decoding.py
index dfa4e95..c3af6c4 100644
--- a/CommDspy/rx/decoding.py
+++ b/CommDspy/rx/decoding.py
@@ -44,7 +44,7 @@ def decoding_differential(pattern, constellation=ConstellationEnum.PAM4):
                    --------------------------------
         """
     lvl_num = len(get_levels(constellation))
-    return (lfilter([1, -1], [1], pattern.astype(float)) % lvl_num).astype(int)
+    return np.reshape(lfilter([1, -1], [1], np.reshape(pattern, -1).astype(float)) % lvl_num, pattern.shape).astype(int)
 
 def decoding_manchester(pattern):
     """
-- 
2.43.0


From 1b1b4f55187a79b6faf7e1ceeea27ee1ef4ce77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:11 +0000
Subject: [PATCH 04/50] fix: MLT-3 decoding accepts matrices

---
 CommDspy/rx/decoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/rx/decoding.py b/CommDspy/rx/decoding.py
index c3af6c4..bc40ec2 100644
--- a/CommDspy/rx/decoding.py
+++ b/CommDspy/rx/decoding.py
@@ -118,7 +118,7 @@ def decoding_mlt3(pattern):
     # ==================================================================================================================
     # Decoding
     # ==================================================================================================================
-    if pattern[0] == 1:
+    if pattern_flat[0] == 1:
         transitions = np.concatenate((np.array([1]), np.abs(np.diff(pattern_flat))))
     else:
         transitions = np.concatenate((np.array([0]), np.abs(np.diff(pattern_flat))))
-- 
2.43.0


From 72ad6fefb5bc7d81ec2ab3fab9046b2e312d46a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:11 +0000
Subject: [PATCH 05/50] fix: bipolar error detection uses the sign of the marks
 and accepts matrices

---
 CommDspy/rx/decoding.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/CommDspy/rx/decoding.py b/CommDspy/rx/decoding.py
index bc40ec2..c7bf711 100644
--- a/CommDspy/rx/decoding.py
+++ b/CommDspy/rx/decoding.py
@@ -101,17 +101,14 @@ def decoding_bipolar(pattern, error_detection=False):
         # Detecting the mark locations in the pattern
         # ----------------------------------------------------------------------------------------------------------
         pattern_flat    = np.reshape(pattern - 1, -1)
-        decoded_pattern = np.abs(pattern - 1).astype(float)
+        decoded_pattern = np.abs(pattern_flat).astype(float)
         idx_vec         = np.arange(0, len(decoded_pattern))
         mark_location   = idx_vec[pattern_flat != 0]
         mark_change     = np.concatenate((np.array([1]), np.diff(pattern_flat[mark_location])))
-        running_sign    = 1
         for ii, mark in enumerate(mark_change):
             if mark == 0:
-                decoded_pattern[mark_location[ii]] = decoded_pattern[mark_location[ii-1]] = 0.5 * np.sign(running_sign)
-            else:
-                running_sign = np.sign(mark)
-        return decoded_pattern
+                decoded_pattern[mark_location[ii]] = decoded_pattern[mark_location[ii-1]] = 0.5 * np.sign(pattern_flat[mark_location[ii]])
+        return np.reshape(decoded_pattern, pattern.shape)
 
 def decoding_mlt3(pattern):
     pattern_flat = np.reshape(pattern, -1)
-- 
2.43.0


From 5ca808a434ab698a5039a07818157b90864a219b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:11 +0000
Subject: [PATCH 06/50] fix: asking for the error probability no longer
 overwrites the received pattern

---
 CommDspy/misc/ml_decoding.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/CommDspy/misc/ml_decoding.py b/CommDspy/misc/ml_decoding.py
index 5772d5e..48128f4 100644
--- a/CommDspy/misc/ml_decoding.py
+++ b/CommDspy/misc/ml_decoding.py
@@ -15,7 +15,6 @@ def ml_decoding(permutations, codebook, pattern_block, error_prob):
         min_hamming = np.min(hamming, axis=0)
         not_codeword = min_hamming > 0
         correct_idx = np.argmin(hamming[:, not_codeword], axis=0)
-        pattern_block[not_codeword] = codebook[correct_idx]
         # ----------------------------------------------------------------------------------------------------------
         # Fixing the hamming matrix, filling p_err
         # ----------------------------------------------------------------------------------------------------------
-- 
2.43.0


From 619efc9cb339e31c82d00ab9ecdfc8b8ae80ffe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:11 +0000
Subject: [PATCH 07/50] fix: trellis keeps the memory of inputs without
 feedback when another input has feedback

---
 CommDspy/misc/ml_decoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/misc/ml_decoding.py b/CommDspy/misc/ml_decoding.py
index 48128f4..a147d2b 100644
--- a/CommDspy/misc/ml_decoding.py
+++ b/CommDspy/misc/ml_decoding.py
@@ -142,7 +142,7 @@ def create_trellis_bin(G, states, inputs, memory_cumsum, feedback=None, use_feed
                 else:
                     for jj in range(n_out):
                         G_kk_jj = G[kk][jj]
-                        if len(G_kk_jj) == 1 or use_feedback[kk, jj] == 0:
+                        if len(G_kk_jj) == 1 or (kk in feedback.keys() and use_feedback[kk, jj] == 0):
                             # no memory, either systematic or always 0 output, depending on G_ii_jj[0] value.
                             # 1 - systematic ; 0 - zero output
                             c_vec[jj] = c_vec[jj] ^ (in_k * G_kk_jj[0])
-- 
2.43.0


From a7ae153422489496bfc53837a77441af67bf9b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:11 +0000
Subject: [PATCH 08/50] fix: convolutional encoding with feedback is exact for
 long patterns

---
 CommDspy/tx/coding.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/CommDspy/tx/coding.py b/CommDspy/tx/coding.py
index c9a3b3b..ccee4b6 100644
--- a/CommDspy/tx/coding.py
+++ b/CommDspy/tx/coding.py
@@ -315,7 +315,11 @@ def coding_conv(pattern, G, feedback=None, use_feedback=None, zi=None):
             # ------------------------------------------------------------------------------------------------------
             # Passing the data through the transfer function
             # ------------------------------------------------------------------------------------------------------
-            out_ii_jj     = lfilter(G_ii_jj.astype(float), iir_vals, in_pattern)
+            out_ii_jj     = lfilter(G_ii_jj.astype(float), 1.0, in_pattern) % 2
+            if type(iir_vals) != float and use_feedback[ii, jj] == 1:
+                for kk in range(len(out_ii_jj)):  # modulo 2 in every step, so that the recursion stays exact
+                    past = out_ii_jj[max(kk - len(iir_vals) + 1, 0):kk][::-1]
+                    out_ii_jj[kk] = (out_ii_jj[kk] + iir_vals[1:len(past) + 1].dot(past)) % 2
             out_vals[jj] += out_ii_jj
     # ==================================================================================================================
     # Setting the data to binary
-- 
2.43.0


From e6406fc9dedee989d253ce1958e088aaecc25482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:11 +0000
Subject: [PATCH 09/50] fix: quantize defaults to a format it accepts

---
 CommDspy/rx/quantiztion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/rx/quantiztion.py b/CommDspy/rx/quantiztion.py
index 10116e8..5eab1c8 100644
--- a/CommDspy/rx/quantiztion.py
+++ b/CommDspy/rx/quantiztion.py
@@ -1,7 +1,7 @@
 import numpy as np
 from CommDspy.rx.slicer import slicer
 
-def quantize(signal, total_bits, frac_bits=0, fix_point_type='unsigned'):
+def quantize(signal, total_bits, frac_bits=0, fix_point_type='u'):
     """
     :param signal: Input signal to perform quantization on
     :param total_bits: Total bit used in the quantization
-- 
2.43.0


From 2ed3c6ff21a660e3f205c609f3507f391750174f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:11 +0000
Subject: [PATCH 10/50] fix: quantize applies negative fractional bits

---
 CommDspy/rx/quantiztion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CommDspy/rx/quantiztion.py b/CommDspy/rx/quantiztion.py
index 5eab1c8..648d743 100644
--- a/CommDspy/rx/quantiztion.py
+++ b/CommDspy/rx/quantiztion.py
@@ -42,9 +42,9 @@ def quantize(signal, total_bits, frac_bits=0, fix_point_type='u'):
         levels = levels[1:] - 2**(total_bits - 1)
     elif fix_point_type != 'u':
         raise ValueError('Type used is not defined, please read function description')
-    if frac_bits > 0:
+    if frac_bits != 0:
         levels = levels.astype(float)
-        levels /= 2**frac_bits
+        levels /= 2.0**frac_bits
     # ==================================================================================================================
     # Applying Quantization
     # ==================================================================================================================
-- 
2.43.0


From 2c802859ed6ad0036f764cbb03b63f23eb9692f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:12 +0000
Subject: [PATCH 11/50] fix: slicer accepts one-dimensional lists

---
 CommDspy/rx/slicer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CommDspy/rx/slicer.py b/CommDspy/rx/slicer.py
index 1fdd862..b0e64f0 100644
--- a/CommDspy/rx/slicer.py
+++ b/CommDspy/rx/slicer.py
@@ -12,9 +12,9 @@ def slicer(slicer_in_mat, levels=None):
     try:
         y, x = slicer_in_mat.shape
     except AttributeError:
-        slicer_im_mat = np.array(slicer_in_mat)
+        slicer_in_mat = np.array(slicer_in_mat)
         try:
-            y, x = slicer_im_mat.shape
+            y, x = slicer_in_mat.shape
         except ValueError:
             x = slicer_in_mat.shape[0]
             y = 0
-- 
2.43.0


From 502dc2ce709308ba7cc1ac057036b03792cbf6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:12 +0000
Subject: [PATCH 12/50] fix: de-mapping with inverted polarity leaves the
 caller's signal alone

---
 CommDspy/rx/demapping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/rx/demapping.py b/CommDspy/rx/demapping.py
index 706591c..24092c2 100644
--- a/CommDspy/rx/demapping.py
+++ b/CommDspy/rx/demapping.py
@@ -24,7 +24,7 @@ def demapping(signal, constellation, full_scale=False, pn_inv=False):
     # PN-inv
     # ==================================================================================================================
     if pn_inv:
-        signal *= -1
+        signal = -1 * signal
     # ==================================================================================================================
     # Converting symbols to indices, i.e. performing decoding
     # ==================================================================================================================
-- 
2.43.0


From 2588fc38d558e5153eaf7bc47b4cd68a0829b24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:31 +0000
Subject: [PATCH 13/50] fix: Viterbi decoding minimises the accumulated
 distance over existing transitions

---
 CommDspy/rx/decoding.py | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/CommDspy/rx/decoding.py b/CommDspy/rx/decoding.py
index c7bf711..b70c4db 100644
--- a/CommDspy/rx/decoding.py
+++ b/CommDspy/rx/decoding.py
@@ -294,8 +294,9 @@ def decoding_conv_viterbi(pattern, G, tb_len, feedback=None, use_feedback=None,
     # ==================================================================================================================
     # Starting the viterbi algorithm block by block
     # ==================================================================================================================
-    output_tensor_reshape = np.reshape(trellis_obj.output_tensor, [-1, n_out])
-    in_state_int_vec      = np.arange(trellis_obj.num_states)
+    # next_state[ii,jj] and outputs[ii,jj] = end state and output bits when leaving state ii with input jj
+    next_state = np.array([[bin2uint(np.array(trellis_obj.trellis[(tuple(in_vec), tuple(state))][1], dtype=int)) for in_vec in trellis_obj.inputs] for state in trellis_obj.states])
+    outputs    = np.array([[trellis_obj.trellis[(tuple(in_vec), tuple(state))][0] for in_vec in trellis_obj.inputs] for state in trellis_obj.states])
     for ii in range(pattern_block.shape[0]):
         # ----------------------------------------------------------------------------------------------------------
         # Forward propagating - Computing the accumulative hamming along each path, selecting the best
@@ -303,25 +304,23 @@ def decoding_conv_viterbi(pattern, G, tb_len, feedback=None, use_feedback=None,
         for chunk_idx in range(n_chunks):
             pattern_chunk = pattern_block[ii, n_out*chunk_idx:n_out*(chunk_idx+1)]
             # ----------------------------------------------------------------------------------------------------------
-            # For each chunk compute all possible hamming distances
+            # For each chunk compute the accumulated hamming distances of all the transitions
             # ----------------------------------------------------------------------------------------------------------
-            # step_hamming[ii,jj] = hamming from state ii to state jj, computing for all transitions in one step
-            step_hamming, _ = hamming(output_tensor_reshape, pattern_chunk[None, :])
-            step_hamming    = np.reshape(step_hamming, trellis_obj.output_tensor.shape[:-1])
+            path_hamming = np.sum(np.abs(outputs - pattern_chunk), axis=2)
+            if chunk_idx > 0:
+                path_hamming = path_hamming + hamming_dist[:, chunk_idx-1][:, None]
             # ----------------------------------------------------------------------------------------------------------
             # Noting the best for this step, the return path and the input for the best per state
             # ----------------------------------------------------------------------------------------------------------
-            hamming_state[:, chunk_idx] = np.argmin(step_hamming, axis=0)
-            if chunk_idx > 0:
-                hamming_dist[:, chunk_idx] = np.min(step_hamming, axis=0) + hamming_dist[hamming_state[:,chunk_idx], chunk_idx-1]
-            else:
-                hamming_dist[:, chunk_idx] = np.min(step_hamming, axis=0)
             decoded_mat_prev = decoded_mat.copy()
-            out_state = hamming_state[in_state_int_vec, chunk_idx]
-            if chunk_idx > 0:
-                decoded_mat[in_state_int_vec, :n_in*(chunk_idx+1)] = np.concatenate([decoded_mat_prev[out_state, :n_in * chunk_idx], trellis_obj.input_tensor[out_state, in_state_int_vec]], axis=1)
-            else:
-                decoded_mat[in_state_int_vec, :n_in*(chunk_idx+1)] = trellis_obj.input_tensor[out_state, in_state_int_vec]
+            for state_idx in range(trellis_obj.num_states):
+                # transitions which do not end in this state can not be chosen
+                best = np.argmin(np.where(next_state == state_idx, path_hamming, tb_len + 1))
+                out_state, in_idx = best // len(trellis_obj.inputs), best % len(trellis_obj.inputs)
+                hamming_dist[state_idx, chunk_idx]  = path_hamming[out_state, in_idx]
+                hamming_state[state_idx, chunk_idx] = out_state
+                decoded_mat[state_idx, :n_in*chunk_idx] = decoded_mat_prev[out_state, :n_in*chunk_idx]
+                decoded_mat[state_idx, n_in*chunk_idx:n_in*(chunk_idx+1)] = trellis_obj.inputs[in_idx]
         # ----------------------------------------------------------------------------------------------------------
         # Backward propagating - Going along the selected path, recovering the input
         # ----------------------------------------------------------------------------------------------------------
-- 
2.43.0


From 53876a28530de35d801973acbaf0ab806a67cf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:52 +0000
Subject: [PATCH 14/50] fix: buffer clips the incomplete frame by its position,
 not by its values

---
 CommDspy/auxiliary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/auxiliary.py b/CommDspy/auxiliary.py
index e87e5c5..2f7b292 100644
--- a/CommDspy/auxiliary.py
+++ b/CommDspy/auxiliary.py
@@ -115,7 +115,7 @@ def buffer(signal, length, overlap=0, delay=0, clip=False):
     rows_to_remove = np.sum(np.any(np.array([np.arange(full_len - length - max(overlap, 0), full_len)]).T - rows == 0, axis=1))
     if rows_to_remove > 0:
         matrix = matrix[:-1*rows_to_remove]
-    if clip and matrix[-1,:] not in linalg.hankel(signal, signal[::-1][:length])[:-1]:
+    if clip and len(matrix) > 0 and rows[len(matrix) - 1] + length > delay + len(signal):
         matrix = matrix[:-1]
     return matrix
 
-- 
2.43.0


From 22c34b99f31e97f2dc286a59a6d932ec9176727a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:15 +0000
Subject: [PATCH 15/50] fix: pattern lock returns a whole period when the
 signal is shorter than the pattern

---
 CommDspy/rx/lock_pattern.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CommDspy/rx/lock_pattern.py b/CommDspy/rx/lock_pattern.py
index 0f688b1..683ada3 100644
--- a/CommDspy/rx/lock_pattern.py
+++ b/CommDspy/rx/lock_pattern.py
@@ -19,7 +19,7 @@ def lock_pattern_to_signal_binary(pattern, signal):
     # Correlating the NRZ sequences to find the alignment
     # ==================================================================================================================
     xcorr = correlate(pattern_nrz, signal_nrz, mode='valid')
-    start_idx = np.argmax(xcorr)
+    start_idx = np.argmax(xcorr[:pattern_len])
     return pattern_rep[start_idx:start_idx + pattern_len], xcorr
 
 def lock_pattern_to_signal(pattern, signal):
@@ -39,6 +39,6 @@ def lock_pattern_to_signal(pattern, signal):
     # Correlating the NRZ sequences to find the alignment
     # ==================================================================================================================
     xcorr = correlate(pattern_rep, signal_part, mode='valid')
-    start_idx = np.argmax(xcorr)
+    start_idx = np.argmax(xcorr[:pattern_len])
     # start_idx = np.argmax(np.abs(xcorr))
     return pattern_rep[start_idx:start_idx + pattern_len], xcorr
\ No newline at end of file
-- 
2.43.0


From 7230c3171c6dbc78e9def0beed23ed5f62ac9bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:31 +0000
Subject: [PATCH 16/50] fix: filter objects no longer round their output when
 the input is integer-typed

---
 CommDspy/misc/help_classes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CommDspy/misc/help_classes.py b/CommDspy/misc/help_classes.py
index b07a6c1..663c348 100644
--- a/CommDspy/misc/help_classes.py
+++ b/CommDspy/misc/help_classes.py
@@ -49,7 +49,7 @@ class Filter:
         return y
 
     def __call__(self, data_chunk):
-        y_vec = np.zeros_like(data_chunk)
+        y_vec = np.zeros_like(data_chunk, dtype=np.result_type(np.asarray(data_chunk), float))
         for ii, x in enumerate(data_chunk):
             y_vec[ii] = self._process(x)
         return y_vec
@@ -131,7 +131,7 @@ class FilterTII:
         return y
 
     def __call__(self, data_chunk):
-        y_vec = np.zeros_like(data_chunk)
+        y_vec = np.zeros_like(data_chunk, dtype=np.result_type(np.asarray(data_chunk), float))
         for ii, x in enumerate(data_chunk):
             y_vec[ii] = self._process(x)
         return y_vec
-- 
2.43.0


From 3b452124f96ec34b9ac8d00b001216ca23b0cb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:31 +0000
Subject: [PATCH 17/50] fix: transposed filter object accepts memory-less
 filters

---
 CommDspy/misc/help_classes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CommDspy/misc/help_classes.py b/CommDspy/misc/help_classes.py
index 663c348..1f37f86 100644
--- a/CommDspy/misc/help_classes.py
+++ b/CommDspy/misc/help_classes.py
@@ -122,7 +122,7 @@ class FilterTII:
 
     def _process(self, x):
         # Creating y
-        a0_y = self.b[0] * x + self._z[0]
+        a0_y = self.b[0] * x + (self._z[0] if len(self._z) > 0 else 0)
         y    = a0_y / self.a[0]
         # Advancing the memory
         z_temp = np.concatenate([self._z[1:], [0]])
@@ -190,7 +190,7 @@ class FfeDfeFilterTII(FilterTII):
 
     def _process(self, x):
         # Creating \tilde{x} and the sliced \hat{x[n]}
-        a0_xtilde = self.b[0] * x + self._z[0]
+        a0_xtilde = self.b[0] * x + (self._z[0] if len(self._z) > 0 else 0)
         xtilde = a0_xtilde / self.a[0]
         xhat   = slicer(np.array([xtilde]), self.levels)
         # Advancing the memory
-- 
2.43.0


From 3d606755b2b5926a0fabc1e8ca5a1dbdf5b8cccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:14 +0000
Subject: [PATCH 18/50] fix: ffe_dfe reports memories of the wrong size instead
 of failing with TypeError

---
 CommDspy/rx/ffe_dfe_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CommDspy/rx/ffe_dfe_model.py b/CommDspy/rx/ffe_dfe_model.py
index 2b2f73f..4ae2544 100644
--- a/CommDspy/rx/ffe_dfe_model.py
+++ b/CommDspy/rx/ffe_dfe_model.py
@@ -64,12 +64,12 @@ def ffe_dfe(input_signal, ffe_taps=np.array([1]), dfe_taps=None, levels=None, os
         elif len(zi_dfe) == len(dfe_taps):
             dfe_memory = zi_dfe
         else:
-            raise ValueError(f'zi_dfe is not in the same size as the DFE, length is {len(zi_dfe):d} instead of {dfe_taps:d}')
+            raise ValueError(f'zi_dfe is not in the same size as the DFE, length is {len(zi_dfe):d} instead of {len(dfe_taps):d}')
     if zi_ffe is None:
         zi_ffe = np.zeros(ffe_len - 1)
     elif len(zi_ffe) == ffe_len:
         zi_ffe = zi_ffe[1:]
-    elif len(zi_ffe) != len(ffe_len) - 1:
+    elif len(zi_ffe) != ffe_len - 1:
         raise ValueError(f'zi_ffe is not in the same size as the FFE, length is {len(zi_ffe):d} instead of {ffe_len - 1:d}')
     # ==================================================================================================================
     # If we only have FFE and without DFE we can use convolution for speed
-- 
2.43.0


From a8e7f7085d4e0406fe3279b1a98a3c2e6eaffc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:14 +0000
Subject: [PATCH 19/50] fix: FFE-only memory keeps the older samples when a
 chunk is shorter than the FFE

---
 CommDspy/rx/ffe_dfe_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/CommDspy/rx/ffe_dfe_model.py b/CommDspy/rx/ffe_dfe_model.py
index 4ae2544..cbcd7aa 100644
--- a/CommDspy/rx/ffe_dfe_model.py
+++ b/CommDspy/rx/ffe_dfe_model.py
@@ -75,8 +75,9 @@ def ffe_dfe(input_signal, ffe_taps=np.array([1]), dfe_taps=None, levels=None, os
     # If we only have FFE and without DFE we can use convolution for speed
     # ==================================================================================================================
     if dfe_taps is None:
-        rx_ffe_out = signal.convolve(ffe_taps, np.concatenate([zi_ffe, input_signal]), mode='valid')
-        return rx_ffe_out, input_signal[-1*ffe_len:]
+        full_signal = np.concatenate([zi_ffe, input_signal])
+        rx_ffe_out  = signal.convolve(ffe_taps, full_signal, mode='valid')
+        return rx_ffe_out, full_signal[-1*ffe_len:]
     # ==================================================================================================================
     # In case we hae DFE taps we need to make a decision, therefore we can not use convolution
     # ==================================================================================================================
-- 
2.43.0


From febebe660042d1e37572e17a67528a74fc52ef63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:14 +0000
Subject: [PATCH 20/50] fix: ffe_dfe accepts ffe_taps=None as documented

---
 CommDspy/rx/ffe_dfe_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CommDspy/rx/ffe_dfe_model.py b/CommDspy/rx/ffe_dfe_model.py
index cbcd7aa..c4420ad 100644
--- a/CommDspy/rx/ffe_dfe_model.py
+++ b/CommDspy/rx/ffe_dfe_model.py
@@ -50,6 +50,8 @@ def ffe_dfe(input_signal, ffe_taps=np.array([1]), dfe_taps=None, levels=None, os
     # ==================================================================================================================
     # If both FFE and DFE are None, this block is doing nothing
     # ==================================================================================================================
+    if ffe_taps is None:
+        ffe_taps = np.array([1])
     if len(ffe_taps) == 1 and dfe_taps is None:
         return input_signal * ffe_taps
     # ==================================================================================================================
-- 
2.43.0


From 6b20fa1ef5504a85d753e1819f25a5a822e4cf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:40 +0000
Subject: [PATCH 21/50] fix: pulse_shape with the impulse no longer fails on
 its own memory length

---
 CommDspy/channel/pulse_shaping.py | 320 +++++++++++++++---------------
 1 file changed, 161 insertions(+), 159 deletions(-)

diff --git a/CommDspy/channel/pulse_shaping.py b/CommDspy/channel/pulse_shaping.py
index b9855b4..10473c5 100644
--- a/CommDspy/channel/pulse_shaping.py
+++ b/CommDspy/channel/pulse_shaping.py
@@ -1,159 +1,161 @@
-import numpy as np
-from CommDspy.auxiliary import upsample
-from scipy.signal import lfilter
-from scipy import interpolate
-
-def pulse_shape(signal, osr=1, span=1, pulse='rect', beta=0.5, rj_sigma=0.0, zi=None):
-    """
-    :param signal: Input signal in OSR 1 for the pulse shaping
-    :param osr: the wanted OSR after the shaping
-    :param span: the span of the pulse, the span is symmetrical, i.e. a span of 8 means 8 symbols back and 8 symbols
-                 forward
-    :param pulse: the shape of the pulse. can be either:
-                1. 'rect' - rectangular pulse
-                2. 'sinc' - sinc pulse
-                3. 'rcos' - raised cosine pulse with roll-off parameter beta
-                4. 'rrc' - root raised cosine pulse with rolloff parameter beta
-                5. 'imp' - impulse response, just doing the up-sampling
-    :param beta: roll-off parameter
-    :param rj_sigma: Random Jitter std value. If 0, no Random Jitter is added to the signal. the unit of the RJ is in UI
-                     Example: for Baud rate of 53.125 [GHz] UI is ~18.8[psec]. Using rj_sigma=0.05 [UI] means:
-                      rj_sigma = 0.05*18.8e-12 = 0.94e-12 = 940[fsec]
-    :param zi: memory for the pulse shaping. If None, assuming reset, i.e. all '0' memory. MUST be with length of:
-               'osr' * 'span' * 2 - 1
-    :return: the signal after the pulse shaping. This function simulated an ideal channel of ch[n] = delta[n] without
-    noise. This is not a practical use-case but more of a feature to gain insight. For practical channels use the
-    channel sub-package
-    """
-    # ==================================================================================================================
-    # Local parameters
-    # ==================================================================================================================
-    sig_ups   = upsample(signal, osr)
-    pulse_vec = _get_pulse(pulse, osr, span, beta)
-    if zi is None:
-        zi = np.zeros(osr * span * 2 - 1)
-    elif len(zi) != osr * span * 2 - 1:
-        raise ValueError(f'Memory length {len(zi):d} doesnt match the requested pulse, length should be {osr*span*2-1:d}')
-    # ==================================================================================================================
-    # Convolving
-    # ==================================================================================================================
-    sig_conv, zo = lfilter(pulse_vec, [1], sig_ups, zi=zi)
-    if np.isclose(rj_sigma, 0):
-        return sig_conv, zo
-    else:
-        # ----------------------------------------------------------------------------------------------------------
-        # Creating the time vector with and without the jitter
-        # ----------------------------------------------------------------------------------------------------------
-        rj       = np.random.randn(len(sig_conv)//osr) * rj_sigma
-        t        = np.arange(len(sig_conv)) / osr
-        t_mat    = t.reshape(-1, osr)
-        t_mat_rj = t_mat + rj[:, None]
-        t_rj     = t_mat_rj.reshape(-1)
-        # ----------------------------------------------------------------------------------------------------------
-        # interpolating to the wanted time with the jitter
-        # ----------------------------------------------------------------------------------------------------------
-        f = interpolate.interp1d(t, sig_conv, kind='cubic', fill_value='extrapolate')
-        return f(t_rj), zo
-
-def rect_pulse(osr, span, t=None):
-    # ==================================================================================================================
-    # Local variables
-    # ==================================================================================================================
-    if t is None:
-        t = _time_vec_pulse(osr, span)
-    # ==================================================================================================================
-    # Creating the pulse
-    # ==================================================================================================================
-    pulse = np.zeros_like(t)
-    pulse[np.all([0.5 > t, t >= -0.5], axis=0)] = 1
-    return pulse
-
-def sinc_pulse(osr, span, t=None):
-    # ==================================================================================================================
-    # Local variables
-    # ==================================================================================================================
-    if t is None:
-        t = _time_vec_pulse(osr, span)
-    # ==================================================================================================================
-    # Creating the pulse
-    # ==================================================================================================================
-    pulse = np.sinc(t)
-    return pulse
-
-def rcos_pulse(osr, span, beta, t=None):
-    """
-    :param osr:
-    :param span:
-    :param beta: Roll-off factor of the raised cosine
-    :param t:
-    :return:
-    """
-    # ==================================================================================================================
-    # Local variables
-    # ==================================================================================================================
-    if t is None:
-        t = _time_vec_pulse(osr, span)
-    tneq = t[np.abs(2*beta*t) != 1]
-    # ==================================================================================================================
-    # Creating the pulse
-    # ==================================================================================================================
-    pulse = np.zeros_like(t)
-    pulse[np.abs(2*beta*t) == 1] = np.pi/4 * np.sinc(1/(2*beta))
-    pulse[np.abs(2*beta*t) != 1] = np.sinc(tneq) * np.cos(np.pi * beta * tneq) / (1 - (2 * beta * tneq) ** 2)
-    return pulse
-
-def rrc_pulse(osr, span, beta, t=None):
-    """
-    :param osr:
-    :param span:
-    :param beta: Roll-off factor of the raised cosine
-    :param t:
-    :return:
-    """
-    # ==================================================================================================================
-    # Local variables
-    # ==================================================================================================================
-    if t is None:
-        t = _time_vec_pulse(osr, span)
-    neq0 = ~np.isclose(t, np.zeros_like(t))
-    neqb = ~np.isclose(np.abs(t) - 1/(4*beta), np.zeros_like(t))
-    # ==================================================================================================================
-    # Creating the pulse
-    # ==================================================================================================================
-    pulse = np.zeros_like(t)
-    pulse[~neq0] = 1 + beta * (4/np.pi - 1)
-    pulse[~neqb] = beta / np.sqrt(2) * ((1 + 2/np.pi)*np.sin(np.pi/(4*beta)) + (1 - 2/np.pi)*np.cos(np.pi/(4*beta)))
-    pulse[neqb & neq0] = 4 * beta / np.pi * (np.cos((1 + beta) * np.pi * t[neqb & neq0]) + (np.sin((1 - beta)*np.pi*t[neqb & neq0]) / (4*beta*t[neqb & neq0]))) / (1 - (4*beta*t[neqb & neq0])**2)
-    return pulse
-
-def _time_vec_pulse(osr, span):
-    """
-    :param osr: Over Sampling Rate of the pulse shaped signal
-    :param span: number of symbols to span the pulse
-    Example: if osr = 16 ; span = 8 ;
-        creates a 16*(8*2) vector of the pulse, centered around 0. In this case rectanular between [-1/2, 1/2]
-    :return:
-    """
-    # ==================================================================================================================
-    # Local variables
-    # ==================================================================================================================
-    time_len = osr * 2 * span
-    t = np.arange(-1 * (time_len // 2), (time_len // 2), 1) / osr
-    return t
-
-def _get_pulse(method, osr=1, span=1, beta=0.5, t=None):
-    if method == 'rect':
-        return rect_pulse(osr, span, t)
-    elif method == 'sinc':
-        return sinc_pulse(osr, span, t)
-    elif method == 'rcos':
-        return rcos_pulse(osr, span, beta, t)
-    elif method == 'rrc':
-        return rrc_pulse(osr, span, beta, t)
-    elif method == 'imp':
-        return np.array([1])
-    else:
-        raise ValueError('Method is not available, please try another')
-
-
-
+import numpy as np
+from CommDspy.auxiliary import upsample
+from scipy.signal import lfilter
+from scipy import interpolate
+
+def pulse_shape(signal, osr=1, span=1, pulse='rect', beta=0.5, rj_sigma=0.0, zi=None):
+    """
+    :param signal: Input signal in OSR 1 for the pulse shaping
+    :param osr: the wanted OSR after the shaping
+    :param span: the span of the pulse, the span is symmetrical, i.e. a span of 8 means 8 symbols back and 8 symbols
+                 forward
+    :param pulse: the shape of the pulse. can be either:
+                1. 'rect' - rectangular pulse
+                2. 'sinc' - sinc pulse
+                3. 'rcos' - raised cosine pulse with roll-off parameter beta
+                4. 'rrc' - root raised cosine pulse with rolloff parameter beta
+                5. 'imp' - impulse response, just doing the up-sampling
+    :param beta: roll-off parameter
+    :param rj_sigma: Random Jitter std value. If 0, no Random Jitter is added to the signal. the unit of the RJ is in UI
+                     Example: for Baud rate of 53.125 [GHz] UI is ~18.8[psec]. Using rj_sigma=0.05 [UI] means:
+                      rj_sigma = 0.05*18.8e-12 = 0.94e-12 = 940[fsec]
+    :param zi: memory for the pulse shaping. If None, assuming reset, i.e. all '0' memory. MUST be with length of:
+               'osr' * 'span' * 2 - 1
+    :return: the signal after the pulse shaping. This function simulated an ideal channel of ch[n] = delta[n] without
+    noise. This is not a practical use-case but more of a feature to gain insight. For practical channels use the
+    channel sub-package
+    """
+    # ==================================================================================================================
+    # Local parameters
+    # ==================================================================================================================
+    sig_ups   = upsample(signal, osr)
+    pulse_vec = _get_pulse(pulse, osr, span, beta)
+    if zi is None:
+        zi = np.zeros(osr * span * 2 - 1)
+    elif len(zi) != osr * span * 2 - 1:
+        raise ValueError(f'Memory length {len(zi):d} doesnt match the requested pulse, length should be {osr*span*2-1:d}')
+    # ==================================================================================================================
+    # Convolving
+    # ==================================================================================================================
+    sig_conv, zo = lfilter(pulse_vec, [1], sig_ups, zi=zi)
+    if np.isclose(rj_sigma, 0):
+        return sig_conv, zo
+    else:
+        # ----------------------------------------------------------------------------------------------------------
+        # Creating the time vector with and without the jitter
+        # ----------------------------------------------------------------------------------------------------------
+        rj       = np.random.randn(len(sig_conv)//osr) * rj_sigma
+        t        = np.arange(len(sig_conv)) / osr
+        t_mat    = t.reshape(-1, osr)
+        t_mat_rj = t_mat + rj[:, None]
+        t_rj     = t_mat_rj.reshape(-1)
+        # ----------------------------------------------------------------------------------------------------------
+        # interpolating to the wanted time with the jitter
+        # ----------------------------------------------------------------------------------------------------------
+        f = interpolate.interp1d(t, sig_conv, kind='cubic', fill_value='extrapolate')
+        return f(t_rj), zo
+
+def rect_pulse(osr, span, t=None):
+    # ==================================================================================================================
+    # Local variables
+    # ==================================================================================================================
+    if t is None:
+        t = _time_vec_pulse(osr, span)
+    # ==================================================================================================================
+    # Creating the pulse
+    # ==================================================================================================================
+    pulse = np.zeros_like(t)
+    pulse[np.all([0.5 > t, t >= -0.5], axis=0)] = 1
+    return pulse
+
+def sinc_pulse(osr, span, t=None):
+    # ==================================================================================================================
+    # Local variables
+    # ==================================================================================================================
+    if t is None:
+        t = _time_vec_pulse(osr, span)
+    # ==================================================================================================================
+    # Creating the pulse
+    # ==================================================================================================================
+    pulse = np.sinc(t)
+    return pulse
+
+def rcos_pulse(osr, span, beta, t=None):
+    """
+    :param osr:
+    :param span:
+    :param beta: Roll-off factor of the raised cosine
+    :param t:
+    :return:
+    """
+    # ==================================================================================================================
+    # Local variables
+    # ==================================================================================================================
+    if t is None:
+        t = _time_vec_pulse(osr, span)
+    tneq = t[np.abs(2*beta*t) != 1]
+    # ==================================================================================================================
+    # Creating the pulse
+    # ==================================================================================================================
+    pulse = np.zeros_like(t)
+    pulse[np.abs(2*beta*t) == 1] = np.pi/4 * np.sinc(1/(2*beta))
+    pulse[np.abs(2*beta*t) != 1] = np.sinc(tneq) * np.cos(np.pi * beta * tneq) / (1 - (2 * beta * tneq) ** 2)
+    return pulse
+
+def rrc_pulse(osr, span, beta, t=None):
+    """
+    :param osr:
+    :param span:
+    :param beta: Roll-off factor of the raised cosine
+    :param t:
+    :return:
+    """
+    # ==================================================================================================================
+    # Local variables
+    # ==================================================================================================================
+    if t is None:
+        t = _time_vec_pulse(osr, span)
+    neq0 = ~np.isclose(t, np.zeros_like(t))
+    neqb = ~np.isclose(np.abs(t) - 1/(4*beta), np.zeros_like(t))
+    # ==================================================================================================================
+    # Creating the pulse
+    # ==================================================================================================================
+    pulse = np.zeros_like(t)
+    pulse[~neq0] = 1 + beta * (4/np.pi - 1)
+    pulse[~neqb] = beta / np.sqrt(2) * ((1 + 2/np.pi)*np.sin(np.pi/(4*beta)) + (1 - 2/np.pi)*np.cos(np.pi/(4*beta)))
+    pulse[neqb & neq0] = 4 * beta / np.pi * (np.cos((1 + beta) * np.pi * t[neqb & neq0]) + (np.sin((1 - beta)*np.pi*t[neqb & neq0]) / (4*beta*t[neqb & neq0]))) / (1 - (4*beta*t[neqb & neq0])**2)
+    return pulse
+
+def _time_vec_pulse(osr, span):
+    """
+    :param osr: Over Sampling Rate of the pulse shaped signal
+    :param span: number of symbols to span the pulse
+    Example: if osr = 16 ; span = 8 ;
+        creates a 16*(8*2) vector of the pulse, centered around 0. In this case rectanular between [-1/2, 1/2]
+    :return:
+    """
+    # ==================================================================================================================
+    # Local variables
+    # ==================================================================================================================
+    time_len = osr * 2 * span
+    t = np.arange(-1 * (time_len // 2), (time_len // 2), 1) / osr
+    return t
+
+def _get_pulse(method, osr=1, span=1, beta=0.5, t=None):
+    if method == 'rect':
+        return rect_pulse(osr, span, t)
+    elif method == 'sinc':
+        return sinc_pulse(osr, span, t)
+    elif method == 'rcos':
+        return rcos_pulse(osr, span, beta, t)
+    elif method == 'rrc':
+        return rrc_pulse(osr, span, beta, t)
+    elif method == 'imp':
+        pulse = np.zeros(osr * 2 * span)
+        pulse[0] = 1
+        return pulse
+    else:
+        raise ValueError('Method is not available, please try another')
+
+
+
-- 
2.43.0


From 9d9d2445047058d63344e9409e978b4fd0840e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:55 +0000
Subject: [PATCH 22/50] fix: raised-cosine pulses accept roll-off 0 and are
 exact next to the singular points

---
 CommDspy/channel/pulse_shaping.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/CommDspy/channel/pulse_shaping.py b/CommDspy/channel/pulse_shaping.py
index 10473c5..ffc0e35 100644
--- a/CommDspy/channel/pulse_shaping.py
+++ b/CommDspy/channel/pulse_shaping.py
@@ -93,13 +93,15 @@ def rcos_pulse(osr, span, beta, t=None):
     # ==================================================================================================================
     if t is None:
         t = _time_vec_pulse(osr, span)
-    tneq = t[np.abs(2*beta*t) != 1]
+    neqb = ~np.isclose(np.abs(2*beta*t), 1, rtol=0, atol=1e-8)
+    tneq = t[neqb]
     # ==================================================================================================================
     # Creating the pulse
     # ==================================================================================================================
     pulse = np.zeros_like(t)
-    pulse[np.abs(2*beta*t) == 1] = np.pi/4 * np.sinc(1/(2*beta))
-    pulse[np.abs(2*beta*t) != 1] = np.sinc(tneq) * np.cos(np.pi * beta * tneq) / (1 - (2 * beta * tneq) ** 2)
+    if not np.all(neqb):
+        pulse[~neqb] = np.pi/4 * np.sinc(1/(2*beta))
+    pulse[neqb] = np.sinc(tneq) * np.cos(np.pi * beta * tneq) / (1 - (2 * beta * tneq) ** 2)
     return pulse
 
 def rrc_pulse(osr, span, beta, t=None):
@@ -116,14 +118,16 @@ def rrc_pulse(osr, span, beta, t=None):
     if t is None:
         t = _time_vec_pulse(osr, span)
     neq0 = ~np.isclose(t, np.zeros_like(t))
-    neqb = ~np.isclose(np.abs(t) - 1/(4*beta), np.zeros_like(t))
+    neqb = ~np.isclose(np.abs(4*beta*t), 1, rtol=0, atol=1e-8)
+    tneq = t[neqb & neq0]
     # ==================================================================================================================
     # Creating the pulse
     # ==================================================================================================================
     pulse = np.zeros_like(t)
     pulse[~neq0] = 1 + beta * (4/np.pi - 1)
-    pulse[~neqb] = beta / np.sqrt(2) * ((1 + 2/np.pi)*np.sin(np.pi/(4*beta)) + (1 - 2/np.pi)*np.cos(np.pi/(4*beta)))
-    pulse[neqb & neq0] = 4 * beta / np.pi * (np.cos((1 + beta) * np.pi * t[neqb & neq0]) + (np.sin((1 - beta)*np.pi*t[neqb & neq0]) / (4*beta*t[neqb & neq0]))) / (1 - (4*beta*t[neqb & neq0])**2)
+    if not np.all(neqb):
+        pulse[~neqb] = beta / np.sqrt(2) * ((1 + 2/np.pi)*np.sin(np.pi/(4*beta)) + (1 - 2/np.pi)*np.cos(np.pi/(4*beta)))
+    pulse[neqb & neq0] = (4 * beta / np.pi * np.cos((1 + beta) * np.pi * tneq) + np.sin((1 - beta) * np.pi * tneq) / (np.pi * tneq)) / (1 - (4 * beta * tneq) ** 2)
     return pulse
 
 def _time_vec_pulse(osr, span):
-- 
2.43.0


From adaaafb513169f21c1af1ccf7fb9b7688b7fa4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:55 +0000
Subject: [PATCH 23/50] fix: raised-cosine delay coefficients are finite at the
 singular points of the pulse

---
 CommDspy/digital_delay.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/CommDspy/digital_delay.py b/CommDspy/digital_delay.py
index 2f9c19c..107548e 100644
--- a/CommDspy/digital_delay.py
+++ b/CommDspy/digital_delay.py
@@ -81,7 +81,11 @@ def dig_delay_rcos_coeffs(n, alpha, forward=True, beta=0.5):
     # ==================================================================================================================
     # Creating the filter parameters
     # ==================================================================================================================
-    return np.sinc(ii_vec - alpha) * np.cos(np.pi * beta * (ii_vec - alpha)) / (1 - (2 * beta * (ii_vec - alpha)) ** 2)
+    t_vec  = ii_vec - alpha
+    neqb   = ~np.isclose(np.abs(2 * beta * t_vec), 1, rtol=0, atol=1e-8)
+    coeffs = np.full(len(t_vec), np.pi / 4) * np.sinc(t_vec)
+    coeffs[neqb] = np.sinc(t_vec[neqb]) * np.cos(np.pi * beta * t_vec[neqb]) / (1 - (2 * beta * t_vec[neqb]) ** 2)
+    return coeffs
 
 def digital_oversample(signal_vec, osr, order, method, beta=0):
     """
-- 
2.43.0


From aed355c1e7a55a3bd09073fba9ccedf5627fb08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:54 +0000
Subject: [PATCH 24/50] fix: Lagrange delay of order 0 is the zero-order hold
 instead of an error

---
 CommDspy/digital_delay.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CommDspy/digital_delay.py b/CommDspy/digital_delay.py
index 107548e..cfdde3c 100644
--- a/CommDspy/digital_delay.py
+++ b/CommDspy/digital_delay.py
@@ -47,8 +47,8 @@ def dig_delay_lagrange_coeffs(n, alpha, forward=True):
     # Creating the filter parameters
     # ==================================================================================================================
     indexing_mat = (1 - np.eye(len(ii_vec))).astype(bool)
-    nom_vec = np.prod(np.reshape(nom_mat[indexing_mat], [-1, len(ii_vec)-1]), axis=1)
-    den_vec = np.prod(np.reshape(den_mat.T[indexing_mat], [-1, len(ii_vec) - 1]), axis=1)
+    nom_vec = np.prod(np.reshape(nom_mat[indexing_mat], [len(ii_vec), len(ii_vec)-1]), axis=1)
+    den_vec = np.prod(np.reshape(den_mat.T[indexing_mat], [len(ii_vec), len(ii_vec) - 1]), axis=1)
 
     return nom_vec / den_vec
 
-- 
2.43.0


From 1521df498e3dc8de846a7bd8a750243779485bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:01 +0000
Subject: [PATCH 25/50] fix: soft_ddlms_grad rejects a reference of the wrong
 length as ddlms_grad does

---
 CommDspy/rx/least_mean_squares.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/CommDspy/rx/least_mean_squares.py b/CommDspy/rx/least_mean_squares.py
index a980318..b79673f 100644
--- a/CommDspy/rx/least_mean_squares.py
+++ b/CommDspy/rx/least_mean_squares.py
@@ -145,6 +145,9 @@ def soft_ddlms_grad(input_vec, output_vec, levels, sigma=1, ffe_tap_idx=np.array
     # ==================================================================================================================
     if reference_vec is None:
         reference_vec = slicer(output_vec, levels)
+    elif len(reference_vec) != len(output_vec):
+        raise ValueError(
+            f'Length of the reference vector ({len(reference_vec):d} is different than the input vector ({len(output_vec)}')
     p             = 1 / len(levels)
     # ==================================================================================================================
     # Computing the loss
-- 
2.43.0


From 47fe439e1c338ae047787e20cb294e48f2288fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:10 +0000
Subject: [PATCH 26/50] fix: equaliser estimation from a PRBS aligns the
 reference by the FFE postcursors only

---
 CommDspy/equalization_estimation.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/CommDspy/equalization_estimation.py b/CommDspy/equalization_estimation.py
index 333bc4b..fb9420f 100644
--- a/CommDspy/equalization_estimation.py
+++ b/CommDspy/equalization_estimation.py
@@ -60,7 +60,6 @@ def equalization_estimation_prbs(prbs_type, signal, constellation,
     init_seed       = np.array([1] * prbs_type.value)
     prbs_len        = 2 ** len(init_seed) - 1
     levels          = get_levels(constellation, prbs_full_scale)
-    postcursor_num  = np.max((ffe_postcursor, dfe_taps))
     # ==================================================================================================================
     # Getting reference PRBS and coding
     # ==================================================================================================================
@@ -74,7 +73,7 @@ def equalization_estimation_prbs(prbs_type, signal, constellation,
     # Locking on the pattern beginning and then shifting to account for post-cursors
     # ==================================================================================================================
     prbs_coded_aligned, _ = lock_pattern_to_signal(prbs_coded, signal)
-    shift_idx = np.concatenate([np.arange(postcursor_num, prbs_len, 1), np.arange(0, postcursor_num, 1)])
+    shift_idx = np.concatenate([np.arange(ffe_postcursor, prbs_len, 1), np.arange(0, ffe_postcursor, 1)])
     prbs_coded_shift = prbs_coded_aligned[shift_idx]
     # ==================================================================================================================
     # Averaging to help remove noise from captured signal
-- 
2.43.0


From 90c5c349a9a3c72f62562bda17bfc98fd6d032de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:10 +0000
Subject: [PATCH 27/50] fix: equaliser estimation uses only rows that lie
 inside the signal

---
 CommDspy/equalization_estimation.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/CommDspy/equalization_estimation.py b/CommDspy/equalization_estimation.py
index fb9420f..2600c6c 100644
--- a/CommDspy/equalization_estimation.py
+++ b/CommDspy/equalization_estimation.py
@@ -117,8 +117,7 @@ def equalization_estimation(reference_signal, signal, ffe_postcursor=23, ffe_pre
     # ==================================================================================================================
     # Local variables
     # ==================================================================================================================
-    postcursor_num = np.max((ffe_postcursor, dfe_taps))
-    chop_len = postcursor_num + ffe_precursor + 1
+    chop_len = ffe_postcursor + dfe_taps + ffe_precursor + 1
     mat_row_num    = len(signal) - chop_len
     # ==================================================================================================================
     # Building the FFE part of the matrix in the Ax=b system
-- 
2.43.0


From 52d144e78eeca241c274724d884333486f90cdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:10 +0000
Subject: [PATCH 28/50] fix: equaliser estimation can be normalised without DFE
 taps

---
 CommDspy/equalization_estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/equalization_estimation.py b/CommDspy/equalization_estimation.py
index 2600c6c..051741d 100644
--- a/CommDspy/equalization_estimation.py
+++ b/CommDspy/equalization_estimation.py
@@ -155,7 +155,7 @@ def equalization_estimation(reference_signal, signal, ffe_postcursor=23, ffe_pre
     err       = sig_out - skewed_ref
     mse = 10 * np.log10(power(err) / power(sig_out))
     if normalize:
-        return ffe / dig_gain, dfe / dig_gain, dig_gain, ls_err, mse
+        return ffe / dig_gain, dfe / dig_gain if dfe is not None else None, dig_gain, ls_err, mse
     else:
         return ffe, dfe, 1, ls_err, mse
 
-- 
2.43.0


From 036afdaefe0169026d28eecb1a5397d2776bf419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:10 +0000
Subject: [PATCH 29/50] fix: channel estimation no longer scales the taps by
 the power of the signal

---
 CommDspy/channel_estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/channel_estimation.py b/CommDspy/channel_estimation.py
index e6ed182..e075b74 100644
--- a/CommDspy/channel_estimation.py
+++ b/CommDspy/channel_estimation.py
@@ -69,7 +69,7 @@ def channel_estimation_prbs(prbs_type, signal, constellation,
     shift_idx    = np.concatenate([np.arange(channel_postcursor, prbs_len, 1), np.arange(0, channel_postcursor, 1)])
     reps         = int(np.floor(len(signal) / prbs_len))
     signal_shift = np.mean(np.reshape(signal[:(prbs_len*reps)], [-1, prbs_len]), axis=0)
-    signal_shift = signal_shift[shift_idx] / np.var(signal_shift)
+    signal_shift = signal_shift[shift_idx]
     # ==================================================================================================================
     # Performing least squares to find the channel estimation
     # ==================================================================================================================
-- 
2.43.0


From e05c7cfb55044e1eb8af00f9df59f71635282697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:10 +0000
Subject: [PATCH 30/50] fix: channel estimation applies the post-coding
 polarity flag

---
 CommDspy/channel_estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/channel_estimation.py b/CommDspy/channel_estimation.py
index e075b74..bf0c48d 100644
--- a/CommDspy/channel_estimation.py
+++ b/CommDspy/channel_estimation.py
@@ -57,7 +57,7 @@ def channel_estimation_prbs(prbs_type, signal, constellation,
         return True, 0, [0]
     prbs_seq, _ = prbs_generator(poly_coeff, init_seed, 2 * prbs_len)
     prbsq       = bin2symbol(prbs_seq, len(levels), bit_order_inv, False, False, pn_inv_precoding)
-    prbs_coded  = mapping(prbsq, constellation, prbs_full_scale) if not gray_coding else mapping(coding_gray(prbsq, constellation), constellation, prbs_full_scale)
+    prbs_coded  = mapping(prbsq, constellation, prbs_full_scale, pn_inv=pn_inv_postcoding) if not gray_coding else mapping(coding_gray(prbsq, constellation), constellation, prbs_full_scale, pn_inv=pn_inv_postcoding)
     # ==================================================================================================================
     # Locking on the pattern beginning
     # ==================================================================================================================
-- 
2.43.0


From 6d451617d63f31a533f6ae079f9432d9e5d95d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:14 +0000
Subject: [PATCH 31/50] fix: regularised least squares minimises the documented
 objective, without a hidden intercept

---
 CommDspy/misc/least_squares.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CommDspy/misc/least_squares.py b/CommDspy/misc/least_squares.py
index a4afd80..8119052 100644
--- a/CommDspy/misc/least_squares.py
+++ b/CommDspy/misc/least_squares.py
@@ -43,7 +43,7 @@ def ridge_regression(a_mat, b, reg_lambda):
     :return: performing least squares with L2 regularization, sklearn implementation
              ||y - Xw||^2_2 + reg_lambda * ||w||^2_2
     """
-    model = Ridge(alpha=reg_lambda)
+    model = Ridge(alpha=reg_lambda, fit_intercept=False)
     model.fit(a_mat, b)
     x_hat = model.coef_
     ssr   = np.sum(np.power(a_mat @ x_hat - b, 2))
@@ -57,7 +57,7 @@ def lasso_regression(a_mat, b, reg_lambda):
     :return: performing least squares with L1 regularization, sklearn implementation
              ||y - Xw||^2_2 + reg_lambda * ||w||_1
     """
-    model = Lasso(alpha=reg_lambda)
+    model = Lasso(alpha=reg_lambda, fit_intercept=False)
     model.fit(a_mat, b)
     x_hat = model.coef_
     ssr   = np.sum(np.power(a_mat @ x_hat - b, 2))
-- 
2.43.0


From e9ef55a6fada50ee78ee4c3b8d6ecf1a2f102206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:55 +0000
Subject: [PATCH 32/50] fix: keep the original line endings of pulse_shaping.py
 (changed by mistake in 6b20fa1)

---
 CommDspy/channel/pulse_shaping.py | 330 +++++++++++++++---------------
 1 file changed, 165 insertions(+), 165 deletions(-)

diff --git a/CommDspy/channel/pulse_shaping.py b/CommDspy/channel/pulse_shaping.py
index ffc0e35..3e1fd30 100644
--- a/CommDspy/channel/pulse_shaping.py
+++ b/CommDspy/channel/pulse_shaping.py
@@ -1,165 +1,165 @@
-import numpy as np
-from CommDspy.auxiliary import upsample
-from scipy.signal import lfilter
-from scipy import interpolate
-
-def pulse_shape(signal, osr=1, span=1, pulse='rect', beta=0.5, rj_sigma=0.0, zi=None):
-    """
-    :param signal: Input signal in OSR 1 for the pulse shaping
-    :param osr: the wanted OSR after the shaping
-    :param span: the span of the pulse, the span is symmetrical, i.e. a span of 8 means 8 symbols back and 8 symbols
-                 forward
-    :param pulse: the shape of the pulse. can be either:
-                1. 'rect' - rectangular pulse
-                2. 'sinc' - sinc pulse
-                3. 'rcos' - raised cosine pulse with roll-off parameter beta
-                4. 'rrc' - root raised cosine pulse with rolloff parameter beta
-                5. 'imp' - impulse response, just doing the up-sampling
-    :param beta: roll-off parameter
-    :param rj_sigma: Random Jitter std value. If 0, no Random Jitter is added to the signal. the unit of the RJ is in UI
-                     Example: for Baud rate of 53.125 [GHz] UI is ~18.8[psec]. Using rj_sigma=0.05 [UI] means:
-                      rj_sigma = 0.05*18.8e-12 = 0.94e-12 = 940[fsec]
-    :param zi: memory for the pulse shaping. If None, assuming reset, i.e. all '0' memory. MUST be with length of:
-               'osr' * 'span' * 2 - 1
-    :return: the signal after the pulse shaping. This function simulated an ideal channel of ch[n] = delta[n] without
-    noise. This is not a practical use-case but more of a feature to gain insight. For practical channels use the
-    channel sub-package
-    """
-    # ==================================================================================================================
-    # Local parameters
-    # ==================================================================================================================
-    sig_ups   = upsample(signal, osr)
-    pulse_vec = _get_pulse(pulse, osr, span, beta)
-    if zi is None:
-        zi = np.zeros(osr * span * 2 - 1)
-    elif len(zi) != osr * span * 2 - 1:
-        raise ValueError(f'Memory length {len(zi):d} doesnt match the requested pulse, length should be {osr*span*2-1:d}')
-    # ==================================================================================================================
-    # Convolving
-    # ==================================================================================================================
-    sig_conv, zo = lfilter(pulse_vec, [1], sig_ups, zi=zi)
-    if np.isclose(rj_sigma, 0):
-        return sig_conv, zo
-    else:
-        # ----------------------------------------------------------------------------------------------------------
-        # Creating the time vector with and without the jitter
-        # ----------------------------------------------------------------------------------------------------------
-        rj       = np.random.randn(len(sig_conv)//osr) * rj_sigma
-        t        = np.arange(len(sig_conv)) / osr
-        t_mat    = t.reshape(-1, osr)
-        t_mat_rj = t_mat + rj[:, None]
-        t_rj     = t_mat_rj.reshape(-1)
-        # ----------------------------------------------------------------------------------------------------------
-        # interpolating to the wanted time with the jitter
-        # ----------------------------------------------------------------------------------------------------------
-        f = interpolate.interp1d(t, sig_conv, kind='cubic', fill_value='extrapolate')
-        return f(t_rj), zo
-
-def rect_pulse(osr, span, t=None):
-    # ==================================================================================================================
-    # Local variables
-    # ==================================================================================================================
-    if t is None:
-        t = _time_vec_pulse(osr, span)
-    # ==================================================================================================================
-    # Creating the pulse
-    # ==================================================================================================================
-    pulse = np.zeros_like(t)
-    pulse[np.all([0.5 > t, t >= -0.5], axis=0)] = 1
-    return pulse
-
-def sinc_pulse(osr, span, t=None):
-    # ==================================================================================================================
-    # Local variables
-    # ==================================================================================================================
-    if t is None:
-        t = _time_vec_pulse(osr, span)
-    # ==================================================================================================================
-    # Creating the pulse
-    # ==================================================================================================================
-    pulse = np.sinc(t)
-    return pulse
-
-def rcos_pulse(osr, span, beta, t=None):
-    """
-    :param osr:
-    :param span:
-    :param beta: Roll-off factor of the raised cosine
-    :param t:
-    :return:
-    """
-    # ==================================================================================================================
-    # Local variables
-    # ==================================================================================================================
-    if t is None:
-        t = _time_vec_pulse(osr, span)
-    neqb = ~np.isclose(np.abs(2*beta*t), 1, rtol=0, atol=1e-8)
-    tneq = t[neqb]
-    # ==================================================================================================================
-    # Creating the pulse
-    # ==================================================================================================================
-    pulse = np.zeros_like(t)
-    if not np.all(neqb):
-        pulse[~neqb] = np.pi/4 * np.sinc(1/(2*beta))
-    pulse[neqb] = np.sinc(tneq) * np.cos(np.pi * beta * tneq) / (1 - (2 * beta * tneq) ** 2)
-    return pulse
-
-def rrc_pulse(osr, span, beta, t=None):
-    """
-    :param osr:
-    :param span:
-    :param beta: Roll-off factor of the raised cosine
-    :param t:
-    :return:
-    """
-    # ==================================================================================================================
-    # Local variables
-    # ==================================================================================================================
-    if t is None:
-        t = _time_vec_pulse(osr, span)
-    neq0 = ~np.isclose(t, np.zeros_like(t))
-    neqb = ~np.isclose(np.abs(4*beta*t), 1, rtol=0, atol=1e-8)
-    tneq = t[neqb & neq0]
-    # ==================================================================================================================
-    # Creating the pulse
-    # ==================================================================================================================
-    pulse = np.zeros_like(t)
-    pulse[~neq0] = 1 + beta * (4/np.pi - 1)
-    if not np.all(neqb):
-        pulse[~neqb] = beta / np.sqrt(2) * ((1 + 2/np.pi)*np.sin(np.pi/(4*beta)) + (1 - 2/np.pi)*np.cos(np.pi/(4*beta)))
-    pulse[neqb & neq0] = (4 * beta / np.pi * np.cos((1 + beta) * np.pi * tneq) + np.sin((1 - beta) * np.pi * tneq) / (np.pi * tneq)) / (1 - (4 * beta * tneq) ** 2)
-    return pulse
-
-def _time_vec_pulse(osr, span):
-    """
-    :param osr: Over Sampling Rate of the pulse shaped signal
-    :param span: number of symbols to span the pulse
-    Example: if osr = 16 ; span = 8 ;
-        creates a 16*(8*2) vector of the pulse, centered around 0. In this case rectanular between [-1/2, 1/2]
-    :return:
-    """
-    # ==================================================================================================================
-    # Local variables
-    # ==================================================================================================================
-    time_len = osr * 2 * span
-    t = np.arange(-1 * (time_len // 2), (time_len // 2), 1) / osr
-    return t
-
-def _get_pulse(method, osr=1, span=1, beta=0.5, t=None):
-    if method == 'rect':
-        return rect_pulse(osr, span, t)
-    elif method == 'sinc':
-        return sinc_pulse(osr, span, t)
-    elif method == 'rcos':
-        return rcos_pulse(osr, span, beta, t)
-    elif method == 'rrc':
-        return rrc_pulse(osr, span, beta, t)
-    elif method == 'imp':
-        pulse = np.zeros(osr * 2 * span)
-        pulse[0] = 1
-        return pulse
-    else:
-        raise ValueError('Method is not available, please try another')
-
-
-
+import numpy as np
+from CommDspy.auxiliary import upsample
+from scipy.signal import lfilter
+from scipy import interpolate
+
+def pulse_shape(signal, osr=1, span=1, pulse='rect', beta=0.5, rj_sigma=0.0, zi=None):
+    """
+    :param signal: Input signal in OSR 1 for the pulse shaping
+    :param osr: the wanted OSR after the shaping
+    :param span: the span of the pulse, the span is symmetrical, i.e. a span of 8 means 8 symbols back and 8 symbols
+                 forward
+    :param pulse: the shape of the pulse. can be either:
+                1. 'rect' - rectangular pulse
+                2. 'sinc' - sinc pulse
+                3. 'rcos' - raised cosine pulse with roll-off parameter beta
+                4. 'rrc' - root raised cosine pulse with rolloff parameter beta
+                5. 'imp' - impulse response, just doing the up-sampling
+    :param beta: roll-off parameter
+    :param rj_sigma: Random Jitter std value. If 0, no Random Jitter is added to the signal. the unit of the RJ is in UI
+                     Example: for Baud rate of 53.125 [GHz] UI is ~18.8[psec]. Using rj_sigma=0.05 [UI] means:
+                      rj_sigma = 0.05*18.8e-12 = 0.94e-12 = 940[fsec]
+    :param zi: memory for the pulse shaping. If None, assuming reset, i.e. all '0' memory. MUST be with length of:
+               'osr' * 'span' * 2 - 1
+    :return: the signal after the pulse shaping. This function simulated an ideal channel of ch[n] = delta[n] without
+    noise. This is not a practical use-case but more of a feature to gain insight. For practical channels use the
+    channel sub-package
+    """
+    # ==================================================================================================================
+    # Local parameters
+    # ==================================================================================================================
+    sig_ups   = upsample(signal, osr)
+    pulse_vec = _get_pulse(pulse, osr, span, beta)
+    if zi is None:
+        zi = np.zeros(osr * span * 2 - 1)
+    elif len(zi) != osr * span * 2 - 1:
+        raise ValueError(f'Memory length {len(zi):d} doesnt match the requested pulse, length should be {osr*span*2-1:d}')
+    # ==================================================================================================================
+    # Convolving
+    # ==================================================================================================================
+    sig_conv, zo = lfilter(pulse_vec, [1], sig_ups, zi=zi)
+    if np.isclose(rj_sigma, 0):
+        return sig_conv, zo
+    else:
+        # ----------------------------------------------------------------------------------------------------------
+        # Creating the time vector with and without the jitter
+        # ----------------------------------------------------------------------------------------------------------
+        rj       = np.random.randn(len(sig_conv)//osr) * rj_sigma
+        t        = np.arange(len(sig_conv)) / osr
+        t_mat    = t.reshape(-1, osr)
+        t_mat_rj = t_mat + rj[:, None]
+        t_rj     = t_mat_rj.reshape(-1)
+        # ----------------------------------------------------------------------------------------------------------
+        # interpolating to the wanted time with the jitter
+        # ----------------------------------------------------------------------------------------------------------
+        f = interpolate.interp1d(t, sig_conv, kind='cubic', fill_value='extrapolate')
+        return f(t_rj), zo
+
+def rect_pulse(osr, span, t=None):
+    # ==================================================================================================================
+    # Local variables
+    # ==================================================================================================================
+    if t is None:
+        t = _time_vec_pulse(osr, span)
+    # ==================================================================================================================
+    # Creating the pulse
+    # ==================================================================================================================
+    pulse = np.zeros_like(t)
+    pulse[np.all([0.5 > t, t >= -0.5], axis=0)] = 1
+    return pulse
+
+def sinc_pulse(osr, span, t=None):
+    # ==================================================================================================================
+    # Local variables
+    # ==================================================================================================================
+    if t is None:
+        t = _time_vec_pulse(osr, span)
+    # ==================================================================================================================
+    # Creating the pulse
+    # ==================================================================================================================
+    pulse = np.sinc(t)
+    return pulse
+
+def rcos_pulse(osr, span, beta, t=None):
+    """
+    :param osr:
+    :param span:
+    :param beta: Roll-off factor of the raised cosine
+    :param t:
+    :return:
+    """
+    # ==================================================================================================================
+    # Local variables
+    # ==================================================================================================================
+    if t is None:
+        t = _time_vec_pulse(osr, span)
+    neqb = ~np.isclose(np.abs(2*beta*t), 1, rtol=0, atol=1e-8)
+    tneq = t[neqb]
+    # ==================================================================================================================
+    # Creating the pulse
+    # ==================================================================================================================
+    pulse = np.zeros_like(t)
+    if not np.all(neqb):
+        pulse[~neqb] = np.pi/4 * np.sinc(1/(2*beta))
+    pulse[neqb] = np.sinc(tneq) * np.cos(np.pi * beta * tneq) / (1 - (2 * beta * tneq) ** 2)
+    return pulse
+
+def rrc_pulse(osr, span, beta, t=None):
+    """
+    :param osr:
+    :param span:
+    :param beta: Roll-off factor of the raised cosine
+    :param t:
+    :return:
+    """
+    # ==================================================================================================================
+    # Local variables
+    # ==================================================================================================================
+    if t is None:
+        t = _time_vec_pulse(osr, span)
+    neq0 = ~np.isclose(t, np.zeros_like(t))
+    neqb = ~np.isclose(np.abs(4*beta*t), 1, rtol=0, atol=1e-8)
+    tneq = t[neqb & neq0]
+    # ==================================================================================================================
+    # Creating the pulse
+    # ==================================================================================================================
+    pulse = np.zeros_like(t)
+    pulse[~neq0] = 1 + beta * (4/np.pi - 1)
+    if not np.all(neqb):
+        pulse[~neqb] = beta / np.sqrt(2) * ((1 + 2/np.pi)*np.sin(np.pi/(4*beta)) + (1 - 2/np.pi)*np.cos(np.pi/(4*beta)))
+    pulse[neqb & neq0] = (4 * beta / np.pi * np.cos((1 + beta) * np.pi * tneq) + np.sin((1 - beta) * np.pi * tneq) / (np.pi * tneq)) / (1 - (4 * beta * tneq) ** 2)
+    return pulse
+
+def _time_vec_pulse(osr, span):
+    """
+    :param osr: Over Sampling Rate of the pulse shaped signal
+    :param span: number of symbols to span the pulse
+    Example: if osr = 16 ; span = 8 ;
+        creates a 16*(8*2) vector of the pulse, centered around 0. In this case rectanular between [-1/2, 1/2]
+    :return:
+    """
+    # ==================================================================================================================
+    # Local variables
+    # ==================================================================================================================
+    time_len = osr * 2 * span
+    t = np.arange(-1 * (time_len // 2), (time_len // 2), 1) / osr
+    return t
+
+def _get_pulse(method, osr=1, span=1, beta=0.5, t=None):
+    if method == 'rect':
+        return rect_pulse(osr, span, t)
+    elif method == 'sinc':
+        return sinc_pulse(osr, span, t)
+    elif method == 'rcos':
+        return rcos_pulse(osr, span, beta, t)
+    elif method == 'rrc':
+        return rrc_pulse(osr, span, beta, t)
+    elif method == 'imp':
+        pulse = np.zeros(osr * 2 * span)
+        pulse[0] = 1
+        return pulse
+    else:
+        raise ValueError('Method is not available, please try another')
+
+
+
-- 
2.43.0


From 581816623191d553aa999b6e0cc1c76dd53003b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:29 +0000
Subject: [PATCH 33/50] fix: psa scales its spectrum to the documented units

The normalisation factors of the analyser modes expect the density per
sample that Matlab's psd returns, but welch was asked for 'spectrum'
scaling: a 2 V rms noise integrated to 0.17 mW instead of 80 mW in
'dBm/Hz', and a 3 V tone read 0.18 mW instead of 90 mW in 'dBm'.
---
 CommDspy/psa.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/CommDspy/psa.py b/CommDspy/psa.py
index b93e5de..4139930 100644
--- a/CommDspy/psa.py
+++ b/CommDspy/psa.py
@@ -85,7 +85,9 @@ def psa(signal, fs, rbw=None, mode='dB', obw=None, r=50, osr=4, window='blackman
     # ==================================================================================================================
     # Computing power spectrum estimation
     # ==================================================================================================================
-    fx, pxx = welch(signal_flat * norm_factor, nfft=nfft, fs=fs, window=window_actual, noverlap=n_overlap, scaling='spectrum')
+    fx, pxx = welch(signal_flat * norm_factor, nfft=nfft, fs=fs, window=window_actual, noverlap=n_overlap, scaling='density')
+    # The normalization factors above hold for a density per sample, not per Hz
+    pxx = pxx * (fs / 2 if np.all(np.isreal(signal)) else fs)
     if plot:
         plt.figure()
         plt.plot(fx, 10 * np.log10(pxx))
-- 
2.43.0


From bd9001118425d76256956fb22703c338fe578e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:45 +0000
Subject: [PATCH 34/50] fix: psa default resolution bandwidth leaves room for a
 window

Without rbw the window was 9.5 times the signal for up to 200 samples
and 1900 samples for longer ones, so every signal shorter than 1900
samples raised ValueError.
---
 CommDspy/psa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/psa.py b/CommDspy/psa.py
index 4139930..9277496 100644
--- a/CommDspy/psa.py
+++ b/CommDspy/psa.py
@@ -46,7 +46,7 @@ def psa(signal, fs, rbw=None, mode='dB', obw=None, r=50, osr=4, window='blackman
     if obw is not None:
         mode = 'dBc'
     if rbw is None:
-        rbw = np.max([fs/1000, 2*fs/len(signal_flat)/10])
+        rbw = np.max([fs/1000, 2*fs/len(signal_flat)])
     effective_fs = fs / 2 if np.all(np.isreal(signal)) and sb_mode == 'DSB' else fs
     # --------------------------------------------------------------------------------------------------------------
     # defining the normalization factor
-- 
2.43.0


From 2b08e8a655cfbe9e8990f894fb150d67fa3f57b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:26 +0000
Subject: [PATCH 35/50] fix: hamming distance of unsigned and boolean patterns
 does not wrap around

---
 CommDspy/auxiliary.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CommDspy/auxiliary.py b/CommDspy/auxiliary.py
index 2f7b292..1c4d4b9 100644
--- a/CommDspy/auxiliary.py
+++ b/CommDspy/auxiliary.py
@@ -153,7 +153,8 @@ def hamming(pattern_block, codebook):
              num array where the (ii,jj) location hold for the hamming distance of pattern ii from codeword jj. Also
              returns the minimal hamming distance index for each block in the pattern
     """
-    hamming     = np.sum(np.abs(codebook[:, None, :] - pattern_block[None, :, :]), axis=2)
+    dtype       = np.result_type(codebook, pattern_block, np.int8) # signed, the difference must not wrap around
+    hamming     = np.sum(np.abs(np.subtract(codebook[:, None, :], pattern_block[None, :, :], dtype=dtype)), axis=2)
     decoded_idx = np.argmin(hamming, axis=0)
     return hamming, decoded_idx
 
-- 
2.43.0


From a2f07502a312da21a40d364dee6b7b5cf148b450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:26 +0000
Subject: [PATCH 36/50] fix: power and rms of narrow integer signals do not
 overflow

---
 CommDspy/auxiliary.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CommDspy/auxiliary.py b/CommDspy/auxiliary.py
index 1c4d4b9..4c13b10 100644
--- a/CommDspy/auxiliary.py
+++ b/CommDspy/auxiliary.py
@@ -65,6 +65,8 @@ def power(signal):
     :param signal:
     :return: Computes the mean power of the signal
     """
+    signal = np.asarray(signal)
+    signal = signal.astype(np.result_type(signal, float)) # squares of narrow integers overflow
     return np.mean(signal * np.conj(signal))
 
 def rms(signal):
-- 
2.43.0


From c4308c183e457094883e12bb0f54ca640fb1d4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:26 +0000
Subject: [PATCH 37/50] fix: pattern lock works for unsigned and narrow integer
 patterns

---
 CommDspy/rx/lock_pattern.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/CommDspy/rx/lock_pattern.py b/CommDspy/rx/lock_pattern.py
index 683ada3..aee6850 100644
--- a/CommDspy/rx/lock_pattern.py
+++ b/CommDspy/rx/lock_pattern.py
@@ -13,8 +13,9 @@ def lock_pattern_to_signal_binary(pattern, signal):
     pattern_len = len(pattern)
     data_len    = len(signal)
     pattern_rep = np.tile(pattern, 2)
-    pattern_nrz = pattern_rep * 2 - 1
-    signal_nrz = signal[:np.min((pattern_len, data_len))] * 2 - 1
+    dtype       = np.result_type(pattern, signal, int) # wide and signed, the correlation must not wrap around
+    pattern_nrz = pattern_rep.astype(dtype) * 2 - 1
+    signal_nrz = signal[:np.min((pattern_len, data_len))].astype(dtype) * 2 - 1
     # ==================================================================================================================
     # Correlating the NRZ sequences to find the alignment
     # ==================================================================================================================
@@ -34,11 +35,12 @@ def lock_pattern_to_signal(pattern, signal):
     pattern_len = len(pattern)
     data_len    = len(signal)
     pattern_rep = np.tile(pattern, 2)
-    signal_part = signal[:np.min((pattern_len, data_len))]
+    dtype       = np.result_type(pattern, signal, int) # wide, the correlation must not wrap around
+    signal_part = signal[:np.min((pattern_len, data_len))].astype(dtype)
     # ==================================================================================================================
     # Correlating the NRZ sequences to find the alignment
     # ==================================================================================================================
-    xcorr = correlate(pattern_rep, signal_part, mode='valid')
+    xcorr = correlate(pattern_rep.astype(dtype), signal_part, mode='valid')
     start_idx = np.argmax(xcorr[:pattern_len])
     # start_idx = np.argmax(np.abs(xcorr))
     return pattern_rep[start_idx:start_idx + pattern_len], xcorr
\ No newline at end of file
-- 
2.43.0


From 2d3080e19cfc63209c7603d67ed989038634b19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:26 +0000
Subject: [PATCH 38/50] fix: line-code decoders accept unsigned patterns

---
 CommDspy/rx/decoding.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/CommDspy/rx/decoding.py b/CommDspy/rx/decoding.py
index b70c4db..2537dc8 100644
--- a/CommDspy/rx/decoding.py
+++ b/CommDspy/rx/decoding.py
@@ -76,7 +76,7 @@ def decoding_manchester(pattern):
     # Decoding
     # ==================================================================================================================
     pattern_flat    = np.reshape(pattern, [-1, 2])
-    transitions     = -1 * np.diff(pattern_flat, axis=1) # should be -1, 1 or 0 for mistakes
+    transitions     = -1 * np.diff(pattern_flat.astype(int), axis=1) # should be -1, 1 or 0 for mistakes
     decoded_pattern = (transitions + 1) / 2
 
     return np.reshape(np.array(decoded_pattern), new_pattern_shape)
@@ -94,6 +94,7 @@ def decoding_bipolar(pattern, error_detection=False):
         neighboring '0' values as well.
     :return:
     """
+    pattern = pattern.astype(np.result_type(pattern, np.int8)) # signed, the marks are 0 and 2
     if not error_detection:
         return np.abs(pattern - 1)
     else:
@@ -112,6 +113,7 @@ def decoding_bipolar(pattern, error_detection=False):
 
 def decoding_mlt3(pattern):
     pattern_flat = np.reshape(pattern, -1)
+    pattern_flat = pattern_flat.astype(np.result_type(pattern_flat, np.int8)) # signed, the differences can be negative
     # ==================================================================================================================
     # Decoding
     # ==================================================================================================================
@@ -136,7 +138,7 @@ def decoding_differential_manchester(pattern):
     # Decoding
     # ==================================================================================================================
     pattern_flat = np.reshape(pattern, [-1, 2])
-    transitions  = 1 -  np.abs(np.diff(pattern_flat, axis=1))  # should be -1, 1 or 0 for mistakes
+    transitions  = 1 -  np.abs(np.diff(pattern_flat.astype(int), axis=1))  # should be -1, 1 or 0 for mistakes
     return np.reshape(transitions, new_pattern_shape).astype(int)
 
 def decoding_linear(pattern, G, error_prob=False):
-- 
2.43.0


From 82b1b3ab205882ae9e34963bf30b81ce17dba5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:26 +0000
Subject: [PATCH 39/50] fix: Mueller-Muller step of narrow integer signals does
 not overflow

---
 CommDspy/rx/clock_data_recovery.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CommDspy/rx/clock_data_recovery.py b/CommDspy/rx/clock_data_recovery.py
index dbfb80f..5b60267 100644
--- a/CommDspy/rx/clock_data_recovery.py
+++ b/CommDspy/rx/clock_data_recovery.py
@@ -23,6 +23,7 @@ def mueller_muller_step(signal_chunk, reference_signal, pre_weight=1, post_weigh
     # ==================================================================================================================
     # Computing the coefs
     # ==================================================================================================================
+    signal_chunk = signal_chunk.astype(np.result_type(signal_chunk, float)) # sums of narrow integers overflow
     pre_coef  = reference_pre.dot(signal_chunk[:-1]) / (len(reference_signal) - 1)
     post_coef = reference_post.dot(signal_chunk[1:]) / (len(reference_signal) - 1)
     step      =  post_coef * post_weight - pre_coef * pre_weight
-- 
2.43.0


From 8bb69299da112a3b23215fcc5813bb427c142420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:26 +0000
Subject: [PATCH 40/50] fix: LMS gradients of narrow integer outputs and
 references do not overflow

---
 CommDspy/rx/least_mean_squares.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/rx/least_mean_squares.py b/CommDspy/rx/least_mean_squares.py
index b79673f..437117b 100644
--- a/CommDspy/rx/least_mean_squares.py
+++ b/CommDspy/rx/least_mean_squares.py
@@ -57,7 +57,7 @@ def ddlms_grad(input_vec, output_vec, levels, ffe_tap_idx=np.array([]), dfe_tap_
     # ==================================================================================================================
     # Computing the MSE
     # ==================================================================================================================
-    e_n = output_vec - reference_vec
+    e_n = np.subtract(output_vec, reference_vec, dtype=np.result_type(output_vec, reference_vec, float)) # integers overflow
     mse = np.mean(e_n**2)
     # ==================================================================================================================
     # Computing the FFE + DFE derivatives
-- 
2.43.0


From fd2ce327ba6c19398a4b8107fef1d2bd074c05be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:57 +0000
Subject: [PATCH 41/50] fix: pattern lock, Mueller-Muller step and LMS keep
 accepting lists

---
 CommDspy/rx/clock_data_recovery.py | 1 +
 CommDspy/rx/least_mean_squares.py  | 3 ++-
 CommDspy/rx/lock_pattern.py        | 8 ++++----
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/CommDspy/rx/clock_data_recovery.py b/CommDspy/rx/clock_data_recovery.py
index 5b60267..93d3129 100644
--- a/CommDspy/rx/clock_data_recovery.py
+++ b/CommDspy/rx/clock_data_recovery.py
@@ -23,6 +23,7 @@ def mueller_muller_step(signal_chunk, reference_signal, pre_weight=1, post_weigh
     # ==================================================================================================================
     # Computing the coefs
     # ==================================================================================================================
+    signal_chunk = np.asarray(signal_chunk)
     signal_chunk = signal_chunk.astype(np.result_type(signal_chunk, float)) # sums of narrow integers overflow
     pre_coef  = reference_pre.dot(signal_chunk[:-1]) / (len(reference_signal) - 1)
     post_coef = reference_post.dot(signal_chunk[1:]) / (len(reference_signal) - 1)
diff --git a/CommDspy/rx/least_mean_squares.py b/CommDspy/rx/least_mean_squares.py
index 437117b..af3bda7 100644
--- a/CommDspy/rx/least_mean_squares.py
+++ b/CommDspy/rx/least_mean_squares.py
@@ -57,7 +57,8 @@ def ddlms_grad(input_vec, output_vec, levels, ffe_tap_idx=np.array([]), dfe_tap_
     # ==================================================================================================================
     # Computing the MSE
     # ==================================================================================================================
-    e_n = np.subtract(output_vec, reference_vec, dtype=np.result_type(output_vec, reference_vec, float)) # integers overflow
+    output_vec = np.asarray(output_vec)
+    e_n = output_vec.astype(np.result_type(output_vec, float)) - reference_vec # differences of narrow integers overflow
     mse = np.mean(e_n**2)
     # ==================================================================================================================
     # Computing the FFE + DFE derivatives
diff --git a/CommDspy/rx/lock_pattern.py b/CommDspy/rx/lock_pattern.py
index aee6850..ea79ebf 100644
--- a/CommDspy/rx/lock_pattern.py
+++ b/CommDspy/rx/lock_pattern.py
@@ -13,9 +13,9 @@ def lock_pattern_to_signal_binary(pattern, signal):
     pattern_len = len(pattern)
     data_len    = len(signal)
     pattern_rep = np.tile(pattern, 2)
-    dtype       = np.result_type(pattern, signal, int) # wide and signed, the correlation must not wrap around
+    dtype       = np.result_type(np.asarray(pattern), np.asarray(signal), int) # wide and signed, the correlation must not wrap around
     pattern_nrz = pattern_rep.astype(dtype) * 2 - 1
-    signal_nrz = signal[:np.min((pattern_len, data_len))].astype(dtype) * 2 - 1
+    signal_nrz = np.asarray(signal[:np.min((pattern_len, data_len))]).astype(dtype) * 2 - 1
     # ==================================================================================================================
     # Correlating the NRZ sequences to find the alignment
     # ==================================================================================================================
@@ -35,8 +35,8 @@ def lock_pattern_to_signal(pattern, signal):
     pattern_len = len(pattern)
     data_len    = len(signal)
     pattern_rep = np.tile(pattern, 2)
-    dtype       = np.result_type(pattern, signal, int) # wide, the correlation must not wrap around
-    signal_part = signal[:np.min((pattern_len, data_len))].astype(dtype)
+    dtype       = np.result_type(np.asarray(pattern), np.asarray(signal), int) # wide, the correlation must not wrap around
+    signal_part = np.asarray(signal[:np.min((pattern_len, data_len))]).astype(dtype)
     # ==================================================================================================================
     # Correlating the NRZ sequences to find the alignment
     # ==================================================================================================================
-- 
2.43.0


From ca761b42f7dd01c005827b23ee26f4033098117f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:58 +0000
Subject: [PATCH 42/50] fix: slicing narrow integers with narrow integer levels
 does not overflow

---
 CommDspy/rx/slicer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CommDspy/rx/slicer.py b/CommDspy/rx/slicer.py
index b0e64f0..33eaa79 100644
--- a/CommDspy/rx/slicer.py
+++ b/CommDspy/rx/slicer.py
@@ -27,6 +27,7 @@ def slicer(slicer_in_mat, levels=None):
     # Creating the diff matrix --> col vec minus row vec --> matrix
     # ==================================================================================================================
     slicer_in_vec = np.reshape(slicer_in_mat, [-1, 1])
+    slicer_in_vec = slicer_in_vec.astype(np.result_type(slicer_in_vec, levels, int)) # differences of narrow integers overflow
     diff_mat = abs(slicer_in_vec - levels)
     # ==================================================================================================================
     # Slicing
-- 
2.43.0


From 64ab9357b0331f3470aede20bd716fb309a45eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:58 +0000
Subject: [PATCH 43/50] fix: soft LMS of narrow integer outputs and levels does
 not overflow

---
 CommDspy/rx/least_mean_squares.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CommDspy/rx/least_mean_squares.py b/CommDspy/rx/least_mean_squares.py
index af3bda7..813c6c2 100644
--- a/CommDspy/rx/least_mean_squares.py
+++ b/CommDspy/rx/least_mean_squares.py
@@ -156,6 +156,7 @@ def soft_ddlms_grad(input_vec, output_vec, levels, sigma=1, ffe_tap_idx=np.array
     # temp = np.exp(-1 * (output_vec[None, :] - levels[:, None])**2 / (2 * sigma**2))
     # f    = p / np.sqrt(2 * np.pi * sigma**2) * np.sum(temp, axis=0)
     # e_n  = output_vec - np.sum(temp * levels[:, None], axis=0) / np.sum(temp, axis=0)
+    output_vec = output_vec.astype(np.result_type(output_vec, float)) # differences of narrow integers overflow
     temp1 = np.exp(-1 * (output_vec[None, :] - levels[:, None])**2 / (2 * sigma**2))
     temp2 = (output_vec[None, :] - levels[:, None]) / (sigma**2) * temp1
     f     = p / np.sqrt(2 * np.pi * sigma**2) * np.sum(temp1, axis=0)
-- 
2.43.0


From 010ba7863d800b18a5dfd4e7a29d1c70932b49c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:58 +0000
Subject: [PATCH 44/50] fix: psa relative to the carrier works for narrow
 integer signals

---
 CommDspy/psa.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CommDspy/psa.py b/CommDspy/psa.py
index 9277496..faeb4c5 100644
--- a/CommDspy/psa.py
+++ b/CommDspy/psa.py
@@ -1,6 +1,7 @@
 import numpy as np
 import matplotlib.pyplot as plt
 from scipy.signal import get_window, welch
+from CommDspy.auxiliary import rms
 
 
 def psa(signal, fs, rbw=None, mode='dB', obw=None, r=50, osr=4, window='blackmanharris', overlap=0.75, fullscale=1, sb_mode='DSB', plot=False):
@@ -60,7 +61,7 @@ def psa(signal, fs, rbw=None, mode='dB', obw=None, r=50, osr=4, window='blackman
     elif mode == 'dBuv/sqrt(Hz)':
         norm_factor = np.sqrt(1 / effective_fs) * 1e6
     elif mode == 'dBc':
-        vrms = np.sqrt(np.mean(signal_flat * np.conj(signal_flat)))
+        vrms = rms(signal_flat)
         if obw is None:
             obw = rbw
         norm_factor = np.sqrt(obw / effective_fs) / vrms
-- 
2.43.0


From 2c2a8d5317107fef71e678cfa23355afc954b16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:26 +0000
Subject: [PATCH 45/50] fix: Manchester encoding accepts bits stored as
 booleans

---
 CommDspy/tx/coding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/tx/coding.py b/CommDspy/tx/coding.py
index ccee4b6..02dba30 100644
--- a/CommDspy/tx/coding.py
+++ b/CommDspy/tx/coding.py
@@ -70,7 +70,7 @@ def coding_manchester(pattern):
     # Encoding
     # ==================================================================================================================
     coding_list  = np.array([[0, 1], [1, 0]])
-    coded_pattern = np.reshape(coding_list[pattern], -1)
+    coded_pattern = np.reshape(coding_list[pattern.astype(int)], -1)
 
     return np.reshape(np.array(coded_pattern), new_pattern_shape)
 
-- 
2.43.0


From cb103505ee09835a34e2ba3f8cb5dcf8f84ec24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:26 +0000
Subject: [PATCH 46/50] fix: mapping and de-mapping with inverted polarity
 accept unsigned integers

---
 CommDspy/rx/demapping.py | 2 +-
 CommDspy/tx/mapping.py   | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/CommDspy/rx/demapping.py b/CommDspy/rx/demapping.py
index 24092c2..a89cedf 100644
--- a/CommDspy/rx/demapping.py
+++ b/CommDspy/rx/demapping.py
@@ -24,7 +24,7 @@ def demapping(signal, constellation, full_scale=False, pn_inv=False):
     # PN-inv
     # ==================================================================================================================
     if pn_inv:
-        signal = -1 * signal
+        signal = -1.0 * signal
     # ==================================================================================================================
     # Converting symbols to indices, i.e. performing decoding
     # ==================================================================================================================
diff --git a/CommDspy/tx/mapping.py b/CommDspy/tx/mapping.py
index 3d3ce15..4fddec8 100644
--- a/CommDspy/tx/mapping.py
+++ b/CommDspy/tx/mapping.py
@@ -1,3 +1,4 @@
+import numpy as np
 from CommDspy.auxiliary import get_levels
 
 def mapping(signal, constellation, full_scale=False, levels=None, pn_inv=False):
@@ -21,7 +22,7 @@ def mapping(signal, constellation, full_scale=False, levels=None, pn_inv=False):
     # PN inv
     # ==================================================================================================================
     if pn_inv:
-        default_lvls = -1 * default_lvls
+        default_lvls = -1 * default_lvls.astype(np.result_type(default_lvls, int)) # unsigned levels have no negative
     # ==================================================================================================================
     # mapping
     # ==================================================================================================================
-- 
2.43.0


From e0827b2fa85a37e9e9d7274f9c455eefa648d360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:26 +0000
Subject: [PATCH 47/50] fix: ffe_dfe with narrow integer taps and signals does
 not overflow

---
 CommDspy/rx/ffe_dfe_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/CommDspy/rx/ffe_dfe_model.py b/CommDspy/rx/ffe_dfe_model.py
index c4420ad..2a25937 100644
--- a/CommDspy/rx/ffe_dfe_model.py
+++ b/CommDspy/rx/ffe_dfe_model.py
@@ -52,6 +52,9 @@ def ffe_dfe(input_signal, ffe_taps=np.array([1]), dfe_taps=None, levels=None, os
     # ==================================================================================================================
     if ffe_taps is None:
         ffe_taps = np.array([1])
+    ffe_taps = np.asarray(ffe_taps).astype(np.result_type(np.asarray(ffe_taps), float)) # products of narrow integers overflow
+    if dfe_taps is not None:
+        dfe_taps = np.asarray(dfe_taps).astype(np.result_type(np.asarray(dfe_taps), float))
     if len(ffe_taps) == 1 and dfe_taps is None:
         return input_signal * ffe_taps
     # ==================================================================================================================
-- 
2.43.0


From e63f6edf418a330396c22ec498fab9187ea826ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:49 +0000
Subject: [PATCH 48/50] fix: filter objects with narrow integer taps and data
 do not overflow

---
 CommDspy/misc/help_classes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CommDspy/misc/help_classes.py b/CommDspy/misc/help_classes.py
index 1f37f86..b5ae449 100644
--- a/CommDspy/misc/help_classes.py
+++ b/CommDspy/misc/help_classes.py
@@ -18,8 +18,8 @@ class Filter:
         :param z_fir: FIR initial memory. If None assumes '0' memory. Must have the same length as 'b'
         :param z_iir: IIR initial memory. If None assumes '0' memory. Must have the same length as len('a') - 1
         """
-        self.b = b
-        self.a = a
+        self.b = np.asarray(b).astype(np.result_type(np.asarray(b), float)) # products of narrow integers overflow
+        self.a = np.asarray(a).astype(np.result_type(np.asarray(a), float))
         self._z_fir = None
         self._z_iir = None
         self.set_z_fir(z_fir)
@@ -104,8 +104,8 @@ class FilterTII:
                   max{len('b'), len('a')} - 1
 
         """
-        self.b  = b
-        self.a  = a
+        self.b = np.asarray(b).astype(np.result_type(np.asarray(b), float)) # products of narrow integers overflow
+        self.a = np.asarray(a).astype(np.result_type(np.asarray(a), float))
         self._z = None
         self.set_z(z)
         self._b_vec = np.concatenate([self.b[1:], np.zeros(max(len(self._z) - len(self.b) + 1, 0))])
-- 
2.43.0


From f09b7c746d07e3a8756c4de7afe87664af9a23c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:49 +0000
Subject: [PATCH 49/50] fix: CTLE accepts zeros and poles stored as unsigned
 integers

---
 CommDspy/rx/ctle_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CommDspy/rx/ctle_model.py b/CommDspy/rx/ctle_model.py
index 98dd0e4..e578740 100644
--- a/CommDspy/rx/ctle_model.py
+++ b/CommDspy/rx/ctle_model.py
@@ -17,8 +17,8 @@ def get_ctle_filter(zeros, poles, dc_gain, fs, osr):
     # ==================================================================================================================
     # Creating continuous time polynomials
     # ==================================================================================================================
-    numerator_con   = Polynomial.fromroots([-1 * np.sign(zero) * zero for zero in zeros])
-    denominator_con = Polynomial.fromroots([-1 * np.sign(pole) * pole for pole in poles])
+    numerator_con   = Polynomial.fromroots([-1.0 * np.sign(zero) * zero for zero in zeros])
+    denominator_con = Polynomial.fromroots([-1.0 * np.sign(pole) * pole for pole in poles])
     # ==================================================================================================================
     # Extracting coefficients and normalizing - coefficients are organized from x**0 to x**n, we need to flip them
     # ==================================================================================================================
-- 
2.43.0


From f62e89c4831a732701ab6868a9a8842d16db9f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:49 +0000
Subject: [PATCH 50/50] fix: awgn_channel accepts integer memory with integer
 taps and signals

---
 CommDspy/channel/additive_noise_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/channel/additive_noise_functions.py b/CommDspy/channel/additive_noise_functions.py
index 2ce9319..78ace43 100644
--- a/CommDspy/channel/additive_noise_functions.py
+++ b/CommDspy/channel/additive_noise_functions.py
@@ -63,7 +63,7 @@ def awgn_channel(signal, b, a, snr=None, zi=None):
             zi = np.zeros(max([len(a), len(b)])-1)
         else:  # a is int or float
             zi = np.zeros(max([1, len(b)])-1)
-    ch_out, zo = lfilter(b, a, signal, zi=zi)
+    ch_out, zo = lfilter(b, a, signal, zi=np.asarray(zi).astype(np.result_type(np.asarray(zi), float)))
     # ==================================================================================================================
     # Adding noise if needed
     # ==================================================================================================================
-- 
2.43.0

