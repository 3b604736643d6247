From 40238ab78c19b02c8fd5f309e1fa9e148ecac2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:41 +0000
Subject: [PATCH 01/28] fix: honour pre_emph_coeff in erb/bark/linear
 spectrograms, lpc and lpcc

The coefficient was hard-coded to 0.97.
---
 spafe/features/bfcc.py | 2 +-
 spafe/features/gfcc.py | 2 +-
 spafe/features/lfcc.py | 2 +-
 spafe/features/lpc.py  | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/spafe/features/bfcc.py b/spafe/features/bfcc.py
index b7a1d17..e0154e2 100644
--- a/spafe/features/bfcc.py
+++ b/spafe/features/bfcc.py
@@ -157,7 +157,7 @@ def bark_spectrogram(
 
     # pre-emphasis
     if pre_emph:
-        sig = pre_emphasis(sig=sig, pre_emph_coeff=0.97)
+        sig = pre_emphasis(sig=sig, pre_emph_coeff=pre_emph_coeff)
 
     # init window
     if window is None:
diff --git a/spafe/features/gfcc.py b/spafe/features/gfcc.py
index 3b9e868..6afb514 100644
--- a/spafe/features/gfcc.py
+++ b/spafe/features/gfcc.py
@@ -135,7 +135,7 @@ def erb_spectrogram(
 
     # pre-emphasis
     if pre_emph:
-        sig = pre_emphasis(sig=sig, pre_emph_coeff=0.97)
+        sig = pre_emphasis(sig=sig, pre_emph_coeff=pre_emph_coeff)
 
     # init window
     if window is None:
diff --git a/spafe/features/lfcc.py b/spafe/features/lfcc.py
index 2c916c0..d99b49a 100644
--- a/spafe/features/lfcc.py
+++ b/spafe/features/lfcc.py
@@ -127,7 +127,7 @@ def linear_spectrogram(
 
     # pre-emphasis
     if pre_emph:
-        sig = pre_emphasis(sig=sig, pre_emph_coeff=0.97)
+        sig = pre_emphasis(sig=sig, pre_emph_coeff=pre_emph_coeff)
 
     # init window
     if window is None:
diff --git a/spafe/features/lpc.py b/spafe/features/lpc.py
index f522467..d0f56b3 100644
--- a/spafe/features/lpc.py
+++ b/spafe/features/lpc.py
@@ -176,7 +176,7 @@ def lpc(
     order = order - 1
     # pre-emphasis
     if pre_emph:
-        sig = pre_emphasis(sig=sig, pre_emph_coeff=0.97)
+        sig = pre_emphasis(sig=sig, pre_emph_coeff=pre_emph_coeff)
 
     # init window
     if window is None:
@@ -313,7 +313,7 @@ def lpcc(
     order = order - 1
     # pre-emphasis
     if pre_emph:
-        sig = pre_emphasis(sig=sig, pre_emph_coeff=0.97)
+        sig = pre_emphasis(sig=sig, pre_emph_coeff=pre_emph_coeff)
 
     # init window
     if window is None:
-- 
2.43.0


From e1c549b4a75d296f206124abb4350a248b9bcded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:41 +0000
Subject: [PATCH 02/28] fix: apply the analysis window in lpc and lpcc

The loops ran over the raw frames, so the window had no effect and integer
signals overflowed in the autocorrelation.
---
 spafe/features/lpc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spafe/features/lpc.py b/spafe/features/lpc.py
index d0f56b3..9d07016 100644
--- a/spafe/features/lpc.py
+++ b/spafe/features/lpc.py
@@ -193,7 +193,7 @@ def lpc(
     a_mat = np.zeros((len(windows), order + 1))
     e_vec = np.zeros((len(windows), 1))
 
-    for i, windowed_frame in enumerate(frames):
+    for i, windowed_frame in enumerate(windows):
         a, e = __lpc_helper(windowed_frame, order)
         a_mat[i, :] = a
         e_vec[i] = e
@@ -329,7 +329,7 @@ def lpcc(
 
     # compute lpccs
     lpccs = np.zeros((len(windows), order + 1))
-    for i, windowed_frame in enumerate(frames):
+    for i, windowed_frame in enumerate(windows):
         a, e = __lpc_helper(windowed_frame, order)
         lpcc_coeffs = lpc2lpcc(a, e, order + 1)
         lpccs[i, :] = np.array(lpcc_coeffs)
-- 
2.43.0


From b069de9ace9e2d587eb29eb6f50e040d98e0b735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:08 +0000
Subject: [PATCH 03/28] fix: compute the lpc error term from the
 autocorrelation at lags 0..p

The full correlation starts at the most negative lag, so auto_corr[0] is not
the frame energy and the coefficients were paired with the wrong lags.
---
 spafe/features/lpc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spafe/features/lpc.py b/spafe/features/lpc.py
index 9d07016..89ff73c 100644
--- a/spafe/features/lpc.py
+++ b/spafe/features/lpc.py
@@ -81,7 +81,7 @@ def __lpc_helper(frame, order):
 
     phi = np.dot(linalg.inv(linalg.toeplitz(r[:-1])), -r[1:])
     a = np.concatenate(([1.0], phi))
-    e = auto_corr[0] + sum(ac_k * a_k for ac_k, a_k in zip(auto_corr[1:], a))
+    e = sum(r_k * a_k for r_k, a_k in zip(r, a))
     return a, np.sqrt(e**2)
 
 
-- 
2.43.0


From 9f1bca0b7746dfeb1f0876866b6103acbb53e7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:08 +0000
Subject: [PATCH 04/28] fix: use the previous cepstra in the lpc2lpcc recursion

The recursion multiplied by the still uninitialised c[m] instead of c[k],
skipped c[p] and raised IndexError when nceps < len(a).
---
 spafe/features/lpc.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/spafe/features/lpc.py b/spafe/features/lpc.py
index 89ff73c..00a466a 100644
--- a/spafe/features/lpc.py
+++ b/spafe/features/lpc.py
@@ -219,8 +219,8 @@ def lpc2lpcc(a, e, nceps):
 
             C_{m}=\\left\\{\\begin{array}{l}
             log_{e}(p), & \\text{if } m = 0 \\\\
-            a_{m} + \\sum_{k=1}^{m-1} \\frac{k}{m} C_{m} a_{m-k} , & \\text{if } 1 <= m <= p \\\\
-            \\sum_{k=m-p}^{m-1} \\frac{k}{m} C_{m} a_{m-k} , & \\text{if } m > p \\end{array}\\right.
+            a_{m} + \\sum_{k=1}^{m-1} \\frac{k}{m} C_{k} a_{m-k} , & \\text{if } 1 <= m <= p \\\\
+            \\sum_{k=m-p}^{m-1} \\frac{k}{m} C_{k} a_{m-k} , & \\text{if } m > p \\end{array}\\right.
 
     References:
         .. [Makhoul] : Makhoul, J. (1975). Linear prediction: A tutorial review.
@@ -234,12 +234,12 @@ def lpc2lpcc(a, e, nceps):
 
     c[0] = np.log(zero_handling(e))
 
-    for m in range(1, p):
-        c[m] = a[m] + sum([(k / m) * c[m] * a[m - k] for k in range(1, m)])
+    for m in range(1, min(p, nceps)):
+        c[m] = a[m] + sum([(k / m) * c[k] * a[m - k] for k in range(1, m)])
 
     if nceps > p:
-        for m in range(p + 1, nceps):
-            c[m] = sum([(k / m) * c[m] * a[m - k] for k in range(m - p, m)])
+        for m in range(p, nceps):
+            c[m] = sum([(k / m) * c[k] * a[m - k] for k in range(m - p + 1, m)])
 
     return c
 
-- 
2.43.0


From b67a6426b03d430426b82514a71d982fe4dd46d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:28 +0000
Subject: [PATCH 05/28] fix: do not raise LinAlgError on silent frames in lpc,
 lpcc, plp and rplp

The autocorrelation matrix of a silent frame is singular; its pseudo inverse
yields the trivial predictor.
---
 spafe/features/lpc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spafe/features/lpc.py b/spafe/features/lpc.py
index 00a466a..647e863 100644
--- a/spafe/features/lpc.py
+++ b/spafe/features/lpc.py
@@ -79,7 +79,7 @@ def __lpc_helper(frame, order):
     auto_corr = np.correlate(frame, frame, "full")
     r[:nx] = auto_corr[frame.size - 1 : frame.size + order]
 
-    phi = np.dot(linalg.inv(linalg.toeplitz(r[:-1])), -r[1:])
+    phi = np.dot(linalg.pinv(linalg.toeplitz(r[:-1])), -r[1:])
     a = np.concatenate(([1.0], phi))
     e = sum(r_k * a_k for r_k, a_k in zip(r, a))
     return a, np.sqrt(e**2)
-- 
2.43.0


From b4a031c613dd5606d5f000c4ae8598e0acdbaf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:28 +0000
Subject: [PATCH 06/28] fix: guard the logarithm of rplp against empty bands

Silent frames and bands without FFT bins gave log(0) and NaN features.
---
 spafe/features/rplp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spafe/features/rplp.py b/spafe/features/rplp.py
index ff44527..0227fff 100644
--- a/spafe/features/rplp.py
+++ b/spafe/features/rplp.py
@@ -21,6 +21,7 @@ from ..utils.preprocessing import (
     pre_emphasis,
     framing,
     windowing,
+    zero_handling,
     SlidingWindow,
 )
 
@@ -139,7 +140,7 @@ def __rastaplp(
     # rasta filtering
     if do_rasta:
         # put in log domain
-        nl_aspectrum = np.log(auditory_spectrum)
+        nl_aspectrum = np.log(zero_handling(auditory_spectrum))
 
         # next do rasta filtering
         ras_nl_aspectrum = rasta_filter(nl_aspectrum)
-- 
2.43.0


From 1687d848091bb5327581a567ee2a26acd715be47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:51 +0000
Subject: [PATCH 07/28] fix: start rasta_filter from the same initial state for
 every row

The final state of one row overwrote the unit initial state, so every row
depended on all rows before it.
---
 spafe/utils/filters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spafe/utils/filters.py b/spafe/utils/filters.py
index e03b74f..5d7ccea 100644
--- a/spafe/utils/filters.py
+++ b/spafe/utils/filters.py
@@ -38,11 +38,11 @@ def rasta_filter(x: np.ndarray) -> np.ndarray:
 
     for i in range(x.shape[0]):
         # FIR for initial state response compuation
-        y1, z = signal.lfilter(numer, 1, x[i, 0:4], axis=0, zi=z * x[i, 0])
+        y1, zf = signal.lfilter(numer, 1, x[i, 0:4], axis=0, zi=z * x[i, 0])
         y1 = y1 * 0
 
         # IIR
-        y2, _ = signal.lfilter(numer, denom, x[i, 4 : x.shape[1]], axis=0, zi=z)
+        y2, _ = signal.lfilter(numer, denom, x[i, 4 : x.shape[1]], axis=0, zi=zf)
         y[i, :] = np.append(y1, y2)
     return y
 
-- 
2.43.0


From 46a80fb742ad17e960ae1226b616885220000012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:51 +0000
Subject: [PATCH 08/28] fix: inverse mel filter banks with default high_freq or
 low_freq > 0

The default high_freq=None raised TypeError and the returned centre
frequencies ignored low_freq.
---
 spafe/fbanks/mel_fbanks.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spafe/fbanks/mel_fbanks.py b/spafe/fbanks/mel_fbanks.py
index 105a70c..a1c6a83 100644
--- a/spafe/fbanks/mel_fbanks.py
+++ b/spafe/fbanks/mel_fbanks.py
@@ -322,9 +322,10 @@ def inverse_mel_filter_banks(
         imel_fbanks[i] = pts[::-1]
 
     # get inverse freqs
+    high_freq = high_freq or fs / 2
     imel_center_freqs = [
         hz2mel(freq, conversion_approach)
-        for freq in (high_freq - mel2hz(mel_freqs, conversion_approach))
+        for freq in (low_freq + high_freq - mel2hz(mel_freqs, conversion_approach))
     ]
 
     return np.abs(imel_fbanks), imel_center_freqs
-- 
2.43.0


From 7af041e5aefbfc539a4cc7c3d37de5f8a0e88b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:35 +0000
Subject: [PATCH 09/28] fix: evaluate mel, inverse mel and linear filters at
 the FFT bin frequencies

The columns of the filter banks were spread over [low_freq, high_freq] instead
of the frequencies k*fs/nfft of the spectrum they are multiplied with, so every
filter of a band limited bank (or with an odd nfft) sat at the wrong bins.
---
 spafe/fbanks/mel_fbanks.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/spafe/fbanks/mel_fbanks.py b/spafe/fbanks/mel_fbanks.py
index a1c6a83..cf46df3 100644
--- a/spafe/fbanks/mel_fbanks.py
+++ b/spafe/fbanks/mel_fbanks.py
@@ -25,6 +25,7 @@ def mel_filter_banks_helper(
     scale: ScaleType = "constant",
     fb_type="mel",
     conversion_approach: MelConversionApproach = "Oshaghnessy",
+    mirror: bool = False,
 ):
     """
     Compute Mel-filter banks.The filters are stored in the rows, the columns
@@ -47,6 +48,8 @@ def mel_filter_banks_helper(
                                     (Default is "mel")
         conversion_approach (str) : mel scale conversion approach.
                                     (Default is "Oshaghnessy").
+        mirror             (bool) : mirror the filters about the center of the band.
+                                    (Default is False).
 
     Returns:
         (tuple) :
@@ -101,7 +104,10 @@ def mel_filter_banks_helper(
         center_freqs_hz = scale_freqs[1:-1]
         center_freqs = center_freqs_hz
 
-    freqs = np.linspace(low_freq, high_freq, nfft // 2 + 1)
+    # frequencies of the fft bins (mirrored about the band's center if requested)
+    freqs = np.arange(nfft // 2 + 1) * fs / nfft
+    if mirror:
+        freqs = low_freq + high_freq - freqs
     fbank = np.zeros((nfilts, nfft // 2 + 1))
 
     for j, (center, lower, upper) in enumerate(
@@ -315,12 +321,9 @@ def inverse_mel_filter_banks(
         scale=scales[scale],
         fb_type="mel",
         conversion_approach=conversion_approach,
+        mirror=True,
     )
 
-    # inverse regular filter banks
-    for i, pts in enumerate(imel_fbanks):
-        imel_fbanks[i] = pts[::-1]
-
     # get inverse freqs
     high_freq = high_freq or fs / 2
     imel_center_freqs = [
-- 
2.43.0


From 94bd479427c64c05d98a7f291a34e17c3ddf2227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:35 +0000
Subject: [PATCH 10/28] fix: use the one-sided bin frequencies for dominant
 frequencies

The half spectrum of rfft was labelled with the two-sided frequencies of
fftfreq: frequencies below fs/4 were doubled, those above became negative and
were dropped.
---
 spafe/frequencies/dominant_frequencies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spafe/frequencies/dominant_frequencies.py b/spafe/frequencies/dominant_frequencies.py
index afbbd0c..866c618 100644
--- a/spafe/frequencies/dominant_frequencies.py
+++ b/spafe/frequencies/dominant_frequencies.py
@@ -142,7 +142,7 @@ def get_dominant_frequencies(
         power_spectrum = (1 / nfft) * magnitude_spectrum**2
 
         # get all frequncies and  only keep positive frequencies
-        frequencies = np.fft.fftfreq(len(power_spectrum), 1 / fs)
+        frequencies = np.fft.rfftfreq(nfft, 1 / fs)
 
         # get id for max spectrum
         idx = np.argmax(power_spectrum)
-- 
2.43.0


From 439b36289d7281e91aff2a3673e8a5cb947f73fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:32 +0000
Subject: [PATCH 11/28] fix: give the spectral moments of extract_feats the
 spectrum they expect

centroid, skewness, kurtosis and spread label their spectrum with the two-sided
frequencies of fftfreq but were passed the half spectrum of rfft, e.g. a 1 kHz
tone had its centroid at 2 kHz.
---
 spafe/features/spfeats.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/spafe/features/spfeats.py b/spafe/features/spfeats.py
index f887da9..a9866fd 100644
--- a/spafe/features/spfeats.py
+++ b/spafe/features/spfeats.py
@@ -319,13 +319,14 @@ def extract_feats(sig: np.ndarray, fs: int, nfft: int = 512) -> SpectralFeats:
 
     # compute the fft
     spectrum = np.fft.rfft(a=sig, n=nfft)
+    two_sided_spectrum = np.fft.fft(a=sig, n=nfft)
 
     # spectral features
-    feats["spectral_centroid"] = spectral_centroid(fs, spectrum)
-    feats["spectral_skewness"] = spectral_skewness(sig, fs, spectrum)
-    feats["spectral_kurtosis"] = spectral_kurtosis(sig, fs, spectrum)
+    feats["spectral_centroid"] = spectral_centroid(fs, two_sided_spectrum)
+    feats["spectral_skewness"] = spectral_skewness(sig, fs, two_sided_spectrum)
+    feats["spectral_kurtosis"] = spectral_kurtosis(sig, fs, two_sided_spectrum)
     feats["spectral_entropy"] = spectral_entropy(spectrum)
-    feats["spectral_spread"] = spectral_spread(sig, fs, spectrum)
+    feats["spectral_spread"] = spectral_spread(sig, fs, two_sided_spectrum)
     feats["spectral_flatness"] = spectral_flatness(spectrum)
     feats["spectral_rolloff"] = spectral_rolloff(fs, spectrum)
     feats["spectral_flux"] = spectral_flux(spectrum)
-- 
2.43.0


From 4d34bf98f04135f4bcdeed0e050081fe33c85cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:32 +0000
Subject: [PATCH 12/28] fix: return the roll-off bin from spectral_rolloff

The threshold k*sum was returned instead of the bin where it is reached, and
extract_feats passed (fs, spectrum) as (spectrum, k).
---
 spafe/features/spfeats.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spafe/features/spfeats.py b/spafe/features/spfeats.py
index a9866fd..e29a671 100644
--- a/spafe/features/spfeats.py
+++ b/spafe/features/spfeats.py
@@ -229,7 +229,8 @@ def spectral_rolloff(spectrum: np.ndarray, k: float = 0.85) -> float:
     magnitude_spectrum = np.abs(spectrum)
 
     # compute the spectral rolloff point
-    i = k * np.sum(magnitude_spectrum)
+    cumulated = np.cumsum(magnitude_spectrum)
+    i = np.searchsorted(cumulated, k * cumulated[-1])
     return i
 
 
@@ -328,7 +329,7 @@ def extract_feats(sig: np.ndarray, fs: int, nfft: int = 512) -> SpectralFeats:
     feats["spectral_entropy"] = spectral_entropy(spectrum)
     feats["spectral_spread"] = spectral_spread(sig, fs, two_sided_spectrum)
     feats["spectral_flatness"] = spectral_flatness(spectrum)
-    feats["spectral_rolloff"] = spectral_rolloff(fs, spectrum)
+    feats["spectral_rolloff"] = spectral_rolloff(spectrum)
     feats["spectral_flux"] = spectral_flux(spectrum)
     feats["spectral_mean"] = np.mean(spectrum)
     feats["spectral_rms"] = np.sqrt(np.mean(spectrum**2))
-- 
2.43.0


From 8aed322d470c47325f47eb1bd1333698d1817c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:32 +0000
Subject: [PATCH 13/28] fix: return the standard deviation of the spectrum from
 spectral_spread

The sum was taken over the deviations only, so an array was returned.
---
 spafe/features/spfeats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spafe/features/spfeats.py b/spafe/features/spfeats.py
index e29a671..8d44420 100644
--- a/spafe/features/spfeats.py
+++ b/spafe/features/spfeats.py
@@ -170,7 +170,7 @@ def spectral_spread(sig: np.ndarray, fs: int, spectrum: np.ndarray) -> float:
 
     Note:
         .. math::
-            S_{spread} = \\sqrt{\\sum{0}{N}\\frac{(f_k - \\mu_{1}) . s_k}{\\sum{0}{N}a_k}}
+            S_{spread} = \\sqrt{\\sum{0}{N}\\frac{(f_k - \\mu_{1})^{2} . a_k}{\\sum{0}{N}a_k}}
     """
     # compute magnitude spectrum
     magnitude_spectrum = np.abs(spectrum)
@@ -183,7 +183,7 @@ def spectral_spread(sig: np.ndarray, fs: int, spectrum: np.ndarray) -> float:
 
     # compute spread
     spread = np.sqrt(
-        ((np.sum(freqs - mu1) ** 2) * magnitude_spectrum) / np.sum(magnitude_spectrum)
+        np.sum(((freqs - mu1) ** 2) * magnitude_spectrum) / np.sum(magnitude_spectrum)
     )
     return spread
 
-- 
2.43.0


From e1fdc2fd941d46142014d498b40215ca669f43a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:32 +0000
Subject: [PATCH 14/28] fix: normalise the spectrum in spectral_entropy

The entropy of the unnormalised magnitudes is unbounded, depends on the gain
and is NaN as soon as one bin is zero.
---
 spafe/features/spfeats.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spafe/features/spfeats.py b/spafe/features/spfeats.py
index 8d44420..5710de9 100644
--- a/spafe/features/spfeats.py
+++ b/spafe/features/spfeats.py
@@ -12,6 +12,7 @@ import numpy as np
 from scipy import stats
 
 from typing_extensions import TypedDict
+from ..utils.preprocessing import zero_handling
 
 
 class SpectralFeats(TypedDict):
@@ -138,7 +139,7 @@ def spectral_entropy(spectrum: np.ndarray) -> float:
     Note:
         .. math::
 
-            S_{entropy} &= \\frac{\sum_{n=0}^{N}(f_{k} - \\mu_{1})^{3} . a_k}{\\mu_{2}^{3} . \sum_{n=0}^{N}a_{k}}\\\\
+            S_{entropy} &= \\frac{-\sum_{k} p_{k} . log(p_{k})}{log(N)}, p_{k} = \\frac{a_k}{\sum_{n}a_{n}}\\\\
 
     References:
         .. [Misra] : Misra, H., S. Ikbal, H. Bourlard, and H. Hermansky.
@@ -147,9 +148,10 @@ def spectral_entropy(spectrum: np.ndarray) -> float:
     """
     # compute magnitude spectrum, and centroids
     magnitude_spectrum = np.abs(spectrum)
+    probabilities = magnitude_spectrum / np.sum(magnitude_spectrum)
     en = (
         -1
-        * np.sum(magnitude_spectrum * np.log(magnitude_spectrum))
+        * np.sum(probabilities * np.log(zero_handling(probabilities)))
         / np.log(len(magnitude_spectrum))
     )
     return en
-- 
2.43.0


From b39f92eeb6b666b0e9eef00530a7badeb2dee0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:32 +0000
Subject: [PATCH 15/28] fix: use the magnitude spectrum for the spectral mean,
 rms, std and variance

The statistics of the complex spectrum were returned (complex mean and rms).
---
 spafe/features/spfeats.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spafe/features/spfeats.py b/spafe/features/spfeats.py
index 5710de9..8d53be7 100644
--- a/spafe/features/spfeats.py
+++ b/spafe/features/spfeats.py
@@ -333,8 +333,8 @@ def extract_feats(sig: np.ndarray, fs: int, nfft: int = 512) -> SpectralFeats:
     feats["spectral_flatness"] = spectral_flatness(spectrum)
     feats["spectral_rolloff"] = spectral_rolloff(spectrum)
     feats["spectral_flux"] = spectral_flux(spectrum)
-    feats["spectral_mean"] = np.mean(spectrum)
-    feats["spectral_rms"] = np.sqrt(np.mean(spectrum**2))
-    feats["spectral_std"] = np.std(spectrum)
-    feats["spectral_variance"] = np.var(spectrum)
+    feats["spectral_mean"] = np.mean(np.abs(spectrum))
+    feats["spectral_rms"] = np.sqrt(np.mean(np.abs(spectrum) ** 2))
+    feats["spectral_std"] = np.std(np.abs(spectrum))
+    feats["spectral_variance"] = np.var(np.abs(spectrum))
     return feats
-- 
2.43.0


From 6b6fca3ade0c2ff9702373d2c4a48d8071558183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:32 +0000
Subject: [PATCH 16/28] fix: return finite spectral descriptors for silence

All descriptors divided by the sum of the magnitudes were NaN for silence.
---
 spafe/features/spfeats.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/spafe/features/spfeats.py b/spafe/features/spfeats.py
index 8d53be7..d9793f8 100644
--- a/spafe/features/spfeats.py
+++ b/spafe/features/spfeats.py
@@ -56,7 +56,9 @@ def spectral_centroid(fs: int, spectrum: np.ndarray, i: int = 1) -> float:
     freqs = np.abs(np.fft.fftfreq(len(spectrum), 1.0 / fs))
 
     # return weighted mean
-    sc = np.sum(magnitude_spectrum * freqs**i) / np.sum(magnitude_spectrum)
+    sc = np.sum(magnitude_spectrum * freqs**i) / zero_handling(
+        np.sum(magnitude_spectrum)
+    )
     return sc
 
 
@@ -87,7 +89,7 @@ def spectral_skewness(sig: np.ndarray, fs: int, spectrum: np.ndarray):
     freqs = np.abs(np.fft.fftfreq(len(spectrum), 1.0 / fs))
 
     # return weighted mean
-    sk = np.sum(magnitude_spectrum * (freqs - mu1) ** 3) / (
+    sk = np.sum(magnitude_spectrum * (freqs - mu1) ** 3) / zero_handling(
         np.sum(magnitude_spectrum) * mu2**3
     )
     return sk
@@ -120,7 +122,7 @@ def spectral_kurtosis(sig: np.ndarray, fs: int, spectrum: np.ndarray) -> float:
     freqs = np.abs(np.fft.fftfreq(len(spectrum), 1.0 / fs))
 
     # return weighted mean
-    sk = np.sum(magnitude_spectrum * (freqs - mu1) ** 4) / (
+    sk = np.sum(magnitude_spectrum * (freqs - mu1) ** 4) / zero_handling(
         np.sum(magnitude_spectrum) * mu2**4
     )
     return sk
@@ -148,7 +150,7 @@ def spectral_entropy(spectrum: np.ndarray) -> float:
     """
     # compute magnitude spectrum, and centroids
     magnitude_spectrum = np.abs(spectrum)
-    probabilities = magnitude_spectrum / np.sum(magnitude_spectrum)
+    probabilities = magnitude_spectrum / zero_handling(np.sum(magnitude_spectrum))
     en = (
         -1
         * np.sum(probabilities * np.log(zero_handling(probabilities)))
@@ -185,7 +187,8 @@ def spectral_spread(sig: np.ndarray, fs: int, spectrum: np.ndarray) -> float:
 
     # compute spread
     spread = np.sqrt(
-        np.sum(((freqs - mu1) ** 2) * magnitude_spectrum) / np.sum(magnitude_spectrum)
+        np.sum(((freqs - mu1) ** 2) * magnitude_spectrum)
+        / zero_handling(np.sum(magnitude_spectrum))
     )
     return spread
 
@@ -209,7 +212,9 @@ def spectral_flatness(spectrum: np.ndarray) -> float:
     magnitude_spectrum = np.abs(spectrum)
 
     # compute spectral flatness
-    sf = stats.mstats.gmean(magnitude_spectrum) / np.mean(magnitude_spectrum)
+    sf = stats.mstats.gmean(magnitude_spectrum) / zero_handling(
+        np.mean(magnitude_spectrum)
+    )
     return sf
 
 
-- 
2.43.0


From 599d1654d22514a4841f22a545547141d1297e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:04 +0000
Subject: [PATCH 17/28] fix: avoid infinite msrccs for empty bands

A negative power of an exactly zero band energy (silence, bands without FFT
bins) is infinite.
---
 spafe/features/msrcc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spafe/features/msrcc.py b/spafe/features/msrcc.py
index 14953e9..6827313 100644
--- a/spafe/features/msrcc.py
+++ b/spafe/features/msrcc.py
@@ -151,7 +151,7 @@ def msrcc(
     )
 
     # -> (.)^(gamma)
-    features = features**gamma
+    features = zero_handling(features) ** gamma
 
     # -> DCT(.)
     msrccs = dct(x=features, type=dct_type, axis=1, norm="ortho")[:, :num_ceps]
-- 
2.43.0


From 7af4b58d3cd65d881153d9c2941c8b89104a2d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:04 +0000
Subject: [PATCH 18/28] fix: avoid infinite psrccs for bands with zero phase

The infinities were replaced by features.max(), which is itself infinite.
---
 spafe/features/psrcc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spafe/features/psrcc.py b/spafe/features/psrcc.py
index 635afd4..ddb5de0 100644
--- a/spafe/features/psrcc.py
+++ b/spafe/features/psrcc.py
@@ -172,7 +172,7 @@ def psrcc(
     features = np.dot(fft_phases, fbanks.T)
 
     # -> (.)^(gamma)
-    features = features**gamma
+    features = zero_handling(features) ** gamma
 
     # assign 0 to values to be computed based on negative phases (otherwise results in nan)
     features[np.isnan(features)] = 0
-- 
2.43.0


From 1a6f319d61ce91b3735cb95468ae80bbd2150b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:04 +0000
Subject: [PATCH 19/28] fix: avoid NaN pnccs for silent segments

The transfer function R/Q is 0/0 where the medium time power is zero.
---
 spafe/features/pncc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spafe/features/pncc.py b/spafe/features/pncc.py
index edc0735..6b107aa 100644
--- a/spafe/features/pncc.py
+++ b/spafe/features/pncc.py
@@ -21,6 +21,7 @@ from ..utils.preprocessing import (
     pre_emphasis,
     framing,
     windowing,
+    zero_handling,
     SlidingWindow,
 )
 
@@ -160,6 +161,7 @@ def weight_smoothing(
         and :math:`\\tilde{S}` is the time-averaged, frequency-averaged transfer function.
     """
     L = nfilts
+    Q_tilde = zero_handling(Q_tilde)
     S_tilde = np.zeros_like(R_tilde)
     for m in range(R_tilde.shape[0]):
         for l in range(R_tilde.shape[1]):
-- 
2.43.0


From 6a9aa81d01ca0b936baaf6aff1572a3b9c94aa72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:04 +0000
Subject: [PATCH 20/28] fix: keep the initial value of the asymmetric lowpass
 filter

The loop started at frame 0, overwriting 0.9*Q_in[0] with a value computed from
the (all zero) last row.
---
 spafe/features/pncc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spafe/features/pncc.py b/spafe/features/pncc.py
index 6b107aa..441df14 100644
--- a/spafe/features/pncc.py
+++ b/spafe/features/pncc.py
@@ -85,7 +85,7 @@ def asymmetric_lowpass_filtering(
     Q_tilde_out[0,] = 0.9 * Q_tilde_in[0,]
 
     # compute asymmetric nonlinear filter
-    for m in range(Q_tilde_out.shape[0]):
+    for m in range(1, Q_tilde_out.shape[0]):
         Q1 = lm_a * Q_tilde_out[m - 1, :] + (1 - lm_a) * Q_tilde_in[m, :]
         Q2 = lm_b * Q_tilde_out[m - 1, :] + (1 - lm_b) * Q_tilde_in[m, :]
 
-- 
2.43.0


From e8bb510b1ae3a5f6de0fd2d1278f41125533fb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:04 +0000
Subject: [PATCH 21/28] fix: average over all channels l1..l2 in
 weight_smoothing

With zero based indices the first channel and the upper end of the range were
left out of the sum while the divisor counted them.
---
 spafe/features/pncc.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/spafe/features/pncc.py b/spafe/features/pncc.py
index 441df14..cc661e6 100644
--- a/spafe/features/pncc.py
+++ b/spafe/features/pncc.py
@@ -165,11 +165,14 @@ def weight_smoothing(
     S_tilde = np.zeros_like(R_tilde)
     for m in range(R_tilde.shape[0]):
         for l in range(R_tilde.shape[1]):
-            l1 = max(l - N, 1)
-            l2 = min(l + N, L)
+            l1 = max(l - N, 0)
+            l2 = min(l + N, L - 1)
             # compute smoothing output
             S_tilde[m, l] = (1 / float(l2 - l1 + 1)) * sum(
-                [R_tilde[m, lprime] / Q_tilde[m, lprime] for lprime in range(l1, l2)]
+                [
+                    R_tilde[m, lprime] / Q_tilde[m, lprime]
+                    for lprime in range(l1, l2 + 1)
+                ]
             )
 
     return S_tilde
-- 
2.43.0


From 073402c884d12f021fa60fa2a038073102d1daf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:04 +0000
Subject: [PATCH 22/28] fix: make bark2hz the inverse of hz2bark for the
 Terhardt approach

The forward formula uses 13.3, the inverse used 13.
---
 spafe/utils/converters.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spafe/utils/converters.py b/spafe/utils/converters.py
index d90c006..6b94cb1 100644
--- a/spafe/utils/converters.py
+++ b/spafe/utils/converters.py
@@ -143,7 +143,7 @@ def hz2bark(f: float, approach: BarkConversionApproach = "Wang") -> float:
 
         Terhardt              (1979) :
             - :math:`fb = 13.3*tan^{-1}(\\frac{0.75 . f}{1000})`
-            - :math:`f  = (1000/0.75)*tan(\\frac{fb}{13})`
+            - :math:`f  = (1000/0.75)*tan(\\frac{fb}{13.3})`
 
         Zwicker & Terhardt    (1980) :
             - :math:`fb = 8.7 + 14.2 . log10(\\frac{f}{1000})`
@@ -214,7 +214,7 @@ def bark2hz(fb: float, approach: BarkConversionApproach = "Wang") -> float:
 
         Terhardt              (1979) :
             - :math:`fb = 13.3*tan^{-1}(\\frac{0.75 . f}{1000})`
-            - :math:`f  = (1000/0.75)*tan(\\frac{fb}{13})`
+            - :math:`f  = (1000/0.75)*tan(\\frac{fb}{13.3})`
 
         Zwicker & Terhardt    (1980) :
             - :math:`fb = 8.7 + 14.2 . log10(\\frac{f}{1000})`
@@ -262,7 +262,7 @@ def bark2hz(fb: float, approach: BarkConversionApproach = "Wang") -> float:
     elif approach == "Schroeder":
         return 650 * np.sinh(fb / 7)
     elif approach == "Terhardt":
-        return (1000 / 0.75) * np.tan(fb / 13)
+        return (1000 / 0.75) * np.tan(fb / 13.3)
     elif approach == "Zwicker":
         return 10 ** (((fb - 8.7) / 14.2) + 3)
     elif approach == "Traunmueller":
-- 
2.43.0


From 0262eb81082d01755cb006e5ba314e6a2fb91077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:04 +0000
Subject: [PATCH 23/28] fix: use Traunmueller's formula in hz2bark

26.81*f/(1960+f)-0.53 with the corrections below 2 and above 20.1 Bark that
bark2hz already inverts; the linear 26.28*f/1961-0.53 grew to over 100 Bark.
---
 spafe/utils/converters.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/spafe/utils/converters.py b/spafe/utils/converters.py
index 6b94cb1..6d841d6 100644
--- a/spafe/utils/converters.py
+++ b/spafe/utils/converters.py
@@ -150,7 +150,7 @@ def hz2bark(f: float, approach: BarkConversionApproach = "Wang") -> float:
             - :math:`f  = 10^{(\\frac{fb-8.7}{14.2} + 3)}`
 
         Traunmueller          (1983) :
-            - :math:`fb = (\\frac{26.81*f}{1+1960}) - 0.53`
+            - :math:`fb = (\\frac{26.81*f}{1960+f}) - 0.53`
             - :math:`f  = 1960 . (\\frac{fb+0.53}{26.28-fb})`
 
         Wang, Sekey & Gersho  (1992) :
@@ -187,7 +187,10 @@ def hz2bark(f: float, approach: BarkConversionApproach = "Wang") -> float:
     elif approach == "Zwicker":
         return 8.7 + 14.2 * np.log10(f / 1000)
     elif approach == "Traunmueller":
-        return ((26.28 * f) / (1 + 1960)) - 0.53
+        fb = ((26.81 * f) / (1960 + f)) - 0.53
+        return fb + np.where(
+            fb < 2, 0.15 * (2 - fb), np.where(fb > 20.1, 0.22 * (fb - 20.1), 0)
+        )
     else:
         return 6 * np.arcsinh(f / 600)
 
@@ -223,7 +226,7 @@ def bark2hz(fb: float, approach: BarkConversionApproach = "Wang") -> float:
             *!* might raise RuntimeWarning: divide by zero encountered in log10
 
         Traunmueller          (1983) :
-            - :math:`fb = (\\frac{26.81*f}{1+1960}) - 0.53`
+            - :math:`fb = (\\frac{26.81*f}{1960+f}) - 0.53`
             - :math:`f  = 1960 . (\\frac{fb+0.53}{26.28-fb})`
 
         Wang, Sekey & Gersho  (1992) :
-- 
2.43.0


From 572584b1b598343fbaa8b8923e7529ba31436ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:12 +0000
Subject: [PATCH 24/28] fix: pre-emphasise integer signals with integer
 coefficients

scipy's lfilter does not support integer arithmetic, so pre_emph_coeff=0 or 1
raised NotImplementedError for int16 (or int32, list) signals.
---
 spafe/utils/preprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spafe/utils/preprocessing.py b/spafe/utils/preprocessing.py
index eef8d6a..e1f835c 100644
--- a/spafe/utils/preprocessing.py
+++ b/spafe/utils/preprocessing.py
@@ -69,7 +69,7 @@ def pre_emphasis(sig: np.ndarray, pre_emph_coeff: float = 0.97) -> np.ndarray:
 
             y[t] = x[t] - \\alpha \\times x[t-1]
     """
-    return lfilter([1, -pre_emph_coeff], [1], sig)
+    return lfilter([1.0, -pre_emph_coeff], [1], sig)
 
 
 def stride_trick(a: np.ndarray, stride_length: int, stride_step: int) -> np.ndarray:
-- 
2.43.0


From 9651ded9afd7663022d6e3956ebac19101ce0a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:29 +0000
Subject: [PATCH 25/28] fix: predict frames of extremely low level in lpc and
 lpcc

The pseudo-inverse of the unnormalised autocorrelation matrix overflowed when
the frame energy was subnormal; normalise by r[0] first.
---
 spafe/features/lpc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spafe/features/lpc.py b/spafe/features/lpc.py
index 647e863..20f5c04 100644
--- a/spafe/features/lpc.py
+++ b/spafe/features/lpc.py
@@ -79,7 +79,9 @@ def __lpc_helper(frame, order):
     auto_corr = np.correlate(frame, frame, "full")
     r[:nx] = auto_corr[frame.size - 1 : frame.size + order]
 
-    phi = np.dot(linalg.pinv(linalg.toeplitz(r[:-1])), -r[1:])
+    # the predictor only depends on r/r[0], whatever the level of the frame
+    rho = r / r[0] if r[0] > 0 else r
+    phi = np.dot(linalg.pinv(linalg.toeplitz(rho[:-1])), -rho[1:])
     a = np.concatenate(([1.0], phi))
     e = sum(r_k * a_k for r_k, a_k in zip(r, a))
     return a, np.sqrt(e**2)
-- 
2.43.0


From 3f79e8001ac34b187dfe900c766c3ee5ae575a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:24 +0000
Subject: [PATCH 26/28] fix: LPC error of faint frames underflowed to zero when
 squared

---
 spafe/features/lpc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spafe/features/lpc.py b/spafe/features/lpc.py
index 20f5c04..0cb7156 100644
--- a/spafe/features/lpc.py
+++ b/spafe/features/lpc.py
@@ -84,7 +84,7 @@ def __lpc_helper(frame, order):
     phi = np.dot(linalg.pinv(linalg.toeplitz(rho[:-1])), -rho[1:])
     a = np.concatenate(([1.0], phi))
     e = sum(r_k * a_k for r_k, a_k in zip(r, a))
-    return a, np.sqrt(e**2)
+    return a, np.abs(e)
 
 
 def lpc(
-- 
2.43.0


From 8e1e4395d1c16f4065de70e506590d82012f076c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:24 +0000
Subject: [PATCH 27/28] fix: liftering many coefficients returned an object
 array (integer weights beyond 64 bits)

---
 spafe/utils/cepstral.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spafe/utils/cepstral.py b/spafe/utils/cepstral.py
index 282c57b..8e92b15 100644
--- a/spafe/utils/cepstral.py
+++ b/spafe/utils/cepstral.py
@@ -83,7 +83,7 @@ def lifter_ceps(ceps: np.ndarray, lift: int = 3) -> np.ndarray:
         return ceps
 
     elif lift > 0:
-        lift_vec = np.array([1] + [i**lift for i in range(1, ceps.shape[1])])
+        lift_vec = np.array([1.0] + [float(i) ** lift for i in range(1, ceps.shape[1])])
         lift_mat = np.diag(lift_vec)
         return np.dot(ceps, lift_mat)
 
-- 
2.43.0


From 0f29903dc6999409272f2a8bbee30e65fd5bc66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:35:24 +0000
Subject: [PATCH 28/28] fix: dominant frequency of very faint frames (squared
 magnitudes underflowed to zero)

---
 spafe/frequencies/dominant_frequencies.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/spafe/frequencies/dominant_frequencies.py b/spafe/frequencies/dominant_frequencies.py
index 866c618..9c00e89 100644
--- a/spafe/frequencies/dominant_frequencies.py
+++ b/spafe/frequencies/dominant_frequencies.py
@@ -139,13 +139,12 @@ def get_dominant_frequencies(
 
         # compute magnitude spectrum
         magnitude_spectrum = (1 / nfft) * np.abs(fourrier_transform)
-        power_spectrum = (1 / nfft) * magnitude_spectrum**2
 
         # get all frequncies and  only keep positive frequencies
         frequencies = np.fft.rfftfreq(nfft, 1 / fs)
 
         # get id for max spectrum
-        idx = np.argmax(power_spectrum)
+        idx = np.argmax(magnitude_spectrum)
 
         # get dom freq and convert it to Hz
         dom_freq = frequencies[idx]
-- 
2.43.0

