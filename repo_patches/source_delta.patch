From b7978c0cbb6acce4f2fc869f010abd0ff76dd785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:53 +0000
Subject: [PATCH 01/30] fix: indexing a data set with -1 selects the last
 element instead of nothing

---
 sumpf/_internal/_indexing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_internal/_indexing.py b/sumpf/_internal/_indexing.py
index 009e393..eff74d8 100644
--- a/sumpf/_internal/_indexing.py
+++ b/sumpf/_internal/_indexing.py
@@ -54,7 +54,7 @@ def key_to_slices(key, shape):
     :returns: a slice or a tuple of slices, if the shape is multidimensional
     """
     if isinstance(key, int):
-        return slice(key, key + 1)
+        return slice(key, key + 1 or None)  # for key == -1, the slice must extend to the end of the array
     elif isinstance(key, float):
         key = index(key, (shape[0] - 1))
         return slice(key, key + 1)
-- 
2.43.0


From 77296e65bb0b0bb9f458c81068f18f81e4f15ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:53 +0000
Subject: [PATCH 02/30] fix: indexing a signal with a tuple of only one key no
 longer raises an IndexError

---
 sumpf/_data/_signals/_signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_data/_signals/_signal.py b/sumpf/_data/_signals/_signal.py
index cb9a430..048ce47 100644
--- a/sumpf/_data/_signals/_signal.py
+++ b/sumpf/_data/_signals/_signal.py
@@ -106,7 +106,7 @@ class Signal(SampledData):
         slices = sumpf_internal.key_to_slices(key, self._channels.shape)
         offset = self.__offset
         if isinstance(slices, tuple):
-            if slices[1].start:
+            if len(slices) > 1 and slices[1].start:
                 if slices[1].start < 0:
                     offset += self._length + slices[1].start
                 else:
-- 
2.43.0


From 924d8e3fac8d80990d61d54c0bea362124374cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:53 +0000
Subject: [PATCH 03/30] fix: the offset of a slice, whose start lies before the
 first sample

---
 sumpf/_data/_signals/_signal.py           | 2 +-
 sumpf/_data/_spectrograms/_spectrogram.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sumpf/_data/_signals/_signal.py b/sumpf/_data/_signals/_signal.py
index 048ce47..96a05e1 100644
--- a/sumpf/_data/_signals/_signal.py
+++ b/sumpf/_data/_signals/_signal.py
@@ -108,7 +108,7 @@ class Signal(SampledData):
         if isinstance(slices, tuple):
             if len(slices) > 1 and slices[1].start:
                 if slices[1].start < 0:
-                    offset += self._length + slices[1].start
+                    offset += max(0, self._length + slices[1].start)
                 else:
                     offset += slices[1].start
             c = slices[0]
diff --git a/sumpf/_data/_spectrograms/_spectrogram.py b/sumpf/_data/_spectrograms/_spectrogram.py
index 69522b2..6af241f 100644
--- a/sumpf/_data/_spectrograms/_spectrogram.py
+++ b/sumpf/_data/_spectrograms/_spectrogram.py
@@ -113,7 +113,7 @@ class Spectrogram(SampledData):
             if len(slices) == 3:
                 if slices[2].start:
                     if slices[2].start < 0:
-                        offset += self._length + slices[2].start
+                        offset += max(0, self._length + slices[2].start)
                     else:
                         offset += slices[2].start
             c = slices[0]
-- 
2.43.0


From 088a4fa70859dcfae5e87ea8dc6d3831ac9c80a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:50 +0000
Subject: [PATCH 04/30] fix: merging in mode FIRST_CHANNELS_FIRST after a data
 set without channels

---
 sumpf/_blocks/_merge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_blocks/_merge.py b/sumpf/_blocks/_merge.py
index bc194f0..98ed479 100644
--- a/sumpf/_blocks/_merge.py
+++ b/sumpf/_blocks/_merge.py
@@ -192,7 +192,7 @@ class Merge:
         elif self.__mode is sumpf_internal.MergeMode.FIRST_CHANNELS_FIRST:
             lengths = numpy.array([len(d) for d in self.__data.values()])
             for o, l in enumerate(lengths):
-                p = o
+                p = numpy.count_nonzero(lengths[0:o])    # empty data sets do not contribute a first channel
                 for i in range(l):
                     after = lengths[o:]
                     before = lengths[0:o]
-- 
2.43.0


From 76ef1efefa31c2a065f3a965674ee14548fcb388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:58 +0000
Subject: [PATCH 05/30] fix: concatenating data sets with different data types
 no longer truncates samples

---
 sumpf/_blocks/_concatenate.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sumpf/_blocks/_concatenate.py b/sumpf/_blocks/_concatenate.py
index e6da5c6..6a4478e 100644
--- a/sumpf/_blocks/_concatenate.py
+++ b/sumpf/_blocks/_concatenate.py
@@ -17,6 +17,7 @@
 """Contains the :class:`~sumpf.Concatenate` class."""
 
 import connectors
+import numpy
 import sumpf
 import sumpf._internal as sumpf_internal
 
@@ -72,13 +73,14 @@ class Concatenate:
             # allocate an array for the concatenated channels and copy the first data set
             offset = min(i[0] for i in indices)
             length = max(i[1] for i in indices) - offset
+            dtype = numpy.result_type(numpy.float64, *(i[2].dtype for i in indices))
             start, stop, dataset_channels = indices[0]
             start -= offset
             stop -= offset
             if len(dataset_channels.shape) == 2:
                 signal = True
                 channels = sumpf_internal.allocate_array(shape=(number_of_channels, length),
-                                                         dtype=dataset_channels.dtype)
+                                                         dtype=dtype)
                 channels[0:len(dataset_channels), start:stop] = dataset_channels
                 if len(dataset_channels) < number_of_channels:
                     channels[len(dataset_channels):, start:stop] = 0.0
@@ -86,7 +88,7 @@ class Concatenate:
                 signal = False
                 number_of_frequencies = max(i[2].shape[1] for i in indices)
                 channels = sumpf_internal.allocate_array(shape=(number_of_channels, number_of_frequencies, length),
-                                                         dtype=dataset_channels.dtype)
+                                                         dtype=dtype)
                 l, f = dataset_channels.shape[0:2]
                 channels[0:l, 0:f, start:stop] = dataset_channels
                 if f < number_of_frequencies:
-- 
2.43.0


From 6b2040a2712aa23008d8affb6ef0c72f21586fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:44 +0000
Subject: [PATCH 06/30] fix: block-wise Fourier transforms of signals, that are
 shorter than the window, no longer skip the first block

---
 sumpf/_data/_signals/_signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_data/_signals/_signal.py b/sumpf/_data/_signals/_signal.py
index 96a05e1..8d1d92d 100644
--- a/sumpf/_data/_signals/_signal.py
+++ b/sumpf/_data/_signals/_signal.py
@@ -473,7 +473,7 @@ class Signal(SampledData):
                     numpy.exp(compensation, out=compensated)
                     compensated *= spectrum
                     channels += compensated
-            i = 0
+            i = -step
             for i in range(0, self._length - window_length + 1, step):
                 numpy.multiply(self._channels[:, i:window_length + i],
                                window_channels,
-- 
2.43.0


From 0e0aca0864dbfd761e7229cb45482ff56d4be622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:44 +0000
Subject: [PATCH 07/30] fix: the group delay of short time Fourier transforms
 with a remaining offset

---
 sumpf/_data/_signals/_signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_data/_signals/_signal.py b/sumpf/_data/_signals/_signal.py
index 8d1d92d..6cb1e60 100644
--- a/sumpf/_data/_signals/_signal.py
+++ b/sumpf/_data/_signals/_signal.py
@@ -556,7 +556,7 @@ class Signal(SampledData):
         offset = int(round(self.__offset / step))
         offset_remainder = self.__offset - (offset * step)
         if offset_remainder:
-            max_frequency = (window_length - 1) * resolution
+            max_frequency = (window_length // 2) * resolution
             compensation = numpy.linspace(0.0, max_frequency, window_length // 2 + 1, dtype=numpy.complex128)
             compensation *= -1j * 2.0 * math.pi * (offset_remainder / self.__sampling_rate)
             numpy.exp(compensation, out=compensation)
-- 
2.43.0


From adb5ddea60a118d9207ee229ab93a7c1959d95a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:44 +0000
Subject: [PATCH 08/30] fix: adding a constant to a polynomial without
 coefficients no longer inverts its sign

---
 sumpf/_data/_filters/_base/_terms/_primitive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_data/_filters/_base/_terms/_primitive.py b/sumpf/_data/_filters/_base/_terms/_primitive.py
index 4a194a5..d3ef949 100644
--- a/sumpf/_data/_filters/_base/_terms/_primitive.py
+++ b/sumpf/_data/_filters/_base/_terms/_primitive.py
@@ -267,7 +267,7 @@ class Polynomial(Term):
                 coefficients[-1] += other.value
                 return Polynomial(coefficients=coefficients, transform=self.transform)
             else:
-                return -other
+                return other
         else:
             return super().__add__(other)
 
-- 
2.43.0


From 0490a5110d8c74562571c11d0de1ac4ac8a5338f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:44 +0000
Subject: [PATCH 09/30] fix: the difference of zero and a term no longer drops
 the lowpass-to-highpass transform

---
 sumpf/_data/_filters/_base/_terms/_binary.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sumpf/_data/_filters/_base/_terms/_binary.py b/sumpf/_data/_filters/_base/_terms/_binary.py
index 92600f5..669c30e 100644
--- a/sumpf/_data/_filters/_base/_terms/_binary.py
+++ b/sumpf/_data/_filters/_base/_terms/_binary.py
@@ -165,7 +165,10 @@ class Difference(Term):
             else:
                 return minuend
         elif minuend.is_zero():
-            return -subtrahend
+            if transform:
+                return -subtrahend.invert_transform()
+            else:
+                return -subtrahend
         elif minuend == subtrahend:
             return Constant(0.0)
         else:
-- 
2.43.0


From 308520d01a74db291def1629fc39260f7d603dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:22 +0000
Subject: [PATCH 10/30] fix: highpass-transformed channels of a filter no
 longer zero the other channels at 0Hz

---
 sumpf/_data/_filters/_base/_filter.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sumpf/_data/_filters/_base/_filter.py b/sumpf/_data/_filters/_base/_filter.py
index 028bc70..337abc4 100644
--- a/sumpf/_data/_filters/_base/_filter.py
+++ b/sumpf/_data/_filters/_base/_filter.py
@@ -150,11 +150,11 @@ class Filter:
                   is a number or an array, if ``frequencies`` is a sequence.
         """
         if not numpy.shape(frequencies):    # create an array if frequencies is a scalar value
-            s = S(numpy.reshape(frequencies, (1, 1)))
-            return tuple(tf(s)[0, 0] for tf in self.__transfer_functions)
+            samples = tuple(S(numpy.reshape(frequencies, (1, 1))) for _ in self.__transfer_functions)
+            return tuple(tf(s)[0, 0] for tf, s in zip(self.__transfer_functions, samples))
         else:
-            s = S(frequencies)
-            return tuple(tf(s) for tf in self.__transfer_functions)
+            samples = tuple(S(frequencies) for _ in self.__transfer_functions)
+            return tuple(tf(s) for tf, s in zip(self.__transfer_functions, samples))
 
     def __len__(self):
         """Operator overload for retrieving the filter's number of channels with
@@ -413,9 +413,9 @@ class Filter:
         :returns: a :class:`~sumpf.Spectrum` instance
         """
         frequencies = numpy.linspace(0.0, (length - 1) * resolution, length)
-        s = S(frequencies)
         channels = sumpf_internal.allocate_array(shape=(len(self.__transfer_functions), length), dtype=numpy.complex128)
         for tf, c in zip(self.__transfer_functions, channels):
+            s = S(frequencies)  # a separate instance for each channel, so that the zeros of transformed terms at 0Hz do not affect other channels
             tf(s, out=c)
         return sumpf.Spectrum(channels=channels, resolution=resolution, labels=self.__labels)
 
-- 
2.43.0


From 6cb2f63f8bc40fd928f37c29c04c774d8ea53d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:24 +0000
Subject: [PATCH 11/30] fix: evaluating a filter with bands for a list of
 frequencies

---
 sumpf/_data/_filters/_base/_filter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sumpf/_data/_filters/_base/_filter.py b/sumpf/_data/_filters/_base/_filter.py
index 337abc4..a783750 100644
--- a/sumpf/_data/_filters/_base/_filter.py
+++ b/sumpf/_data/_filters/_base/_filter.py
@@ -153,6 +153,7 @@ class Filter:
             samples = tuple(S(numpy.reshape(frequencies, (1, 1))) for _ in self.__transfer_functions)
             return tuple(tf(s)[0, 0] for tf, s in zip(self.__transfer_functions, samples))
         else:
+            frequencies = numpy.asarray(frequencies)    # not all terms can be evaluated for other sequences
             samples = tuple(S(frequencies) for _ in self.__transfer_functions)
             return tuple(tf(s) for tf, s in zip(self.__transfer_functions, samples))
 
-- 
2.43.0


From ffeac65443a96886329cde36f2ffc5d22800be31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:24 +0000
Subject: [PATCH 12/30] fix: comparing bands with different numbers of
 supporting points

---
 sumpf/_data/_filters/_base/_terms/_primitive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sumpf/_data/_filters/_base/_terms/_primitive.py b/sumpf/_data/_filters/_base/_terms/_primitive.py
index d3ef949..2f4e5cd 100644
--- a/sumpf/_data/_filters/_base/_terms/_primitive.py
+++ b/sumpf/_data/_filters/_base/_terms/_primitive.py
@@ -512,8 +512,8 @@ class Bands(Term):
             return False
         elif (self.interpolation != other.interpolation or
               self.extrapolation != other.extrapolation or
-              numpy.not_equal(self.xs, other.xs).any() or
-              numpy.not_equal(self.ys, other.ys).any()):
+              not numpy.array_equal(self.xs, other.xs) or
+              not numpy.array_equal(self.ys, other.ys)):
             return False
         return super().__eq__(other)
 
-- 
2.43.0


From b72f98dc088f93038622560d5ada325752a3e4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:26 +0000
Subject: [PATCH 13/30] fix: comparing a constant zero with other objects is
 symmetric and does not raise

---
 sumpf/_data/_filters/_base/_terms/_primitive.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sumpf/_data/_filters/_base/_terms/_primitive.py b/sumpf/_data/_filters/_base/_terms/_primitive.py
index 2f4e5cd..cd107aa 100644
--- a/sumpf/_data/_filters/_base/_terms/_primitive.py
+++ b/sumpf/_data/_filters/_base/_terms/_primitive.py
@@ -88,9 +88,7 @@ class Constant(Term):
 
     def __eq__(self, other):
         """An operator overload for comparing two terms with ``==``."""
-        if self.value == 0.0 and other.is_zero():
-            return True
-        elif not isinstance(other, Constant):
+        if not isinstance(other, Constant):
             return False
         elif self.value != other.value:
             return False
-- 
2.43.0


From 69e45d3f0aa7bbd7d008dc0e217702b9ad0f0bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:30 +0000
Subject: [PATCH 14/30] fix: do not play back and record samples again, when
 the signal's length is not a multiple of the block size

---
 sumpf/_blocks/_jack.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sumpf/_blocks/_jack.py b/sumpf/_blocks/_jack.py
index 2d461ec..20e0799 100644
--- a/sumpf/_blocks/_jack.py
+++ b/sumpf/_blocks/_jack.py
@@ -449,12 +449,12 @@ def on_process(frames, instance):
             for port, channel in zip(instance._client.inports, instance._channels):
                 channel[index:stop_index] = port.get_array()
         elif index < instance._input.length():
-            stop_index = instance._input.length() - index
+            remaining = instance._input.length() - index
             for port, channel in zip(instance._client.outports, channels):
-                port.get_array()[0:stop_index] = channel[index:]
-                port.get_array()[stop_index:] = 0.0
+                port.get_array()[0:remaining] = channel[index:]
+                port.get_array()[remaining:] = 0.0
             for port, channel in zip(instance._client.inports, instance._channels):
-                channel[index:] = port.get_array()[0:stop_index]
+                channel[index:] = port.get_array()[0:remaining]
         else:
             instance._event.set()
             if instance._auto_deactivate:  # pylint: disable=no-else-raise
-- 
2.43.0


From 3745535c07972ddf2507268b940c15e6fb13375e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:30 +0000
Subject: [PATCH 15/30] fix: send silence after the end of the playback instead
 of repeating the last block

---
 sumpf/_blocks/_jack.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sumpf/_blocks/_jack.py b/sumpf/_blocks/_jack.py
index 20e0799..00707d1 100644
--- a/sumpf/_blocks/_jack.py
+++ b/sumpf/_blocks/_jack.py
@@ -456,6 +456,8 @@ def on_process(frames, instance):
             for port, channel in zip(instance._client.inports, instance._channels):
                 channel[index:] = port.get_array()[0:remaining]
         else:
+            for port in instance._client.outports:
+                port.get_array()[:] = 0.0
             instance._event.set()
             if instance._auto_deactivate:  # pylint: disable=no-else-raise
                 instance._store_connections()
@@ -463,6 +465,9 @@ def on_process(frames, instance):
             else:
                 return
         instance._index = stop_index
+    else:
+        for port in instance._client.outports:  # the buffers still contain the samples of the last block
+            port.get_array()[:] = 0.0
 
 
 def on_sampling_rate_change(sampling_rate: int, pass_through):
-- 
2.43.0


From 3ab7ac38d9a51d876101ab33625dddfe63b4f665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:30 +0000
Subject: [PATCH 16/30] fix: convert the delay of xruns from microseconds to
 seconds

---
 sumpf/_blocks/_jack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_blocks/_jack.py b/sumpf/_blocks/_jack.py
index 00707d1..859234a 100644
--- a/sumpf/_blocks/_jack.py
+++ b/sumpf/_blocks/_jack.py
@@ -486,7 +486,7 @@ def on_xrun(delay: float, instance):
     old = instance._xruns.output()
     xrun = XRun(start=instance._index,
                 stop=instance._index + instance._client.blocksize,
-                delay=delay * 1e6)    # convert the microseconds to seconds
+                delay=delay * 1e-6)    # convert the microseconds to seconds
     instance._xruns.input((old[0] + 1, xrun))
 
 ##############################
-- 
2.43.0


From 146b807a471ee1b7f2d09e0156db54cae08752c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:28 +0000
Subject: [PATCH 17/30] fix: do not modify the impulse response, when cutting
 out a harmonic from it

---
 sumpf/_data/_signals/_sweep.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sumpf/_data/_signals/_sweep.py b/sumpf/_data/_signals/_sweep.py
index d25717b..d233010 100644
--- a/sumpf/_data/_signals/_sweep.py
+++ b/sumpf/_data/_signals/_sweep.py
@@ -225,10 +225,12 @@ class BaseExponentialSweep(Sweep):
                 else:
                     channels = channels[:, 0:length]
         elif remaining_delay is not None:
+            new_channels = sumpf_internal.allocate_array(shape=channels.shape)
             apply_delay(channels=channels,
                         sampling_rate=sampling_rate,
                         delay=remaining_delay,
-                        out=channels)
+                        out=new_channels)
+            channels = new_channels
         # return the impulse response of the harmonic
         h = sumpf_internal.counting_number(harmonic)
         return Signal(channels=channels,
-- 
2.43.0


From 5c7f4da32fb9f58e7418b5be0d1b2b955c48c756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:28 +0000
Subject: [PATCH 18/30] fix: crop the harmonic impulse response to the
 requested length also for many channels

---
 sumpf/_data/_signals/_sweep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_data/_signals/_sweep.py b/sumpf/_data/_signals/_sweep.py
index d233010..2392092 100644
--- a/sumpf/_data/_signals/_sweep.py
+++ b/sumpf/_data/_signals/_sweep.py
@@ -214,7 +214,7 @@ class BaseExponentialSweep(Sweep):
                                 delay=remaining_delay,
                                 out=new_channels)
                 channels = new_channels
-            elif harmonic_length > channel_count:
+            else:
                 if remaining_delay is not None:
                     new_channels = sumpf_internal.allocate_array(shape=(channel_count, length))
                     apply_delay(channels=channels,
-- 
2.43.0


From eecbfc0c8169f3b1e88f391d691fabe18f652a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:28 +0000
Subject: [PATCH 19/30] fix: use the correct frequencies for delaying harmonic
 impulse responses with odd lengths

---
 sumpf/_data/_signals/_sweep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_data/_signals/_sweep.py b/sumpf/_data/_signals/_sweep.py
index 2392092..549c401 100644
--- a/sumpf/_data/_signals/_sweep.py
+++ b/sumpf/_data/_signals/_sweep.py
@@ -72,7 +72,7 @@ def apply_delay(channels, sampling_rate, delay, out):
     """
     if channels.size:
         spectrum = numpy.fft.rfft(channels)
-        f = numpy.linspace(0.0, sampling_rate / 2.0, spectrum.shape[-1])
+        f = numpy.fft.rfftfreq(channels.shape[-1], 1.0 / sampling_rate)
         spectrum *= numpy.exp(2j * math.pi * f * delay)
         signal = numpy.fft.irfft(spectrum, n=channels.shape[-1])
         out[:, 0:signal.shape[1]] = signal[:, 0:out.shape[1]]
-- 
2.43.0


From d7a269be636d927b8a07e0ea8a509fc1c801d66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:39 +0000
Subject: [PATCH 20/30] fix: load NPY files with recent versions of Python

---
 sumpf/_internal/_persistence/_filter_readers.py   | 2 +-
 sumpf/_internal/_persistence/_signal_readers.py   | 2 +-
 sumpf/_internal/_persistence/_spectrum_readers.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sumpf/_internal/_persistence/_filter_readers.py b/sumpf/_internal/_persistence/_filter_readers.py
index 5b590cd..b6d573d 100644
--- a/sumpf/_internal/_persistence/_filter_readers.py
+++ b/sumpf/_internal/_persistence/_filter_readers.py
@@ -298,7 +298,7 @@ class NumpyReader(Reader):
                 interpolations = tuple(data["interpolations"])
                 extrapolations = tuple(data["extrapolations"])
                 labels = tuple(data["labels"])
-        except AttributeError:  # npy files cannot be opened with a context manager
+        except (AttributeError, TypeError):     # npy files cannot be opened with a context manager (since Python 3.11, the error for this is a TypeError)
             array = numpy.load(path).transpose()
             frequencies = array[0].real
             channels = array[1:]
diff --git a/sumpf/_internal/_persistence/_signal_readers.py b/sumpf/_internal/_persistence/_signal_readers.py
index 58c925e..f971011 100644
--- a/sumpf/_internal/_persistence/_signal_readers.py
+++ b/sumpf/_internal/_persistence/_signal_readers.py
@@ -150,7 +150,7 @@ class NumpyReader(Reader):
         try:
             with numpy.load(path) as data:
                 return from_dict(data)
-        except AttributeError:  # npy files cannot be opened with a context manager
+        except (AttributeError, TypeError):     # npy files cannot be opened with a context manager (since Python 3.11, the error for this is a TypeError)
             array = numpy.load(path)
             filename = os.path.split(path)[-1]
             return from_rows(time_column=array[0],
diff --git a/sumpf/_internal/_persistence/_spectrum_readers.py b/sumpf/_internal/_persistence/_spectrum_readers.py
index 8f72e0b..867dd10 100644
--- a/sumpf/_internal/_persistence/_spectrum_readers.py
+++ b/sumpf/_internal/_persistence/_spectrum_readers.py
@@ -177,7 +177,7 @@ class NumpyReader(Reader):
                 channels = allocate_array(shape=data["channels"].shape, dtype=numpy.complex128)
                 channels[:] = data["channels"]
                 return from_dict(channels, data)
-        except AttributeError:  # npy files cannot be opened with a context manager
+        except (AttributeError, TypeError):     # npy files cannot be opened with a context manager (since Python 3.11, the error for this is a TypeError)
             array = numpy.load(path)
             filename = os.path.split(path)[-1]
             return from_rows(frequency_column=array[0].real,
-- 
2.43.0


From 5652d6893723e119afac72c8defd44a1e0f99bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:39 +0000
Subject: [PATCH 21/30] fix: keep the number of channels, when loading empty
 spectrums and spectrograms from JSON files

---
 sumpf/_internal/_persistence/_spectrogram_readers.py | 8 ++++----
 sumpf/_internal/_persistence/_spectrum_readers.py    | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/sumpf/_internal/_persistence/_spectrogram_readers.py b/sumpf/_internal/_persistence/_spectrogram_readers.py
index a204bf7..d84a9c1 100644
--- a/sumpf/_internal/_persistence/_spectrogram_readers.py
+++ b/sumpf/_internal/_persistence/_spectrogram_readers.py
@@ -73,13 +73,13 @@ class JsonReader(Reader):
                                 numpy.multiply(1j, c["imaginary"], out=channels[i])
                                 numpy.add(channels[i], c["real"], out=channels[i])
                         else:
-                            channels = numpy.empty(shape=(1, 0), dtype=numpy.complex128)
+                            channels = numpy.empty(shape=(number_of_channels, number_of_bins, 0), dtype=numpy.complex128)
                     else:
-                        channels = numpy.empty(shape=(1, 0), dtype=numpy.complex128)
+                        channels = numpy.empty(shape=(number_of_channels, 0, 0), dtype=numpy.complex128)
                 else:
-                    channels = numpy.empty(shape=(1, 0), dtype=numpy.complex128)
+                    channels = numpy.empty(shape=(1, 0, 0), dtype=numpy.complex128)
             else:
-                channels = numpy.empty(shape=(1, 0), dtype=numpy.complex128)
+                channels = numpy.empty(shape=(1, 0, 0), dtype=numpy.complex128)
             return from_dict(channels, data)
 
 
diff --git a/sumpf/_internal/_persistence/_spectrum_readers.py b/sumpf/_internal/_persistence/_spectrum_readers.py
index 867dd10..79ec8d1 100644
--- a/sumpf/_internal/_persistence/_spectrum_readers.py
+++ b/sumpf/_internal/_persistence/_spectrum_readers.py
@@ -154,7 +154,7 @@ class JsonReader(Reader):
                             numpy.multiply(1j, c["imaginary"], out=channels[i])
                             numpy.add(channels[i], c["real"], out=channels[i])
                     else:
-                        channels = numpy.empty(shape=(1, 0), dtype=numpy.complex128)
+                        channels = numpy.empty(shape=(number_of_channels, 0), dtype=numpy.complex128)
                 else:
                     channels = numpy.empty(shape=(1, 0), dtype=numpy.complex128)
             else:
-- 
2.43.0


From 855580e3dceae7c744ee3679bc00115ec30d10e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:39 +0000
Subject: [PATCH 22/30] fix: restore the parameters of data sets from NPZ files
 as numbers instead of arrays

---
 sumpf/_internal/_persistence/_signal_readers.py      | 4 ++--
 sumpf/_internal/_persistence/_spectrogram_readers.py | 6 +++---
 sumpf/_internal/_persistence/_spectrum_readers.py    | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/sumpf/_internal/_persistence/_signal_readers.py b/sumpf/_internal/_persistence/_signal_readers.py
index f971011..6da0454 100644
--- a/sumpf/_internal/_persistence/_signal_readers.py
+++ b/sumpf/_internal/_persistence/_signal_readers.py
@@ -40,8 +40,8 @@ def from_dict(dictionary):
     else:
         channels = numpy.empty(shape=(1, 0))
     return sumpf.Signal(channels=channels,
-                        sampling_rate=dictionary.get("sampling_rate", 48000.0),
-                        offset=dictionary.get("offset", 0),
+                        sampling_rate=float(dictionary.get("sampling_rate", 48000.0)),
+                        offset=int(dictionary.get("offset", 0)),
                         labels=dictionary.get("labels", ()))
 
 
diff --git a/sumpf/_internal/_persistence/_spectrogram_readers.py b/sumpf/_internal/_persistence/_spectrogram_readers.py
index d84a9c1..9efb1eb 100644
--- a/sumpf/_internal/_persistence/_spectrogram_readers.py
+++ b/sumpf/_internal/_persistence/_spectrogram_readers.py
@@ -30,9 +30,9 @@ readers = {}    # maps file extensions to reader instances, that can be used for
 def from_dict(channels, dictionary):
     """Deserializes a spectrogram from a dictionary."""
     return sumpf.Spectrogram(channels=channels,
-                             resolution=dictionary.get("resolution", 1.0),
-                             sampling_rate=dictionary.get("sampling_rate", 48000.0),
-                             offset=dictionary.get("offset", 0),
+                             resolution=float(dictionary.get("resolution", 1.0)),
+                             sampling_rate=float(dictionary.get("sampling_rate", 48000.0)),
+                             offset=int(dictionary.get("offset", 0)),
                              labels=dictionary.get("labels", ()))
 
 
diff --git a/sumpf/_internal/_persistence/_spectrum_readers.py b/sumpf/_internal/_persistence/_spectrum_readers.py
index 79ec8d1..6f286b8 100644
--- a/sumpf/_internal/_persistence/_spectrum_readers.py
+++ b/sumpf/_internal/_persistence/_spectrum_readers.py
@@ -32,7 +32,7 @@ readers = {}    # maps file extensions to reader instances, that can be used for
 def from_dict(channels, dictionary):
     """Deserializes a spectrum from a dictionary."""
     return sumpf.Spectrum(channels=channels,
-                          resolution=dictionary.get("resolution", 1.0),
+                          resolution=float(dictionary.get("resolution", 1.0)),
                           labels=dictionary.get("labels", ()))
 
 
-- 
2.43.0


From fad90914defa85962ab2ccf6e45c188d50c11c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:39 +0000
Subject: [PATCH 23/30] fix: save data sets with single precision or integer
 samples in JSON files

---
 sumpf/_internal/_persistence/_signal_writers.py      | 2 +-
 sumpf/_internal/_persistence/_spectrogram_writers.py | 4 ++--
 sumpf/_internal/_persistence/_spectrum_writers.py    | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/sumpf/_internal/_persistence/_signal_writers.py b/sumpf/_internal/_persistence/_signal_writers.py
index b75f1ba..ff58510 100644
--- a/sumpf/_internal/_persistence/_signal_writers.py
+++ b/sumpf/_internal/_persistence/_signal_writers.py
@@ -121,7 +121,7 @@ writers[Formats.AUTO] = AutoWriter(file_extension_mapping=file_extension_mapping
 
 def as_dict(signal):
     """Serializes a signal to a dictionary."""
-    return {"channels": [tuple(c) for c in signal.channels()],
+    return {"channels": signal.channels().tolist(),
             "sampling_rate": signal.sampling_rate(),
             "offset": signal.offset(),
             "labels": signal.labels()}
diff --git a/sumpf/_internal/_persistence/_spectrogram_writers.py b/sumpf/_internal/_persistence/_spectrogram_writers.py
index d3ef853..68369ea 100644
--- a/sumpf/_internal/_persistence/_spectrogram_writers.py
+++ b/sumpf/_internal/_persistence/_spectrogram_writers.py
@@ -81,8 +81,8 @@ def as_dict(spectrogram):
     """Serializes a spectrogram to a dictionary."""
     channels = []
     for c in spectrogram.channels():
-        channel = {"real": [tuple(s) for s in numpy.real(c)],
-                   "imaginary": [tuple(s) for s in numpy.imag(c)]}
+        channel = {"real": numpy.real(c).tolist(),
+                   "imaginary": numpy.imag(c).tolist()}
         channels.append(channel)
     return {"channels": channels,
             "resolution": spectrogram.resolution(),
diff --git a/sumpf/_internal/_persistence/_spectrum_writers.py b/sumpf/_internal/_persistence/_spectrum_writers.py
index 7587716..0296f45 100644
--- a/sumpf/_internal/_persistence/_spectrum_writers.py
+++ b/sumpf/_internal/_persistence/_spectrum_writers.py
@@ -84,8 +84,8 @@ writers[Formats.AUTO] = AutoWriter(file_extension_mapping=file_extension_mapping
 
 def as_dict(spectrum):
     """Serializes a spectrum to a dictionary."""
-    return {"channels": [{"real": tuple(numpy.real(c)),
-                          "imaginary": tuple(numpy.imag(c))}
+    return {"channels": [{"real": numpy.real(c).tolist(),
+                          "imaginary": numpy.imag(c).tolist()}
                          for c in spectrum.channels()],
             "resolution": spectrum.resolution(),
             "labels": spectrum.labels()}
-- 
2.43.0


From f065508e59fa1ad4efa7889732911c130c608828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:39 +0000
Subject: [PATCH 24/30] fix: save filters with complex parameters in JSON files

---
 .../_internal/_persistence/_filter_readers.py  | 15 ++++++++++-----
 .../_internal/_persistence/_filter_writers.py  | 18 +++++++++++++++++-
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/sumpf/_internal/_persistence/_filter_readers.py b/sumpf/_internal/_persistence/_filter_readers.py
index b6d573d..71f2572 100644
--- a/sumpf/_internal/_persistence/_filter_readers.py
+++ b/sumpf/_internal/_persistence/_filter_readers.py
@@ -65,11 +65,14 @@ def term_from_dict(dictionary):
                 elif {"real", "imaginary"} == parameter.keys():
                     real = parameter["real"]
                     imaginary = parameter["imaginary"]
-                    a = numpy.empty(shape=numpy.shape(real), dtype=numpy.complex128)
-                    a[:] = imaginary
-                    a *= 1j
-                    a += real
-                    parameters[name] = a
+                    if isinstance(real, collections.abc.Iterable):
+                        a = numpy.empty(shape=numpy.shape(real), dtype=numpy.complex128)
+                        a[:] = imaginary
+                        a *= 1j
+                        a += real
+                        parameters[name] = a
+                    else:
+                        parameters[name] = complex(real, imaginary)
                 else:
                     parameters[name] = parameter
             elif isinstance(parameter, collections.abc.Iterable):
@@ -77,6 +80,8 @@ def term_from_dict(dictionary):
                 for p in parameter:
                     if isinstance(p, collections.abc.Mapping) and "type" in p:
                         values.append(term_from_dict(p))
+                    elif isinstance(p, collections.abc.Mapping):
+                        values.append(complex(p["real"], p["imaginary"]))
                     else:
                         values.append(p)
                 parameters[name] = values
diff --git a/sumpf/_internal/_persistence/_filter_writers.py b/sumpf/_internal/_persistence/_filter_writers.py
index c9e9ae9..94d83dd 100644
--- a/sumpf/_internal/_persistence/_filter_writers.py
+++ b/sumpf/_internal/_persistence/_filter_writers.py
@@ -439,7 +439,23 @@ class JsonWriter(Writer):
         dictionary = {"transfer_functions": [tf.as_dict() for tf in filter_.transfer_functions()],
                       "labels": filter_.labels()}
         with open(path, "w") as f:
-            json.dump(dictionary, f, indent=4)
+            json.dump(dictionary, f, indent=4, default=self.__encode_number)
+
+    def __encode_number(self, number):  # pylint: disable=no-self-use; this function only makes sense in the context of the JsonWriter class
+        """A helper method for serializing the parameters of terms, that are not
+        supported by the :mod:`json` module.
+
+        :param number: a complex number or a number with a :mod:`numpy` data type
+        :returns: a serializable representation of the number
+        """
+        if isinstance(number, numpy.generic):
+            number = number.item()
+        if isinstance(number, complex):
+            return {"real": number.real, "imaginary": number.imag}
+        elif isinstance(number, (float, int)):
+            return number
+        else:
+            raise TypeError(f"Object of type {number.__class__.__name__} is not JSON serializable")
 
 
 class NumpyNpyWriter(TableWriter, Writer):
-- 
2.43.0


From 3289700604142fa5a374f9dbb9ce0cc0617bec8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:39 +0000
Subject: [PATCH 25/30] fix: save and load bands with integer frequencies or
 values in tables

---
 sumpf/_internal/_persistence/_filter_readers.py |  2 +-
 sumpf/_internal/_persistence/_filter_writers.py | 11 ++++++-----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/sumpf/_internal/_persistence/_filter_readers.py b/sumpf/_internal/_persistence/_filter_readers.py
index 71f2572..7af427d 100644
--- a/sumpf/_internal/_persistence/_filter_readers.py
+++ b/sumpf/_internal/_persistence/_filter_readers.py
@@ -200,7 +200,7 @@ class TableReader(Reader):
         :returns: a :class:`~sumpf.Filter` instance
         """
         # pylint: disable=too-many-locals,too-many-nested-blocks,too-many-branches; disable pylint's complexity warnings
-        unsigned = "(?:(?:\d+.?\d*e[+-]?\d+)|(?:\d+\.?\d*)|(?:\.\d+))"
+        unsigned = "(?:(?:\d+\.?\d*e[+-]?\d+)|(?:\d+\.?\d*)|(?:\.\d+))"
         real = f"(?:-?{unsigned})"
         complex_parentheses = f"(?:\({real} *[+-] *{unsigned}[jJiI])\)"
         complex_ = f"(?:{real}[+-]{unsigned}[jJiI])"
diff --git a/sumpf/_internal/_persistence/_filter_writers.py b/sumpf/_internal/_persistence/_filter_writers.py
index 94d83dd..d967768 100644
--- a/sumpf/_internal/_persistence/_filter_writers.py
+++ b/sumpf/_internal/_persistence/_filter_writers.py
@@ -19,6 +19,7 @@
 import csv
 import enum
 import json
+import numbers
 import pickle
 import numpy
 import sumpf._internal as sumpf_internal
@@ -221,7 +222,7 @@ class TextTabIWriter(TextTableWriter, Writer):
         """
         if number is None:
             return "nan"
-        elif isinstance(number, (float, int)):
+        elif isinstance(number, numbers.Real):
             return repr(number)
         else:
             imag = number.imag
@@ -257,7 +258,7 @@ class TextTabJWriter(TextTableWriter, Writer):
         """
         if number is None:
             return "nan"
-        elif isinstance(number, (float, int)):
+        elif isinstance(number, numbers.Real):
             return repr(number)
         else:
             imag = number.imag
@@ -293,7 +294,7 @@ class TextPipeIWriter(TextTableWriter, Writer):
         """
         if number is None:
             return "nan"
-        elif isinstance(number, (float, int)):
+        elif isinstance(number, numbers.Real):
             return repr(number)
         else:
             imag = number.imag
@@ -329,7 +330,7 @@ class TextPipeJWriter(TextTableWriter, Writer):
         """
         if number is None:
             return "nan"
-        elif isinstance(number, (float, int)):
+        elif isinstance(number, numbers.Real):
             return repr(number)
         else:
             imag = number.imag
@@ -366,7 +367,7 @@ class TextGnuplotWriter(TextTableWriter, Writer):
         """
         if number is None:
             return "{nan, nan}"
-        elif isinstance(number, (float, int)):
+        elif isinstance(number, numbers.Real):
             return repr(number)
         else:
             return f"{{{number.real!r},{number.imag!r}}}"
-- 
2.43.0


From 6df28198eb4117fde203b78bccfb927679370df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:39 +0000
Subject: [PATCH 26/30] fix: do not load compressed AIFF files with the aifc
 module, that would return garbage

---
 sumpf/_internal/_persistence/_signal_readers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sumpf/_internal/_persistence/_signal_readers.py b/sumpf/_internal/_persistence/_signal_readers.py
index 6da0454..d8d7b4a 100644
--- a/sumpf/_internal/_persistence/_signal_readers.py
+++ b/sumpf/_internal/_persistence/_signal_readers.py
@@ -207,6 +207,8 @@ class StandardLibraryReader:
         path = str(path)  # the wave and aifc modules cannot deal with pathlib objects (at least not in Python 3.9)
         chunk_size = 2048
         with self.__module.open(path, mode="rb") as f:
+            if f.getcomptype() not in ("NONE", b"NONE"):
+                raise ValueError("compressed samples cannot be read with this reader")
             number_of_channels = f.getnchannels()
             number_of_samples = f.getnframes()
             sample_mask = self.__sample_width_mapping[f.getsampwidth()]
-- 
2.43.0


From f1e082b690755497b16ea27b39564e9585843462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:14 +0000
Subject: [PATCH 27/30] fix: weight the outermost samples of the integration
 interval of level_vs_time by the covered fraction

The samples at both ends of the interval are covered by it with the fraction, that
is left of their duration, and not with its complement. This made the level of a
constant signal differ from its value, if the integration time was not an integer
number of samples.
---
 sumpf/_data/_signals/_signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_data/_signals/_signal.py b/sumpf/_data/_signals/_signal.py
index 6cb1e60..0f600c9 100644
--- a/sumpf/_data/_signals/_signal.py
+++ b/sumpf/_data/_signals/_signal.py
@@ -619,7 +619,7 @@ class Signal(SampledData):
             remainder = half_window_length - half_window_length_float
             window = numpy.full(1 + 2 * half_window_length, 1.0 / window_length)
             if remainder:
-                corner = remainder / window_length
+                corner = (1.0 - remainder) / window_length
                 window[0] = corner
                 window[-1] = corner
             square = numpy.square(self._channels)
-- 
2.43.0


From 7a06ae0bd35f5140ee0a7e3c29c88acc59f33100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:14 +0000
Subject: [PATCH 28/30] fix: treat a level_vs_time as constant only, if every
 integration interval covers the whole signal

The rounded half of the interval has been compared with the length, so that an
interval was extended to the whole signal, although it covers the farthest sample
only partially.
---
 sumpf/_data/_signals/_signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_data/_signals/_signal.py b/sumpf/_data/_signals/_signal.py
index 0f600c9..db7e336 100644
--- a/sumpf/_data/_signals/_signal.py
+++ b/sumpf/_data/_signals/_signal.py
@@ -606,7 +606,7 @@ class Signal(SampledData):
         half_window_length_float = (window_length - 1.0) / 2.0
         half_window_length = int(math.ceil(half_window_length_float))
         channels = sumpf_internal.allocate_array(shape=self._channels.shape)
-        if 1 + half_window_length >= self._length:
+        if 1 + half_window_length_float >= self._length:
             # if half the integration time is longer than the whole signal, the level is constant over time
             if pad:
                 levels = numpy.linalg.norm(self._channels, axis=1) / math.sqrt(window_length)
-- 
2.43.0


From af586a5ff7e4f9f651259266ae7c12eeade85be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:14 +0000
Subject: [PATCH 29/30] fix: compute the compensation of level_vs_time for the
 sample in the middle of the signal

If the length of the signal is odd and the same as that of the integration window,
the compensation factor for the sample in the middle was read from uninitialized
memory. The integration interval around this sample is not cropped.
---
 sumpf/_data/_signals/_signal.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/sumpf/_data/_signals/_signal.py b/sumpf/_data/_signals/_signal.py
index db7e336..8313a71 100644
--- a/sumpf/_data/_signals/_signal.py
+++ b/sumpf/_data/_signals/_signal.py
@@ -644,11 +644,9 @@ class Signal(SampledData):
                 if not pad:
                     # compute a compensation for the start and the end of the level signal, where the convolution has assumed a zero padding
                     correction = numpy.empty(self._length)
-                    correction[0:half_window_length] = numpy.linspace(1 + half_window_length_float,
-                                                                      half_window_length + half_window_length_float,
-                                                                      half_window_length)
                     half_correction = correction[0:(self._length + 1) // 2]
-                    numpy.clip(half_correction, a_min=0, a_max=self._length, out=half_correction)
+                    half_correction[:] = numpy.arange(1, len(half_correction) + 1) + half_window_length_float
+                    numpy.clip(half_correction, a_min=0, a_max=min(self._length, window_length), out=half_correction)
                     numpy.divide(window_length, half_correction, out=half_correction)
                     numpy.sqrt(half_correction, out=half_correction)
                     correction[self._length - 1:(self._length + 1) // 2 - 1:-1] = correction[0:self._length // 2]   # copy the first half of the correction to the second half and reverse it
-- 
2.43.0


From 950ca80aaa7173bac69de6044719d6cf037d8ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:56 +0000
Subject: [PATCH 30/30] fix: do not count the bin of a spectrum of length one
 twice, when computing its level

The first and the last bin of such a spectrum are the same, so its level was too
high by a factor of the square root of two, compared to the level of its inverse
transform.
---
 sumpf/_data/_spectrums/_spectrum.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sumpf/_data/_spectrums/_spectrum.py b/sumpf/_data/_spectrums/_spectrum.py
index 5a64aeb..95ebdaf 100644
--- a/sumpf/_data/_spectrums/_spectrum.py
+++ b/sumpf/_data/_spectrums/_spectrum.py
@@ -379,6 +379,8 @@ class Spectrum(SampledData):
         signal_length = max(1, (self._length - 1) * 2)
         abs_ = numpy.abs(self._channels)
         square = numpy.square(abs_, out=abs_)
+        if self._length == 1:   # the only bin must not be counted as both the first and the last one
+            square = numpy.pad(square, ((0, 0), (0, 1)), mode="constant")
         if single_value:
             sum_ = math.fsum(math.fsum((math.fsum(c[1:-1]) * 2, c[0], c[-1])) for c in square)
             return math.sqrt(sum_ / len(self)) / signal_length
-- 
2.43.0

