From 28cc1cb34f0439a0f3051b1abba27d3137e1a765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:00 +0000
Subject: [PATCH 01/30] fix: dipole_k uses the calculated ab, correct for
 magnetic receivers

---
 empymod/model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/empymod/model.py b/empymod/model.py
index 81c0b17..b4f4729 100644
--- a/empymod/model.py
+++ b/empymod/model.py
@@ -1439,7 +1439,7 @@ def dipole_k(src, rec, depth, res, freq, wavenumber, ab=11, aniso=None,
 
     # Get angle-dependent factor
     off, angle = get_off_ang(src, rec, nsrc, nrec, verb)
-    ang_fact = kernel.angle_factor(angle, ab, msrc, mrec)
+    ang_fact = kernel.angle_factor(angle, ab_calc, msrc, mrec)
 
     # Get layer number in which src and rec reside (lsrc/lrec)
     lsrc, zsrc = get_layer_nr(src, depth)
@@ -1473,7 +1473,8 @@ def dipole_k(src, rec, depth, res, freq, wavenumber, ab=11, aniso=None,
         # Collect output
         if J1 is not None:
             PJ1 += ang_fact[:, np.newaxis]*J1
-            if ab in [11, 12, 21, 22, 14, 24, 15, 25]:  # Because of J2
+            # Because of J2
+            if ab_calc in [11, 12, 21, 22, 14, 24, 15, 25]:
                 # J2(kr) = 2/(kr)*J1(kr) - J0(kr)
                 PJ1 /= off[:, None]
         if J0 is not None:
-- 
2.43.0


From c73845941aeddca8a0e3e16c281080e74f4e2b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:00 +0000
Subject: [PATCH 02/30] fix: gpr applies no gain if gain is None, as documented

---
 empymod/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/empymod/model.py b/empymod/model.py
index b4f4729..6e235d2 100644
--- a/empymod/model.py
+++ b/empymod/model.py
@@ -1281,7 +1281,8 @@ def gpr(src, rec, depth, res, freqtime, cf, gain=None, ab=11, aniso=None,
     conv_warning(conv, ftarg, 'Fourier', verb)
 
     # Apply gain; make pure real
-    EM *= (1 + np.abs((time*10**9)**gain))[:, None]
+    if gain is not None:
+        EM *= (1 + np.abs((time*10**9)**gain))[:, None]
     EM = EM.real
 
     # Reshape for number of sources
-- 
2.43.0


From 59e7a54ffb66da50b6eb78f53c1f8cb4ef018412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:00 +0000
Subject: [PATCH 03/30] fix: lagged/splined Hankel DLF without angle factors

---
 empymod/transform.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/empymod/transform.py b/empymod/transform.py
index 4235f51..62d1ac8 100644
--- a/empymod/transform.py
+++ b/empymod/transform.py
@@ -876,6 +876,7 @@ def dlf(signal, points, out_pts, filt, pts_per_dec, kind=None, ang_fact=None,
         # Check if all angles are the same
         if ang_fact is None:
             has_angle_factors = False
+            one_angle = True
         else:
             one_angle = ang_fact.min() == ang_fact.max()
             if one_angle:
-- 
2.43.0


From 65c25c32bf3265ceb8930c0330f0ad241e8d1cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:00 +0000
Subject: [PATCH 04/30] fix: FFTLog cosine transform must not change its input

---
 empymod/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/empymod/transform.py b/empymod/transform.py
index 62d1ac8..7638764 100644
--- a/empymod/transform.py
+++ b/empymod/transform.py
@@ -699,7 +699,7 @@ def fourier_fftlog(fEM, time, freq, ftarg):
     if mu > 0:  # Sine
         a = -fEM.imag
     else:       # Cosine
-        a = fEM.real
+        a = fEM.real.copy()  # Copy, as it is changed in-place.
     n = a.size
 
     # 1. Amplitude and Argument of kr^(-2 i y) U_mu(q + 2 i y)
-- 
2.43.0


From 297c4c7b8fe4659823dd5dfbefd66f45cbc5c6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:00 +0000
Subject: [PATCH 05/30] fix: last element of the biased FFTLog for even n

---
 empymod/transform.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/empymod/transform.py b/empymod/transform.py
index 7638764..1efe7eb 100644
--- a/empymod/transform.py
+++ b/empymod/transform.py
@@ -776,8 +776,7 @@ def fourier_fftlog(fEM, time, freq, ftarg):
 
         # problematical last element, for even n
         if np.mod(n, 2) == 0:
-            m = int(n/2)-3
-            ar = argcos[m-1]*argamp[m-1]
+            ar = argcos[-1]*argamp[-1]
             a[-1] *= ar
 
     # 4.c normal FFT back
-- 
2.43.0


From ea19ae4fdbaaaaad0835c3c2cc61af4a0a816b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:00 +0000
Subject: [PATCH 06/30] fix: check_hankel rejects method names that are a part
 of 'quad'

---
 empymod/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/empymod/utils.py b/empymod/utils.py
index 74cc87e..f41dcc9 100644
--- a/empymod/utils.py
+++ b/empymod/utils.py
@@ -657,7 +657,7 @@ def check_hankel(ht, htarg, verb):
             if targ['limit']:
                 print(f"     > limit (quad):  {targ['limit']}")
 
-    elif ht in 'quad':  # QUAD
+    elif ht == 'quad':  # QUAD
 
         # rtol : 1e-12
         targ['rtol'] = _check_var(
-- 
2.43.0


From 2e04ef18250ee144accd4537c040acfa6f936e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:08 +0000
Subject: [PATCH 07/30] fix: FFTLog for an odd number of frequencies (highest
 component)

---
 empymod/transform.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/empymod/transform.py b/empymod/transform.py
index 1efe7eb..4b95342 100644
--- a/empymod/transform.py
+++ b/empymod/transform.py
@@ -750,13 +750,13 @@ def fourier_fftlog(fEM, time, freq, ftarg):
     a = sp.fftpack.rfft(a)
 
     # 4.b
-    m = np.arange(1, n//2, dtype=np.int64)  # index variable
+    m = np.arange(1, (n+1)//2, dtype=np.int64)  # index variable
     if q == 0:  # unbiased (q = 0) transform
         # multiply by (kr)^[- i 2 m pi/(n dlnr)] U_mu[i 2 m pi/(n dlnr)]
         ar = a[2*m-1]
         ai = a[2*m]
-        a[2*m-1] = ar*argcos[:-1] - ai*argsin[:-1]
-        a[2*m] = ar*argsin[:-1] + ai*argcos[:-1]
+        a[2*m-1] = ar*argcos[:m.size] - ai*argsin[:m.size]
+        a[2*m] = ar*argsin[:m.size] + ai*argcos[:m.size]
         # problematical last element, for even n
         if np.mod(n, 2) == 0:
             ar = argcos[-1]
@@ -767,12 +767,12 @@ def fourier_fftlog(fEM, time, freq, ftarg):
         # phase
         ar = a[2*m-1]
         ai = a[2*m]
-        a[2*m-1] = ar*argcos[:-1] - ai*argsin[:-1]
-        a[2*m] = ar*argsin[:-1] + ai*argcos[:-1]
+        a[2*m-1] = ar*argcos[:m.size] - ai*argsin[:m.size]
+        a[2*m] = ar*argsin[:m.size] + ai*argcos[:m.size]
 
         a[0] *= argcos1
-        a[2*m-1] *= argamp[:-1]
-        a[2*m] *= argamp[:-1]
+        a[2*m-1] *= argamp[:m.size]
+        a[2*m] *= argamp[:m.size]
 
         # problematical last element, for even n
         if np.mod(n, 2) == 0:
-- 
2.43.0


From 7569fddb8c3729aaa996d01856fc0733cd3a2134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:07 +0000
Subject: [PATCH 08/30] fix: fdesign.design must not change the provided
 transform pairs fC

---
 empymod/scripts/fdesign.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/empymod/scripts/fdesign.py b/empymod/scripts/fdesign.py
index 8738c5f..66d9ed7 100644
--- a/empymod/scripts/fdesign.py
+++ b/empymod/scripts/fdesign.py
@@ -233,7 +233,7 @@ Implemented Fourier transforms
 import os
 import numpy as np
 import scipy as sp
-from copy import deepcopy as dc
+from copy import copy, deepcopy as dc
 
 from empymod.filters import DigitalFilter
 from empymod.model import dipole, dipole_k
@@ -389,7 +389,7 @@ def design(n, spacing, shift, fI, fC=False, r=None, r_def=(1, 1, 2), reim=None,
     if fI[0].name == 'j2':
         raise ValueError("j2 (jointly j0 and j1) is only implemented for "
                          "fC, not for fI!")
-    fC = check_f(fC)
+    fC = [copy(f) for f in check_f(fC)]  # Copy, as rhs is replaced below.
 
     # Check default input values
     if finish and not callable(finish):
-- 
2.43.0


From 280547904f4127cc00648f95bc48c579809de5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:07 +0000
Subject: [PATCH 09/30] fix: fdesign.load_filter with full output of a single
 shift value

---
 empymod/scripts/fdesign.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/empymod/scripts/fdesign.py b/empymod/scripts/fdesign.py
index 66d9ed7..92872c2 100644
--- a/empymod/scripts/fdesign.py
+++ b/empymod/scripts/fdesign.py
@@ -557,7 +557,7 @@ def load_filter(name, full=False, path='filters', filter_coeff=None):
                                     '_full.txt' + suffix)
 
             # Read data
-            out = np.loadtxt(fullfile)
+            out = np.loadtxt(fullfile, ndmin=2)
 
         except IOError:
             return filt
-- 
2.43.0


From 38ec6e3421fdd52b3e3b81a155bf26c1a12b4b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:07 +0000
Subject: [PATCH 10/30] fix: tmtemod correction term relative to top of source
 layer

---
 empymod/scripts/tmtemod.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/empymod/scripts/tmtemod.py b/empymod/scripts/tmtemod.py
index 1c9a3b6..1d81c16 100644
--- a/empymod/scripts/tmtemod.py
+++ b/empymod/scripts/tmtemod.py
@@ -537,7 +537,7 @@ def dipole(src, rec, depth, res, freqtime, aniso=None, eperm=None, mperm=None,
 
     PTE[0] += npfct*Rp*Rm*np.exp(-lgam*(2*ds - zrec + zsrc))
     PTE[1] += npfct*Rp*np.exp(-lgam*(2*ddepth[lrec+1] - zrec - zsrc))
-    PTE[2] += npfct*Rm*np.exp(-lgam*(zrec + zsrc))
+    PTE[2] += npfct*Rm*np.exp(-lgam*(zrec + zsrc - 2*ddepth[lsrc]))
     PTE[3] += npfct*Rp*Rm*np.exp(-lgam*(2*ds + zrec - zsrc))
 
     # TM modes TM[uu, ud, du, dd]
@@ -545,7 +545,7 @@ def dipole(src, rec, depth, res, freqtime, aniso=None, eperm=None, mperm=None,
 
     PTM[0] -= npfct*Rp*Rm*np.exp(-lgam*(2*ds - zrec + zsrc))
     PTM[1] += npfct*Rp*np.exp(-lgam*(2*ddepth[lrec+1] - zrec - zsrc))
-    PTM[2] += npfct*Rm*np.exp(-lgam*(zrec + zsrc))
+    PTM[2] += npfct*Rm*np.exp(-lgam*(zrec + zsrc - 2*ddepth[lsrc]))
     PTM[3] -= npfct*Rp*Rm*np.exp(-lgam*(2*ds + zrec - zsrc))
 
     # 3.5 Reshape for number of sources
-- 
2.43.0


From c9bc41407a4cbbd2243d7c185767e5c6224fad59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:07 +0000
Subject: [PATCH 11/30] fix: main() considers the provided args, not sys.argv

---
 empymod/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/empymod/__main__.py b/empymod/__main__.py
index 3a60842..d3d4239 100644
--- a/empymod/__main__.py
+++ b/empymod/__main__.py
@@ -90,7 +90,7 @@ def main(args=None):
         print(utils.Report())
 
     # Info if not at list routine and input provided.
-    elif len(sys.argv) < 3:
+    elif len(args) < 2:
         print(f"{parser.description}\n=> Type `empymod --help` for "
               f"more info (empymod v{utils.__version__}).")
 
-- 
2.43.0


From be1db8f8a5e55d883e34510d9fd6f0b2d448c7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:07 +0000
Subject: [PATCH 12/30] fix: negative source strength is applied, as documented

---
 empymod/model.py | 2 +-
 empymod/utils.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/empymod/model.py b/empymod/model.py
index 6e235d2..6b60356 100644
--- a/empymod/model.py
+++ b/empymod/model.py
@@ -606,7 +606,7 @@ def bipole(src, rec, depth, res, freqtime, signal=None, aniso=None,
 
             # Scale signal for src-strength and src/rec-lengths
             src_rec_w = 1
-            if strength > 0:
+            if strength != 0:
                 src_rec_w *= np.repeat(src_w, irec)
                 src_rec_w *= np.tile(rec_w, isrc)
             sEM *= src_rec_w
diff --git a/empymod/utils.py b/empymod/utils.py
index f41dcc9..84678e7 100644
--- a/empymod/utils.py
+++ b/empymod/utils.py
@@ -1859,9 +1859,9 @@ def get_azm_dip(inp, iz, ninpz, intpts, isdipole, strength, name, verb):
         # If dipole, g_w are ones
         g_w = np.ones(tinp[0].size)
 
-        # If dipole, inp_w are ones, unless strength > 0
+        # If dipole, inp_w are ones, unless strength != 0
         inp_w = np.ones(tinp[0].size)
-        if name == 'src' and strength > 0:
+        if name == 'src' and strength != 0:
             inp_w *= strength
 
         # Collect output
@@ -1918,7 +1918,7 @@ def get_azm_dip(inp, iz, ninpz, intpts, isdipole, strength, name, verb):
 
         # Scaling
         inp_w = np.ones(dl.size)
-        if strength > 0:  # If strength > 0, we scale it by dipole-length
+        if strength != 0:  # If strength != 0, we scale it by dipole-length
             inp_w *= dl
             if name == 'src':  # If source, additionally by source strength
                 inp_w *= strength
-- 
2.43.0


From 7c54ae6d414590ce7498c6ca6e23fa167be46659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:07 +0000
Subject: [PATCH 13/30] fix: ip_and_q uses the co-planar primary field for any
 valid ab

---
 empymod/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/empymod/model.py b/empymod/model.py
index 6b60356..0230bd0 100644
--- a/empymod/model.py
+++ b/empymod/model.py
@@ -1548,7 +1548,8 @@ def ip_and_q(**kwargs):
     """
 
     # Ensure source and receiver are magnetic.
-    if int(kwargs.get('ab', 11)) not in [44, 45, 46, 54, 55, 56, 64, 65, 66]:
+    kwargs['ab'] = int(kwargs.get('ab', 11))
+    if kwargs['ab'] not in [44, 45, 46, 54, 55, 56, 64, 65, 66]:
         raise ValueError("Only implemented for magnetic sources/receivers.")
 
     # Ensure signal is None.
-- 
2.43.0


From 4b25a8b9ec7943aab7d6ca164db281ce55a2690f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:07 +0000
Subject: [PATCH 14/30] fix: save_input writes valid JSON for an empty dict

---
 empymod/io.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/empymod/io.py b/empymod/io.py
index 1a73d2b..ffc1456 100644
--- a/empymod/io.py
+++ b/empymod/io.py
@@ -64,11 +64,11 @@ def save_input(fname, data, **kwargs):
         # For brevity yet readability, we create our custom formatted json,
         # where each model parameter is on a new line.
         out = "{"
-        for k, v in data.items():
-            out += "\n  "
-            out += json.dumps({k: v}, cls=_ComplexNumPyEncoder)[1:-1]
-            out += ","
-        out = out[:-1] + "\n}"
+        out += ",".join(
+            "\n  " + json.dumps({k: v}, cls=_ComplexNumPyEncoder)[1:-1]
+            for k, v in data.items()
+        )
+        out += "\n}"
 
         # Write it to disk.
         with open(fname, "w") as f:
-- 
2.43.0


From 3e2845532d83cbb4f08e49224986694ad3e4c1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:07 +0000
Subject: [PATCH 15/30] fix: load_data restores non-finite complex values from
 JSON

---
 empymod/io.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/empymod/io.py b/empymod/io.py
index ffc1456..9f99811 100644
--- a/empymod/io.py
+++ b/empymod/io.py
@@ -244,7 +244,10 @@ def load_data(fname):
         # If complex, re-create complex data.
         data = np.array(inpdat['data'])
         if 'complex' in inpdat['dtype']:
-            data = data[0, ...] + 1j*data[1, ...]
+            real, imag = data
+            data = np.empty(real.shape, dtype=np.complex128)
+            data.real = real
+            data.imag = imag
 
     # Unknown, throw error
     else:
-- 
2.43.0


From 142dcea55a0df6042385f915498862815db917ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:07 +0000
Subject: [PATCH 16/30] fix: save_data with multi-line info yields a loadable
 text file

---
 empymod/io.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/empymod/io.py b/empymod/io.py
index 9f99811..9f57f2b 100644
--- a/empymod/io.py
+++ b/empymod/io.py
@@ -175,6 +175,7 @@ def save_data(fname, data, **kwargs):
 
             # Write meta data.
             for k, v in meta.items():
+                v = ' '.join(v.splitlines()) if v else ''  # One line only.
                 f.write(f"# {k}:{' '+v if v else ''}\n")
 
             # write data.
-- 
2.43.0


From 3c5c8dda8707fd3d2276af1d0eb74fd66b66ee31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:07 +0000
Subject: [PATCH 17/30] fix: signal of a waveform dict is validated

---
 empymod/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/empymod/utils.py b/empymod/utils.py
index 84678e7..ff99447 100644
--- a/empymod/utils.py
+++ b/empymod/utils.py
@@ -1393,6 +1393,11 @@ def check_waveform(time, nodes, amplitudes, verb, signal=0, nquad=3):
     """
     global _min_time
 
+    # Check signal
+    if int(signal) not in [-1, 0, 1]:
+        raise ValueError("Waveform <signal> must be one of: [-1, 0, 1]; "
+                         f"<signal> provided: {signal}")
+
     # Waveform segments.
     dt = np.diff(nodes)
     dI = np.diff(amplitudes)
-- 
2.43.0


From 8c8270119e2ed58176d25f6b2ef26503066dfc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:57 +0000
Subject: [PATCH 18/30] fix: horizontal magnetic-magnetic full-space field
 (Laplace, zero permittivity)

---
 empymod/kernel.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/empymod/kernel.py b/empymod/kernel.py
index df13c48..9ec1854 100644
--- a/empymod/kernel.py
+++ b/empymod/kernel.py
@@ -831,11 +831,12 @@ def fullspace(off, angle, zsrc, zrec, etaH, etaV, zetaH, zetaV, ab, msrc,
 
         term3 = -zetaH[:, None]*coo1*coo2/(off*off)*(uGamTM - uGamTE)
 
-        term4 = -np.sqrt(zetaH)[:, None]*(2*coo1*coo2/(off*off) - delta)
-        if np.any(zetaH.imag < 0):  # We need the sqrt where Im > 0.
-            term4 *= -1     # This if-statement corrects for it.
+        # sqrt(zetaH/etaH), in a form that is also valid for magnetic-magnetic
+        # responses, where zetaH and etaH have a negative (real) part.
+        term4 = -(zetaH/np.sqrt(zetaH*etaH))[:, None]
+        term4 = term4*(2*coo1*coo2/(off*off) - delta)
         term4 *= np.exp(-lGamTM[:, None]*RTM) - np.exp(-lGamTE[:, None]*RTE)
-        term4 /= 4*np.pi*np.sqrt(etaH)[:, None]*off*off
+        term4 /= 4*np.pi*off*off
 
         gin = term1 + term2 + term3 + term4
 
-- 
2.43.0


From 395427d4e3ed128f2da1db2e547c82c4f44c4d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:23 +0000
Subject: [PATCH 19/30] fix: analytical half-space with frequencies provided as
 list

---
 empymod/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/empymod/model.py b/empymod/model.py
index 0230bd0..de5f126 100644
--- a/empymod/model.py
+++ b/empymod/model.py
@@ -1157,7 +1157,7 @@ def analytical(src, rec, res, freqtime, solution='fs', signal=None, ab=11,
     if solution[0] == 'd':
         # To make it work with Laplace domain calculations.
         if signal is None:
-            if np.any(freqtime > 0):
+            if np.any(np.asarray(freqtime) > 0):
                 freqtime = 2j*np.pi*freq
             else:
                 freqtime = freq
-- 
2.43.0


From 9e46df69cf08c5616f2df43e76670e615f1ca6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:14 +0000
Subject: [PATCH 20/30] fix: QWE stores elements which converge at the first
 comparison

---
 empymod/transform.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/empymod/transform.py b/empymod/transform.py
index 4b95342..4a5017c 100644
--- a/empymod/transform.py
+++ b/empymod/transform.py
@@ -1110,12 +1110,13 @@ def qwe(rtol, atol, maxint, inp, intervals, lambd=None, off=None,
             relErr[om, i-1] = np.abs(rErr)
             abserr = atol/np.abs(extrap[om, i-1])
 
+            # Store in EM (before updating the booleans, so elements which
+            # converge right at the first comparison are stored too)
+            EM[om] = extrap[om, i-1]
+
             # Update booleans
             om[om] *= relErr[om, i-1] >= rtol + abserr
 
-            # Store in EM
-            EM[om] = extrap[om, i-1]
-
         if (~om).all():
             break
 
-- 
2.43.0


From 4f3aad3666a5fdada11ffc090f20ccc34998d94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:16 +0000
Subject: [PATCH 21/30] fix: QWE and QUAD Hankel transforms in the Laplace
 domain

---
 empymod/transform.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/empymod/transform.py b/empymod/transform.py
index 4a5017c..5cff703 100644
--- a/empymod/transform.py
+++ b/empymod/transform.py
@@ -416,6 +416,10 @@ def hankel_qwe(zsrc, zrec, lsrc, lrec, off, ang_fact, depth, ab, etaH, etaV,
         fEM, kcount, conv = qwe(rtol, atol, maxint, getkernel, intervals,
                                 lambd, off, ang_fact)
 
+    # The field is real-valued in the Laplace domain.
+    if not np.iscomplexobj(etaH):
+        fEM = fEM.real
+
     return fEM, kcount, conv
 
 
@@ -498,6 +502,10 @@ def hankel_quad(zsrc, zrec, lsrc, lrec, off, ang_fact, depth, ab, etaH, etaV,
                           off[i], ang_fact[i], iinp)
         conv *= tc
 
+    # The field is real-valued in the Laplace domain.
+    if not np.iscomplexobj(etaH):
+        fEM = fEM.real
+
     # Return the electromagnetic field
     # Second argument (1) is the kernel count, last argument is only for QWE.
     return fEM, 1, conv
-- 
2.43.0


From d4137ec9ccad9381d5c2ccc52717f0c619af0d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:37 +0000
Subject: [PATCH 22/30] fix: FFTLog cosine transform returned NaN for q=0.5

U_mu(q) is zero if (mu+1-q)/2 is a pole of the gamma function, where loggamma
is NaN.
---
 empymod/transform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/empymod/transform.py b/empymod/transform.py
index 5cff703..cb64360 100644
--- a/empymod/transform.py
+++ b/empymod/transform.py
@@ -733,7 +733,8 @@ def fourier_fftlog(fEM, time, freq, ftarg):
         arg = zp.imag + zm.imag
 
         # first element: cos(arg) = ±1, sin(arg) = 0
-        argcos1 = amp*np.cos(arg)
+        # (zero for xm = 0, where gamma has a pole and loggamma is NaN)
+        argcos1 = amp*np.cos(arg) if xm != 0 else 0.0
 
         # remaining elements
         zp = sp.special.loggamma(xp + 1j*y)
-- 
2.43.0


From 99a00fe90b13d3b372c08ec034dc142408cda84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:41 +0000
Subject: [PATCH 23/30] fix: printing of two-dimensional frequencies failed at
 verbosity 4

---
 empymod/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/empymod/utils.py b/empymod/utils.py
index ff99447..7eee134 100644
--- a/empymod/utils.py
+++ b/empymod/utils.py
@@ -2169,7 +2169,7 @@ def _check_var(var, dtype, ndmin, name, shape=None, shape2=None):
 
 def _strvar(a, prec='{:G}'):
     r"""Return variable as a string to print, with given precision."""
-    return ' '.join([prec.format(i) for i in np.atleast_1d(a)])
+    return ' '.join([prec.format(i) for i in np.ravel(a)])
 
 
 def _prnt_min_max_val(var, text, verb):
-- 
2.43.0


From 034c90df1e1f42eb5a9cfcfbada3e0f1c20b2f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:17 +0000
Subject: [PATCH 24/30] fix: load_data returned wrong last value of txt-files
 cut short

---
 empymod/io.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/empymod/io.py b/empymod/io.py
index 9f57f2b..dd71f71 100644
--- a/empymod/io.py
+++ b/empymod/io.py
@@ -232,6 +232,11 @@ def load_data(fname):
         strshape = re.split(r'\(|\)', meta['shape'])[1]
         shape = tuple(map(int, strshape.split(",")))
 
+        # Complete files end with a newline (else they were cut short).
+        with open(fname, "rb") as f:
+            if not f.read().endswith(b"\n"):
+                raise ValueError(f"File is incomplete: '{fname}'.")
+
         args = {"delimiter": ",", "dtype": meta['dtype'], "encoding": "utf-8"}
         data = np.loadtxt(fname, **args).reshape(shape)
 
-- 
2.43.0


From 61d2c139dfc1cdae4f2cc40ac325a97d262a3921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:13 +0000
Subject: [PATCH 25/30] fix: waveform nodes and amplitudes of different size
 were accepted

---
 empymod/utils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/empymod/utils.py b/empymod/utils.py
index 7eee134..6dd3950 100644
--- a/empymod/utils.py
+++ b/empymod/utils.py
@@ -1398,6 +1398,12 @@ def check_waveform(time, nodes, amplitudes, verb, signal=0, nquad=3):
         raise ValueError("Waveform <signal> must be one of: [-1, 0, 1]; "
                          f"<signal> provided: {signal}")
 
+    # Check that there is one amplitude for each node.
+    if np.size(nodes) != np.size(amplitudes):
+        raise ValueError("Waveform <nodes> and <amplitudes> must have the same"
+                         f" size; <nodes>: {np.size(nodes)}; <amplitudes>: "
+                         f"{np.size(amplitudes)}")
+
     # Waveform segments.
     dt = np.diff(nodes)
     dI = np.diff(amplitudes)
-- 
2.43.0


From e3e37810851b46c62dd6035f6b214577fa28076e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:22 +0000
Subject: [PATCH 26/30] fix: documented QWE default and Fourier transform
 options differed from actual ones

---
 docs/manual/transforms.rst | 2 +-
 empymod/model.py           | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/docs/manual/transforms.rst b/docs/manual/transforms.rst
index 1671323..c2fd39f 100644
--- a/docs/manual/transforms.rst
+++ b/docs/manual/transforms.rst
@@ -129,7 +129,7 @@ going the other way, from impulse to step, leads to the divison by
 :math:`\mathrm{i}\omega`. This only holds because we define in accordance with
 the causality principle that :math:`E(r, t \le 0) = 0`.
 
-With the sine/cosine transform (``ft='dlf'/'sin'/'cos'``) you can choose which
+With the sine/cosine transform (``ft='dlf'``) you can choose (``kind``) which
 one you want for the impulse responses. For the switch-on response, however,
 the sine-transform is enforced, and equally the cosine transform for the
 switch-off response. This is because these two do not need to now the field at
diff --git a/empymod/model.py b/empymod/model.py
index de5f126..c2259e2 100644
--- a/empymod/model.py
+++ b/empymod/model.py
@@ -238,7 +238,7 @@ def bipole(src, rec, depth, res, freqtime, signal=None, aniso=None,
           - ``atol``: absolute tolerance (default: 1e-30)
           - ``nquad``: order of Gaussian quadrature (default: 51)
           - ``maxint``: maximum number of partial integral intervals
-            (default: 40)
+            (default: 100)
           - ``pts_per_dec``: points per decade; (default: 0)
 
             - If 0, no interpolation is used.
@@ -260,7 +260,7 @@ def bipole(src, rec, depth, res, freqtime, signal=None, aniso=None,
           - ``b``: Maximum wavenumber (default 0.1)
           - ``pts_per_dec``: points per decade (default: 40)
 
-    ft : {'dlf', 'sin', 'cos', 'qwe', 'fftlog', 'fft'}, default: 'dlf'
+    ft : {'dlf', 'qwe', 'fftlog', 'fft'}, default: 'dlf'
         Only used if signal!=None. Flag to choose either the Digital Linear
         Filter method (Sine- or Cosine-Filter), the
         Quadrature-With-Extrapolation (QWE), the FFTLog, or the FFT for the
@@ -270,7 +270,7 @@ def bipole(src, rec, depth, res, freqtime, signal=None, aniso=None,
         Only used if signal!=None. Possible parameters depends on the value for
         ``ft``:
 
-        - If ``ft='dlf'``, ``'sin'``, or ``'cos'``:
+        - If ``ft='dlf'``:
 
           - ``dlf``: string of filter name in :mod:`empymod.filters` or the
             filter method itself. (Default:
@@ -281,6 +281,8 @@ def bipole(src, rec, depth, res, freqtime, signal=None, aniso=None,
             - If < 0: Lagged Convolution DLF.
             - If > 0: Splined DLF
 
+          - ``kind``: 'sin' or 'cos', only for impulse responses (switch-on
+            always uses 'sin', switch-off always 'cos'); (default: 'sin')
 
         - If ``ft='qwe'``:
 
-- 
2.43.0


From dc43defd1d516242ff361cbea10d8c7751066fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:58 +0000
Subject: [PATCH 27/30] fix: static limit of the diffusive switch-off
 half-space response

The DC value was taken at 1e4 s, which is not late enough for large
offsets, low resistivities, or late times.
---
 empymod/kernel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/empymod/kernel.py b/empymod/kernel.py
index 9ec1854..889b7bf 100644
--- a/empymod/kernel.py
+++ b/empymod/kernel.py
@@ -962,7 +962,7 @@ def halfspace(off, angle, zsrc, zrec, etaH, etaV, freqtime, ab, signal,
     else:
         time = freqtime
         if signal == -1:  # Calculate DC
-            time = np.r_[time[:, 0], 1e4][:, None]
+            time = np.r_[time[:, 0], 1e100][:, None]
             freqtime = time
         dtype = np.float64
 
-- 
2.43.0


From 2549a4f5f5510ed6d2ff14f47b37332dcf20d06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:13 +0000
Subject: [PATCH 28/30] fix: analytical ignores the electric permittivities for
 diffusive solutions

As documented. Before, the resistivity was derived from the complex
conductivity (with permittivity) of the first frequency or time.
---
 empymod/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/empymod/model.py b/empymod/model.py
index c2259e2..f003b23 100644
--- a/empymod/model.py
+++ b/empymod/model.py
@@ -1125,6 +1125,10 @@ def analytical(src, rec, res, freqtime, solution='fs', signal=None, ab=11,
                         verb)
     depth, res, aniso, epermH, epermV, mpermH, mpermV, _ = model
 
+    # Electric permittivities are ignored for the diffusive solutions
+    if solution in ['dfs', 'dhs', 'dsplit', 'dtetm']:
+        epermH, epermV = np.zeros_like(epermH), np.zeros_like(epermV)
+
     # Check frequency => get etaH, etaV, zetaH, and zetaV
     frequency = check_frequency(freqtime, res, aniso, epermH, epermV, mpermH,
                                 mpermV, verb)
-- 
2.43.0


From 6997e266dfd5a9045137ed7ce856934cd83f87b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:13 +0000
Subject: [PATCH 29/30] fix: sign of the TE-mode coefficients for zero offset
 in kernel.halfspace

---
 empymod/kernel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/empymod/kernel.py b/empymod/kernel.py
index 889b7bf..9941dcd 100644
--- a/empymod/kernel.py
+++ b/empymod/kernel.py
@@ -1113,8 +1113,8 @@ def halfspace(off, angle, zsrc, zrec, etaH, etaV, freqtime, ab, signal,
         # TE-mode for numerical singularities rh=0 (hm!=0)
         g1m[izr*iih] = np.zeros(np.shape(g1m[izr*iih]), dtype=dtype)
         g1p[izr*iih] = -np.sqrt(mu_0*res)*delta/(2*np.pi*hp**2)
-        g2m[izr*iih] = mu_0*delta/(8*np.pi*hm)
-        g2p[izr*iih] = mu_0*delta/(8*np.pi*hp)
+        g2m[izr*iih] = -mu_0*delta/(8*np.pi*hm)
+        g2p[izr*iih] = -mu_0*delta/(8*np.pi*hp)
 
         # Bessel functions for airwave
         def BI(gamH, hp, nr, xim):
-- 
2.43.0


From 387e3c4ae70c81ec1155929709283c32e33f0421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:09 +0000
Subject: [PATCH 30/30] fix: return 1-D frequencies for the standard Fourier
 DLF

With several times and pts_per_dec=0, check_time returned a 2-D array of
frequencies (ntime, nfilter); freq, as seen by user hooks (bandpass filter,
material parameters), did then not match the rows of the fields and of the
material parameters.
---
 empymod/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/empymod/utils.py b/empymod/utils.py
index 6dd3950..c78fbf2 100644
--- a/empymod/utils.py
+++ b/empymod/utils.py
@@ -1080,7 +1080,7 @@ def check_time(time, signal, ft, ftarg, verb, new=False):
         # Get required frequencies
         omega, _ = transform.get_dlf_points(
                 targ['dlf'], time, targ['pts_per_dec'])
-        freq = np.squeeze(omega/2/np.pi)
+        freq = np.ravel(omega/2/np.pi)
 
     elif ft == 'qwe':     # QWE (using sine and imag-part)
         # If switch-off is required, use cosine, else sine
-- 
2.43.0

