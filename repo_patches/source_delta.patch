From 604c919b1794763d41eca217ede087e7daaa89ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:40 +0000
Subject: [PATCH 01/67] fix: use the tuned windows only at their native width

The fast paths were chosen by the integer support alone, so a smoothing
scale or support that rounds up to the native one was ignored.
---
 pmesh/_window_tuned_cic.h | 2 +-
 pmesh/_window_tuned_nnb.h | 2 +-
 pmesh/_window_tuned_pcs.h | 2 +-
 pmesh/_window_tuned_tsc.h | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pmesh/_window_tuned_cic.h b/pmesh/_window_tuned_cic.h
index de10378..e448762 100644
--- a/pmesh/_window_tuned_cic.h
+++ b/pmesh/_window_tuned_cic.h
@@ -135,7 +135,7 @@ mkname(_cic_tuned_readout1) (PMeshPainter * painter, double pos[], double hsml)
 static int
 mkname(_getfastmethod_cic) (PMeshPainter * painter, PMeshWindowInfo * window, paintfunc * fastpaint, readoutfunc * fastreadout)
 {
-    if(window->support != 2) return 0;
+    if(window->support != 2 || window->vfactor != 1.0) return 0;
 
     if(painter->ndim == 1) {
         *fastpaint = mkname(_cic_tuned_paint1); \
diff --git a/pmesh/_window_tuned_nnb.h b/pmesh/_window_tuned_nnb.h
index 8b3522e..643f097 100644
--- a/pmesh/_window_tuned_nnb.h
+++ b/pmesh/_window_tuned_nnb.h
@@ -103,7 +103,7 @@ mkname(_nnb_tuned_readout1) (PMeshPainter * painter, double pos[], double hsml)
 static int
 mkname(_getfastmethod_nnb) (PMeshPainter * painter, PMeshWindowInfo * window, paintfunc * fastpaint, readoutfunc * fastreadout)
 {
-    if(window->support != 1) return 0;
+    if(window->support != 1 || window->vfactor != 1.0) return 0;
 
     if(painter->ndim == 1) {
         *fastpaint = mkname(_nnb_tuned_paint1); \
diff --git a/pmesh/_window_tuned_pcs.h b/pmesh/_window_tuned_pcs.h
index eb92dca..c0eb60c 100644
--- a/pmesh/_window_tuned_pcs.h
+++ b/pmesh/_window_tuned_pcs.h
@@ -299,7 +299,7 @@ mkname(_pcs_tuned_readout1) (PMeshPainter * painter, double pos[], double hsml)
 static int
 mkname(_getfastmethod_pcs) (PMeshPainter * painter, PMeshWindowInfo * window, paintfunc * fastpaint, readoutfunc * fastreadout)
 {
-    if(window->support != 4) return 0;
+    if(window->support != 4 || window->vfactor != 1.0) return 0;
 
     if(painter->ndim == 1) {
         *fastpaint = mkname(_pcs_tuned_paint1); \
diff --git a/pmesh/_window_tuned_tsc.h b/pmesh/_window_tuned_tsc.h
index f70731b..2b60346 100644
--- a/pmesh/_window_tuned_tsc.h
+++ b/pmesh/_window_tuned_tsc.h
@@ -188,7 +188,7 @@ mkname(_tsc_tuned_readout1) (PMeshPainter * painter, double pos[], double hsml)
 static int
 mkname(_getfastmethod_tsc) (PMeshPainter * painter, PMeshWindowInfo * window, paintfunc * fastpaint, readoutfunc * fastreadout)
 {
-    if(window->support != 3) return 0;
+    if(window->support != 3 || window->vfactor != 1.0) return 0;
 
     if(painter->ndim == 1) {
         *fastpaint = mkname(_tsc_tuned_paint1); \
-- 
2.43.0


From 2e021e8f19699c361d752ef68f7ffd98b1b275f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:17 +0000
Subject: [PATCH 02/67] fix: scale the derivative of the tuned cubic window

The derivative branch of the tuned PCS window lacked the factor of the
affine scale that the other windows have.
---
 pmesh/_window_tuned_pcs.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pmesh/_window_tuned_pcs.h b/pmesh/_window_tuned_pcs.h
index c0eb60c..7aab439 100644
--- a/pmesh/_window_tuned_pcs.h
+++ b/pmesh/_window_tuned_pcs.h
@@ -29,11 +29,11 @@
                               * (2 + (XYZ[d] - IJK3[d])); \
         } else { \
             V1[d] = + 1.0 / 6.0 * (- 12 * (XYZ[d] - IJK1[d]) \
-                                   + 9 * (XYZ[d] - IJK1[d]) * (XYZ[d] - IJK1[d])); \
+                                   + 9 * (XYZ[d] - IJK1[d]) * (XYZ[d] - IJK1[d])) * painter->scale[d]; \
             V2[d] = - 1.0 / 6.0 * (+ 12 * (XYZ[d] - IJK2[d]) \
-                                   + 9 * (XYZ[d] - IJK2[d]) * (XYZ[d] - IJK2[d])); \
-            V0[d] = - 1.0 / 2.0 * (2 - (XYZ[d] - IJK0[d])) * (2 - (XYZ[d] - IJK0[d])); \
-            V3[d] = + 1.0 / 2.0 * (2 + (XYZ[d] - IJK3[d])) * (2 + (XYZ[d] - IJK3[d])); \
+                                   + 9 * (XYZ[d] - IJK2[d]) * (XYZ[d] - IJK2[d])) * painter->scale[d]; \
+            V0[d] = - 1.0 / 2.0 * (2 - (XYZ[d] - IJK0[d])) * (2 - (XYZ[d] - IJK0[d])) * painter->scale[d]; \
+            V3[d] = + 1.0 / 2.0 * (2 + (XYZ[d] - IJK3[d])) * (2 + (XYZ[d] - IJK3[d])) * painter->scale[d]; \
         } \
     } \
 \
-- 
2.43.0


From 06fbcea341c6a9fd933596729758ffa5556ce327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:39 +0000
Subject: [PATCH 03/67] fix: look up degenerate domains by domain, not by rank

The flag was indexed after the domain had been replaced by the rank it is
assigned to.
---
 pmesh/_domain.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/_domain.pyx b/pmesh/_domain.pyx
index cd54a08..b24a0e3 100644
--- a/pmesh/_domain.pyx
+++ b/pmesh/_domain.pyx
@@ -78,9 +78,9 @@ def gridnd_fill(
                     while t < 0:
                         t += dims[j]
                 target = target + t * strides[j]
-            target = DomainAssign[target]
 
             if not domain_is_degenerate[target]:
+                target = DomainAssign[target]
                 # build a sorted target_list
                 # bubble sort (for patch_size is small)
                 target_list[k] = target
-- 
2.43.0


From 8b4d9295624949e1b78fa467c96cb1ec1b30e83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:08 +0000
Subject: [PATCH 04/67] fix: decompose with a smoothing that wraps around to
 the same domain

A periodic particle whose reach leaves its domain and comes back into it
from the other side was sent to its own domain only.
---
 pmesh/domain.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/pmesh/domain.py b/pmesh/domain.py
index 8768aac..54ffa29 100644
--- a/pmesh/domain.py
+++ b/pmesh/domain.py
@@ -614,11 +614,20 @@ class GridND(object):
                     if periodic:
                         boxsize = self.edges[j][-1]
                         c = tmp % boxsize
-                        l = self._digitize((c - smoothing[j]) % boxsize, self.edges[j], right=False)
-                        r = self._digitize((c + smoothing[j]) % boxsize, self.edges[j], right=False)
+                        cl = (c - smoothing[j]) % boxsize
+                        cr = (c + smoothing[j]) % boxsize
+                        l = self._digitize(cl, self.edges[j], right=False)
+                        r = self._digitize(cr, self.edges[j], right=False)
                         p = self._digitize(c, self.edges[j], right=False)
-                        l = p - (p - l) % self.shape[j] - 1
-                        r = p + (r - p) % self.shape[j]
+                        nl = (p - l) % self.shape[j]
+                        nr = (r - p) % self.shape[j]
+                        # came back to the same domain from the other side
+                        nl[(l == p) & (cl > c)] = self.shape[j] - 1
+                        nr[(r == p) & (cr < c)] = self.shape[j] - 1
+                        if smoothing[j] >= boxsize:
+                            nl[...] = nr[...] = self.shape[j] - 1
+                        l = p - nl - 1
+                        r = p + nr
                         #print(l, p, r)
                         sil[j, s] = l
                         sir[j, s] = r
-- 
2.43.0


From 445ef95aabcacfba0943102a9fa133d50d3894ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:08 +0000
Subject: [PATCH 05/67] fix: wrap positions into the half-open box, alike
 everywhere

The remainder of a tiny negative position rounds to the box size, which
is in no domain: such a particle was primary nowhere and load() raised.
decompose() and isprimary() also wrapped single-precision positions at
different precisions and could disagree on the domain.
---
 pmesh/domain.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pmesh/domain.py b/pmesh/domain.py
index 54ffa29..637e997 100644
--- a/pmesh/domain.py
+++ b/pmesh/domain.py
@@ -339,6 +339,13 @@ class GridND(object):
 
     from ._domain import gridnd_fill as _fill
     _fill = staticmethod(_fill)
+    @staticmethod
+    def _wrap(data, boxsize):
+        """ periodic wrapping into the half-open box; the remainder of a tiny
+            negative number rounds to boxsize itself. """
+        data = numpy.remainder(numpy.asarray(data, dtype='f8'), boxsize)
+        return numpy.where(data < boxsize, data, 0.0)
+
     @staticmethod
     def _digitize(data, bins, right=False):
         if len(data) == 0:
@@ -441,7 +448,7 @@ class GridND(object):
                 chunk = transform(pos[s])
                 for j in range(self.ndim):
                     if periodic:
-                        tmp = numpy.remainder(chunk[:, j], self.edges[j][-1])
+                        tmp = self._wrap(chunk[:, j], self.edges[j][-1])
                     else:
                         tmp = chunk[:, j]
                     sil[j, s] = self._digitize(tmp, self.edges[j]) - 1
@@ -552,7 +559,7 @@ class GridND(object):
             s = slice(i, i + chunksize)
             chunk = transform(pos[s])[..., :self.ndim]
             if self.periodic:
-                chunk = numpy.remainder(chunk,  BoxSize)
+                chunk = self._wrap(chunk, BoxSize)
             # looping over all primary regions.
             for j in range(len(x0)):
                 r[s] += ((chunk >= x0[j]) & (chunk < x1[j])).all(axis=-1)
@@ -613,9 +620,9 @@ class GridND(object):
                     tmp = chunk[:, j]
                     if periodic:
                         boxsize = self.edges[j][-1]
-                        c = tmp % boxsize
-                        cl = (c - smoothing[j]) % boxsize
-                        cr = (c + smoothing[j]) % boxsize
+                        c = self._wrap(tmp, boxsize)
+                        cl = self._wrap(c - smoothing[j], boxsize)
+                        cr = self._wrap(c + smoothing[j], boxsize)
                         l = self._digitize(cl, self.edges[j], right=False)
                         r = self._digitize(cr, self.edges[j], right=False)
                         p = self._digitize(c, self.edges[j], right=False)
-- 
2.43.0


From bcfcdb2e385cca9cd96a719d26a9e819b4795766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:27 +0000
Subject: [PATCH 06/67] fix: sum complex data in Layout.gather

numpy.bincount takes real weights only, so gathering complex data with
mode 'sum' or 'mean' raised.
---
 pmesh/domain.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pmesh/domain.py b/pmesh/domain.py
index 637e997..78960fd 100644
--- a/pmesh/domain.py
+++ b/pmesh/domain.py
@@ -44,7 +44,12 @@ def bincountv(x, weights, minlength=None, dtype=None, out=None):
 
     for index in numpy.ndindex(*shape[1:]):
         ind = tuple([Ellipsis] + list(index))
-        out[ind] = numpy.bincount(x, weights[ind], minlength=minlength)
+        if numpy.iscomplexobj(weights):
+            # bincount is real
+            out[ind] = (numpy.bincount(x, weights[ind].real, minlength=minlength)
+                + 1j * numpy.bincount(x, weights[ind].imag, minlength=minlength))
+        else:
+            out[ind] = numpy.bincount(x, weights[ind], minlength=minlength)
     return out
 
 def promote(data, comm):
-- 
2.43.0


From f6ffb058ac3c0f1c4d8d6d66028b6b13567de6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:27 +0000
Subject: [PATCH 07/67] fix: reduce only over an item's own copies in
 Layout.gather

With a ufunc as the mode an item that was sent nowhere received the data
of the item after it, or raised if it was the last.
---
 pmesh/domain.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pmesh/domain.py b/pmesh/domain.py
index 78960fd..c1a8798 100644
--- a/pmesh/domain.py
+++ b/pmesh/domain.py
@@ -305,7 +305,13 @@ class Layout(object):
             N = numpy.bincount(self.indices, minlength=self.sendlength)
             offset = numpy.zeros(self.sendlength, 'intp')
             offset[1:] = numpy.cumsum(N)[:-1]
-            return mode.reduceat(recvbuffer, offset, out=out)
+            # reduceat would give an item with no copies the data of another
+            good = N > 0
+            if out is None:
+                out = numpy.zeros(self.sendlength, dtype=dtype)
+            if good.any():
+                out[good] = mode.reduceat(recvbuffer, offset[good])
+            return out
 
         if mode == 'mean':
             N = numpy.bincount(self.indices, minlength=self.sendlength)
-- 
2.43.0


From ca5fa6a23e3fcabd46f68cc11cd362d9ce06d99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:50 +0000
Subject: [PATCH 08/67] fix: average integers in Layout.gather

The mean was divided in place in the integer type, which raises.
---
 pmesh/domain.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pmesh/domain.py b/pmesh/domain.py
index c1a8798..c5e30d8 100644
--- a/pmesh/domain.py
+++ b/pmesh/domain.py
@@ -317,7 +317,9 @@ class Layout(object):
             N = numpy.bincount(self.indices, minlength=self.sendlength)
             s = [self.sendlength] + [1] * (len(recvbuffer.shape) - 1)
             N = N.reshape(s)
-            out = bincountv(self.indices, recvbuffer, minlength=self.sendlength, out=out)
+            # integers have a floating point mean
+            dtype = numpy.result_type(recvbuffer.dtype, 'f4')
+            out = bincountv(self.indices, recvbuffer, minlength=self.sendlength, dtype=dtype, out=out)
             out[...] /= N
             return out
 
-- 
2.43.0


From b9e121ea4ed6500b7d7b57d5a781c0c75c568d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:50 +0000
Subject: [PATCH 09/67] fix: uniform domains for boxes with a thin direction

The number of domains along the longest direction could round down to
zero, leaving a grid without domains.
---
 pmesh/domain.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pmesh/domain.py b/pmesh/domain.py
index c5e30d8..7903e79 100644
--- a/pmesh/domain.py
+++ b/pmesh/domain.py
@@ -379,6 +379,9 @@ class GridND(object):
         shape = numpy.int32(shape)
         shape[shape < 1] = 1
         shape[imax] = 1
+        # thin directions are rounded up to one domain, leaving fewer for the rest
+        while numpy.prod(shape) > comm.size:
+            shape[shape.argmax()] -= 1
         shape[imax] = comm.size // numpy.prod(shape)
         assert numpy.prod(shape) <= comm.size
 
-- 
2.43.0


From 98e01f4df15a6984340e8a1ea7364cb51a403be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:24 +0000
Subject: [PATCH 10/67] fix: white noise in a part of the mesh with negative
 modes only

Whether a mode of the negative half is stored was decided from its
conjugate, so that a part of the full mesh that does not hold the
conjugates was left unfilled.
---
 pmesh/_whitenoise_generics.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pmesh/_whitenoise_generics.h b/pmesh/_whitenoise_generics.h
index 8e3eac1..4f9d36a 100644
--- a/pmesh/_whitenoise_generics.h
+++ b/pmesh/_whitenoise_generics.h
@@ -162,7 +162,7 @@ mkname(_generic_fill)(PMeshWhiteNoiseGenerator * self, void * delta_k, int seed)
                         SAMPLE(this_rng, &ampl, &phase);
                     }
 
-                    ptrdiff_t iabs[3] = {i, j, k};
+                    ptrdiff_t iabs[3] = {i, j, sign == -1 ? self->Nmesh[2] - k : k};
 
                     /* mode is not there, skip it */
                     if(!mkname(_has_mode)(self, iabs)) {
@@ -193,7 +193,6 @@ mkname(_generic_fill)(PMeshWhiteNoiseGenerator * self, void * delta_k, int seed)
                     */
 
                     if(sign == -1) {
-                        iabs[2] = self->Nmesh[2] - k;
                         im = - im;
                     }
 
-- 
2.43.0


From 9a895526c02370fdee9396d8403746897b3f158a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:24 +0000
Subject: [PATCH 11/67] fix: no Nyquist plane in the white noise of an odd mesh

With an odd number of points along the last axis the highest plane is not
its own conjugate; treating it so made the full field not Hermitian.
---
 pmesh/_whitenoise_generics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/_whitenoise_generics.h b/pmesh/_whitenoise_generics.h
index 4f9d36a..c603b70 100644
--- a/pmesh/_whitenoise_generics.h
+++ b/pmesh/_whitenoise_generics.h
@@ -149,7 +149,7 @@ mkname(_generic_fill)(PMeshWhiteNoiseGenerator * self, void * delta_k, int seed)
                 gsl_rng_set(this_rng, seed_this);
 
                 for(k = 0; k <= self->Nmesh[2] / 2; k ++) {
-                    int use_conj = (d1 != 0 || d2 != 0) && (k == 0 || k == self->Nmesh[2] / 2);
+                    int use_conj = (d1 != 0 || d2 != 0) && (k == 0 || 2 * k == self->Nmesh[2]);
 
                     double ampl, phase;
                     if(use_conj) {
-- 
2.43.0


From 46dc3fc1a6664929164b951eb53434448572a7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:18 +0000
Subject: [PATCH 12/67] fix: white noise seeds of odd and of non-cubic meshes

---
 pmesh/_whitenoise_generics.h | 17 ++++++++++-------
 pmesh/_whitenoise_imp.c      |  6 ++++++
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/pmesh/_whitenoise_generics.h b/pmesh/_whitenoise_generics.h
index c603b70..fee5876 100644
--- a/pmesh/_whitenoise_generics.h
+++ b/pmesh/_whitenoise_generics.h
@@ -73,23 +73,26 @@ mkname(_generic_fill)(PMeshWhiteNoiseGenerator * self, void * delta_k, int seed)
     gsl_rng * rng = gsl_rng_alloc(gsl_rng_ranlxd1);
     gsl_rng_set(rng, seed);
 
-    for(i = 0; i < self->Nmesh[0] / 2; i++) {
+    /* rings of increasing frequency, up to the longest axis; SETSEED drops what
+     * an axis does not have. */
+    int nring = ((self->Nmesh[0] > self->Nmesh[1] ? self->Nmesh[0] : self->Nmesh[1]) + 1) / 2;
+    for(i = 0; i < nring; i++) {
         for(j = 0; j < i; j++)
             SETSEED(self, i, j, rng);
         for(j = 0; j < i + 1; j++)
             SETSEED(self, j, i, rng);
         for(j = 0; j < i; j++)
-            SETSEED(self, self->Nmesh[0] - 1 - i, j, rng);
+            SETSEED(self, - 1 - i, j, rng);
         for(j = 0; j < i + 1; j++)
-            SETSEED(self, self->Nmesh[1] - 1 - j, i, rng);
+            SETSEED(self, - 1 - j, i, rng);
         for(j = 0; j < i; j++)
-            SETSEED(self, i, self->Nmesh[1] - 1 - j, rng);
+            SETSEED(self, i, - 1 - j, rng);
         for(j = 0; j < i + 1; j++)
-            SETSEED(self, j, self->Nmesh[0] - 1 - i, rng);
+            SETSEED(self, j, - 1 - i, rng);
         for(j = 0; j < i; j++)
-            SETSEED(self, self->Nmesh[0] - 1 - i, self->Nmesh[1] - 1 - j, rng);
+            SETSEED(self, - 1 - i, - 1 - j, rng);
         for(j = 0; j < i + 1; j++)
-            SETSEED(self, self->Nmesh[1] - 1 - j, self->Nmesh[0] - 1 - i, rng);
+            SETSEED(self, - 1 - j, - 1 - i, rng);
     }
     gsl_rng_free(rng);
 
diff --git a/pmesh/_whitenoise_imp.c b/pmesh/_whitenoise_imp.c
index c47324b..45d705c 100644
--- a/pmesh/_whitenoise_imp.c
+++ b/pmesh/_whitenoise_imp.c
@@ -31,6 +31,12 @@ SETSEED(PMeshWhiteNoiseGenerator * self, int i, int j, gsl_rng * rng)
 { 
     unsigned int seed = 0x7fffffff * gsl_rng_uniform(rng); 
 
+    /* i and j are frequencies; some are beyond the end of a short or odd axis. */
+    if(i >= 0 ? i >= (self->Nmesh[0] + 1) / 2 : - 1 - i >= self->Nmesh[0] / 2) return;
+    if(j >= 0 ? j >= (self->Nmesh[1] + 1) / 2 : - 1 - j >= self->Nmesh[1] / 2) return;
+    if(i < 0) i += self->Nmesh[0];
+    if(j < 0) j += self->Nmesh[1];
+
     int ii[2] = {i, (self->Nmesh[0] - i) % self->Nmesh[0]};
     int jj[2] = {j, (self->Nmesh[1] - j) % self->Nmesh[1]};
     int d1, d2;
-- 
2.43.0


From 3e75be1aa1aba4784e8d7ca9386469cb29426f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:39 +0000
Subject: [PATCH 13/67] fix: no point has an invariant index below a maximum of
 zero

---
 pmesh/_invariant_imp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/_invariant_imp.c b/pmesh/_invariant_imp.c
index af08965..3eaa31c 100644
--- a/pmesh/_invariant_imp.c
+++ b/pmesh/_invariant_imp.c
@@ -67,7 +67,7 @@ ptrdiff_t pmesh_get_invariant_index(
 
     ptrdiff_t shell = absmax(ndim, x);
     /* (0, 0, 0....) */
-    if (shell == 0) return 0;
+    if (shell == 0) return max_length == 0 ? -1 : 0;
 
     ptrdiff_t side = shell * 2 + 1; 
 
-- 
2.43.0


From f9bb307599a2cede514ffc116abf1562aff38b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:10 +0000
Subject: [PATCH 14/67] fix: coordinates of the middle point of odd meshes

---
 pmesh/pm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 1ebc8c7..8e6f081 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -1188,7 +1188,7 @@ def _init_i_coords(partition, Nmesh, BoxSize, dtype):
 
         ri = numpy.arange(t[d], dtype=dtype) + partition.local_i_start[d]
 
-        ri[ri >= Nmesh[d] // 2] -= Nmesh[d]
+        ri[ri >= (Nmesh[d] + 1) // 2] -= Nmesh[d]
 
         xi = ri * BoxSize[d] / Nmesh[d]
 
@@ -1212,7 +1212,7 @@ def _init_o_coords(partition, Nmesh, BoxSize, dtype):
 
         wi = numpy.arange(s[d], dtype=dtype) + partition.local_o_start[d]
 
-        wi[wi >= Nmesh[d] // 2] -= Nmesh[d]
+        wi[wi >= (Nmesh[d] + 1) // 2] -= Nmesh[d]
 
         wi *= (2 * numpy.pi / Nmesh[d])
         ki = wi * Nmesh[d] / BoxSize[d]
-- 
2.43.0


From e743478c56b0e057e41e9c3caac050115edb8ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:43 +0000
Subject: [PATCH 15/67] fix: assign domains of a mesh with fewer rows than
 ranks

---
 pmesh/pm.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 8e6f081..4d05d14 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -1452,11 +1452,15 @@ class ParticleMesh(object):
         ilocal = tuple(numpy.flatnonzero(iedges == istart)[0] for istart, iedges in zip(partition.local_i_start, partition.i_edges))
         ilocal = numpy.ravel_multi_index(ilocal, shape, mode='raise', order='C')
         ilocals = numpy.array(self.comm.allgather(ilocal))
-        DomainAssign = numpy.empty(size, dtype='int32')
+        # ranks without mesh points all start at 0; give them the empty domains.
+        hosts = numpy.array(self.comm.allgather(numpy.prod(partition.local_i_shape) > 0))
+        DomainAssign = numpy.full(size, -1, dtype='int32')
         for irank, ilocal in enumerate(ilocals):
+            if not hosts[irank]: continue
             start = ilocal * size // self.comm.size
             end = (ilocal + 1) * size // self.comm.size
             DomainAssign[start:end] = irank
+        DomainAssign[DomainAssign == -1] = numpy.flatnonzero(~hosts)
         self.domain = domain.GridND(edges, comm=self.comm, DomainAssign=DomainAssign)
 
         self.procmesh = procmesh
-- 
2.43.0


From 22c9156cf7c293c9388f9608cf2aae43b80e847d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:38 +0000
Subject: [PATCH 16/67] fix: inner product of a real field and an array

---
 pmesh/pm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 4d05d14..71499d9 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -212,7 +212,7 @@ class Field(NDArrayLike):
             if not isinstance(other, _gettype(self)):
                 raise TypeError("type of two operands of cdot must be the same type")
         else:
-            assert all(numpy.shape(other) == self.shape)
+            assert numpy.shape(other) == self.shape
 
     def copy(self):
         return self.pm.create(_gettype(self), value=self.value)
-- 
2.43.0


From cf8c87de9678a4a7a847e04e499656c320215361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:06 +0000
Subject: [PATCH 17/67] fix: count the last plane of an odd mesh twice

---
 pmesh/pm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 71499d9..b67977b 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -913,7 +913,7 @@ class BaseComplexField(Field):
         y = y.copy()
         # if a conjugate is not stored and not self, increase the weight
         # because we shall add it.
-        mask = (i[-1] != 0) & (i[-1] != self.Nmesh[-1] // 2)
+        mask = (i[-1] != 0) & (2 * i[-1] != self.Nmesh[-1])
         y += mask * y
         return y
 
-- 
2.43.0


From ba7a6402017d9278d78646dd800bc6b7f2311a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:00 +0000
Subject: [PATCH 18/67] fix: circular frequencies in apply offer normp too

---
 pmesh/pm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index b67977b..dcbbec9 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -641,7 +641,7 @@ class Field(NDArrayLike):
                 k = x
                 oslab[...] = func(k, islab)
             elif kind == 'circular':
-                w = [ ki * L / N for ki, L, N in zip(x, self.BoxSize, self.Nmesh)]
+                w = xslab([ ki * L / N for ki, L, N in zip(x, self.BoxSize, self.Nmesh)])
                 oslab[...] = func(w, islab)
             else:
                 raise ValueError("unknown kind of apply function.")
-- 
2.43.0


From 2e957be5f954c2ce46d2535fa5029a7534211251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:18 +0000
Subject: [PATCH 19/67] fix: keep the fraction of the zero mode in the norm of
 indices

---
 pmesh/pm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index dcbbec9..7e8283a 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -132,7 +132,8 @@ class xslab(list):
         """
         kk = (sum([abs(ki) ** p for ki in self]))
         if zeromode is not None:
-            kk[kk == 0] = zeromode
+            # the norm of indices is an integer, zeromode may not be.
+            kk = numpy.where(kk == 0, zeromode, kk)
         return kk
 
 class xslabiter(slabiter):
-- 
2.43.0


From 7b4b8edfa3bd594854c43d94930bb4a73973617e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:38 +0000
Subject: [PATCH 20/67] fix: frequencies common to meshes of odd sizes

---
 pmesh/pm.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 7e8283a..0f957d8 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -1139,10 +1139,11 @@ def reindex(Nsrc, Ndest):
         >>> array([ 0,  1,  2, -1, -1, -1,  -1,  3])
 
     """
-    reindex = numpy.arange(Ndest)
-    reindex[Ndest // 2 + 1:] = numpy.arange(Nsrc - Ndest // 2 + 1, Nsrc, 1)
-    reindex[Nsrc // 2 + 1: Ndest -Nsrc //2 + 1] = -1
-    return reindex
+    freq = numpy.arange(Ndest)
+    freq[freq > Ndest // 2] -= Ndest
+    # the nyquist frequency is taken positive
+    mask = (-Nsrc < 2 * freq) & (2 * freq <= Nsrc)
+    return numpy.where(mask, freq % Nsrc, -1)
 
 def exchange(layout, value):
     if value is None:
-- 
2.43.0


From 59005b837309818473ca85d24775b0a2c93a8fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:38 +0000
Subject: [PATCH 21/67] fix: remove only Nyquist modes in resample

---
 pmesh/pm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 0f957d8..6305860 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -532,14 +532,14 @@ class Field(NDArrayLike):
             # FIXME: the nyquist is messy due to hermitian constraints
             # let's do not touch them till we know they are important.
             mask = functools.reduce(numpy.bitwise_or,
-                 [ ii == n // 2
+                 [ 2 * ii == n
                    for ii, n in zip(i, complex.Nmesh)])
             slab[mask] = 0
 
             # also remove the nyquist of the input
             mask = functools.reduce(numpy.bitwise_or,
-                 [ ii == n // 2
-                   for ii, n in zip(i, self.Nmesh)])
+                 [ 2 * numpy.minimum(ii, n - ii) == ns
+                   for ii, n, ns in zip(i, complex.Nmesh, self.Nmesh)])
             slab[mask] = 0
 
         if isinstance(out, RealField):
-- 
2.43.0


From 4668c721818a209c683ab8f2670df581133bfe04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:35 +0000
Subject: [PATCH 22/67] fix: resample to an untransposed complex field

---
 pmesh/pm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 6305860..10b4b33 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -542,8 +542,8 @@ class Field(NDArrayLike):
                    for ii, n, ns in zip(i, complex.Nmesh, self.Nmesh)])
             slab[mask] = 0
 
-        if isinstance(out, RealField):
-            complex.c2r(out)
+        # complex shares the memory of out; convert in place
+        complex.cast(type=_gettype(out), out=out)
 
         return out
 
-- 
2.43.0


From 3449ab92d6b5226f583a90f12210af391fc59fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:35 +0000
Subject: [PATCH 23/67] fix: resample complex meshes without losing the
 imaginary mean

---
 pmesh/pm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 10b4b33..85190ef 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -526,7 +526,9 @@ class Field(NDArrayLike):
             mask = functools.reduce(numpy.bitwise_and,
                  [(n - ii) % n == ii
                     for ii, n in zip(i, complex.Nmesh)])
-            slab.imag[mask] = 0
+            # unless the configuration space is complex, too
+            if out.pm.dtype.kind != 'c':
+                slab.imag[mask] = 0
 
             # remove the nyquist of the output
             # FIXME: the nyquist is messy due to hermitian constraints
-- 
2.43.0


From cb45f805900704bb3ad942ff12e550b9bc28988f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:41 +0000
Subject: [PATCH 24/67] fix: do not transform into the memory of another mesh
 in resample

---
 pmesh/pm.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 85190ef..661f10c 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -489,10 +489,6 @@ class Field(NDArrayLike):
         """
         assert isinstance(out, Field)
 
-        if all(out.Nmesh == self.Nmesh):
-            # no resampling needed. Just do Fourier transforms.
-            self.cast(type=_gettype(out), out=out)
-
         self = self.cast(type=TransposedComplexField)
 
         complex = out.pm.create(type=TransposedComplexField, base=out._base, value=0)
-- 
2.43.0


From d1441b7b387903da3d33fd43b0cdda7c98863e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:37 +0000
Subject: [PATCH 25/67] fix: decompose for the window in use in upsample

---
 pmesh/pm.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 661f10c..63087bd 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -1972,7 +1972,6 @@ class ParticleMesh(object):
                     period=source.Nmesh)
 
         layout = source.pm.decompose(q, smoothing=resampler, transform=transform)
-        layout = source.pm.decompose(q, smoothing=1.6, transform=transform)
 
         f = source.readout(q, resampler=resampler, layout=layout, transform=transform)
 
-- 
2.43.0


From b81fcc87c45175f2259c2bbf96547c8f2ed62d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:37 +0000
Subject: [PATCH 26/67] fix: preview in the requested order of axes

---
 pmesh/pm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 63087bd..de94d1f 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -608,7 +608,7 @@ class Field(NDArrayLike):
             removeaxes = tuple(range(len(all_axes) - len(removeaxes), len(all_axes)))
             result[local_slice] += out.transpose(all_axes).sum(axis=removeaxes)
         else:
-            result[local_slice] += out
+            result[local_slice] += out.transpose(axes)
 
         self.pm.comm.Allreduce(MPI.IN_PLACE, result)
         return result
-- 
2.43.0


From 6b0e2184c6b3fb8f203cbbcaa62b3ddbc8218c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:37 +0000
Subject: [PATCH 27/67] fix: ctranspose with a tuple of axes

---
 pmesh/pm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index de94d1f..536ac27 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -705,12 +705,12 @@ class RealField(Field):
         assert len(numpy.unique(axes)) == self.ndim
         assert numpy.max(axes) == self.ndim - 1
 
-        # create a new pm with transposed BoxSize and Nmesh
-        pm = self.pm.reshape(BoxSize=self.BoxSize[axes], Nmesh=self.Nmesh[axes])
-
         # for fancy indexing
         axes = numpy.array(axes, dtype='intp')
 
+        # create a new pm with transposed BoxSize and Nmesh
+        pm = self.pm.reshape(BoxSize=self.BoxSize[axes], Nmesh=self.Nmesh[axes])
+
         q = self.pm.generate_uniform_particle_grid(shift=0)
         v = self.readout(q, resampler='nnb')
 
-- 
2.43.0


From b56e600faf75eda6921b5b44cf54ef90d2a3106a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:33 +0000
Subject: [PATCH 28/67] fix: forward derivative of the readout of a gradient

---
 pmesh/pm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 536ac27..9306d8e 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -849,11 +849,13 @@ class RealField(Field):
         jvp = numpy.zeros(len(pos))
 
         if v_pos is not None:
+            if gradient is not None:
+                raise ValueError("gradient of gradient is not yet supported")
             for d in range(self.ndim):
                 jvp[...] += self.readout(pos, resampler=resampler, transform=transform, gradient=d, layout=layout) * v_pos[..., d]
 
         if v_self is not None:
-            jvp[...] += v_self.readout(pos, resampler=resampler, transform=transform, gradient=None, layout=layout)
+            jvp[...] += v_self.readout(pos, resampler=resampler, transform=transform, gradient=gradient, layout=layout)
 
         return jvp
 
-- 
2.43.0


From 9e142d7414113f71703034771705ce81f7f25c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:45 +0000
Subject: [PATCH 29/67] fix: centre the triangular shaped cloud on the particle

The mesh point before the nearest one received the weight of the nearest one, and so on.
---
 pmesh/tsc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/tsc.py b/pmesh/tsc.py
index 782a4e5..195c914 100644
--- a/pmesh/tsc.py
+++ b/pmesh/tsc.py
@@ -84,7 +84,7 @@ def paint_some(pos, mesh, meshflat, weights, period):
                 intpos = numpy.rint(pos[i, d]) # NGP index
                 diff = intpos - pos[i, d]
                 rel = (n // 3**d) % 3 - 1 # maps offset (rel. to NGP) to (-1, 0, 1)
-                targetpos = intpos + rel - 1
+                targetpos = intpos + rel
                 if rel == -1: # before NGP
                     kernel *= 0.5 * (0.5+diff)*(0.5+diff)
                 elif rel == 0: # NGP
-- 
2.43.0


From d9f7098dee67d23ffc231a1e83cd97ee95ae2d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:45 +0000
Subject: [PATCH 30/67] fix: accept a period per dimension in tsc, as
 documented

---
 pmesh/tsc.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pmesh/tsc.py b/pmesh/tsc.py
index 195c914..977475e 100644
--- a/pmesh/tsc.py
+++ b/pmesh/tsc.py
@@ -52,7 +52,11 @@ def driver(pos, mesh, weights, mode, period, transform,
     # scratch 
     if transform is None:
         transform = lambda x:x
-    if period is None: period = 0
+    if period is None: period = numpy.zeros(Ndim, dtype='i4')
+    else:
+        p = numpy.empty(Ndim, dtype='i4')
+        p[...] = period
+        period = p
     for start in range(0, Np, chunksize):
         chunk = slice(start, start+chunksize)
         mypos = transform(pos[chunk])
@@ -72,7 +76,6 @@ def paint_some(pos, mesh, meshflat, weights, period):
     Np = pos.shape[0]
     Nmax = int(3 ** Ndim)
     ignore = False
-    period = int(period)
     outbound = 0
     for i in range(Np):
         w = float(weights[i])
@@ -93,11 +96,11 @@ def paint_some(pos, mesh, meshflat, weights, period):
                     kernel *= 0.5 * (0.5-diff)*(0.5-diff)
                 
                 # wrap by period
-                if period > 0:
-                    while targetpos >= period:
-                        targetpos -= period
+                if period[d] > 0:
+                    while targetpos >= period[d]:
+                        targetpos -= period[d]
                     while targetpos < 0:
-                        targetpos += period
+                        targetpos += period[d]
                 if targetpos < 0 or \
                         targetpos >= mesh.shape[d]:
                     ignore = True
-- 
2.43.0


From 3722c2b2a51a30ef2f000cf886656f58bcf9c556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:45 +0000
Subject: [PATCH 31/67] fix: tsc.readout called a function that did not exist

---
 pmesh/tsc.py | 44 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/pmesh/tsc.py b/pmesh/tsc.py
index 977475e..aec7af5 100644
--- a/pmesh/tsc.py
+++ b/pmesh/tsc.py
@@ -114,3 +114,47 @@ def paint_some(pos, mesh, meshflat, weights, period):
 
     return outbound
 
+@numba.jit(nopython=True)
+def readout_some(pos, mesh, meshflat, myvalue, period):
+    Ndim = pos.shape[1]
+    Np = pos.shape[0]
+    Nmax = int(3 ** Ndim)
+    ignore = False
+    outbound = 0
+    for i in range(Np):
+        tmp = 0.0
+        for n in range(Nmax):
+            ignore = False
+            kernel = 1.0
+            ind = 0
+            for d in range(Ndim):
+                intpos = numpy.rint(pos[i, d]) # NGP index
+                diff = intpos - pos[i, d]
+                rel = (n // 3**d) % 3 - 1 # maps offset (rel. to NGP) to (-1, 0, 1)
+                targetpos = intpos + rel
+                if rel == -1: # before NGP
+                    kernel *= 0.5 * (0.5+diff)*(0.5+diff)
+                elif rel == 0: # NGP
+                    kernel *= 0.75 - diff*diff
+                else: # after NGPs
+                    kernel *= 0.5 * (0.5-diff)*(0.5-diff)
+                
+                # wrap by period
+                if period[d] > 0:
+                    while targetpos >= period[d]:
+                        targetpos -= period[d]
+                    while targetpos < 0:
+                        targetpos += period[d]
+                if targetpos < 0 or \
+                        targetpos >= mesh.shape[d]:
+                    ignore = True
+                    break
+                ind += mesh.strides[d]*targetpos
+
+            if ignore:
+                outbound += 1
+                continue
+            tmp += meshflat[int(ind/mesh.itemsize)] * kernel
+        myvalue[i] = tmp
+
+    return outbound
-- 
2.43.0


From 3f6d7cbc9aa617dd5dc8987d4ef03f2b67186816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:45 +0000
Subject: [PATCH 32/67] fix: decompose for the width of the tsc brush in the
 legacy mesh

---
 pmesh/particlemesh.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pmesh/particlemesh.py b/pmesh/particlemesh.py
index 1d683b7..ba63c4c 100644
--- a/pmesh/particlemesh.py
+++ b/pmesh/particlemesh.py
@@ -215,7 +215,8 @@ class ParticleMesh(object):
         to the correct MPI ranks that hosts the PM local mesh
         """
         with self.T['Decompose']:
-            return self.domain.decompose(pos, smoothing=1.0,
+            smoothing = 1.5 if self.paintbrush == 'tsc' else 1.0
+            return self.domain.decompose(pos, smoothing=smoothing,
                     transform=self.transform0)
     def clear(self):
         """ 
-- 
2.43.0


From 5996ac4bc7240312c1ad89fd19bfea8cdc1fd9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:45 +0000
Subject: [PATCH 33/67] fix: coordinates and frequencies of odd legacy meshes

The middle one of an odd axis is positive.
---
 pmesh/particlemesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pmesh/particlemesh.py b/pmesh/particlemesh.py
index ba63c4c..3b71b13 100644
--- a/pmesh/particlemesh.py
+++ b/pmesh/particlemesh.py
@@ -136,8 +136,8 @@ class ParticleMesh(object):
             wi = numpy.arange(s[d], dtype='f4') + self.partition.local_o_start[d] 
             ri = numpy.arange(t[d], dtype='f4') + self.partition.local_i_start[d] 
 
-            wi[wi >= self.Nmesh // 2] -= self.Nmesh
-            ri[ri >= self.Nmesh // 2] -= self.Nmesh
+            wi[wi >= (self.Nmesh + 1) // 2] -= self.Nmesh
+            ri[ri >= (self.Nmesh + 1) // 2] -= self.Nmesh
 
             wi *= (2 * numpy.pi / self.Nmesh)
             ki = wi * self.Nmesh / self.BoxSize[d]
-- 
2.43.0


From fd809a02a1745275d1a6c42982e8c72b06a79942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:45 +0000
Subject: [PATCH 34/67] fix: cic.paint to a mesh that is not contiguous was
 lost

---
 pmesh/_cic.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pmesh/_cic.py b/pmesh/_cic.py
index 69fa714..9ab42fb 100644
--- a/pmesh/_cic.py
+++ b/pmesh/_cic.py
@@ -11,6 +11,12 @@ import math
 def paint(pos, mesh, weights=1.0, mode="raise", period=None, transform=None):
     if weights is None:
         weights = 1.0
+    if not mesh.flags['C_CONTIGUOUS']:
+        # the driver paints to a flat view, which is a copy here.
+        tmp = numpy.array(mesh, order='C')
+        driver(pos, tmp, weights, mode, period, transform, paint_some)
+        mesh[...] = tmp
+        return mesh
     return driver(pos, mesh, weights, mode, period, transform, paint_some)
 
 def readout(mesh, pos, mode="raise", period=None, transform=None, out=None):
-- 
2.43.0


From c2f495c9159a8b9b670883dc39fc46e4663b1f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:45 +0000
Subject: [PATCH 35/67] fix: normalise the kernel in every dimension in
 lanczos.paint

---
 pmesh/lanczos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/lanczos.py b/pmesh/lanczos.py
index 18ac17a..35d9cc9 100644
--- a/pmesh/lanczos.py
+++ b/pmesh/lanczos.py
@@ -122,7 +122,7 @@ def paint(pos, mesh, weights=1.0, mode="raise", period=None, transform=None, win
             kernel = window(gridpos - targetpos).prod(axis=-1)
             #dx = gridpos - targetpos
             #kernel = window((dx ** 2).sum(axis=-1) ** 0.5)
-            add = wchunk * (kernel / window.integral)
+            add = wchunk * (kernel / window.integral ** Ndim)
 
             if period is not None:
                 numpy.remainder(targetpos, period, targetpos)
-- 
2.43.0


From e0485c292e001b527dc5e669b4026052060acb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:45 +0000
Subject: [PATCH 36/67] fix: TransferFunction.Trilinear takes the arguments of
 a transfer function

---
 pmesh/transfer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pmesh/transfer.py b/pmesh/transfer.py
index c23a503..dbf701e 100644
--- a/pmesh/transfer.py
+++ b/pmesh/transfer.py
@@ -66,7 +66,8 @@ class TransferFunction:
         ind = tuple(ind)
         complex[ind] = 0
     @staticmethod
-    def Trilinear(comm, complex, w):
+    def Trilinear(pm, complex):
+        w = pm.w
         for wi in w:
             # convert to 
             tmp = numpy.sinc(wi / (2 * numpy.pi)) ** 2
-- 
2.43.0


From e588a6ab0a0f946ea3924fbbbfab989c5107dc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:45 +0000
Subject: [PATCH 37/67] fix: TransferFunction.Laplace used the frequencies of
 the last row only

---
 pmesh/transfer.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pmesh/transfer.py b/pmesh/transfer.py
index dbf701e..2253a4d 100644
--- a/pmesh/transfer.py
+++ b/pmesh/transfer.py
@@ -201,9 +201,8 @@ class TransferFunction:
             w2 = w[0][row] ** 2
             for wi in w[1:]:
                 w2 = w2 + wi[0] ** 2
-            w2[w2 == 0] = numpy.inf
             w2 *= -1
-        complex[:] *= w2
+            complex[row] *= w2
 
     @staticmethod
     def Poisson(pm, complex):
-- 
2.43.0


From b076f6d72835743f1f3f8cf4b1cd7b63d7e5d9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:59 +0000
Subject: [PATCH 38/67] fix: lic returned the number of mesh points, not the
 integral

The result was passed as the smoothing length instead of the mass.
---
 pmesh/lic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/lic.py b/pmesh/lic.py
index a8c4df2..67e52e8 100644
--- a/pmesh/lic.py
+++ b/pmesh/lic.py
@@ -75,4 +75,4 @@ def lic(vectors, kernel, length, ds, resampler=None, texture=None, normalize=Tru
 
             s += ds
 
-    return pm.paint(Q, f, resampler='nearest')
+    return pm.paint(Q, mass=f, resampler='nearest')
-- 
2.43.0


From a0431e0226113d6f10d541b22bec2840525af761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:59 +0000
Subject: [PATCH 39/67] fix: length and step of lic are in pixels for any box
 size

---
 pmesh/lic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pmesh/lic.py b/pmesh/lic.py
index 67e52e8..a701868 100644
--- a/pmesh/lic.py
+++ b/pmesh/lic.py
@@ -69,6 +69,8 @@ def lic(vectors, kernel, length, ds, resampler=None, texture=None, normalize=Tru
             layout = pm.decompose(x, smoothing=vmax * ds * 0.5 + resampler.support * 0.5)
             for d, v in enumerate(vectors):
                 dx[..., d] = v.readout(x, layout=layout, resampler=resampler) * ds
+            # x is in units of the box
+            dx[...] *= pm.BoxSize / pm.Nmesh
             x[...] += dx * 0.5 * sign
             f[...] += texture.readout(x, layout=layout, resampler=resampler) * k * ds
             x[...] += dx * 0.5 * sign
-- 
2.43.0


From 19c5a35d74b513ab1ca8b38e05a8a6791cd34ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:59 +0000
Subject: [PATCH 40/67] fix: decompose for the largest vector of all ranks in
 lic

---
 pmesh/lic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pmesh/lic.py b/pmesh/lic.py
index a701868..77f4d6c 100644
--- a/pmesh/lic.py
+++ b/pmesh/lic.py
@@ -1,4 +1,5 @@
 import numpy
+from mpi4py import MPI
 from .window import FindResampler
 
 def lic(vectors, kernel, length, ds, resampler=None, texture=None, normalize=True):
@@ -58,7 +59,8 @@ def lic(vectors, kernel, length, ds, resampler=None, texture=None, normalize=Tru
     resampler = FindResampler(resampler)
 
     f = texture.readout(Q, resampler='nearest')
-    vmax = max(abs(v[...]).max() for v in vectors)
+    # largest on any rank, because the lines leave the local mesh
+    vmax = pm.comm.allreduce(max(abs(v[...]).max(initial=0.0) for v in vectors), MPI.MAX)
 
     for sign in [-1, +1]:
         x = Q.copy()
-- 
2.43.0


From e247f5eb5c7736670ea58a31dae743d437ff8aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:10 +0000
Subject: [PATCH 41/67] fix: gather data in Fortran order

The rows sent back were mixed up.
---
 pmesh/domain.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pmesh/domain.py b/pmesh/domain.py
index 7903e79..7ac0582 100644
--- a/pmesh/domain.py
+++ b/pmesh/domain.py
@@ -276,6 +276,8 @@ class Layout(object):
         dt.Commit()
 
         recvbuffer = numpy.empty(len(self.indices), dtype=dtype, order='C')
+        # Fortran ordered data would be sent in its own order
+        data = numpy.ascontiguousarray(data)
         self.comm.Barrier()
 
 
-- 
2.43.0


From f747c82d0fcf7da1be166b0083d9fa8ec139cdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:48 +0000
Subject: [PATCH 42/67] fix: route masses and smoothing lengths given as lists

---
 pmesh/pm.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 9306d8e..7d8c731 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -1149,8 +1149,7 @@ def exchange(layout, value):
     if value is None:
         return None
 
-    if numpy.isscalar(value):
-        value = numpy.array(value)
+    value = numpy.asarray(value)
 
     if value.ndim != 0:
         localvalue = layout.exchange(value)
-- 
2.43.0


From 32638b0c28a9640459862ffbcb7e9b82fdf59601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:51 +0000
Subject: [PATCH 43/67] fix: power spectrum of the legacy transfer functions

It weighted by the first axis, as of an older layout, and failed with an
IndexError; kept the sum of w of the last row only; and made collective
calls row by row, which hangs if ranks hold different numbers of rows.
---
 pmesh/transfer.py | 41 +++++++++++++++++------------------------
 1 file changed, 17 insertions(+), 24 deletions(-)

diff --git a/pmesh/transfer.py b/pmesh/transfer.py
index 2253a4d..ad10b2c 100644
--- a/pmesh/transfer.py
+++ b/pmesh/transfer.py
@@ -143,41 +143,34 @@ class TransferFunction:
 
             P = numpy.zeros(len(psout))
             N = numpy.zeros(len(psout))
+            wsum = numpy.zeros(len(psout))
+
+            # the singular plane is single counted (r2c transform), thus
+            # it is down weighted by 0.5
+            singular = numpy.where(w[-1][0] == 0, 0.5, 1.0)
 
             for row in range(complex.shape[0]):
-                # pickup the singular plane that is single counted (r2c transform)
-                singular = w[0][-1] == 0
                 scratch = w[0][row] ** 2
                 for wi in w[1:]:
                     scratch = scratch + wi[0] ** 2
 
                 # now scratch stores w ** 2
                 dig = numpy.digitize(scratch.flat, w2edges)
+                weight = singular + numpy.zeros(scratch.shape)
 
-                # take the sum of w
-                scratch **= 0.5
-                # the singular plane is down weighted by 0.5
-                scratch[singular] *= 0.5
-
-                wsum = numpy.bincount(dig, weights=scratch.flat, minlength=wout.size + 2)[1: -1]
-                wsum = comm.allreduce(wsum, MPI.SUM)
-
-                # take the sum of weights
-                scratch[...] = 1.0
-                # the singular plane is down weighted by 0.5
-                scratch[singular] = 0.5
-
-                N1 = numpy.bincount(dig, weights=scratch.flat, minlength=wout.size + 2)[1: -1]
-                N += comm.allreduce(N1, MPI.SUM)
+                def bin(value):
+                    value = (value * weight).ravel()
+                    return numpy.bincount(dig, weights=value, minlength=wout.size + 2)[1: -1]
 
-                # take the sum of power
-                numpy.abs(complex[row], out=scratch)
-                scratch[...] **= 2.0
-                # the singular plane is down weighted by 0.5
-                scratch[singular] *= 0.5
+                # take the sum of w, of weights, and of power
+                wsum += bin(scratch ** 0.5)
+                N += bin(1.0)
+                P += bin(numpy.abs(complex[row]) ** 2.0)
 
-                P1 = numpy.bincount(dig, weights=scratch.flat, minlength=wout.size + 2)[1: -1]
-                P += comm.allreduce(P1, MPI.SUM)
+            # the number of rows may differ between ranks
+            wsum = comm.allreduce(wsum, MPI.SUM)
+            N = comm.allreduce(N, MPI.SUM)
+            P = comm.allreduce(P, MPI.SUM)
 
             psout[:] = P / N 
             wout[:] = wsum / N
-- 
2.43.0


From 13c7d24781beaad4cadacb7a2ae8884cbcfd1e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:41 +0000
Subject: [PATCH 44/67] fix: normalise the forward derivative of paint in the
 engine like paint

---
 pmesh/abopt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pmesh/abopt.py b/pmesh/abopt.py
index dec6048..1c7630e 100644
--- a/pmesh/abopt.py
+++ b/pmesh/abopt.py
@@ -163,7 +163,9 @@ class ParticleMeshEngine(Engine):
     def _(engine, x_, mesh_, x, layout, layout_):
         pm = engine.pm
         if x_ is ZERO: x_ = None
+        N = pm.comm.allreduce(len(x))
         mesh_[...] = pm.paint_jvp(x, v_pos=x_, layout=layout)
+        mesh_[...][...] *= 1.0 * pm.Nmesh.prod() / N
 
     @statement(aout=['value'], ain=['x', 'mesh', 'layout'])
     def readout(engine, value, x, mesh, layout):
-- 
2.43.0


From f972a64f227035febfbda6509560aba51094218a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:18 +0000
Subject: [PATCH 45/67] fix: forward derivative of a product with a constant in
 the engine

---
 pmesh/abopt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pmesh/abopt.py b/pmesh/abopt.py
index 1c7630e..be87d2a 100644
--- a/pmesh/abopt.py
+++ b/pmesh/abopt.py
@@ -263,7 +263,8 @@ class ParticleMeshEngine(Engine):
 
     @multiply.defjvp
     def _(engine, x1_, x2_, y_, x1, x2):
-        y_[...] = x1_ * x2 + x1 * x2_
+        # ZERO only works on the left of a field
+        y_[...] = x1_ * x2 if x2_ is ZERO else x1_ * x2 + x2_ * x1
 
     @statement(ain=['x'], aout=['y'])
     def to_scalar(engine, x, y):
-- 
2.43.0


From 743ea2de1539b69e194cef70e68189b331fbd524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:18 +0000
Subject: [PATCH 46/67] fix: forward derivative of a sum with a constant in the
 engine

---
 pmesh/abopt.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pmesh/abopt.py b/pmesh/abopt.py
index be87d2a..a19607d 100644
--- a/pmesh/abopt.py
+++ b/pmesh/abopt.py
@@ -250,7 +250,10 @@ class ParticleMeshEngine(Engine):
 
     @add.defjvp
     def _(engine, y_, x1_, x2_):
-        y_[...] = x1_ + x2_
+        # ZERO only works on the left of a field; the copies are for
+        # statements that work in place
+        if x2_ is ZERO: x1_, x2_ = x2_, x1_
+        y_[...] = 1.0 * x2_ if x1_ is ZERO else x1_ + x2_
 
     @statement(aout=['y'], ain=['x1', 'x2'])
     def multiply(engine, x1, x2, y):
-- 
2.43.0


From 459e3528f10f36973976ff551ddadd5f1fffe869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:18 +0000
Subject: [PATCH 47/67] fix: do not share the gradient of a sum between its
 operands in the engine

---
 pmesh/abopt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pmesh/abopt.py b/pmesh/abopt.py
index a19607d..c0aad69 100644
--- a/pmesh/abopt.py
+++ b/pmesh/abopt.py
@@ -245,8 +245,9 @@ class ParticleMeshEngine(Engine):
 
     @add.defvjp
     def _(engine, _y, _x1, _x2):
+        # two objects, because some statements work in place
         _x1[...] = _y
-        _x2[...] = _y
+        _x2[...] = 1.0 * _y
 
     @add.defjvp
     def _(engine, y_, x1_, x2_):
-- 
2.43.0


From 74e6a4e449044714c58f19851f1869b23b34e046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:48 +0000
Subject: [PATCH 48/67] fix: gradient of an overwritten component in the engine

---
 pmesh/abopt.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pmesh/abopt.py b/pmesh/abopt.py
index c0aad69..defcbca 100644
--- a/pmesh/abopt.py
+++ b/pmesh/abopt.py
@@ -220,7 +220,9 @@ class ParticleMeshEngine(Engine):
 
     @assign_component.defvjp
     def _(engine, _attribute, _value, dim):
-        _value[...] = _attribute[..., dim]
+        _value[...] = _attribute[..., dim].copy()
+        # the component that was there before has been overwritten
+        _attribute[..., dim] = 0
 
     @assign_component.defjvp
     def _(engine, attribute_, value_, dim):
-- 
2.43.0


From 2862648e2e49dd3d433eec9f9afae6f42f9eba38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:05 +0000
Subject: [PATCH 49/67] fix: combine masks of different shapes in the engine

---
 pmesh/abopt.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pmesh/abopt.py b/pmesh/abopt.py
index defcbca..b4c4633 100644
--- a/pmesh/abopt.py
+++ b/pmesh/abopt.py
@@ -4,6 +4,8 @@ from warnings import warn
 
 warn("This module is deprecated and likely no longer maintained; a maintained version is moved to cosmo4d to minimize changes in pmesh.", DeprecationWarning)
 
+import functools
+
 import numpy
 from abopt.vmad2 import ZERO, Engine, statement, programme, CodeSegment, Literal
 from abopt.abopt2 import VectorSpace
@@ -12,7 +14,7 @@ from pmesh.pm import ParticleMesh, RealField, ComplexField
 def nyquist_mask(factor, v):
     # any nyquist modes are set to 0 if the transfer function is complex
     mask = (numpy.imag(factor) == 0) | \
-            ~numpy.bitwise_and.reduce([(ii == 0) | (ii == ni // 2) for ii, ni in zip(v.i, v.Nmesh)])
+            ~functools.reduce(numpy.bitwise_and, [(ii == 0) | (ii == ni // 2) for ii, ni in zip(v.i, v.Nmesh)])
     return factor * mask
 
 class ParticleMeshVectorSpace(VectorSpace):
@@ -109,7 +111,7 @@ class ParticleMeshEngine(Engine):
     @staticmethod
     def _lowpass_filter(k, v, Neff):
         k0s = 2 * numpy.pi / v.BoxSize
-        mask = numpy.bitwise_and.reduce([abs(ki) <= Neff//2 * k0 for ki, k0 in zip(k, k0s)])
+        mask = functools.reduce(numpy.bitwise_and, [abs(ki) <= Neff//2 * k0 for ki, k0 in zip(k, k0s)])
         return v * mask
 
     @statement(aout=['real'], ain=['real'])
-- 
2.43.0


From 4fadce1956e5f4aec896a545869e105891290899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:19 +0000
Subject: [PATCH 50/67] fix: an odd mesh has no Nyquist mode for the engine to
 mask

---
 pmesh/abopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/abopt.py b/pmesh/abopt.py
index b4c4633..32e0c11 100644
--- a/pmesh/abopt.py
+++ b/pmesh/abopt.py
@@ -14,7 +14,7 @@ from pmesh.pm import ParticleMesh, RealField, ComplexField
 def nyquist_mask(factor, v):
     # any nyquist modes are set to 0 if the transfer function is complex
     mask = (numpy.imag(factor) == 0) | \
-            ~functools.reduce(numpy.bitwise_and, [(ii == 0) | (ii == ni // 2) for ii, ni in zip(v.i, v.Nmesh)])
+            ~functools.reduce(numpy.bitwise_and, [(ii == 0) | (2 * ii == ni) for ii, ni in zip(v.i, v.Nmesh)])
     return factor * mask
 
 class ParticleMeshVectorSpace(VectorSpace):
-- 
2.43.0


From 959abe995bcaadc6cf5e8ba014d9cf6934a71ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:38 +0000
Subject: [PATCH 51/67] fix: store the derivatives of lowpass in the engine

---
 pmesh/abopt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pmesh/abopt.py b/pmesh/abopt.py
index 32e0c11..41281e2 100644
--- a/pmesh/abopt.py
+++ b/pmesh/abopt.py
@@ -122,13 +122,13 @@ class ParticleMeshEngine(Engine):
 
     @lowpass.defvjp
     def _(engine, _real, Neff):
-        _real.c2r_vjp().apply(
+        _real.c2r_vjp(out=Ellipsis).apply(
             lambda k, v: engine._lowpass_filter(k, v, Neff),
             out=Ellipsis).r2c_vjp(out=Ellipsis)
 
     @lowpass.defjvp
     def _(engine, real_, Neff):
-        real_.r2c().apply(
+        real_.r2c(out=Ellipsis).apply(
             lambda k, v: engine._lowpass_filter(k, v, Neff),
             out=Ellipsis).c2r(out=Ellipsis)
 
-- 
2.43.0


From 1200f34237b1b158e3973e92a252682def005e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:35 +0000
Subject: [PATCH 52/67] fix: inner product of positions in the vector space of
 the engine

---
 pmesh/abopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/abopt.py b/pmesh/abopt.py
index 41281e2..137ff1e 100644
--- a/pmesh/abopt.py
+++ b/pmesh/abopt.py
@@ -54,7 +54,7 @@ class ParticleMeshVectorSpace(VectorSpace):
         elif isinstance(a, numpy.ndarray):
             assert len(a) == len(b)
             assert len(a) == self.qshape[0]
-            return self.pm.comm.allreduce(a.dot(b))
+            return self.pm.comm.allreduce((a * b).sum())
         else:
             raise TypeError("type unknown")
 
-- 
2.43.0


From 452e629a77ea95dd8746d8f893a98f985709aae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:38 +0000
Subject: [PATCH 53/67] fix: keep the imaginary part of a function of a real
 field

---
 pmesh/pm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 7d8c731..ce21448 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -196,6 +196,9 @@ class Field(NDArrayLike):
             # just return the ndarray
             if result.shape != self.shape:
                 return result
+            # complex numbers do not fit in a real field
+            if not numpy.can_cast(result.dtype, self.dtype, 'same_kind'):
+                return result
             # really only cast when we are using simple +-* **, etc.
             return self.pm.create(_gettype(self), value=result)
         if type(result) is tuple:
-- 
2.43.0


From a1e1fa2bd4b906112ec85799a7780fae1b8acf0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:39 +0000
Subject: [PATCH 54/67] fix: more than 32767 domains along one direction

---
 pmesh/_domain.pyx | 4 ++--
 pmesh/domain.py   | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pmesh/_domain.pyx b/pmesh/_domain.pyx
index b24a0e3..976a474 100644
--- a/pmesh/_domain.pyx
+++ b/pmesh/_domain.pyx
@@ -10,8 +10,8 @@ def gridnd_fill(
         int mode,
         int [::1] counts,
         int [:] adims,
-        short int [:, ::1] sil,
-        short int [:, ::1] sir,
+        int [:, ::1] sil,
+        int [:, ::1] sir,
         int periodic,
         short int [::1] domain_is_degenerate,
         int [::1] DomainAssign,
diff --git a/pmesh/domain.py b/pmesh/domain.py
index 7ac0582..b74c5f9 100644
--- a/pmesh/domain.py
+++ b/pmesh/domain.py
@@ -459,7 +459,7 @@ class GridND(object):
         periodic = self.periodic
 
         if Npoint != 0:
-            sil = numpy.empty((self.ndim, Npoint), dtype='i2', order='C')
+            sil = numpy.empty((self.ndim, Npoint), dtype='i4', order='C')
             chunksize = 1024 * 48
             for i in range(0, Npoint, chunksize):
                 s = slice(i, i + chunksize)
@@ -628,8 +628,8 @@ class GridND(object):
         periodic = self.periodic
 
         if Npoint != 0:
-            sil = numpy.empty((self.ndim, Npoint), dtype='i2', order='C')
-            sir = numpy.empty((self.ndim, Npoint), dtype='i2', order='C')
+            sil = numpy.empty((self.ndim, Npoint), dtype='i4', order='C')
+            sir = numpy.empty((self.ndim, Npoint), dtype='i4', order='C')
             chunksize = 1024 * 48
             for i in range(0, Npoint, chunksize):
                 s = slice(i, i + chunksize)
-- 
2.43.0


From 3f6f45fae948be33723299e143d22a74a556e208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:05 +0000
Subject: [PATCH 55/67] fix: the type of the uniform particle grid

generate_uniform_particle_grid ignored the argument dtype, and its default
is documented as the precision of the mesh (dtype == self.dtype was a typo).
---
 pmesh/pm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index ce21448..e2d4dcc 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -1730,7 +1730,7 @@ class ParticleMesh(object):
                 grid : array_like (N, ndim)
                 id   : array_like (N)
         """
-        if dtype is None: dtype == self.dtype
+        if dtype is None: dtype = numpy.zeros(1, dtype=self.dtype).real.dtype
 
         if shift is None:
             warnings.warn(
@@ -1745,6 +1745,7 @@ class ParticleMesh(object):
 
         source[...] += shift
         source[...] *= self.BoxSize / self.Nmesh
+        source = source.astype(dtype, copy=False)
         source.flags.writeable = False
 
         if not return_id:
-- 
2.43.0


From 6b29fe90fb83ad41118f2aedd20d22a27193e3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:54 +0000
Subject: [PATCH 56/67] fix: in-place operators and out= return the field they
 write to

f += g rebound f to a copy of the field it had changed, so that the next
in-place operator no longer changed the field that other names refer to.
---
 pmesh/pm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index e2d4dcc..b01771d 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -187,6 +187,10 @@ class Field(NDArrayLike):
                 for x in out)
 
         result = getattr(ufunc, method)(*inputs, **kwargs)
+        if out:
+            # the result is already in the given objects; in-place operators
+            # rely on this to keep operating on the same field.
+            return out if len(out) > 1 else out[0]
         def cast(result):
             # booleans, cannot be reasonable Field objects
             # just return the ndarray
-- 
2.43.0


From 37453ebb841cd71d15c3c8198cca9f4342272437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:00 +0000
Subject: [PATCH 57/67] fix: ranks without items gathered means of another type
 than the others

---
 pmesh/domain.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pmesh/domain.py b/pmesh/domain.py
index b74c5f9..d6451a2 100644
--- a/pmesh/domain.py
+++ b/pmesh/domain.py
@@ -289,6 +289,9 @@ class Layout(object):
 
         if self.sendlength == 0:
             if out is None:
+                if mode == 'mean':
+                    # of the same type as on the other ranks, see below
+                    dtype = numpy.dtype((numpy.result_type(data.dtype, 'f4'), data.shape[1:]))
                 out = numpy.empty(self.sendlength, dtype=dtype)
             return out
 
-- 
2.43.0


From c369cbc724b1ce22014a6e872a914e416907c5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:44 +0000
Subject: [PATCH 58/67] fix: sum large integers exactly in Layout.gather

---
 pmesh/domain.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pmesh/domain.py b/pmesh/domain.py
index d6451a2..cae5b06 100644
--- a/pmesh/domain.py
+++ b/pmesh/domain.py
@@ -301,6 +301,9 @@ class Layout(object):
             else:
                 out[...] = recvbuffer
             return out
+        if mode == 'sum' and data.dtype.kind in 'iu':
+            # bincount sums in floating point, which cannot hold large integers
+            mode = numpy.add
         if mode == 'sum':
             return bincountv(self.indices, recvbuffer, minlength=self.sendlength, out=out)
 
@@ -314,6 +317,8 @@ class Layout(object):
             good = N > 0
             if out is None:
                 out = numpy.zeros(self.sendlength, dtype=dtype)
+            if not good.all():
+                out[~good] = 0
             if good.any():
                 out[good] = mode.reduceat(recvbuffer, offset[good])
             return out
-- 
2.43.0


From ef7067648c1c77b964fffebde5aa94f790feae3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:55 +0000
Subject: [PATCH 59/67] fix: GridND.isprimary of positions given as a list

---
 pmesh/domain.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pmesh/domain.py b/pmesh/domain.py
index cae5b06..4727f56 100644
--- a/pmesh/domain.py
+++ b/pmesh/domain.py
@@ -567,6 +567,8 @@ class GridND(object):
 
         """
 
+        pos = numpy.asarray(pos)
+
         if self.primary_region is None:
             return numpy.zeros(len(pos), dtype='?')
 
-- 
2.43.0


From 39a4b4e6e410339dd5eda13ddeba3e26b57542e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:11 +0000
Subject: [PATCH 60/67] fix: refuse a canvas that is neither native float nor
 double

Arrays of half or extended precision, or of the other byte order, were read
and written as if they were native floats or doubles.
---
 pmesh/_window.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pmesh/_window.pyx b/pmesh/_window.pyx
index 0435992..8e6afc0 100644
--- a/pmesh/_window.pyx
+++ b/pmesh/_window.pyx
@@ -132,7 +132,8 @@ cdef class ResampleWindow(object):
         cdef int d
         cdef int i
 
-        assert real.dtype.kind == 'f'
+        # the canvas is accessed as native float or double
+        assert real.dtype == 'f8' or real.dtype == 'f4'
 
         cdef PMeshPainter painter[1]
 
@@ -173,7 +174,8 @@ cdef class ResampleWindow(object):
         cdef int d
         cdef int i
 
-        assert real.dtype.kind == 'f'
+        # the canvas is accessed as native float or double
+        assert real.dtype == 'f8' or real.dtype == 'f4'
 
         cdef PMeshPainter painter[1]
 
-- 
2.43.0


From ccbd5ea18098449f76bac7308e466a5656b6b20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:11 +0000
Subject: [PATCH 61/67] fix: do not paint to a read-only canvas

---
 pmesh/_window.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pmesh/_window.pyx b/pmesh/_window.pyx
index 8e6afc0..89e35c0 100644
--- a/pmesh/_window.pyx
+++ b/pmesh/_window.pyx
@@ -134,6 +134,8 @@ cdef class ResampleWindow(object):
 
         # the canvas is accessed as native float or double
         assert real.dtype == 'f8' or real.dtype == 'f4'
+        if not real.flags.writeable:
+            raise ValueError('the canvas is read-only')
 
         cdef PMeshPainter painter[1]
 
-- 
2.43.0


From df6ca5ad66105ebd4913a670a31d019df754a81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:20 +0000
Subject: [PATCH 62/67] fix: get and set modes of which only the conjugate is
 stored

cgetitem returned 0 for modes in the half that a compressed field does not
store, also right after csetitem had set them (by way of their conjugate);
csetitem returned 0 instead of the value.
---
 pmesh/pm.py | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index b01771d..ca4da92 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -292,9 +292,30 @@ class Field(NDArrayLike):
         else:
             return value, None
 
+    def _cdual(self, index):
+        """ index of the conjugate mode, if the field is compressed and stores
+            that mode only; None if the mode of index is stored.
+        """
+        if not isinstance(self, BaseComplexField): return None
+        if index[self.ndim - 1] % self.Nmesh[-1] < self.cshape[-1]: return None
+
+        dualindex = numpy.array(index, copy=True)
+        dualindex[:self.ndim] = -dualindex[:self.ndim] % self.Nmesh
+        return dualindex
+
+    def _cconjugate(self, index, y):
+        """ value of the conjugate mode, given the value of the mode (part) of index """
+        if len(index) == self.ndim + 1:
+            return -y if index[-1] == 1 else y
+        return numpy.conjugate(y)
+
     def cgetitem(self, index):
         """ get a value from absolute index collectively.
         """
+        dualindex = self._cdual(index)
+        if dualindex is not None:
+            return self._cconjugate(index, self.cgetitem(dualindex))
+
         value, localindex = self._ctol(index)
         if localindex is not None:
             ret = value[localindex]
@@ -311,6 +332,11 @@ class Field(NDArrayLike):
         """
 
         index = numpy.array(index, copy=True)
+        dualindex = self._cdual(index)
+        if dualindex is not None:
+            return self._cconjugate(index,
+                    self.csetitem(dualindex, self._cconjugate(index, y)))
+
         value, localindex = self._ctol(index)
         if isinstance(self, BaseComplexField):
             dualindex = numpy.negative(index)
-- 
2.43.0


From ea5df130bb9dbad5dd48856bb7782ea9bd3a232a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:59 +0000
Subject: [PATCH 63/67] fix: keep the imaginary part when transposing and
 resizing fields

On a mesh of complex numbers ctranspose, upsample, downsample (and hence
preview with Nmesh) dropped the imaginary part: they read and paint the
field, and both only see the real part.
---
 pmesh/pm.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index ca4da92..6dc047e 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -746,13 +746,19 @@ class RealField(Field):
 
         q = self.pm.generate_uniform_particle_grid(shift=0)
         v = self.readout(q, resampler='nnb')
+        if numpy.iscomplexobj(self.value):
+            # readout and paint only see the real part
+            vi = (self * -1j).readout(q, resampler='nnb')
 
         # transpose the coordinates
         q = q[..., axes]
 
         layout = pm.decompose(q, smoothing='nnb')
 
-        return pm.paint(q, mass=v, resampler='nnb', layout=layout)
+        out = pm.paint(q, mass=v, resampler='nnb', layout=layout)
+        if numpy.iscomplexobj(self.value):
+            out.value.imag[...] = pm.paint(q, mass=vi, resampler='nnb', layout=layout).value.real
+        return out
 
     def csum(self, dtype=None):
         """ Collective mean. Sum of the entire mesh. (Must be called collectively)"""
@@ -1275,6 +1281,17 @@ class _pmtemplate(object):
     def plans(self):
         return self._tuple[1]
 
+def _with_imaginary_part(func):
+    # readout and paint only see the real part of the field;
+    # treat the imaginary part in the same way.
+    @functools.wraps(func)
+    def resample(self, source, *args, **kwargs):
+        out = func(self, source, *args, **kwargs)
+        if numpy.iscomplexobj(source.value) and numpy.iscomplexobj(out.value):
+            out.value.imag[...] = func(self, source * -1j, *args, **kwargs).value.real
+        return out
+    return resample
+
 class ParticleMesh(object):
     """
     ParticleMesh provides an interface to solver for forces
@@ -1972,6 +1989,7 @@ class ParticleMesh(object):
 
         return out_pos, out_mass
 
+    @_with_imaginary_part
     def upsample(self, source, resampler=None, keep_mean=False):
         """ Resample an image with the upsample method.
 
@@ -2022,6 +2040,7 @@ class ParticleMesh(object):
         # all are on the grid. NGB is faster, and no need to decompose
         return self.paint(q, mass=f, resampler='nnb', transform=self.affine_grid)
 
+    @_with_imaginary_part
     def downsample(self, source, resampler=None, keep_mean=False):
         """ Resample an image with the downsample method.
 
-- 
2.43.0


From cb9ec8c151f8c585476f435246f37318727b8076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:33 +0000
Subject: [PATCH 64/67] fix: refuse mismatched data on all ranks

A rank whose columns had unequal lengths, or whose items had another shape
than on the first rank, raised alone and left the other ranks waiting for
ever. Packed columns of another item shape were truncated or repeated.
---
 pmesh/domain.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pmesh/domain.py b/pmesh/domain.py
index 4727f56..197f225 100644
--- a/pmesh/domain.py
+++ b/pmesh/domain.py
@@ -55,10 +55,18 @@ def bincountv(x, weights, minlength=None, dtype=None, out=None):
 def promote(data, comm):
     data = numpy.asarray(data)
     dtype_root = comm.bcast(data.dtype)
-    data = data.astype(dtype_root)
     shape_root = comm.bcast(data.shape)
-    if shape_root[1:] != data.shape[1:]:
+    match = shape_root[1:] == data.shape[1:]
+    if len(data) > 0 and dtype_root.names is not None and data.dtype.names is not None:
+        # astype would truncate or repeat columns of another shape
+        columns = lambda dtype: [dtype[name].shape for name in dtype.names]
+        match = match and columns(dtype_root) == columns(data.dtype)
+    # raise on all ranks, or the others wait for ever.
+    if not all(comm.allgather(match)):
         raise ValueError('the shape of the data does not match across ranks.')
+    if len(data) == 0:
+        return numpy.empty(data.shape, dtype=dtype_root)
+    data = data.astype(dtype_root)
     return data
 
 def pack_arrays(seq):
@@ -164,6 +172,10 @@ class Layout(object):
 
         """
         if pack:
+            # packing fails on this rank alone, and the others wait for ever.
+            if any(self.comm.allgather(any(len(arg) != self.sendlength for arg in args))):
+                raise ValueError(
+                'the length of data does not match that used to build the layout')
             data = pack_arrays(args)
             newdata = self._exchange(data)
             r = tuple([newdata[name] for name in newdata.dtype.names])
-- 
2.43.0


From dd1f225831a95793a51d3337539c818d81ff5ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:33 +0000
Subject: [PATCH 65/67] fix: refuse an unknown reduction also on ranks that
 gather nothing

---
 pmesh/domain.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pmesh/domain.py b/pmesh/domain.py
index 197f225..2d53768 100644
--- a/pmesh/domain.py
+++ b/pmesh/domain.py
@@ -299,6 +299,10 @@ class Layout(object):
         dt.Free()
         self.comm.Barrier()
 
+        # also on ranks that gather nothing
+        if not isinstance(mode, numpy.ufunc) and mode not in ('all', 'sum', 'mean', 'any'):
+            raise NotImplementedError
+
         if self.sendlength == 0:
             if out is None:
                 if mode == 'mean':
-- 
2.43.0


From b9baece47802a13dac8230872eeb6e9a33286dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:31 +0000
Subject: [PATCH 66/67] fix: do not mix up what is pulled and pushed between
 two images

---
 pmesh/coarray.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pmesh/coarray.py b/pmesh/coarray.py
index 01af88c..219869c 100644
--- a/pmesh/coarray.py
+++ b/pmesh/coarray.py
@@ -114,6 +114,8 @@ class coaproxy(object):
 class Op(object): pass
 
 class Pull(Op):
+    # a pull shall not receive what is pushed by the same image
+    tag = 0
     def __init__(self, coa, localindex, proxy):
         self.localindex = localindex
         self.coa = coa
@@ -124,7 +126,7 @@ class Pull(Op):
     def start(self):
         comm = self.proxy.comm
     #    print('irecv into', self.proxy.coindex, self.buffer.data)
-        return comm.Irecv(buf=self.buffer, source=self.proxy.coindex)
+        return comm.Irecv(buf=self.buffer, source=self.proxy.coindex, tag=self.tag)
 
     def finish(self):
         self.coa[self.localindex] = self.buffer
@@ -132,6 +134,7 @@ class Pull(Op):
         self.done = True
 
 class Push(Op):
+    tag = 1
     def __init__(self, proxy, value):
         self.proxy = proxy
         self.buffer = value
@@ -140,7 +143,9 @@ class Push(Op):
     def start(self):
         comm = self.proxy.comm
     #    print('isend to ', self.proxy.coindex, self.buffer.data)
-        return comm.Isend(self.buffer, dest=self.proxy.coindex)
+        # continuous, and not changed by what this image receives meanwhile
+        self.buffer = numpy.array(self.buffer, order='C')
+        return comm.Isend(self.buffer, dest=self.proxy.coindex, tag=self.tag)
 
     def finish(self):
         self.done = True
@@ -271,7 +276,7 @@ class coarray(numpy.ndarray):
                 value = value[index]
 
             print('sending to', senddest, value.data, value, self)
-            comm.Send(value, dest=senddest)
+            comm.Send(numpy.ascontiguousarray(value), dest=senddest, tag=Pull.tag)
 
         for recvindices, recvsource in recvactions:
             value = self
@@ -283,8 +288,8 @@ class coarray(numpy.ndarray):
 
             print('receiving from ', recvsource, value.data)
             # trigger setitem
-            buf = numpy.zeros_like(value[recvindices[-1]])
-            comm.Recv(buf, recvsource)
+            buf = numpy.zeros_like(value[recvindices[-1]], order='C')
+            comm.Recv(buf, recvsource, tag=Push.tag)
             value[recvindices[-1]] = buf
 
         MPI.Request.waitall(requests)
-- 
2.43.0


From 5ad74f373e7dd70ccd8bd7f314ee0d690034dc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:31 +0000
Subject: [PATCH 67/67] fix: cast what is pushed to the type of the co-array

---
 pmesh/coarray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/coarray.py b/pmesh/coarray.py
index 219869c..bedb555 100644
--- a/pmesh/coarray.py
+++ b/pmesh/coarray.py
@@ -144,7 +144,7 @@ class Push(Op):
         comm = self.proxy.comm
     #    print('isend to ', self.proxy.coindex, self.buffer.data)
         # continuous, and not changed by what this image receives meanwhile
-        self.buffer = numpy.array(self.buffer, order='C')
+        self.buffer = numpy.array(self.buffer, dtype=self.proxy.coa.dtype, order='C')
         return comm.Isend(self.buffer, dest=self.proxy.coindex, tag=self.tag)
 
     def finish(self):
-- 
2.43.0

