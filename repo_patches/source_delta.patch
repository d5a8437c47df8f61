From e8d67abd6d3b420a85a4a3b54d02c78603e7f082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:13 +0000
Subject: [PATCH 01/82] fix: findrfc reads past the end of an even number of
 turning points

The rainflow routines (Python wrapper, numba and C versions) looked at the
minimum to the right of the last maximum even when the sequence ends with
that maximum: an IndexError for two turning points and an out-of-bounds
read otherwise.
---
 source/c_library/c_functions.c | 13 ++++++++-----
 src/wafo/_misc_numba.py        |  5 +++--
 src/wafo/misc.py               |  4 ++--
 3 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/source/c_library/c_functions.c b/source/c_library/c_functions.c
index 352c0ad..84c6df2 100644
--- a/source/c_library/c_functions.c
+++ b/source/c_library/c_functions.c
@@ -15,18 +15,20 @@
 
 void findrfc(double *y1,double hmin, int *ind, int n,int *info) {
    double xminus, xplus, Tpl, Tmi, *y, Tstart;
-   int i, j, ix=0, NC, iy;
+   int i, j, ix=0, NC, iy, m;
    info[0] = 0;
    if (*(y1+0)> *(y1+1)){
    /* if first is a max , ignore the first max*/
       y=&(*(y1+1));
       NC=floor((n-1)/2);
       Tstart=1;
+      m=n-1; /* number of turningpoints left */
    }
    else {
       y=y1;
       NC=floor(n/2);
       Tstart=0;
+      m=n;
    }
 
    if (NC<1){
@@ -34,11 +36,11 @@ void findrfc(double *y1,double hmin, int *ind, int n,int *info) {
    }
 
 
-   if (( *(y+0) > *(y+1)) && ( *(y+1) > *(y+2)) ){
+   if ((m>2) && ( *(y+0) > *(y+1)) && ( *(y+1) > *(y+2)) ){
       info[0] = -1;
       return; /*This is not a sequence of turningpoints, exit */
    }
-   if ((*(y+0) < *(y+1)) && (*(y+1)< *(y+2))){
+   if ((m>2) && (*(y+0) < *(y+1)) && (*(y+1)< *(y+2))){
       info[0]=-1;
       return; /*This is not a sequence of turningpoints, exit */
    }
@@ -49,7 +51,8 @@ void findrfc(double *y1,double hmin, int *ind, int n,int *info) {
       Tmi=Tstart+2*i;
       Tpl=Tstart+2*i+2;
       xminus=*(y+2*i);
-      xplus=*(y+2*i+2);
+      /* an even number of turningpoints ends with a max: no min to the right */
+      xplus=(2*i+2<m) ? *(y+2*i+2) : xminus;
 
       if(i!=0){
      j=i-1;
@@ -74,7 +77,7 @@ void findrfc(double *y1,double hmin, int *ind, int n,int *info) {
       j=i+1;
       while((j<NC) ) {
      if (*(y+2*j+1) >= *(y+2*i+1)) goto L170;
-     if( (*(y+2*j+2) <= xplus) ){
+     if( (2*j+2<m) && (*(y+2*j+2) <= xplus) ){
         xplus=*(y+2*j+2);
         Tpl=(Tstart+2*j+2);
      }/*if*/
diff --git a/src/wafo/_misc_numba.py b/src/wafo/_misc_numba.py
index 9b3f85c..2e57083 100644
--- a/src/wafo/_misc_numba.py
+++ b/src/wafo/_misc_numba.py
@@ -172,7 +172,8 @@ def _findrfc(ind, y, h):
         Tmi = t_start + 2 * i
         Tpl = t_start + 2 * i + 2
         xminus = y[2 * i]
-        xplus = y[2 * i + 2]
+        # an even number of turning points ends with a max: no min to the right
+        xplus = y[2 * i + 2] if 2 * i + 2 < n else xminus
 
         if(i != 0):
             j = i - 1
@@ -193,7 +194,7 @@ def _findrfc(ind, y, h):
             while (j < nc):
                 if (y[2 * j + 1] >= y[2 * i + 1]):
                     break  # goto L170
-                if((y[2 * j + 2] <= xplus)):
+                if 2 * j + 2 < n and y[2 * j + 2] <= xplus:
                     xplus = y[2 * j + 2]
                     Tpl = (t_start + 2 * j + 2)
                 j += 1
diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index 296f95f..783636b 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -1327,8 +1327,8 @@ def findrfc(tp, h=0.0, method='clib'):
     if nc < 1:
         return zeros(0, dtype=int)  # No RFC cycles*/
 
-    if (y[0] > y[1] and y[1] > y[2] or
-            y[0] < y[1] and y[1] < y[2]):
+    if n > 2 and (y[0] > y[1] and y[1] > y[2] or
+                  y[0] < y[1] and y[1] < y[2]):
         warnings.warn('This is not a sequence of turningpoints, exit')
         return zeros(0, dtype=int)
 
-- 
2.43.0


From 445ebadfbcf8bc1152ec24b4a97a3f6b9230187f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:13 +0000
Subject: [PATCH 02/82] fix: findpeaks raised TypeError for data with fewer
 than two extremes

findtp returns None in that case, so the fallback to the maximum of the
data was never reached.
---
 src/wafo/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index 783636b..973cdf0 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -1195,7 +1195,7 @@ def findpeaks(data, n=2, min_h=None, min_p=0.0):
     ind = []
     for iy in range(nrows):  # find all peaks
         tp = findtp(data1[iy], min_h)
-        if len(tp):
+        if tp is not None and len(tp):
             ind = tp[1::2]  # extract indices to maxima only
         else:  # did not find any , try maximum
             ind = np.atleast_1d(data1[iy].argmax())
-- 
2.43.0


From 0adf0dc3231c463fb83842ecc683f07030b10141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:02 +0000
Subject: [PATCH 03/82] fix: level_crossings adds a spurious zero level when
 negative extremes are tied

---
 src/wafo/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/objects.py b/src/wafo/objects.py
index 9a494eb..d00d4e3 100644
--- a/src/wafo/objects.py
+++ b/src/wafo/objects.py
@@ -797,7 +797,7 @@ class CyclePairs(PlotData):
                 ii += 1
                 extr[:, ii] = extremes[:, i]
 
-        nx = extr[0].argmax() + 1
+        nx = ii + 1  # number of distinct levels
         levels = extr[0, 0:nx]
 
         def _upcrossings_and_maxima(extr, nx):
-- 
2.43.0


From 63409eddc666401be2cd66fa5f239586fbe82303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:45 +0000
Subject: [PATCH 04/82] fix: cycle_matrix projects cycles onto the wrong
 discrete level

---
 src/wafo/objects.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/wafo/objects.py b/src/wafo/objects.py
index d00d4e3..c842887 100644
--- a/src/wafo/objects.py
+++ b/src/wafo/objects.py
@@ -1053,15 +1053,15 @@ class CyclePairs(PlotData):
 
         # Make so that minima is in first column
         ix = np.flatnonzero(cp1 > cp2)
-        if np.any(ix):
+        if ix.size > 0:
             cp1[ix], cp2[ix] = cp2[ix], cp1[ix]
 
         # Make discretization
         a, b, n = param
 
         delta = (b - a) / (n - 1)  # Discretization step
-        cp1 = (cp1 - a) / delta + 1
-        cp2 = (cp2 - a) / delta + 1
+        cp1 = (cp1 - a) / delta
+        cp2 = (cp2 - a) / delta
 
         if ddef == 0:
             cp1 = np.clip(np.round(cp1), 0, n - 1)
@@ -1075,7 +1075,7 @@ class CyclePairs(PlotData):
         else:
             raise ValueError('Undefined discretization definition, ddef = {}'.format(ddef))
 
-        if np.any(ix):
+        if ix.size > 0:
             cp1[ix], cp2[ix] = cp2[ix], cp1[ix]
         return np.asarray(cp1, dtype=int), np.asarray(cp2, dtype=int)
 
-- 
2.43.0


From ce19bb016a5e89478d4d49a53ea9534460b3adea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:35 +0000
Subject: [PATCH 05/82] fix: moving_average raised AttributeError for sequences
 that are not arrays

---
 src/wafo/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index 973cdf0..f6c7a56 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -853,7 +853,7 @@ def moving_average(x, L, axis=0):
     _assert(L == np.round(L), 'L must be an integer')
 
     x1 = np.atleast_1d(x)
-    axes = np.arange(x.ndim)
+    axes = np.arange(x1.ndim)
 
     axes[0] = axis
     axes[axis] = 0
-- 
2.43.0


From f00571bf238419788dabde0d710dca7352a56fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:35 +0000
Subject: [PATCH 06/82] fix: findoutliers overlooked a missing first sample and
 kept a single spurious point as good

---
 src/wafo/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index f6c7a56..3b42a66 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -1717,7 +1717,7 @@ def findoutliers(x, zcrit=0.0, dcrit=None, ddcrit=None, verbose=False):
     _assert(2 < xn.size, 'The vector must have more than 2 elements!')
 
     i_missing = _find_nans(xn)
-    if np.any(i_missing):
+    if i_missing.size > 0:
         xn[i_missing] = 0.  # set NaN's to zero
     if dcrit is None:
         dcrit = 1.5 * xn.std()
@@ -1737,7 +1737,7 @@ def findoutliers(x, zcrit=0.0, dcrit=None, ddcrit=None, verbose=False):
                      _find_consecutive_equal_values(dxn, zcrit)))
 
     indg = ones(xn.size, dtype=bool)
-    if ind.size > 1:
+    if ind.size > 0:
         ind = np.unique(ind)
         indg[ind] = 0
     indg, = np.nonzero(indg)
-- 
2.43.0


From 0f1c30ae7fc00504fcfd8a8efcefbd2aa6838197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:46 +0000
Subject: [PATCH 07/82] fix: trangood extrapolated upwards from the unsorted or
 unresampled values

---
 src/wafo/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index 3b42a66..7bde0af 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -2475,7 +2475,7 @@ def trangood(x, f, min_n=None, min_x=None, max_x=None, max_n=inf):
 
     if max_x > xo[-1]:
         x1 = dx * np.arange(1, np.ceil((max_x - xo[-1]) / dx) + 1)
-        f2 = f[-1] + x1 * (f[-1] - f[-2]) / (xo[-1] - xo[-2])
+        f2 = fo[-1] + x1 * (fo[-1] - fo[-2]) / (xo[-1] - xo[-2])
         fo = np.hstack((fo, f2))
         xo = np.hstack((xo, x1 + xo[-1]))
 
-- 
2.43.0


From 8e7bdc9590fdde91a20cd3963aa3269c413f874d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:46 +0000
Subject: [PATCH 08/82] fix: fourth derivative in tranproc uses the third
 derivative of the process

---
 src/wafo/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index 7bde0af..a027c2c 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -2582,7 +2582,7 @@ def tranproc(x, f, x0, *xi):
         """
         return (fxder[3] * xi[0] ** 4. + fxder[0] * xi[3] +
                 6. * fxder[2] * xi[0] ** 2. * xi[1] +
-                fxder[1] * (3. * xi[1] ** 2. + 4. * xi[0] * xi[1]))
+                fxder[1] * (3. * xi[1] ** 2. + 4. * xi[0] * xi[2]))
 
     xo, fo, x0 = np.atleast_1d(x, f, x0)
     xi = np.atleast_1d(*xi)
-- 
2.43.0


From 90896d2b3e8f4139461f74fb204456f3a42762e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:46 +0000
Subject: [PATCH 09/82] fix: TransferFunction.tran reshaped the caller's arrays
 and raised IndexError for negative transfer functions

---
 src/wafo/wave_theory/core.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/wafo/wave_theory/core.py b/src/wafo/wave_theory/core.py
index c0ebefc..30f3a01 100644
--- a/src/wafo/wave_theory/core.py
+++ b/src/wafo/wave_theory/core.py
@@ -328,12 +328,13 @@ class TransferFunction(object):
 
         w, theta, kw = np.atleast_1d(w, theta, kw)
         # make sure they have the correct orientation
-        theta.shape = (-1, 1)
-        kw.shape = (-1,)
-        w.shape = (-1,)
+        theta = theta.reshape(-1, 1)
+        kw = kw.ravel()
+        w = w.ravel()
 
         tran_fun = self._tran_dict[self.sensortype]
         Hw, Gwt = tran_fun(w, theta, kw)
+        Hw = np.array(Hw)  # never write into the caller's w or kw
 
         # New call to avoid singularities. pab 07.11.2000
         # Set Hw to 0 for expressions w*hyperbolic_ratio(z*k,h*k,1,-1)= 0*inf
@@ -344,7 +345,7 @@ class TransferFunction(object):
         k0 = np.flatnonzero(sgn < 0)
         if len(k0):  # make sure Hw>=0 ie. transfer negative signs to Gwt
             Gwt[:, k0] = -Gwt[:, k0]
-            Hw[:, k0] = -Hw[:, k0]
+            Hw[k0] = -Hw[k0]
 
         if self.igam == 2:
             # pab 09 Oct.2002: bug fix
-- 
2.43.0


From a03a08f92ce19b115b13bd0465660f3e502f3a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:34 +0000
Subject: [PATCH 10/82] fix: TransferFunction.tran computed the wave number
 with the default gravity instead of its own

---
 src/wafo/wave_theory/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/wave_theory/core.py b/src/wafo/wave_theory/core.py
index 30f3a01..7dfb8fe 100644
--- a/src/wafo/wave_theory/core.py
+++ b/src/wafo/wave_theory/core.py
@@ -324,7 +324,7 @@ class TransferFunction(object):
         '''
         if kw is None:
             # wave number as function of angular frequency
-            kw, unusedkw2 = w2k(w, 0, self.h)
+            kw, unusedkw2 = w2k(w, 0, self.h, self.g)
 
         w, theta, kw = np.atleast_1d(w, theta, kw)
         # make sure they have the correct orientation
-- 
2.43.0


From c5bdbb2bfb5a363493096f5ffba746af53466203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:20 +0000
Subject: [PATCH 11/82] fix: TrHermite raised TypeError for models that are not
 monotone everywhere

---
 src/wafo/transform/models.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wafo/transform/models.py b/src/wafo/transform/models.py
index b470827..9cc0534 100644
--- a/src/wafo/transform/models.py
+++ b/src/wafo/transform/models.py
@@ -7,7 +7,7 @@ TrLinear
 '''
 # !/usr/bin/env python
 from scipy.optimize import brentq  # @UnresolvedImport
-from numpy import (sqrt, atleast_1d, abs, imag, sign, where, cos, arccos, ceil,
+from numpy import (sqrt, atleast_1d, abs, imag, sign, where, cos, arccos,
                    expm1, log1p, pi)
 import numpy as np
 import warnings
@@ -216,7 +216,7 @@ class TrHermite(TrCommon2):
             self._x_limit = self.sigma * polynom(root) + self.mean
         txt1 = '''
     The polynomial is not a strictly increasing function.
-    The derivative of g(x) is infinite at x = %g''' % self._x_limit
+    The derivative of g(x) is infinite at x = %s''' % self._x_limit
         warnings.warn(txt1)
 
     def _check_monotonicity(self, p):
@@ -344,7 +344,7 @@ class TrHermite(TrCommon2):
             d = sqrt(-p1)
             theta1 = arccos(-q0 / d ** 3) / 3
             th2 = np.r_[0, -2 * pi / 3, 2 * pi / 3]
-            x1 = abs(2 * d * cos(theta1[ceil(len(xn) / 2)] + th2) - x0)
+            x1 = abs(2 * d * cos(theta1[len(xn) // 2] + th2) - x0)
             ix = x1.argmin()  # choose the smallest solution
             return 2. * d * cos(theta1 + th2[ix]) - x0
         else:                # Only one real root exist
-- 
2.43.0


From 5d7794ee175bbdc3696d2235a598bc3d65610236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:01 +0000
Subject: [PATCH 12/82] fix: gridcount raised IndexError for data at the last
 grid point and reshaped the caller's grid

---
 src/wafo/kdetools/gridding.py | 3 ++-
 src/wafo/kdetools/kdetools.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/wafo/kdetools/gridding.py b/src/wafo/kdetools/gridding.py
index f1bf7f7..96ebbbf 100644
--- a/src/wafo/kdetools/gridding.py
+++ b/src/wafo/kdetools/gridding.py
@@ -260,7 +260,7 @@ def _gridcount_nd(acfun, data, x, y, w, binx):
 
 
 def _gridcount_1d(acfun, data, x, y, w, binx, inc):
-    x.shape = -1,
+    x = x.ravel()
     c = (acfun(binx, (x[binx + 1] - data) * y, shape=(inc, )) +
          acfun(binx + 1, (data - x[binx]) * y, shape=(inc, ))).ravel()
     return c / w
@@ -353,6 +353,7 @@ def gridcount(data, X, y=1):
 
     dx = np.diff(x[:, :2], axis=1)
     binx = np.asarray(np.floor((dataset - xlo[:, np.newaxis]) / dx), dtype=int)
+    binx = np.minimum(binx, inc - 2)  # data at the upper limit of X
     w = dx.prod()
     if d == 1:
         return _gridcount_1d(acfun, dataset, x, y, w, binx, inc)
diff --git a/src/wafo/kdetools/kdetools.py b/src/wafo/kdetools/kdetools.py
index 4ba360a..7066092 100644
--- a/src/wafo/kdetools/kdetools.py
+++ b/src/wafo/kdetools/kdetools.py
@@ -1008,7 +1008,7 @@ class BKRegression(object):
         xmin, xmax = x.min(), x.max()
         ni = max(2 * int((xmax - xmin) / hs_e) + 3, 5)
         sml = hs_e  # *0.1
-        xi = np.linspace(xmin - sml, xmax + sml, ni).T
+        xi = np.linspace(xmin - sml, xmax + sml, ni).ravel()
         return xi
 
     def _wilson_score(self, n, p, alpha):
-- 
2.43.0


From f71cc65b97cf54af8ea7b9c1a2ac61580675047d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:44 +0000
Subject: [PATCH 13/82] fix: TKDE truncated integer data and points and raised
 ValueError for a single point

---
 src/wafo/kdetools/kdetools.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/wafo/kdetools/kdetools.py b/src/wafo/kdetools/kdetools.py
index 7066092..8eb5c3b 100644
--- a/src/wafo/kdetools/kdetools.py
+++ b/src/wafo/kdetools/kdetools.py
@@ -390,10 +390,9 @@ class TKDE(_KDE):
 
         L2 = np.atleast_1d(self.L2) * np.ones(self.d)
 
-        tpoints = copy.copy(points)
-        for i, v2 in enumerate(L2.tolist()):
-            tpoints[i] = np.log(points[i]) if v2 == 0 else points[i] ** v2
-        return tpoints
+        tpoints = [np.log(points[i]) if v2 == 0 else points[i] ** v2
+                   for i, v2 in enumerate(L2.tolist())]
+        return tpoints if isinstance(points, list) else np.asarray(tpoints)
 
     def _inverse_transform(self, tpoints):
         if self.L2 is None:
@@ -416,7 +415,7 @@ class TKDE(_KDE):
             factor = v2 * np.sign(v2) if v2 else 1
             pdf *= np.where(v2 == 1, 1, points[i] ** (v2 - 1) * factor)
 
-        _assert_warn((np.abs(np.diff(pdf)).max() < 10).all(), '''
+        _assert_warn((np.abs(np.diff(pdf)) < 10).all(), '''
         Numerical problems may have occured due to the power transformation.
         Check the KDE for spurious spikes''')
         return pdf
-- 
2.43.0


From 24367c0a3af3eed24b11a0359aa4b5f04852ea50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:17 +0000
Subject: [PATCH 14/82] fix: binned kernel regression clipped negative
 responses and ignored the responses for transformed data

---
 src/wafo/kdetools/kdetools.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/wafo/kdetools/kdetools.py b/src/wafo/kdetools/kdetools.py
index 8eb5c3b..eb4c3ba 100644
--- a/src/wafo/kdetools/kdetools.py
+++ b/src/wafo/kdetools/kdetools.py
@@ -223,6 +223,10 @@ class _KDE(object):
             return f
         return self._make_object(f, **kwds)
 
+    @staticmethod
+    def _is_nonnegative(r=0, y=1.0, **_kwds):
+        return r == 0 and np.min(y) >= 0
+
     def _check_shape(self, points):
         points = atleast_2d(points)
         d, m = points.shape
@@ -429,8 +433,7 @@ class TKDE(_KDE):
         fi = interpolate.griddata(points, np.ravel(f), tuple(ipoints),
                                   method='linear', fill_value=0.0)
         self.args = args
-        r = kwds.get('r', 0)
-        if r == 0:
+        if self._is_nonnegative(**kwds):
             return fi * (fi > 0)
         return fi
 
@@ -449,7 +452,7 @@ class TKDE(_KDE):
             self.args = self.tkde.args
             return f
         targs = self._get_targs(args)
-        tf = self.tkde.eval_grid_fast(*targs)
+        tf = self.tkde.eval_grid_fast(*targs, **kwds)
 
         self.args = self._inverse_transform(list(self.tkde.args))
         points = meshgrid(*self.args)
@@ -732,7 +735,7 @@ class KDE(_KDE):
         z = np.real(ifftn(fftn(c, s=kw.shape) * fftn(kw)))
 
         ix = (slice(0, inc),) * d
-        if r == 0:
+        if self._is_nonnegative(**kwds):
             return z[ix] * (z[ix] > 0.0)
         return z[ix]
 
-- 
2.43.0


From 3512902887e92b88b142393c1317edcb6fa252f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:50 +0000
Subject: [PATCH 15/82] fix: misspelled names in wafo.polynomial.__all__

---
 src/wafo/polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/polynomial.py b/src/wafo/polynomial.py
index 9a2be6c..23de30c 100644
--- a/src/wafo/polynomial.py
+++ b/src/wafo/polynomial.py
@@ -34,7 +34,7 @@ except ImportError:
 __all__ = np.lib.polynomial.__all__
 __all__ = __all__ + ['pade', 'padefit', 'polyreloc', 'polyrescl', 'polytrim',
                      'poly2hstr', 'poly2str', 'polyshift', 'polyishift',
-                     'map_from_intervall', 'map_to_intervall', 'cheb2poly',
+                     'map_from_interval', 'map_to_interval', 'cheb2poly',
                      'chebextr', 'chebroot', 'chebpoly', 'chebfit', 'chebval',
                      'chebder', 'chebint', 'Cheb1d', 'dct', 'idct',
                      'chebfitnd', 'chebvalnd']
-- 
2.43.0


From 61f48e8b4056ab1f2ade112ac4b292fb0b0f3830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:30 +0000
Subject: [PATCH 16/82] fix: chebder doubled the constant term and chebint
 returned wrong coefficients

---
 src/wafo/polynomial.py | 31 +++++--------------------------
 1 file changed, 5 insertions(+), 26 deletions(-)

diff --git a/src/wafo/polynomial.py b/src/wafo/polynomial.py
index 23de30c..215e746 100644
--- a/src/wafo/polynomial.py
+++ b/src/wafo/polynomial.py
@@ -1618,14 +1618,8 @@ def chebder(ck, a=-1, b=1):
     Journal of the ACM (JACM), Vol. 12 ,  Issue 3, pp 295 - 314
     """
 
-    n = len(ck) - 1
-    cder = np.zeros(n, dtype=np.asarray(ck).dtype)
-    cder[0] = 2 * n * ck[0]
-    cder[1] = 2 * (n - 1) * ck[1]
-    for j in range(2, n):
-        cder[j] = cder[j - 2] + 2 * (n - j) * ck[j]
-
-    return cder * 2. / (b - a)  # Normalize to the interval b-a.
+    c = np.atleast_1d(ck)[::-1]
+    return np.polynomial.chebyshev.chebder(c, scl=2. / (b - a))[::-1]
 
 
 def chebint(ck, a=-1, b=1):
@@ -1682,24 +1676,9 @@ def chebint(ck, a=-1, b=1):
 # int p(x) dx = sum cn * int(Tn(x)dx) =
 # 0.5*sum cn *{Tn+1(x)/(n+1) - Tn-1(x)/(n-1)} = 0.5 sum (cn-1-cn+1)*Tn/n n>0
 
-    n = len(ck)
-
-    cint = np.zeros(n)
-    con = 0.25 * (b - a)
-
-    dif1 = np.diff(ck[-1::-2])
-    ix1 = np.r_[1:n - 1:2]
-    cint[ix1] = -(con * dif1) / ix1
-    if n > 3:
-        dif2 = np.diff(ck[-2::-2])
-        ix2 = np.r_[2:n - 1:2]
-        cint[ix2] = -(con * dif2) / ix2
-    cint = cint[::-1]
-    # cint(n) is a special case
-    cint[-1] = (con * ck[n - 2]) / (n - 1)
-    # Set integration constant
-    cint[0] = 2 * np.sum((-1) ** np.r_[0:n - 1] * cint[-2::-1])
-    return cint
+    # The integral is zero at the lower limit, a.
+    c = np.atleast_1d(ck)[::-1]
+    return np.polynomial.chebyshev.chebint(c, lbnd=-1, scl=0.5 * (b - a))[::-1]
 
 
 class Cheb1d(object):
-- 
2.43.0


From 9ed4da9650c54f6f8613aaceea64f4a8b34d3019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:30 +0000
Subject: [PATCH 17/82] fix: Cheb1d dropped the trailing zero coefficients and
 its arithmetic always raised ValueError

---
 src/wafo/polynomial.py | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/wafo/polynomial.py b/src/wafo/polynomial.py
index 215e746..f51481d 100644
--- a/src/wafo/polynomial.py
+++ b/src/wafo/polynomial.py
@@ -1693,9 +1693,12 @@ class Cheb1d(object):
             for key in ck.__dict__:
                 self.__dict__[key] = ck.__dict__[key]
             return
-        cki = trim_zeros(np.atleast_1d(ck), 'b')
+        cki = np.atleast_1d(ck)
         if len(cki.shape) > 1:
             raise ValueError("Polynomial must be 1d only.")
+        cki = trim_zeros(cki, 'f')  # highest order coefficient is the first
+        if len(cki) == 0:
+            cki = np.zeros(1)
         self.__dict__['coeffs'] = cki
         self.__dict__['order'] = len(cki) - 1
         self.__dict__['a'] = a
@@ -1722,19 +1725,18 @@ class Cheb1d(object):
     def __str__(self):
         pass
 
+    def _new(self, coeffs):
+        return Cheb1d(coeffs, self.a, self.b, self.kind)
+
     def __neg__(self):
-        new = Cheb1d(self)
-        new.coeffs = -self.coeffs
-        return new
+        return self._new(-self.coeffs)
 
     def __pos__(self):
         return self
 
     def __add__(self, other):
         other = Cheb1d(other)
-        new = Cheb1d(self)
-        new.coeffs = polyadd(self.coeffs, other.coeffs)
-        return new
+        return self._new(polyadd(self.coeffs, other.coeffs))
 
     def __radd__(self, other):
         return self.__add__(other)
@@ -1743,9 +1745,7 @@ class Cheb1d(object):
         return self.__add__(-other)
 
     def __rsub__(self, other):
-        new = self.__sub__(other)
-        new.coeffs *= -1
-        return new
+        return (-self).__add__(other)
 
     def __eq__(self, other):
         other = Cheb1d(other)
@@ -1797,9 +1797,10 @@ class Cheb1d(object):
         chebint : equivalent function
 
         """
-        integ = Cheb1d(self)
-        integ.coeffs = chebint(self.coeffs, self.a, self.b)
-        return integ
+        coeffs = self.coeffs
+        for _i in range(m):
+            coeffs = chebint(coeffs, self.a, self.b)
+        return self._new(coeffs)
 
     def deriv(self, m=1):
         """
@@ -1812,9 +1813,10 @@ class Cheb1d(object):
         chebder : equivalent function
 
         """
-        der = Cheb1d(self)
-        der.coeffs = chebder(self.coeffs, self.a, self.b)
-        return der
+        coeffs = self.coeffs
+        for _i in range(m):
+            coeffs = chebder(coeffs, self.a, self.b)
+        return self._new(coeffs)
 
 
 def padefit(c, m=None):
-- 
2.43.0


From 010bb0401df57b1e3559c6d50710977b3e5a198c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:26 +0000
Subject: [PATCH 18/82] fix: chebfitnd and three-dimensional chebfit_dct
 returned wrong coefficients, chebval truncated with integer fill

---
 src/wafo/polynomial.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/wafo/polynomial.py b/src/wafo/polynomial.py
index f51481d..9dcdc02 100644
--- a/src/wafo/polynomial.py
+++ b/src/wafo/polynomial.py
@@ -1352,15 +1352,16 @@ def chebfit_dct(f, n=(10, ), domain=None, args=()):
             xi = [map_to_interval(chebroot(ni), d[0], d[1])
                   for ni, d in _zip(n, domain)]
             Xi = np.meshgrid(*xi)
-            return f(*Xi) / np.product(n), len(n)
+            return f(*(list(Xi) + list(args))) / np.product(n), len(n)
         return f / np.product(f.shape), f.ndim
 
     ck, ndim = _init_ck(f, n, domain)
-    for i in range(ndim):
+    if ndim > 1:
+        ck = np.swapaxes(ck, 0, 1)  # f is given with meshgrid indexing
+    for _i in range(ndim):
         ck = dct(ck[..., ::-1])
         ck[..., 0] /= 2.
-        if i < ndim - 1:
-            ck = np.rollaxis(ck, axis=-1)
+        ck = np.rollaxis(ck, axis=-1)
     return ck
 
 
@@ -1566,7 +1567,7 @@ def chebval(x, ck, a=-1, b=1, kind=1, fill=None):
         f = _chebval(y, ck, kind=kind)
     else:
         cond = (abs(y) <= 1)
-        f = np.where(cond, 0, fill)
+        f = np.where(cond, 0.0, fill)
         if np.any(cond):
             yk = np.extract(cond, y)
             f[cond] = _chebval(yk, ck, kind=kind)
@@ -2225,7 +2226,7 @@ def chebfitnd(xi, f, deg, rcond=None, full=False, w=None):
         if w is not None:
             w = np.asarray(w).ravel() + 0.0
             _check_size(w, len(lhs))
-            lhs = lhs * w
+            lhs = lhs * w[:, newaxis]
             rhs = rhs * w
         scl = _scale(lhs)
         return lhs, scl, rhs
@@ -2238,7 +2239,7 @@ def chebfitnd(xi, f, deg, rcond=None, full=False, w=None):
     orders = degrees + 1
     order = np.product(orders)
 
-    lhs, rhs, scl = _init(xi, z, w, degrees, order)
+    lhs, scl, rhs = _init(xi, z, w, degrees, order)
 
     if rcond is None:
         rcond = xi[0].size * np.finfo(xi[0].dtype).eps
-- 
2.43.0


From e0105fbc35495baa381b4cd59da37b881d1e310c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:33 +0000
Subject: [PATCH 19/82] fix: Cheb1d could not be constructed (NameError)

---
 src/wafo/polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/polynomial.py b/src/wafo/polynomial.py
index 9dcdc02..23c64a9 100644
--- a/src/wafo/polynomial.py
+++ b/src/wafo/polynomial.py
@@ -1697,7 +1697,7 @@ class Cheb1d(object):
         cki = np.atleast_1d(ck)
         if len(cki.shape) > 1:
             raise ValueError("Polynomial must be 1d only.")
-        cki = trim_zeros(cki, 'f')  # highest order coefficient is the first
+        cki = np.trim_zeros(cki, 'f')  # highest order coefficient is the first
         if len(cki) == 0:
             cki = np.zeros(1)
         self.__dict__['coeffs'] = cki
-- 
2.43.0


From 04e92a9208fa8e4e9ed7adc4402b971f900e473c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:35 +0000
Subject: [PATCH 20/82] fix: PPform truncated values for integer arguments and
 its derivative and integral lost the limits

---
 src/wafo/interpolate.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wafo/interpolate.py b/src/wafo/interpolate.py
index 34497ac..64da183 100644
--- a/src/wafo/interpolate.py
+++ b/src/wafo/interpolate.py
@@ -348,7 +348,7 @@ class PPform(object):
     def __call__(self, xnew):
         saveshape = np.shape(xnew)
         xnew = np.ravel(xnew)
-        res = np.empty_like(xnew)
+        res = np.empty(xnew.shape, dtype=np.result_type(xnew, self.coeffs, float))
         mask = (self.a <= xnew) & (xnew <= self.b)
         res[~mask] = self.fill
         xx = xnew.compress(mask)
@@ -428,7 +428,7 @@ class PPform(object):
 
         cof = pl.polyder(self.coeffs)
         brks = self.breaks.copy()
-        return PPform(cof, brks, fill=self.fill)
+        return PPform(cof, brks, fill=self.fill, a=self.a, b=self.b)
 
     def integrate(self):
         """
@@ -450,7 +450,7 @@ class PPform(object):
 
             cof[-1] = np.hstack((0, vv)).cumsum()
 
-        return PPform(cof, self.breaks, fill=self.fill)
+        return PPform(cof, self.breaks, fill=self.fill, a=self.a, b=self.b)
 
 #     def fromspline(self, xk, cvals, order, fill=0.0):
 #         N = len(xk) - 1
-- 
2.43.0


From 85c00ea87efb3caf8c27a3501ced8209b9a5decc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:35 +0000
Subject: [PATCH 21/82] fix: steffen slopes at the end points had the wrong
 sign for decreasing data

---
 src/wafo/interpolate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/interpolate.py b/src/wafo/interpolate.py
index 64da183..da05850 100644
--- a/src/wafo/interpolate.py
+++ b/src/wafo/interpolate.py
@@ -841,8 +841,8 @@ def _steffen_slope(x, y, dx, dydx, *args):
         p1 = dydx[-1] * (1 + w1) - dydx[-2] * w1
         s0 = np.sign(p0) + np.sign(dydx[0])
         s1 = np.sign(p1) + np.sign(dydx[-1])
-        yp[0] = s0 * np.minimum(np.abs(dydx[0]), 0.5 * p0)
-        yp[-1] = s1 * np.minimum(np.abs(dydx[-1]), 0.5 * p1)
+        yp[0] = s0 * np.minimum(np.abs(dydx[0]), 0.5 * np.abs(p0))
+        yp[-1] = s1 * np.minimum(np.abs(dydx[-1]), 0.5 * np.abs(p1))
     else:
         yp[0] = 2.0 * dydx[0] - yp[1]
         yp[-1] = 2.0 * dydx[-1] - yp[-2]
-- 
2.43.0


From 80812d7857c593b3fb0cc243f962024b6a634967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:46 +0000
Subject: [PATCH 22/82] fix: slopes with monotone=True did not preserve
 monotonicity

---
 src/wafo/interpolate.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/wafo/interpolate.py b/src/wafo/interpolate.py
index da05850..a04708a 100644
--- a/src/wafo/interpolate.py
+++ b/src/wafo/interpolate.py
@@ -972,6 +972,11 @@ def slopes(x, y, method='stineman', tension=0, monotone=False, scale=False):
         yp[ii] = 0.0
         yp[ii + 1] = 0.0
 
+        # A slope with sign opposite to that of a neighbouring secant line
+        # would create a local extremum inside the interval.
+        yp[:-1] = np.where(yp[:-1] * dydx < 0, 0.0, yp[:-1])
+        yp[1:] = np.where(yp[1:] * dydx < 0, 0.0, yp[1:])
+
         with np.errstate(divide='ignore', invalid='ignore'):
             # ignore division by zero and NaN
             alpha = yp[:-1] / dydx
@@ -987,9 +992,12 @@ def slopes(x, y, method='stineman', tension=0, monotone=False, scale=False):
 
         # Find the indices that need adjustment
         indices_to_fix, = (dist > 9.0).nonzero()
+        factor = np.ones(yp.shape)
         for ii in indices_to_fix:
-            yp[ii] = tau[ii] * alpha[ii] * dydx[ii]
-            yp[ii + 1] = tau[ii] * beta[ii] * dydx[ii]
+            # an inner slope is shared by two intervals: satisfy both
+            factor[ii] = min(factor[ii], tau[ii])
+            factor[ii + 1] = min(factor[ii + 1], tau[ii])
+        yp = factor * yp
     if scale:
         return yp * sy/sx
     return yp
-- 
2.43.0


From 15584ab68e2f1b492d5bf8c10aed4fb50fcde2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:46 +0000
Subject: [PATCH 23/82] fix: SmoothSpline failed for two points and did not
 sort the variances with the data

---
 src/wafo/interpolate.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/wafo/interpolate.py b/src/wafo/interpolate.py
index a04708a..b2e52c7 100644
--- a/src/wafo/interpolate.py
+++ b/src/wafo/interpolate.py
@@ -375,9 +375,10 @@ class PPform(object):
 
         if self.order <= max_order:
             if output:
-                return self
-            else:
-                return
+                return PPform(self.coeffs, self.breaks, a=-inf, b=inf)
+            self.a = -inf
+            self.b = inf
+            return
         breaks = self.breaks.copy()
         coefs = self.coeffs.copy()
         # pieces = len(breaks) - 1
@@ -577,8 +578,10 @@ class SmoothSpline(PPform):
             ind = x.argsort()
             x = x[ind]
             y = y[..., ind]
+            if var.size > 1:
+                var = var.ravel()[ind]
             dx = np.diff(x)
-        return x, y, dx
+        return x, y, dx, var
 
     def _init_poly_coefs(self, dx, dydx, n, p, D):
         dx1 = 1. / dx
@@ -624,7 +627,7 @@ class SmoothSpline(PPform):
         return coefs
 
     def _compute_coefs(self, xx, yy, p=None, var=1):
-        x, y, dx = self._spacing(xx, yy, var)
+        x, y, dx, var = self._spacing(xx, yy, var)
         n = len(x)
 
         szy = y.shape
@@ -637,7 +640,7 @@ class SmoothSpline(PPform):
         dydx = np.diff(y) / dx
 
         if (n == 2):  # straight line
-            coefs = np.vstack([dydx.ravel(), y[0, :]])
+            coefs = np.vstack([dydx.ravel(), y[..., 0].ravel()])
             return coefs, x
         D = sparse.spdiags(var * ones(n), 0, n, n)  # The variance
         coefs = self._poly_coefs(y, dx, dydx, n, nd, p, D)
-- 
2.43.0


From 19efca0c4619bddba5dade6e37eb56861e7a9014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:46 +0000
Subject: [PATCH 24/82] fix: savitzky_golay derivatives had the wrong sign and
 scale

---
 src/wafo/interpolate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/interpolate.py b/src/wafo/interpolate.py
index b2e52c7..dab11ef 100644
--- a/src/wafo/interpolate.py
+++ b/src/wafo/interpolate.py
@@ -97,13 +97,13 @@ def savitzky_golay(y, window_size, order, deriv=0):
     # precompute coefficients
     b = np.mat([[k ** i for i in order_range]
                 for k in range(-half_window, half_window + 1)])
-    m = np.linalg.pinv(b).A[deriv]
+    m = np.linalg.pinv(b).A[deriv] * prod(range(1, deriv + 1))
     # pad the signal at the extremes with
     # values taken from the signal itself
     firstvals = y[0] - np.abs(y[1:half_window + 1][::-1] - y[0])
     lastvals = y[-1] + np.abs(y[-half_window - 1:-1][::-1] - y[-1])
     y = np.concatenate((firstvals, y, lastvals))
-    return np.convolve(m, y, mode='valid')
+    return np.convolve(m[::-1], y, mode='valid')
 
 
 def _get_turnpoint(xvals):
-- 
2.43.0


From 97e56ac2b8426a2014a8d0b4b6330cd33dacdd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:30 +0000
Subject: [PATCH 25/82] fix: smoothn failed for missing values in 2-D data

---
 src/wafo/sg_filter/_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/sg_filter/_core.py b/src/wafo/sg_filter/_core.py
index d5eb26b..b54c38b 100644
--- a/src/wafo/sg_filter/_core.py
+++ b/src/wafo/sg_filter/_core.py
@@ -368,7 +368,7 @@ class _Filter(object):
         if (1 - I).any():
             notI = ~I
             z, L = distance_transform_edt(notI, return_indices=True)
-            z[notI] = y[L.flat[notI]]
+            z[notI] = y[tuple(L)][notI]
 
         # coarse fast smoothing using one-tenth of the DCT coefficients
         shape = z.shape
-- 
2.43.0


From 24624efee285d0539f94fb84801021c8871cf727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:30 +0000
Subject: [PATCH 26/82] fix: SavitzkyGolay.smooth_last returned derivatives
 with the wrong sign and made smooth fail after 2-D data

---
 src/wafo/sg_filter/_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/sg_filter/_core.py b/src/wafo/sg_filter/_core.py
index b54c38b..bba8f6f 100644
--- a/src/wafo/sg_filter/_core.py
+++ b/src/wafo/sg_filter/_core.py
@@ -151,13 +151,13 @@ class SavitzkyGolay(object):
                                                     delta=delta)
 
     def smooth_last(self, signal, k=1):
-        coeff = self._coeff
+        coeff = self._coeff[::-1]  # the coefficients are made for convolution
         n = (np.size(coeff) - 1) // 2
         y = np.squeeze(signal)
         if n == 0:
             return y
         if y.ndim > 1:
-            coeff.shape = (-1, 1)
+            coeff = coeff.reshape(-1, 1)
         first_vals = y[0] - np.abs(y[n:0:-1] - y[0])
         last_vals = y[-1] + np.abs(y[-2:-n - 2:-1] - y[-1])
         y = concatenate((first_vals, y, last_vals))
-- 
2.43.0


From 5b8f997cf99efe24d724f9b6a765f697ad8281da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:30 +0000
Subject: [PATCH 27/82] fix: HampelFilter failed for integer data with outliers

---
 src/wafo/sg_filter/_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/sg_filter/_core.py b/src/wafo/sg_filter/_core.py
index bba8f6f..4821ed3 100644
--- a/src/wafo/sg_filter/_core.py
+++ b/src/wafo/sg_filter/_core.py
@@ -1201,7 +1201,7 @@ class HampelFilter(object):
         self._check(dx)
 
         Y0, S0, ADX = self._filter(Y, X, dx)
-        YY = Y.copy()
+        YY = np.array(Y, dtype=np.result_type(Y, float))
         T = self.t
         # Prepare Output
         self.UB = Y0 + T * S0
-- 
2.43.0


From 7f0993d5b08187fb57bf6fd62a901e89ad822927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:19 +0000
Subject: [PATCH 28/82] fix: one-point Gauss-Legendre and Gauss-Hermite rules
 had two nodes and twice the weight

---
 src/wafo/integrate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/integrate.py b/src/wafo/integrate.py
index dc0b95f..0613f24 100644
--- a/src/wafo/integrate.py
+++ b/src/wafo/integrate.py
@@ -636,8 +636,8 @@ def _expand_roots(x, w, n, m):
         x[m - 1] = 0.0
     if not (m + m) == n:
         m = m - 1
-    x = np.hstack((x, -x[m - 1::-1]))
-    w = np.hstack((w, w[m - 1::-1]))
+    x = np.hstack((x, -x[:m][::-1]))
+    w = np.hstack((w, w[:m][::-1]))
     return x, w
 
 
-- 
2.43.0


From e3cc668e523ed832e4d218592bfe9634b261835e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:19 +0000
Subject: [PATCH 29/82] fix: romberg raised TypeError for intervals of length
 one or shorter

---
 src/wafo/integrate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/integrate.py b/src/wafo/integrate.py
index 0613f24..503fb5e 100644
--- a/src/wafo/integrate.py
+++ b/src/wafo/integrate.py
@@ -170,7 +170,7 @@ def romberg(fun, a, b, releps=1e-3, abseps=1e-3):
     h = b - a
     h_min = 1.0e-9
     # Max size of extrapolation table
-    table_limit = max(min(np.round(np.log2(h / h_min)), 30), 3)
+    table_limit = int(max(min(np.round(np.log2(abs(h) / h_min)), 30), 3))
 
     rom = zeros((2, table_limit))
 
-- 
2.43.0


From 07700e0af45ec9dddbf447160ecff476a17a09b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:19 +0000
Subject: [PATCH 30/82] fix: clencurt always failed for tabulated functions

---
 src/wafo/integrate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/integrate.py b/src/wafo/integrate.py
index 503fb5e..a6c3d7b 100644
--- a/src/wafo/integrate.py
+++ b/src/wafo/integrate.py
@@ -94,9 +94,9 @@ def clencurt(fun, a, b, n=5, trace=False):
     if hasattr(fun, '__call__'):
         f = fun(x)
     else:
-        x_0 = np.flipud(fun[:, 0])
+        x_0 = np.flipud(fun[:, :1])
         n_2 = len(x_0) - 1
-        _assert(abs(x - x_0) <= 1e-8,
+        _assert(np.shape(x)[0] == n_2 + 1 and np.all(abs(x - x_0) <= 1e-8),
                 'Input vector x must equal cos(pi*s/n_2)*(b-a)/2+(b+a)/2')
 
         f = np.flipud(fun[:, 1::])
-- 
2.43.0


From 7266b1c7fee5ea7b7c62bf891565578db5b65030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:18 +0000
Subject: [PATCH 31/82] fix: dctn, dstn and their inverses ignored negative
 axes

---
 src/wafo/dctpack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/dctpack.py b/src/wafo/dctpack.py
index 2f5e0c2..faa9476 100644
--- a/src/wafo/dctpack.py
+++ b/src/wafo/dctpack.py
@@ -176,7 +176,7 @@ def _get_axes(y, shape, axes):
     if len(axes) != len(shape):
         raise ValueError("when given, axes and shape arguments "
                          "have to be of the same length")
-    return list(axes)
+    return [axis % y.ndim for axis in axes]
 
 
 def _raw_dctn(y, type, shape, axes, norm, fun):  # @ReservedAssignment
-- 
2.43.0


From 03ecf5569b89db85bc68b2c2e0953d4031f4c82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:18 +0000
Subject: [PATCH 32/82] fix: padua_fit failed for degree zero

---
 src/wafo/padua.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wafo/padua.py b/src/wafo/padua.py
index 6cb6390..dd7a934 100644
--- a/src/wafo/padua.py
+++ b/src/wafo/padua.py
@@ -411,6 +411,8 @@ def padua_fit(Pad, fun, *args):
         C0f[:, 0] = C0f[:, 0] / np.sqrt(2)
         C0f = np.fliplr(np.triu(np.fliplr(C0f)))
         C0f[n] = C0f[n] / 2
+    else:
+        C0f = np.reshape(C0f, (1, 1))
 
     return C0f, error_estimate(C0f)
 
-- 
2.43.0


From 87122669b13127d4ea4f189a6b8dcc584125e49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:07 +0000
Subject: [PATCH 33/82] fix: spectral characteristics of spectra given in Hz
 were 2*pi wrong (Tp, Tm_10, Tp1, Sp) or meaningless (Ka, Rs)

---
 src/wafo/spectrum/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index a17248f..adbb338 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -3778,6 +3778,9 @@ class SpecData1D(PlotData):
         # vari = self.freqtype
         f = self.args.ravel()
         S1 = self.data.ravel()
+        if self.freqtype == 'f':
+            f = 2 * pi * f
+            S1 = S1 / (2 * pi)
         m, unused_mtxt = self.moment(nr=4, even=False)
 
         # moments corresponding to freq  in Hz
-- 
2.43.0


From f30560edb05850d75cd6170b8333578db77dd2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:07 +0000
Subject: [PATCH 34/82] fix: SpecData1D.bandwidth returned Qp for 'eps4' and
 failed for its default argument

---
 src/wafo/spectrum/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index adbb338..fcfd5e4 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -3627,9 +3627,9 @@ class SpecData1D(PlotData):
         '''
 
         m = self.moment(nr=4, even=False)[0]
-        if isinstance(factors, str):
+        if np.ndim(factors) == 0:
             factors = [factors]
-        fact_dict = dict(alpha=0, eps2=1, eps4=3, qp=3, Qp=3)
+        fact_dict = dict(alpha=0, eps2=1, eps4=2, qp=3, Qp=3)
         fact = array([fact_dict.get(idx, idx)
                       for idx in list(factors)], dtype=int)
 
-- 
2.43.0


From 8e12527fd8b68d9761a24c95c5a1495ee9204f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:07 +0000
Subject: [PATCH 35/82] fix: normalize did not normalize the moments of spectra
 in Hz or of wave number spectra

---
 src/wafo/spectrum/core.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index fcfd5e4..27d0e44 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -3583,12 +3583,9 @@ class SpecData1D(PlotData):
         A = SM0 / SM2
         B = SM2 / (SM0 * m0)
 
-        if self.freqtype == 'f':
-            self.args = self.args * A / 2 / pi
-            self.data = self.data * B * 2 * pi
-        elif self.freqtype == 'w':
-            self.args = self.args * A
-            self.data = self.data * B
+        self.args = self.args * A
+        self.data = self.data * B
+        if self.freqtype == 'w':
             m02 = m4 / gravity ** 2
             m20 = m02
             self.g = gravity * sqrt(m0 * m20) / m2
-- 
2.43.0


From d39e531e96de399c5b02cbdcb7dd4d474bc70bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:07 +0000
Subject: [PATCH 36/82] fix: tocov_matrix raised TypeError instead of warning
 about a small time step

---
 src/wafo/spectrum/core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index 27d0e44..9842dd0 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -750,7 +750,7 @@ class SpecData1D(PlotData):
         if self.freqtype in 'f':
             checkdt *= 2 * pi
         if (checkdt < 2. ** -16 / dt):
-            print('Step dt = %g in computation of the density is ' +
+            print('Step dt = %g in computation of the density is '
                   'too small.' % dt)
             print('The computed covariance (by FFT(2^K)) may differ from the')
             print('theoretical. Solution:')
@@ -762,11 +762,11 @@ class SpecData1D(PlotData):
         if nt + 1 >= 5:
             cc2 = acfmat[0, 0] - acfmat[4, 0] * (acfmat[4, 0] / acfmat[0, 0])
             if (cc2 < eps0):
-                warnings.warn('Step dt = %g in computation of the density ' +
+                warnings.warn('Step dt = %g in computation of the density '
                               'is too small.' % dt)
         cc1 = acfmat[0, 0] - acfmat[1, 0] * (acfmat[1, 0] / acfmat[0, 0])
         if (cc1 < eps0):
-            warnings.warn('Step dt = %g is small, and may cause numerical ' +
+            warnings.warn('Step dt = %g is small, and may cause numerical '
                           'inaccuracies.' % dt)
 
     @property
-- 
2.43.0


From 75df83588be28dd9825bb869a8fe178c0c16d1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:07 +0000
Subject: [PATCH 37/82] fix: SpecData1D.sim with derivative=True always raised
 TypeError

---
 src/wafo/spectrum/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index 9842dd0..e001a68 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -2691,7 +2691,7 @@ class SpecData1D(PlotData):
         x[:, 0] = linspace(0, T, ns)  # ' %(0:d_t:(np-1)*d_t).'
 
         if derivative:
-            xder = zeros(ns, cases + 1)
+            xder = zeros((ns, cases + 1))
             w = 2. * pi * hstack((0, f, 0., -f[-1::-1]))
             amp = -1j * amp * w[:, newaxis]
             xder[:, 1:(cases + 1)] = fft(amp, axis=0).real
-- 
2.43.0


From bd97bb270d7b167963d232fd8022993348206f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:07 +0000
Subject: [PATCH 38/82] fix: setting freqtype overwrote the caller's arrays and
 failed for integer arrays

---
 src/wafo/spectrum/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index e001a68..261c598 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -727,13 +727,13 @@ class SpecData1D(PlotData):
         if self._freqtype == freqtype:
             return  # do nothind
         if freqtype == 'w' and self._freqtype == 'f':
-            self.args *= 2 * np.pi
-            self.data /= 2 * np.pi
+            self.args = self.args * (2 * np.pi)
+            self.data = self.data / (2 * np.pi)
             self._freqtype = 'w'
             self.setlabels()
         elif freqtype == 'f' and self._freqtype == 'w':
-            self.args /= 2 * np.pi
-            self.data *= 2 * np.pi
+            self.args = self.args / (2 * np.pi)
+            self.data = self.data * (2 * np.pi)
             self._freqtype = 'f'
             self.setlabels()
 
-- 
2.43.0


From 60dac42eb066b161e6c5a9759ad846ba09a89fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:41 +0000
Subject: [PATCH 39/82] fix: CovData1D.sim simulated a wrong covariance when
 the last covariance value is zero

---
 src/wafo/covariance/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/covariance/core.py b/src/wafo/covariance/core.py
index b460e1e..9da5c4d 100644
--- a/src/wafo/covariance/core.py
+++ b/src/wafo/covariance/core.py
@@ -389,7 +389,7 @@ class CovData1D(PlotData):
         else:  # ACF(n)==0
             m2 = 2 * n - 2
             nfft = 2 ** nextpow2(max(m2, 2 * ns))
-            acf = r_[acf, zeros((nfft - m2, 1)), acf[n - 1:1:-1, :]]
+            acf = r_[acf, zeros((nfft - m2, 1)), acf[n - 2:0:-1, :]]
 
         # m2=2*n-2
         spec = fft(acf, nfft, axis=0).real  # periodogram
-- 
2.43.0


From 1efb90456814ae8174e06a357f9641ccd36b60f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:41 +0000
Subject: [PATCH 40/82] fix: CovData1D.sim with derivative=True returned
 meaningless derivatives or failed

---
 src/wafo/covariance/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/wafo/covariance/core.py b/src/wafo/covariance/core.py
index 9da5c4d..e275bba 100644
--- a/src/wafo/covariance/core.py
+++ b/src/wafo/covariance/core.py
@@ -440,12 +440,12 @@ class CovData1D(PlotData):
         x[:, 0] = linspace(0, (ns - 1) * dt, ns)  # (0:dt:(dt*(np-1)))'
 
         if derivative:
-            sqrt_spec = sqrt_spec * \
-                r_[0:(nfft / 2 + 1), -(nfft / 2 - 1):0] * 2 * pi / nfft / dt
+            freq = r_[0:(nfft / 2 + 1), -(nfft / 2 - 1):0] * 2 * pi / nfft / dt
+            sqrt_spec = sqrt_spec * freq.reshape(-1, 1)
             ephat = epsi * sqrt_spec  # [:,newaxis]
             y = fft(ephat, nfft, axis=0)
-            xder[:, 1:(cases + 1)] = hstack((y[2:ns + 2, 0:cases2].imag -
-                                             y[2:ns + 2, 0:cases1].real))
+            xder[:, 1:(cases + 1)] = hstack((y[2:ns + 2, 0:cases2].imag,
+                                             -y[2:ns + 2, 0:cases1].real))
             xder[:, 0] = x[:, 0]
 
         if self.tr is not None:
-- 
2.43.0


From 7918962f6f31762d50eb7bf45c6129de434b1bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:41 +0000
Subject: [PATCH 41/82] fix: simcond overwrote the caller's data and inflated
 the variance of the covariance object

---
 src/wafo/covariance/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/covariance/core.py b/src/wafo/covariance/core.py
index e275bba..3e4b966 100644
--- a/src/wafo/covariance/core.py
+++ b/src/wafo/covariance/core.py
@@ -569,8 +569,8 @@ class CovData1D(PlotData):
         reconstructed data"
         in Proceedings of 9th ISOPE Conference, Vol III, pp 66-73
         """
-        x = atleast_1d(xo).ravel()
-        acf = self._get_acf()
+        x = np.array(xo, dtype=float).ravel()
+        acf = self._get_acf().copy()
 
         num_x = len(x)
         num_acf = len(acf)
-- 
2.43.0


From d73b926048e7e5d7551f97e565947e71387f8f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:41 +0000
Subject: [PATCH 42/82] fix: simcond counted no unknown points in the overlap
 of windows

---
 src/wafo/covariance/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/covariance/core.py b/src/wafo/covariance/core.py
index 3e4b966..3a205aa 100644
--- a/src/wafo/covariance/core.py
+++ b/src/wafo/covariance/core.py
@@ -671,7 +671,7 @@ class CovData1D(PlotData):
                     # removing indices to data which has been simulated
                     mask_unknown[idx[:-overlap]] = False
                     # data we want to simulate once more
-                    nw = sum(mask_unknown[idx[-overlap:]] is True)
+                    nw = sum(mask_unknown[idx[-overlap:]])
                     num_restored += ns - nw  # update # points simulated so far
 
                     idx = self._update_window(idx, i_unknown, num_x, num_acf,
-- 
2.43.0


From 2bd0fea7e51a12d63f87d5edf207a983411dec80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:41 +0000
Subject: [PATCH 43/82] fix: tospecdata added the nugget to the covariance
 object at every call

---
 src/wafo/covariance/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/covariance/core.py b/src/wafo/covariance/core.py
index 3a205aa..3ae057c 100644
--- a/src/wafo/covariance/core.py
+++ b/src/wafo/covariance/core.py
@@ -239,7 +239,7 @@ class CovData1D(PlotData):
 
         # add a nugget effect to ensure that round off errors
         # do not result in negative spectral estimates
-        acf[0] = acf[0] + nugget
+        acf = r_[acf[0] + nugget, acf[1:]]
         n = acf.size
         # embedding a circulant vector and Fourier transform
 
-- 
2.43.0


From e76c99712b1be75cefbc1ffc1f26a9a57574bcff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:41 +0000
Subject: [PATCH 44/82] fix: covariance estimate of series with missing values
 subtracted a wrong mean

---
 src/wafo/covariance/estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/covariance/estimation.py b/src/wafo/covariance/estimation.py
index 985cdc5..6850eb1 100644
--- a/src/wafo/covariance/estimation.py
+++ b/src/wafo/covariance/estimation.py
@@ -132,7 +132,7 @@ class CovarianceEstimator(object):
         n = len(x)
         indnan = np.isnan(x)
         if any(indnan):
-            x = x - x[1 - indnan].mean()
+            x = x - x[~indnan].mean()
             Ncens = n - indnan.sum()
             x[indnan] = 0.
         else:
-- 
2.43.0


From 023cbbe39dfe9014fa9daef27bfb7c6fe8646da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:41 +0000
Subject: [PATCH 45/82] fix: unbiased covariance estimate always failed

---
 src/wafo/covariance/estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/covariance/estimation.py b/src/wafo/covariance/estimation.py
index 6850eb1..8454418 100644
--- a/src/wafo/covariance/estimation.py
+++ b/src/wafo/covariance/estimation.py
@@ -148,7 +148,7 @@ class CovarianceEstimator(object):
 
         if self.flag.startswith('unbiased'):
             # unbiased result, i.e. divide by n-abs(lag)
-            auto_cov = auto_cov[:Ncens] * Ncens / np.arange(Ncens, 1, -1)
+            auto_cov = auto_cov[:Ncens] * Ncens / np.arange(Ncens, 0, -1)
 
         if self.norm:
             auto_cov = auto_cov / auto_cov[0]
-- 
2.43.0


From 6f4ad46575fd9c58b7911ec61a669febb52aeecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:41 +0000
Subject: [PATCH 46/82] fix: simcond skipped the first unknown point of the
 next window, or failed when it was the last one

---
 src/wafo/covariance/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/covariance/core.py b/src/wafo/covariance/core.py
index 3ae057c..3005270 100644
--- a/src/wafo/covariance/core.py
+++ b/src/wafo/covariance/core.py
@@ -509,7 +509,7 @@ class CovData1D(PlotData):
         start_max = num_x - num_sig
         if (nw == 0) and (num_restored < len(i_unknown)):
             # move to the next missing data
-            start_ix = min(i_unknown[num_restored + 1] - overlap, start_max)
+            start_ix = min(i_unknown[num_restored] - overlap, start_max)
         else:
             start_ix = min(idx[0] + num_acf, start_max)
 
-- 
2.43.0


From 32e67ece5f4b931add41e9049489859009856897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:41 +0000
Subject: [PATCH 47/82] fix: covariance estimates were mixed with those of the
 complementary lag (circular convolution)

---
 src/wafo/covariance/estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/covariance/estimation.py b/src/wafo/covariance/estimation.py
index 8454418..44f2d5b 100644
--- a/src/wafo/covariance/estimation.py
+++ b/src/wafo/covariance/estimation.py
@@ -141,7 +141,7 @@ class CovarianceEstimator(object):
         if hasattr(detrend, '__call__'):
             x = detrend(x)
 
-        nfft = 2 ** nextpow2(n)
+        nfft = 2 ** nextpow2(2 * n)
         raw_periodogram = abs(fft(x, nfft)) ** 2 / Ncens
         # ifft = fft/nfft since raw_periodogram is real!
         auto_cov = np.real(fft(raw_periodogram)) / nfft
-- 
2.43.0


From ad202e2f94d1ef452a0f439cf5adcf3493eca5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:20 +0000
Subject: [PATCH 48/82] fix: sum frequency effects of qtf by Langley's method
 were wrong in finite water

---
 src/wafo/spectrum/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index 261c598..3e55948 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -193,7 +193,7 @@ def qtf(w, h=inf, g=9.81, method='winterstein', rtol=1e-7, atol=0):
     if method.startswith('langley'):
         p_1 = (-2 * w1p2 * (k12 * g ** 2. - w12 ** 2.) +
                w_1 * (w_2 ** 4. - g ** 2 * k_2 ** 2) +
-               w_2 * (w_1 ** 4 - g * 2. * k_1 ** 2)) / (4. * w12 + _TINY)
+               w_2 * (w_1 ** 4 - g ** 2 * k_1 ** 2)) / (4. * w12 + _TINY)
 
         p_2 = w1p2 ** 2. * cosh((k1p2) * h) - g * (k1p2) * sinh((k1p2) * h)
         p_2 += _TINY * np.int_(p_2 == 0)
-- 
2.43.0


From 36decbd92f4664cdd116472f877c0566db49cb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:36 +0000
Subject: [PATCH 49/82] fix: sim_nl applied the second order correction to the
 components one below the selected ones, giving nan if these include the
 lowest

---
 src/wafo/spectrum/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index 3e55948..96c43fb 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -2961,13 +2961,13 @@ class SpecData1D(PlotData):
         f_limit_lo = sqrt(g * tanh(kbar * water_depth) *
                           amp_max / water_depth) / (2 * pi * water_depth)
 
-        nmax = min(flatnonzero(f <= f_limit_up).max(), nmax) + 1
-        nmin = max(flatnonzero(f_limit_lo <= f).min(), nmin) + 1
+        nmax = min(flatnonzero(f <= f_limit_up).max(), nmax) + 2
+        nmin = max(flatnonzero(f_limit_lo <= f).min(), nmin) + 2
 
         # if isempty(nmax),nmax = np/2end
         # if isempty(nmin),nmin = 2end % Must always be greater than 1
-        f_limit_up = df * nmax
-        f_limit_lo = df * nmin
+        f_limit_up = df * (nmax - 1)
+        f_limit_lo = df * (nmin - 1)
         if verbose:
             print('2nd order frequency Limits = %g,%g' %
                   (f_limit_lo, f_limit_up))
-- 
2.43.0


From ce4de45f7f528eeedd996e0bdadf5facd4d61b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:24 +0000
Subject: [PATCH 50/82] fix: Jonswap accepted parameters outside the range of
 the parametric normalization when only one of N and M was inside

---
 src/wafo/spectrum/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/spectrum/models.py b/src/wafo/spectrum/models.py
index 1b54893..da228b2 100644
--- a/src/wafo/spectrum/models.py
+++ b/src/wafo/spectrum/models.py
@@ -571,7 +571,7 @@ class Jonswap(ModelSpectrum):
         return Gf * _gengamspec(wn, self.N, self.M)
 
     def _check_parametric_ag(self, N, M, gammai):
-        parameters_ok = 3 <= N <= 50 or 2 <= M <= 9.5 and 1 <= gammai <= 20
+        parameters_ok = 3 <= N <= 50 and 2 <= M <= 9.5 and 1 <= gammai <= 20
         if not parameters_ok:
             raise ValueError('Not knowing the normalization because N, ' +
                              'M or peakedness parameter is out of bounds!')
-- 
2.43.0


From 21bd407e162e1b862106323222863cdc77090e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:24 +0000
Subject: [PATCH 51/82] fix: McCormick raised TypeError for Hm0=0

---
 src/wafo/spectrum/models.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wafo/spectrum/models.py b/src/wafo/spectrum/models.py
index da228b2..2eeb245 100644
--- a/src/wafo/spectrum/models.py
+++ b/src/wafo/spectrum/models.py
@@ -1113,6 +1113,8 @@ class McCormick(Bretschneider):
         if M is None and Hm0 > 0:
             self._TpdTz = Tp / Tz
             M = 1.0 / optimize.fminbound(self._localoptfun, 0.01, 5)
+        elif M is None:
+            M = 4.0  # no waves: the shape is arbitrary
         N = M + 1.0
         super(McCormick, self).__init__(Hm0, Tp, N, M, chk_seastate)
 
-- 
2.43.0


From 66b907c97df989e2d7e324ce329804746b2a8c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:24 +0000
Subject: [PATCH 52/82] fix: Torsethaugen ignored wnc, the cutoff frequency of
 the normalization

---
 src/wafo/spectrum/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/spectrum/models.py b/src/wafo/spectrum/models.py
index 2eeb245..bfcc281 100644
--- a/src/wafo/spectrum/models.py
+++ b/src/wafo/spectrum/models.py
@@ -1049,9 +1049,9 @@ class Torsethaugen(ModelSpectrum):
         # G0s=Ms/((Ns/Ms)**(-(Ns-1)/Ms)*gamma((Ns-1)/Ms )) #normalizing factor
 
         self.wind = Jonswap(Hm0=Hpw, Tp=Tpw, gamma=gammaw, N=Nw, M=Mw,
-                            method=self.method, chk_seastate=False)
+                            method=self.method, wnc=self.wnc, chk_seastate=False)
         self.swell = Jonswap(Hm0=Hps, Tp=Tps, gamma=gammas, N=Ns, M=Ms,
-                             method=self.method, chk_seastate=False)
+                             method=self.method, wnc=self.wnc, chk_seastate=False)
 
 
 class McCormick(Bretschneider):
-- 
2.43.0


From f67dfaddb7ef1727896f5433028f5de5bf079c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:24 +0000
Subject: [PATCH 53/82] fix: Torsethaugen raised ZeroDivisionError for Hm0=0

---
 src/wafo/spectrum/models.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wafo/spectrum/models.py b/src/wafo/spectrum/models.py
index bfcc281..861b210 100644
--- a/src/wafo/spectrum/models.py
+++ b/src/wafo/spectrum/models.py
@@ -929,6 +929,10 @@ class Torsethaugen(ModelSpectrum):
         monitor = 0
         Hm0 = self.Hm0
         Tp = self.Tp
+        if Hm0 == 0:  # no waves
+            self.wind = Jonswap(Hm0=0, Tp=Tp, gamma=1, chk_seastate=False)
+            self.swell = Jonswap(Hm0=0, Tp=Tp, gamma=1, chk_seastate=False)
+            return
         gravity1 = self.gravity  # m/s**2
 
         min = minimum  # @ReservedAssignment
-- 
2.43.0


From d7390dce82c6e98587022b882d42366913bbbe08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:24 +0000
Subject: [PATCH 54/82] fix: donelan and banner spreading raised
 AttributeError, nan where there is no spreading parameter

---
 src/wafo/spectrum/models.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/wafo/spectrum/models.py b/src/wafo/spectrum/models.py
index 861b210..3b7dc49 100644
--- a/src/wafo/spectrum/models.py
+++ b/src/wafo/spectrum/models.py
@@ -1912,7 +1912,7 @@ class Spreading(object):
         k = flatnonzero(wn_up < wn)
         s[k] = spb * (wn_up) ** mb
         # Convert to S-paramater in COS-2S distribution
-        r1 = self.r1ofsech2(s)
+        r1 = self._r1ofsech2(s)
         s = r1 / (1. - r1)
         return s
 
@@ -1925,8 +1925,8 @@ class Spreading(object):
         s3p = self._donelan(wn_up)
         #  Scale so that parametrization will be continous
         scale = s3m / s3p
-        s[k] = scale * self.donelan(wn[k])
-        r1 = self.r1ofsech2(s)
+        s[k] = scale * self._donelan(wn[k])
+        r1 = self._r1ofsech2(s)
         # Convert to S-paramater in COS-2S distribution
         s = r1 / (1. - r1)
 
@@ -1991,7 +1991,7 @@ class Spreading(object):
         """ R1OFSECH2   Computes R1 = pi./(2*B.*sinh(pi./(2*B)))
         """
         realmax = finfo(float).max
-        tiny = 1. / realmax
+        tiny = 4. / realmax  # so that pi / tiny does not overflow
         x = clip(2. * B, tiny, realmax)
         xk = pi / x
         return where(x < 100., xk / sinh(xk),
-- 
2.43.0


From 433b561e8cd13189530a06f0b01aae8e2649d6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:24 +0000
Subject: [PATCH 55/82] fix: sech2 spreading was zero instead of uniform,
 losing the energy, where there is no spreading parameter

---
 src/wafo/spectrum/models.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/wafo/spectrum/models.py b/src/wafo/spectrum/models.py
index 3b7dc49..f69875f 100644
--- a/src/wafo/spectrum/models.py
+++ b/src/wafo/spectrum/models.py
@@ -1712,9 +1712,10 @@ class Spreading(object):
 
         B, TH, phi0 = self.chk_input(theta, w, wc)[:3]
         NB = tanh(pi * B)  # % Normalization factor.
-        NB = where(NB == 0, 1.0, NB)  # Avoid division by zero
+        # uniform spreading in the limit B -> 0
+        BdNB = where(NB == 0, 1. / pi, B / where(NB == 0, 1.0, NB))
 
-        D = 0.5 * B * sech(B * TH) ** 2. / NB
+        D = 0.5 * BdNB * sech(B * TH) ** 2.
         return D, phi0
 
     def mises(self, theta, w=1, wc=1):
-- 
2.43.0


From 5721ab37335c5e0989c8a27c98f1a8c0efef5c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:24 +0000
Subject: [PATCH 56/82] fix: wrapped normal spreading was evaluated at other
 angles than the given ones

---
 src/wafo/spectrum/models.py | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/wafo/spectrum/models.py b/src/wafo/spectrum/models.py
index f69875f..935f519 100644
--- a/src/wafo/spectrum/models.py
+++ b/src/wafo/spectrum/models.py
@@ -1673,19 +1673,13 @@ class Spreading(object):
 
         D1 = par ** 2. / 2.
 
-        ix = arange(1, Nt)
-        ix2 = ix ** 2
-        Nd2 = D1.size
-        Fcof = vstack((ones((1, Nd2)) / 2, exp(-ix2[:, newaxis] * D1))) / pi
-
-        cor = exp(1j * ix[:, newaxis] * TH[0, :])
-        # correction term to get
-        Pcor = vstack((ones((1, TH.shape[1])), cor))
-        # the correct integration limits
-        Fcof = Fcof * Pcor.conj()
-        D = real(fft(Fcof, axis=0))
-        D[D < 0] = 0
-        return D, phi0
+        D = ones((Nt, 1))
+        for n in range(1, 1001):
+            Fcof = exp(-n ** 2 * D1)
+            D = D + 2 * Fcof * cos(n * TH)
+            if np.all(Fcof < _EPS):
+                break
+        return maximum(D, 0) / (2 * pi), phi0
 
     def sech2(self, theta, w=1, wc=1):
         """SECH2 directonal spreading function
-- 
2.43.0


From 033db9a7a516ab071024752f25a4e62c39362459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:01 +0000
Subject: [PATCH 57/82] fix: narrow mises and sech2 spreading raised ValueError
 outside the table of starting values

---
 src/wafo/spectrum/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/spectrum/models.py b/src/wafo/spectrum/models.py
index 935f519..a9e862f 100644
--- a/src/wafo/spectrum/models.py
+++ b/src/wafo/spectrum/models.py
@@ -1849,7 +1849,7 @@ class Spreading(object):
             return sp.ive(1, x) / sp.ive(0, x)
 
         K0 = hstack((linspace(0, 10, 513), linspace(10.00001, 100)))
-        funK = interp1d(fun0(K0), K0)
+        funK = interp1d(fun0(K0), K0, bounds_error=False, fill_value=(0., 100.))
         K0 = funK(r1.ravel())
         k1 = flatnonzero(isnan(K0))
         if (k1.size > 0):
@@ -1866,7 +1866,7 @@ class Spreading(object):
         """ Returns the solution of R1 = pi/(2*B*sinh(pi/(2*B)).
         """
         B0 = hstack((linspace(_EPS, 5, 513), linspace(5.0001, 100)))
-        funB = interp1d(self._r1ofsech2(B0), B0)
+        funB = interp1d(self._r1ofsech2(B0), B0, bounds_error=False, fill_value=(_EPS, 100.))
 
         B0 = funB(r1.ravel())
         k1 = flatnonzero(isnan(B0))
-- 
2.43.0


From 9b54204f7afad2891e8fed2a355b987cd50450ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:25 +0000
Subject: [PATCH 58/82] fix: findpot dropped every peak of all but the first
 clusters

---
 src/wafo/stats/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/stats/core.py b/src/wafo/stats/core.py
index 7972265..a3a0a08 100644
--- a/src/wafo/stats/core.py
+++ b/src/wafo/stats/core.py
@@ -446,7 +446,7 @@ def _remove_index_to_data_too_close_to_each_other(ix_e, is_too_small, di_e, ti_e
                               is_too_small[-1]))
     # Find opening (no) and closing (nc) index for data beeing to close:
     iy = findextrema(np.hstack([0, 0, is_too_small, 0]))
-    no = iy[:2] - 1
+    no = iy[::2] - 1
     nc = iy[1::2]
     for start, stop in zip(no, nc):
         iz = slice(start, stop)
-- 
2.43.0


From 58d12e1e9b2fb20b4cc2633e71ce2cfc0bc0745e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:25 +0000
Subject: [PATCH 59/82] fix: decluster raised TypeError for lists

---
 src/wafo/stats/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/stats/core.py b/src/wafo/stats/core.py
index a3a0a08..21065bc 100644
--- a/src/wafo/stats/core.py
+++ b/src/wafo/stats/core.py
@@ -435,8 +435,8 @@ def decluster(data, t=None, thresh=None, tmin=1):
     --------
     fitgenpar, findpot, extremalidx
     """
-    if t is None:
-        t = np.arange(len(data))
+    data = asarray(data)
+    t = np.arange(len(data)) if t is None else asarray(t)
     i = findpot(data, t, thresh, tmin)
     return data[i], t[i]
 
-- 
2.43.0


From af0fcb106f943235d740d93fa53f3dac68419ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:50 +0000
Subject: [PATCH 60/82] fix: edf sorted the data of the caller

---
 src/wafo/stats/core.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/wafo/stats/core.py b/src/wafo/stats/core.py
index 21065bc..2a8f235 100644
--- a/src/wafo/stats/core.py
+++ b/src/wafo/stats/core.py
@@ -82,8 +82,7 @@ def edf(x, method=2):
 
      See also edf, pdfplot, cumtrapz
     """
-    z = atleast_1d(x)
-    z.sort()
+    z = np.sort(atleast_1d(x))
 
     n = len(z)
     if method == 1:
-- 
2.43.0


From 1eaa7b396ca9c3a6c024dea353f252614b47f6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:50 +0000
Subject: [PATCH 61/82] fix: reslife raised AttributeError for a list of
 thresholds

---
 src/wafo/stats/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wafo/stats/core.py b/src/wafo/stats/core.py
index 2a8f235..ac2938e 100644
--- a/src/wafo/stats/core.py
+++ b/src/wafo/stats/core.py
@@ -213,6 +213,7 @@ def reslife(data, u=None, umin=None, umax=None, nu=None, nmin=3, alpha=0.05,
         nu = _check_nu(nu, nmin, n)
         u = linspace(umin, umax, nu)
 
+    u = asarray(u)
     nu = len(u)
 
     # mrl1 = valarray(nu)
-- 
2.43.0


From a81abd3c11b5e38a44893221e05febd9543ed363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:50 +0000
Subject: [PATCH 62/82] fix: dispersion_idx raised TypeError for a list of
 thresholds

---
 src/wafo/stats/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wafo/stats/core.py b/src/wafo/stats/core.py
index ac2938e..46d9c01 100644
--- a/src/wafo/stats/core.py
+++ b/src/wafo/stats/core.py
@@ -356,6 +356,7 @@ def dispersion_idx(
         nu = _check_nu(nu, nmin, n)
         u = linspace(umin, umax, nu)
 
+    u = asarray(u)
     nu = len(u)
 
     di = np.zeros(nu)
-- 
2.43.0


From 9641cd8af8d8fa482a346e26bdb9faec76e10e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:50 +0000
Subject: [PATCH 63/82] fix: returnperiod2sf and sf2returnperiod raised
 TypeError for scalars, ValueError for integers out of range

---
 src/wafo/stats/core.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/wafo/stats/core.py b/src/wafo/stats/core.py
index 46d9c01..bddb115 100644
--- a/src/wafo/stats/core.py
+++ b/src/wafo/stats/core.py
@@ -496,8 +496,7 @@ def returnperiod2sf(period, numevents_per_unit=1):
     t, npu = np.broadcast_arrays(period, numevents_per_unit)
     invprb = t*npu
     nan_mask = (npu <= 0) | (invprb < 1)
-    invprb[nan_mask] = np.nan
-    return 1./invprb
+    return 1. / np.where(nan_mask, np.nan, invprb)
 
 
 def sf2returnperiod(q, numevents_per_unit=1):
@@ -535,8 +534,7 @@ def sf2returnperiod(q, numevents_per_unit=1):
     prbi, npu = np.broadcast_arrays(q, numevents_per_unit)
     inv_period = npu * prbi
     nan_mask = (npu < 0) | (prbi < 0) | (1 <= prbi)
-    inv_period[nan_mask] = np.nan
-    return 1./inv_period
+    return 1. / np.where(nan_mask, np.nan, inv_period)
 
 
 def findpot(data, t=None, thresh=None, tmin=1):
-- 
2.43.0


From 9c1379ee63061722d2f37e512d2775b485051b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:26 +0000
Subject: [PATCH 64/82] fix: nt2fr used the last column instead of the matrix
 without it

---
 src/wafo/markov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/markov.py b/src/wafo/markov.py
index 8383c60..d1ca82d 100644
--- a/src/wafo/markov.py
+++ b/src/wafo/markov.py
@@ -26,7 +26,7 @@ def nt2fr(nt, kind=0):
     """
 
     n = len(nt)
-    fr_raw = (nt[:n - 1, :][:, n - 1] + nt[1:, :][:, 1:] -
+    fr_raw = (nt[:n - 1, :][:, :n - 1] + nt[1:, :][:, 1:] -
               nt[:n - 1, :][:, 1:] - nt[1:, :][:, :n - 1])
 
     fr = np.zeros(np.shape(nt))
-- 
2.43.0


From 00e794928248cbdff4a2914d6683c1e4c56e8df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:26 +0000
Subject: [PATCH 65/82] fix: fr2nt always raised IndexError

---
 src/wafo/markov.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/markov.py b/src/wafo/markov.py
index d1ca82d..ac8db76 100644
--- a/src/wafo/markov.py
+++ b/src/wafo/markov.py
@@ -58,9 +58,9 @@ def fr2nt(fr):
     if n != m:
         raise ValueError('The matrix is not square!')
 
-    m1 = np.cumsum(np.cumsum(fr, axis=1) - fr)
+    m1 = np.cumsum(np.cumsum(fr, axis=1) - fr, axis=0)
     m2 = np.zeros((n, n))
-    m2[1:, 1:] = m1[:n - 2, :][:, 1:]
+    m2[1:, 1:] = m1[:n - 1, :][:, 1:]
     nt = np.fliplr(np.triu(np.fliplr(m2), 0))
 
     return nt
-- 
2.43.0


From 33a6095773ee920973ec190e3845db2b8374282d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:26 +0000
Subject: [PATCH 66/82] fix: mktestmat set one subdiagonal too few to zero,
 keeping the diagonal by default

---
 src/wafo/markov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/markov.py b/src/wafo/markov.py
index ac8db76..79678e2 100644
--- a/src/wafo/markov.py
+++ b/src/wafo/markov.py
@@ -802,7 +802,7 @@ def mktestmat(param=(-1, 1, 32), x0=None, s=None, lam=1, numsubzero=0):
                                  [lam**2 - 1, lam**2 + 1]])
     Sm1 = np.linalg.pinv(S)
     for i in range(min(n - 1 - numsubzero, n)):
-        for j in range(max(i + numsubzero, 0), n):
+        for j in range(max(i + 1 + numsubzero, 0), n):
             dx = np.array([u[i], u[j]]) - x0
             F[i, j] = np.exp(-1 / 2 * np.dot(np.dot(dx, Sm1), dx))
 
-- 
2.43.0


From 073693a6e82b0fdc256263015af91923d341d48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:26 +0000
Subject: [PATCH 67/82] fix: mctp2tc normalized the Max2min matrix of the
 caller in place

---
 src/wafo/markov.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wafo/markov.py b/src/wafo/markov.py
index 79678e2..76bd827 100644
--- a/src/wafo/markov.py
+++ b/src/wafo/markov.py
@@ -330,6 +330,7 @@ def mctp2tc(f_Mm, utc, param, f_mM=None):
             raise ValueError('the reference level out of range, stop')
 
     def _normalize_rows(arr):
+        arr = arr * 1.0
         n = len(arr)
         for i in range(n):
             rowsum = np.sum(arr[i])
-- 
2.43.0


From ccff2c59cb89242ee667f3164d5ffeb91506b90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:47 +0000
Subject: [PATCH 68/82] fix: _gumbel_r_link refused the location parameter

---
 src/wafo/stats/estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/stats/estimation.py b/src/wafo/stats/estimation.py
index e5c7194..2126d18 100644
--- a/src/wafo/stats/estimation.py
+++ b/src/wafo/stats/estimation.py
@@ -155,7 +155,7 @@ def _gumbel_r_link(x, logsf, phat, i):
     loglog_cdf = log(-log(-expm1(logsf)))
     if i == 1:
         return -(x - loc) / loglog_cdf
-    if i == 1:
+    if i == 0:
         return x + scale * loglog_cdf
     raise IndexError('Index to the fixed parameter is out of bounds')
 
-- 
2.43.0


From 2c58b13d78a64dd7b30be49edb5c5a42cc7990e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:47 +0000
Subject: [PATCH 69/82] fix: _rayleigh_link gave a wrong scale

---
 src/wafo/stats/estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/stats/estimation.py b/src/wafo/stats/estimation.py
index 2126d18..35b7ce9 100644
--- a/src/wafo/stats/estimation.py
+++ b/src/wafo/stats/estimation.py
@@ -187,7 +187,7 @@ def _genexpon_link(x, logsf, phat, i):
 
 def _rayleigh_link(x, logsf, phat, i):
     if i == 1:
-        return x - phat[0] / np.sqrt(-2.0 * logsf)
+        return (x - phat[0]) / np.sqrt(-2.0 * logsf)
     if i == 0:
         return x - phat[1] * np.sqrt(-2.0 * logsf)
     raise IndexError('Index to the fixed parameter is out of bounds')
-- 
2.43.0


From 7d1ef51360ae2081919a1091ae592ea24b6db5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:47 +0000
Subject: [PATCH 70/82] fix: link function of truncrayleigh was wrong and
 registered under a misspelled name

---
 src/wafo/stats/estimation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wafo/stats/estimation.py b/src/wafo/stats/estimation.py
index 35b7ce9..d3a99f4 100644
--- a/src/wafo/stats/estimation.py
+++ b/src/wafo/stats/estimation.py
@@ -197,9 +197,9 @@ def _trunclayleigh_link(x, logsf, phat, i):
     c, loc, scale = phat
     if i == 0:
         x_norm = (x - loc) / scale
-        return - 2 * logsf / x_norm - x_norm / 2.0
+        return - logsf / x_norm - x_norm / 2.0
     if i == 2:
-        return x - loc / (np.sqrt(c * c - 2 * logsf) - c)
+        return (x - loc) / (np.sqrt(c * c - 2 * logsf) - c)
     if i == 1:
         return x - scale * (np.sqrt(c * c - 2 * logsf) - c)
     raise IndexError('Index to the fixed parameter is out of bounds')
@@ -212,7 +212,7 @@ LINKS = dict(expon=_expon_link,
              genexpon=_genexpon_link,
              gumbel_r=_gumbel_r_link,
              rayleigh=_rayleigh_link,
-             trunclayleigh=_trunclayleigh_link,
+             truncrayleigh=_trunclayleigh_link,
              genextreme=_genextreme_link,
              exponweib=_exponweib_link,
              burr=_burr_link)
-- 
2.43.0


From 85cf64c32d1002c1a0bd1919d057bd0347d91f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:47 +0000
Subject: [PATCH 71/82] fix: _burr_link gave nan for c, loc and scale

---
 src/wafo/stats/estimation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wafo/stats/estimation.py b/src/wafo/stats/estimation.py
index d3a99f4..7c97ebe 100644
--- a/src/wafo/stats/estimation.py
+++ b/src/wafo/stats/estimation.py
@@ -71,11 +71,11 @@ def _burr_link(x, logsf, phat, i):
     if i == 1:
         return -log_cdf / log1p(x_norm**(-par_c))
     if i == 0:
-        return log1p(-np.exp(-log_cdf / par_d)) / log(x_norm)
+        return -log(expm1(-log_cdf / par_d)) / log(x_norm)
     if i == 2:
-        return x - scale * np.exp(log1p(-np.exp(-log_cdf / par_d)) / par_c)
+        return x - scale * np.exp(-log(expm1(-log_cdf / par_d)) / par_c)
     if i == 3:
-        return (x - loc) / np.exp(log1p(-np.exp(-log_cdf / par_d)) / par_c)
+        return (x - loc) / np.exp(-log(expm1(-log_cdf / par_d)) / par_c)
     raise IndexError('Index to the fixed parameter is out of bounds')
 
 
-- 
2.43.0


From a9a1c6c3270c39ff5b8de147d600648ce90f5367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:47 +0000
Subject: [PATCH 72/82] fix: _exponweib_link used the logarithm of cdf in place
 of cdf

---
 src/wafo/stats/estimation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wafo/stats/estimation.py b/src/wafo/stats/estimation.py
index 7c97ebe..b662a35 100644
--- a/src/wafo/stats/estimation.py
+++ b/src/wafo/stats/estimation.py
@@ -119,11 +119,11 @@ def _exponweib_link(x, logsf, phat, i):
     if i == 0:
         return - log_cdf / log(-expm1(-x_norm**c))
     if i == 1:
-        return log(-log1p(- log_cdf ** (1.0 / a))) / log(x_norm)
+        return log(-log1p(-np.exp(-log_cdf / a))) / log(x_norm)
     if i == 2:
-        return x - (-log1p(- log_cdf ** (1.0 / a))) ** (1.0 / c) * scale
+        return x - (-log1p(-np.exp(-log_cdf / a))) ** (1.0 / c) * scale
     if i == 3:
-        return (x - loc) / (-log1p(- log_cdf ** (1.0 / a))) ** (1.0 / c)
+        return (x - loc) / (-log1p(-np.exp(-log_cdf / a))) ** (1.0 / c)
     raise IndexError('Index to the fixed parameter is out of bounds')
 
 
-- 
2.43.0


From 8d5deacc321f648692e6d5754bebf2226a4e7c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:47 +0000
Subject: [PATCH 73/82] fix: _genpareto_link gave a wrong location

---
 src/wafo/stats/estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/stats/estimation.py b/src/wafo/stats/estimation.py
index b662a35..73b6c3b 100644
--- a/src/wafo/stats/estimation.py
+++ b/src/wafo/stats/estimation.py
@@ -146,7 +146,7 @@ def _genpareto_link(x, logsf, phat, i):
         #   link = -(x-loc)*c/expm1(-c*logsf)
         return (x - loc) * c / expm1(-c * logsf)
     if i == 1:
-        return x + scale * expm1(c * logsf) / c
+        return x - scale * expm1(-c * logsf) / c
     raise IndexError('Index to the fixed parameter is out of bounds')
 
 
-- 
2.43.0


From 5f94c11801c0eafef8eb706c1471c6ac728eca59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:47 +0000
Subject: [PATCH 74/82] fix: _genexpon_link gave wrong parameters

---
 src/wafo/stats/estimation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/stats/estimation.py b/src/wafo/stats/estimation.py
index 73b6c3b..83e0f29 100644
--- a/src/wafo/stats/estimation.py
+++ b/src/wafo/stats/estimation.py
@@ -177,9 +177,9 @@ def _genexpon_link(x, logsf, phat, i):
     x_norm = (x - loc) / scale
     fact1 = (x_norm + expm1(-c * x_norm) / c)
     if i == 0:
-        return b * fact1 + logsf  # a
+        return -(b * fact1 + logsf) / x_norm  # a
     if i == 1:
-        return (a - logsf) / fact1  # b
+        return -(a * x_norm + logsf) / fact1  # b
     if i in [2, 3, 4]:
         raise NotImplementedError('Only implemented for index in [0,1]!')
     raise IndexError('Index to the fixed parameter is out of bounds')
-- 
2.43.0


From bdd6783f844e3bc6364b77599853b32834efa9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:11 +0000
Subject: [PATCH 75/82] fix: an optimizer given by name raised NameError

---
 src/wafo/stats/_distn_infrastructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/stats/_distn_infrastructure.py b/src/wafo/stats/_distn_infrastructure.py
index b15bbe4..3837e20 100644
--- a/src/wafo/stats/_distn_infrastructure.py
+++ b/src/wafo/stats/_distn_infrastructure.py
@@ -275,7 +275,7 @@ def _reduce_func2(self, args, kwds):
 def _get_optimizer(kwds):
     optimizer = kwds.pop('optimizer', optimize.fmin)
     # convert string to function in scipy.optimize
-    if not callable(optimizer) and isinstance(optimizer, string_types):
+    if not callable(optimizer) and isinstance(optimizer, str):
         if not optimizer.startswith('fmin_'):
                 optimizer = '_'.join(("fmin", optimizer))
         try:
-- 
2.43.0


From ffeb2fe040e7d903ce12d05d386f4df4d7048ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:11 +0000
Subject: [PATCH 76/82] fix: ci_sf, ci_logsf and ci_quantile did not compute
 the profile down to the level asked for

---
 src/wafo/stats/estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/stats/estimation.py b/src/wafo/stats/estimation.py
index 83e0f29..e8144c7 100644
--- a/src/wafo/stats/estimation.py
+++ b/src/wafo/stats/estimation.py
@@ -1404,7 +1404,7 @@ class FitDistribution(rv_frozen):
         cinterval = []
         for param_i in np.atleast_1d(params).ravel():
             try:
-                profile = profiler(param_i, i=i)
+                profile = profiler(param_i, i=i, alpha=alpha)
                 cinterval.append(profile.get_bounds(alpha=alpha))
             except Exception:
                 cinterval.append((np.nan, np.nan))
-- 
2.43.0


From d8931e6476699608ee7003d60cfcd8177069304f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:40 +0000
Subject: [PATCH 77/82] fix: start values of genextreme sorted the data of the
 caller in place

---
 src/wafo/stats/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/stats/distributions.py b/src/wafo/stats/distributions.py
index 7593dc4..ece9667 100644
--- a/src/wafo/stats/distributions.py
+++ b/src/wafo/stats/distributions.py
@@ -91,7 +91,7 @@ def _genextreme_fitstart(self, data, fitstart): # pab
     # Probability weighted moments
     log = np.log
     n = len(d)
-    d.sort()
+    d = np.sort(d)
     koeff1 = np.r_[0:n] / (n - 1)
     koeff2 = koeff1 * (np.r_[0:n] - 1) / (n - 2)
     b2 = np.dot(koeff2, d) / n
-- 
2.43.0


From 16868504c8404abfce3186af47be02d00efdca41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:05 +0000
Subject: [PATCH 78/82] fix: pmf, cdf and sf of pbinom raised IndexError for
 floating point numbers

---
 src/wafo/stats/distributions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wafo/stats/distributions.py b/src/wafo/stats/distributions.py
index ece9667..bea6113 100644
--- a/src/wafo/stats/distributions.py
+++ b/src/wafo/stats/distributions.py
@@ -277,14 +277,14 @@ class pbinom(rv_discrete):
         return sum((self._random_state.binomial(1, p) for p in self.probabilities))
 
     def _pmf(self, x):
-        return self._pmf_values[x]
+        return self._pmf_values[np.asarray(x, dtype=int)]
 
     def _sf(self, x):
         # val = super(pbinom, self)._sf(x)
-        return self._sf_values[x+1]
+        return self._sf_values[np.floor(x).astype(int) + 1]
 
     def _cdf(self, x):
-        return self._cdf_values[x]
+        return self._cdf_values[np.floor(x).astype(int)]
         # x = int(np.floor(x))
         # return sum((self._pmf(i) for i in range(0, x+1)))
 
-- 
2.43.0


From 3c9790d13ea8637e1e61724632ae99c9d9dd5f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:05 +0000
Subject: [PATCH 79/82] fix: pbinom.rvs always raised TypeError

---
 src/wafo/stats/distributions.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/wafo/stats/distributions.py b/src/wafo/stats/distributions.py
index bea6113..9b0454c 100644
--- a/src/wafo/stats/distributions.py
+++ b/src/wafo/stats/distributions.py
@@ -272,9 +272,8 @@ class pbinom(rv_discrete):
         pass
 
 
-    def _rvs(self):
-        n = self._size
-        return sum((self._random_state.binomial(1, p) for p in self.probabilities))
+    def _rvs(self, size=None, random_state=None):
+        return sum((random_state.binomial(1, p, size=size) for p in self.probabilities))
 
     def _pmf(self, x):
         return self._pmf_values[np.asarray(x, dtype=int)]
-- 
2.43.0


From c6a4bbf2a42e9559735993205487f3c9fb5f00ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:39 +0000
Subject: [PATCH 80/82] fix: entropy of truncrayleigh ignored the shape
 parameter

---
 src/wafo/stats/distributions.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/wafo/stats/distributions.py b/src/wafo/stats/distributions.py
index 9b0454c..f108749 100644
--- a/src/wafo/stats/distributions.py
+++ b/src/wafo/stats/distributions.py
@@ -222,8 +222,11 @@ class truncrayleigh_gen(rv_continuous):
                 6 * pi / val - 16 / val ** 2)
 
     def _entropy(self, c):
-        # TODO: correct this it is wrong!
-        return _EULER / 2.0 + 1 - 0.5 * np.log(2)
+        c = np.maximum(c, 1e-100)
+        x = c * c / 2
+        # E(log(r + c)) where (r + c)**2 - c**2 is exponential
+        val = np.where(x < 500, np.log(c) + 0.5 * np.exp(np.minimum(x, 500)) * sc.exp1(x), np.log(c))  #pylint: disable=no-member
+        return 1 - val
 
 
 truncrayleigh = truncrayleigh_gen(a=0.0, name="truncrayleigh", shapes='c')
-- 
2.43.0


From e00b91f66f9a1607165ac14ff237c90ed4dbd2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:00 +0000
Subject: [PATCH 81/82] fix: TimeSeries.tospecdata failed for other windows
 than parzen and bartlett

---
 src/wafo/objects.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/wafo/objects.py b/src/wafo/objects.py
index c842887..d83d449 100644
--- a/src/wafo/objects.py
+++ b/src/wafo/objects.py
@@ -1410,10 +1410,13 @@ class TimeSeries(PlotData):
         '''
         if isinstance(wname, tuple):
             wname = wname[0]
-        dof = int(dict(parzen=3.71,
-                       hanning=2.67,
-                       bartlett=3).get(wname, np.nan) * n / L)
-        Be = dict(parzen=1.33, hanning=1,
+        if not isinstance(wname, str):
+            wname = ''  # window given by its values
+        dof = dict(parzen=3.71, hanning=2.67, hann=2.67,
+                   bartlett=3).get(wname, np.nan) * n / L
+        if not np.isnan(dof):
+            dof = int(dof)
+        Be = dict(parzen=1.33, hanning=1, hann=1,
                   bartlett=1.33).get(wname, np.nan) * 2 * pi / (L * dt)
         if ftype == 'f':
             Be = Be / (2 * pi)  # bandwidth in Hz
-- 
2.43.0


From 975e58e6784d5db003f4e94732eea0b79c352495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:48 +0000
Subject: [PATCH 82/82] fix: default maximum lag of short series was taken from
 the complementary lags

---
 src/wafo/covariance/estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/covariance/estimation.py b/src/wafo/covariance/estimation.py
index 44f2d5b..2eb9b03 100644
--- a/src/wafo/covariance/estimation.py
+++ b/src/wafo/covariance/estimation.py
@@ -154,7 +154,7 @@ class CovarianceEstimator(object):
             auto_cov = auto_cov / auto_cov[0]
 
         if lag is None:
-            lag = self._estimate_lag(auto_cov, Ncens)
+            lag = self._estimate_lag(auto_cov[:n], Ncens)
         lag = min(lag, n - 2)
         if isinstance(window, str) or type(window) is tuple:
             win = get_window(window, 2 * lag - 1)
-- 
2.43.0

