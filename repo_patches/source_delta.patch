From 60b12799cdb054ce49a50f12eead5bc875a98ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:22 +0000
Subject: [PATCH 01/58] fix: tpnorm keeps theta=pi (nadir) and does not modify
 its argument

---
 raytools/translate.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/raytools/translate.py b/raytools/translate.py
index 4acecee..881c5fc 100644
--- a/raytools/translate.py
+++ b/raytools/translate.py
@@ -231,8 +231,11 @@ def xyz2xy(xyz, axes=(0, 1, 2), flip=False):
 
 def tpnorm(thetaphi):
     """normalize angular vector to 0-pi, 0-2pi"""
-    thetaphi = np.atleast_2d(thetaphi)
-    thetaphi[:, 0] = np.mod(thetaphi[:, 0] + np.pi, np.pi)
+    thetaphi = np.array(np.atleast_2d(thetaphi), dtype=float)
+    theta = thetaphi[:, 0]
+    # theta=pi (straight down) is in range and must not wrap to 0
+    out = np.logical_or(theta < 0, theta > np.pi)
+    thetaphi[out, 0] = np.mod(theta[out] + np.pi, np.pi)
     thetaphi[:, 1] = np.mod(thetaphi[:, 1] + 2*np.pi, 2*np.pi)
     return thetaphi
 
-- 
2.43.0


From d20a278cacbc5a134342ffeea8e372edcaed0f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:22 +0000
Subject: [PATCH 02/58] fix: xyz2aa returns azimuth in the documented range
 (-180,180)

---
 raytools/translate.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/raytools/translate.py b/raytools/translate.py
index 881c5fc..619c401 100644
--- a/raytools/translate.py
+++ b/raytools/translate.py
@@ -276,7 +276,10 @@ def xyz2aa(xyz):
     xyz = np.atleast_2d(xyz)
     tp = xyz2tp(xyz)
     tp[:, 1] -= np.pi
-    return (np.pi/2 - tp)/(np.pi/180)
+    aa = (np.pi/2 - tp)/(np.pi/180)
+    # keep azimuth in (-180,180)
+    aa[:, 1] = np.where(aa[:, 1] > 180, aa[:, 1] - 360, aa[:, 1])
+    return aa
 
 
 def chord2theta(c):
-- 
2.43.0


From fa1997d897466643a3ed08ce4e5a4bc94695e250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:22 +0000
Subject: [PATCH 03/58] fix: resample does not truncate whole number
 downsampling factors

---
 raytools/translate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytools/translate.py b/raytools/translate.py
index 619c401..2296a4a 100644
--- a/raytools/translate.py
+++ b/raytools/translate.py
@@ -389,7 +389,7 @@ def resample(samps, ts=None, gauss=True, radius=None):
                 radius = tuple(rs - 1)
             samps = gaussian_filter(samps, radius)
     elif np.prod(rs) < 1:
-        rs = (1/rs).astype(int)
+        rs = np.round(1/rs).astype(int)
         og = (-rs/2).astype(int)
         samps = uniform_filter(samps, rs, origin=og)
         for i, j in enumerate(rs):
-- 
2.43.0


From 65c458ef8f16c8424bbf5baac14be3e9df4d105d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:22 +0000
Subject: [PATCH 04/58] fix: weighted_quantile interpolates quantiles close to
 (but below) 1

---
 raytools/translate.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/raytools/translate.py b/raytools/translate.py
index 2296a4a..a9e0190 100644
--- a/raytools/translate.py
+++ b/raytools/translate.py
@@ -439,14 +439,9 @@ def weighted_quantile(d, weights=None, q=0.5, t=0.0):
         cw = cw - cw[0]
         midp = np.asarray(q) * cw[-1]
         li = np.searchsorted(cw, midp, side='right') - 1
-        ri = np.where(np.isclose(q, 1), li, li+1)
-        try:
-            dn = np.where(np.isclose(q, 1), 1, (cw[ri] - cw[li]))
-        except IndexError as ex:
-            result = np.quantile(d, q)
-        else:
-            result = d[li] + (d[ri] - d[li]) * (midp - cw[li])/dn
-        return result
+        ri = np.minimum(li + 1, len(cw) - 1)
+        dn = np.where(ri == li, 1, cw[ri] - cw[li])
+        return d[li] + (d[ri] - d[li]) * (midp - cw[li])/dn
 
 
 def weighted_median(d, weights=None, t=0.0):
-- 
2.43.0


From 63e9e79a1c9d56535d527649bf13e8978dfb1f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:22 +0000
Subject: [PATCH 05/58] fix: non_uniform_gaussian_filter returns unsorted input
 in input order

---
 raytools/translate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/raytools/translate.py b/raytools/translate.py
index a9e0190..69143d6 100644
--- a/raytools/translate.py
+++ b/raytools/translate.py
@@ -559,8 +559,8 @@ def non_uniform_gaussian_filter(x, y, xr=None, sigma=None, sscale=1.0,
         idxs = xr
     amu = np.apply_along_axis(nugf, 0, np.reshape(idxs, (1, -1)), x, y, sigma)
     # sort back unless already sorted or resampled
-    if inv_sort is not None and resample is None:
-        amu = amu[inv_sort]
+    if inv_sort is not None and xr is None:
+        amu = amu[..., inv_sort]
     return amu
 
 
-- 
2.43.0


From 5f6732c5339c66b808841f252ffb98971d0438ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:22 +0000
Subject: [PATCH 06/58] fix: uv2xy and uv2xyz do not change the global numpy
 error state

---
 raytools/translate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/raytools/translate.py b/raytools/translate.py
index 69143d6..92950c8 100644
--- a/raytools/translate.py
+++ b/raytools/translate.py
@@ -31,13 +31,13 @@ def norm1(v):
 # Shirley=Chiu Disk to Square Transformations #
 ###############################################
 
+@np.errstate(all="ignore")
 def uv2xy(uv):
     """translate from unit square (0,1),(0,1) to disk (x,y)
     http://psgraphics.blogspot.com/2011/01/improved-code-for-concentric
     -map.html.
     """
     uv = np.atleast_2d(uv)
-    np.seterr(all="ignore")
     xy = np.empty((uv.shape[0], 2), float)
     u = uv[:, 0]
     v = uv[:, 1]
@@ -53,12 +53,12 @@ def uv2xy(uv):
     return xy
 
 
+@np.errstate(all="ignore")
 def uv2xyz(uv, axes=(0, 1, 2), xsign=1):
     """translate from 2 x unit square (0,2),(0,1) to unit sphere (x,y,z)
     http://psgraphics.blogspot.com/2011/01/improved-code-for-concentric
     -map.html.
     """
-    np.seterr(all="ignore")
     uv = np.atleast_2d(uv)
     xyz = np.empty((uv.shape[0], 3), float)
     u = uv[:, 0]
-- 
2.43.0


From 2bde4ac495ebddef780087ab027ef817701beeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:20 +0000
Subject: [PATCH 07/58] fix: non_uniform_gaussian_filter handles several
 features with quantiles and gaps

---
 raytools/translate.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/raytools/translate.py b/raytools/translate.py
index 92950c8..08f66d7 100644
--- a/raytools/translate.py
+++ b/raytools/translate.py
@@ -510,9 +510,9 @@ def non_uniform_gaussian_filter(x, y, xr=None, sigma=None, sscale=1.0,
             elif mui == 0:
                 mu = yp[:, 0]
             else:
-                mu = np.average((yp[:, mui], yp[:, mui-1]), axis=0,
-                                weights=(x0-xp[mui-1], xp[mui]-x0))
-            if 'q' in akwargs:
+                wi = (x0 - xp[mui-1])/(xp[mui] - xp[mui-1])
+                mu = yp[:, mui]*wi + yp[:, mui-1]*(1 - wi)
+            if 'q' in akwargs and len(yp) == 1:
                 mu = np.full(len(akwargs['q']), mu)
         return mu
 
@@ -534,6 +534,12 @@ def non_uniform_gaussian_filter(x, y, xr=None, sigma=None, sscale=1.0,
         return _nugf_x(xp[i], xp[i2[0]:i2[1]], yp[:, i2[0]:i2[1]], sp)
 
     y = np.atleast_2d(y)
+    if len(y) > 1 and afunc is not np.average:
+        # one quantile for each feature
+        qfunc = afunc
+
+        def afunc(yp, **kwargs):
+            return np.ravel([qfunc(i, **kwargs) for i in yp])
     # sort data if necessary
     if not np.all(x[:-1] <= x[1:]):
         sorti = np.argsort(x, kind='stable')
-- 
2.43.0


From 5f26597812d6f7f0f6be5c4324cd87ed1d0f7984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:09 +0000
Subject: [PATCH 08/58] fix: xyz2skybin tolerance does not wrap to the opposite
 side of the sky

---
 raytools/translate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/raytools/translate.py b/raytools/translate.py
index 08f66d7..2d36c8d 100644
--- a/raytools/translate.py
+++ b/raytools/translate.py
@@ -180,6 +180,9 @@ def xyz2skybin(xyz, side, tol=0, normalize=False):
         tol = tol/side
         uvi = np.linspace(-tol, tol, 3)
         uvs = np.stack(np.meshgrid(uvi, uvi)).reshape(2, 9).T + uv
+        # cells do not continue on the opposite side of the sky
+        inside = np.all(np.logical_and(uvs >= 0, uvs < 1), 1)
+        uvs = uvs[np.logical_and(inside, uv[0, 0] < 1)]
         sbin = np.unique(uv2bin(uvs, side)).astype(int)
         skybin = sbin[sbin < side**2]
     else:
-- 
2.43.0


From a6c9679786479a9ab208835cad15c1996e0a02f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:39 +0000
Subject: [PATCH 09/58] fix: xyz2tp keeps the azimuth of directions close to
 straight down

---
 raytools/translate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytools/translate.py b/raytools/translate.py
index 2d36c8d..ef768df 100644
--- a/raytools/translate.py
+++ b/raytools/translate.py
@@ -261,7 +261,7 @@ def xyz2tp(xyz):
     xyz = np.atleast_2d(xyz)
     theta = np.arccos(xyz[:, 2])
     phi = np.where(np.isclose(theta, 0.0, atol=1e-10), np.pi,
-                   np.where(np.isclose(theta, np.pi, atol=1e-10),
+                   np.where(np.isclose(theta, np.pi, rtol=0, atol=1e-10),
                             np.pi, np.arctan2(xyz[:, 1], xyz[:, 0])))
     return tpnorm(np.column_stack([theta, phi]))
 
-- 
2.43.0


From 14e37257eedd35bcf53fb59a219c146afdb2f5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:12 +0000
Subject: [PATCH 10/58] fix: vxy2xyz does not modify its argument

---
 raytools/mapper/angularmixin.py | 3 +--
 raytools/mapper/mapper.py       | 1 +
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/raytools/mapper/angularmixin.py b/raytools/mapper/angularmixin.py
index de6c559..2cd86f8 100644
--- a/raytools/mapper/angularmixin.py
+++ b/raytools/mapper/angularmixin.py
@@ -68,8 +68,7 @@ class AngularMixin(object):
 
     def vxy2xyz(self, xy, stackorigin=False):
         """transform from view image space (2d) to world xyz"""
-        pxy = np.atleast_2d(xy)
-        pxy -= .5
+        pxy = np.atleast_2d(xy) - .5
         pxy *= (np.array([self._xsign, 1]) *
                 (self.viewangle * self._chordfactor) / 180)
         d = np.sqrt(np.sum(np.square(pxy), -1))
diff --git a/raytools/mapper/mapper.py b/raytools/mapper/mapper.py
index fecf9e0..e3c5f23 100644
--- a/raytools/mapper/mapper.py
+++ b/raytools/mapper/mapper.py
@@ -132,6 +132,7 @@ class Mapper(object):
 
     def vxy2xyz(self, xy, stackorigin=False):
         """transform from view image space (2d) to world xyz"""
+        xy = np.array(xy, dtype=float)
         xy[..., 0] = 1 - xy[..., 0]
         return self.uv2xyz(xy, stackorigin=stackorigin)
 
-- 
2.43.0


From 04d6fe6a1bd339f190cb26c8e6734082438fe03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:12 +0000
Subject: [PATCH 11/58] fix: Mapper.pixels with jitter offsets both coordinates

---
 raytools/mapper/mapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytools/mapper/mapper.py b/raytools/mapper/mapper.py
index e3c5f23..5b5e31f 100644
--- a/raytools/mapper/mapper.py
+++ b/raytools/mapper/mapper.py
@@ -151,7 +151,7 @@ class Mapper(object):
         xres, yres = self.framesize(res)
         if jitter > 0:
             rng = ((1 - jitter)/2, (1 + jitter)/2)
-            offset = np.random.default_rng().uniform(*rng, (xres, yres)).T
+            offset = np.random.default_rng().uniform(*rng, (xres, yres, 2))
         else:
             offset = 0.5
         return np.stack(np.mgrid[0:xres, 0:yres], 2) + offset
-- 
2.43.0


From 244ef5b9ef461ca3237f5120ba5267cfca25bdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:12 +0000
Subject: [PATCH 12/58] fix: view header looking straight down has a valid up
 vector

---
 raytools/mapper/angularmixin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytools/mapper/angularmixin.py b/raytools/mapper/angularmixin.py
index 2cd86f8..14daa39 100644
--- a/raytools/mapper/angularmixin.py
+++ b/raytools/mapper/angularmixin.py
@@ -118,7 +118,7 @@ class AngularMixin(object):
             return mask
 
     def header(self, pt=(0, 0, 0), viewproj='vta', **kwargs):
-        if np.allclose(self.dxyz, (0, 0, 1)):
+        if np.allclose(np.abs(self.dxyz), (0, 0, 1)):
             vup = "0 1 0"
         else:
             vup = "0 0 1"
-- 
2.43.0


From 3a2500fe9a11d19b4f2b8ee6253b32f85790f945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:34 +0000
Subject: [PATCH 13/58] fix: ViewMapper.uv2idx is the inverse of
 ViewMapper.idx2uv for 2:1 grids

---
 raytools/mapper/viewmapper.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/raytools/mapper/viewmapper.py b/raytools/mapper/viewmapper.py
index 0354a0b..2d844ae 100644
--- a/raytools/mapper/viewmapper.py
+++ b/raytools/mapper/viewmapper.py
@@ -94,6 +94,11 @@ class ViewMapper(AngularMixin, Mapper):
         uv = (si.T + offset)/shape[1]
         return uv
 
+    @staticmethod
+    def uv2idx(uv, shape):
+        ij = (uv * shape[1]).astype(int)
+        return ij[:, 0] * shape[1] + ij[:, 1]
+
     def transform_to(self, imarray, other, nearest=False):
         """take an image arrray with an assumed projection of self and
         transform it to other
-- 
2.43.0


From da803afe59f2c5779978aab9e6a46c4bfddac51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:34 +0000
Subject: [PATCH 14/58] fix: square projection drawing ignores rays beyond the
 edge of the square

---
 raytools/mapper/angularmixin.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/raytools/mapper/angularmixin.py b/raytools/mapper/angularmixin.py
index 14daa39..b6246ea 100644
--- a/raytools/mapper/angularmixin.py
+++ b/raytools/mapper/angularmixin.py
@@ -229,7 +229,10 @@ class AngularMixin(object):
             if self.aspect == 2:
                 pa = translate.uv2ij(self.xyz2uv(v), res)
             else:
-                pa = translate.uv2ij(self.xyz2uv(v[self.in_view(v)]), res)
+                uv = self.xyz2uv(v[self.in_view(v)])
+                # the square does not reach the view edge in every direction
+                uv = uv[np.all((uv >= 0) & (uv < 1), axis=1)]
+                pa = translate.uv2ij(uv, res)
             xp = pa[:, 0]
             yp = pa[:, 1]
         r = int(grow*2 + 1)
-- 
2.43.0


From 039279f5b4c59b69fb9d81bb7b98af8e50e5e45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:30 +0000
Subject: [PATCH 15/58] fix: Mapper.framesize follows changes of the aspect
 ratio

---
 raytools/mapper/mapper.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/raytools/mapper/mapper.py b/raytools/mapper/mapper.py
index 5b5e31f..0927f6f 100644
--- a/raytools/mapper/mapper.py
+++ b/raytools/mapper/mapper.py
@@ -6,8 +6,6 @@
 # License, v. 2.0. If a copy of the MPL was not distributed with this
 # file, You can obtain one at http://mozilla.org/MPL/2.0/.
 # =======================================================================
-import functools
-
 import numpy as np
 from scipy.ndimage import uniform_filter
 
@@ -136,7 +134,6 @@ class Mapper(object):
         xy[..., 0] = 1 - xy[..., 0]
         return self.uv2xyz(xy, stackorigin=stackorigin)
 
-    @functools.lru_cache(1)
     def framesize(self, res):
         if self.aspect < 1:
             yres = res
-- 
2.43.0


From 061855c0582318b957a8a49b1830f42df19fd3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:30 +0000
Subject: [PATCH 16/58] fix: hdr2vol returns a solid angle for every pixel of a
 360 degree image

---
 raytools/imagetools.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/raytools/imagetools.py b/raytools/imagetools.py
index 65afb52..064917f 100644
--- a/raytools/imagetools.py
+++ b/raytools/imagetools.py
@@ -203,6 +203,9 @@ def hdr2vol(imgf, vm=None, color=False, vlambda=None):
         vm = hdr2vm(imgf)
     vecs = vm.pixelrays(ar.shape[-1]).reshape(-1, 3)
     oga = vm.pixel2omega(vm.pixels(ar.shape[-1]), ar.shape[-1]).ravel()
+    # 360 degree images hold two hemispheres
+    if vm.aspect == 2:
+        oga = np.tile(oga, 2)
     return vecs, oga, np.squeeze(ar.reshape(-1, ar.shape[-1]*ar.shape[-2])).T
 
 
-- 
2.43.0


From a208c2ae65aef492ff3af3cdd7b7d3b7c57ecf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:34 +0000
Subject: [PATCH 17/58] fix: planar add_vecs_to_img leaves channels given as
 None untouched

---
 raytools/mapper/mapper.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/raytools/mapper/mapper.py b/raytools/mapper/mapper.py
index 0927f6f..21335dc 100644
--- a/raytools/mapper/mapper.py
+++ b/raytools/mapper/mapper.py
@@ -250,8 +250,9 @@ class Mapper(object):
             if grow > 0:
                 img = uniform_filter(img*r**2, r)
         else:
-            imgv = np.moveaxis(img, 0, 2)
-            imgv[xp, yp] = channels
+            for i in range(img.shape[0]):
+                if channels[i] is not None:
+                    img[i, xp, yp] = channels[i]
             if grow > 0:
                 img = uniform_filter(img*r**2, (1, r, r))
         return img
-- 
2.43.0


From 29592e71f6893ac0e28a3fba61e2aebcd5819c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:05 +0000
Subject: [PATCH 18/58] fix: is_hdr reads bytes

---
 raytools/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytools/io.py b/raytools/io.py
index e5f3292..b48cd7b 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -296,7 +296,7 @@ def clean_header(header):
 
 
 def is_hdr(imgf):
-    f = open(imgf)
+    f = open(imgf, 'rb')
     ishdr = f.read(10) == b'#?RADIANCE'
     f.close()
     return ishdr
-- 
2.43.0


From 7b363db927000df67feb2dc6940250d5499f83bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:05 +0000
Subject: [PATCH 19/58] fix: header lines with quotes are written unaltered

---
 raytools/io.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/raytools/io.py b/raytools/io.py
index b48cd7b..97739e1 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -141,13 +141,11 @@ def _array2hdr(ar, imgf, header, pval, clean=False):
         f = None
     else:
         f = open(imgf, 'wb')
-    if header is not None:
-        if clean:
-            header = clean_header(header)
-        hdr = "' '".join(header)
-        getinfo = shlex.split(f"getinfo -a '{hdr}'")
+    if header is not None and clean:
+        header = clean_header(header)
+    if header:
         p = Popen(pval.split(), stdin=PIPE, stdout=PIPE)
-        q = Popen(getinfo, stdin=p.stdout, stdout=f)
+        q = Popen(["getinfo", "-a", *header], stdin=p.stdout, stdout=f)
     else:
         p = Popen(pval.split(), stdin=PIPE, stdout=f)
         q = p
-- 
2.43.0


From 4612027c24e3f3b95fd25d91c7e4b4a6520766dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:05 +0000
Subject: [PATCH 20/58] fix: hdr images are read from paths with spaces or
 quotes

---
 raytools/io.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/raytools/io.py b/raytools/io.py
index 97739e1..baaf16c 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -202,7 +202,10 @@ def carray2hdr(ar, imgf, header=None, clean=False):
 
 
 def _hdr_in(pval, imgf, stdin):
-    p = Popen(shlex.split(pval), stdin=stdin, stdout=PIPE, stderr=PIPE)
+    pval = shlex.split(pval)
+    if imgf != "":
+        pval.append(imgf)
+    p = Popen(pval, stdin=stdin, stdout=PIPE, stderr=PIPE)
     shape = p.stdout.readline().strip().split()
     try:
         shape = (int(shape[-3]), int(shape[-1]))
@@ -236,7 +239,7 @@ def hdr2array(imgf, stdin=None, header=False, vlambda=None):
         imgd = hdr2carray(imgf, stdin)
         imgd = np.einsum("ijk,i->jk", imgd, vlambda)
     else:
-        pval = f'pvalue -b -h -df -o {imgf}'
+        pval = 'pvalue -b -h -df -o'
         imgd = bytes2np(*_hdr_in(pval, imgf, stdin)).T[:, ::-1]
     if header:
         return imgd, hdr_header(imgf)
@@ -256,7 +259,7 @@ def hdr2carray(imgf, stdin=None, header=False):
     -------
     ar: np.array
     """
-    pval = f'pvalue -n -h -df -o {imgf}'
+    pval = 'pvalue -n -h -df -o'
     data, shape = _hdr_in(pval, imgf, stdin)
     shape = (3, *shape)
     imgd = np.transpose(bytes2np(data, shape)[:, ::-1], (0, 2, 1))
@@ -301,8 +304,7 @@ def is_hdr(imgf):
 
 
 def hdr_header(imgf, clean=False, items=None):
-    p = Popen(shlex.split(f"getinfo {imgf}"), stdout=PIPE,
-              stderr=PIPE).communicate()
+    p = Popen(["getinfo", imgf], stdout=PIPE, stderr=PIPE).communicate()
     err = p[1]
     try:
         err = err.decode("utf-8")
-- 
2.43.0


From cca6d51dbe908dd06f4186913d8ee741e3ad553f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:05 +0000
Subject: [PATCH 21/58] fix: hdr_header keeps lines that mention RADIANCE

---
 raytools/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytools/io.py b/raytools/io.py
index baaf16c..9170fdd 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -318,7 +318,7 @@ def hdr_header(imgf, clean=False, items=None):
         raise IOError(f"{err} - wrong file type?")
     if "cannot open" in header:
         raise FileNotFoundError(f"{imgf} not found")
-    header = [i for i in header.strip().splitlines() if not re.match(r".*#?RADIANCE.*", i)]
+    header = [i for i in header.strip().splitlines() if not re.match(r"\s*#\?RADIANCE", i)]
     if items is not None:
         header = header_items(header, items=items)
     elif clean:
-- 
2.43.0


From 45686664c560c61ee559b3d14c2057c25c3c6abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:05 +0000
Subject: [PATCH 22/58] fix: hdr_header accepts header lines that contain
 'cannot open'

---
 raytools/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytools/io.py b/raytools/io.py
index 9170fdd..f5e9c4a 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -316,7 +316,7 @@ def hdr_header(imgf, clean=False, items=None):
         header = p[0].decode("utf-8")
     except UnicodeDecodeError:
         raise IOError(f"{err} - wrong file type?")
-    if "cannot open" in header:
+    if header.rstrip("\n") == f"{imgf}: cannot open":
         raise FileNotFoundError(f"{imgf} not found")
     header = [i for i in header.strip().splitlines() if not re.match(r"\s*#\?RADIANCE", i)]
     if items is not None:
-- 
2.43.0


From 74273b6d85ad4868735f3b81316381a92a0d6a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:24 +0000
Subject: [PATCH 23/58] fix: image views and sizes are read from paths with
 spaces or quotes

---
 raytools/imagetools.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/raytools/imagetools.py b/raytools/imagetools.py
index 064917f..35634af 100644
--- a/raytools/imagetools.py
+++ b/raytools/imagetools.py
@@ -8,6 +8,8 @@
 # =======================================================================
 
 """functions for translating from mappers to hdr"""
+import shlex
+
 import numpy as np
 import clasp.script_tools as cst
 
@@ -222,10 +224,11 @@ def vf_to_vm(view):
 
 
 def img_size(imgf):
-    hd = cst.pipeline([f"getinfo -d {imgf}"]).strip().split()
+    hd = cst.pipeline(["getinfo -d " + shlex.quote(imgf)])
+    hd = hd.rsplit(":", 1)[-1].split()
     x = 1
     y = 1
-    for i in range(2, len(hd)):
+    for i in range(1, len(hd)):
         if 'X' in hd[i - 1]:
             x = int(hd[i])
         elif 'Y' in hd[i - 1]:
@@ -235,14 +238,14 @@ def img_size(imgf):
 
 def hdr2vm(imgf, vpt=False):
     """hdr to ViewMapper"""
-    header, err = cst.pipeline([f"getinfo {imgf}"], caperr=True)
+    header, err = cst.pipeline(["getinfo " + shlex.quote(imgf)], caperr=True)
     try:
         err = err.decode("utf-8")
     except AttributeError:
         pass
     if "bad header!" in err:
         raise IOError(f"{err} - wrong file type?")
-    elif "cannot open" in header:
+    elif header.rstrip("\n") == f"{imgf}: cannot open":
         raise FileNotFoundError(f"{imgf} not found")
     vp = None
     if "VIEW= -vta" in header:
-- 
2.43.0


From 25235dcdedcc5cfad4b8543576834dc172acb32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:55 +0000
Subject: [PATCH 24/58] fix: CleanHeader keeps groups nested when several
 levels close at once

---
 raytools/io.py | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/raytools/io.py b/raytools/io.py
index f5e9c4a..6dc9c3a 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -475,21 +475,13 @@ class CleanHeader(object):
             if re.match(r"(.+):$", cl):
                 curf = cl.rsplit("/", 1)[-1][:-1]
                 fi = dict(name=curf, depth=depth, content=[])
+                while len(cs) > 0 and depth <= cs[-1]['depth']:
+                    cs.pop()
                 if len(cs) == 0:
-                    cs.append(fi)
                     files.append(fi)
-                elif depth > cs[-1]['depth']:
-                    cs[-1]['content'].append(fi)
-                    cs.append(fi)
                 else:
-                    le = depth - cs[-1]['depth']
-                    cs = cs[:-(le+1)]
-                    if len(cs) == 0:
-                        cs.append(fi)
-                        files.append(fi)
-                    else:
-                        cs[-1]['content'].append(fi)
-                        cs.append(fi)
+                    cs[-1]['content'].append(fi)
+                cs.append(fi)
                 continue
 
             sep = None
@@ -525,9 +517,8 @@ class CleanHeader(object):
                     f.insert(idx[k], cl)
             else:
                 vals.append(f"{key}{sep}{val}")
-                if len(cs) > 0 and depth <= cs[-1]['depth']:
-                    le = cs[-1]['depth'] - depth
-                    cs = cs[:-(le + 1)]
+                while len(cs) > 0 and depth <= cs[-1]['depth']:
+                    cs.pop()
                 if len(cs) > 0:
                     cs[-1]['content'].append(vals[-1])
                 else:
-- 
2.43.0


From 50a7d8b409eaf2acf5bfba982c04e2526636e040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:55 +0000
Subject: [PATCH 25/58] fix: CleanHeader finds repeated lines in every group

---
 raytools/io.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/raytools/io.py b/raytools/io.py
index 6dc9c3a..0c38c34 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -508,13 +508,11 @@ class CleanHeader(object):
                 vals[-1] += " " + val.lstrip()
             elif cl in vals:  # promote
                 idx = self._pop_and_promote(files, cl)
-                if idx is not None:
+                if idx is not None and len(idx) > 1:
                     f = files
-                    k = 0
                     for j in idx[:-2]:
-                        k += 1
                         f = f[j]['content']
-                    f.insert(idx[k], cl)
+                    f.insert(idx[-2], cl)
             else:
                 vals.append(f"{key}{sep}{val}")
                 while len(cs) > 0 and depth <= cs[-1]['depth']:
@@ -528,20 +526,22 @@ class CleanHeader(object):
 
     def _pop_and_promote(self, data, val, idx=None):
         """recursive function that pops existing value out of list and reutrns
-        idx (at eack depth level of data) where the value was. Used to take
-        duplicate header lines and promote them up to a higher tab level"""
+        idx (at eack depth level of data) where the value was (None if not
+        found). Used to take duplicate header lines and promote them up to a
+        higher tab level"""
         if idx is None:
             idx = []
         for i, v in enumerate(data):
             if type(v) == str:
                 if v == val:
-                    if len(idx) == 0:
-                        return None
-                    data.pop(i)
+                    if len(idx) > 0:
+                        data.pop(i)
                     return idx + [i]
                 continue
-            return self._pop_and_promote(v['content'], val, idx + [i])
-        return idx
+            found = self._pop_and_promote(v['content'], val, idx + [i])
+            if found is not None:
+                return found
+        return None
 
     def _clean_up(self, data, depth=0, da=0):
         """recursive function to format the prepocessed data into a new
-- 
2.43.0


From f2f308d33933f492bd775c1b2584271dd1305e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:43 +0000
Subject: [PATCH 26/58] fix: CleanHeader only joins the lines it wrapped itself

---
 raytools/io.py | 41 +++++++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/raytools/io.py b/raytools/io.py
index 0c38c34..daf663f 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -463,8 +463,7 @@ class CleanHeader(object):
         view = None  # only store last found view
         vals = []  # use to check for redundant lines
         cs = []  # the current stack of file nesting
-        lastkey = ""
-        for i, h in enumerate(self._text.splitlines()):
+        for h in self._unwrap(self._text):
             cl = h.strip()
             cl = re.sub(r"\S*clasp_tmp[^\s:]*", "<stdin>", cl)
 
@@ -494,19 +493,10 @@ class CleanHeader(object):
                 val = ''
             if key in ["pvalue", "FORMAT"]:  # don't care about this
                 continue
-            if sep is None:
-                sep = " "
             if key == "VIEW":  # only store last view
                 view = val
                 continue
-            if len(cs) > 0:
-                curf = cs[-1]['content']
-            else:
-                curf = files
-            if key == "..." or key == lastkey and len(curf) > 0:  # unwrap previously cleaned header
-                curf[-1] += " " + val.lstrip()
-                vals[-1] += " " + val.lstrip()
-            elif cl in vals:  # promote
+            if cl in vals:  # promote
                 idx = self._pop_and_promote(files, cl)
                 if idx is not None and len(idx) > 1:
                     f = files
@@ -514,16 +504,39 @@ class CleanHeader(object):
                         f = f[j]['content']
                     f.insert(idx[-2], cl)
             else:
-                vals.append(f"{key}{sep}{val}")
+                vals.append(cl)
                 while len(cs) > 0 and depth <= cs[-1]['depth']:
                     cs.pop()
                 if len(cs) > 0:
                     cs[-1]['content'].append(vals[-1])
                 else:
                     files.append(vals[-1])
-            lastkey = key
         return files, view
 
+    @staticmethod
+    def _unwrap(text):
+        """join the wrapped lines of a previously cleaned header: a wrapped
+        line continues with '...' or (if it is a variable) repeats its KEY="""
+        lines = []
+        lastkey = None
+        for h in text.splitlines():
+            cl = h.strip()
+            if cl == "":
+                continue
+            # indentation and name of a variable
+            key = re.match(r"\s*[^\s=]+=", h)
+            if key is not None:
+                key = key.group()
+            if re.match(r"\.\.\.(\s|$)", cl) and len(lines) > 0:
+                lines[-1] = f"{lines[-1]} {cl[3:].strip()}".rstrip()
+            elif (key is not None and key == lastkey and h.rstrip() != lines[-1]
+                  and key.strip() != "VIEW="):
+                lines[-1] = f"{lines[-1]} {h[len(key):].strip()}".rstrip()
+            else:
+                lines.append(h.rstrip())
+                lastkey = key
+        return lines
+
     def _pop_and_promote(self, data, val, idx=None):
         """recursive function that pops existing value out of list and reutrns
         idx (at eack depth level of data) where the value was (None if not
-- 
2.43.0


From f4f6872ffade3e808cf12738d41bd665888eab5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:43 +0000
Subject: [PATCH 27/58] fix: CleanHeader keeps every EXPOSURE line at its level

---
 raytools/io.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/raytools/io.py b/raytools/io.py
index daf663f..5a6e5d8 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -409,6 +409,9 @@ class CleanHeader(object):
         headerwidth: int, optional
     """
 
+    #: every line of these counts, so repeated lines are not redundant
+    cumulative = ("EXPOSURE", "COLORCORR", "PIXASPECT")
+
     def __init__(self, text, spacespertab=4, outtab="\t", headerwidth=150):
         self.spacespertab = spacespertab
         self.outtab = outtab
@@ -496,7 +499,7 @@ class CleanHeader(object):
             if key == "VIEW":  # only store last view
                 view = val
                 continue
-            if cl in vals:  # promote
+            if cl in vals and key not in self.cumulative:  # promote
                 idx = self._pop_and_promote(files, cl)
                 if idx is not None and len(idx) > 1:
                     f = files
@@ -513,8 +516,7 @@ class CleanHeader(object):
                     files.append(vals[-1])
         return files, view
 
-    @staticmethod
-    def _unwrap(text):
+    def _unwrap(self, text):
         """join the wrapped lines of a previously cleaned header: a wrapped
         line continues with '...' or (if it is a variable) repeats its KEY="""
         lines = []
@@ -530,7 +532,7 @@ class CleanHeader(object):
             if re.match(r"\.\.\.(\s|$)", cl) and len(lines) > 0:
                 lines[-1] = f"{lines[-1]} {cl[3:].strip()}".rstrip()
             elif (key is not None and key == lastkey and h.rstrip() != lines[-1]
-                  and key.strip() != "VIEW="):
+                  and key.strip()[:-1] not in ("VIEW", *self.cumulative)):
                 lines[-1] = f"{lines[-1]} {h[len(key):].strip()}".rstrip()
             else:
                 lines.append(h.rstrip())
-- 
2.43.0


From 34f103b2fe6f73e0e15884165dbb6eb04aa8f172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:21 +0000
Subject: [PATCH 28/58] fix: header lines wrapped by CleanHeader unwrap to the
 same line

---
 raytools/io.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/raytools/io.py b/raytools/io.py
index 5a6e5d8..851eee8 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -440,14 +440,19 @@ class CleanHeader(object):
         outdata = self._clean_up(data, depth=-1)
         hdr = []
         for i in outdata:
-            try:
-                key, _ = i.strip().split("=", 1)
-                indent = re.match(r"\s*", i).group() + key + "= "
-            except ValueError:
-                indent = re.match(r"\s*", i).group() + "   ...  "
+            indent = re.match(r"\s*", i).group()
+            if len(i) > self.headerwidth:
+                # the breaks have to be spaces to unwrap to the same line
+                i = indent + " ".join(i.split())
+            key = re.match(r"[^\s=]+=", i.strip())
+            if key is not None:
+                indent += key.group() + " "
+            else:
+                indent += "   ...  "
             hdr.append(textwrap.fill(i, expand_tabs=False,
                                      replace_whitespace=False,
-                                     drop_whitespace=False,
+                                     break_long_words=False,
+                                     break_on_hyphens=False,
                                      width=self.headerwidth,
                                      subsequent_indent=indent))
         header = "\n".join(hdr).splitlines()
-- 
2.43.0


From 76a5cf0438b879d70451a1038cfc7a326d64acd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:33 +0000
Subject: [PATCH 29/58] fix: header lookups return the last value whatever
 lines repeat

---
 raytools/io.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/raytools/io.py b/raytools/io.py
index 851eee8..1762ad7 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -269,7 +269,7 @@ def hdr2carray(imgf, stdin=None, header=False):
 
 
 def header_items(header, items):
-    header = CleanHeader(header, headerwidth=4096).header
+    header = CleanHeader(header).unwrapped
     items = [i.lower() for i in items]
     out = [""] * len(items)
     for line in header:
@@ -471,7 +471,7 @@ class CleanHeader(object):
         view = None  # only store last found view
         vals = []  # use to check for redundant lines
         cs = []  # the current stack of file nesting
-        for h in self._unwrap(self._text):
+        for h in self.unwrapped:
             cl = h.strip()
             cl = re.sub(r"\S*clasp_tmp[^\s:]*", "<stdin>", cl)
 
@@ -521,12 +521,14 @@ class CleanHeader(object):
                     files.append(vals[-1])
         return files, view
 
-    def _unwrap(self, text):
-        """join the wrapped lines of a previously cleaned header: a wrapped
-        line continues with '...' or (if it is a variable) repeats its KEY="""
+    @property
+    def unwrapped(self):
+        """lines of the input header, joining the wrapped lines of a
+        previously cleaned header: a wrapped line continues with '...' or (if
+        it is a variable) repeats its KEY="""
         lines = []
         lastkey = None
-        for h in text.splitlines():
+        for h in self._text.splitlines():
             cl = h.strip()
             if cl == "":
                 continue
-- 
2.43.0


From 288b088fa070cd107fdaefa4763a0f0293d89368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:09 +0000
Subject: [PATCH 30/58] fix: CleanHeader marks every wrapped line so that
 repeated variables stay separate lines

---
 raytools/io.py | 26 +++++---------------------
 1 file changed, 5 insertions(+), 21 deletions(-)

diff --git a/raytools/io.py b/raytools/io.py
index 1762ad7..0106e17 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -444,17 +444,13 @@ class CleanHeader(object):
             if len(i) > self.headerwidth:
                 # the breaks have to be spaces to unwrap to the same line
                 i = indent + " ".join(i.split())
-            key = re.match(r"[^\s=]+=", i.strip())
-            if key is not None:
-                indent += key.group() + " "
-            else:
-                indent += "   ...  "
-            hdr.append(textwrap.fill(i, expand_tabs=False,
+            hdr.append(textwrap.fill(i.strip(), expand_tabs=False,
                                      replace_whitespace=False,
                                      break_long_words=False,
                                      break_on_hyphens=False,
                                      width=self.headerwidth,
-                                     subsequent_indent=indent))
+                                     initial_indent=indent,
+                                     subsequent_indent=indent + "   ...  "))
         header = "\n".join(hdr).splitlines()
         if view is not None:
             header.append(f"VIEW={view}")
@@ -524,26 +520,14 @@ class CleanHeader(object):
     @property
     def unwrapped(self):
         """lines of the input header, joining the wrapped lines of a
-        previously cleaned header: a wrapped line continues with '...' or (if
-        it is a variable) repeats its KEY="""
+        previously cleaned header (continued with '...')"""
         lines = []
-        lastkey = None
         for h in self._text.splitlines():
             cl = h.strip()
-            if cl == "":
-                continue
-            # indentation and name of a variable
-            key = re.match(r"\s*[^\s=]+=", h)
-            if key is not None:
-                key = key.group()
             if re.match(r"\.\.\.(\s|$)", cl) and len(lines) > 0:
                 lines[-1] = f"{lines[-1]} {cl[3:].strip()}".rstrip()
-            elif (key is not None and key == lastkey and h.rstrip() != lines[-1]
-                  and key.strip()[:-1] not in ("VIEW", *self.cumulative)):
-                lines[-1] = f"{lines[-1]} {h[len(key):].strip()}".rstrip()
-            else:
+            elif cl != "":
                 lines.append(h.rstrip())
-                lastkey = key
         return lines
 
     def _pop_and_promote(self, data, val, idx=None):
-- 
2.43.0


From 6fa98c2cbfce2ef9eb97ab52af7f2e81563aebce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:34 +0000
Subject: [PATCH 31/58] fix: get_nproc ignores a stored cap that is not
 positive

---
 raytools/io.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/raytools/io.py b/raytools/io.py
index 0106e17..eb5fc7b 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -23,9 +23,12 @@ def get_nproc(nproc=None):
         return nproc
     env_nproc = os.getenv('RAYTOOLS_PROC_CAP')
     try:
-        return int(env_nproc)
+        env_nproc = int(env_nproc)
     except (ValueError, TypeError):
         return os.cpu_count()
+    if env_nproc < 1:
+        return os.cpu_count()
+    return env_nproc
 
 
 def set_nproc(nproc):
-- 
2.43.0


From fdc7d7ba2a4d429b9ad408c9eb0f0a705512145a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:17 +0000
Subject: [PATCH 32/58] fix: load_txt loads files named by bytes

---
 raytools/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytools/io.py b/raytools/io.py
index eb5fc7b..552a615 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -385,7 +385,7 @@ def load_txt(farray, **kwargs):
     if isinstance(farray, (str, bytes)):
         if os.path.isfile(farray):
             try:
-                return np.loadtxt(farray, **kwargs)
+                return np.loadtxt(os.fsdecode(farray), **kwargs)
             except (ValueError, AttributeError):
                 raise ValueError
         else:
-- 
2.43.0


From b71c4601b3bf218f13cfe94131dc1e55127d0ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:18 +0000
Subject: [PATCH 33/58] fix: partial peak keeps the energy of every color
 channel

---
 raytools/imagetools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/raytools/imagetools.py b/raytools/imagetools.py
index 35634af..badceaf 100644
--- a/raytools/imagetools.py
+++ b/raytools/imagetools.py
@@ -343,8 +343,8 @@ def find_peak(v, o, l, scale=179, peaka=6.7967e-05, peakt=1e5, peakr=4,
         if peakc > 1:
             peakl = cume[stop - 1] / peaka
         else:
-            peakl = pvol[0, 4:]
-            peaka = cume[stop - 1, 0] / peakl[0]
+            peaka = cume[stop - 1, 0] / pvol[0, 4]
+            peakl = cume[stop - 1] / peaka
     pc = pc[:stop]
     pvol = pvol[:stop]
     # new source vector weight by L*omega of source rarys
-- 
2.43.0


From ed6356bb1fbb87916a008ad676cb1ec104ca3b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:16 +0000
Subject: [PATCH 34/58] fix: array_rotate samples the image at pixel centers

---
 raytools/imagetools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytools/imagetools.py b/raytools/imagetools.py
index badceaf..77fb5c8 100644
--- a/raytools/imagetools.py
+++ b/raytools/imagetools.py
@@ -122,7 +122,7 @@ def array_rotate(imarray, ang, center=None, rotate_first=True, fill_value=None,
             pxyz = vm2.view2world(vm.world2view(pxyz))
 
     pxy = vm.ray2pixel(pxyz, res, integer=False)
-    x = np.arange(res)
+    x = np.arange(res) + .5
     if nearest:
         method = "nearest"
     else:
-- 
2.43.0


From 861aa20b96072b515f061e09cc78a8d639706ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:20 +0000
Subject: [PATCH 35/58] fix: hdr_solid2ang keeps the direction and point of the
 view in the header

---
 raytools/imagetools.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/raytools/imagetools.py b/raytools/imagetools.py
index 77fb5c8..87d6f3c 100644
--- a/raytools/imagetools.py
+++ b/raytools/imagetools.py
@@ -159,8 +159,8 @@ def array_solid2ang(imarray, nearest=False, reverse=False, viewangle=180,
 def hdr_solid2ang(imgf, outf=None, nearest=False, stdout=False, reverse=False,
                   viewangle=None, **kwargs):
     imarray, header = io.hdr2carray(imgf, header=True)
+    vm, vpt = hdr2vm(imgf, vpt=True)
     if viewangle is None:
-        vm = hdr2vm(imgf)
         if vm is None:
             viewangle = 180
         else:
@@ -171,7 +171,11 @@ def hdr_solid2ang(imgf, outf=None, nearest=False, stdout=False, reverse=False,
     if outf is None and not stdout:
         outf = imgf.rsplit(".", 1)[0] + f"_2{vmo.name}.hdr"
 
-    header.append(vmo.header())
+    if vm is None:
+        header.append(vmo.header())
+    else:
+        vmo.dxyz = vm.dxyz
+        header.append(vmo.header(pt=vpt))
     io.carray2hdr(img, outf, header, clean=True)
     return outf
 
-- 
2.43.0


From 05af41c8f75f4f08eb9d28187aa4c1f84708cae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:20 +0000
Subject: [PATCH 36/58] fix: transform_to interpolates integer images

---
 raytools/mapper/viewmapper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/raytools/mapper/viewmapper.py b/raytools/mapper/viewmapper.py
index 2d844ae..98f37c7 100644
--- a/raytools/mapper/viewmapper.py
+++ b/raytools/mapper/viewmapper.py
@@ -122,7 +122,8 @@ class ViewMapper(AngularMixin, Mapper):
             features = imarray.shape[0]
         else:
             features = 1
-        img = np.zeros_like(imarray)
+        img = np.zeros(imarray.shape,
+                       dtype=np.result_type(imarray, np.float32))
         pxyz = self.pixelrays(res)
         mask = other.in_view(pxyz, indices=False)
 
-- 
2.43.0


From 497ad0c7791643574a9b727d991c1cbb434cc709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:59 +0000
Subject: [PATCH 37/58] fix: image views and sizes are read whatever the file
 name or working directory

---
 raytools/imagetools.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/raytools/imagetools.py b/raytools/imagetools.py
index 87d6f3c..cb73e19 100644
--- a/raytools/imagetools.py
+++ b/raytools/imagetools.py
@@ -8,10 +8,10 @@
 # =======================================================================
 
 """functions for translating from mappers to hdr"""
-import shlex
+import os
+from subprocess import PIPE, Popen
 
 import numpy as np
-import clasp.script_tools as cst
 
 
 from raytools import translate, io
@@ -228,7 +228,8 @@ def vf_to_vm(view):
 
 
 def img_size(imgf):
-    hd = cst.pipeline(["getinfo -d " + shlex.quote(imgf)])
+    hd = os.fsdecode(Popen(["getinfo", "-d", imgf],
+                           stdout=PIPE).communicate()[0])
     hd = hd.rsplit(":", 1)[-1].split()
     x = 1
     y = 1
@@ -242,11 +243,8 @@ def img_size(imgf):
 
 def hdr2vm(imgf, vpt=False):
     """hdr to ViewMapper"""
-    header, err = cst.pipeline(["getinfo " + shlex.quote(imgf)], caperr=True)
-    try:
-        err = err.decode("utf-8")
-    except AttributeError:
-        pass
+    p = Popen(["getinfo", imgf], stdout=PIPE, stderr=PIPE)
+    header, err = [os.fsdecode(i) for i in p.communicate()]
     if "bad header!" in err:
         raise IOError(f"{err} - wrong file type?")
     elif header.rstrip("\n") == f"{imgf}: cannot open":
-- 
2.43.0


From 96c45737ae75bc2f90e036e706b58baff63501ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:18 +0000
Subject: [PATCH 38/58] fix: view files without a view direction have the same
 default as image headers

---
 raytools/imagetools.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/raytools/imagetools.py b/raytools/imagetools.py
index cb73e19..b8ead6c 100644
--- a/raytools/imagetools.py
+++ b/raytools/imagetools.py
@@ -222,8 +222,12 @@ def vf_to_vm(view):
         raise ValueError(f"no valid -vta view in file {view}")
     vp = vl[-1].split()
     view_angle = float(vp[vp.index("-vh") + 1])
-    vd = vp.index("-vd")
-    view_dir = [float(vp[i]) for i in range(vd + 1, vd + 4)]
+    try:
+        vd = vp.index("-vd")
+    except ValueError:
+        view_dir = [0.0, 1.0, 0.0]
+    else:
+        view_dir = [float(vp[i]) for i in range(vd + 1, vd + 4)]
     return ViewMapper(view_dir, view_angle)
 
 
-- 
2.43.0


From d5ce08b1a7c1f091ea31d9a819d967ee5988eb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:59 +0000
Subject: [PATCH 39/58] fix: views are read from header lines wrapped by
 CleanHeader

---
 raytools/imagetools.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/raytools/imagetools.py b/raytools/imagetools.py
index b8ead6c..9897675 100644
--- a/raytools/imagetools.py
+++ b/raytools/imagetools.py
@@ -253,6 +253,7 @@ def hdr2vm(imgf, vpt=False):
         raise IOError(f"{err} - wrong file type?")
     elif header.rstrip("\n") == f"{imgf}: cannot open":
         raise FileNotFoundError(f"{imgf} not found")
+    header = "\n".join(io.CleanHeader(header).unwrapped)
     vp = None
     if "VIEW= -vta" in header:
         vp = header.rsplit("VIEW= -vta", 1)[-1].splitlines()[0].split()
-- 
2.43.0


From 2d3b4dfc4f5e9d55b3446096e440782a01984681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:10 +0000
Subject: [PATCH 40/58] fix: bright rays that overlap the view edge keep their
 own area and the solid angles passed in

---
 raytools/evaluate/basemetricset.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/raytools/evaluate/basemetricset.py b/raytools/evaluate/basemetricset.py
index bbda4a9..138875f 100644
--- a/raytools/evaluate/basemetricset.py
+++ b/raytools/evaluate/basemetricset.py
@@ -91,14 +91,15 @@ class BaseMetricSet(object):
                 a = self.vm.viewangle * np.pi / 360
                 a2 = np.square(a)
                 b2s = ost/np.pi
+                omega = np.copy(omega)
                 for s, b2, vst, d in zip(stray, b2s, vsts, ds):
                     b = np.sqrt(b2)
                     if a - b < d < a + b:
                         x = (a2 - b2 + np.square(d)) / (2 * d)
                         x2 = np.square(x)
                         y = np.sqrt(a2 - x2)
-                        omega[stray] = (a2*np.arcsin(y/a) + b2*np.arcsin(y/b) -
-                                        y * (x + np.sqrt(b2 - a2 + x2)))
+                        omega[s] = (a2*np.arcsin(y/a) + b2*np.arcsin(y/b) -
+                                    y * (x + np.sqrt(b2 - a2 + x2)))
                         up = np.cross(vst, self.vm.dxyz)
                         r = d - x
                         ymtx, pmtx = translate.rmtx_yp(up)
-- 
2.43.0


From 09de854e87c043ad2ec07d208edbc8f387859d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:10 +0000
Subject: [PATCH 41/58] fix: color metrics of images use the same luminance
 coefficients throughout

---
 raytools/imagetools.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/raytools/imagetools.py b/raytools/imagetools.py
index 9897675..1498f4d 100644
--- a/raytools/imagetools.py
+++ b/raytools/imagetools.py
@@ -482,6 +482,10 @@ def imgmetric(imgf, metrics, peakn=False, scale=179, lumrgb=None, threshold=2000
         else:
             if not needscolor and np.allclose((0.26507413, 0.67011463, 0.06481124), lumrgb, atol=.001):
                 lumrgb = None
+    if needscolor:
+        if lumrgb is None:
+            lumrgb = (0.265, 0.670, 0.065)
+        peakwargs = {"vlambda": lumrgb, **peakwargs}
     v, o, l = hdr2vol(imgf, vm, needscolor, vlambda=lumrgb)
     if peakn:
         v, o, l = normalize_peak(v, o, l, scale, **peakwargs)
-- 
2.43.0


From f5e106d56e92addba1883214447afb334c275ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:04 +0000
Subject: [PATCH 42/58] fix: overlap areas of integer solid angles

---
 raytools/evaluate/basemetricset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytools/evaluate/basemetricset.py b/raytools/evaluate/basemetricset.py
index 138875f..ff96a83 100644
--- a/raytools/evaluate/basemetricset.py
+++ b/raytools/evaluate/basemetricset.py
@@ -91,7 +91,7 @@ class BaseMetricSet(object):
                 a = self.vm.viewangle * np.pi / 360
                 a2 = np.square(a)
                 b2s = ost/np.pi
-                omega = np.copy(omega)
+                omega = np.array(omega, dtype=float)
                 for s, b2, vst, d in zip(stray, b2s, vsts, ds):
                     b = np.sqrt(b2)
                     if a - b < d < a + b:
-- 
2.43.0


From ff16a282a2e55053306ba43557cbb3362a4bec9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:56 +0000
Subject: [PATCH 43/58] fix: retinal densities at integer coordinates

---
 raytools/evaluate/retina.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytools/evaluate/retina.py b/raytools/evaluate/retina.py
index ef58b31..85ae14b 100644
--- a/raytools/evaluate/retina.py
+++ b/raytools/evaluate/retina.py
@@ -154,7 +154,7 @@ def rgcf_density_xy(xy, func=rgcf_density_on_meridian):
     ymi = np.where(xy[:, 0] > 0, 1, 3)
     dx = func(r, xmi)
     dy = func(r, ymi)
-    xy2 = np.square(xy)
+    xy2 = np.square(xy, dtype=float)
     xy2[:, 0] = xy2[:, 0] / dx
     xy2[:, 1] = xy2[:, 1] / dy
     den = np.sum(xy2, axis=-1)
-- 
2.43.0


From b03578b9dbaa624a25e5bfa176e16a18ee822f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:18 +0000
Subject: [PATCH 44/58] fix: GSS of images without a view uses the default view

---
 raytools/evaluate/hvsgsm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/raytools/evaluate/hvsgsm.py b/raytools/evaluate/hvsgsm.py
index a7e4818..6eff8d7 100644
--- a/raytools/evaluate/hvsgsm.py
+++ b/raytools/evaluate/hvsgsm.py
@@ -412,15 +412,15 @@ class GSS:
 
     @vm.setter
     def vm(self, view):
-        if isinstance(view, ViewMapper):
+        if view is None or isinstance(view, ViewMapper):
             vm = view
         else:
             try:
                 vm = itl.hdr2vm(view)
             except ValueError:
                 vm = None
-            if vm is None:
-                vm = ViewMapper(viewangle=180)
+        if vm is None:
+            vm = ViewMapper(viewangle=180)
         self._vm = vm
 
     # Step 3
-- 
2.43.0


From 4ac1fb0641f435d57c064b8a521f65588eba46b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:18 +0000
Subject: [PATCH 45/58] fix: GSS updates view based values after the view is
 changed

---
 raytools/evaluate/hvsgsm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raytools/evaluate/hvsgsm.py b/raytools/evaluate/hvsgsm.py
index 6eff8d7..8b0794c 100644
--- a/raytools/evaluate/hvsgsm.py
+++ b/raytools/evaluate/hvsgsm.py
@@ -422,6 +422,8 @@ class GSS:
         if vm is None:
             vm = ViewMapper(viewangle=180)
         self._vm = vm
+        # view based values are updated with the next image
+        self._res = 0
 
     # Step 3
     def pupil(self, ev):
-- 
2.43.0


From f8625d44bd88c2c3b394ad7679c668cbfb58f14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:08 +0000
Subject: [PATCH 46/58] fix: GSS point spread does not displace images by a
 pixel

---
 raytools/evaluate/hvsgsm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raytools/evaluate/hvsgsm.py b/raytools/evaluate/hvsgsm.py
index 8b0794c..dd4a3b2 100644
--- a/raytools/evaluate/hvsgsm.py
+++ b/raytools/evaluate/hvsgsm.py
@@ -459,6 +459,8 @@ class GSS:
         """
         # approximates that relationship of pixels in cone is constant
         window = int(np.ceil(self.fwidth*60*self._pparcmin))
+        # the peak needs to be at the center pixel
+        window += 1 - window % 2
         vm = ViewMapper(viewangle=self.fwidth)
         img, vecs, mask, _, _ = vm.init_img(window)
         phi = vm.radians(vecs[mask])
-- 
2.43.0


From c277d6460d25603e96d26be99f13ea62f1142814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:59 +0000
Subject: [PATCH 47/58] fix: GSS of very bright images does not overflow

---
 raytools/evaluate/hvsgsm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytools/evaluate/hvsgsm.py b/raytools/evaluate/hvsgsm.py
index dd4a3b2..43836be 100644
--- a/raytools/evaluate/hvsgsm.py
+++ b/raytools/evaluate/hvsgsm.py
@@ -345,7 +345,7 @@ class GSS:
     @lum.setter
     def lum(self, img):
         """reads image and updates view based values if necessary"""
-        self._lum = io.hdr2array(img)*self.scale
+        self._lum = io.hdr2array(img).astype(float)*self.scale
         r = self._lum.shape[0]
         if self._res != r:
             self._vecs = self.vm.pixelrays(r)
-- 
2.43.0


From 3dcbca1feb4b0c826fe2360ba85dd5ccacca321f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:04 +0000
Subject: [PATCH 48/58] fix: metric command labels each value of multi-valued
 metrics

---
 raytools/cli.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/raytools/cli.py b/raytools/cli.py
index 9ee7c21..b081e5f 100644
--- a/raytools/cli.py
+++ b/raytools/cli.py
@@ -126,6 +126,10 @@ def metric(ctx, imgs, metrics=None, parallel=True, peakn=False,
                             threshold=threshold, scale=scale, blursun=blursun,
                             lowlight=lowlight)
         results = np.asarray(results)
+        # one label per value
+        metrics = [label for m in metrics for label in
+                   (("irradiance_r", "irradiance_g", "irradiance_b")
+                    if m == "irradiance" else (m,))]
     else:
         results = None
     if gss:
-- 
2.43.0


From 8fd203ec718ae54145937ecd8c11118f0211302d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:41 +0000
Subject: [PATCH 49/58] fix: aligning an image without rotation or center does
 not write over it

---
 raytools/imagetools.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/raytools/imagetools.py b/raytools/imagetools.py
index 1498f4d..f94215b 100644
--- a/raytools/imagetools.py
+++ b/raytools/imagetools.py
@@ -190,6 +190,9 @@ def hdr_rotate(imgf, outf=None, rotate=0.0, center=None, rotate_first=True,
         cl += f"_{center[0]}-{center[1]}"
     if (not rotate_first) and rotate != 0:
         cl += f"_r{int(rotate):02d}"
+    if cl == "":
+        # do not write over the input
+        cl = "_r00"
     if outf is None and not stdout:
         outf = imgf.rsplit(".", 1)[0] + f"{cl}.hdr"
     imarray, header = io.hdr2carray(imgf, header=True)
-- 
2.43.0


From c6db4351ad1be52588182bd67501e4dc2a5d6a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:06 +0000
Subject: [PATCH 50/58] fix: smooth density uses sigma as the width of the
 kernel

---
 raytools/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/raytools/cli.py b/raytools/cli.py
index b081e5f..9d14cbe 100644
--- a/raytools/cli.py
+++ b/raytools/cli.py
@@ -275,7 +275,8 @@ def smooth(ctx, dataf, x=0, x_out=(1000.0,), y=(-1,), sigma=None, sf=1.0,
     sigma *= sf
     bw = None
     if dy.size == 0:
-        k = stats.gaussian_kde(dx, bw_method=sigma)
+        # bw_method is relative to the standard deviation
+        k = stats.gaussian_kde(dx, bw_method=sigma / np.sqrt(np.cov(dx)))
         y_out = k(x_out)[None]
     else:
         y_out = translate.non_uniform_gaussian_filter(dx, dy, x_out,
-- 
2.43.0


From f37b044a3e35b7ee906fb566327df3c19faf39c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:13 +0000
Subject: [PATCH 51/58] fix: field density along a single meridian

---
 raytools/evaluate/retina.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytools/evaluate/retina.py b/raytools/evaluate/retina.py
index 85ae14b..8d265bd 100644
--- a/raytools/evaluate/retina.py
+++ b/raytools/evaluate/retina.py
@@ -97,7 +97,7 @@ def rgcf_density_on_meridian(deg, mi):
         (0.9934935604656688, 1.0354962329628912, 16.346430181031927),
         (0.9729319961934142, 1.0841663616483523, 7.632575316432455),
         (0.9960391452747578, 0.993222146189384, 12.131840717293096)))
-    mrd = mrdc[mi]
+    mrd = np.atleast_2d(mrdc[mi])
     return (foveal_rgc_density * mrd[:, 0] * np.power(1 + deg / mrd[:, 1], -2) +
             (1 - mrd[:, 0]) * np.exp(-deg / mrd[:, 2]))
 
-- 
2.43.0


From 1e3127e69f5c37d523772f88ac28706804e03c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:40 +0000
Subject: [PATCH 52/58] fix: resample returns the means of integer arrays

---
 raytools/translate.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/raytools/translate.py b/raytools/translate.py
index ef768df..6b40bdf 100644
--- a/raytools/translate.py
+++ b/raytools/translate.py
@@ -384,24 +384,26 @@ def resample(samps, ts=None, gauss=True, radius=None):
     if ts is None:
         ts = samps.shape
     rs = np.array(ts)/np.array(samps.shape)
+    # filters of integers have fractional values
+    ftype = np.result_type(samps, np.float32)
     if np.prod(rs) > 1:
         for i in range(len(rs)):
             samps = np.repeat(samps, rs[i], i)
         if gauss:
             if radius is None:
                 radius = tuple(rs - 1)
-            samps = gaussian_filter(samps, radius)
+            samps = gaussian_filter(samps, radius, output=ftype)
     elif np.prod(rs) < 1:
         rs = np.round(1/rs).astype(int)
         og = (-rs/2).astype(int)
-        samps = uniform_filter(samps, rs, origin=og)
+        samps = uniform_filter(samps, rs, origin=og, output=ftype)
         for i, j in enumerate(rs):
             samps = np.take(samps, np.arange(0, samps.shape[i], j), i)
     elif radius is not None:
         if gauss:
-            samps = gaussian_filter(samps, radius)
+            samps = gaussian_filter(samps, radius, output=ftype)
         else:
-            samps = uniform_filter(samps, int(radius))
+            samps = uniform_filter(samps, int(radius), output=ftype)
     return samps
 
 ####################################
-- 
2.43.0


From e411b776b7d11071bac680339a2b373cf90e18db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:00 +0000
Subject: [PATCH 53/58] fix: decode exponents of unsigned rgbe bytes

---
 raytools/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/raytools/io.py b/raytools/io.py
index 552a615..1952229 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -352,7 +352,8 @@ def rgbe2lum(rgbe):
     -------
     lum: luminance in cd/m^2
     """
-    v = np.power(2., rgbe[:, 3] - 128).reshape(-1, 1) / 256
+    # unsigned bytes can not hold negative exponents
+    v = np.power(2., rgbe[:, 3].astype(int) - 128).reshape(-1, 1) / 256
     rgb = np.where(rgbe[:, 0:3] == 0, 0, (rgbe[:, 0:3] + 0.5) * v)
     # luminance = 179 * (0.265*R + 0.670*G + 0.065*B)
     return rgb2lum(rgb)
-- 
2.43.0


From 9cf41888b1bd5a00a2d17e5972a2b6a91a9b70a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:43 +0000
Subject: [PATCH 54/58] fix: peak of a scene without other rays keeps the shape
 of the values

---
 raytools/imagetools.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/raytools/imagetools.py b/raytools/imagetools.py
index f94215b..c329a32 100644
--- a/raytools/imagetools.py
+++ b/raytools/imagetools.py
@@ -441,12 +441,13 @@ def normalize_peak(v, o, l, scale=179, peaka=6.7967e-05, peakt=1e5, peakr=4,
         if returnparts:
             v = vol[:, 0:3]
             omega = vol[:, 3]
-            lum = np.squeeze(vol[:, 4:])
+            lum = vol[:, 4:].reshape((-1,) + l.shape[1:])
         else:
             # then add new consolidated ray back to output v, o, l
             v = np.vstack((vol[:, 0:3], [pvol[0]]))
             omega = np.concatenate((vol[:, 3], [pvol[1]]))
-            lum = np.squeeze(np.vstack((vol[:, 4:], np.atleast_2d(pvol[2].T))))
+            lum = np.vstack((vol[:, 4:], np.atleast_2d(pvol[2].T)))
+            lum = lum.reshape((-1,) + l.shape[1:])
     else:
         if len(l.shape) > 1:
             pvol = np.zeros(4 + l.shape[-1])
-- 
2.43.0


From c6dac33f735caa52aa32167080575eec88d87953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:39 +0000
Subject: [PATCH 55/58] fix: sky patches within tolerances of more than one
 patch

---
 raytools/translate.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/raytools/translate.py b/raytools/translate.py
index 6b40bdf..bba839e 100644
--- a/raytools/translate.py
+++ b/raytools/translate.py
@@ -177,9 +177,10 @@ def xyz2skybin(xyz, side, tol=0, normalize=False):
     xyz = np.atleast_2d(xyz)
     uv = xyz2uv(xyz, flipu=False, normalize=normalize)
     if tol > 0:
-        tol = tol/side
-        uvi = np.linspace(-tol, tol, 3)
-        uvs = np.stack(np.meshgrid(uvi, uvi)).reshape(2, 9).T + uv
+        tol = min(tol, side)
+        # steps are never wider than a patch
+        uvi = np.linspace(-tol, tol, 2*int(np.ceil(tol)) + 1)/side
+        uvs = np.stack(np.meshgrid(uvi, uvi)).reshape(2, -1).T + uv
         # cells do not continue on the opposite side of the sky
         inside = np.all(np.logical_and(uvs >= 0, uvs < 1), 1)
         uvs = uvs[np.logical_and(inside, uv[0, 0] < 1)]
-- 
2.43.0


From 2b2812872bf9026a8d27a885adb0fd4f76e6e56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:01 +0000
Subject: [PATCH 56/58] fix: images stored in any pixel order are read as x, y
 from the lower left

---
 raytools/io.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/raytools/io.py b/raytools/io.py
index 1952229..5bd0daa 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -209,9 +209,9 @@ def _hdr_in(pval, imgf, stdin):
     if imgf != "":
         pval.append(imgf)
     p = Popen(pval, stdin=stdin, stdout=PIPE, stderr=PIPE)
-    shape = p.stdout.readline().strip().split()
+    resolu = p.stdout.readline().strip().split()
     try:
-        shape = (int(shape[-3]), int(shape[-1]))
+        shape = (int(resolu[-3]), int(resolu[-1]))
     except IndexError:
         if imgf == "":
             imgf = "-"
@@ -221,7 +221,19 @@ def _hdr_in(pval, imgf, stdin):
         else:
             raise ValueError(f"HDR image file '{imgf}' not found,\n"
                              f"pvalue msg: {p.stderr}")
-    return p.stdout.read(), shape
+    return p.stdout.read(), shape, resolu[-4::2]
+
+
+def _orient(imgd, axes):
+    """arrange the last two axes of an image as x, y (from the lower left), axes
+    are those of the file (eg. [b'-Y', b'+X'])"""
+    if axes[1].endswith(b'X'):
+        imgd = np.swapaxes(imgd, -2, -1)
+    if b'-X' in axes:
+        imgd = imgd[..., ::-1, :]
+    if b'-Y' in axes:
+        imgd = imgd[..., ::-1]
+    return imgd
 
 
 def hdr2array(imgf, stdin=None, header=False, vlambda=None):
@@ -243,7 +255,8 @@ def hdr2array(imgf, stdin=None, header=False, vlambda=None):
         imgd = np.einsum("ijk,i->jk", imgd, vlambda)
     else:
         pval = 'pvalue -b -h -df -o'
-        imgd = bytes2np(*_hdr_in(pval, imgf, stdin)).T[:, ::-1]
+        data, shape, axes = _hdr_in(pval, imgf, stdin)
+        imgd = _orient(bytes2np(data, shape), axes)
     if header:
         return imgd, hdr_header(imgf)
     return imgd
@@ -263,9 +276,9 @@ def hdr2carray(imgf, stdin=None, header=False):
     ar: np.array
     """
     pval = 'pvalue -n -h -df -o'
-    data, shape = _hdr_in(pval, imgf, stdin)
+    data, shape, axes = _hdr_in(pval, imgf, stdin)
     shape = (3, *shape)
-    imgd = np.transpose(bytes2np(data, shape)[:, ::-1], (0, 2, 1))
+    imgd = _orient(bytes2np(data, shape), axes)
     if header:
         return imgd, hdr_header(imgf)
     return imgd
-- 
2.43.0


From a4edefdb846bc71197313af18d271704300b016e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:15 +0000
Subject: [PATCH 57/58] fix: plots of 360 degree views hold both hemispheres

---
 raytools/mapper/mapper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/raytools/mapper/mapper.py b/raytools/mapper/mapper.py
index 21335dc..a41b355 100644
--- a/raytools/mapper/mapper.py
+++ b/raytools/mapper/mapper.py
@@ -258,6 +258,7 @@ class Mapper(object):
         return img
 
     def plot(self, xyz, outf, res=1000, grow=1, **kwargs):
-        img = np.zeros(self.framesize(res))
+        # 360 degree images hold two hemispheres
+        img = self.init_img(res)[0]
         img = self.add_vecs_to_img(img, xyz, grow=grow, **kwargs)
         io.array2hdr(img, outf, [self.header()])
-- 
2.43.0


From b24587a9f74e40187af71dbb1847ed4547242d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:40 +0000
Subject: [PATCH 58/58] fix: remove the temporary file of standard input after
 metric and project

---
 raytools/cli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raytools/cli.py b/raytools/cli.py
index 9d14cbe..5d75326 100644
--- a/raytools/cli.py
+++ b/raytools/cli.py
@@ -39,6 +39,8 @@ def main(ctx, config=None, n=None,  **kwargs):
     """
     raytools.io.set_nproc(n)
     ctx.info_name = 'raytools'
+    # shared with the subcommand, lists the temp files to clean up
+    ctx.ensure_object(dict)
     clk.get_config(ctx, config, None, None, None)
 
 
-- 
2.43.0

