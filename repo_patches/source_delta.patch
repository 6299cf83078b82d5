From da62f335a8bdbdefe8a7ebbd8e706bdade73cdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:31 +0000
Subject: [PATCH 001/103] fix: freq_range with an open upper end can be read
 back

---
 acoular/spectra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/spectra.py b/acoular/spectra.py
index 94676ff..f14bd2e 100644
--- a/acoular/spectra.py
+++ b/acoular/spectra.py
@@ -292,7 +292,7 @@ class PowerSpectra(BaseSpectra):
     def _get_freq_range(self):
         fftfreq = self.fftfreq()
         if fftfreq is not None:
-            if self._ind_high is None:
+            if self.ind_high is None:
                 return array([fftfreq[self.ind_low], None])
             return fftfreq[[self.ind_low, self.ind_high]]
         return None
-- 
2.43.0


From c97683d041a829601f348398c613d2ee64887215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:31 +0000
Subject: [PATCH 002/103] fix: number of spectra announced by RFFT accounts for
 the overlap

---
 acoular/fprocess.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acoular/fprocess.py b/acoular/fprocess.py
index 8f9e7d9..5190bfc 100644
--- a/acoular/fprocess.py
+++ b/acoular/fprocess.py
@@ -69,7 +69,7 @@ class RFFT(BaseSpectra, SpectraOut):
 
     #: The total number of snapshots (blocks) available in the FFT result,
     #: determined by the size of the input data and the block size.
-    num_samples = Property(depends_on=['source.num_samples', '_block_size'])
+    num_samples = Property(depends_on=['source.num_samples', '_block_size', 'overlap'])
 
     #: A 1-D array containing the Discrete Fourier Transform
     #: sample frequencies corresponding to the FFT output.
@@ -93,7 +93,7 @@ class RFFT(BaseSpectra, SpectraOut):
     @cached_property
     def _get_num_samples(self):
         if self.source.num_samples >= 0:
-            return int(np.floor(self.source.num_samples / self.block_size))
+            return max(int(self.overlap_ * self.source.num_samples // self.block_size) - self.overlap_ + 1, 0)
         return -1
 
     def _get_block_size(self):
-- 
2.43.0


From ddc94eccd0652fa020db467cc241cd9ec3b25fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:31 +0000
Subject: [PATCH 003/103] fix: RFFT yields no spurious spectrum if there is no
 complete block

---
 acoular/fprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/fprocess.py b/acoular/fprocess.py
index 5190bfc..9e11315 100644
--- a/acoular/fprocess.py
+++ b/acoular/fprocess.py
@@ -157,7 +157,7 @@ class RFFT(BaseSpectra, SpectraOut):
             svalue = 1 / wind.sum()
         wind = wind[:, np.newaxis]
         fftdata = np.zeros((num, self.num_channels * self.num_freqs), dtype=self.precision)
-        j = 0
+        j = num - 1  # nothing remains to be yielded if there is no complete block
         for i, data in enumerate(self._get_source_data()):  # yields one block of time data
             j = i % num
             fftdata[j] = self._scale(
-- 
2.43.0


From 46727be8c7f38254f5c11c0dfd0b870f6a3d844e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:31 +0000
Subject: [PATCH 004/103] fix: power spectral density is normalized by the
 frequency resolution

---
 acoular/fprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/fprocess.py b/acoular/fprocess.py
index 9e11315..93cbb34 100644
--- a/acoular/fprocess.py
+++ b/acoular/fprocess.py
@@ -314,7 +314,7 @@ class AutoPowerSpectra(SpectraOut):
         if self.single_sided:
             scale *= 2
         if self.scaling == 'psd':
-            scale *= self.block_size * self.source.sample_freq
+            scale *= self.block_size / self.source.sample_freq
         return scale
 
     def result(self, num=1):
-- 
2.43.0


From f2e2520c6f34df6f60e5ce847195e4af47972bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:31 +0000
Subject: [PATCH 005/103] fix: CrossPowerSpectra delivers the documented
 triangle of the CSM

---
 acoular/fprocess.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/acoular/fprocess.py b/acoular/fprocess.py
index 93cbb34..242a2be 100644
--- a/acoular/fprocess.py
+++ b/acoular/fprocess.py
@@ -391,7 +391,7 @@ class CrossPowerSpectra(AutoPowerSpectra):
     #:     - ``'full'``: :math:`n^2` (all elements in the CSM).
     #:     - ``'upper'``: :math:`n + n(n-1)/2` (diagonal + upper triangle elements).
     #:     - ``'lower'``: :math:`n + n(n-1)/2` (diagonal + lower triangle elements).
-    num_channels = Property(depends_on=['source.num_channels'])
+    num_channels = Property(depends_on=['source.num_channels', 'calc_mode'])
 
     #: A unique identifier based on the computation properties.
     digest = Property(depends_on=['source.digest', 'precision', 'scaling', 'single_sided', 'calc_mode'])
@@ -444,10 +444,12 @@ class CrossPowerSpectra(AutoPowerSpectra):
                     [np.fill_diagonal(csm_lower[cntFreq, :, :], 0) for cntFreq in range(csm_lower.shape[0])]
                     csm_flat[i] = (csm_lower + csm_upper).reshape(-1)
                 elif self.calc_mode == 'upper':
-                    csm_flat[i] = csm_upper[:, :nc].reshape(-1)
+                    rows, cols = np.triu_indices(nc_src)
+                    csm_flat[i] = csm_upper[:, rows, cols].reshape(-1)
                 else:  # lower
                     csm_lower = csm_upper.conj().transpose(0, 2, 1)
-                    csm_flat[i] = csm_lower[:, :nc].reshape(-1)
+                    rows, cols = np.tril_indices(nc_src)
+                    csm_flat[i] = csm_lower[:, rows, cols].reshape(-1)
                 csm_upper[...] = 0  # calcCSM adds cumulative
             yield csm_flat[: i + 1] * scale
 
-- 
2.43.0


From 136708c383fc2a26e5d844292588457f0d1a025d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:12 +0000
Subject: [PATCH 006/103] fix: grid index of the last point if the range is no
 multiple of the increment

---
 acoular/grids.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/acoular/grids.py b/acoular/grids.py
index 78ae40b..cee8c1a 100644
--- a/acoular/grids.py
+++ b/acoular/grids.py
@@ -477,8 +477,8 @@ class RectGrid(Grid):
         if y < self.y_min or y > self.y_max:
             msg = 'y-value out of range'
             raise ValueError(msg)
-        xi = int((x - self.x_min) / self.increment + 0.5)
-        yi = int((y - self.y_min) / self.increment + 0.5)
+        xi = min(int((x - self.x_min) / self.increment + 0.5), self.nxsteps - 1)
+        yi = min(int((y - self.y_min) / self.increment + 0.5), self.nysteps - 1)
         return xi, yi
 
     def indices(self, *r):
@@ -708,9 +708,9 @@ class RectGrid3D(RectGrid):
             incx = incy = incz = self.increment
         else:
             incx, incy, incz = self.increment
-        xi = int(round((x - self.x_min) / incx))
-        yi = int(round((y - self.y_min) / incy))
-        zi = int(round((z - self.z_min) / incz))
+        xi = min(int((x - self.x_min) / incx + 0.5), self.nxsteps - 1)
+        yi = min(int((y - self.y_min) / incy + 0.5), self.nysteps - 1)
+        zi = min(int((z - self.z_min) / incz + 0.5), self.nzsteps - 1)
         return xi, yi, zi
 
     def indices(self, x1, y1, z1, x2, y2, z2):
-- 
2.43.0


From b460694bcbe79236078da18ced18622a9be19d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:12 +0000
Subject: [PATCH 007/103] fix: LineGrid with a single point

---
 acoular/grids.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/grids.py b/acoular/grids.py
index cee8c1a..8f5042d 100644
--- a/acoular/grids.py
+++ b/acoular/grids.py
@@ -999,7 +999,7 @@ class LineGrid(Grid):
 
     @property_depends_on(['num_points', 'length', 'direction', 'loc'])
     def _get_pos(self):
-        dist = self.length / (self.num_points - 1)
+        dist = self.length / max(self.num_points - 1, 1)
         loc = array(self.loc, dtype=float).reshape((3, 1))
         direc_n = array(self.direction) / norm(self.direction)
         pos = zeros((self.num_points, 3))
-- 
2.43.0


From 3c6f3bd6d2dff90d135487b98216def3b2f1f523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:12 +0000
Subject: [PATCH 008/103] fix: shape of LineGrid and MergeGrid is a tuple as
 documented

---
 acoular/grids.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acoular/grids.py b/acoular/grids.py
index 8f5042d..f0e0d1d 100644
--- a/acoular/grids.py
+++ b/acoular/grids.py
@@ -995,7 +995,7 @@ class LineGrid(Grid):
 
     @property_depends_on(['num_points'])
     def _get_shape(self):
-        return self.pos.shape[-1]
+        return (self.pos.shape[-1],)
 
     @property_depends_on(['num_points', 'length', 'direction', 'loc'])
     def _get_pos(self):
@@ -1066,7 +1066,7 @@ class MergeGrid(Grid):
 
     @property_depends_on(['digest'])
     def _get_shape(self):
-        return self.pos.shape[-1]
+        return (self.pos.shape[-1],)
 
     @property_depends_on(['digest'])
     def _get_subgrids(self):
-- 
2.43.0


From 4c0623cbdd98c36ea21d2f4dd112333e6b97ce70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:12 +0000
Subject: [PATCH 009/103] fix: positions of RectGrid follow a change of z

---
 acoular/grids.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/grids.py b/acoular/grids.py
index f0e0d1d..fbfc620 100644
--- a/acoular/grids.py
+++ b/acoular/grids.py
@@ -440,7 +440,7 @@ class RectGrid(Grid):
     def _get_digest(self):
         return digest(self)
 
-    @property_depends_on(['x_min', 'x_max', 'y_min', 'y_max', 'increment'])
+    @property_depends_on(['x_min', 'x_max', 'y_min', 'y_max', 'z', 'increment'])
     def _get_pos(self):
         bpos = mgrid[
             self.x_min : self.x_max : self.nxsteps * 1j,
-- 
2.43.0


From 6280798eaf1783cfa3e4f2d94b2dbace9baae2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:12 +0000
Subject: [PATCH 010/103] fix: RectSector3D considers z for the nearest grid
 point

---
 acoular/grids.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acoular/grids.py b/acoular/grids.py
index fbfc620..c4147ad 100644
--- a/acoular/grids.py
+++ b/acoular/grids.py
@@ -1334,7 +1334,8 @@ class RectSector3D(RectSector):
         if ~inds.any() and self.default_nearest:
             x = (xmin + xmax) / 2.0
             y = (ymin + ymax) / 2.0
-            dr2 = (pos[0, :] - x) ** 2 + (pos[1, :] - y) ** 2
+            z = (zmin + zmax) / 2.0
+            dr2 = (pos[0, :] - x) ** 2 + (pos[1, :] - y) ** 2 + (pos[2, :] - z) ** 2
             inds[argmin(dr2)] = True
 
         return inds.astype(bool)
-- 
2.43.0


From be783196edbc806867870f91960b9a40ea36f9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:06 +0000
Subject: [PATCH 011/103] fix: in_hull without border excludes only the border

---
 acoular/grids.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/acoular/grids.py b/acoular/grids.py
index c4147ad..144a52a 100644
--- a/acoular/grids.py
+++ b/acoular/grids.py
@@ -38,6 +38,7 @@ from numpy import (
     asarray,
     concatenate,
     copysign,
+    dot,
     fabs,
     inf,
     isscalar,
@@ -56,7 +57,7 @@ from numpy import (
 from scipy.linalg import norm
 
 # from matplotlib.path import Path
-from scipy.spatial import Delaunay
+from scipy.spatial import ConvexHull, Delaunay
 from traits.api import (
     ABCHasStrictTraits,
     Bool,
@@ -131,7 +132,9 @@ def in_hull(p, hull, border=True, tol=0):
 
     if border:
         return hull.find_simplex(p, tol=tol) >= 0
-    return hull.find_simplex(p, tol=tol) > 0
+    # strictly inside with respect to all facets
+    facets = ConvexHull(hull.points).equations
+    return (dot(p, facets[:, :-1].T) + facets[:, -1] < -tol).all(axis=-1)
 
 
 def _det(xvert, yvert):
-- 
2.43.0


From 16b077fcab1dc34084c196d318988ca3a9cdf856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:06 +0000
Subject: [PATCH 012/103] fix: PolySector and ConvexSector select the nearest
 grid point if none is inside

---
 acoular/grids.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/acoular/grids.py b/acoular/grids.py
index 144a52a..f653f05 100644
--- a/acoular/grids.py
+++ b/acoular/grids.py
@@ -1470,7 +1470,8 @@ class PolySector(SingleSector):
 
         # if none inside, take nearest
         if ~inds.any() and self.default_nearest:
-            dr2 = array(self.edges).reshape(-1, 2).mean(0)
+            x, y = array(self.edges).reshape(-1, 2).mean(0)
+            dr2 = (pos[0, :] - x) ** 2 + (pos[1, :] - y) ** 2
             inds[argmin(dr2)] = True
 
         return inds
@@ -1528,7 +1529,8 @@ class ConvexSector(SingleSector):
 
         # if none inside, take nearest
         if ~inds.any() and self.default_nearest:
-            dr2 = array(self.edges).reshape(-1, 2).mean(0)  # Use the centroid of the polygon as the "center"
+            x, y = array(self.edges).reshape(-1, 2).mean(0)
+            dr2 = (pos[0, :] - x) ** 2 + (pos[1, :] - y) ** 2
             inds[argmin(dr2)] = True
 
         return inds
-- 
2.43.0


From 3680e95d0671894d66ab304056fb41e52070b0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:23 +0000
Subject: [PATCH 013/103] fix: sector integration of MetricEvaluator leaves the
 data unchanged

---
 acoular/tools/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tools/metrics.py b/acoular/tools/metrics.py
index 0484833..01d9b6f 100644
--- a/acoular/tools/metrics.py
+++ b/acoular/tools/metrics.py
@@ -117,7 +117,7 @@ class MetricEvaluator(HasStrictTraits):
         sectors = self.sectors
         results = empty(shape=self.target_data.shape)
         for f in range(self.target_data.shape[0]):
-            data = self.data[f]
+            data = self.data[f].reshape(self.grid.shape).copy()
             for i in range(self.target_data.shape[1]):
                 sector = sectors[i]
                 results[f, i] = integrate(data, self.grid, sector)
-- 
2.43.0


From a584da3d9eeaeb98edb497d40432f20395db61b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:09 +0000
Subject: [PATCH 014/103] fix: a negative frequency index of a beamformer
 result triggers the calculation

---
 acoular/fbeamform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index a4baf27..1cf546c 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -293,7 +293,7 @@ class LazyBfResult:
         # 'intelligent' [] operator checks if results are available and triggers calculation
         sl = index_exp[key][0]
         if isinstance(sl, (int, integer)):
-            sl = slice(sl, sl + 1)
+            sl = slice(sl, sl + 1 or None)
         # indices which are missing
         missingind = arange(*sl.indices(self.bf._numfreq))[self.bf._fr[sl] == 0]
         # calc if needed
-- 
2.43.0


From b3241797c18ecc0e8a67a737c106f2290da12e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:09 +0000
Subject: [PATCH 015/103] fix: scalar reference of zero in SteeringVector

---
 acoular/fbeamform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 1cf546c..239b496 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -208,7 +208,7 @@ class SteeringVector(HasStrictTraits):
         if isscalar(self.ref):
             if self.ref > 0:
                 return full((self.grid.size,), self.ref)
-            return self.env._r(self.grid.pos())
+            return self.env._r(self.grid.pos)
         return self.env._r(self.grid.pos, self.ref[:, newaxis])
 
     @property_depends_on(['grid.digest', 'mics.digest', 'env.digest'])
-- 
2.43.0


From 493ce166c4fe86dbab4882acee21e5d3403cd520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:32 +0000
Subject: [PATCH 016/103] fix: shape of the distances in SteeringVector for a
 single microphone

---
 acoular/fbeamform.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 239b496..9b67199 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -43,7 +43,6 @@ from numpy import (
     arange,
     argsort,
     array,
-    atleast_2d,
     clip,
     delete,
     diag,
@@ -213,7 +212,7 @@ class SteeringVector(HasStrictTraits):
 
     @property_depends_on(['grid.digest', 'mics.digest', 'env.digest'])
     def _get_rm(self):
-        return atleast_2d(self.env._r(self.grid.pos, self.mics.pos))
+        return self.env._r(self.grid.pos, self.mics.pos).reshape(-1, self.mics.num_mics)
 
     @cached_property
     def _get_digest(self):
-- 
2.43.0


From 1554407059d0c06808dfc82ffca4cdb242ef08b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:32 +0000
Subject: [PATCH 017/103] fix: all missing points of a point spread function
 are calculated

---
 acoular/fbeamform.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 9b67199..521cf69 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -57,7 +57,6 @@ from numpy import (
     index_exp,
     inf,
     integer,
-    invert,
     isscalar,
     log10,
     ndarray,
@@ -1090,7 +1089,7 @@ class PointSpreadFunction(HasStrictTraits):
         if self.calcmode != 'full':
             # calc_ind has the form [True, True, False, True], except
             # when it has only 1 entry (value True/1 would be ambiguous)
-            calc_ind = [0] if self.grid_indices.size == 1 else invert(gp[:][self.grid_indices])
+            calc_ind = [0] if self.grid_indices.size == 1 else gp[:][self.grid_indices] == 0
 
             # get indices which have the value True = not yet calculated
             g_ind_calc = self.grid_indices[calc_ind]
-- 
2.43.0


From ffd4feae258281da837c3884ba498b3902bd781a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:32 +0000
Subject: [PATCH 018/103] fix: point spread function one by one with custom
 steering vectors

---
 acoular/fbeamform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 521cf69..9270962 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -1096,7 +1096,7 @@ class PointSpreadFunction(HasStrictTraits):
 
         if self.calcmode == 'single':  # calculate selected psfs one-by-one
             for ind in g_ind_calc:
-                ac[:, ind] = self._psf_call([ind])[:, 0]
+                ac[:, ind] = self._psf_call(array([ind]))[:, 0]
                 gp[ind] = 1
         elif self.calcmode == 'full':  # calculate all psfs in one go
             gp[:] = 1
-- 
2.43.0


From 9e473001186356b156275cbbe89023d1a41b2826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:32 +0000
Subject: [PATCH 019/103] fix: cached point spread functions of neighbouring
 frequencies are kept apart

---
 acoular/fbeamform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 9270962..f635846 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -1017,7 +1017,7 @@ class PointSpreadFunction(HasStrictTraits):
         exist and global caching mode is 'readonly'.
         """
         filename = 'psf' + self.digest
-        nodename = (f'Hz_{self.freq:.2f}').replace('.', '_')
+        nodename = (f'Hz_{self.freq!r}').replace('.', '_')
         #        print("get cachefile:", filename)
         H5cache.get_cache_file(self, filename)
         if not self.h5f:  # only happens in case of global caching readonly
-- 
2.43.0


From 7747e4d2e1032663f838025bbf6ee389ef10f420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:41 +0000
Subject: [PATCH 020/103] fix: point spread function of all grid points follows
 a change of the grid

---
 acoular/fbeamform.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index f635846..a4ed1bd 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -1045,20 +1045,23 @@ class PointSpreadFunction(HasStrictTraits):
         gp = self.h5f.get_data_by_reference('gridpts', '/' + nodename)
         return (ac, gp)
 
+    def _get_ind(self):
+        # indices of the requested grid points, all points of the current grid by default
+        return self.grid_indices if self.grid_indices.size else arange(self.steer.grid.size)
+
     def _get_psf(self):
         """Implements the :attr:`psf` getter routine.
         The point spread function is either loaded or calculated.
         """
         gs = self.steer.grid.size
-        if not self.grid_indices.size:
-            self.grid_indices = arange(gs)
+        grid_indices = self._get_ind()
 
         if config.global_caching != 'none':
             #            print("get filecache..")
             (ac, gp) = self._get_filecache()
             if ac and gp:
                 #                print("cached data existent")
-                if not gp[:][self.grid_indices].all():
+                if not gp[:][grid_indices].all():
                     #                    print("calculate missing results")
                     if self.calcmode == 'readonly':
                         msg = "Cannot calculate missing PSF (points) in 'readonly' mode."
@@ -1066,13 +1069,13 @@ class PointSpreadFunction(HasStrictTraits):
                     if config.global_caching == 'readonly':
                         (ac, gp) = (ac[:], gp[:])
                         self.calc_psf(ac, gp)
-                        return ac[:, self.grid_indices]
+                        return ac[:, grid_indices]
                     self.calc_psf(ac, gp)
                     self.h5f.flush()
-                    return ac[:, self.grid_indices]
+                    return ac[:, grid_indices]
                 #                else:
                 #                    print("cached results are complete! return.")
-                return ac[:, self.grid_indices]
+                return ac[:, grid_indices]
             #           print("no caching, calculate result")
             ac = zeros((gs, gs), dtype=self.precision)
             gp = zeros((gs,), dtype='int8')
@@ -1082,17 +1085,18 @@ class PointSpreadFunction(HasStrictTraits):
             ac = zeros((gs, gs), dtype=self.precision)
             gp = zeros((gs,), dtype='int8')
             self.calc_psf(ac, gp)
-        return ac[:, self.grid_indices]
+        return ac[:, grid_indices]
 
     def calc_psf(self, ac, gp):
         """point-spread function calculation."""
+        grid_indices = self._get_ind()
         if self.calcmode != 'full':
             # calc_ind has the form [True, True, False, True], except
             # when it has only 1 entry (value True/1 would be ambiguous)
-            calc_ind = [0] if self.grid_indices.size == 1 else gp[:][self.grid_indices] == 0
+            calc_ind = [0] if grid_indices.size == 1 else gp[:][grid_indices] == 0
 
             # get indices which have the value True = not yet calculated
-            g_ind_calc = self.grid_indices[calc_ind]
+            g_ind_calc = grid_indices[calc_ind]
 
         if self.calcmode == 'single':  # calculate selected psfs one-by-one
             for ind in g_ind_calc:
-- 
2.43.0


From 0ae8bbcecacf7cdef56fb830f7a2c6754a172ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:41 +0000
Subject: [PATCH 021/103] fix: points of a point spread function are marked as
 calculated only after they are stored

---
 acoular/fbeamform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index a4ed1bd..4bd9fe1 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -1103,13 +1103,13 @@ class PointSpreadFunction(HasStrictTraits):
                 ac[:, ind] = self._psf_call(array([ind]))[:, 0]
                 gp[ind] = 1
         elif self.calcmode == 'full':  # calculate all psfs in one go
-            gp[:] = 1
             ac[:] = self._psf_call(arange(self.steer.grid.size))
+            gp[:] = 1
         else:  # 'block' # calculate selected psfs in one go
             hh = self._psf_call(g_ind_calc)
             for indh, ind in enumerate(g_ind_calc):
-                gp[ind] = 1
                 ac[:, ind] = hh[:, indh]
+                gp[ind] = 1
                 indh += 1
 
     def _psf_call(self, ind):
-- 
2.43.0


From 4067c11988345f66ac279982e3c50d15cfb95892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:09 +0000
Subject: [PATCH 022/103] fix: identifier of PowerSpectraImport follows the
 matrix and the frequencies

---
 acoular/spectra.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/acoular/spectra.py b/acoular/spectra.py
index f14bd2e..2cc37d5 100644
--- a/acoular/spectra.py
+++ b/acoular/spectra.py
@@ -12,6 +12,7 @@
 """
 
 from abc import abstractmethod
+from hashlib import md5
 from warnings import warn
 
 from numpy import (
@@ -24,12 +25,10 @@ from numpy import (
     fill_diagonal,
     hamming,
     hanning,
-    imag,
     linalg,
     ndarray,
     newaxis,
     ones,
-    real,
     searchsorted,
     sum,  # noqa A004
     zeros,
@@ -46,6 +45,7 @@ from traits.api import (
     Int,
     Map,
     Property,
+    Str,
     Union,
     cached_property,
     property_depends_on,
@@ -664,7 +664,7 @@ class PowerSpectraImport(PowerSpectra):
     _ind_high = Union(None, Int, desc='index of highest frequency line')
 
     #: A unique identifier for the spectra, based on its properties. (read-only)
-    digest = Property(depends_on=['_csmsum'])
+    digest = Property(depends_on=['_csmsum', 'frequencies'])
 
     #: Name of the cache file without extension. (read-only)
     basename = Property(depends_on=['digest'], desc='basename for cache file')
@@ -673,7 +673,7 @@ class PowerSpectraImport(PowerSpectra):
     _csm = CArray()
 
     # Checksum for the CSM to trigger digest calculation, for internal use only.
-    _csmsum = Float()
+    _csmsum = Str()
 
     def _get_basename(self):
         return 'csm_import_' + self.digest
@@ -693,8 +693,9 @@ class PowerSpectraImport(PowerSpectra):
             msg = 'The cross spectral matrix must have the following shape: \
             (number of frequencies, num_channels, num_channels)!'
             raise ValueError(msg)
-        self._csmsum = real(self._csm).sum() + (imag(self._csm) ** 2).sum()  # to trigger new digest creation
         self._csm = csm
+        # to trigger new digest creation
+        self._csmsum = md5(str(self._csm.shape).encode() + self._csm.tobytes()).hexdigest()
 
     @property_depends_on(['digest'])
     def _get_eva(self):
-- 
2.43.0


From 3cda2043cb46d02477d409614a58c815907511ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:09 +0000
Subject: [PATCH 023/103] fix: frequency range and indices of PowerSpectra are
 never outdated

---
 acoular/spectra.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/acoular/spectra.py b/acoular/spectra.py
index 2cc37d5..ecb1e26 100644
--- a/acoular/spectra.py
+++ b/acoular/spectra.py
@@ -288,7 +288,6 @@ class PowerSpectra(BaseSpectra):
     def _get_num_blocks(self):
         return self.overlap_ * self.source.num_samples / self.block_size - self.overlap_ + 1
 
-    @property_depends_on(['source.sample_freq', 'block_size', 'ind_low', 'ind_high'])
     def _get_freq_range(self):
         fftfreq = self.fftfreq()
         if fftfreq is not None:
@@ -302,7 +301,6 @@ class PowerSpectra(BaseSpectra):
         self._freqlc = freq_range[0]
         self._freqhc = freq_range[1]
 
-    @property_depends_on(['source.sample_freq', 'block_size', '_ind_low', '_freqlc'])
     def _get_ind_low(self):
         fftfreq = self.fftfreq()
         if fftfreq is not None:
@@ -311,7 +309,6 @@ class PowerSpectra(BaseSpectra):
             return searchsorted(fftfreq[:-1], self._freqlc)
         return None
 
-    @property_depends_on(['source.sample_freq', 'block_size', '_ind_high', '_freqhc'])
     def _get_ind_high(self):
         fftfreq = self.fftfreq()
         if fftfreq is not None:
@@ -332,7 +329,6 @@ class PowerSpectra(BaseSpectra):
         self._index_set_last = True
         self._ind_low = ind_low
 
-    @property_depends_on(['block_size', 'ind_low', 'ind_high'])
     def _get_indices(self):
         fftfreq = self.fftfreq()
         if fftfreq is not None:
-- 
2.43.0


From 9ae0cd57fdc64805acc15b6343eef5027b7c57cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:09 +0000
Subject: [PATCH 024/103] fix: integrate works if the beamforming result was
 not accessed before

---
 acoular/fbeamform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 4bd9fe1..e3d3a3c 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -658,6 +658,7 @@ class BeamformerBase(HasStrictTraits):
                 msg,
             )
         gshape = self.steer.grid.shape
+        result = self.result  # also updates the frequencies
         if num == 0 or frange is None:
             if frange is None:
                 ind_low = self.freq_data.ind_low
@@ -681,7 +682,7 @@ class BeamformerBase(HasStrictTraits):
                 )
             h = zeros(self._numfreq, dtype=float)
             sl = slice(*irange)
-            r = self.result[sl]
+            r = result[sl]
             for i in range(*irange):
                 # we do this per frequency because r might not have fancy indexing
                 h[i] = r[i - sl.start].reshape(gshape)[ind].sum()
-- 
2.43.0


From 24c688a82a81fc817b589fb3ce740c807c8eaf0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:15 +0000
Subject: [PATCH 025/103] fix: CLEAN-SC stops if there is no source left

---
 acoular/fbeamform.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index e3d3a3c..2e04e2e 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -1520,6 +1520,8 @@ class BeamformerCleansc(BeamformerBase):
             for j in range(J):
                 xi_max = h.argmax()  # index of maximum
                 powers[j] = hmax = h[xi_max]  # maximum
+                if hmax <= 0:  # no source left
+                    break
                 result[xi_max] += self.damp * hmax
                 if j > self.stopn and hmax > powers[j - self.stopn]:
                     break
-- 
2.43.0


From 60f0c359bf1dc6e66586a96b1de572b634d857e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:37 +0000
Subject: [PATCH 026/103] fix: travel times of GeneralFlowEnvironment follow
 changes of settings and grid

---
 acoular/environments.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/acoular/environments.py b/acoular/environments.py
index f179e06..4410cc1 100644
--- a/acoular/environments.py
+++ b/acoular/environments.py
@@ -838,14 +838,13 @@ class GeneralFlowEnvironment(Environment):
 
         gt = empty((gpos.shape[-1], mpos.shape[-1]))
         for micnum, x0 in enumerate(mpos.T):
-            key = x0.tobytes()  # make array hashable
+            roi = gpos if self.roi is None else self.roi
+            # make arrays hashable, the interpolator depends on all settings
+            key = (self.digest, roi.tobytes(), x0.tobytes())
             try:
                 li = self.idict[key]  # fetch stored interpolator
             except KeyError:
                 # if interpolator doesn't exist, construct it
-                roi = gpos
-                if self.roi is not None:
-                    roi = self.roi
                 li = self.get_interpolator(roi, x0)
                 self.idict[key] = li
             # do the interpolation
-- 
2.43.0


From 6c2abdb366cf056b7bfcc43f2697f96757133d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:47 +0000
Subject: [PATCH 027/103] fix: identifiers distinguish all elements of array
 settings and the borders between settings

---
 acoular/internal.py | 60 ++++++++++++++++++++++++++-------------------
 1 file changed, 35 insertions(+), 25 deletions(-)

diff --git a/acoular/internal.py b/acoular/internal.py
index f29480d..01c6aeb 100644
--- a/acoular/internal.py
+++ b/acoular/internal.py
@@ -1,25 +1,35 @@
-# ------------------------------------------------------------------------------
-# Copyright (c) Acoular Development Team.
-# ------------------------------------------------------------------------------
-
-from hashlib import md5
-
-
-def digest(obj, name='digest'):
-    str_ = [str(obj.__class__).encode('UTF-8')]
-    for do_ in obj.trait(name).depends_on:
-        vobj = obj
-        try:
-            for i in do_.split('.'):
-                vobj = list(vobj.trait_get(i.rstrip('[]')).values())[0]
-            str_.append(str(vobj).encode('UTF-8'))
-        except:  # noqa: E722
-            pass
-    return '_' + md5(b''.join(str_)).hexdigest()
-
-
-def ldigest(obj_list):
-    str_ = []
-    for i in obj_list:
-        str_.append(str(i.digest).encode('UTF-8'))
-    return '_' + md5(b''.join(str_)).hexdigest()
+# ------------------------------------------------------------------------------
+# Copyright (c) Acoular Development Team.
+# ------------------------------------------------------------------------------
+
+from hashlib import md5
+
+from numpy import ndarray
+
+
+def _bytes(value):
+    # str() abbreviates large arrays and limits the number of digits
+    if isinstance(value, ndarray):
+        return f'{value.dtype}{value.shape}'.encode() + value.tobytes()
+    return str(value).encode('UTF-8')
+
+
+def digest(obj, name='digest'):
+    str_ = [str(obj.__class__).encode('UTF-8')]
+    for do_ in obj.trait(name).depends_on:
+        vobj = obj
+        try:
+            for i in do_.split('.'):
+                vobj = list(vobj.trait_get(i.rstrip('[]')).values())[0]
+            str_.append(_bytes(vobj))
+        except:  # noqa: E722
+            pass
+    # the separator prevents different settings from being joined to the same string
+    return '_' + md5(b'\0'.join(str_)).hexdigest()
+
+
+def ldigest(obj_list):
+    str_ = []
+    for i in obj_list:
+        str_.append(str(i.digest).encode('UTF-8'))
+    return '_' + md5(b''.join(str_)).hexdigest()
-- 
2.43.0


From 6417c46a66b8382c9e6ab4051c7068180667f9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:06 +0000
Subject: [PATCH 028/103] fix: Mixer does not modify the samples of its source

---
 acoular/tprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 014f751..cd2af9e 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1338,7 +1338,7 @@ class Mixer(TimeOut):
                     return
                 if temp.shape[0] > temp1.shape[0]:
                     temp = temp[: temp1.shape[0]]
-                temp += temp1[: temp.shape[0]]
+                temp = temp + temp1[: temp.shape[0]]
             yield temp
             if sh > temp.shape[0]:
                 break
-- 
2.43.0


From a053f4cfe624206e54fa6503578da8621359013c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:06 +0000
Subject: [PATCH 029/103] fix: blocks of MaskedTimeOut are not overwritten by
 the following ones

---
 acoular/tprocess.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index cd2af9e..88771d6 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -240,16 +240,16 @@ class MaskedTimeOut(TimeOut):
                     buf[bsize : bsize + bs - (i - stop), :] = block[: bs - (i - stop), self.channels]
                     bsize += bs - (i - stop)
                     if bsize > num:
-                        yield buf[:num]
+                        yield buf[:num].copy()
                         buf[: bsize - num, :] = buf[num:bsize, :]
                         bsize -= num
-                    yield buf[:bsize, :]
+                    yield buf[:bsize, :].copy()
                     break
                 elif i >= start:
                     buf[bsize : bsize + bs, :] = block[:, self.channels]
                     bsize += bs
                 if bsize >= num:
-                    yield buf[:num]
+                    yield buf[:num].copy()
                     buf[: bsize - num, :] = buf[num:bsize, :]
                     bsize -= num
 
-- 
2.43.0


From 382998a3c92288565f7c78f364d1ef0c98409981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:06 +0000
Subject: [PATCH 030/103] fix: blocks of TimeReverse are not overwritten by the
 following ones

---
 acoular/tprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 88771d6..8002e72 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1433,7 +1433,7 @@ class TimeReverse(TimeOut):
         temp[:nsh] = h[::-1]
         for h in result_list[::-1]:
             temp[nsh:] = h[: nsh - 1 : -1]
-            yield temp
+            yield temp.copy()
             temp[:nsh] = h[nsh - 1 :: -1]
         yield temp[:nsh]
 
-- 
2.43.0


From f9b3a04f400f34dff63b6b3285168b06ae75c2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:31 +0000
Subject: [PATCH 031/103] fix: filter banks deliver a short last block and do
 not reuse their blocks

---
 acoular/tprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 8002e72..690fe3f 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1715,8 +1715,8 @@ class FilterBank(TimeOut):
         snumch = self.source.num_channels
         sos = self.sos
         zi = [zeros((sos[0].shape[0], 2, snumch)) for _ in range(numbands)]
-        res = zeros((num, self.num_channels), dtype='float')
         for block in self.source.result(num):
+            res = zeros((block.shape[0], self.num_channels), dtype='float')
             for i in range(numbands):
                 res[:, i * snumch : (i + 1) * snumch], zi[i] = sosfilt(sos[i], block, axis=0, zi=zi[i])
             yield res
-- 
2.43.0


From 37f65bb9ef54dcd36ecad2471d53637192758501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:52 +0000
Subject: [PATCH 032/103] fix: filter coefficients of OctaveFilterBank follow
 its settings

---
 acoular/tprocess.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 690fe3f..574abcf 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1734,6 +1734,9 @@ class OctaveFilterBank(FilterBank):
     # Octave fraction: 'Octave' or 'Third octave'; defaults to 'Octave'.
     fraction = Map({'Octave': 1, 'Third octave': 3}, default_value='Octave', desc='fraction of octave')
 
+    # List of filter coefficients for all filters
+    sos = Property(depends_on=['lband', 'hband', 'fraction', 'source.digest'])
+
     # List of filter coefficients for all filters
     ba = Property(depends_on=['lband', 'hband', 'fraction', 'source.digest'])
 
-- 
2.43.0


From 378f02c91614b64dafb91897e53a1ab28fc67cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:52 +0000
Subject: [PATCH 033/103] fix: derived quantities follow changes of
 invalid_channels in place

---
 acoular/calib.py       | 2 +-
 acoular/microphones.py | 2 +-
 acoular/sources.py     | 6 +++---
 acoular/tprocess.py    | 6 +++---
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/acoular/calib.py b/acoular/calib.py
index 06a57e1..e3fa4bd 100644
--- a/acoular/calib.py
+++ b/acoular/calib.py
@@ -95,7 +95,7 @@ class Calib(InOut):
     invalid_channels = List(int, desc='list of invalid channels')
 
     #: Channel mask to serve as an index for all valid channels, is set automatically.
-    channels = Property(depends_on=['invalid_channels', 'num_mics'], desc='channel mask')
+    channels = Property(depends_on=['invalid_channels[]', 'num_mics'], desc='channel mask')
 
     # Internal identifier
     digest = Property(depends_on=['source.digest', 'data'])
diff --git a/acoular/microphones.py b/acoular/microphones.py
index d51ca00..bcb7b48 100644
--- a/acoular/microphones.py
+++ b/acoular/microphones.py
@@ -137,7 +137,7 @@ class MicGeom(HasStrictTraits):
 
     #: Array containing the ``x, y, z`` positions of valid microphones (i.e., excluding those in
     #: :attr:`invalid_channels`), shape ``(3,`` :attr:`num_mics` ``)``. (read-only)
-    pos = Property(depends_on=['pos_total', 'invalid_channels'], desc='x, y, z position of used microphones')
+    pos = Property(depends_on=['pos_total', 'invalid_channels[]'], desc='x, y, z position of used microphones')
 
     #: List of indices indicating microphones to be excluded from calculations and results.
     #: Default is ``[]``.
diff --git a/acoular/sources.py b/acoular/sources.py
index 0d3bd5c..12d5918 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -589,7 +589,7 @@ class MaskedTimeSamples(TimeSamples):
 
     #: A mask or index array representing valid channels. Automatically updated based on the
     #: :attr:`invalid_channels` and :attr:`num_channels_total` attributes.
-    channels = Property(depends_on=['invalid_channels', 'num_channels_total'], desc='channel mask')
+    channels = Property(depends_on=['invalid_channels[]', 'num_channels_total'], desc='channel mask')
 
     #: Total number of input channels, including invalid channels. (read-only).
     num_channels_total = CInt(0, desc='total number of input channels')
@@ -599,7 +599,7 @@ class MaskedTimeSamples(TimeSamples):
 
     #: Number of valid input channels after excluding :attr:`invalid_channels`. (read-only)
     num_channels = Property(
-        depends_on=['invalid_channels', 'num_channels_total'], desc='number of valid input channels'
+        depends_on=['invalid_channels[]', 'num_channels_total'], desc='number of valid input channels'
     )
 
     #: Number of valid time-domain samples, based on :attr:`start` and :attr:`stop` indices.
@@ -609,7 +609,7 @@ class MaskedTimeSamples(TimeSamples):
     )
 
     #: A unique identifier for the samples, based on its properties. (read-only)
-    digest = Property(depends_on=['basename', 'start', 'stop', 'calib.digest', 'invalid_channels', '_datachecksum'])
+    digest = Property(depends_on=['basename', 'start', 'stop', 'calib.digest', 'invalid_channels[]', '_datachecksum'])
 
     @cached_property
     def _get_digest(self):
diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 574abcf..781af62 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -138,7 +138,7 @@ class MaskedTimeOut(TimeOut):
     invalid_channels = List(int, desc='list of invalid channels')
 
     # Channel mask to serve as an index for all valid channels, is set automatically.
-    channels = Property(depends_on=['invalid_channels', 'source.num_channels'], desc='channel mask')
+    channels = Property(depends_on=['invalid_channels[]', 'source.num_channels'], desc='channel mask')
 
     # Number of channels in input, as given by :attr:`~acoular.base.TimeOut.source`.
     num_channels_total = Delegate('source', 'num_channels')
@@ -148,7 +148,7 @@ class MaskedTimeOut(TimeOut):
 
     # Number of valid channels, is set automatically.
     num_channels = Property(
-        depends_on=['invalid_channels', 'source.num_channels'], desc='number of valid input channels'
+        depends_on=['invalid_channels[]', 'source.num_channels'], desc='number of valid input channels'
     )
 
     # Number of valid time samples, is set automatically.
@@ -160,7 +160,7 @@ class MaskedTimeOut(TimeOut):
     basename = Property(depends_on=['source.digest'], desc='basename for cache file')
 
     # internal identifier
-    digest = Property(depends_on=['source.digest', 'start', 'stop', 'invalid_channels'])
+    digest = Property(depends_on=['source.digest', 'start', 'stop', 'invalid_channels[]'])
 
     @cached_property
     def _get_digest(self):
-- 
2.43.0


From c8d825ab3ab45ceada7c492c56189f0559b7e1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:44 +0000
Subject: [PATCH 034/103] fix: identifier of Calib depends on the invalid
 channels

---
 acoular/calib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/calib.py b/acoular/calib.py
index e3fa4bd..cf25360 100644
--- a/acoular/calib.py
+++ b/acoular/calib.py
@@ -98,7 +98,7 @@ class Calib(InOut):
     channels = Property(depends_on=['invalid_channels[]', 'num_mics'], desc='channel mask')
 
     # Internal identifier
-    digest = Property(depends_on=['source.digest', 'data'])
+    digest = Property(depends_on=['source.digest', 'data', 'invalid_channels[]'])
 
     @on_trait_change('data')
     def set_num_mics(self):
-- 
2.43.0


From 9ac04ac6ca4372776e695e96ae929b066a67d86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:44 +0000
Subject: [PATCH 035/103] fix: all channels or microphones may be excluded

---
 acoular/calib.py       | 2 +-
 acoular/microphones.py | 2 +-
 acoular/sources.py     | 2 +-
 acoular/tprocess.py    | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/acoular/calib.py b/acoular/calib.py
index cf25360..f95d782 100644
--- a/acoular/calib.py
+++ b/acoular/calib.py
@@ -109,7 +109,7 @@ class Calib(InOut):
         if len(self.invalid_channels) == 0:
             return slice(0, None, None)
         allr = [i for i in range(self.num_mics) if i not in self.invalid_channels]
-        return array(allr)
+        return array(allr, dtype=int)
 
     @cached_property
     def _get_digest(self):
diff --git a/acoular/microphones.py b/acoular/microphones.py
index bcb7b48..713e804 100644
--- a/acoular/microphones.py
+++ b/acoular/microphones.py
@@ -165,7 +165,7 @@ class MicGeom(HasStrictTraits):
         if len(self.invalid_channels) == 0:
             return self.pos_total
         allr = [i for i in range(self.pos_total.shape[-1]) if i not in self.invalid_channels]
-        return self.pos_total[:, array(allr)]
+        return self.pos_total[:, array(allr, dtype=int)]
 
     @cached_property
     def _get_num_mics(self):
diff --git a/acoular/sources.py b/acoular/sources.py
index 12d5918..57c52db 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -620,7 +620,7 @@ class MaskedTimeSamples(TimeSamples):
         if len(self.invalid_channels) == 0:
             return slice(0, None, None)
         allr = [i for i in range(self.num_channels_total) if i not in self.invalid_channels]
-        return array(allr)
+        return array(allr, dtype=int)
 
     @cached_property
     def _get_num_channels(self):
diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 781af62..f3f7f11 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -183,7 +183,7 @@ class MaskedTimeOut(TimeOut):
         if len(self.invalid_channels) == 0:
             return slice(0, None, None)
         allr = [i for i in range(self.num_channels_total) if i not in self.invalid_channels]
-        return array(allr)
+        return array(allr, dtype=int)
 
     @cached_property
     def _get_num_channels(self):
-- 
2.43.0


From c6c8cf3891940382ca20f37693aa9a13a3a23dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:44 +0000
Subject: [PATCH 036/103] fix: SpatialInterpolatorRotation reads the angle of
 its angle source

---
 acoular/tprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index f3f7f11..fddc796 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1200,7 +1200,7 @@ class SpatialInterpolatorRotation(SpatialInterpolator):  # pragma: no cover
         # period for rotation
         period = 2 * pi
         # get angle
-        angle = self.angle_source.angle()
+        angle = self.angle_source.angle
         # counter to track angle position in time for each block
         count = 0
         for timeData in self.source.result(num):
-- 
2.43.0


From d9c2437bc84f074277dd4e93f3bb1faeafb80730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:44 +0000
Subject: [PATCH 037/103] fix: spatial interpolation follows changes of the
 geometries and settings

---
 acoular/tprocess.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index fddc796..c8db232 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -673,14 +673,12 @@ class SpatialInterpolator(TimeOut):  # pragma: no cover
     mics = Instance(MicGeom(), desc='microphone geometry')
 
     # :class:`~acoular.microphones.MicGeom` object that provides the virtual microphone locations.
-    mics_virtual = Property(desc='microphone geometry')
+    mics_virtual = Property(depends_on=['mics', '_mics_virtual'], desc='microphone geometry')
 
     _mics_virtual = Instance(MicGeom, desc='internal microphone geometry;internal usage, read only')
 
     def _get_mics_virtual(self):
-        if not self._mics_virtual and self.mics:
-            self._mics_virtual = self.mics
-        return self._mics_virtual
+        return self._mics_virtual or self.mics
 
     def _set_mics_virtual(self, mics_virtual):
         self._mics_virtual = mics_virtual
@@ -731,8 +729,8 @@ class SpatialInterpolator(TimeOut):  # pragma: no cover
     )
 
     # Stores the output of :meth:`_virtNewCoord_func`; Read-Only
-    _virtNewCoord_func = Property(  # noqa: N815
-        depends_on=['mics.digest', 'mics_virtual.digest', 'method', 'array_dimension', 'interp_at_zero'],
+    virtNewCoord = Property(  # noqa: N815
+        depends_on=['mics.digest', 'mics_virtual.digest', 'method', 'array_dimension', 'Q', 'interp_at_zero'],
     )
 
     # internal identifier
@@ -935,7 +933,7 @@ class SpatialInterpolator(TimeOut):  # pragma: no cover
         # number of virtual mixcs
         nVirtMics = self.mics_virtual.mpos.shape[1]
         # mesh and projection onto polar Coordinates
-        meshList, virtNewCoord, newCoord = self._get_virtNewCoord()
+        meshList, virtNewCoord, newCoord = self.virtNewCoord
         # pressure interpolation init
         pInterp = zeros((nTime, nVirtMics))
         # Coordinates in cartesian CO - for IDW interpolation
-- 
2.43.0


From b4fcfadaeaa5d91ba700bc5a8632f04b3abee3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:44 +0000
Subject: [PATCH 038/103] fix: identifiers of spatial interpolators depend on
 the settings of inverse distance weighting

---
 acoular/tprocess.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index c8db232..3b94248 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -743,6 +743,8 @@ class SpatialInterpolator(TimeOut):  # pragma: no cover
             'array_dimension',
             'Q',
             'interp_at_zero',
+            'num_IDW',
+            'p_weight',
         ],
     )
 
@@ -1173,6 +1175,8 @@ class SpatialInterpolatorRotation(SpatialInterpolator):  # pragma: no cover
             'array_dimension',
             'Q',
             'interp_at_zero',
+            'num_IDW',
+            'p_weight',
         ],
     )
 
@@ -1228,6 +1232,8 @@ class SpatialInterpolatorConstantRotation(SpatialInterpolator):  # pragma: no co
             'array_dimension',
             'Q',
             'interp_at_zero',
+            'num_IDW',
+            'p_weight',
             'rotational_speed',
         ],
     )
-- 
2.43.0


From 3d7e8649249cbf9aa2a48fc96750043e01eae4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:44 +0000
Subject: [PATCH 039/103] fix: trigger edges in the first block are located at
 the same sample as in the others

---
 acoular/tprocess.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 3b94248..e037c70 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -449,7 +449,7 @@ class Trigger(TimeOut):  # pragma: no cover
         if faultyInd.size != 0:
             warn(
                 f'In Trigger-Identification: The distances between the peaks (and therefore the lengths of the \
-                revolutions) vary too much (check samples {peakLoc[faultyInd] + self.source.start}).',
+                revolutions) vary too much (check samples {peakLoc[faultyInd] + getattr(self.source, 'start', 0)}).',
                 Warning,
                 stacklevel=2,
             )
@@ -461,7 +461,8 @@ class Trigger(TimeOut):  # pragma: no cover
 
     def _trigger_rect(self, x0, x, threshold):
         # x0 stores the last value of the the last generator cycle
-        xNew = append(x0, x)
+        # there is no edge before the first sample
+        xNew = append(x0 if len(x0) else x[:1], x)
         # indPeakHunk = abs(xNew[1:] - xNew[:-1]) > abs(threshold)
         # with above line, every edge would be located
         return self._trigger_value_comp(xNew[1:] - xNew[:-1], threshold)
-- 
2.43.0


From 3e6b0728a1561ec38f6fb21d978debf5e3b3f73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:19 +0000
Subject: [PATCH 040/103] fix: Mixer announces the number of samples of the
 shortest source

---
 acoular/tprocess.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index e037c70..70ca490 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1285,8 +1285,8 @@ class Mixer(TimeOut):
     # Number of channels in output as given by :attr:`source`.
     num_channels = Delegate('source')
 
-    # Number of samples in output as given by :attr:`source`.
-    num_samples = Delegate('source')
+    # Number of samples in output, limited by the shortest source.
+    num_samples = Property(depends_on=['source.num_samples', 'sdigest'])
 
     # internal identifier
     sdigest = Str()
@@ -1302,6 +1302,9 @@ class Mixer(TimeOut):
     def _get_digest(self):
         return digest(self)
 
+    def _get_num_samples(self):
+        return min([s.num_samples for s in [self.source, *self.sources]])
+
     def validate_sources(self):
         """Validates if sources fit together."""
         if self.source:
-- 
2.43.0


From 064ab8625760cfe1c4ba47058e950768511c8c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:19 +0000
Subject: [PATCH 041/103] fix: TimeConvolve convolves correctly for every block
 size, kernel length and number of channels

---
 acoular/tprocess.py | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 70ca490..b5e0cdc 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1990,9 +1990,7 @@ class TimeConvolve(TimeOut):
         return digest(self)
 
     def _validate_kernel(self):
-        # reshape kernel for broadcasting
         if self.kernel.ndim == 1:
-            self.kernel = self.kernel.reshape([-1, 1])
             return
         # check dimensionality
         if self.kernel.ndim > 2:
@@ -2006,18 +2004,20 @@ class TimeConvolve(TimeOut):
     # compute the rfft of the kernel blockwise
     @cached_property
     def _get__kernel_blocks(self):
-        [L, N] = self.kernel.shape
+        # reshape kernel for broadcasting
+        kernel = self.kernel.reshape([self.kernel.shape[0], -1])
+        [L, N] = kernel.shape
         num = self._block_size
         P = int(ceil(L / num))
         trim = num * (P - 1)
         blocks = zeros([P, num + 1, N], dtype='complex128')
 
         if P > 1:
-            for i, block in enumerate(split(self.kernel[:trim], P - 1, axis=0)):
+            for i, block in enumerate(split(kernel[:trim], P - 1, axis=0)):
                 blocks[i] = rfft(concatenate([block, zeros([num, N])], axis=0), axis=0)
 
         blocks[-1] = rfft(
-            concatenate([self.kernel[trim:], zeros([2 * num - L + trim, N])], axis=0),
+            concatenate([kernel[trim:], zeros([2 * num - L + trim, N])], axis=0),
             axis=0,
         )
         return blocks
@@ -2047,9 +2047,11 @@ class TimeConvolve(TimeOut):
         numblocks_kernel = int(ceil(L / num))  # number of kernel blocks
         Q = int(ceil(M / num))  # number of signal blocks
         R = int(ceil((L + M - 1) / num))  # number of output blocks
-        last_size = (L + M - 1) % num  # size of final block
+        last_size = L + M - 1 - (R - 1) * num  # size of final block
 
-        idx = 0
+        # a single kernel is applied to all channels
+        kernel_blocks = self._kernel_blocks
+        kernel_blocks = tile(kernel_blocks, (1, 1, N // kernel_blocks.shape[2]))
         fdl = zeros([numblocks_kernel, num + 1, N], dtype='complex128')
         buff = zeros([2 * num, N])  # time-domain input buffer
         spec_sum = zeros([num + 1, N], dtype='complex128')
@@ -2060,16 +2062,16 @@ class TimeConvolve(TimeOut):
 
         # for very short signals, we are already done
         if R == 1:
-            _append_to_fdl(fdl, idx, numblocks_kernel, rfft(buff, axis=0))
-            spec_sum = _spectral_sum(spec_sum, fdl, self._kernel_blocks)
+            _append_to_fdl(fdl, rfft(buff, axis=0))
+            spec_sum = _spectral_sum(spec_sum, fdl, kernel_blocks)
             # truncate s.t. total length is L+M-1 (like numpy convolve w/ mode="full")
             yield irfft(spec_sum, axis=0)[num : last_size + num]
             return
 
         # stream processing of source signal
         for temp in signal_blocks:
-            _append_to_fdl(fdl, idx, numblocks_kernel, rfft(buff, axis=0))
-            spec_sum = _spectral_sum(spec_sum, fdl, self._kernel_blocks)
+            _append_to_fdl(fdl, rfft(buff, axis=0))
+            spec_sum = _spectral_sum(spec_sum, fdl, kernel_blocks)
             yield irfft(spec_sum, axis=0)[num:]
             buff = concatenate(
                 [buff[num:], zeros([num, N])],
@@ -2078,24 +2080,25 @@ class TimeConvolve(TimeOut):
             buff[num : num + temp.shape[0]] = temp  # append new time-data
 
         for _ in range(R - Q):
-            _append_to_fdl(fdl, idx, numblocks_kernel, rfft(buff, axis=0))
-            spec_sum = _spectral_sum(spec_sum, fdl, self._kernel_blocks)
+            _append_to_fdl(fdl, rfft(buff, axis=0))
+            spec_sum = _spectral_sum(spec_sum, fdl, kernel_blocks)
             yield irfft(spec_sum, axis=0)[num:]
             buff = concatenate(
                 [buff[num:], zeros([num, N])],
                 axis=0,
             )  # shift input buffer to the left
 
-        _append_to_fdl(fdl, idx, numblocks_kernel, rfft(buff, axis=0))
-        spec_sum = _spectral_sum(spec_sum, fdl, self._kernel_blocks)
+        _append_to_fdl(fdl, rfft(buff, axis=0))
+        spec_sum = _spectral_sum(spec_sum, fdl, kernel_blocks)
         # truncate s.t. total length is L+M-1 (like numpy convolve w/ mode="full")
         yield irfft(spec_sum, axis=0)[num : last_size + num]
 
 
 @nb.jit(nopython=True, cache=True)
-def _append_to_fdl(fdl, idx, numblocks_kernel, buff):  # pragma: no cover
-    fdl[idx] = buff
-    idx = int(idx + 1 % numblocks_kernel)
+def _append_to_fdl(fdl, buff):  # pragma: no cover
+    for i in range(fdl.shape[0] - 1, 0, -1):
+        fdl[i] = fdl[i - 1]
+    fdl[0] = buff
 
 
 @nb.jit(nopython=True, cache=True)
-- 
2.43.0


From 1d2df0c6f5712065b1b463463947b169da51a0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:19 +0000
Subject: [PATCH 042/103] fix: TimeConvolve announces the number of samples of
 the full convolution

---
 acoular/tprocess.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index b5e0cdc..9c17dc9 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1982,9 +1982,15 @@ class TimeConvolve(TimeOut):
         desc='Frequency domain Kernel blocks',
     )
 
+    # Number of samples in output (full convolution).
+    num_samples = Property(depends_on=['source.num_samples', 'kernel'])
+
     # internal identifier
     digest = Property(depends_on=['source.digest', 'kernel'])
 
+    def _get_num_samples(self):
+        return self.source.num_samples + self.kernel.shape[0] - 1
+
     @cached_property
     def _get_digest(self):
         return digest(self)
-- 
2.43.0


From 5b308aefe2eb56530a8362bc76cca1e926a5828d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:19 +0000
Subject: [PATCH 043/103] fix: WriteH5 delivers the samples that it writes

---
 acoular/tprocess.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 9c17dc9..cdbc57e 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1954,7 +1954,8 @@ class WriteH5(TimeOut):
                 data = next(source_gen)
             except StopIteration:
                 break
-            f5h.append_data(ac, data[:anz])
+            data = data[:anz]
+            f5h.append_data(ac, data)
             f5h.flush()
             yield data
             scount += anz
-- 
2.43.0


From 7f966e4b0889c3a2715eb5679101697890036290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:52 +0000
Subject: [PATCH 044/103] fix: PointSource does not read beyond the limits of
 the signal

---
 acoular/sources.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index 57c52db..dba135e 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -96,18 +96,19 @@ from .trajectory import Trajectory
 
 @nb.njit(cache=True, error_model='numpy')  # pragma: no cover
 def _fill_mic_signal_block(out, signal, rm, ind, blocksize, num_channels, up, prepadding):
+    n = signal.shape[0]  # the signal is repeated beyond its limits
     if prepadding:
         for b in range(blocksize):
             for m in range(num_channels):
                 if ind[0, m] < 0:
                     out[b, m] = 0
                 else:
-                    out[b, m] = signal[int(0.5 + ind[0, m])] / rm[0, m]
+                    out[b, m] = signal[int(0.5 + ind[0, m]) % n] / rm[0, m]
             ind += up
     else:
         for b in range(blocksize):
             for m in range(num_channels):
-                out[b, m] = signal[int(0.5 + ind[0, m])] / rm[0, m]
+                out[b, m] = signal[int(0.5 + ind[0, m]) % n] / rm[0, m]
             ind += up
     return out
 
@@ -914,7 +915,7 @@ class PointSource(SamplesGenerator):
 
         if self.prepadding == 'zeros':
             # number of blocks where signal behaviour is amended
-            pre = -int(npmin(ind[0]) // (self.up * num))
+            pre = max(0, -int(npmin(ind[0]) // (self.up * num)))
             # amend signal for first blocks
             # if signal stops during prepadding, terminate
             if pre >= N:
-- 
2.43.0


From 30d66a4149442b8c53644dcd5a05b5ea2d199244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:52 +0000
Subject: [PATCH 045/103] fix: blocks of point sources are not overwritten by
 the following ones

---
 acoular/sources.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index dba135e..bd3154c 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -921,7 +921,7 @@ class PointSource(SamplesGenerator):
             if pre >= N:
                 for _nb in range(N - 1):
                     out = _fill_mic_signal_block(out, signal, rm, ind, num, self.num_channels, self.up, True)
-                    yield out
+                    yield out.copy()
 
                 blocksize = self.num_samples % num or num
                 out = _fill_mic_signal_block(out, signal, rm, ind, blocksize, self.num_channels, self.up, True)
@@ -930,7 +930,7 @@ class PointSource(SamplesGenerator):
             else:
                 for _nb in range(pre):
                     out = _fill_mic_signal_block(out, signal, rm, ind, num, self.num_channels, self.up, True)
-                    yield out
+                    yield out.copy()
 
         else:
             pre = 0
@@ -938,7 +938,7 @@ class PointSource(SamplesGenerator):
         # main generator
         for _nb in range(N - pre - 1):
             out = _fill_mic_signal_block(out, signal, rm, ind, num, self.num_channels, self.up, False)
-            yield out
+            yield out.copy()
 
         # last block of variable size
         blocksize = self.num_samples % num or num
@@ -1199,7 +1199,7 @@ class MovingPointSource(PointSource):
                 out[i] = signal[array(0.5 + ind * self.up, dtype=int64)] / rm
                 i += 1
                 if i == num:
-                    yield out
+                    yield out.copy()
                     i = 0
             except IndexError:  # if no more samples available from the source
                 break
@@ -1343,7 +1343,7 @@ class PointSourceDipole(PointSource):
 
                 i += 1
                 if i == num:
-                    yield out
+                    yield out.copy()
                     i = 0
             except IndexError:
                 break
@@ -1571,7 +1571,7 @@ class MovingPointSourceDipole(PointSourceDipole, MovingPointSource):
                 )
                 i += 1
                 if i == num:
-                    yield out
+                    yield out.copy()
                     i = 0
             except IndexError:
                 break
-- 
2.43.0


From 47aae841361dbb121fab8309820ffc65851e6634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:52 +0000
Subject: [PATCH 046/103] fix: dipole and line sources do not deliver empty
 blocks

---
 acoular/sources.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index bd3154c..fe08922 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -1348,7 +1348,8 @@ class PointSourceDipole(PointSource):
             except IndexError:
                 break
 
-        yield out[:i]
+        if i > 0:  # if there are still samples to yield
+            yield out[:i]
 
 
 class MovingPointSourceDipole(PointSourceDipole, MovingPointSource):
@@ -1575,7 +1576,8 @@ class MovingPointSourceDipole(PointSourceDipole, MovingPointSource):
                     i = 0
             except IndexError:
                 break
-        yield out[:i]
+        if i > 0:  # if there are still samples to yield
+            yield out[:i]
 
 
 class LineSource(PointSource):
@@ -1705,7 +1707,8 @@ class LineSource(PointSource):
             except IndexError:
                 break
 
-        yield out[:i]
+        if i > 0:  # if there are still samples to yield
+            yield out[:i]
 
 
 class MovingLineSource(LineSource, MovingPointSource):
@@ -1945,7 +1948,8 @@ class MovingLineSource(LineSource, MovingPointSource):
                     i = 0
             except IndexError:
                 break
-        yield out[:i]
+        if i > 0:  # if there are still samples to yield
+            yield out[:i]
 
 
 @deprecated_alias({'numchannels': 'num_channels'}, read_only=True)
-- 
2.43.0


From 44cc1ee839a3e7a3c716253a1bfa0568871afe72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:52 +0000
Subject: [PATCH 047/103] fix: identifiers of sources depend on all settings

---
 acoular/sources.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/acoular/sources.py b/acoular/sources.py
index fe08922..5ae3073 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -984,6 +984,7 @@ class SphericalHarmonicSource(PointSource):
             'up',
             'alpha',
             'lOrder',
+            'direction',
             'prepadding',
         ],
     )
@@ -1118,6 +1119,7 @@ class MovingPointSource(PointSource):
             'env.digest',
             'start_t',
             'start',
+            'up',
             'trajectory.digest',
             'prepadding',
         ],
@@ -1385,6 +1387,10 @@ class MovingPointSourceDipole(PointSourceDipole, MovingPointSource):
             'start',
             'up',
             'direction',
+            'trajectory.digest',
+            'conv_amp',
+            'rvec',
+            'prepadding',
         ],
     )
 
@@ -1633,6 +1639,9 @@ class LineSource(PointSource):
             'direction',
             'source_strength',
             'coherence',
+            'length',
+            'num_sources',
+            'prepadding',
         ],
     )
 
@@ -1746,6 +1755,14 @@ class MovingLineSource(LineSource, MovingPointSource):
             'start',
             'up',
             'direction',
+            'source_strength',
+            'coherence',
+            'length',
+            'num_sources',
+            'trajectory.digest',
+            'conv_amp',
+            'rvec',
+            'prepadding',
         ],
     )
 
-- 
2.43.0


From 09478227292cc35f00b8a94b2003ef45a5f3ae63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:25 +0000
Subject: [PATCH 048/103] fix: line sources do not modify their signal and give
 the same result every time

---
 acoular/sources.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index 5ae3073..9e90b11 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -1693,11 +1693,12 @@ class LineSource(PointSource):
         for s in range(self.num_sources):
             rms[:, s] = self.env._r((loc.T + direc_n * dist * s).T, mpos)
             inds[:, s] = (-rms[:, s] / c - self.start_t + self.start) * self.sample_freq
+            sub_signal = self.signal.clone_traits()
             # new seed for every source
             if self.coherence == 'incoherent':
-                self.signal.seed = s + abs(int(hash(self.digest) // 10e12))
-            self.signal.rms = self.signal.rms * self.source_strength[s]
-            signals[s] = self.signal.usignal(self.up)
+                sub_signal.seed = s + int(self.digest[1:6], 16)
+            sub_signal.rms = self.signal.rms * self.source_strength[s]
+            signals[s] = sub_signal.usignal(self.up)
         i = 0
         n = self.num_samples
         while n:
@@ -1922,11 +1923,12 @@ class MovingLineSource(LineSource, MovingPointSource):
         signals = empty((self.num_sources, len(self.signal.usignal(self.up))))
         # coherence
         for s in range(self.num_sources):
+            sub_signal = self.signal.clone_traits()
             # new seed for every source
             if self.coherence == 'incoherent':
-                self.signal.seed = s + abs(int(hash(self.digest) // 10e12))
-            self.signal.rms = self.signal.rms * self.source_strength[s]
-            signals[s] = self.signal.usignal(self.up)
+                sub_signal.seed = s + int(self.digest[1:6], 16)
+            sub_signal.rms = self.signal.rms * self.source_strength[s]
+            signals[s] = sub_signal.usignal(self.up)
         mpos = self.mics.pos
 
         # shortcuts and initial values
-- 
2.43.0


From baa7057ba7f51de0cd17c65812918ce100710c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:25 +0000
Subject: [PATCH 049/103] fix: convective amplification applies to all parts of
 a moving line source

---
 acoular/sources.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index 9e90b11..9ccff88 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -1951,9 +1951,8 @@ class MovingLineSource(LineSource, MovingPointSource):
                 rms[:, s] = self.env._r((loc + diff * s), mpos)
                 inds[:, s] = (te - self.start_t + self.start) * self.sample_freq
 
-            if self.conv_amp:
-                rm *= (1 - Mr) ** 2
-                rms[:, s] *= (1 - Mr) ** 2  # assume that Mr is the same
+                if self.conv_amp:
+                    rms[:, s] *= (1 - Mr) ** 2  # assume that Mr is the same
             try:
                 # subtract the second signal b/c of phase inversion
                 for s in range(self.num_sources):
-- 
2.43.0


From 43addbd9a9b75828ecdb3df86c0a9b512306db32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:25 +0000
Subject: [PATCH 050/103] fix: UncorrelatedNoiseSource uses all settings of its
 signal

---
 acoular/sources.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index 9ccff88..1886203 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -2065,7 +2065,6 @@ class UncorrelatedNoiseSource(SamplesGenerator):
             'mics.digest',
             'signal.digest',
             'seed',
-            'loc',
             'start_t',
             'start',
         ],
@@ -2106,7 +2105,6 @@ class UncorrelatedNoiseSource(SamplesGenerator):
         - Each channel's noise signal is generated using a unique random seed.
         - The type and characteristics of the noise are defined by the :attr:`signal` attribute.
         """
-        Noise = self.signal.__class__
         # create or get the array of random seeds
         if not self.seed.size > 0:
             seed = arange(self.num_channels) + self.signal.seed
@@ -2116,12 +2114,12 @@ class UncorrelatedNoiseSource(SamplesGenerator):
             msg = f'Seed array expected to be of shape ({self.num_channels:d},), but has shape {self.seed.shape}.'
             raise ValueError(msg)
         # create array with [num_channels] noise signal tracks
-        signal = array(
-            [
-                Noise(seed=s, num_samples=self.num_samples, sample_freq=self.sample_freq, rms=self.signal.rms).signal()
-                for s in seed
-            ],
-        ).T
+        tracks = []
+        for s in seed:
+            noise = self.signal.clone_traits()
+            noise.seed = int(s)
+            tracks.append(noise.signal())
+        signal = array(tracks).T
 
         n = num
         while n <= self.num_samples:
-- 
2.43.0


From ea52a47ce38e5b6478e40f9955de1eeb26ea7737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:25 +0000
Subject: [PATCH 051/103] fix: SourceMixer does not modify the samples of its
 sources

---
 acoular/sources.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index 1886203..50d73bb 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -2337,13 +2337,13 @@ class SourceMixer(SamplesGenerator):
             weights = array([1.0 for j in range(len(self.sources))])
         assert weights.shape[0] == len(self.sources)
         for temp in self.sources[0].result(num):
-            temp *= weights[0]
+            temp = temp * weights[0]
             sh = temp.shape[0]
             for j, g in enumerate(gens):
                 temp1 = next(g) * weights[j + 1]
                 if temp.shape[0] > temp1.shape[0]:
                     temp = temp[: temp1.shape[0]]
-                temp += temp1[: temp.shape[0]]
+                temp = temp + temp1[: temp.shape[0]]
             yield temp
             if sh > temp.shape[0]:
                 break
-- 
2.43.0


From aaa800309dd11a82bca00245583fab29e6536406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:25 +0000
Subject: [PATCH 052/103] fix: identifier of time data in memory depends on all
 samples

---
 acoular/sources.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index 50d73bb..735abfb 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -43,6 +43,7 @@ from numpy import (
     empty,
     int64,
     mod,
+    ndarray,
     newaxis,
     ones,
     pi,
@@ -398,7 +399,7 @@ class TimeSamples(SamplesGenerator):
     metadata = Dict(desc='metadata contained in .h5 file')
 
     # Checksum over first data entries of all channels
-    _datachecksum = Property()
+    _datachecksum = Property(depends_on=['data'])
 
     #: A unique identifier for the samples, based on its properties. (read-only)
     digest = Property(
@@ -406,7 +407,8 @@ class TimeSamples(SamplesGenerator):
     )
 
     def _get__datachecksum(self):
-        return self.data[0, :].sum()
+        # data in memory is checked completely, data in files is not read for that
+        return self.data if isinstance(self.data, ndarray) else self.data[0, :].sum()
 
     @cached_property
     def _get_digest(self):
-- 
2.43.0


From e78fc88ebaea65645068186166a7aa9ef9e3e2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:53 +0000
Subject: [PATCH 053/103] fix: identifier of MaskedTimeSamples depends on the
 sampling frequency

---
 acoular/sources.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index 735abfb..8c90fc0 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -612,7 +612,9 @@ class MaskedTimeSamples(TimeSamples):
     )
 
     #: A unique identifier for the samples, based on its properties. (read-only)
-    digest = Property(depends_on=['basename', 'start', 'stop', 'calib.digest', 'invalid_channels[]', '_datachecksum'])
+    digest = Property(
+        depends_on=['basename', 'start', 'stop', 'calib.digest', 'invalid_channels[]', '_datachecksum', 'sample_freq']
+    )
 
     @cached_property
     def _get_digest(self):
-- 
2.43.0


From c163d36732eb1e0745d1f2544e82fca3222f76ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:53 +0000
Subject: [PATCH 054/103] fix: PointSourceConvolve announces the number of
 samples of the full convolution

---
 acoular/sources.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index 8c90fc0..c8bee34 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -2431,6 +2431,9 @@ class PointSourceConvolve(PointSource):
     #: Upsampling factor for internal use. Default is ``None``.
     up = Enum(None, desc='upsampling factor')
 
+    #: Number of samples of the full convolution. (read-only)
+    num_samples = Property(depends_on=['signal.num_samples', 'kernel'])
+
     #: Unique identifier for the current state of the source,
     #: based on microphone geometry, input signal, source location, and kernel. (read-only)
     digest = Property(depends_on=['mics.digest', 'signal.digest', 'loc', 'kernel'])
@@ -2439,6 +2442,9 @@ class PointSourceConvolve(PointSource):
     def _get_digest(self):
         return digest(self)
 
+    def _get_num_samples(self):
+        return self.signal.num_samples + self.kernel.shape[0] - 1
+
     def result(self, num=128):
         """
         Generate the convolved signal at microphones in blocks.
@@ -2470,7 +2476,7 @@ class PointSourceConvolve(PointSource):
         source = TimeSamples(
             data=data,
             sample_freq=self.sample_freq,
-            num_samples=self.num_samples,
+            num_samples=self.signal.num_samples,
             num_channels=self.mics.num_mics,
         )
         time_convolve = TimeConvolve(
-- 
2.43.0


From a18586e2fa61d6470a151164ab88e32e9040af58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:05 +0000
Subject: [PATCH 055/103] fix: line sources accept every type of signal

---
 acoular/sources.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index c8bee34..bd2b798 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -1701,8 +1701,7 @@ class LineSource(PointSource):
             # new seed for every source
             if self.coherence == 'incoherent':
                 sub_signal.seed = s + int(self.digest[1:6], 16)
-            sub_signal.rms = self.signal.rms * self.source_strength[s]
-            signals[s] = sub_signal.usignal(self.up)
+            signals[s] = self.source_strength[s] * sub_signal.usignal(self.up)
         i = 0
         n = self.num_samples
         while n:
@@ -1931,8 +1930,7 @@ class MovingLineSource(LineSource, MovingPointSource):
             # new seed for every source
             if self.coherence == 'incoherent':
                 sub_signal.seed = s + int(self.digest[1:6], 16)
-            sub_signal.rms = self.signal.rms * self.source_strength[s]
-            signals[s] = sub_signal.usignal(self.up)
+            signals[s] = self.source_strength[s] * sub_signal.usignal(self.up)
         mpos = self.mics.pos
 
         # shortcuts and initial values
-- 
2.43.0


From 71c707e83f2de63c10780a422dbfe5bf04c1a0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:05 +0000
Subject: [PATCH 056/103] fix: identifier of GenericSignalGenerator follows the
 number of samples

---
 acoular/signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/signals.py b/acoular/signals.py
index 9c04ec9..cc05832 100644
--- a/acoular/signals.py
+++ b/acoular/signals.py
@@ -603,7 +603,7 @@ class GenericSignalGenerator(SignalGenerator):
     #: The number of samples to generate. Default is the number of samples available in the
     #: :attr:`source` (``source.num_samples``). If set explicitly, it can exceed the source length,
     #: in which case the signal will loop if :attr:`loop_signal` is ``True``.
-    num_samples = Property()
+    num_samples = Property(depends_on=['_num_samples', 'source.num_samples'])
 
     def _get_num_samples(self):
         if self._num_samples:
-- 
2.43.0


From 91b2f0d4e8450e6c2f31dfa5b4b762313665f038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:19 +0000
Subject: [PATCH 057/103] fix: Average announces the number of complete
 averages

---
 acoular/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/process.py b/acoular/process.py
index 856c30a..efce8a4 100644
--- a/acoular/process.py
+++ b/acoular/process.py
@@ -147,7 +147,7 @@ class Average(InOut):
     @cached_property
     def _get_num_samples(self):
         if self.source:
-            return self.source.num_samples / self.num_per_average
+            return self.source.num_samples // self.num_per_average
         return None
 
     def result(self, num):
-- 
2.43.0


From 22b74bfbc66a28923def9b5fa8e8795a7329d644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:19 +0000
Subject: [PATCH 058/103] fix: Cache accepts an empty source

---
 acoular/process.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/acoular/process.py b/acoular/process.py
index efce8a4..bf83b89 100644
--- a/acoular/process.py
+++ b/acoular/process.py
@@ -276,7 +276,8 @@ class Cache(InOut):
             self.h5f.append_data(ac, data)
             self.h5f.flush()
             yield data
-        self.h5f.set_node_attribute(ac, 'complete', True)
+        if self.h5f.is_cached(nodename):  # not if the source is empty
+            self.h5f.set_node_attribute(ac, 'complete', True)
 
     def _get_data_from_cache(self, num):
         nodename = 'tc_' + self.digest
@@ -306,7 +307,8 @@ class Cache(InOut):
             if j >= nblocks:
                 self.h5f.flush()
                 yield data
-        self.h5f.set_node_attribute(ac, 'complete', True)
+        if self.h5f.is_cached(nodename):  # not if the source is empty
+            self.h5f.set_node_attribute(ac, 'complete', True)
 
     # result generator: delivers input, possibly from cache
     def result(self, num):
-- 
2.43.0


From 53b78f7a2658661f80069014f1a547fc9bb73e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:19 +0000
Subject: [PATCH 059/103] fix: SampleSplitter detects the overflow of buffers
 of individual size

---
 acoular/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/process.py b/acoular/process.py
index bf83b89..b27c9a6 100644
--- a/acoular/process.py
+++ b/acoular/process.py
@@ -527,7 +527,7 @@ class SampleSplitter(InOut):
 
     def _inspect_buffer_levels(self, inspect_objs):
         for obj in inspect_objs:
-            if len(self.block_buffer[obj]) == self.buffer_size:
+            if len(self.block_buffer[obj]) == self.block_buffer[obj].maxlen:
                 if self.buffer_overflow_treatment[obj] == 'error':
                     self._buffer_overflow = True
                 elif self.buffer_overflow_treatment[obj] == 'warning':
-- 
2.43.0


From 985e30bc3762c005427ba052aae41ee7e6e97317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:55 +0000
Subject: [PATCH 060/103] fix: SampleSplitter does not report an overflow if
 there is no further block

---
 acoular/process.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/acoular/process.py b/acoular/process.py
index b27c9a6..1d8a0d0 100644
--- a/acoular/process.py
+++ b/acoular/process.py
@@ -540,8 +540,7 @@ class SampleSplitter(InOut):
         self._source_generator = LockedGenerator(self.source.result(num))
         self._source_generator_exist = True  # indicates full generator
 
-    def _fill_block_buffers(self):
-        next_block = next(self._source_generator)
+    def _fill_block_buffers(self, next_block):
         [self.block_buffer[obj].appendleft(next_block) for obj in self.block_buffer]
 
     @on_trait_change('buffer_size')
@@ -666,12 +665,13 @@ class SampleSplitter(InOut):
             if self.block_buffer[calling_obj]:
                 yield self.block_buffer[calling_obj].pop()
             else:
-                self._inspect_buffer_levels(objs_to_inspect)
                 try:
-                    self._fill_block_buffers()
+                    next_block = next(self._source_generator)
                 except StopIteration:
                     self._source_generator_exist = False
                     return
+                self._inspect_buffer_levels(objs_to_inspect)
+                self._fill_block_buffers(next_block)
         else:
             msg = 'Maximum size of block buffer is reached!'
             raise OSError(msg)
-- 
2.43.0


From 09cd3459cd89b1f51f5b996fc2ecb2a7407a50d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:55 +0000
Subject: [PATCH 061/103] fix: SampleSplitter keeps the order of blocks for
 objects in several threads

---
 acoular/process.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/acoular/process.py b/acoular/process.py
index 1d8a0d0..ef29d7b 100644
--- a/acoular/process.py
+++ b/acoular/process.py
@@ -498,6 +498,12 @@ class SampleSplitter(InOut):
     # Helper Trait holds source generator
     _source_generator = Instance(LockedGenerator)
 
+    # The blocks are distributed in the order of the source, also with several threads.
+    _lock = Any(transient=True)
+
+    def __lock_default(self):
+        return threading.RLock()
+
     def _create_block_buffer(self, obj, buffer_size=None):
         if buffer_size is None:
             buffer_size = self.buffer_size if isinstance(self.buffer_size, int) else self.buffer_size[obj]
@@ -658,20 +664,24 @@ class SampleSplitter(InOut):
         self._assert_obj_registered(calling_obj)
         objs_to_inspect = self._get_objs_to_inspect()
 
-        if not self._source_generator_exist:
-            self._create_source_generator(num)
+        with self._lock:
+            if not self._source_generator_exist:
+                self._create_source_generator(num)
 
         while not self._buffer_overflow:
             if self.block_buffer[calling_obj]:
                 yield self.block_buffer[calling_obj].pop()
             else:
-                try:
-                    next_block = next(self._source_generator)
-                except StopIteration:
-                    self._source_generator_exist = False
-                    return
-                self._inspect_buffer_levels(objs_to_inspect)
-                self._fill_block_buffers(next_block)
+                with self._lock:
+                    if self.block_buffer[calling_obj]:
+                        continue  # filled by another object in the meantime
+                    try:
+                        next_block = next(self._source_generator)
+                    except StopIteration:
+                        self._source_generator_exist = False
+                        return
+                    self._inspect_buffer_levels(objs_to_inspect)
+                    self._fill_block_buffers(next_block)
         else:
             msg = 'Maximum size of block buffer is reached!'
             raise OSError(msg)
-- 
2.43.0


From bfad73cac46e08b6baac42347db9e7067e687b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:09 +0000
Subject: [PATCH 062/103] fix: buffer size of SampleSplitter can be changed
 with several registered objects

---
 acoular/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/process.py b/acoular/process.py
index ef29d7b..14c2090 100644
--- a/acoular/process.py
+++ b/acoular/process.py
@@ -551,7 +551,7 @@ class SampleSplitter(InOut):
 
     @on_trait_change('buffer_size')
     def _change_buffer_size(self):  #
-        for obj in self.block_buffer:
+        for obj in list(self.block_buffer):
             self._remove_block_buffer(obj)
             self._create_block_buffer(obj)
 
-- 
2.43.0


From 677e0f550138fb74ba56e5adcf33587db53061d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:10 +0000
Subject: [PATCH 063/103] fix: SamplesBuffer accepts blocks of the size of the
 buffer

---
 acoular/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/process.py b/acoular/process.py
index 14c2090..33dc079 100644
--- a/acoular/process.py
+++ b/acoular/process.py
@@ -844,7 +844,7 @@ class SamplesBuffer(InOut):
 
     def _write_to_buffer(self, data):
         ns = data.shape[0]
-        self._buffer[0 : (self.length - ns)] = self._buffer[-(self.length - ns) :]
+        self._buffer[0 : (self.length - ns)] = self._buffer[ns:]
         self._buffer[-ns:, :] = data.astype(self.dtype)
         self._index -= ns
 
-- 
2.43.0


From 4d305babd240b107da4c3f750f858d73efb84a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:10 +0000
Subject: [PATCH 064/103] fix: blocks of SamplesBuffer are not overwritten by
 the following ones

---
 acoular/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/process.py b/acoular/process.py
index 33dc079..bf348dd 100644
--- a/acoular/process.py
+++ b/acoular/process.py
@@ -896,7 +896,7 @@ class SamplesBuffer(InOut):
         """
         rnum = num if self.result_num is None else self.result_num
         rnum = rnum if self.level >= rnum else self.level
-        data = self._buffer[self._index : self._index + rnum]
+        data = self._buffer[self._index : self._index + rnum].copy()
         if self.shift_index_by == 'result_num':
             self._index += rnum
         else:
-- 
2.43.0


From 0d5a3f4239810d415ba798f836d56a301095d81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:10 +0000
Subject: [PATCH 065/103] fix: SamplesBuffer delivers complete windows for
 every length of the buffer

---
 acoular/process.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/acoular/process.py b/acoular/process.py
index bf348dd..72092b3 100644
--- a/acoular/process.py
+++ b/acoular/process.py
@@ -903,7 +903,7 @@ class SamplesBuffer(InOut):
             self._index += num
         return data
 
-    def fill_buffer(self, snum):
+    def fill_buffer(self, snum, num=None):
         """
         Fill the buffer with samples from the source.
 
@@ -917,6 +917,8 @@ class SamplesBuffer(InOut):
         ----------
         snum : :class:`int`
             The number of samples to retrieve from the source in each iteration.
+        num : :class:`int`, optional
+            The number of samples that are needed if :attr:`result_num` is not set.
 
         Yields
         ------
@@ -933,10 +935,10 @@ class SamplesBuffer(InOut):
         """
         source_generator = self.source.result(snum)
         while not self._empty_source:
-            while self._index >= snum:
-                if self.result_num is not None:
-                    while self.result_num > self.length:
-                        self.increase_buffer(snum)
+            rnum = (num or 0) if self.result_num is None else self.result_num
+            while self._index >= snum or self.level < rnum:
+                if self._index < snum:  # no space for the samples that are still needed
+                    self.increase_buffer(snum)
                 try:
                     self._write_to_buffer(next(source_generator))
                 except StopIteration:
@@ -978,7 +980,7 @@ class SamplesBuffer(InOut):
         snum = num
         if self.source_num is not None:
             snum = self.source_num
-        for _ in self.fill_buffer(snum):
+        for _ in self.fill_buffer(snum, num):
             if self.level > 0:
                 yield self.read_from_buffer(num)
             else:
-- 
2.43.0


From 1cf782814ccca44d9fac4d9c5f1f1937b0031d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:11 +0000
Subject: [PATCH 066/103] fix: cache file of an object can change

---
 acoular/h5cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/h5cache.py b/acoular/h5cache.py
index c073543..dd3385f 100644
--- a/acoular/h5cache.py
+++ b/acoular/h5cache.py
@@ -95,7 +95,7 @@ class HDF5Cache(HasStrictTraits):
             if Path(obj.h5f.filename).resolve() == filename:
                 self.busy = False
                 return
-            self._decrease_file_reference_counter(obj.h5f.filename)
+            self._decrease_file_reference_counter(Path(obj.h5f.filename).resolve())
 
         if filename not in self.open_files:  # or tables.file._open_files.filenames
             if config.global_caching == 'readonly':
-- 
2.43.0


From 392507be90e8106f1584aec69542426bb85c26ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:11 +0000
Subject: [PATCH 067/103] fix: end time zero of a trajectory is not replaced by
 the last time

---
 acoular/trajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/trajectory.py b/acoular/trajectory.py
index fca6b6f..594249d 100644
--- a/acoular/trajectory.py
+++ b/acoular/trajectory.py
@@ -190,7 +190,7 @@ class Trajectory(HasStrictTraits):
         if not delta_t:
             delta_t = t_start
             t_start, t_end = self.interval
-        if not t_end:
+        if t_end is None:
             t_end = self.interval[1]
         # all locations are fetched in one go because that is much faster further improvement could
         # be possible if interpolated locations are fetched in blocks
-- 
2.43.0


From 04f7aa09927b4c5451c0e5379ab78b372d7d6210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:06 +0000
Subject: [PATCH 068/103] fix: time beamformer does not fail for the last
 samples of its source

---
 acoular/tbeamform.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/acoular/tbeamform.py b/acoular/tbeamform.py
index 34daa16..02a1938 100644
--- a/acoular/tbeamform.py
+++ b/acoular/tbeamform.py
@@ -174,6 +174,8 @@ class BeamformerTime(TimeOut):
             p_res *= weights
             if p_res.shape[0] < buffer.result_num:  # last block shorter
                 num = p_res.shape[0] - max_sample_delay
+                if num <= 0:  # no complete samples left
+                    break
                 n_index = arange(0, num + 1)[:, newaxis]
             # init step
             Phi, autopow = self._delay_and_sum(num, p_res, d_interp2, d_index, amp)
-- 
2.43.0


From 3c8b583abc488b381f1b4e7e067865831f9cf378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:06 +0000
Subject: [PATCH 069/103] fix: moving grid time beamformer delivers the same
 samples for all block sizes

---
 acoular/tbeamform.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/acoular/tbeamform.py b/acoular/tbeamform.py
index 02a1938..93b79e0 100644
--- a/acoular/tbeamform.py
+++ b/acoular/tbeamform.py
@@ -429,9 +429,12 @@ class BeamformerTimeTraj(BeamformerTime):
             except StopIteration:
                 break
             if time_block.shape[0] < buffer.result_num:  # last block shorter
-                num = sum((d_index.max((1, 2)) + 1 + arange(0, num)) < time_block.shape[0])
+                num_avail = sum((d_index.max((1, 2)) + 1 + arange(0, num)) < time_block.shape[0])
+                if num_avail == 0:  # no complete samples left
+                    break
+                flag = num_avail == num  # there may be more samples available for the next block
+                num = num_avail
                 n_index = arange(num, dtype=idtype)[:, newaxis]
-                flag = False
             # init step
             p_res = time_block.copy()
             Phi, autopow = self._delay_and_sum(num, p_res, d_interp2, d_index, amp)
-- 
2.43.0


From b8d3eaddfb2061b973fc1ccf7c47f3657cefebb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:06 +0000
Subject: [PATCH 070/103] fix: moving grid time beamformer stops at the end of
 the trajectory

---
 acoular/tbeamform.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/acoular/tbeamform.py b/acoular/tbeamform.py
index 93b79e0..1b2bc0b 100644
--- a/acoular/tbeamform.py
+++ b/acoular/tbeamform.py
@@ -408,13 +408,26 @@ class BeamformerTimeTraj(BeamformerTime):
         buffered_result = buffer.result(num)
         while flag:
             for i in range(num):
-                tpos = next(movgpos).astype(fdtype)
+                tpos = next(movgpos, None)
+                if tpos is None:  # end of the trajectory
+                    break
+                tpos = tpos.astype(fdtype)
                 rm = self.steer.env._r(tpos, mpos)  # .astype(fdtype)
                 blockr0[i, :] = self.get_r0(tpos)
                 blockrm[i, :, :] = rm
                 if self.conv_amp:
                     ht = next(movgspeed)
                     blockrmconv[i, :, :] = rm * (1 - self._get_macostheta(ht, tpos, rm)) ** 2
+            else:
+                i = num
+            if i < num:  # only the samples up to the end of the trajectory can be processed
+                num = i
+                if num == 0:
+                    break
+                flag = False
+                n_index = arange(num, dtype=idtype)[:, newaxis]
+                blockrm, blockrmconv, amp = blockrm[:num], blockrmconv[:num], amp[:num]
+                d_index, d_interp2, blockr0 = d_index[:num], d_interp2[:num], blockr0[:num]
             if self.conv_amp:
                 steer_func(blockrmconv, blockr0, amp)
             else:
@@ -432,7 +445,7 @@ class BeamformerTimeTraj(BeamformerTime):
                 num_avail = sum((d_index.max((1, 2)) + 1 + arange(0, num)) < time_block.shape[0])
                 if num_avail == 0:  # no complete samples left
                     break
-                flag = num_avail == num  # there may be more samples available for the next block
+                flag = flag and num_avail == num  # there may be more samples available for the next block
                 num = num_avail
                 n_index = arange(num, dtype=idtype)[:, newaxis]
             # init step
-- 
2.43.0


From 642fdd35672187b6d577fc04dc58411120a3c12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:06 +0000
Subject: [PATCH 071/103] fix: reference position of the steering vector is
 used for the moving grid

---
 acoular/tbeamform.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/acoular/tbeamform.py b/acoular/tbeamform.py
index 1b2bc0b..cfaddc6 100644
--- a/acoular/tbeamform.py
+++ b/acoular/tbeamform.py
@@ -353,7 +353,9 @@ class BeamformerTimeTraj(BeamformerTime):
     def get_r0(self, tpos):
         if isscalar(self.steer.ref) and self.steer.ref > 0:
             return self.steer.ref  # full((self.steer.grid.size,), self.steer.ref)
-        return self.steer.env._r(tpos)
+        if isscalar(self.steer.ref):
+            return self.steer.env._r(tpos)
+        return self.steer.env._r(tpos, self.steer.ref[:, newaxis]).reshape(-1)
 
     def result(self, num=2048):
         """Python generator that yields the time-domain beamformer output.
-- 
2.43.0


From 3c4272d5378bc638d4a5624aa736bfaded3adbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:56 +0000
Subject: [PATCH 072/103] fix: rotation angle follows the triggers for several
 triggers per revolution and varying speed

---
 acoular/tprocess.py | 33 +++++++--------------------------
 1 file changed, 7 insertions(+), 26 deletions(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index cdbc57e..1630aa7 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -46,7 +46,6 @@ from numpy import (
     argsort,
     array,
     array_equal,
-    asarray,
     ceil,
     concatenate,
     cumsum,
@@ -567,11 +566,6 @@ class AngleTracker(MaskedTimeOut):
     def _get_digest(self):
         return digest(self)
 
-    # helperfunction for trigger index detection
-    def _find_nearest_idx(self, peakarray, value):
-        peakarray = asarray(peakarray)
-        return (abs(peakarray - value)).argmin()
-
     def _to_rpm_and_angle(self):
         """Internal helper function
         Calculates angles in radians for one or more instants in time.
@@ -594,26 +588,13 @@ class AngleTracker(MaskedTimeOut):
 
         # loop over all timesamples
         while ind < num:
-            # when starting spline forward
-            if ind < peakloc[InterpPoints]:
-                peakdist = (
-                    peakloc[self._find_nearest_idx(peakarray=peakloc, value=ind) + 1]
-                    - peakloc[self._find_nearest_idx(peakarray=peakloc, value=ind)]
-                )
-                splineData = stack(
-                    (range(InterpPoints), peakloc[ind // peakdist : ind // peakdist + InterpPoints]),
-                    axis=0,
-                )
-            # spline backwards
-            else:
-                peakdist = (
-                    peakloc[self._find_nearest_idx(peakarray=peakloc, value=ind)]
-                    - peakloc[self._find_nearest_idx(peakarray=peakloc, value=ind) - 1]
-                )
-                splineData = stack(
-                    (range(InterpPoints), peakloc[ind // peakdist - InterpPoints : ind // peakdist]),
-                    axis=0,
-                )
+            # support points of the spline are the trigger positions around the current sample
+            first = int((peakloc <= ind).sum()) - InterpPoints // 2
+            first = max(min(first, len(peakloc) - InterpPoints), 0)
+            splineData = stack(
+                (arange(first, first + InterpPoints), peakloc[first : first + InterpPoints]),
+                axis=0,
+            )
             # calc angles and rpm
             Spline = splrep(splineData[:, :][1], splineData[:, :][0], k=3)
             self._rpm[ind] = splev(ind, Spline, der=1, ext=0) * 60 * samplerate
-- 
2.43.0


From 2731e538c5865240f7fddabf6a09864088e92869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:56 +0000
Subject: [PATCH 073/103] fix: virtual microphones are transformed like the
 real ones in all array dimensions

---
 acoular/tprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 1630aa7..9add55c 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -809,7 +809,7 @@ class SpatialInterpolator(TimeOut):  # pragma: no cover
             newCoord = (cartToCyl(mpos, self.Q).T)[indReorderHelp].T
 
             # and for virtual mics
-            virtNewCoord = cartToCyl(mpos_virt)
+            virtNewCoord = cartToCyl(mpos_virt, self.Q)
 
         elif self.array_dimension == '2D':  # 2d case0
             # get virtual mic projections on new coord system
-- 
2.43.0


From 9f88666e9e82260edad2c03a7f86753d7e3198c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:06 +0000
Subject: [PATCH 074/103] fix: start of data acquisition is not counted twice
 for moving sources

---
 acoular/sources.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index bd2b798..384e468 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -1198,7 +1198,7 @@ class MovingPointSource(PointSource):
                 j += 1  # iteration count
             t += 1.0 / self.sample_freq
             # emission time relative to start time
-            ind = (te - self.start_t + self.start) * self.sample_freq
+            ind = (te - self.start_t) * self.sample_freq
             if self.conv_amp:
                 rm *= (1 - Mr) ** 2
             try:
@@ -1565,7 +1565,7 @@ class MovingPointSourceDipole(PointSourceDipole, MovingPointSource):
             rm1 = self.env._r(loc + diff, mpos)
             rm2 = self.env._r(loc - diff, mpos)
 
-            ind = (te - self.start_t + self.start) * self.sample_freq
+            ind = (te - self.start_t) * self.sample_freq
             if self.conv_amp:
                 rm *= (1 - Mr) ** 2
                 rm1 *= (1 - Mr) ** 2  # assume that Mr is the same for both poles
@@ -1951,7 +1951,7 @@ class MovingLineSource(LineSource, MovingPointSource):
                 loc = array(self.trajectory.location(te), dtype=float)[:, 0][:, newaxis]
                 diff = self.get_moving_direction(dir2, te)
                 rms[:, s] = self.env._r((loc + diff * s), mpos)
-                inds[:, s] = (te - self.start_t + self.start) * self.sample_freq
+                inds[:, s] = (te - self.start_t) * self.sample_freq
 
                 if self.conv_amp:
                     rms[:, s] *= (1 - Mr) ** 2  # assume that Mr is the same
-- 
2.43.0


From df2fdbf854567f0f2798f755044b07700d5c7132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:38 +0000
Subject: [PATCH 075/103] fix: moving line source starts at the start time

---
 acoular/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index 384e468..cb106e2 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -1940,7 +1940,6 @@ class MovingLineSource(LineSource, MovingPointSource):
         n = self.num_samples
         while n:
             n -= 1
-            t += 1.0 / self.sample_freq
             te1, rm1, Mr1, locs1 = self.get_emission_time(t, 0)
             # trajg1 = array(self.trajectory.location( te1, der=1))[:,0][:,newaxis]
 
@@ -1955,6 +1954,7 @@ class MovingLineSource(LineSource, MovingPointSource):
 
                 if self.conv_amp:
                     rms[:, s] *= (1 - Mr) ** 2  # assume that Mr is the same
+            t += 1.0 / self.sample_freq
             try:
                 # subtract the second signal b/c of phase inversion
                 for s in range(self.num_sources):
-- 
2.43.0


From 6d95489d17e436bf44e3f4a1ea1716e5d12f4d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:29 +0000
Subject: [PATCH 076/103] fix: moving line source uses the distance at the time
 of emission to each microphone

---
 acoular/sources.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index cb106e2..371151b 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -1906,7 +1906,6 @@ class MovingLineSource(LineSource, MovingPointSource):
         """
         # If signal samples are needed for te < t_start, then samples are taken
         # from the end of the calculated signal.
-        mpos = self.mics.pos
 
         # direction vector from tuple
         direc = array(self.direction, dtype=float)
@@ -1931,7 +1930,6 @@ class MovingLineSource(LineSource, MovingPointSource):
             if self.coherence == 'incoherent':
                 sub_signal.seed = s + int(self.digest[1:6], 16)
             signals[s] = self.source_strength[s] * sub_signal.usignal(self.up)
-        mpos = self.mics.pos
 
         # shortcuts and initial values
         m = self.mics
@@ -1947,9 +1945,7 @@ class MovingLineSource(LineSource, MovingPointSource):
             for s in range(self.num_sources):
                 diff = self.get_moving_direction(dir2, te1)
                 te, rm, Mr, locs = self.get_emission_time(t, tile((diff * s).T, (self.num_channels, 1)).T)
-                loc = array(self.trajectory.location(te), dtype=float)[:, 0][:, newaxis]
-                diff = self.get_moving_direction(dir2, te)
-                rms[:, s] = self.env._r((loc + diff * s), mpos)
+                rms[:, s] = rm  # distance at the time of emission to each microphone
                 inds[:, s] = (te - self.start_t) * self.sample_freq
 
                 if self.conv_amp:
-- 
2.43.0


From b2020a1fa2b3f2c275a0008cb3aef56b0f1c19f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:11 +0000
Subject: [PATCH 077/103] fix: spatial power weighting of the time beamformers
 can be used

---
 acoular/tbeamform.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/acoular/tbeamform.py b/acoular/tbeamform.py
index cfaddc6..6e5aa3b 100644
--- a/acoular/tbeamform.py
+++ b/acoular/tbeamform.py
@@ -34,6 +34,7 @@ from numpy import (
     interp,
     isscalar,
     newaxis,
+    ones,
     r_,
     s_,
     sqrt,
@@ -73,10 +74,12 @@ def const_power_weight(bf):
     array of floats
         The weight factors.
     """
-    r = bf.steer.env._r(zeros((3, 1)), bf.steer.mics.pos)  # distances to center
+    r = bf.steer.env._r(zeros((3, 1)), bf.steer.mics.pos).ravel()  # distances to center
     # round the relative distances to one decimal place
     r = (r / r.max()).round(decimals=1)
     ru, ind = unique(r, return_inverse=True)
+    if ru.size == 1:  # all microphones have the same distance to the center
+        return ones(r.shape)
     ru = (ru[1:] + ru[:-1]) / 2
     count, bins = histogram(r, r_[0, ru, 1.5 * r.max() - 0.5 * ru[-1]])
     bins *= bins
-- 
2.43.0


From c07efc7a6daca0874020e03135ccc97c4cd24ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:17 +0000
Subject: [PATCH 078/103] fix: circle and polygon sectors may contain the last
 points of a RectGrid

---
 acoular/grids.py | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/acoular/grids.py b/acoular/grids.py
index f653f05..1b5259b 100644
--- a/acoular/grids.py
+++ b/acoular/grids.py
@@ -506,25 +506,17 @@ class RectGrid(Grid):
         """
         if len(r) == 3:  # only 3 values given -> use x,y,radius method
             xpos = self.pos
-            xis = []
-            yis = []
             dr2 = (xpos[0, :] - r[0]) ** 2 + (xpos[1, :] - r[1]) ** 2
             # array with true/false entries
             inds = dr2 <= r[2] ** 2
-            for np in arange(self.size)[inds]:  # np -- points in x2-circle
-                xi, yi = self.index(xpos[0, np], xpos[1, np])
-                xis += [xi]
-                yis += [yi]
-            if not (xis and yis):  # if no points in circle, take nearest one
+            if not inds.any():  # if no points in circle, take nearest one
                 return self.index(r[0], r[1])
-            return array(xis), array(yis)
+            return divmod(arange(self.size)[inds], self.nysteps)
         if len(r) == 4:  # rectangular subdomain - old functionality
             xi1, yi1 = self.index(min(r[0], r[2]), min(r[1], r[3]))
             xi2, yi2 = self.index(max(r[0], r[2]), max(r[1], r[3]))
             return s_[xi1 : xi2 + 1], s_[yi1 : yi2 + 1]
         xpos = self.pos
-        xis = []
-        yis = []
         # replaced matplotlib Path by numpy
         # p = Path(array(r).reshape(-1,2))
         # inds = p.contains_points()
@@ -532,14 +524,10 @@ class RectGrid(Grid):
         poly = Polygon(array(r).reshape(-1, 2)[:, 0], array(r).reshape(-1, 2)[:, 1])
         dists = poly.is_inside(xpos[0, :], xpos[1, :])
         inds = dists >= 0
-        for np in arange(self.size)[inds]:  # np -- points in x2-circle
-            xi, yi = self.index(xpos[0, np], xpos[1, np])
-            xis += [xi]
-            yis += [yi]
-        if not (xis and yis):  # if no points inside, take nearest to center
+        if not inds.any():  # if no points inside, take nearest to center
             center = array(r).reshape(-1, 2).mean(0)
             return self.index(center[0], center[1])
-        return array(xis), array(yis)
+        return divmod(arange(self.size)[inds], self.nysteps)
         # return arange(self.size)[inds]
 
     def extend(self):
-- 
2.43.0


From 3b13e9e68fc3724965837699ef13e254ce0f2eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:21 +0000
Subject: [PATCH 079/103] fix: consumer of a SampleSplitter that starts late
 gets the stream once

---
 acoular/process.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acoular/process.py b/acoular/process.py
index 72092b3..c9998da 100644
--- a/acoular/process.py
+++ b/acoular/process.py
@@ -665,7 +665,8 @@ class SampleSplitter(InOut):
         objs_to_inspect = self._get_objs_to_inspect()
 
         with self._lock:
-            if not self._source_generator_exist:
+            # blocks not read before the source was exhausted are delivered first
+            if not self._source_generator_exist and not self.block_buffer[calling_obj]:
                 self._create_source_generator(num)
 
         while not self._buffer_overflow:
-- 
2.43.0


From 3b2b02d2bdf3306571a3a7625a4c8cdb7db49453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:18 +0000
Subject: [PATCH 080/103] fix: exported microphone geometry is valid XML for
 every file name

---
 acoular/microphones.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acoular/microphones.py b/acoular/microphones.py
index 713e804..daffb49 100644
--- a/acoular/microphones.py
+++ b/acoular/microphones.py
@@ -13,6 +13,7 @@ Implements support for array microphone arrangements.
 # imports from other packages
 import xml.dom.minidom
 from pathlib import Path
+from xml.sax.saxutils import quoteattr
 
 from numpy import array, average
 from scipy.spatial.distance import cdist
@@ -254,7 +255,7 @@ class MicGeom(HasStrictTraits):
         filepath = Path(filename)
         basename = filepath.stem
         with filepath.open('w', encoding='utf-8') as f:
-            f.write(f'<?xml version="1.1" encoding="utf-8"?><MicArray name="{basename}">\n')
+            f.write(f'<?xml version="1.1" encoding="utf-8"?><MicArray name={quoteattr(basename)}>\n')
             for i in range(self.pos.shape[-1]):
                 f.write(
                     f'  <pos Name="Point {i+1}" x="{self.pos[0, i]}" y="{self.pos[1, i]}" z="{self.pos[2, i]}"/>\n',
-- 
2.43.0


From 4b341455020a6ee644ba4303c91038d6fd4e206c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:18 +0000
Subject: [PATCH 081/103] fix: point spread functions for grid indices in any
 order work with h5py caches

---
 acoular/fbeamform.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 2e04e2e..31e0579 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -1056,6 +1056,8 @@ class PointSpreadFunction(HasStrictTraits):
         """
         gs = self.steer.grid.size
         grid_indices = self._get_ind()
+        # h5py datasets accept only increasing indices without duplicates
+        sel, inv = unique(grid_indices, return_inverse=True)
 
         if config.global_caching != 'none':
             #            print("get filecache..")
@@ -1070,13 +1072,13 @@ class PointSpreadFunction(HasStrictTraits):
                     if config.global_caching == 'readonly':
                         (ac, gp) = (ac[:], gp[:])
                         self.calc_psf(ac, gp)
-                        return ac[:, grid_indices]
+                        return ac[:, sel][:, inv]
                     self.calc_psf(ac, gp)
                     self.h5f.flush()
-                    return ac[:, grid_indices]
+                    return ac[:, sel][:, inv]
                 #                else:
                 #                    print("cached results are complete! return.")
-                return ac[:, grid_indices]
+                return ac[:, sel][:, inv]
             #           print("no caching, calculate result")
             ac = zeros((gs, gs), dtype=self.precision)
             gp = zeros((gs,), dtype='int8')
@@ -1086,7 +1088,7 @@ class PointSpreadFunction(HasStrictTraits):
             ac = zeros((gs, gs), dtype=self.precision)
             gp = zeros((gs,), dtype='int8')
             self.calc_psf(ac, gp)
-        return ac[:, grid_indices]
+        return ac[:, sel][:, inv]
 
     def calc_psf(self, ac, gp):
         """point-spread function calculation."""
-- 
2.43.0


From 1d55d2da4230c0793b166b25ba25da9cadaf72c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:18 +0000
Subject: [PATCH 082/103] fix: readonly caching does not write into incomplete
 spectra caches

---
 acoular/spectra.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/acoular/spectra.py b/acoular/spectra.py
index ecb1e26..2f19803 100644
--- a/acoular/spectra.py
+++ b/acoular/spectra.py
@@ -522,6 +522,8 @@ class PowerSpectra(BaseSpectra):
 
         ac = self.h5f.get_data_by_reference(nodename)
         if ac[:].sum() == 0:  # only initialized
+            if config.global_caching == 'readonly':
+                return func()
             #            print("write {} to:".format(traitname),nodename)
             ac[:] = func()
             self.h5f.flush()
-- 
2.43.0


From aa99be11adb41e7e416fa708c2a19ddb9bc160b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:50 +0000
Subject: [PATCH 083/103] fix: identifier of MergeGrid is the same for equal
 grids

---
 acoular/grids.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/grids.py b/acoular/grids.py
index 1b5259b..8026fd9 100644
--- a/acoular/grids.py
+++ b/acoular/grids.py
@@ -1041,7 +1041,7 @@ class MergeGrid(Grid):
     subgrids = Property(desc='names of subgrids for each point')
 
     #: A unique identifier for the grid, based on its properties. (read-only)
-    digest = Property(depends_on=['grids', 'grid_digest'])
+    digest = Property(depends_on=['grid_digest'])
 
     @cached_property
     def _get_digest(self):
-- 
2.43.0


From 7b65635925b3a2b896223bbab38ed1307ce3df56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:50 +0000
Subject: [PATCH 084/103] fix: IntegratorSectorTime follows changes of the list
 of sectors

---
 acoular/tbeamform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acoular/tbeamform.py b/acoular/tbeamform.py
index 6e5aa3b..006adf5 100644
--- a/acoular/tbeamform.py
+++ b/acoular/tbeamform.py
@@ -788,11 +788,11 @@ class IntegratorSectorTime(TimeOut):
     clip = Float(-350.0)
 
     #: Number of channels in output (= number of sectors).
-    num_channels = Property(depends_on=['sectors'])
+    num_channels = Property(depends_on=['sectors[]'])
 
     # internal identifier
     digest = Property(
-        depends_on=['sectors', 'clip', 'grid.digest', 'source.digest'],
+        depends_on=['sectors[]', 'clip', 'grid.digest', 'source.digest'],
     )
 
     @cached_property
-- 
2.43.0


From f37c5f20e78fdb69b47f5702619e3bc8715a9680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:50 +0000
Subject: [PATCH 085/103] fix: blocks of IntegratorSectorTime are not
 overwritten by later ones

---
 acoular/tbeamform.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/acoular/tbeamform.py b/acoular/tbeamform.py
index 006adf5..5d11e22 100644
--- a/acoular/tbeamform.py
+++ b/acoular/tbeamform.py
@@ -821,15 +821,15 @@ class IntegratorSectorTime(TimeOut):
         """
         inds = [self.grid.indices(*sector) for sector in self.sectors]
         gshape = self.grid.shape
-        o = empty((num, self.num_channels), dtype=float)  # output array
         for r in self.source.result(num):
             ns = r.shape[0]
+            o = empty((ns, self.num_channels), dtype=float)  # output array
             mapshape = (ns,) + gshape
             rmax = r.max()
             rmin = rmax * 10 ** (self.clip / 10.0)
             r = where(r > rmin, r, 0.0)
             for i, ind in enumerate(inds):
                 h = r[:].reshape(mapshape)[(s_[:],) + ind]
-                o[:ns, i] = h.reshape(h.shape[0], -1).sum(axis=1)
+                o[:, i] = h.reshape(h.shape[0], -1).sum(axis=1)
                 i += 1
-            yield o[:ns]
+            yield o
-- 
2.43.0


From 34f515c56dc52b42d076d67200b891915e392853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:50 +0000
Subject: [PATCH 086/103] fix: blocks of RFFT are not overwritten by later ones

---
 acoular/fprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/fprocess.py b/acoular/fprocess.py
index 242a2be..b41b269 100644
--- a/acoular/fprocess.py
+++ b/acoular/fprocess.py
@@ -165,7 +165,7 @@ class RFFT(BaseSpectra, SpectraOut):
                 scaling_value=svalue,
             ).reshape(-1)
             if j == num - 1:
-                yield fftdata
+                yield fftdata.copy()
         if j < num - 1:  # yield remaining fft spectra
             yield fftdata[: j + 1]
 
-- 
2.43.0


From d3217436a80531a3789459ced7cf348a2cc81004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:07 +0000
Subject: [PATCH 087/103] fix: identifier of BeamformerDamasPlus depends on the
 precision of the PSF

---
 acoular/fbeamform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 31e0579..9e22dac 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -1278,7 +1278,7 @@ class BeamformerDamasPlus(BeamformerDamas):
 
     # internal identifier
     digest = Property(
-        depends_on=BEAMFORMER_BASE_DIGEST_DEPENDENCIES + ['alpha', 'method', 'n_iter', 'unit_mult'],
+        depends_on=BEAMFORMER_BASE_DIGEST_DEPENDENCIES + ['alpha', 'method', 'n_iter', 'unit_mult', 'psf_precision'],
     )
 
     @cached_property
-- 
2.43.0


From 7c157fd25d1b97807e18fef2ae3eeae3c476c026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:44 +0000
Subject: [PATCH 088/103] fix: identifier of SteeringVector for inverse methods
 does not contain outdated settings

---
 acoular/fbeamform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 9e22dac..5c20f1d 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -219,7 +219,7 @@ class SteeringVector(HasStrictTraits):
 
     @cached_property
     def _get_inv_digest(self):
-        return digest(self)
+        return digest(self, 'inv_digest')
 
     def transfer(self, f, ind=None):
         """Calculates the transfer matrix for one frequency.
-- 
2.43.0


From dfd8c1512cf4924aab45a9d713a50557ff5d6244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:22 +0000
Subject: [PATCH 089/103] fix: default values and equal values set later give
 the same identifier

---
 acoular/fbeamform.py | 4 ++--
 acoular/grids.py     | 2 +-
 acoular/sources.py   | 6 +++---
 acoular/spectra.py   | 4 ++--
 acoular/tbeamform.py | 2 +-
 acoular/tprocess.py  | 4 ++--
 6 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 5c20f1d..878eeb4 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -703,7 +703,7 @@ class BeamformerFunctional(BeamformerBase):
     """
 
     #: Functional exponent, defaults to 1 (= Classic Beamforming).
-    gamma = Float(1, desc='functional exponent')
+    gamma = Float(1.0, desc='functional exponent')
 
     #: Functional Beamforming is only well defined for full CSM
     r_diag = Enum(False, desc='False, as Functional Beamformer is only well defined for the full CSM')
@@ -2103,7 +2103,7 @@ class BeamformerGIB(BeamformerEig):  # BeamformerEig #BeamformerBase
 
     #: Norm to consider for the regularization in InverseIRLS and Suzuki methods
     #: defaults to L-1 Norm
-    pnorm = Float(1, desc='Norm for regularization')
+    pnorm = Float(1.0, desc='Norm for regularization')
 
     #: Beta - Fraction of sources maintained after each iteration
     #: defaults to 0.9
diff --git a/acoular/grids.py b/acoular/grids.py
index 8026fd9..779cd23 100644
--- a/acoular/grids.py
+++ b/acoular/grids.py
@@ -958,7 +958,7 @@ class LineGrid(Grid):
     direction = Tuple((1.0, 0.0, 0.0), desc='Line orientation ')
 
     #: Total length of the line. Default is ``1.0``.
-    length = Float(1, desc='length of the line source')
+    length = Float(1.0, desc='length of the line source')
 
     #: Number of grid points along the line. Default is ``1``.
     num_points = Int(1, desc='length of the line source')
diff --git a/acoular/sources.py b/acoular/sources.py
index 371151b..3efa31f 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -1401,7 +1401,7 @@ class MovingPointSourceDipole(PointSourceDipole, MovingPointSource):
     #: A reference vector, perpendicular to the x and y-axis of moving source, defining the axis of
     #: rotation for the dipole directivity. If set to ``(0, 0, 0)``, the dipole is only translated
     #: along the :attr:`~MovingPointSource.trajectory` without rotation. Default is ``(0, 0, 0)``.
-    rvec = CArray(dtype=float, shape=(3,), value=array((0, 0, 0)), desc='reference vector')
+    rvec = CArray(dtype=float, shape=(3,), value=array((0.0, 0.0, 0.0)), desc='reference vector')
 
     @cached_property
     def _get_digest(self):
@@ -1619,7 +1619,7 @@ class LineSource(PointSource):
     direction = Tuple((0.0, 0.0, 1.0), desc='Line orientation ')
 
     #: Vector to define the length of the line source in meters. Default is ``1.0``.
-    length = Float(1, desc='length of the line source')
+    length = Float(1.0, desc='length of the line source')
 
     #: Number of monopole sources in the line source. Default is ``1``.
     num_sources = Int(1)
@@ -1774,7 +1774,7 @@ class MovingLineSource(LineSource, MovingPointSource):
     #: rotation for the line source directivity. If set to ``(0, 0, 0)``, the line source is only
     #: translated along the :attr:`~MovingPointSource.trajectory` without rotation. Default is
     #: ``(0, 0, 0)``.
-    rvec = CArray(dtype=float, shape=(3,), value=array((0, 0, 0)), desc='reference vector')
+    rvec = CArray(dtype=float, shape=(3,), value=array((0.0, 0.0, 0.0)), desc='reference vector')
 
     @cached_property
     def _get_digest(self):
diff --git a/acoular/spectra.py b/acoular/spectra.py
index 2f19803..2b24755 100644
--- a/acoular/spectra.py
+++ b/acoular/spectra.py
@@ -233,10 +233,10 @@ class PowerSpectra(BaseSpectra):
     ind_high = Property(_ind_high, desc='index of lowest frequency line')
 
     # Stores the set lower frequency, for internal use, should not be set directly.
-    _freqlc = Float(0)
+    _freqlc = Float(0.0)
 
     # Stores the set higher frequency, for internal use, should not be set directly.
-    _freqhc = Union(Float(0), None)
+    _freqhc = Union(Float(0.0), None)
 
     # Saves whether the user set indices or frequencies last, for internal use only, not to be set
     # directly, if ``True``, indices are used for setting the :attr:`freq_range` interval.
diff --git a/acoular/tbeamform.py b/acoular/tbeamform.py
index 5d11e22..feb1a68 100644
--- a/acoular/tbeamform.py
+++ b/acoular/tbeamform.py
@@ -288,7 +288,7 @@ class BeamformerTimeTraj(BeamformerTime):
     trajectory = Instance(Trajectory, desc='trajectory of the grid center')
 
     #: Reference vector, perpendicular to the y-axis of moving grid.
-    rvec = CArray(dtype=float, shape=(3,), value=array((0, 0, 0)), desc='reference vector')
+    rvec = CArray(dtype=float, shape=(3,), value=array((0.0, 0.0, 0.0)), desc='reference vector')
 
     #: Considering of convective amplification in beamforming formula.
     conv_amp = Bool(False, desc='determines if convective amplification of source is considered')
diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 9add55c..fa6f09a 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -541,7 +541,7 @@ class AngleTracker(MaskedTimeOut):
     interp_points = Int(4, desc='Points of interpolation used for spline')
 
     # rotation angle in radians for first trigger position
-    start_angle = Float(0, desc='rotation angle for trigger position')
+    start_angle = Float(0.0, desc='rotation angle for trigger position')
 
     # revolutions per minute for each sample, read-only
     rpm = Property(depends_on=['digest'], desc='revolutions per minute for each sample')
@@ -706,7 +706,7 @@ class SpatialInterpolator(TimeOut):  # pragma: no cover
     num_IDW = Int(3, desc='number of neighboring microphones, DEFAULT=3')  # noqa: N815
 
     p_weight = Float(
-        2,
+        2.0,
         desc='used in interpolation for virtual microphone, weighting power exponent for IDW',
     )
 
-- 
2.43.0


From 51b273127bb389ef2b4e439688e911648fb7a92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:28 +0000
Subject: [PATCH 090/103] fix: identifier of GeneralFlowEnvironment depends on
 the region of interest

---
 acoular/environments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/environments.py b/acoular/environments.py
index 4410cc1..85a1df9 100644
--- a/acoular/environments.py
+++ b/acoular/environments.py
@@ -819,7 +819,7 @@ class GeneralFlowEnvironment(Environment):
 
     #: A unique identifier based on the environment properties. (read-only)
     digest = Property(
-        depends_on=['c', 'ff.digest', 'N', 'Om'],
+        depends_on=['c', 'ff.digest', 'N', 'Om', 'roi'],
     )
 
     #: A dictionary for storing precomputed interpolators to optimize repeated calculations.
-- 
2.43.0


From b03824606481522c3884a2c17827349b6224e621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:58 +0000
Subject: [PATCH 091/103] fix: number of components follows the number of valid
 microphones

BeamformerEig.na and BeamformerGIB.na kept the value of the first read when
microphones were declared invalid afterwards.
---
 acoular/fbeamform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 878eeb4..e4e3206 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -854,7 +854,7 @@ class BeamformerEig(BeamformerBase):
     def _get_digest(self):
         return digest(self)
 
-    @property_depends_on(['steer.mics', 'n'])
+    @property_depends_on(['steer.mics.num_mics', 'n'])
     def _get_na(self):
         na = self.n
         nm = self.steer.mics.num_mics
@@ -2145,7 +2145,7 @@ class BeamformerGIB(BeamformerEig):  # BeamformerEig #BeamformerBase
     def _get_digest(self):
         return digest(self)
 
-    @property_depends_on('n')
+    @property_depends_on(['steer.mics.num_mics', 'n'])
     def _get_na(self):
         na = self.n
         nm = self.steer.mics.num_mics
-- 
2.43.0


From e3ad366b0ff0cd950531b1e0ae06a0efa0450c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:58 +0000
Subject: [PATCH 092/103] fix: time beamformers announce a change of their
 number of channels

Derived quantities of objects that use a time beamformer as source kept the
number of channels of the former grid.
---
 acoular/tbeamform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tbeamform.py b/acoular/tbeamform.py
index feb1a68..c369467 100644
--- a/acoular/tbeamform.py
+++ b/acoular/tbeamform.py
@@ -106,7 +106,7 @@ class BeamformerTime(TimeOut):
     steer = Instance(SteeringVector, args=())
 
     #: Number of channels in output (=number of grid points).
-    num_channels = Property()
+    num_channels = Property(depends_on=['steer.grid.digest'])
 
     #: Spatial weighting function.
     weights = Map(possible_weights, default_value='none', desc='spatial weighting function')
-- 
2.43.0


From 5c23f180dda70dd1842993c06628963ebc1b0972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:58 +0000
Subject: [PATCH 093/103] fix: spatial interpolators announce a change of their
 number of channels

Derived quantities of objects that use an interpolator as source kept the
number of channels of the former virtual array.
---
 acoular/tprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index fa6f09a..dac21d9 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -688,7 +688,7 @@ class SpatialInterpolator(TimeOut):  # pragma: no cover
     sample_freq = Delegate('source', 'sample_freq')
 
     # Number of channels in output.
-    num_channels = Property()
+    num_channels = Property(depends_on=['mics.digest', '_mics_virtual.digest'])
 
     # Number of samples in output, as given by :attr:`source`.
     num_samples = Delegate('source', 'num_samples')
-- 
2.43.0


From 714eca71062bab8eed690ddca185c91a2799aced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:18 +0000
Subject: [PATCH 094/103] fix: filter banks announce a change of their number
 of channels

Derived quantities of objects that use a filter bank as source kept the number
of channels of the former bands.
---
 acoular/tprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index dac21d9..a0560f5 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1667,7 +1667,7 @@ class FilterBank(TimeOut):
     num_bands = Property()
 
     # Number of bands
-    num_channels = Property()
+    num_channels = Property(depends_on=['source.num_channels', 'num_bands'])
 
     @abstractmethod
     def _get_sos(self):
-- 
2.43.0


From 63e63d7fcdd168c7132e403f763cb004d0e07c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:18 +0000
Subject: [PATCH 095/103] fix: gridless orthogonal beamforming follows its
 frequency data and n

size kept the number of frequencies of the former freq_data, and n, which sizes
the result, was not part of the digest.
---
 acoular/fbeamform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index e4e3206..8097c08 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -2381,7 +2381,7 @@ class BeamformerGridlessOrth(BeamformerAdaptiveGrid):
 
     # internal identifier
     digest = Property(
-        depends_on=['freq_data.digest', 'steer.digest', 'precision', 'r_diag', 'eva_list', 'bounds', 'shgo'],
+        depends_on=['freq_data.digest', 'steer.digest', 'precision', 'r_diag', 'eva_list', 'n', 'bounds', 'shgo'],
     )
 
     @cached_property
@@ -2393,7 +2393,7 @@ class BeamformerGridlessOrth(BeamformerAdaptiveGrid):
         """Sets the list of eigenvalues to consider."""
         self.eva_list = arange(-1, -1 - self.n, -1)
 
-    @property_depends_on('n')
+    @property_depends_on(['n', 'freq_data.digest'])
     def _get_size(self):
         return self.n * self.freq_data.fftfreq().shape[0]
 
-- 
2.43.0


From 2d2be88235f4a79df91741f36280ca963f6a5318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:38 +0000
Subject: [PATCH 096/103] fix: eigenvalues of an imported cross-spectral matrix
 follow the precision

The digest of PowerSpectraImport lacked precision, so eva and eve kept the
values (and type) of the former precision.
---
 acoular/spectra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/spectra.py b/acoular/spectra.py
index 2b24755..a589522 100644
--- a/acoular/spectra.py
+++ b/acoular/spectra.py
@@ -662,7 +662,7 @@ class PowerSpectraImport(PowerSpectra):
     _ind_high = Union(None, Int, desc='index of highest frequency line')
 
     #: A unique identifier for the spectra, based on its properties. (read-only)
-    digest = Property(depends_on=['_csmsum', 'frequencies'])
+    digest = Property(depends_on=['_csmsum', 'frequencies', 'precision'])
 
     #: Name of the cache file without extension. (read-only)
     basename = Property(depends_on=['digest'], desc='basename for cache file')
-- 
2.43.0


From 1daa4372b3743104496e4270e4268120f97b4a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:56 +0000
Subject: [PATCH 097/103] fix: identifier of WriteH5 depends on the number of
 samples to write

result() delivers num_samples_write samples, but objects that deliver different
numbers of samples had the same digest.
---
 acoular/tprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index a0560f5..301118b 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1852,7 +1852,7 @@ class WriteH5(TimeOut):
     write_flag = Bool(True)
 
     # internal identifier
-    digest = Property(depends_on=['source.digest'])
+    digest = Property(depends_on=['source.digest', 'num_samples_write'])
 
     # The floating-number-precision of entries of H5 File corresponding
     # to numpy dtypes. Default is 32 bit.
-- 
2.43.0


From 42b0056f3927df4a1d787223359fa6a64c417515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:56 +0000
Subject: [PATCH 098/103] fix: identifier of AngleTracker depends on the
 selected samples and channels

AngleTracker delivers the samples and channels selected by start, stop and
invalid_channels, but its digest did not contain them.
---
 acoular/tprocess.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 301118b..e99df90 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -520,6 +520,9 @@ class AngleTracker(MaskedTimeOut):
     digest = Property(
         depends_on=[
             'source.digest',
+            'start',
+            'stop',
+            'invalid_channels[]',
             'trigger.digest',
             'trigger_per_revo',
             'rot_direction',
-- 
2.43.0


From c094567ad49a737fea90ccb74964a97f879d5373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:16 +0000
Subject: [PATCH 099/103] fix: numbers of samples and channels follow a
 replaced source of the source

Properties that depend on source.num_samples, source.num_channels or
source.sample_freq were not told when these are delegated and the source of the
source is replaced, and kept the old values. The digest of the source tells.
---
 acoular/fprocess.py |  6 +++---
 acoular/process.py  |  4 ++--
 acoular/signals.py  |  2 +-
 acoular/spectra.py  |  2 +-
 acoular/tprocess.py | 12 ++++++------
 5 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/acoular/fprocess.py b/acoular/fprocess.py
index b41b269..3294490 100644
--- a/acoular/fprocess.py
+++ b/acoular/fprocess.py
@@ -69,7 +69,7 @@ class RFFT(BaseSpectra, SpectraOut):
 
     #: The total number of snapshots (blocks) available in the FFT result,
     #: determined by the size of the input data and the block size.
-    num_samples = Property(depends_on=['source.num_samples', '_block_size', 'overlap'])
+    num_samples = Property(depends_on=['source.digest', '_block_size', 'overlap'])
 
     #: A 1-D array containing the Discrete Fourier Transform
     #: sample frequencies corresponding to the FFT output.
@@ -198,7 +198,7 @@ class IRFFT(TimeOut):
     #: The total number of time-domain samples in the output.
     #: Computed as the product of the number of input samples and the block size.
     #: Returns ``-1`` if the number of input samples is negative.
-    num_samples = Property(depends_on=['source.num_samples', 'source._block_size'])
+    num_samples = Property(depends_on=['source.digest'])
 
     # Internal signal buffer used for handling arbitrary output block sizes. Optimizes
     # processing when the requested output block size does not match the source block size.
@@ -391,7 +391,7 @@ class CrossPowerSpectra(AutoPowerSpectra):
     #:     - ``'full'``: :math:`n^2` (all elements in the CSM).
     #:     - ``'upper'``: :math:`n + n(n-1)/2` (diagonal + upper triangle elements).
     #:     - ``'lower'``: :math:`n + n(n-1)/2` (diagonal + lower triangle elements).
-    num_channels = Property(depends_on=['source.num_channels', 'calc_mode'])
+    num_channels = Property(depends_on=['source.digest', 'calc_mode'])
 
     #: A unique identifier based on the computation properties.
     digest = Property(depends_on=['source.digest', 'precision', 'scaling', 'single_sided', 'calc_mode'])
diff --git a/acoular/process.py b/acoular/process.py
index c9998da..3f5a7fd 100644
--- a/acoular/process.py
+++ b/acoular/process.py
@@ -124,12 +124,12 @@ class Average(InOut):
 
     #: The sampling frequency of the output signal. It is set automatically as
     #: (:attr:`~acoular.base.Generator.sample_freq` ``/`` :attr:`num_per_average`).
-    sample_freq = Property(depends_on=['source.sample_freq', 'num_per_average'])
+    sample_freq = Property(depends_on=['source.digest', 'num_per_average'])
 
     #: The number of samples (time domain) or snapshots (frequency domain) of the output signal.
     #: It is set automatically as
     #: (:attr:`~acoular.base.Generator.num_samples` ``/`` :attr:`num_per_average`).
-    num_samples = Property(depends_on=['source.num_samples', 'num_per_average'])
+    num_samples = Property(depends_on=['source.digest', 'num_per_average'])
 
     #: A unique identifier based on the class properties.
     digest = Property(depends_on=['source.digest', 'num_per_average'])
diff --git a/acoular/signals.py b/acoular/signals.py
index cc05832..d61e727 100644
--- a/acoular/signals.py
+++ b/acoular/signals.py
@@ -603,7 +603,7 @@ class GenericSignalGenerator(SignalGenerator):
     #: The number of samples to generate. Default is the number of samples available in the
     #: :attr:`source` (``source.num_samples``). If set explicitly, it can exceed the source length,
     #: in which case the signal will loop if :attr:`loop_signal` is ``True``.
-    num_samples = Property(depends_on=['_num_samples', 'source.num_samples'])
+    num_samples = Property(depends_on=['_num_samples', 'source.digest'])
 
     def _get_num_samples(self):
         if self._num_samples:
diff --git a/acoular/spectra.py b/acoular/spectra.py
index a589522..620c0fb 100644
--- a/acoular/spectra.py
+++ b/acoular/spectra.py
@@ -284,7 +284,7 @@ class PowerSpectra(BaseSpectra):
     #: The HDF5 cache file used for storing the results if :attr:`cached` is set to ``True``.
     h5f = Instance(H5CacheFileBase, transient=True)
 
-    @property_depends_on(['source.num_samples', 'block_size', 'overlap'])
+    @property_depends_on(['source.digest', 'block_size', 'overlap'])
     def _get_num_blocks(self):
         return self.overlap_ * self.source.num_samples / self.block_size - self.overlap_ + 1
 
diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index e99df90..8bcf48f 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -137,7 +137,7 @@ class MaskedTimeOut(TimeOut):
     invalid_channels = List(int, desc='list of invalid channels')
 
     # Channel mask to serve as an index for all valid channels, is set automatically.
-    channels = Property(depends_on=['invalid_channels[]', 'source.num_channels'], desc='channel mask')
+    channels = Property(depends_on=['invalid_channels[]', 'source.digest'], desc='channel mask')
 
     # Number of channels in input, as given by :attr:`~acoular.base.TimeOut.source`.
     num_channels_total = Delegate('source', 'num_channels')
@@ -147,12 +147,12 @@ class MaskedTimeOut(TimeOut):
 
     # Number of valid channels, is set automatically.
     num_channels = Property(
-        depends_on=['invalid_channels[]', 'source.num_channels'], desc='number of valid input channels'
+        depends_on=['invalid_channels[]', 'source.digest'], desc='number of valid input channels'
     )
 
     # Number of valid time samples, is set automatically.
     num_samples = Property(
-        depends_on=['start', 'stop', 'source.num_samples'], desc='number of valid samples per channel'
+        depends_on=['start', 'stop', 'source.digest'], desc='number of valid samples per channel'
     )
 
     # Name of the cache file without extension, readonly.
@@ -1270,7 +1270,7 @@ class Mixer(TimeOut):
     num_channels = Delegate('source')
 
     # Number of samples in output, limited by the shortest source.
-    num_samples = Property(depends_on=['source.num_samples', 'sdigest'])
+    num_samples = Property(depends_on=['source.digest', 'sdigest'])
 
     # internal identifier
     sdigest = Str()
@@ -1670,7 +1670,7 @@ class FilterBank(TimeOut):
     num_bands = Property()
 
     # Number of bands
-    num_channels = Property(depends_on=['source.num_channels', 'num_bands'])
+    num_channels = Property(depends_on=['source.digest', 'num_bands'])
 
     @abstractmethod
     def _get_sos(self):
@@ -1968,7 +1968,7 @@ class TimeConvolve(TimeOut):
     )
 
     # Number of samples in output (full convolution).
-    num_samples = Property(depends_on=['source.num_samples', 'kernel'])
+    num_samples = Property(depends_on=['source.digest', 'kernel'])
 
     # internal identifier
     digest = Property(depends_on=['source.digest', 'kernel'])
-- 
2.43.0


From 50c759d0ccf7c1b98b878f0b8e3b107fd425c1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:24 +0000
Subject: [PATCH 100/103] fix: eigenvalues of CsmAIAABenchmark follow the
 precision

The digest lacked precision, so eva and eve kept the values of the former precision.
---
 acoular/aiaa/aiaa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/aiaa/aiaa.py b/acoular/aiaa/aiaa.py
index bdb1182..2469aae 100644
--- a/acoular/aiaa/aiaa.py
+++ b/acoular/aiaa/aiaa.py
@@ -104,7 +104,7 @@ class CsmAIAABenchmark(PowerSpectraImport):
     h5f = Instance(H5FileBase, transient=True)
 
     # internal identifier
-    digest = Property(depends_on=['basename', '_csmsum'])
+    digest = Property(depends_on=['basename', '_csmsum', 'precision'])
 
     @cached_property
     def _get_digest(self):
-- 
2.43.0


From 7b893110d817b6482ed31b354107afd6a148b5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:39 +0000
Subject: [PATCH 101/103] fix: cached and averaged spectra have the frequencies
 and block size of their source

Cache and Average did not hand on freqs and block_size, so the frequencies were
empty and the inverse FFT of cached spectra was refused.
---
 acoular/base.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/acoular/base.py b/acoular/base.py
index d3e9c80..6d7e53e 100644
--- a/acoular/base.py
+++ b/acoular/base.py
@@ -282,6 +282,12 @@ class InOut(SamplesGenerator, SpectraGenerator):
     #: Number of frequencies in output, as given by :attr:`source`.
     num_freqs = Delegate('source')
 
+    #: 1-D array of frequencies, as given by :attr:`source`.
+    freqs = Delegate('source')
+
+    #: The size of the block used to calculate the spectra, as given by :attr:`source`.
+    block_size = Delegate('source')
+
     #: Number of samples / snapshots in output, as given by :attr:`source`.
     num_samples = Delegate('source')
 
-- 
2.43.0


From dc0649651d3330b34bc78adcadda062680f84d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:48 +0000
Subject: [PATCH 102/103] fix: identifiers do not depend on the order in which
 items were added to a dictionary

---
 acoular/internal.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/acoular/internal.py b/acoular/internal.py
index 01c6aeb..77a3e28 100644
--- a/acoular/internal.py
+++ b/acoular/internal.py
@@ -11,6 +11,9 @@ def _bytes(value):
     # str() abbreviates large arrays and limits the number of digits
     if isinstance(value, ndarray):
         return f'{value.dtype}{value.shape}'.encode() + value.tobytes()
+    # the order in which the items were added is not part of the setting
+    if isinstance(value, dict):
+        return str(sorted(value.items(), key=str)).encode('UTF-8')
     return str(value).encode('UTF-8')
 
 
-- 
2.43.0


From f2cc9d0b1cb95819f4a5e4fe076e3591b6fcfaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:27 +0000
Subject: [PATCH 103/103] fix: cross-spectral matrix of a benchmark file stays
 that of the first file when the file is changed

---
 acoular/aiaa/aiaa.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/acoular/aiaa/aiaa.py b/acoular/aiaa/aiaa.py
index 2469aae..689676c 100644
--- a/acoular/aiaa/aiaa.py
+++ b/acoular/aiaa/aiaa.py
@@ -100,6 +100,9 @@ class CsmAIAABenchmark(PowerSpectraImport):
     #: number of channels
     num_channels = Property()
 
+    #: The cross-spectral matrix that is stored in the file
+    csm = Property(desc='cross spectral matrix')
+
     #: HDF5 file object
     h5f = Instance(H5FileBase, transient=True)
 
-- 
2.43.0

