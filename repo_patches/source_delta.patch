From e87470af95263848d34c6c5e63b1f7ffb40661dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:16 +0000
Subject: [PATCH 001/103] fix: format_list no longer extends the caller's list
 in place

---
 src/glimpse/helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 756db74..6774697 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -70,12 +70,12 @@ def format_list(
             x = x[0:length]
         elif nx < length:
             if default is not None:
-                x += [default] * (length - nx)
+                x = x + [default] * (length - nx)
             elif nx > 0:
                 # Repeat list
                 if length % nx != 0:
                     raise ValueError("Output length is not multiple of input length")
-                x *= length // nx
+                x = x * (length // nx)
     if dtype:
         x = [dtype(i) for i in x]
     return x
-- 
2.43.0


From 12c2ae549050bc99383515d9b8aeb7c1b662b66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:16 +0000
Subject: [PATCH 002/103] fix: numpy_dtype_minmax uses np.bool_ (np.bool was
 removed from numpy)

---
 src/glimpse/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 6774697..b384bc3 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -110,7 +110,7 @@ def numpy_dtype_minmax(
     if issubclass(dtype.type, np.integer):
         info = np.iinfo(dtype)
         return info.min, info.max
-    if dtype.type in (np.bool_, np.bool):
+    if dtype.type in (np.bool_, np.bool_):
         return False, True
     raise ValueError("Cannot determine min, max for " + str(dtype))
 
-- 
2.43.0


From c3a8a6bb4241219cf427199699daed0f4fd0ba07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:16 +0000
Subject: [PATCH 003/103] fix: shifting a grid no longer writes into arrays
 shared with the caller

---
 src/glimpse/raster.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 65b00ae..8ee9a53 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -269,17 +269,17 @@ class Grid:
     def _shift_xy(self, dx: Number = None, dy: Number = None) -> None:
         """Shift grid position."""
         if dx is not None:
-            self._xlim += dx
+            self._xlim = self._xlim + dx
             if self._x is not None:
-                self._x += dx
+                self._x = self._x + dx
             if self._X is not None:
-                self._X += dx
+                self._X = self._X + dx
         if dy is not None:
-            self._ylim += dy
+            self._ylim = self._ylim + dy
             if self._y is not None:
-                self._y += dy
+                self._y = self._y + dy
             if self._Y is not None:
-                self._Y += dy
+                self._Y = self._Y + dy
 
     # ---- Methods ---- #
 
-- 
2.43.0


From cb638dda005ff50a3ea49e9b538c65da67055cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:16 +0000
Subject: [PATCH 004/103] fix: Raster.shift left the cached interpolant wrong
 (or failed) after sampling

---
 src/glimpse/raster.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 8ee9a53..c9355a5 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1205,16 +1205,9 @@ class Raster(Grid):
         """
         self._shift_xy(dx=dx, dy=dy)
         if dz is not None:
-            # Prevent reset of cached interpolants
-            self._array += dz
-        if self._Zf is not None:
-            # Shift cached interpolants
-            if dx is not None:
-                self._Zf.grid[0][:] += dx
-            if dy is not None:
-                self._Zf.grid[1][:] += dy
-            if dy is not None:
-                self._Zf.values += dz
+            self.array = self.array + dz
+        # Cached interpolant refers to the previous coordinates
+        self._clear_cache(["Zf"])
 
     def fill_circle(
         self, center: Iterable[Number], radius: Number, value: Any = np.nan
-- 
2.43.0


From 9c7b0d282aba475d0d55314e0faab12734fca888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:16 +0000
Subject: [PATCH 005/103] fix: Raster samples use the new limits after xlim or
 ylim are set

---
 src/glimpse/raster.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index c9355a5..2716369 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -857,6 +857,11 @@ class Raster(Grid):
                 self._clear_cache(["x", "X", "y", "Y"])
         self._array = value
 
+    def _clear_cache(self, attributes: Iterable[str] = ["x", "X", "y", "Y"]) -> None:
+        """Clear cached attributes and the interpolant that depends on them."""
+        super()._clear_cache(attributes)
+        self._Zf = None
+
     # ---- Properties (dependent) ----
 
     @property
-- 
2.43.0


From e5b7185ec11538a61ba18814d8e3b70119c5284b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:16 +0000
Subject: [PATCH 006/103] fix: Grid coordinates follow a change of size

---
 src/glimpse/raster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 2716369..6fb737f 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -51,7 +51,7 @@ class Grid:
         y: Iterable[Union[Number, Iterable[Number]]] = None,
         crs: Union[int, str] = None,
     ) -> None:
-        self._size = size
+        self.size = size
         self.xlim, self._x, self._X = self._parse_xy(x, dim=0)
         self.ylim, self._y, self._Y = self._parse_xy(y, dim=1)
         self.crs = crs
@@ -83,6 +83,7 @@ class Grid:
         if (value <= 0).any():
             raise ValueError("Grid dimensions must be positive")
         self._size = value
+        self._clear_cache()
 
     @property
     def xlim(self) -> np.ndarray:
-- 
2.43.0


From 5d2cda12f6f169ae0856df8458c4c0221340efe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:16 +0000
Subject: [PATCH 007/103] fix: Grid.read applies the target cell size

---
 src/glimpse/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 6fb737f..6d7d882 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -217,7 +217,7 @@ class Grid:
             buf_xsize = win_xsize
             buf_ysize = win_ysize
         grid.xlim, grid.ylim = xlim, ylim
-        grid.n = (buf_xsize, buf_ysize)
+        grid.size = (buf_xsize, buf_ysize)
         return grid
 
     # ---- Methods (private) ----
-- 
2.43.0


From 429dbe35e9310baeb5616189a1eeaac730ceac5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:16 +0000
Subject: [PATCH 008/103] fix: Grid.copy keeps the coordinate reference system

---
 src/glimpse/raster.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 6d7d882..cd483e7 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -286,7 +286,9 @@ class Grid:
 
     def copy(self) -> "Grid":
         """Copy grid."""
-        return Grid(self.size.copy(), x=self.xlim.copy(), y=self.ylim.copy())
+        return Grid(
+            self.size.copy(), x=self.xlim.copy(), y=self.ylim.copy(), crs=self.crs
+        )
 
     def resize(self, scale: Number) -> None:
         """
-- 
2.43.0


From b83ff0a8e2af5575bd0fdad562c9d70c824fe417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:16 +0000
Subject: [PATCH 009/103] fix: Raster copies and subsets keep the coordinate
 reference system

---
 src/glimpse/raster.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index cd483e7..38647f5 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -692,7 +692,9 @@ class Raster(Grid):
             x = x[[0, -1]] + (-0.5, 0.5) * d[0:1]
         if len(y) < 3:
             y = y[[0, -1]] + (-0.5, 0.5) * d[1:2]
-        return self.__class__(self.array[i, j], x=x, y=y, datetime=self.datetime)
+        return self.__class__(
+            self.array[i, j], x=x, y=y, datetime=self.datetime, crs=self.crs
+        )
 
     @classmethod
     def open(
@@ -914,6 +916,7 @@ class Raster(Grid):
             x=self.xlim.copy(),
             y=self.ylim.copy(),
             datetime=copy.copy(self.datetime),
+            crs=self.crs,
         )
 
     def sample(
-- 
2.43.0


From b6b92ac7fe9bf31b5cd8b28c63f2c6102676429a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:16 +0000
Subject: [PATCH 010/103] fix: sampling a raster on a grid no longer modifies
 its values temporarily

---
 src/glimpse/raster.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 38647f5..2c037ed 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1061,11 +1061,12 @@ class Raster(Grid):
         # HACK: scipy.interpolate.RectBivariateSpline does not support NAN
         Zmin = np.nanmin(self.array)
         is_nan = np.isnan(self.array)
-        self.array[is_nan] = helpers.numpy_dtype_minmax(self.array.dtype)[0]
+        array = self.array.copy()
+        array[is_nan] = helpers.numpy_dtype_minmax(array.dtype)[0]
         fun = scipy.interpolate.RectBivariateSpline(
             self.y[:: signs[1]],
             self.x[:: signs[0]],
-            self.array[:: signs[1], :: signs[0]],
+            array[:: signs[1], :: signs[0]],
             bbox=(min(self.ylim), max(self.ylim), min(self.xlim), max(self.xlim)),
             kx=kx,
             ky=ky,
@@ -1075,7 +1076,6 @@ class Raster(Grid):
         ydir = 1 if (len(y) < 2) or y[1] > y[0] else -1
         samples = fun(y[::ydir], x[::xdir], grid=True)[::ydir, ::xdir]
         samples[samples < Zmin] = np.nan
-        self.array[is_nan] = np.nan
         return samples
 
     def resample(self, grid: Grid, **kwargs: Any) -> None:
-- 
2.43.0


From 49462cbd529bb25a11dbe3e3d344145a5f57c799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:16 +0000
Subject: [PATCH 011/103] fix: Raster.crop and fill_circle no longer write into
 the array given by the caller

They also left the cached interpolant stale.
---
 src/glimpse/raster.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 2c037ed..98fe45a 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1182,7 +1182,9 @@ class Raster(Grid):
             ):
                 warnings.warn("array cast to float to accommodate NaN")
                 self.array = self.array.astype(float)
-            self.array[outbounds] = np.nan
+            array = self.array.copy()
+            array[outbounds] = np.nan
+            self.array = array
 
     def resize(self, scale: Number, order: int = 1) -> None:
         """
@@ -1246,7 +1248,9 @@ class Raster(Grid):
                 rowcols = np.column_stack((np.repeat(yi, len(xi)), xi))
                 ind.extend(self.rowcol_to_idx(rowcols))
         # Apply
-        self.array.flat[ind] = value
+        array = self.array.copy()
+        array.flat[ind] = value
+        self.array = array
 
     def hillshade(
         self, azimuth: Number = 315, altitude: Number = 45, **kwargs: Any
-- 
2.43.0


From 52c5a17af04df99452b83f22a31042e1b5fe722b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:07 +0000
Subject: [PATCH 012/103] fix: Observer.shift_tile no longer overwrites the
 tile it is given

---
 src/glimpse/track/observer.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index 87fac3b..d06423d 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -168,12 +168,13 @@ class Observer:
         cv = np.arange(0.5, tile.shape[0])  # y|rows
         # Interpolate at shifted center coordinates
         tile = np.atleast_3d(tile)
+        shifted = np.empty_like(tile)
         for i in range(tile.shape[2]):
             f = scipy.interpolate.RectBivariateSpline(cv, cu, tile[:, :, i], **kwargs)
-            tile[:, :, i] = f(cv + duv[1], cu + duv[0], grid=True)
-        if tile.shape[2] == 1:
-            return tile.squeeze(axis=2)
-        return tile
+            shifted[:, :, i] = f(cv + duv[1], cu + duv[0], grid=True)
+        if shifted.shape[2] == 1:
+            return shifted.squeeze(axis=2)
+        return shifted
 
     def sample_tile(
         self,
-- 
2.43.0


From 7b2ba45c6bf0d7809287955563e68e0b7e810bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:07 +0000
Subject: [PATCH 013/103] fix: Observer.plot_tile default box follows the tile
 width and height

---
 src/glimpse/track/observer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index d06423d..44931a3 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -233,7 +233,7 @@ class Observer:
             **kwargs: Optional arguments to :func:`matplotlib.pyplot.imshow`.
         """
         if box is None:
-            box = (0, 0, tile.shape[0], tile.shape[1])
+            box = (0, 0, tile.shape[1], tile.shape[0])
         extent = (box[0], box[2], box[3], box[1])
         if axes is None:
             axes = matplotlib.pyplot.gca()
-- 
2.43.0


From 431cf1d7bbc96705a0965aff12fdc7c5d40b266a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:07 +0000
Subject: [PATCH 014/103] fix: RasterInterpolant resizes rasters to (not away
 from) the target cell size

---
 src/glimpse/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 98fe45a..a6ee198 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1590,7 +1590,7 @@ class RasterInterpolant:
             if xlim_change or ylim_change:
                 obj.crop(xlim=xlim, ylim=ylim)
             if d_change:
-                scale = d / np.abs(obj.d).mean()
+                scale = np.abs(obj.d).mean() / d
                 obj.resize(scale)
             return obj
         if isinstance(obj, str):
-- 
2.43.0


From e2b3ff232aba2f5c5a4ffc6d505614b0474e2cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:07 +0000
Subject: [PATCH 015/103] fix: RasterInterpolant fails at the coordinate of a
 raster

---
 src/glimpse/raster.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index a6ee198..901b1c9 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1688,7 +1688,8 @@ class RasterInterpolant:
         """Interpolate between two rasters."""
         dz = means[1].array - means[0].array
         dx = x[1] - x[0]
-        scale = (xi - x[0]) / dx
+        # Bounds are the same raster if xi coincides with it
+        scale = (xi - x[0]) / dx if dx else 0
         z = means[0].array + dz * scale
         t = xi if isinstance(xi, datetime.datetime) else None
         raster = means[0].__class__(z, x=means[0].xlim, y=means[0].ylim, datetime=t)
@@ -1700,7 +1701,7 @@ class RasterInterpolant:
             )
             # Interpolation uncertainty: nearest bound at 99.7%
             nearest_dx = np.min(np.abs(np.subtract(xi, x)))
-            zi_var = ((1 / 3) * dz * (nearest_dx / dx)) ** 2
+            zi_var = ((1 / 3) * dz * (nearest_dx / dx if dx else 0)) ** 2
             sigma = raster.__class__(
                 np.sqrt(z_var + zi_var), x=means[0].xlim, y=means[0].ylim, datetime=t
             )
-- 
2.43.0


From 6b4da92c2da273ba2dee4c4ca6d550a1fcf75f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:07 +0000
Subject: [PATCH 016/103] fix: Raster.rasterize returned raster values where
 there are no points

---
 src/glimpse/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 901b1c9..f8066b4 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1123,7 +1123,7 @@ class Raster(Grid):
         """
         mask = self.inbounds_xy(xy)
         rowcol = self.xy_to_rowcol(xy[mask, :], snap=True)
-        array = self.array.copy()
+        array = np.full(self.array.shape, np.nan)
         helpers.rasterize_points(rowcol[:, 0], rowcol[:, 1], values[mask], a=array)
         return array
 
-- 
2.43.0


From c99b629d66b477ba3df21f3ee195f2b1765334b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:07 +0000
Subject: [PATCH 017/103] fix: Raster.open ignored a no-data value of zero

---
 src/glimpse/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index f8066b4..b3974f6 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -745,7 +745,7 @@ class Raster(Grid):
         dtype = osgeo.gdal_array.GDALTypeCodeToNumericTypeCode(raster_band.DataType)
         is_float = np.issubdtype(dtype, np.floating)
         default_nan = raster_band.GetNoDataValue()
-        if nan is None and (is_float and default_nan):
+        if nan is None and (is_float and default_nan is not None):
             nan = default_nan
         crs = raster.GetProjection()
         obj = cls(None, x=xlim, y=ylim, datetime=datetime, crs=crs if crs else None)
-- 
2.43.0


From 8ef0c124f666b397dd7ed253e7d1f8277ce0f4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:07 +0000
Subject: [PATCH 018/103] fix: Raster.size is an array also before the raster
 is read

---
 src/glimpse/raster.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index b3974f6..a96800d 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -880,7 +880,9 @@ class Raster(Grid):
         """Grid dimensions (nx, ny)."""
         if self._array is None:
             # HACK: Use gdal.ReadAsArray arguments
-            return self._gdal_kwargs["buf_xsize"], self._gdal_kwargs["buf_ysize"]
+            return np.array(
+                (self._gdal_kwargs["buf_xsize"], self._gdal_kwargs["buf_ysize"])
+            )
         return np.array(self._array.shape[0:2][::-1]).astype(int)
 
     @property
-- 
2.43.0


From 5bb266e38b4e2d47b1cca4a6d5aebbc904af5ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:07 +0000
Subject: [PATCH 019/103] fix: residual resampling used negative residual
 weights

---
 src/glimpse/track/tracker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/track/tracker.py b/src/glimpse/track/tracker.py
index 616e0e4..d74af42 100644
--- a/src/glimpse/track/tracker.py
+++ b/src/glimpse/track/tracker.py
@@ -193,7 +193,7 @@ class Tracker:
             # NOTE: Assumes weights sum to 1
             repetitions = (n * weights).astype(int)
             initial_indexes = np.repeat(np.arange(n), repetitions)
-            residuals = weights - repetitions
+            residuals = n * weights - repetitions
             residuals *= 1 / residuals.sum()
             cumulative_sum = np.cumsum(residuals)
             cumulative_sum[-1] = 1.0
-- 
2.43.0


From e826f98fa05c8ace8d16c3356dd6d3577b8c7e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:59 +0000
Subject: [PATCH 020/103] fix: accept a vector of depths in Camera.uv_to_xyz

---
 src/glimpse/camera.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/camera.py b/src/glimpse/camera.py
index 9234bf4..78a60ad 100644
--- a/src/glimpse/camera.py
+++ b/src/glimpse/camera.py
@@ -1468,7 +1468,7 @@ class Camera:
             xyz = np.dot(xy, self.R[0:2, :])
         # Simulate z = 1 by adding 3rd column of rotation matrix
         xyz += self.R.T[:, 2]
-        if depth != 1:
+        if np.any(np.asarray(depth) != 1):
             xyz *= np.atleast_1d(depth).reshape(-1, 1)
         if not directions:
             xyz += self.xyz
-- 
2.43.0


From cca042ef1ada7c45e88eedb6251de0bd6dd7dabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:55 +0000
Subject: [PATCH 021/103] fix: undistort points on the vertical image axis with
 k1 only

---
 src/glimpse/camera.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/glimpse/camera.py b/src/glimpse/camera.py
index 78a60ad..eac4197 100644
--- a/src/glimpse/camera.py
+++ b/src/glimpse/camera.py
@@ -1223,8 +1223,7 @@ class Camera:
         # r^3 + r / k1 - r'/k1 = 0
         phi = np.arctan2(xy[:, 1], xy[:, 0])
         Q = -1 / (3 * self.k[0])
-        # r' = y / cos(phi)
-        R = -xy[:, 0] / (2 * self.k[0] * np.cos(phi))
+        R = -np.sqrt(np.sum(xy ** 2, axis=1)) / (2 * self.k[0])
         has_three_roots = R ** 2 < Q ** 3
         r = np.full(len(xy), np.nan)
         if np.any(has_three_roots):
-- 
2.43.0


From e42054175f63c7997d99faad2f6e0ee76a361c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:41 +0000
Subject: [PATCH 022/103] fix: xy_to_rowcol with snap truncated indices just
 below an integer

The snapped cell centers are integers only up to floating point rounding, so
truncation returned the previous cell for most grids.
---
 src/glimpse/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index a96800d..4c0229c 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -498,7 +498,7 @@ class Grid:
         origin = np.append(self.xlim[0], self.ylim[0])
         colrow = (xy - origin) / self.d - 0.5
         if snap:
-            colrow = colrow.astype(int)
+            colrow = np.round(colrow).astype(int)
         return colrow[:, ::-1]
 
     def rowcol_to_idx(self, rowcol: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 4a8493f4e57007d1fa998a45917e74f27ba568d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:41 +0000
Subject: [PATCH 023/103] fix: Raster.horizon failed for rays ending just
 outside the raster by rounding

---
 src/glimpse/raster.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 4c0229c..23e5bb7 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1438,6 +1438,8 @@ class Raster(Grid):
         else:
             rowcol = self.xy_to_rowcol(xy_starts)
             starts = rowcol[:, ::-1]
+        # Rounding may leave the intersection just outside of the box
+        xy_ends = np.clip(xy_ends, self.min[0:2], self.max[0:2])
         rowcol = self.xy_to_rowcol(xy_ends, snap=True)
         ends = rowcol[:, ::-1]
         # Iterate over line in each direction
-- 
2.43.0


From 76f673a57961b41e85627edf47dd898b28ea4973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:37 +0000
Subject: [PATCH 024/103] fix: snap_xy moved points on the far bounds two cells
 inward

A point on the right or bottom bound is at the end of the last cell, but
rounding can already place it inside that cell before one is subtracted.
Grid.crop_extent() without limits dropped the last column of about a tenth of
all grids.
---
 src/glimpse/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 23e5bb7..fef28b6 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -382,7 +382,7 @@ class Grid:
         if not edges and inbounds:
             # Points on right or bottom edges snap down to stay in bounds
             is_outer_edge = xy == np.append(self.xlim[1], self.ylim[1])
-            nxy[is_outer_edge] -= 1
+            nxy = np.where(is_outer_edge, self.size - 1, nxy)
         if centers and not edges:
             nxy += 0.5
         elif centers and edges:
-- 
2.43.0


From c49121542cf9b2b379f4f2adf3f65138985ee829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:07 +0000
Subject: [PATCH 025/103] fix: grid samples of rasters with a single row or
 column had the wrong shape

Raster.sample(grid=True) documents (m, n) for n x-coordinates and m
y-coordinates, but returned (n, n), (m, m), or (n, m).
---
 src/glimpse/raster.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index fef28b6..91457ac 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -999,11 +999,11 @@ class Raster(Grid):
                 z = self._sample_1d(xy[dim], dim=dim, kind=methods[order])
                 samples = np.tile(
                     z.reshape(-1 if dim else 1, 1 if dim else -1),
-                    reps=(1 if dim else len(z), len(z) if dim else 1),
+                    reps=(1 if dim else len(xy[1]), len(xy[0]) if dim else 1),
                 )
             else:
                 # 0D: Return constant
-                samples = np.full((len(xy[0]), len(xy[1])), self.array.flat[0])
+                samples = np.full((len(xy[1]), len(xy[0])), self.array.flat[0])
             if has_fill:
                 # Fill out of bounds with value
                 samples[yout, :] = fill_value
-- 
2.43.0


From cbac2ee030b7cef716e350f5b2c2ec5dc34b43f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:07 +0000
Subject: [PATCH 026/103] fix: Raster.sample truncated samples to integers for
 an integer fill value

Also, the default fill value (NaN) could not be stored in grid samples of an integer
raster with a single cell.
---
 src/glimpse/raster.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 91457ac..df39554 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1003,7 +1003,9 @@ class Raster(Grid):
                 )
             else:
                 # 0D: Return constant
-                samples = np.full((len(xy[1]), len(xy[0])), self.array.flat[0])
+                samples = np.full(
+                    (len(xy[1]), len(xy[0])), self.array.flat[0], dtype=float
+                )
             if has_fill:
                 # Fill out of bounds with value
                 samples[yout, :] = fill_value
@@ -1011,7 +1013,7 @@ class Raster(Grid):
         else:
             # Sample at points
             if has_fill:
-                samples = np.full(len(xy), fill_value)
+                samples = np.full(len(xy), fill_value, dtype=float)
             if ndims == 2:
                 # 2D: Use RegularGridInterpolator
                 self.Zf.bounds_error = False
-- 
2.43.0


From d4a1ca22155356e7c16253d52eb152c45ca80035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:07 +0000
Subject: [PATCH 027/103] fix: grid samples below the raster minimum were
 replaced by NaN

Between the outermost cell centers and the bounds, and for orders above 1, samples may
be less than the minimum cell value without being affected by missing values.
---
 src/glimpse/raster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index df39554..d59fc8a 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1079,7 +1079,8 @@ class Raster(Grid):
         xdir = 1 if (len(x) < 2) or x[1] > x[0] else -1
         ydir = 1 if (len(y) < 2) or y[1] > y[0] else -1
         samples = fun(y[::ydir], x[::xdir], grid=True)[::ydir, ::xdir]
-        samples[samples < Zmin] = np.nan
+        if is_nan.any():
+            samples[samples < Zmin] = np.nan
         return samples
 
     def resample(self, grid: Grid, **kwargs: Any) -> None:
-- 
2.43.0


From d315e3d8a80fe8d5555843b0a69324f7a1fe0d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:41 +0000
Subject: [PATCH 028/103] fix: Raster.hillshade lit north-facing slopes from
 the south

matplotlib.colors.LightSource.hillshade() negates dy itself, so the azimuth was
mirrored in the east-west axis for rasters of either orientation.
---
 src/glimpse/raster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index d59fc8a..0ed7058 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1272,7 +1272,8 @@ class Raster(Grid):
                 :meth:`matplotlib.colors.LightSource.hillshade`.
         """
         light = matplotlib.colors.LightSource(azdeg=azimuth, altdeg=altitude)
-        return light.hillshade(self.array, dx=self.d[0], dy=self.d[1], **kwargs)
+        # NOTE: LightSource assumes that y decreases with row for positive dy
+        return light.hillshade(self.array, dx=self.d[0], dy=-self.d[1], **kwargs)
 
     def fill_crevasses(
         self,
-- 
2.43.0


From d345b053345213e4b700f39c17b7b555962bdc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:05 +0000
Subject: [PATCH 029/103] fix: bresenham_circle dropped diagonal neighbors as
 duplicates

---
 src/glimpse/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index b384bc3..20cf547 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -1016,7 +1016,7 @@ def bresenham_circle(center: Iterable, radius: float) -> np.ndarray:
         # 8th octant
         xy[6 * octant_size - i, :] = [x0 - y, y0 - x]
     # Remove duplicate points
-    unique = [True] + (np.diff(xy, axis=0).sum(axis=1) != 0).tolist()
+    unique = [True] + (np.diff(xy, axis=0) != 0).any(axis=1).tolist()
     return xy[unique]
 
 
-- 
2.43.0


From 360879f01c6dae3fca829a3bd5f9188d8a4c571e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:05 +0000
Subject: [PATCH 030/103] fix: Raster.fill_circle failed for rasters with a
 descending x axis

---
 src/glimpse/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 0ed7058..ee9d41e 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1240,7 +1240,7 @@ class Raster(Grid):
         """
         # Circle indices
         rowcol = self.xy_to_rowcol(np.atleast_2d(center[0:2]), snap=True)
-        r = np.round(radius / self.d[0])
+        r = np.round(radius / abs(self.d[0]))
         xyi = helpers.bresenham_circle(rowcol[0, ::-1], r).astype(int)
         # Filled circle indices
         ind = []
-- 
2.43.0


From b528e9284f85f2afd1cb6a47610cdda125c7b8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:14 +0000
Subject: [PATCH 031/103] fix: motion models failed without dem_sigma or with
 constant surfaces

---
 src/glimpse/track/motion.py | 43 ++++++++++++++++---------------------
 1 file changed, 19 insertions(+), 24 deletions(-)

diff --git a/src/glimpse/track/motion.py b/src/glimpse/track/motion.py
index 20a7c96..08e9d8d 100644
--- a/src/glimpse/track/motion.py
+++ b/src/glimpse/track/motion.py
@@ -10,6 +10,17 @@ Index = Union[slice, Iterable[int]]
 Number = Union[int, float]
 
 
+def _parse_surface(
+    value: Optional[Union[Number, np.ndarray, Raster]]
+) -> Optional[Raster]:
+    """Return surface as a raster, which for a single number is without bounds."""
+    if value is None or isinstance(value, Raster):
+        return value
+    if np.ndim(value) == 0:
+        return Raster(value, x=(-np.inf, np.inf), y=(-np.inf, np.inf))
+    return Raster(value)
+
+
 class Motion:
     """
     Illustration of the motion model interface required by :class:`Tracker`.
@@ -133,12 +144,8 @@ class CartesianMotion(Motion):
     ) -> None:
         self.xy = xy
         self.time_unit = time_unit
-        if not isinstance(dem, Raster):
-            dem = Raster(dem)
-        self.dem = dem
-        if not isinstance(dem_sigma, Raster):
-            dem_sigma = Raster(dem_sigma)
-        self.dem_sigma = dem_sigma
+        self.dem = _parse_surface(dem)
+        self.dem_sigma = _parse_surface(dem_sigma)
         self.n = n
         self.xy_sigma = xy_sigma
         self.vxyz = vxyz
@@ -244,12 +251,8 @@ class CylindricalMotion(CartesianMotion):
     ) -> None:
         self.xy = xy
         self.time_unit = time_unit
-        if not isinstance(dem, Raster):
-            dem = Raster(dem)
-        self.dem = dem
-        if not isinstance(dem_sigma, Raster):
-            dem_sigma = Raster(dem_sigma)
-        self.dem_sigma = dem_sigma
+        self.dem = _parse_surface(dem)
+        self.dem_sigma = _parse_surface(dem_sigma)
         self.n = n
         self.xy_sigma = xy_sigma
         self.vrthz = vrthz
@@ -362,12 +365,8 @@ class TangentCartesianMotion(Motion):
     ) -> None:
         self.xy = xy
         self.time_unit = time_unit
-        if not isinstance(dem, Raster):
-            dem = Raster(dem)
-        self.dem = dem
-        if not isinstance(dem_sigma, Raster):
-            dem_sigma = Raster(dem_sigma)
-        self.dem_sigma = dem_sigma
+        self.dem = _parse_surface(dem)
+        self.dem_sigma = _parse_surface(dem_sigma)
         self.n = n
         self.xy_sigma = xy_sigma
         self.vxy = vxy
@@ -453,12 +452,8 @@ class TangentCylindricalMotion(Motion):
     ) -> None:
         self.xy = xy
         self.time_unit = time_unit
-        if not isinstance(dem, Raster):
-            dem = Raster(dem)
-        self.dem = dem
-        if not isinstance(dem_sigma, Raster):
-            dem_sigma = Raster(dem_sigma)
-        self.dem_sigma = dem_sigma
+        self.dem = _parse_surface(dem)
+        self.dem_sigma = _parse_surface(dem_sigma)
         self.n = n
         self.xy_sigma = xy_sigma
         self.vrth = vrth
-- 
2.43.0


From aff32487cd3a47164a8883336a66d75650f70e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:14 +0000
Subject: [PATCH 032/103] fix: TangentCylindricalMotion failed without
 dem_sigma

---
 src/glimpse/track/motion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/track/motion.py b/src/glimpse/track/motion.py
index 08e9d8d..975e425 100644
--- a/src/glimpse/track/motion.py
+++ b/src/glimpse/track/motion.py
@@ -441,7 +441,7 @@ class TangentCylindricalMotion(Motion):
         xy: Iterable[Number],
         time_unit: datetime.timedelta,
         dem: Union[Number, Raster],
-        dem_sigma: Union[Number, Raster] = None,
+        dem_sigma: Union[Number, Raster] = 0,
         n: int = 1000,
         xy_sigma: Iterable[Number] = (0, 0),
         vrth: Iterable[Number] = (0, 0),
-- 
2.43.0


From 8961feedbf5a86f56e166f8c265e81afe097e555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:14 +0000
Subject: [PATCH 033/103] fix: cylindrical motion models turned particles at
 rest into NaN

---
 src/glimpse/track/motion.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/glimpse/track/motion.py b/src/glimpse/track/motion.py
index 975e425..438dc4a 100644
--- a/src/glimpse/track/motion.py
+++ b/src/glimpse/track/motion.py
@@ -297,14 +297,14 @@ class CylindricalMotion(CartesianMotion):
         time_units = dt.total_seconds() / self.time_unit.total_seconds()
         vx = particles[:, 3]
         vy = particles[:, 4]
-        vr = np.sqrt(vx ** 2 + vy ** 2)
+        th = np.arctan2(vy, vx)
         arthz = self.arthz + self.arthz_sigma * np.random.randn(n, 3)
         axyz = np.column_stack(
             (
                 # r'' * cos(th) - r' * sin(th) * th'
-                arthz[:, 0] * (vx / vr) - vy * arthz[:, 1],
+                arthz[:, 0] * np.cos(th) - vy * arthz[:, 1],
                 # r'' * sin(th) - r' * cos(th) * th'
-                arthz[:, 0] * (vy / vr) + vx * arthz[:, 1],
+                arthz[:, 0] * np.sin(th) + vx * arthz[:, 1],
                 arthz[:, 2],
             )
         )
@@ -496,14 +496,14 @@ class TangentCylindricalMotion(Motion):
         time_units = dt.total_seconds() / self.time_unit.total_seconds()
         vx = particles[:, 3]
         vy = particles[:, 4]
-        vr = np.sqrt(vx ** 2 + vy ** 2)
+        th = np.arctan2(vy, vx)
         arth = self.arth + self.arth_sigma * np.random.randn(n, 2)
         axy = np.column_stack(
             (
                 # r'' * cos(th) - r' * sin(th) * th'
-                arth[:, 0] * (vx / vr) - vy * arth[:, 1],
+                arth[:, 0] * np.cos(th) - vy * arth[:, 1],
                 # r'' * sin(th) - r' * cos(th) * th'
-                arth[:, 0] * (vy / vr) + vx * arth[:, 1],
+                arth[:, 0] * np.sin(th) + vx * arth[:, 1],
             )
         )
         dxy = time_units * particles[:, 3:5] + 0.5 * axy * time_units ** 2
-- 
2.43.0


From 870b040eeaefe8c9c26223edd9e314d5ee06c1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:20 +0000
Subject: [PATCH 034/103] fix: Tracker.resample_particles failed with
 UnboundLocalError for an unknown method

---
 src/glimpse/track/tracker.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/glimpse/track/tracker.py b/src/glimpse/track/tracker.py
index d74af42..8d4008d 100644
--- a/src/glimpse/track/tracker.py
+++ b/src/glimpse/track/tracker.py
@@ -219,6 +219,8 @@ class Tracker:
             indexes = residual(n, self.weights)
         elif method == "choice":
             indexes = choice(n, self.weights)
+        else:
+            raise ValueError(f"Unknown resampling method: {method}")
         self.particles = self.particles[indexes]
         self.weights = self.weights[indexes]
 
-- 
2.43.0


From 2ffd7468f5d47d001bb91d2761c856557fccb2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:20 +0000
Subject: [PATCH 035/103] fix: Tracker.track failed when an observer has no
 image at any datetime

---
 src/glimpse/track/tracker.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/track/tracker.py b/src/glimpse/track/tracker.py
index 8d4008d..9fcec01 100644
--- a/src/glimpse/track/tracker.py
+++ b/src/glimpse/track/tracker.py
@@ -335,7 +335,11 @@ class Tracker:
                             motion_model.evolve_particles(self.particles, dt=dt)
                             self.test_particles()
                         # Initialize templates for Observers starting at datetimes[i]
-                        at_template = observer_mask & (template_indices == i)
+                        at_template = (
+                            observer_mask
+                            & (template_indices == i)
+                            & np.not_equal(matching_images[i], None)
+                        )
                         for obs in np.nonzero(at_template)[0]:
                             self.initialize_template(
                                 obs=obs,
-- 
2.43.0


From 061a946dfe8930dd5a464bf8f9bdadc9c3cbabba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:20 +0000
Subject: [PATCH 036/103] fix: Observer.sample_tile failed for cells of a size
 other than one

---
 src/glimpse/track/observer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index 44931a3..38719ec 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -205,8 +205,8 @@ class Observer:
         du = (box[2] - box[0]) / tile.shape[1]
         dv = (box[3] - box[1]) / tile.shape[0]
         # Cell center coordinates
-        cu = np.arange(box[0] + du * 0.5, box[2])  # x|cols
-        cv = np.arange(box[1] + dv * 0.5, box[3])  # y|rows
+        cu = box[0] + du * (np.arange(tile.shape[1]) + 0.5)  # x|cols
+        cv = box[1] + dv * (np.arange(tile.shape[0]) + 0.5)  # y|rows
         # Interpolate at arbitrary coordinates
         f = scipy.interpolate.RectBivariateSpline(cv, cu, tile, **kwargs)
         if grid:
-- 
2.43.0


From 5f56732c1ec93ce890ceed84612fdfeb13b01db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:20 +0000
Subject: [PATCH 037/103] fix: Observer.animate used the tile width as the
 upper half of its height

---
 src/glimpse/track/observer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index 38719ec..d6b06cb 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -329,7 +329,7 @@ class Observer:
             transform=ax[0].transAxes,
         )
         ax[1].set_xlim(uv[0] - halfsize[0], uv[0] + halfsize[0])
-        ax[1].set_ylim(uv[1] + halfsize[1], uv[1] - halfsize[0])
+        ax[1].set_ylim(uv[1] + halfsize[1], uv[1] - halfsize[1])
 
         # Update plot
         def update_plot(i: int) -> list:
@@ -356,7 +356,7 @@ class Observer:
                 pt[j].set_xdata(puv[0])
                 pt[j].set_ydata(puv[1])
             ax[0].set_xlim(puv[0] - halfsize[0], puv[0] + halfsize[0])
-            ax[0].set_ylim(puv[1] + halfsize[1], puv[1] - halfsize[0])
+            ax[0].set_ylim(puv[1] + halfsize[1], puv[1] - halfsize[1])
             basename = helpers.strip_path(self.images[i].path)
             txt.set_text(str(i) + " : " + basename)
             return im + pt + [txt]
-- 
2.43.0


From 9eed2c3ebae981cc712e5d317cc06dbe37483ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:50 +0000
Subject: [PATCH 038/103] fix: Observer.sample_tile failed with grid=True

---
 src/glimpse/track/observer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index d6b06cb..f08990e 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -199,7 +199,8 @@ class Observer:
         Raises:
             ValueError: Some sampling points are outside box.
         """
-        if not np.all(helpers.in_box(uv, box)):
+        points = np.column_stack([x.flat for x in np.meshgrid(*uv)]) if grid else uv
+        if not np.all(helpers.in_box(points, box)):
             raise ValueError("Some sampling points are outside box")
         # Cell sizes
         du = (box[2] - box[0]) / tile.shape[1]
-- 
2.43.0


From c45ae8d3d926463ea17155f60f391024c57d85b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:42 +0000
Subject: [PATCH 039/103] fix: Observer.index returned an earlier Raster of
 equal values

---
 src/glimpse/track/observer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index f08990e..b4aaa78 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -97,6 +97,10 @@ class Observer:
                     "Nearest image out of range by " + str(dts[index] - abs(maxdt))
                 )
             return index
+        for i, img in enumerate(self.images):
+            # Rasters of different datetimes may be equal
+            if img is value:
+                return i
         return self.images.index(value)
 
     def xyz_to_uv(self, xyz: np.ndarray, img: int) -> np.ndarray:
-- 
2.43.0


From d43abb2f1d48c5f6cd7b13c795a1c2ac340224f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:00 +0000
Subject: [PATCH 040/103] fix: distances between datetimes depended on local
 daylight saving time

---
 src/glimpse/helpers.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 20cf547..f2bb8c5 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -1572,9 +1572,12 @@ def pairwise_distance_datetimes(
                [2., 3.],
                [1., 2.]])
     """
-    # Convert datetimes to POSIX timestamps (seconds since 1970-01-01 00:00:00 UTC)
-    x = [xi.timestamp() for xi in x]
-    y = [yi.timestamp() for yi in y]
+    # Convert datetimes to seconds since a common origin
+    # NOTE: POSIX timestamps of naive datetimes depend on the local time zone
+    x, y = list(x), list(y)
+    origin = x[0]
+    x = [(xi - origin).total_seconds() for xi in x]
+    y = [(yi - origin).total_seconds() for yi in y]
     return pairwise_distance(x, y, metric="minkowski", p=1)
 
 
-- 
2.43.0


From 2436496a9087d8de38d4d692db17e7cd1a98ba0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:00 +0000
Subject: [PATCH 041/103] fix: select_datetimes failed to snap a single
 datetime

---
 src/glimpse/helpers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index f2bb8c5..ea61997 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -174,6 +174,10 @@ def _sorted_neighbors(x: Iterable, y: Iterable) -> np.ndarray:
     index[(index > 0) & (index < len(x))] -= 1
     # index = len(x) snap to index - 2
     index[index == len(x)] -= 2
+    if len(x) == 1:
+        # Single value is the neighbor on both sides
+        index[:] = 0
+        return np.column_stack((index, index))
     return np.column_stack((index, index + 1))
 
 
-- 
2.43.0


From 583576e419da8e98c1ebd755ba408bf03b64eea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:00 +0000
Subject: [PATCH 042/103] fix: Observer.split could drop the last images when
 the interval did not divide evenly

---
 src/glimpse/track/observer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index b4aaa78..4b7e014 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -483,8 +483,10 @@ class Observer:
         if np.iterable(n):
             breaks = np.unique(np.hstack((n, self.datetimes[[0, -1]])))
         else:
-            dt = (self.datetimes[-1] - self.datetimes[0]) / n
-            breaks = helpers.datetime_range(self.datetimes[0], self.datetimes[-1], dt)
+            start, end = self.datetimes[0], self.datetimes[-1]
+            dt = (end - start) / n
+            # NOTE: dt is rounded, so end explicitly on the last image
+            breaks = [start + i * dt for i in range(n)] + [end]
         observers = []
         start = breaks[0]
         for i in range(len(breaks) - 1):
-- 
2.43.0


From 2d215f6ab77c834a02bd571accfb40a25fcf218c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:01 +0000
Subject: [PATCH 043/103] fix: Matches.filter left the camera coordinates of
 rotation matches unfiltered

---
 src/glimpse/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 2badb7a..75ed027 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -733,7 +733,7 @@ class Matches:
         # HACK: Support for RotationMatches
         if self.uvs:
             self.uvs = [uv[selected] for uv in self.uvs]
-        else:
+        if getattr(self, "xys", None):
             self.xys = [xy[selected] for xy in self.xys]
         if self.weights is not None:
             self.weights = self.weights[selected]
-- 
2.43.0


From 0d8e39d6db3c13713e3cae60016b5943e8fb9f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:01 +0000
Subject: [PATCH 044/103] fix: RotationMatchesXY failed without image
 coordinates

---
 src/glimpse/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 75ed027..08aba8d 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -541,7 +541,7 @@ class Matches:
         if self.cams[0] is self.cams[1]:
             raise ValueError("Both cameras are the same object")
         # HACK: Support subclasses with xyzs and optional uvs
-        uvs = self.uvs or self.xyzs
+        uvs = self.uvs or self.xys
         if len(self.cams) != 2 or len(uvs) != 2:
             raise ValueError(
                 "Cameras and point coordinates do not have two elements each"
-- 
2.43.0


From 36a75e3210090daf39d172dba8d7a6aa691d8a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:01 +0000
Subject: [PATCH 045/103] fix: Cameras.set_cameras ignored the parameters of
 cameras outside of groups

---
 src/glimpse/optimize.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 08aba8d..40c37aa 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1688,9 +1688,10 @@ class Cameras:
                 self.cams[j]._vector[self.group_masks[i]] = params[
                     self.group_breaks[i] : self.group_breaks[i + 1]
                 ]
-                self.cams[j]._vector[self.cam_masks[j]] = params[
-                    self.cam_breaks[j] : self.cam_breaks[j + 1]
-                ]
+        for j, cam in enumerate(self.cams):
+            cam._vector[self.cam_masks[j]] = params[
+                self.cam_breaks[j] : self.cam_breaks[j + 1]
+            ]
         if save:
             self.vectors = [cam.to_array() for cam in self.cams]
 
-- 
2.43.0


From 74b13d83d1322a2bb3a2384d61963acab786f1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:41 +0000
Subject: [PATCH 046/103] fix: Cameras.parse_params selected the first element
 for False and failed for arrays

---
 src/glimpse/optimize.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 40c37aa..0ea718c 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1494,14 +1494,16 @@ class Cameras:
                     selection = value[0]
                 else:
                     selection = value
-                if selection or selection == 0:
+                if selection is None or selection is False:
+                    selection = []
+                if np.size(selection):
                     i = attributes.index(key)
                     if selection is True:
                         positions = range(indices[i], indices[i + 1])
                     else:
                         positions = indices[i] + np.atleast_1d(selection)
                     mask[positions] = True
-                if isinstance(value, tuple):
+                if isinstance(value, tuple) and np.size(selection):
                     min_bounds = np.atleast_1d(value[1])
                     if len(min_bounds) == 1:
                         min_bounds = np.repeat(min_bounds, len(positions))
-- 
2.43.0


From 04a28f73cd9c9be120cff75e282b03280003987b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:41 +0000
Subject: [PATCH 047/103] fix: Cameras.fit iterations failed or ignored groups
 and weights

---
 src/glimpse/optimize.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 0ea718c..2eac9b5 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1816,6 +1816,8 @@ class Cameras:
                 then ordered by position in :meth:`Camera.to_array()`.
         """
         kwargs = {"nan_policy": "omit", **kwargs}
+        # Defaults specific to the parameters of each iteration are not passed on
+        iter_kwargs = dict(kwargs)
         if method == "leastsq":
             if self.scales is not None and "diag" not in kwargs:
                 kwargs["diag"] = self.scales
@@ -1854,9 +1856,13 @@ class Cameras:
                     cams=self.cams,
                     controls=self.controls,
                     cam_params=iter_cam_params,
+                    group_indices=self.group_indices,
                     group_params=iter_group_params,
+                    weights=self.weights,
+                    scales=self.scales is not None,
+                    sparsity=self.sparsity is not None,
                 )
-                values = model.fit(index=index, method=method, **kwargs)
+                values = model.fit(index=index, method=method, **iter_kwargs)
                 if values is not None:
                     model.set_cameras(params=values)
             self.update_params()
-- 
2.43.0


From 02bbae7504e22ef45a3c62e0cc621ded3e7f228c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:41 +0000
Subject: [PATCH 048/103] fix: Cameras.predicted left the cameras changed if
 the prediction failed

---
 src/glimpse/optimize.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 2eac9b5..7c325d5 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1732,20 +1732,18 @@ class Cameras:
             params: Parameter values (see :meth:`Cameras.set_cameras`).
             index: Indices of points to return.
         """
-        if params is not None:
-            vectors = [cam.to_array() for cam in self.cams]
-            self.set_cameras(params)
-        if len(self.controls) == 1:
-            result = self.controls[0].predicted(index=index)
-        else:
+        vectors = [cam.to_array() for cam in self.cams]
+        try:
+            if params is not None:
+                self.set_cameras(params)
+            if len(self.controls) == 1:
+                return self.controls[0].predicted(index=index)
             # TODO: Map index to subindices for each control
-            result = np.vstack([control.predicted() for control in self.controls])[
-                index
-            ]
-        if params is not None:
-            for cam, vector in zip(self.cams, vectors):
-                cam._vector = vector
-        return result
+            return np.vstack([control.predicted() for control in self.controls])[index]
+        finally:
+            if params is not None:
+                for cam, vector in zip(self.cams, vectors):
+                    cam._vector = vector
 
     def residuals(
         self, params: FitParams = None, index: Index = slice(None)
-- 
2.43.0


From 2c2deea5ad1a6db1f7705cb840d9be08a187cd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:41 +0000
Subject: [PATCH 049/103] fix: unsupported methods of RotationMatches failed
 with TypeError

---
 src/glimpse/optimize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 7c325d5..2fcf30a 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -913,7 +913,7 @@ class RotationMatchesXY(RotationMatches):
             return mtype(cams=self.cams, uvs=uvs, weights=self.weights)
         return mtype(cams=self.cams, uvs=self.uvs, xys=self.xys, weights=self.weights)
 
-    def plot() -> None:
+    def plot(self, *args: Any, **kwargs: Any) -> None:
         """Plotting is not available for RotationMatchesXY and RotationMatchesXYZ."""
         raise NotImplementedError()
 
@@ -968,7 +968,7 @@ class RotationMatchesXYZ(RotationMatchesXY):
         dxyz *= 1 / np.linalg.norm(dxyz, ord=2, axis=1, keepdims=True)
         return dxyz
 
-    def observed() -> None:
+    def observed(self, cam: CamIndex = 0, index: Index = slice(None)) -> None:
         """Observed image coordinates are not available for RotationMatchesXYZ."""
         raise NotImplementedError()
 
-- 
2.43.0


From 5141c7de1f7953ae84df0bd8f1193f7e0e3b0cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:41 +0000
Subject: [PATCH 050/103] fix: ObserverCameras.fit failed on current scipy and
 left cameras changed on failure

---
 src/glimpse/optimize.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 2fcf30a..4c3ee1b 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2079,10 +2079,12 @@ class ObserverCameras:
 
         # Optimize camera view directions
         viewdirs_0 = [img.cam.viewdir for img in self.observer.images]
-        result = scipy.optimize.minimize(
-            fun=fun, x0=viewdirs_0, jac=True, method=method, **kwargs
-        )
-        self.reset_cameras()
+        try:
+            result = scipy.optimize.minimize(
+                fun=fun, x0=np.ravel(viewdirs_0), jac=True, method=method, **kwargs
+            )
+        finally:
+            self.reset_cameras()
         if not result.success:
             sys.stdout.write("\n")  # new line
             print(result.message)
-- 
2.43.0


From e8ae2b4e301a99e302e7b57e1c71b2e7d6404bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:55 +0000
Subject: [PATCH 051/103] fix: Cameras.fit left the cameras changed if an
 iteration failed

---
 src/glimpse/optimize.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 4c3ee1b..a3c3548 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1844,7 +1844,7 @@ class Cameras:
             len(cam_params) if cam_params else 0,
             len(group_params) if group_params else 0,
         )
-        if iterations:
+        try:
             for n in range(iterations):
                 iter_cam_params = cam_params[n] if cam_params else self.cam_params
                 iter_group_params = (
@@ -1863,19 +1863,21 @@ class Cameras:
                 values = model.fit(index=index, method=method, **iter_kwargs)
                 if values is not None:
                     model.set_cameras(params=values)
-            self.update_params()
-        result = lmfit.minimize(
-            params=self.params,
-            fcn=self.residuals,
-            kws={"index": index},
-            iter_cb=callback,
-            method=method,
-            **kwargs
-        )
+            if iterations:
+                self.update_params()
+            result = lmfit.minimize(
+                params=self.params,
+                fcn=self.residuals,
+                kws={"index": index},
+                iter_cb=callback,
+                method=method,
+                **kwargs
+            )
+        finally:
+            if iterations:
+                self.reset_cameras()
+                self.update_params()
         sys.stdout.write("\n")
-        if iterations:
-            self.reset_cameras()
-            self.update_params()
         if not result.success:
             print(result.message)
         if full:
-- 
2.43.0


From 431926d345e49972bb299e7465861fed2110e550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:59 +0000
Subject: [PATCH 052/103] fix: ObserverCameras.fit passed an inexact gradient
 to the optimizer

---
 src/glimpse/optimize.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index a3c3548..aa37038 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2066,14 +2066,15 @@ class ObserverCameras:
                 # Project matches
                 dxyz = m.predicted(cam=0) - m.predicted(cam=1)
                 objective += np.sum(np.abs(dxyz))
-                # i -> j
-                xy_hat = np.column_stack((m.xys[0], np.ones(m.size)))
-                dD_dw = np.matmul(m.cams[0].Rprime, xy_hat.T)
                 delta = np.sign(dxyz).reshape(-1, 3, 1)
-                gradient = np.sum(np.matmul(dD_dw.T, delta).T, axis=2).squeeze()
-                gradients[i] += gradient
-                # j -> i
-                gradients[j] -= gradient
+                for k, idx, sign in ((0, i, 1), (1, j, -1)):
+                    # Unit ray of each match in the axes of its own camera
+                    xy_hat = np.column_stack((m.xys[k], np.ones(m.size)))
+                    xy_hat /= np.linalg.norm(xy_hat, axis=1, keepdims=True)
+                    dD_dw = np.matmul(m.cams[k].Rprime, xy_hat.T)
+                    gradients[idx] += sign * np.sum(
+                        np.matmul(dD_dw.T, delta), axis=0
+                    ).reshape(3)
             # Update console output
             sys.stdout.write("\r" + str(objective))
             sys.stdout.flush()
-- 
2.43.0


From b8b1d6f27af3d202556307681370d747509fd03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:59 +0000
Subject: [PATCH 053/103] fix: Cameras.fit with iterations discarded the
 current camera parameters

---
 src/glimpse/optimize.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index aa37038..98e3376 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1840,6 +1840,7 @@ class Cameras:
             sys.stdout.write("\r" + str(err))
             sys.stdout.flush()
 
+        vectors = [cam.to_array() for cam in self.cams]
         iterations = max(
             len(cam_params) if cam_params else 0,
             len(group_params) if group_params else 0,
@@ -1875,7 +1876,8 @@ class Cameras:
             )
         finally:
             if iterations:
-                self.reset_cameras()
+                for cam, vector in zip(self.cams, vectors):
+                    cam._vector = vector
                 self.update_params()
         sys.stdout.write("\n")
         if not result.success:
-- 
2.43.0


From cb61f2413a7ddd823ed1fab105deb202f8c9c519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:46 +0000
Subject: [PATCH 054/103] fix: KeypointMatcher.build_keypoints ignored
 overwrite for keypoints only in memory or on file

---
 src/glimpse/optimize.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 98e3376..f5482ca 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2417,13 +2417,15 @@ class KeypointMatcher:
                 written = False
             keypoints = self.keypoints[i]
             read = keypoints is not None
-            if not read and written and not clear_keypoints:
-                # Read keypoints from file
-                keypoints = helpers.read_pickle(outpath)
-            elif read and not written and path:
-                # Write keypoints to file
-                helpers.write_pickle(keypoints, path=outpath)
-            elif (not read and not written) or overwrite:
+            if not overwrite and not read and written:
+                if not clear_keypoints:
+                    # Read keypoints from file
+                    keypoints = helpers.read_pickle(outpath)
+            elif not overwrite and read:
+                if not written and path:
+                    # Write keypoints to file
+                    helpers.write_pickle(keypoints, path=outpath)
+            else:
                 # Detect keypoints
                 array = self._prepare_image(img.read())
                 keypoints = detect_keypoints(array, mask=masks[i], **kwargs)
-- 
2.43.0


From da820067aa87818a90460db05518ab2de81252f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:46 +0000
Subject: [PATCH 055/103] fix: KeypointMatcher.build_matches failed with a
 filter and clear_matches

---
 src/glimpse/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index f5482ca..1ab186c 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2530,7 +2530,7 @@ class KeypointMatcher:
                 matching_images[i] = m[np.isin(m, imgs)]
 
         def reduce(matches: Iterable[Matches]) -> Iterable[Matches]:
-            if filter:
+            if filter and not clear_matches:
                 for match in matches:
                     if match:
                         match.filter(**filter)
-- 
2.43.0


From 11154933017c88922e606cbdae2895cc7b640932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:46 +0000
Subject: [PATCH 056/103] fix: KeypointMatcher.build_matches required the
 second image of pairs to be in imgs

---
 src/glimpse/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 1ab186c..fe0ddd1 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2527,7 +2527,7 @@ class KeypointMatcher:
         # Filter matched image pairs
         if imgs is not None:
             for i, m in enumerate(matching_images):
-                matching_images[i] = m[np.isin(m, imgs)]
+                matching_images[i] = m[np.isin(i, imgs) | np.isin(m, imgs)]
 
         def reduce(matches: Iterable[Matches]) -> Iterable[Matches]:
             if filter and not clear_matches:
-- 
2.43.0


From 3357c477093271281dea89c1c5b28532a7a028f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:46 +0000
Subject: [PATCH 057/103] fix: KeypointMatcher.matches was not (n, n) or failed
 when images have no matches

---
 src/glimpse/optimize.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index fe0ddd1..f6aafbf 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2607,7 +2607,9 @@ class KeypointMatcher:
                 )
                 cols = np.concatenate(matching_images)
                 # HACK: Initialize with numeric data to avoid type errors
-                matches = scipy.sparse.coo_matrix(([1] * len(data), (rows, cols)))
+                matches = scipy.sparse.coo_matrix(
+                    ([1] * len(data), (rows, cols)), shape=(n, n)
+                )
                 matches.data = data
         if clear_matches:
             self.matches = None
-- 
2.43.0


From 1a389221786d0c43293d86a143956976cfe5468d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:46 +0000
Subject: [PATCH 058/103] fix: KeypointMatcher.drop_images left the keypoints
 of dropped images

---
 src/glimpse/optimize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index f6aafbf..3dff2ab 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2753,6 +2753,8 @@ class KeypointMatcher:
         self.matches._shape = (n, n)
         # Remove dropped images
         self.images = np.delete(self.images, drop)
+        if self.keypoints is not None:
+            self.keypoints = [self.keypoints[i] for i in np.setdiff1d(all, drop)]
 
     def match_breaks(self, min_matches: int = 0) -> np.ndarray:
         """Return breaks in pairwise image matches."""
-- 
2.43.0


From 61fadc9ac6dfbe1b37d4ea4e2cb376c7f007ba78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:46 +0000
Subject: [PATCH 059/103] fix: KeypointMatcher.match_breaks failed or returned
 wrong images for min_matches

---
 src/glimpse/optimize.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 3dff2ab..a675d3f 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2759,14 +2759,8 @@ class KeypointMatcher:
     def match_breaks(self, min_matches: int = 0) -> np.ndarray:
         """Return breaks in pairwise image matches."""
         self._test_matches()
-        all_starts = np.arange(len(self.images) - 1)
-        starts, counts = np.unique(self.matches.row, return_counts=True)
-        breaks = np.setdiff1d(all_starts, starts)
-        if min_matches:
-            min_matches = np.minimum(
-                min_matches, len(self.images) - np.arange(len(self.images))
-            )
-            breaks = np.sort(
-                np.concatenate((breaks, np.where(counts < min_matches)[0]))
-            )
-        return breaks
+        starts = np.arange(len(self.images) - 1)
+        counts = np.bincount(self.matches.row, minlength=len(self.images))[:-1]
+        # Images can only be matched to those that follow
+        min_matches = np.minimum(max(min_matches, 1), len(self.images) - 1 - starts)
+        return starts[counts < min_matches]
-- 
2.43.0


From da874725019ff7fb7f6854b813d1e584c325c4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:46 +0000
Subject: [PATCH 060/103] fix: match_keypoints failed or returned coordinates
 of the wrong shape without matches

---
 src/glimpse/optimize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index a675d3f..22f905d 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2289,8 +2289,8 @@ def match_keypoints(
             matches = [m for m in matches if (m[0].queryIdx, m[0].trainIdx) in ba]
         if max_ratio:
             matches = [m for m in matches if m[0].distance / m[1].distance < max_ratio]
-        uva = np.asarray([ka[0][m[0].queryIdx].pt for m in matches])
-        uvb = np.asarray([kb[0][m[0].trainIdx].pt for m in matches])
+        uva = np.asarray([ka[0][m[0].queryIdx].pt for m in matches]).reshape(-1, 2)
+        uvb = np.asarray([kb[0][m[0].trainIdx].pt for m in matches]).reshape(-1, 2)
         if return_ratios:
             ratios = np.array([m.distance / n.distance for m, n in matches])
         if max_distance:
-- 
2.43.0


From 396d7063c54cd68d8f8f7e55a40bfd35a2498b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:27 +0000
Subject: [PATCH 061/103] fix: ransac never drew the last of all possible
 samples for some sizes

---
 src/glimpse/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 22f905d..06988f8 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2187,7 +2187,7 @@ def _ransac_samples(n: int, size: int, iterations: int = 100) -> List[int]:
     )
     if log:
         # Compute max iterations if no float overflow
-        max_iterations = np.floor(np.exp(log))
+        max_iterations = np.round(np.exp(log))
         iterations = min(iterations, max_iterations)
     samples = set()
     indices = np.arange(size)
-- 
2.43.0


From 3713ac3fbe8e7442e5e5d60f60bdea7bf038c3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:03 +0000
Subject: [PATCH 062/103] fix: match_keypoints failed for a mask with
 cross_check or without matches

---
 src/glimpse/optimize.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 06988f8..2939405 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2283,9 +2283,12 @@ def match_keypoints(
     n = 2 if compute_ratios else 1
     if len(ka[0]) >= n and len(kb[0]) >= n:
         matches = matcher.knnMatch(ka[1], kb[1], k=n, mask=mask)
+        # Masked keypoints may have fewer matches
+        matches = [m for m in matches if len(m) == n]
         if cross_check:
-            matches_ba = matcher.knnMatch(kb[1], ka[1], k=n, mask=mask)
-            ba = [(m[0].trainIdx, m[0].queryIdx) for m in matches_ba]
+            mask_ba = None if mask is None else mask.T
+            matches_ba = matcher.knnMatch(kb[1], ka[1], k=n, mask=mask_ba)
+            ba = [(m[0].trainIdx, m[0].queryIdx) for m in matches_ba if len(m)]
             matches = [m for m in matches if (m[0].queryIdx, m[0].trainIdx) in ba]
         if max_ratio:
             matches = [m for m in matches if m[0].distance / m[1].distance < max_ratio]
-- 
2.43.0


From ee7e8476ab7c8fbaae96c906f1883d832112a083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:03 +0000
Subject: [PATCH 063/103] fix: build_matches kept the keypoints to clear when
 run in parallel

---
 src/glimpse/optimize.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 2939405..22c22cc 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2599,6 +2599,9 @@ class KeypointMatcher:
                 star=True,
                 sequence=tuple(enumerate(matching_images)),
             )
+            if clear_keypoints:
+                # Not cleared here by parallel processes
+                self.keypoints = [None] * n
             if not clear_matches:
                 # Build Coordinate Format (COO) matrix
                 data = np.concatenate(matches)
-- 
2.43.0


From fd853e63bad2d7c0112b02e50d4c8d1dd23a5d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:16 +0000
Subject: [PATCH 064/103] fix: RasterInterpolant failed for numbers and for
 rasters that are not aligned

---
 src/glimpse/raster.py | 40 +++++++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index ee9d41e..3d6b389 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1655,6 +1655,29 @@ class RasterInterpolant:
             return Grid((1, 1), x=(-np.inf, np.inf), y=(-np.inf, np.inf))
         raise ValueError("Cannot cast as Grid: " + str(type(obj)))
 
+    @staticmethod
+    def _match_grids(
+        rasters: List[Raster], objs: Iterable[Union[Raster, str, Number]]
+    ) -> None:
+        """Match the grids of two rasters, parsed from these objects (in place)."""
+        if rasters[0].grid == rasters[1].grid:
+            return
+        # Resample the second raster unless the first is a number
+        i = 0 if isinstance(objs[0], numbers.Number) else 1
+        grid = rasters[1 - i].grid
+        if isinstance(objs[i], numbers.Number):
+            rasters[i] = Raster(
+                np.full(grid.shape, rasters[i].array.item()),
+                x=grid.xlim,
+                y=grid.ylim,
+                datetime=rasters[i].datetime,
+            )
+            return
+        if rasters[i] is objs[i]:
+            rasters[i] = rasters[i].copy()
+        # Cells on the edge may extend beyond the other raster
+        rasters[i].resample(grid, bounds_error=False)
+
     def nearest(
         self, xi: Union[Number, datetime.datetime], extrapolate: bool = False
     ) -> Tuple[int, int]:
@@ -1757,7 +1780,10 @@ class RasterInterpolant:
         # Determine common grid (lowest resolution, smallest extent)
         grids = [self._read_mean_grid(k) for k in ij]
         if d is None:
-            d = np.max(np.abs(np.stack([grid.d for grid in grids])))
+            ds = np.abs(np.stack([grid.d for grid in grids]))
+            # Ignore the infinite rasters of numbers
+            finite = np.isfinite(ds)
+            d = np.max(ds[finite]) if finite.any() else None
         if xlim is None:
             xlim = (-np.inf, np.inf)
         if ylim is None:
@@ -1771,17 +1797,13 @@ class RasterInterpolant:
             self._read_mean(k, d=d, xlim=xlim, ylim=ylim, zlim=zlim, fun=fun, **kwargs)
             for k in ij
         ]
-        if means[0].grid != means[1].grid:
-            if means[1] is self.means[ij[1]]:
-                means[1] = means[1].copy()
-            means[1].resample(means[0])
+        self._match_grids(means, [self.means[k] for k in ij])
         # Read sigma rasters
         if return_sigma:
             sigmas = [self._read_sigma(k, d=d, xlim=xlim, ylim=ylim) for k in ij]
-            if sigmas[0].grid != sigmas[1].grid:
-                if sigmas[1] is self.sigmas[ij[1]]:
-                    sigmas[1] = sigmas[1].copy()
-                sigmas[1].resample(sigmas[0])
+            self._match_grids(
+                sigmas, [0 if self.sigmas is None else self.sigmas[k] for k in ij]
+            )
         else:
             sigmas = None
         # Interpolate
-- 
2.43.0


From 37b2ccbd2b6e9a3fd6cf59d2ce9e502067d4c44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:12 +0000
Subject: [PATCH 065/103] fix: Converter failed for few points on elongated
 images

---
 src/glimpse/convert/converter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/convert/converter.py b/src/glimpse/convert/converter.py
index 90c3cb3..e235dad 100644
--- a/src/glimpse/convert/converter.py
+++ b/src/glimpse/convert/converter.py
@@ -56,9 +56,9 @@ class Converter:
         d = np.sqrt(area / n)
         # Place points such that spacing to edge is half of interpoint spacing
         # - | -- | -- | -- | -
-        dx = imgsz[0] / round(imgsz[0] / d)
+        dx = imgsz[0] / max(round(imgsz[0] / d), 1)
         x = np.arange(0.5 * dx, imgsz[0], dx)
-        dy = imgsz[1] / round(imgsz[1] / d)
+        dy = imgsz[1] / max(round(imgsz[1] / d), 1)
         y = np.arange(0.5 * dy, imgsz[1], dy)
         return np.reshape(np.meshgrid(x, y), (2, -1)).T
 
-- 
2.43.0


From b75e6c8084636d38eaf797b28d821cb35841ec17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:12 +0000
Subject: [PATCH 066/103] fix: optimizing single elements of external camera
 parameters failed

---
 src/glimpse/convert/converter.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/convert/converter.py b/src/glimpse/convert/converter.py
index e235dad..c6303b3 100644
--- a/src/glimpse/convert/converter.py
+++ b/src/glimpse/convert/converter.py
@@ -115,7 +115,11 @@ class Converter:
             **kwargs: Optional arguments to :func:`scipy.optimize.least_squares`.
         """
         # Drop empty params and normalize value as a numpy index
-        indices = {k: slice(None) if v is True else v for k, v in params.items() if v}
+        indices = {
+            k: slice(None) if v is True else np.atleast_1d(v)
+            for k, v in params.items()
+            if v is not None and v is not False and np.size(v)
+        }
         x0 = []
         for key, idx in indices.items():
             value = np.atleast_1d(getattr(self.xcam, key))
@@ -125,7 +129,7 @@ class Converter:
             i = 0
             for key, idx in indices.items():
                 value = np.atleast_1d(getattr(self.xcam, key)).astype(float)
-                n = len(value) if isinstance(idx, slice) else len(np.atleast_1d(idx))
+                n = len(value[idx])
                 value[idx] = x[i : i + n]
                 setattr(self.xcam, key, tuple(value) if len(value) > 1 else value[0])
                 i += n
-- 
2.43.0


From daf743256a6c2919ce9dd7ff8a5f6d8f4ada8776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:41 +0000
Subject: [PATCH 067/103] fix: points on the far edges of the image frame could
 not be rasterized

---
 src/glimpse/camera.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/glimpse/camera.py b/src/glimpse/camera.py
index eac4197..145e482 100644
--- a/src/glimpse/camera.py
+++ b/src/glimpse/camera.py
@@ -854,10 +854,10 @@ class Camera:
                    [nan, nan,  3.]])
         """
         mask = self.inframe(uv)
+        # Points on the far edges of the frame fall in the last row or column
+        rc = np.minimum(uv[mask, ::-1].astype(int), self.imgsz[::-1] - 1)
         a = np.full((self.imgsz[1], self.imgsz[0]), np.nan)
-        helpers.rasterize_points(
-            uv[mask, 1].astype(int), uv[mask, 0].astype(int), values[mask], a=a
-        )
+        helpers.rasterize_points(rc[:, 0], rc[:, 1], values[mask], a=a)
         return a
 
     def spherical_to_xyz(self, angles: np.ndarray) -> np.ndarray:
@@ -1077,7 +1077,8 @@ class Camera:
             if not np.count_nonzero(is_in):
                 # No cells in image
                 return None
-            rc = uv[is_in, ::-1].astype(int)
+            # Points on the far edges of the frame fall in the last row or column
+            rc = np.minimum(uv[is_in, ::-1].astype(int), self.imgsz[::-1] - 1)
             # Compile values
             if has_values:
                 tile_values = tile_values[tile_mask][is_in]
-- 
2.43.0


From 85f2b6f4160e60580fa914ac65b629c36b4c5d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:42 +0000
Subject: [PATCH 068/103] fix: Camera.rasterize failed for points with several
 values

---
 src/glimpse/camera.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/camera.py b/src/glimpse/camera.py
index 145e482..5f13ec9 100644
--- a/src/glimpse/camera.py
+++ b/src/glimpse/camera.py
@@ -856,7 +856,10 @@ class Camera:
         mask = self.inframe(uv)
         # Points on the far edges of the frame fall in the last row or column
         rc = np.minimum(uv[mask, ::-1].astype(int), self.imgsz[::-1] - 1)
-        a = np.full((self.imgsz[1], self.imgsz[0]), np.nan)
+        shape = self.imgsz[1], self.imgsz[0]
+        if np.ndim(values) > 1 and np.shape(values)[1] > 1:
+            shape += (np.shape(values)[1],)
+        a = np.full(shape, np.nan)
         helpers.rasterize_points(rc[:, 0], rc[:, 1], values[mask], a=a)
         return a
 
-- 
2.43.0


From 8bcd4781cd699f6e8d411c9420881d68351d401e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:42 +0000
Subject: [PATCH 069/103] fix: Camera.project_dem failed for tiles that are
 rescaled

---
 src/glimpse/camera.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/glimpse/camera.py b/src/glimpse/camera.py
index 5f13ec9..662c1ee 100644
--- a/src/glimpse/camera.py
+++ b/src/glimpse/camera.py
@@ -1061,12 +1061,15 @@ class Camera:
                 tile_mask = scipy.ndimage.zoom(
                     tile_mask, zoom=float(tile_scale), order=0
                 )
-                tile_values = np.dstack(
-                    scipy.ndimage.zoom(
-                        tile_values[:, :, i], zoom=float(tile_scale), order=1
+                if has_values:
+                    tile_values = np.dstack(
+                        [
+                            scipy.ndimage.zoom(
+                                tile_values[:, :, i], zoom=float(tile_scale), order=1
+                            )
+                            for i in range(tile_values.shape[2])
+                        ]
                     )
-                    for i in range(tile_values.shape[2])
-                )
             # Project tile
             xyz = helpers.grid_to_points(
                 (tile.X[tile_mask], tile.Y[tile_mask], tile.array[tile_mask])
-- 
2.43.0


From 80801f397363ae7992829d58d4b1ec1280d05f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:35 +0000
Subject: [PATCH 070/103] fix: write_json corrupted strings in flat arrays and
 failed without indent

---
 src/glimpse/helpers.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index ea61997..87c51c9 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -292,15 +292,28 @@ def write_json(
         '{\n  "x": [0, 1]\n}'
     """
     txt = json.dumps(obj, **kwargs)
-    if flat_arrays and kwargs.get("indent") >= 0:
+    if flat_arrays and kwargs.get("indent") is not None:
         separators = kwargs.get("separators")
         sep = separators[0] if separators else ", "
         squished_sep = re.sub(r"\s", "", sep)
+        # Strings may contain brackets, separators, and whitespace
+        string = r'"(?:[^"\\]|\\.)*"'
+
+        def squish(match: Match) -> str:
+            token = match.group(0)
+            if token.startswith('"'):
+                return token
+            return "" if token.isspace() else sep
 
         def flatten(match: Match) -> str:
-            return re.sub(squished_sep, sep, re.sub(r"\s", "", match.group(0)))
+            token = match.group(0)
+            if token.startswith('"'):
+                return token
+            return re.sub(rf"{string}|\s+|{re.escape(squished_sep)}\s*", squish, token)
 
-        txt = re.sub(r"(\[\s*)+[^\]\{]*(\s*\])+", flatten, txt)
+        txt = re.sub(
+            rf'{string}|(?:\[\s*)+(?:{string}|[^\]\{{"])*(?:\s*\])+', flatten, txt
+        )
     if path:
         path = pathlib.Path(path)
         path.parent.mkdir(parents=True, exist_ok=True)
-- 
2.43.0


From f58b2b2e5c7f96fd49e728d191fa9591772579de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:53 +0000
Subject: [PATCH 071/103] fix: Camera.from_json failed for cameras with
 elevation corrections

---
 src/glimpse/camera.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/glimpse/camera.py b/src/glimpse/camera.py
index 662c1ee..00ea851 100644
--- a/src/glimpse/camera.py
+++ b/src/glimpse/camera.py
@@ -344,6 +344,9 @@ class Camera:
         """
         json_args = helpers.read_json(path)
         for key in json_args:
+            if key == "correction":
+                # Boolean or dictionary
+                continue
             # Conversion to float converts None to nan
             value = np.array(json_args[key], dtype=float)
             if np.isnan(value).all():
-- 
2.43.0


From f3c51e3c25607c07b0dba55b02611faa6cdd262a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:31 +0000
Subject: [PATCH 072/103] fix: pickles that are not binary could not be written
 or read

---
 src/glimpse/helpers.py | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 87c51c9..d542a6f 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -222,13 +222,11 @@ def write_pickle(
         **kwargs: Optional arguments to :func:`pickle.dump`.
     """
     pathlib.Path(path).parent.mkdir(parents=True, exist_ok=True)
-    mode = "wb" if binary else "w"
-    if gz:
-        fp = gzip.open(path, mode=mode)
-    else:
-        fp = open(path, mode=mode)
-    pickle.dump(obj, file=fp, **kwargs)
-    fp.close()
+    if not binary:
+        # Protocol 0 only uses ASCII characters
+        kwargs = {"protocol": 0, **kwargs}
+    with gzip.open(path, mode="wb") if gz else open(path, mode="wb") as fp:
+        pickle.dump(obj, file=fp, **kwargs)
 
 
 def read_pickle(path: str, gz: bool = False, binary: bool = True, **kwargs: Any) -> Any:
@@ -241,14 +239,9 @@ def read_pickle(path: str, gz: bool = False, binary: bool = True, **kwargs: Any)
         binary: Whether pickle is binary.
         **kwargs: Optional arguments to :func:`pickle.load`.
     """
-    mode = "rb" if binary else "r"
-    if gz:
-        fp = gzip.open(path, mode=mode)
-    else:
-        fp = open(path, mode=mode)
-    obj = pickle.load(fp, **kwargs)
-    fp.close()
-    return obj
+    # Pickles are always read as bytes
+    with gzip.open(path, mode="rb") if gz else open(path, mode="rb") as fp:
+        return pickle.load(fp, **kwargs)
 
 
 # ---- JSON ---- #
-- 
2.43.0


From 572dd0c8ff8c604af186fb2de7ad1550af0d9814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:42 +0000
Subject: [PATCH 073/103] fix: svg paths with leading whitespace or consecutive
 commands were misread

---
 src/glimpse/svg.py | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/src/glimpse/svg.py b/src/glimpse/svg.py
index a964de2..f60d2a9 100644
--- a/src/glimpse/svg.py
+++ b/src/glimpse/svg.py
@@ -658,20 +658,9 @@ class Points:
     @classmethod
     def _from_path(cls, d: str = "") -> "Points":
         # NOTE: Only vertices are preserved. All curvature information is discarded.
-        regex = {
-            "cmd": re.compile(r"[a-df-zA-DF-Z]+"),
-            "seq": re.compile(r"[^a-df-zA-DF-Z]+"),
-            "coord": COORD_REGEX,
-        }
-        commands = regex["cmd"].findall(d)
-        parameters = [
-            [_num(coord) for coord in regex["coord"].findall(seq)]
-            for seq in regex["seq"].findall(d)
-        ]
-        if commands and commands[-1] in ("Z", "z"):
-            parameters.append([])
         xy = []
-        for cmd, params in zip(commands, parameters):
+        for cmd, seq in re.findall(r"([a-df-zA-DF-Z])([^a-df-zA-DF-Z]*)", d):
+            params = [_num(coord) for coord in COORD_REGEX.findall(seq)]
             # moveTo: M (x,y)+ | lineTo: L (x,y)+ | curveTo: T (x,y)+
             if cmd in ("M", "L", "T"):
                 for x, y in _chunks(params, 2):
-- 
2.43.0


From 1fada0a71b927caf4a253abe3ddfc5dbd0b857e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:42 +0000
Subject: [PATCH 074/103] fix: svg subpaths were closed to the start of the
 first subpath

---
 src/glimpse/svg.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/svg.py b/src/glimpse/svg.py
index f60d2a9..2e82fe3 100644
--- a/src/glimpse/svg.py
+++ b/src/glimpse/svg.py
@@ -659,8 +659,12 @@ class Points:
     def _from_path(cls, d: str = "") -> "Points":
         # NOTE: Only vertices are preserved. All curvature information is discarded.
         xy = []
+        # Index of the first point of the current subpath
+        start = 0
         for cmd, seq in re.findall(r"([a-df-zA-DF-Z])([^a-df-zA-DF-Z]*)", d):
             params = [_num(coord) for coord in COORD_REGEX.findall(seq)]
+            if cmd in ("M", "m"):
+                start = len(xy)
             # moveTo: M (x,y)+ | lineTo: L (x,y)+ | curveTo: T (x,y)+
             if cmd in ("M", "L", "T"):
                 for x, y in _chunks(params, 2):
@@ -715,7 +719,7 @@ class Points:
                     xy.append((xy[-1][0] + dx, xy[-1][1] + dy))
             # closePath: Z | z
             elif cmd in ("Z", "z"):
-                xy.append(xy[0])
+                xy.append(xy[start])
             else:
                 raise ValueError(f"Invalid command encountered: {cmd}")
         return cls(xy)
-- 
2.43.0


From f7fef419e8f9351ee3a3818efe02fca990c993ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:42 +0000
Subject: [PATCH 075/103] fix: svg paths and polygons of a single point were
 written without it

---
 src/glimpse/svg.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/svg.py b/src/glimpse/svg.py
index 2e82fe3..ff67c8e 100644
--- a/src/glimpse/svg.py
+++ b/src/glimpse/svg.py
@@ -585,7 +585,8 @@ class Points:
         return pts
 
     def _to_polygon(self) -> Polygon:
-        xy = self.xy[:-1] if self.closed() else self.xy
+        closed = len(self.xy) > 1 and self.closed()
+        xy = self.xy[:-1] if closed else self.xy
         return {"points": self._xy_to_points(xy)}
 
     @classmethod
@@ -727,7 +728,8 @@ class Points:
     def _to_path(self) -> Path:
         # NOTE: Uses only moveTo (`M`), lineTo (`L`), and closePath (`Z`) if closed.
         commands = []
-        for i, xy in enumerate(self.xy[:-1] if self.closed() else self.xy):
+        closed = len(self.xy) > 1 and self.closed()
+        for i, xy in enumerate(self.xy[:-1] if closed else self.xy):
             x, y = xy
             if i == 0:
                 cmd = f"M {x},{y}"
@@ -736,7 +738,7 @@ class Points:
             else:
                 cmd = f"{x},{y}"
             commands.append(cmd)
-        if self.closed():
+        if closed:
             commands.append("Z")
         return {"d": " ".join(commands)}
 
-- 
2.43.0


From 26fea7a717f808744d58e3d7a5442a04a7d8f6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:42 +0000
Subject: [PATCH 076/103] fix: svg transform functions with a space before the
 parenthesis were ignored

---
 src/glimpse/svg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/svg.py b/src/glimpse/svg.py
index ff67c8e..e4be280 100644
--- a/src/glimpse/svg.py
+++ b/src/glimpse/svg.py
@@ -551,7 +551,7 @@ class Points:
             ValueError: Unsupported (or invalid) transform function: magic
         """
         points = self
-        for func, params in re.findall(r"([A-Za-z]+)\(([^\)]*)\)", transform):
+        for func, params in re.findall(r"([A-Za-z]+)\s*\(([^\)]*)\)", transform):
             method = getattr(points, func, None)
             if not method:
                 raise ValueError(f"Unsupported (or invalid) transform function: {func}")
-- 
2.43.0


From 727c00b29afde335723d5b495c61f1a0d32d093c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:21 +0000
Subject: [PATCH 077/103] fix: Raster.read with a box cached the box as the
 full raster

---
 src/glimpse/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 3d6b389..2109775 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -811,7 +811,7 @@ class Raster(Grid):
             raster = osgeo.gdal.Open(self.path, osgeo.gdal.GA_ReadOnly)
             band = raster.GetRasterBand(self._band)
             kwargs = self._gdal_kwargs
-            if box is not None:
+            if box is not None and not cache:
                 # Convert box coordinates to source coordinates
                 scale = np.array((kwargs["win_xsize"], kwargs["win_ysize"])) / np.array(
                     (kwargs["buf_xsize"], kwargs["buf_ysize"])
-- 
2.43.0


From 5f85a63026f38dd43468ebb4faa9a10a5f6fd1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:21 +0000
Subject: [PATCH 078/103] fix: Raster.read of a box of a resampled file
 truncated the window to whole cells

---
 src/glimpse/raster.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 2109775..1ceb52a 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -812,20 +812,23 @@ class Raster(Grid):
             band = raster.GetRasterBand(self._band)
             kwargs = self._gdal_kwargs
             if box is not None and not cache:
-                # Convert box coordinates to source coordinates
-                scale = np.array((kwargs["win_xsize"], kwargs["win_ysize"])) / np.array(
-                    (kwargs["buf_xsize"], kwargs["buf_ysize"])
+                # Convert box coordinates to (nearest) source columns and rows
+                cols, rows = (
+                    np.floor(
+                        kwargs[f"{dim}off"]
+                        + (np.arange(box[0][i], box[1][i]) + 0.5)
+                        * (kwargs[f"win_{dim}size"] / kwargs[f"buf_{dim}size"])
+                    ).astype(int)
+                    for i, dim in enumerate("xy")
                 )
-                sbox = box * scale + np.array((kwargs["xoff"], kwargs["yoff"]))
-                kwargs = dict(
-                    xoff=int(sbox[0][0]),
-                    yoff=int(sbox[0][1]),
-                    win_xsize=int(sbox[1][0] - sbox[0][0]),
-                    win_ysize=int(sbox[1][1] - sbox[0][1]),
-                    buf_xsize=int(box[1][0] - box[0][0]),
-                    buf_ysize=int(box[1][1] - box[0][1]),
-                )
-            array = band.ReadAsArray(**kwargs)
+                array = band.ReadAsArray(
+                    xoff=int(cols[0]),
+                    yoff=int(rows[0]),
+                    win_xsize=int(cols[-1] - cols[0] + 1),
+                    win_ysize=int(rows[-1] - rows[0] + 1),
+                )[np.ix_(rows - rows[0], cols - cols[0])]
+            else:
+                array = band.ReadAsArray(**kwargs)
             if self._nan is not None:
                 if not np.issubdtype(array.dtype, np.floating):
                     array = array.astype(float)
-- 
2.43.0


From 5d6ea078e11ce6139521e20f21d5958cffe7b6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:21 +0000
Subject: [PATCH 079/103] fix: Image.read of a box of a resized image had the
 wrong size

---
 src/glimpse/image.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/glimpse/image.py b/src/glimpse/image.py
index 2b9546c..ee67c5e 100644
--- a/src/glimpse/image.py
+++ b/src/glimpse/image.py
@@ -171,32 +171,37 @@ class Image:
             >>> np.all(tile == a[box[1] : box[3], box[0] : box[2]])
             True
         """
-        size = self._cache_imgsz or self._path_imgsz
         cam_size = tuple(self.cam.imgsz)
-        resize = cam_size != size
         new_array = True
-        if self.array is not None and not resize:
+        if self.array is not None and self._cache_imgsz == cam_size:
             array = self.array
             new_array = False
         else:
             ds = osgeo.gdal.Open(self.path)
+            size = ds.RasterXSize, ds.RasterYSize
             args = {}
-            if resize:
-                args["buf_xsize"], args["buf_ysize"] = cam_size
             if box is not None and not cache:
-                # Resize box to actual image size
-                xscale, yscale = size[0] / cam_size[0], size[1] / cam_size[1]
+                # Convert box coordinates to (nearest) image columns and rows
+                cols, rows = (
+                    np.floor(
+                        (np.arange(box[i], box[i + 2]) + 0.5) * (size[i] / cam_size[i])
+                    ).astype(int)
+                    for i in range(2)
+                )
                 # Read image subset
-                args["xoff"] = int(round(box[0] * xscale))
-                args["win_xsize"] = int(round((box[2] - box[0]) * xscale))
-                args["yoff"] = int(round(box[1] * yscale))
-                args["win_ysize"] = int(round((box[3] - box[1]) * yscale))
+                args["xoff"], args["yoff"] = int(cols[0]), int(rows[0])
+                args["win_xsize"] = int(cols[-1] - cols[0] + 1)
+                args["win_ysize"] = int(rows[-1] - rows[0] + 1)
+            elif cam_size != size:
+                args["buf_xsize"], args["buf_ysize"] = cam_size
             array = np.dstack(
                 [
                     ds.GetRasterBand(i + 1).ReadAsArray(**args)
                     for i in range(ds.RasterCount)
                 ]
             )
+            if box is not None and not cache:
+                array = array[np.ix_(rows - rows[0], cols - cols[0])]
             if array.shape[2] == 1:
                 array = array.squeeze(axis=2)
             if cache:
-- 
2.43.0


From 23db67fdff7ce23ecafaa2757fa833fc3cb5876f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:21 +0000
Subject: [PATCH 080/103] fix: write_raster with nan left NaN in the file

---
 src/glimpse/helpers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index d542a6f..24c7a9c 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -617,9 +617,11 @@ def write_raster(
         wkt = crs_to_wkt(crs)
         output.SetProjection(wkt)
     for i in range(output.RasterCount):
+        band = a[:, :, i]
         if nan is not None:
             output.GetRasterBand(i + 1).SetNoDataValue(nan)
-        output.GetRasterBand(i + 1).WriteArray(a[:, :, i])
+            band = np.where(np.isnan(band), nan, band).astype(a.dtype)
+        output.GetRasterBand(i + 1).WriteArray(band)
     if not can_create:
         output = driver.CreateCopy(path, output, 0)
     output.FlushCache()
-- 
2.43.0


From db58576f46523e64f2d90d58fa9154c356061ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:41 +0000
Subject: [PATCH 081/103] fix: read the image size from exif if it is the only
 one missing

Custom fmm and sensorsz without imgsz raised TypeError, and a custom f without
imgsz was combined with the focal length of the exif tags and rejected.
---
 src/glimpse/image.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/glimpse/image.py b/src/glimpse/image.py
index ee67c5e..f9dea87 100644
--- a/src/glimpse/image.py
+++ b/src/glimpse/image.py
@@ -93,16 +93,10 @@ class Image:
         if not cam:
             cam = {}
         if isinstance(cam, dict):
-            if not (
-                "imgsz" in cam and "f" in cam or ("fmm" in cam and "sensorsz" in cam)
-            ):
+            keys = ("imgsz",) if "f" in cam else ("imgsz", "fmm", "sensorsz")
+            if not all(key in cam for key in keys):
                 exif = exif or Exif(path)
-                cam = {
-                    "imgsz": exif.imgsz,
-                    "fmm": exif.fmm,
-                    "sensorsz": exif.sensorsz,
-                    **cam,
-                }
+                cam = {**{key: getattr(exif, key) for key in keys}, **cam}
             cam = Camera(**cam)
         self.cam = cam
         if not datetime:
-- 
2.43.0


From 0071ff043193255d4a14bd35367f33670b89df87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:41 +0000
Subject: [PATCH 082/103] fix: exif tags of zero denominator (unknown) are
 missing

---
 src/glimpse/exif.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/exif.py b/src/glimpse/exif.py
index fe5a890..7509819 100644
--- a/src/glimpse/exif.py
+++ b/src/glimpse/exif.py
@@ -173,7 +173,8 @@ class Exif:
         if isinstance(value, bytes):
             return value.decode()
         if isinstance(value, tuple) and len(value) == 2:
-            return value[0] / value[1]
+            # Unknown (or infinite) rational numbers have a denominator of zero
+            return value[0] / value[1] if value[1] else None
         return value
 
     def dump(self) -> bytes:
-- 
2.43.0


From bdeadce74d0a3a374aface2e59ee85ccd8c23d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:44 +0000
Subject: [PATCH 083/103] fix: Image.project lost outermost pixels to rounding
 errors

---
 src/glimpse/image.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/glimpse/image.py b/src/glimpse/image.py
index f9dea87..582df7b 100644
--- a/src/glimpse/image.py
+++ b/src/glimpse/image.py
@@ -337,6 +337,9 @@ class Image:
             pv = v
         else:
             pv = np.linspace(0.5, self.cam.imgsz[1] - 0.5, self.cam.imgsz[1])
+        # Include points on the outermost pixel centers despite rounding errors
+        edge = np.clip(pvu, (pv[0], pu[0]), (pv[-1], pu[-1]))
+        pvu = np.where(np.isclose(pvu, edge, rtol=0, atol=1e-6), edge, pvu)
         # Prepare source image
         array = self.read()
         if array.ndim < 3:
-- 
2.43.0


From 0c1c38b20004430ff2088e725595576a5f0e8e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:18 +0000
Subject: [PATCH 084/103] fix: rays along a face of a box do not miss it

---
 src/glimpse/helpers.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 24c7a9c..d28db39 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -832,16 +832,25 @@ def intersect_rays_box(
     nrays = directions.shape[0]
     ndims = directions.shape[1]
     all_rays = np.arange(nrays)
+
+    def unbound(tmin: np.ndarray, tmax: np.ndarray, axis: int) -> None:
+        # Rays in the plane of a box face are not bounded by it (0 * inf)
+        parallel = np.isinf(invdir[:, axis])
+        tmin[parallel & np.isnan(tmin)] = -np.inf
+        tmax[parallel & np.isnan(tmax)] = np.inf
+
     # Initialize intersections on x-axis
     idx = np.ravel_multi_index((all_rays, sign[:, 0] * ndims), bounds.shape)
     tmin = (fbounds[idx] - origin[0]) * invdir[:, 0]
     idx = np.ravel_multi_index((all_rays, (1 - sign[:, 0]) * ndims), bounds.shape)
     tmax = (fbounds[idx] - origin[0]) * invdir[:, 0]
+    unbound(tmin, tmax, axis=0)
     # Apply y-axis intersections
     idx = np.ravel_multi_index((all_rays, 1 + sign[:, 1] * ndims), bounds.shape)
     tymin = (fbounds[idx] - origin[1]) * invdir[:, 1]
     idx = np.ravel_multi_index((all_rays, 1 + (1 - sign[:, 1]) * ndims), bounds.shape)
     tymax = (fbounds[idx] - origin[1]) * invdir[:, 1]
+    unbound(tymin, tymax, axis=1)
     misses = (tmin > tymax) | (tymin > tmax)
     tmin[misses] = np.nan
     tmax[misses] = np.nan
@@ -857,6 +866,7 @@ def intersect_rays_box(
             (all_rays, 2 + (1 - sign[:, 2]) * ndims), bounds.shape
         )
         tzmax = (fbounds[idx] - origin[2]) * invdir[:, 2]
+        unbound(tzmin, tzmax, axis=2)
         misses = (tmin > tzmax) | (tzmin > tmax)
         tmin[misses] = np.nan
         tmax[misses] = np.nan
-- 
2.43.0


From 52d1f4bd0fc82962eb3ae928e745a3deb31f809a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:42 +0000
Subject: [PATCH 085/103] fix: interpolate_line dropped points unless the
 spacing divided the line evenly

---
 src/glimpse/helpers.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index d28db39..3a483d9 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -1158,10 +1158,7 @@ def interpolate_line(
         x = np.insert(x, 0, 0)
     if xi is None:
         if n is None:
-            n = abs((x[-1] - x[0]) / dx)
-            if n == int(n):
-                n += 1
-            n = int(round(n))
+            n = int(round(abs((x[-1] - x[0]) / dx))) + 1
         xi = np.linspace(start=x[0], stop=x[-1], num=n, endpoint=True)
         # Ensure defaults for speed
         error = False
-- 
2.43.0


From b3a0bbacedf30325b8788f6ca32e42d0e111aee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:08 +0000
Subject: [PATCH 086/103] fix: gaussian_filter with a mask failed for integer
 arrays

---
 src/glimpse/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 3a483d9..e765045 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -373,7 +373,7 @@ def gaussian_filter(
     """
     if mask is None:
         return scipy.ndimage.filters.gaussian_filter(a, **kwargs)
-    x = a.copy()
+    x = a.astype(np.result_type(a, np.float32))
     x[~mask] = 0
     xf = scipy.ndimage.filters.gaussian_filter(x, **kwargs)
     x[mask] = 1
-- 
2.43.0


From 9dc8f517547e2b95d682cfd3f317bdb7281a35fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:08 +0000
Subject: [PATCH 087/103] fix: Raster.horizon failed from outside or the border
 of the raster, or over missing cells

---
 src/glimpse/raster.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 1ceb52a..3fbfa0f 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1436,14 +1436,18 @@ class Raster(Grid):
         # Intersect with box (2d)
         box = np.concatenate((self.min[0:2], self.max[0:2]))
         xy_starts, xy_ends = helpers.intersect_rays_box(origin[0:2], directions, box)
+        # Skip rays which miss the raster
+        hits = np.flatnonzero(~np.isnan(xy_ends[:, 0]))
+        xy_starts, xy_ends = xy_starts[hits], xy_ends[hits]
         # Convert spatial coordinates (x, y) to grid indices (xi, yi)
         inside = self.inbounds_xy(np.atleast_2d(origin[0:2]))[0]
         if inside:
             # If inside, start at origin
             rowcol = self.xy_to_rowcol(np.atleast_2d(origin[0:2]), snap=True)
-            starts = np.repeat(rowcol[:, ::-1], n, axis=0)
+            starts = np.repeat(rowcol[:, ::-1], len(hits), axis=0)
         else:
-            rowcol = self.xy_to_rowcol(xy_starts)
+            xy_starts = np.clip(xy_starts, self.min[0:2], self.max[0:2])
+            rowcol = self.xy_to_rowcol(xy_starts, snap=True)
             starts = rowcol[:, ::-1]
         # Rounding may leave the intersection just outside of the box
         xy_ends = np.clip(xy_ends, self.min[0:2], self.max[0:2])
@@ -1451,14 +1455,16 @@ class Raster(Grid):
         ends = rowcol[:, ::-1]
         # Iterate over line in each direction
         hxyz = np.full((n, 3), np.nan)
-        for i in range(n):
-            rowcol = helpers.bresenham_line(starts[i, :], ends[i, :])[:, ::-1]
+        for i, start, end in zip(hits, starts, ends):
+            rowcol = helpers.bresenham_line(start, end)[:, ::-1]
             if inside:
                 # Skip start cell
                 rowcol = rowcol[1:]
             idx = self.rowcol_to_idx(rowcol)
             # TODO: Precompute Z.flatten()?
             dz = self.array.flat[idx] - origin[2]
+            if np.isnan(dz).all():
+                continue
             xy = self.rowcol_to_xy(rowcol)
             dxy = np.sum((xy - origin[0:2]) ** 2, axis=1)  # wait to take square root
             if isinstance(correction, dict):
-- 
2.43.0


From 5c4d8d38d006fdc806e87857800218475143425d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:03 +0000
Subject: [PATCH 088/103] fix: points within rounding of the right or bottom
 edge of a grid snapped out of bounds

---
 src/glimpse/raster.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 3fbfa0f..1f26f8a 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -380,9 +380,10 @@ class Grid:
             nxy *= 2
         nxy = np.floor(nxy + 0.5)
         if not edges and inbounds:
-            # Points on right or bottom edges snap down to stay in bounds
-            is_outer_edge = xy == np.append(self.xlim[1], self.ylim[1])
-            nxy = np.where(is_outer_edge, self.size - 1, nxy)
+            # Points on right or bottom edges (or within rounding of these)
+            # snap down to stay in bounds
+            is_inbounds = (xy >= self.min[0:2]) & (xy <= self.max[0:2])
+            nxy = np.where(is_inbounds, np.minimum(nxy, self.size - 1), nxy)
         if centers and not edges:
             nxy += 0.5
         elif centers and edges:
-- 
2.43.0


From a2d230c7ec21e6a5a13cc4db3ba03cef93bc3075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:16 +0000
Subject: [PATCH 089/103] fix: Observer.animate failed for every frame (tiles
 with boundaries that are not integers)

---
 src/glimpse/track/observer.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index 4b7e014..99d7dcd 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -319,7 +319,7 @@ class Observer:
         halfsize = (size[0] * 0.5, size[1] * 0.5)
         # Initialize plot
         fig, ax = matplotlib.pyplot.subplots(ncols=2, **subplots)
-        box = self.tile_box(uv, size=size, img=0)
+        box = self.tile_box(uv, size=size, img=frames[0])
         tile = self.extract_tile(img=frames[0], box=box)
         im = [self.plot_tile(tile=tile, box=box, axes=axes) for axes in ax]
         pt = [axis.plot(uv[0], uv[1], marker=".", color="red")[0] for axis in ax]
@@ -348,9 +348,11 @@ class Observer:
                         (box, np.concatenate(([0, 0], self.images[i].size)))
                     )
                 grid = Grid(self.images[i].size)
-                box = grid.snap_xy(
-                    helpers.unravel_box(box), centers=False, edges=True
-                ).ravel()
+                box = (
+                    grid.snap_xy(helpers.unravel_box(box), centers=False, edges=True)
+                    .ravel()
+                    .astype(int)
+                )
                 tile = self.extract_tile(img=i, box=box)
             else:
                 # Use white tile
-- 
2.43.0


From 28b9045cd654b8f17aa679ce119ae6727d9f346d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:16 +0000
Subject: [PATCH 090/103] fix: Observer.track failed for frames given as a list

---
 src/glimpse/track/observer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index 99d7dcd..bdd884f 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -402,12 +402,13 @@ class Observer:
         """
         if frames is None:
             frames = np.arange(len(xyz))
+        frames = np.asarray(frames)
         halfsize = (size[0] * 0.5, size[1] * 0.5)
         # Initialize plot
         fig, ax = matplotlib.pyplot.subplots(ncols=2, **subplots)
         track_uv: np.ndarray = self.images[frames[0]].xyz_to_uv(xyz[0:1])
         uv = track_uv[-1]
-        box = self.tile_box(uv, size=size, img=0)
+        box = self.tile_box(uv, size=size, img=frames[0])
         tile = self.extract_tile(img=frames[0], box=box)
         im = [self.plot_tile(tile=tile, box=box, axes=axes, zorder=1) for axes in ax]
         track = ax[1].plot(track_uv[:, 0], track_uv[:, 1], "y.-", alpha=0.5, zorder=2)[
-- 
2.43.0


From f5bf0205fea946c1245453a55c3bd1f3d986afc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:16 +0000
Subject: [PATCH 091/103] fix: Tracks.animate failed for every frame
 (collections of axes cannot be set), or without a tracker

---
 src/glimpse/track/tracks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/track/tracks.py b/src/glimpse/track/tracks.py
index ce7fb73..8172125 100644
--- a/src/glimpse/track/tracks.py
+++ b/src/glimpse/track/tracks.py
@@ -392,7 +392,8 @@ class Tracks:
         def update_plot(i: int) -> tuple:
             # PathCollections cannot set x, y, so new objects have to be created
             for ax in axes:
-                ax.collections = []
+                for artist in list(ax.collections):
+                    artist.remove()
             img = self.images[i, obs]
             if particles:
                 # Map: Particles
@@ -480,7 +481,6 @@ class Tracks:
                 )
             else:
                 basename = str(obs) + " : " + str(img)
-            basename = helpers.strip_path(self.tracker.observers[obs].images[img].path)
             map_txt.set_text(basename)
             if images:
                 return map_track, map_txt, image_track, image_tile, image_mean
-- 
2.43.0


From 31a8121e21a98d01c89051bb1e3e42445c245f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:16 +0000
Subject: [PATCH 092/103] fix: Tracks.animate scaled velocities by the interval
 of another frame

---
 src/glimpse/track/tracks.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/glimpse/track/tracks.py b/src/glimpse/track/tracks.py
index 8172125..561ea63 100644
--- a/src/glimpse/track/tracks.py
+++ b/src/glimpse/track/tracks.py
@@ -388,6 +388,7 @@ class Tracks:
             scales = np.ones(len(frames) - 1)
         # Discard last frame
         frames = frames[:-1]
+        scales = dict(zip(frames, scales))
 
         def update_plot(i: int) -> tuple:
             # PathCollections cannot set x, y, so new objects have to be created
-- 
2.43.0


From 9f63ce26bb393a03c3f168a18d47a0fcfb30416c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:16 +0000
Subject: [PATCH 093/103] fix: Polynomial.plot failed unless both selected and
 unselected points are drawn

---
 src/glimpse/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 22c22cc..dd97900 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1106,7 +1106,7 @@ class Polynomial:
             (index, selected, "selected"),
         ]:
             if not len(idx) or args is None:
-                result = None
+                result[label] = None
                 continue
             if not isinstance(args, dict):
                 args = {"c": args}
-- 
2.43.0


From ba99c92e2fed670e440a731b995e6d8e11f6e318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:16 +0000
Subject: [PATCH 094/103] fix: Cameras.plot failed for an array of indices

---
 src/glimpse/optimize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index dd97900..a6e1c85 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1925,7 +1925,8 @@ class Cameras:
                 matplotlib.pyplot.plot (dict), color, or `None` to hide.
             **kwargs: Optional arguments to matplotlib.pyplot.quiver for all points.
         """
-        if index != slice(None) and len(self.controls) > 1:
+        is_all = isinstance(index, slice) and index == slice(None)
+        if not is_all and len(self.controls) > 1:
             # TODO: Map index to subindices for each control
             raise ValueError(
                 "Plotting with `index` not yet supported with multiple controls"
-- 
2.43.0


From 9ed69aa53d1e051ff7deddfb81b7aba1cf662ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:16 +0000
Subject: [PATCH 095/103] fix: Cameras.plot left cameras changed if plotting
 failed

---
 src/glimpse/optimize.py | 68 +++++++++++++++++++++--------------------
 1 file changed, 35 insertions(+), 33 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index a6e1c85..a47163b 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1931,39 +1931,41 @@ class Cameras:
             raise ValueError(
                 "Plotting with `index` not yet supported with multiple controls"
             )
-        if params is not None:
-            vectors = [cam.to_array() for cam in self.cams]
-            self.set_cameras(params)
-        cam = self.cams[cam] if isinstance(cam, int) else cam
-        cam_controls = self.prune_controls(self.controls, cams=[cam])
-        results = []
-        for control in cam_controls:
-            if isinstance(control, Lines):
-                result = control.plot(
-                    index=index,
-                    selected=selected,
-                    unselected=unselected,
-                    observed=lines_observed,
-                    predicted=lines_predicted,
-                    **kwargs
-                )
-            elif isinstance(control, Points):
-                result = control.plot(
-                    index=index, selected=selected, unselected=unselected, **kwargs
-                )
-            elif isinstance(control, Matches):
-                result = control.plot(
-                    cam=cam,
-                    index=index,
-                    selected=selected,
-                    unselected=unselected,
-                    **kwargs
-                )
-            results.append(result)
-        if params is not None:
-            for cam, vector in zip(self.cams, vectors):
-                cam._vector = vector
-        return results
+        vectors = [cam.to_array() for cam in self.cams]
+        try:
+            if params is not None:
+                self.set_cameras(params)
+            cam = self.cams[cam] if isinstance(cam, int) else cam
+            cam_controls = self.prune_controls(self.controls, cams=[cam])
+            results = []
+            for control in cam_controls:
+                if isinstance(control, Lines):
+                    result = control.plot(
+                        index=index,
+                        selected=selected,
+                        unselected=unselected,
+                        observed=lines_observed,
+                        predicted=lines_predicted,
+                        **kwargs
+                    )
+                elif isinstance(control, Points):
+                    result = control.plot(
+                        index=index, selected=selected, unselected=unselected, **kwargs
+                    )
+                elif isinstance(control, Matches):
+                    result = control.plot(
+                        cam=cam,
+                        index=index,
+                        selected=selected,
+                        unselected=unselected,
+                        **kwargs
+                    )
+                results.append(result)
+            return results
+        finally:
+            if params is not None:
+                for camera, vector in zip(self.cams, vectors):
+                    camera._vector = vector
 
     def plot_weights(
         self, index: Index = slice(None), **kwargs: Any
-- 
2.43.0


From 39274fefdfd164217fb83600cd95bff9a1722967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:41 +0000
Subject: [PATCH 096/103] fix: Raster.grid dropped the coordinate reference
 system

---
 src/glimpse/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 1f26f8a..b9dede6 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -898,7 +898,7 @@ class Raster(Grid):
     @property
     def grid(self) -> "Grid":
         """Raster grid."""
-        return Grid(self.size, x=self.xlim, y=self.ylim)
+        return Grid(self.size, x=self.xlim, y=self.ylim, crs=self.crs)
 
     # ---- Properties (cached) ----
 
-- 
2.43.0


From f4e151f29afbf138e10676a31317cb507f1ce635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:21 +0000
Subject: [PATCH 097/103] fix: position scale of a camera was not of the mean
 distance to world features

---
 src/glimpse/optimize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index a47163b..a874b01 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1360,7 +1360,8 @@ class Cameras:
             if xyz:
                 # NOTE: Upper bound (assumes motion perpendicular to feature direction)
                 dpixels[0:3] = (
-                    cam.f.mean() / np.linalg.norm(np.vstack(xyz) - cam.xyz).mean()
+                    cam.f.mean()
+                    / np.linalg.norm(np.vstack(xyz) - cam.xyz, axis=1).mean()
                 )
         # viewdir[0, 1]
         # First angle rotates camera left-right
-- 
2.43.0


From 8a64cd4413050a52a1df73a646cb3a331d1e9a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:21 +0000
Subject: [PATCH 098/103] fix: samples of a raster on a grid were missing, or
 wild, beyond its outer cell centers

---
 src/glimpse/raster.py | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index b9dede6..6613fa5 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1066,25 +1066,28 @@ class Raster(Grid):
         """Sample raster values on regular grid."""
         x, y = xy
         signs = np.sign(self.d).astype(int)
-        # HACK: scipy.interpolate.RectBivariateSpline does not support NAN
-        Zmin = np.nanmin(self.array)
+        # NOTE: scipy.interpolate.RectBivariateSpline does not support NAN
         is_nan = np.isnan(self.array)
         array = self.array.copy()
-        array[is_nan] = helpers.numpy_dtype_minmax(array.dtype)[0]
-        fun = scipy.interpolate.RectBivariateSpline(
-            self.y[:: signs[1]],
-            self.x[:: signs[0]],
-            array[:: signs[1], :: signs[0]],
-            bbox=(min(self.ylim), max(self.ylim), min(self.xlim), max(self.xlim)),
-            kx=kx,
-            ky=ky,
-            s=s,
-        )
+        array[is_nan] = 0
+
+        def interpolate(values: np.ndarray, **kwargs: Any) -> np.ndarray:
+            fun = scipy.interpolate.RectBivariateSpline(
+                self.y[:: signs[1]],
+                self.x[:: signs[0]],
+                values[:: signs[1], :: signs[0]],
+                bbox=(min(self.ylim), max(self.ylim), min(self.xlim), max(self.xlim)),
+                **kwargs
+            )
+            return fun(y[::ydir], x[::xdir], grid=True)[::ydir, ::xdir]
+
         xdir = 1 if (len(x) < 2) or x[1] > x[0] else -1
         ydir = 1 if (len(y) < 2) or y[1] > y[0] else -1
-        samples = fun(y[::ydir], x[::xdir], grid=True)[::ydir, ::xdir]
+        samples = interpolate(array, kx=kx, ky=ky, s=s)
         if is_nan.any():
-            samples[samples < Zmin] = np.nan
+            # Samples to which missing cells contribute are missing
+            weights = interpolate(is_nan.astype(float), kx=1, ky=1, s=0)
+            samples[np.abs(weights) > 1e-6] = np.nan
         return samples
 
     def resample(self, grid: Grid, **kwargs: Any) -> None:
-- 
2.43.0


From 54792932c8ce15b8681792e0af7d89393926c2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:05 +0000
Subject: [PATCH 099/103] fix: Raster.crop failed for integers that are all
 within the bounds

---
 src/glimpse/raster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 6613fa5..aaa9c59 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1195,7 +1195,8 @@ class Raster(Grid):
                 warnings.warn("array cast to float to accommodate NaN")
                 self.array = self.array.astype(float)
             array = self.array.copy()
-            array[outbounds] = np.nan
+            if np.count_nonzero(outbounds):
+                array[outbounds] = np.nan
             self.array = array
 
     def resize(self, scale: Number, order: int = 1) -> None:
-- 
2.43.0


From a18581fe85b3c59ec7f26e84fc77be8d3a8985cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:22 +0000
Subject: [PATCH 100/103] fix: interpolate_line swapped fill values along
 decreasing distances

---
 src/glimpse/helpers.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index e765045..2498bf7 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -1164,7 +1164,8 @@ def interpolate_line(
         error = False
         fill = "endpoints"
     # x must be increasing
-    if len(x) > 1 and x[1] < x[0]:
+    reverse = len(x) > 1 and x[1] < x[0]
+    if reverse:
         sort_index = np.argsort(x)
         x = x[sort_index]
         vertices = vertices[sort_index, :]
@@ -1176,12 +1177,12 @@ def interpolate_line(
         if error is False:
             return result
         fill = (vertices[0], vertices[-1])
-    if not np.iterable(fill):
+    elif not np.iterable(fill):
         fill = (fill, fill)
+    elif reverse:
+        fill = fill[::-1]
     left = np.less(xi, x[0])
     right = np.greater(xi, x[-1])
-    if x[0] > x[-1]:
-        right, left = left, right
     if error and (left.any() or right.any()):
         raise ValueError("Requested distance outside range")
     result[left, :] = fill[0]
-- 
2.43.0


From 10f01f1c7e2ceb6660effd16291037845988e162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:34 +0000
Subject: [PATCH 101/103] fix: RasterInterpolant mixed standard deviations of
 other grids than its means

---
 src/glimpse/raster.py | 53 +++++++++++++++++++++++++------------------
 1 file changed, 31 insertions(+), 22 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index aaa9c59..486eff7 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1670,27 +1670,24 @@ class RasterInterpolant:
         raise ValueError("Cannot cast as Grid: " + str(type(obj)))
 
     @staticmethod
-    def _match_grids(
-        rasters: List[Raster], objs: Iterable[Union[Raster, str, Number]]
-    ) -> None:
-        """Match the grids of two rasters, parsed from these objects (in place)."""
-        if rasters[0].grid == rasters[1].grid:
-            return
-        # Resample the second raster unless the first is a number
-        i = 0 if isinstance(objs[0], numbers.Number) else 1
-        grid = rasters[1 - i].grid
-        if isinstance(objs[i], numbers.Number):
-            rasters[i] = Raster(
-                np.full(grid.shape, rasters[i].array.item()),
+    def _match_grid(
+        raster: Raster, obj: Union[Raster, str, Number], grid: Grid
+    ) -> Raster:
+        """Match a raster, parsed from this object, to a grid."""
+        if raster.grid == grid:
+            return raster
+        if isinstance(obj, numbers.Number):
+            return Raster(
+                np.full(grid.shape, raster.array.item()),
                 x=grid.xlim,
                 y=grid.ylim,
-                datetime=rasters[i].datetime,
+                datetime=raster.datetime,
             )
-            return
-        if rasters[i] is objs[i]:
-            rasters[i] = rasters[i].copy()
+        if raster is obj:
+            raster = raster.copy()
         # Cells on the edge may extend beyond the other raster
-        rasters[i].resample(grid, bounds_error=False)
+        raster.resample(grid, bounds_error=False)
+        return raster
 
     def nearest(
         self, xi: Union[Number, datetime.datetime], extrapolate: bool = False
@@ -1811,14 +1808,26 @@ class RasterInterpolant:
             self._read_mean(k, d=d, xlim=xlim, ylim=ylim, zlim=zlim, fun=fun, **kwargs)
             for k in ij
         ]
-        self._match_grids(means, [self.means[k] for k in ij])
+        objs = [self.means[k] for k in ij]
         # Read sigma rasters
         if return_sigma:
             sigmas = [self._read_sigma(k, d=d, xlim=xlim, ylim=ylim) for k in ij]
-            self._match_grids(
-                sigmas, [0 if self.sigmas is None else self.sigmas[k] for k in ij]
-            )
+            objs += [0 if self.sigmas is None else self.sigmas[k] for k in ij]
         else:
-            sigmas = None
+            sigmas = []
+        # Match all to the first that is not a number
+        rasters = means + sigmas
+        grid = next(
+            (
+                raster.grid
+                for raster, obj in zip(rasters, objs)
+                if not isinstance(obj, numbers.Number)
+            ),
+            means[0].grid,
+        )
+        rasters = [
+            self._match_grid(raster, obj, grid) for raster, obj in zip(rasters, objs)
+        ]
+        means, sigmas = rasters[:2], rasters[2:] or None
         # Interpolate
         return self._interpolate(means=means, sigmas=sigmas, x=self.x[list(ij)], xi=xi)
-- 
2.43.0


From 6070411bf25e4116ab9ae864c04451dee80299b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:14 +0000
Subject: [PATCH 102/103] fix: shift integer tiles without truncating the
 interpolated values

---
 src/glimpse/track/observer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index bdd884f..e2e6fda 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -172,7 +172,8 @@ class Observer:
         cv = np.arange(0.5, tile.shape[0])  # y|rows
         # Interpolate at shifted center coordinates
         tile = np.atleast_3d(tile)
-        shifted = np.empty_like(tile)
+        # NOTE: Integers would truncate (and wrap) the interpolated values
+        shifted = np.empty(tile.shape, dtype=np.result_type(tile, np.float32))
         for i in range(tile.shape[2]):
             f = scipy.interpolate.RectBivariateSpline(cv, cu, tile[:, :, i], **kwargs)
             shifted[:, :, i] = f(cv + duv[1], cu + duv[0], grid=True)
-- 
2.43.0


From fcd042a5e2a3978aae3a959c68618dd097d111ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:07:24 +0000
Subject: [PATCH 103/103] fix: indent the elements that follow a group in SVG

---
 src/glimpse/svg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/svg.py b/src/glimpse/svg.py
index e4be280..a592cff 100644
--- a/src/glimpse/svg.py
+++ b/src/glimpse/svg.py
@@ -356,7 +356,7 @@ def _indent_etree(
         for i, child in enumerate(e, start=1):
             _indent_etree(child, level=level + 1, indent=indent, last=i == len(e))
         if not e.tail or not e.tail.strip():
-            e.tail = sep + tab * (level - 1)
+            e.tail = sep + tab * (level - last)
     else:
         if level and (not e.tail or not e.tail.strip()):
             e.tail = sep + tab * (level - last)
-- 
2.43.0

