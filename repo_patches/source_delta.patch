From 641d87035e7039a09ca83dfea1714286f1a0d9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:11 +0000
Subject: [PATCH 01/48] fix: remove_atlas_lines_range skipped the line after
 each removed one

---
 src/rascal/atlas.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/rascal/atlas.py b/src/rascal/atlas.py
index a352e8d..6e9942f 100644
--- a/src/rascal/atlas.py
+++ b/src/rascal/atlas.py
@@ -324,9 +324,11 @@ class Atlas:
 
         """
 
-        for atlas_line in self.atlas_lines:
-            if abs(atlas_line.wavelength - wavelength) < tolerance:
-                self.atlas_lines.remove(atlas_line)
+        self.atlas_lines[:] = [
+            atlas_line
+            for atlas_line in self.atlas_lines
+            if not abs(atlas_line.wavelength - wavelength) < tolerance
+        ]
 
     def list(self):
         """
-- 
2.43.0


From 1411055d9154a78069c098e55e8344022abdd19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:11 +0000
Subject: [PATCH 02/48] fix: add_user_atlas accepts a single line given as
 scalars

---
 src/rascal/atlas.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rascal/atlas.py b/src/rascal/atlas.py
index 6e9942f..fa0a2d6 100644
--- a/src/rascal/atlas.py
+++ b/src/rascal/atlas.py
@@ -246,18 +246,21 @@ class Atlas:
 
         """
 
+        if isinstance(elements, str):
+            elements = [elements]
+
         if not isinstance(elements, list):
             elements = list(elements)
 
         if not isinstance(wavelengths, list):
-            wavelengths = list(wavelengths)
+            wavelengths = list(np.atleast_1d(wavelengths))
 
         if intensities is None:
             intensities = [0] * len(wavelengths)
 
         else:
             if not isinstance(intensities, list):
-                intensities = list(intensities)
+                intensities = list(np.atleast_1d(intensities))
 
         assert len(elements) == len(wavelengths), ValueError(
             "Input elements and wavelengths have different length."
-- 
2.43.0


From 8d1e639919c38c03e77298415a305c8c614f2a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:11 +0000
Subject: [PATCH 03/48] fix: separation filter failed on no line and dropped an
 only line

---
 src/rascal/util.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index ac340b0..d7c4a76 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -215,6 +215,12 @@ def filter_separation(wavelengths, min_separation=0):
 
     """
 
+    wavelengths = np.asarray(wavelengths)
+
+    # A line without any neighbour is always separated
+    if len(wavelengths) < 2:
+        return np.ones(len(wavelengths), dtype=bool)
+
     left_dists = np.zeros_like(wavelengths)
     left_dists[1:] = wavelengths[1:] - wavelengths[:-1]
 
-- 
2.43.0


From 84da85a6aaac4e496786e84fa8fbcccac0143670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:11 +0000
Subject: [PATCH 04/48] fix: brightest-N selection left the lines unordered for
 the separation filter

---
 src/rascal/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index d7c4a76..9797435 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -406,6 +406,8 @@ def load_calibration_lines(
         to_keep = np.argsort(np.array(intensity_list))[::-1][
             :brightest_n_lines
         ]
+        # keep the lines in the order of wavelength for the separation filter
+        to_keep = np.sort(to_keep)
         element_list = element_list[to_keep]
         intensity_list = intensity_list[to_keep]
         wavelength_list = wavelength_list[to_keep]
-- 
2.43.0


From 1ae10675df002d35b48e47ddf2e7f9fbf1f29ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:11 +0000
Subject: [PATCH 05/48] fix: element symbols are case insensitive as documented

---
 src/rascal/plotting.py |  9 ++++-----
 src/rascal/util.py     | 11 ++++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/rascal/plotting.py b/src/rascal/plotting.py
index 96695d0..fe5fd60 100644
--- a/src/rascal/plotting.py
+++ b/src/rascal/plotting.py
@@ -161,11 +161,10 @@ def plot_calibration_lines(
     i = np.zeros_like(w)
 
     for e in elements:
+        e_mask = np.char.lower(element_list) == e.lower()
         i[
-            np.isin(
-                w, np.around(wavelength_list[element_list == e], decimals=3)
-            )
-        ] += intensity_list[element_list == e]
+            np.isin(w, np.around(wavelength_list[e_mask], decimals=3))
+        ] += intensity_list[e_mask]
     # Convolve to simulate the arc spectrum
     model_spectrum = signal.convolve(i, gaussian, mode="same")
 
@@ -189,7 +188,7 @@ def plot_calibration_lines(
     fig = plt.figure(**fig_kwarg)
 
     for j, e in enumerate(elements):
-        e_mask = element_list == e
+        e_mask = np.char.lower(element_list) == e.lower()
         markerline, stemline, _ = plt.stem(
             wavelength_list[e_mask],
             intensity_list[e_mask],
diff --git a/src/rascal/util.py b/src/rascal/util.py
index 9797435..ba5e8e8 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -255,13 +255,13 @@ def filter_intensity(elements, lines, min_intensity=None):
         min_intensity_dict = {}
 
         for i, e in enumerate(elements):
-            min_intensity_dict[e] = 0.0
+            min_intensity_dict[e.lower()] = 0.0
 
     elif isinstance(min_intensity, (int, float)):
         min_intensity_dict = {}
 
         for i, e in enumerate(elements):
-            min_intensity_dict[e] = float(min_intensity)
+            min_intensity_dict[e.lower()] = float(min_intensity)
 
     elif isinstance(min_intensity, (list, np.ndarray)):
         assert len(min_intensity) == len(elements), (
@@ -273,7 +273,7 @@ def filter_intensity(elements, lines, min_intensity=None):
         min_intensity_dict = {}
 
         for i, e in enumerate(elements):
-            min_intensity_dict[e] = min_intensity[i]
+            min_intensity_dict[e.lower()] = min_intensity[i]
 
     else:
         raise ValueError(
@@ -285,7 +285,7 @@ def filter_intensity(elements, lines, min_intensity=None):
     out = []
 
     for line in lines:
-        element = line[0]
+        element = line[0].lower()
         intensity = float(line[2])
 
         if intensity >= min_intensity_dict[element]:
@@ -375,7 +375,8 @@ def load_calibration_lines(
         raise ValueError("Please provide a valid format of line list.")
 
     # Mask elements
-    mask = [(li[0] in elements) for li in lines]
+    elements_lower = [e.lower() for e in elements]
+    mask = [(li[0].lower() in elements_lower) for li in lines]
     lines = lines[mask]
 
     # update the wavelength limit
-- 
2.43.0


From 01fd40c510cf6c443e15c4ca5d2283aa1a78bafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:12 +0000
Subject: [PATCH 06/48] fix: a numpy scalar min_intensity was silently ignored

---
 src/rascal/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index ba5e8e8..8d49c6a 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -257,7 +257,7 @@ def filter_intensity(elements, lines, min_intensity=None):
         for i, e in enumerate(elements):
             min_intensity_dict[e.lower()] = 0.0
 
-    elif isinstance(min_intensity, (int, float)):
+    elif isinstance(min_intensity, (int, float, np.number)):
         min_intensity_dict = {}
 
         for i, e in enumerate(elements):
@@ -394,7 +394,7 @@ def load_calibration_lines(
     )
 
     # Filter intensities
-    if isinstance(min_intensity, (float, int, list, np.ndarray)):
+    if isinstance(min_intensity, (float, int, np.number, list, np.ndarray)):
         intensity_mask = filter_intensity(elements, lines, min_intensity)
     else:
         intensity_mask = np.ones_like(lines[:, 0]).astype(bool)
-- 
2.43.0


From 4b49544f3b421cb92c66c27d0eb723e588dbda22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:12 +0000
Subject: [PATCH 07/48] fix: saturation vapour pressure was evaluated with
 Celsius as Kelvin

---
 src/rascal/util.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index 8d49c6a..4d660ed 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -8,7 +8,16 @@ import pkg_resources
 def get_vapour_pressure(temperature):
     """
     Appendix A.I of https://emtoolbox.nist.gov/Wavelength/Documentation.asp
+
+    Parameters
+    ----------
+    temperature: float
+        In unit of Celcius
+
     """
+    # The formula takes the temperature in Kelvin
+    temperature = temperature + 273.15
+
     K1 = 1.16705214528e03
     K2 = -7.24213167032e05
     K3 = -1.70738469401e01
-- 
2.43.0


From f5f2b348b84d702324024ff6ea34c40702a8f046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:12 +0000
Subject: [PATCH 08/48] fix: polynomial model failed for mixed integer and
 float terms

---
 src/rascal/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rascal/models.py b/src/rascal/models.py
index 68aff03..6251722 100644
--- a/src/rascal/models.py
+++ b/src/rascal/models.py
@@ -20,7 +20,7 @@ def polynomial(a, degree=3):
         t = a[-1]
 
         for i in range(1, int(degree + 1)):
-            t += a[int(degree - i)] * x**i
+            t = t + a[int(degree - i)] * x**i
 
         return t
 
-- 
2.43.0


From a78cc2fea629af5e2872efbe7f8ca3f5d17d608c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:39 +0000
Subject: [PATCH 09/48] fix: a line list file with a single line could not be
 loaded

---
 src/rascal/util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index 4d660ed..750d044 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -375,7 +375,9 @@ def load_calibration_lines(
             )
             lines = np.loadtxt(file_path, delimiter=",", dtype=">U12")
         elif os.path.exists(linelist):
-            lines = np.loadtxt(linelist, delimiter=",", dtype=">U12")
+            lines = np.loadtxt(
+                linelist, delimiter=",", dtype=">U12", ndmin=2
+            )
         else:
             raise ValueError(
                 f"Unknown string is provided as linelist: {linelist}."
-- 
2.43.0


From 5f1000ea5ab9f1b396fe1e30a58deeae95f38027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:04 +0000
Subject: [PATCH 10/48] fix: refined peaks were misplaced near the edge, for
 fractional estimates and overlapping windows

---
 src/rascal/util.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index 750d044..5ec3a4b 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -496,16 +496,17 @@ def refine_peaks(spectrum, peaks, window_width=10, distance=None):
 
     refined_peaks = []
 
-    spectrum = np.array(spectrum)
+    spectrum = np.array(spectrum, dtype=float)
     length = len(spectrum)
 
     for peak in peaks:
-        y = spectrum[
-            max(0, int(peak) - window_width) : min(
-                int(peak) + window_width, length
-            )
-        ]
-        y /= np.nanmax(y)
+        start = max(0, int(peak) - window_width)
+        y = spectrum[start : min(int(peak) + window_width, length)]
+
+        if np.sum(np.isfinite(y)) == 0:
+            continue
+
+        y = y / np.nanmax(y)
         x = np.arange(len(y))
 
         mask = np.isfinite(y) & ~np.isnan(y)
@@ -514,8 +515,8 @@ def refine_peaks(spectrum, peaks, window_width=10, distance=None):
         if n == 0:
             continue
 
-        mean = np.sum(x * y) / n
-        sigma = np.sum(y * (x - mean) ** 2) / n
+        mean = np.sum(x[mask] * y[mask]) / n
+        sigma = np.sum(y[mask] * (x[mask] - mean) ** 2) / n
 
         try:
             popt, _ = curve_fit(gauss, x[mask], y[mask], p0=[1, mean, sigma])
@@ -527,7 +528,7 @@ def refine_peaks(spectrum, peaks, window_width=10, distance=None):
             if centre > len(spectrum) or centre < 0:
                 continue
 
-            refined_peaks.append(peak - window_width + centre)
+            refined_peaks.append(start + centre)
 
         except RuntimeError:
             continue
-- 
2.43.0


From 0e88e7bb83889b351ec89b96a4bb5575aac00531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:24 +0000
Subject: [PATCH 11/48] fix: peak refinement lost clean lines because of a poor
 initial guess

---
 src/rascal/util.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index 5ec3a4b..1cf609a 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -515,8 +515,12 @@ def refine_peaks(spectrum, peaks, window_width=10, distance=None):
         if n == 0:
             continue
 
-        mean = np.sum(x[mask] * y[mask]) / n
-        sigma = np.sum(y[mask] * (x[mask] - mean) ** 2) / n
+        # Initial guess from the intensity-weighted moments
+        weight = np.clip(y[mask], 0.0, None)
+        mean = np.sum(x[mask] * weight) / np.sum(weight)
+        sigma = np.sqrt(
+            np.sum(weight * (x[mask] - mean) ** 2) / np.sum(weight)
+        )
 
         try:
             popt, _ = curve_fit(gauss, x[mask], y[mask], p0=[1, mean, sigma])
-- 
2.43.0


From 0636d566eab18a48afa7c7cce3d003f896740327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:24 +0000
Subject: [PATCH 12/48] fix: refined peaks were not unique for unordered
 estimates and failed when none is left

---
 src/rascal/util.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index 1cf609a..b5a147e 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -542,8 +542,11 @@ def refine_peaks(spectrum, peaks, window_width=10, distance=None):
 
     # Remove peaks that are within rounding errors from each other from the
     # curve_fit
-    distance_mask = np.isclose(refined_peaks[:-1], refined_peaks[1:])
-    distance_mask = np.insert(distance_mask, 0, False)
+    distance_mask = np.zeros(len(refined_peaks), dtype=bool)
+    for i in range(1, len(refined_peaks)):
+        distance_mask[i] = np.any(
+            np.isclose(refined_peaks[:i], refined_peaks[i])
+        )
 
     return refined_peaks[mask & ~distance_mask]
 
-- 
2.43.0


From 4e3302d4bf3dca729b1716da2e9d42d75da8f837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:49 +0000
Subject: [PATCH 13/48] fix: synthetic spectrum ignored or reversed the
 coefficients given to set_model

---
 src/rascal/synthetic.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rascal/synthetic.py b/src/rascal/synthetic.py
index 64c159d..3c74985 100644
--- a/src/rascal/synthetic.py
+++ b/src/rascal/synthetic.py
@@ -36,8 +36,12 @@ class SyntheticSpectrum:
         """
 
         if isinstance(coefficients, (list, np.ndarray)):
+            self.coefficients = list(coefficients)
             self.degree = len(coefficients) - 1
-            self.model = models.polynomial(a=coefficients, degree=self.degree)
+            # the model takes the highest order first
+            self.model = models.polynomial(
+                a=self.coefficients[::-1], degree=self.degree
+            )
 
         else:
             raise TypeError("Please provide a list or an numpy array.")
-- 
2.43.0


From 530d9832a6ca9c6a532528ac380ff7e38879e8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:49 +0000
Subject: [PATCH 14/48] fix: integer wavelength limits of a synthetic spectrum
 were rejected as not numeric

---
 src/rascal/synthetic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rascal/synthetic.py b/src/rascal/synthetic.py
index 3c74985..d679a4f 100644
--- a/src/rascal/synthetic.py
+++ b/src/rascal/synthetic.py
@@ -52,7 +52,7 @@ class SyntheticSpectrum:
         """
 
         if (
-            not isinstance(min_wavelength, float)
+            not isinstance(min_wavelength, (int, float, np.number))
             and min_wavelength is not None
         ):
             raise TypeError(
@@ -69,7 +69,7 @@ class SyntheticSpectrum:
                 new_min_wavelength = self.min_wavelength
 
         if (
-            not isinstance(max_wavelength, float)
+            not isinstance(max_wavelength, (int, float, np.number))
             and max_wavelength is not None
         ):
             raise TypeError(
-- 
2.43.0


From 208f2e9a9e55810dd5e32c30f4fab3c51ccabef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:49 +0000
Subject: [PATCH 15/48] fix: saving a Hough transform to memory through the
 calibrator returned nothing

---
 src/rascal/calibrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 0673c22..bc8e6f0 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -1480,7 +1480,7 @@ class Calibrator:
 
         """
 
-        self.ht.save(
+        return self.ht.save(
             filename=filename,
             fileformat=fileformat,
             delimiter=delimiter,
-- 
2.43.0


From fda67401a71de9a2cc66d74718a351c2b29db1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:26 +0000
Subject: [PATCH 16/48] fix: Hough points loaded from json could not be binned,
 extended or saved again

---
 src/rascal/houghtransform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rascal/houghtransform.py b/src/rascal/houghtransform.py
index 41a2699..7831d1c 100644
--- a/src/rascal/houghtransform.py
+++ b/src/rascal/houghtransform.py
@@ -324,7 +324,7 @@ class HoughTransform:
 
             input_json = json.load(open(filename))
 
-            self.hough_points = input_json["hough_points"]
+            self.hough_points = np.array(input_json["hough_points"])
             self.hist = np.array(input_json["hist"]).astype("float")
             self.xedges = np.array(input_json["xedges"]).astype("float")
             self.yedges = np.array(input_json["yedges"]).astype("float")
-- 
2.43.0


From 3206e515e3c5980c5b46f56c179b74536b9ed915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:26 +0000
Subject: [PATCH 17/48] fix: a Hough transform with numpy integer limits could
 not be saved as json

---
 src/rascal/houghtransform.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rascal/houghtransform.py b/src/rascal/houghtransform.py
index 7831d1c..899ce26 100644
--- a/src/rascal/houghtransform.py
+++ b/src/rascal/houghtransform.py
@@ -262,10 +262,10 @@ class HoughTransform:
             output_json["hist"] = self.hist.tolist()
             output_json["xedges"] = self.xedges.tolist()
             output_json["yedges"] = self.yedges.tolist()
-            output_json["min_slope"] = self.min_slope
-            output_json["max_slope"] = self.max_slope
-            output_json["min_intercept"] = self.min_intercept
-            output_json["max_intercept"] = self.max_intercept
+            output_json["min_slope"] = float(self.min_slope)
+            output_json["max_slope"] = float(self.max_slope)
+            output_json["min_intercept"] = float(self.min_intercept)
+            output_json["max_intercept"] = float(self.max_intercept)
 
             if to_disk:
                 with open(filename + ".json", "w+") as f:
-- 
2.43.0


From 9c2c8bb27f696ab92e0c77114109c39737da7e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:26 +0000
Subject: [PATCH 18/48] fix: loading a Hough transform did not restore its
 lines

---
 src/rascal/houghtransform.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/rascal/houghtransform.py b/src/rascal/houghtransform.py
index 899ce26..03466c2 100644
--- a/src/rascal/houghtransform.py
+++ b/src/rascal/houghtransform.py
@@ -186,6 +186,14 @@ class HoughTransform:
             bins=(xbins, ybins),
         )
 
+        self._rank_hough_lines()
+
+    def _rank_hough_lines(self):
+        """
+        List the lines at the centres of the bins, the most populated first.
+
+        """
+
         # Get the line fit_coeffients from the promising bins in the
         # histogram
         self.hist_sorted_arg = np.dstack(
@@ -337,3 +345,5 @@ class HoughTransform:
             raise ValueError(
                 "Unknown filetype %s, it has to be npy or json" % filetype
             )
+
+        self._rank_hough_lines()
-- 
2.43.0


From ab77c82d4ffacfebe4d921df0866ed071d588a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:26 +0000
Subject: [PATCH 19/48] fix: a Hough transform loaded into a calibrator was
 ignored by fit

---
 src/rascal/calibrator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index bc8e6f0..22cdb96 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -1503,6 +1503,8 @@ class Calibrator:
         """
 
         self.ht.load(filename=filename, filetype=filetype)
+        self.hough_points = self.ht.hough_points
+        self.hough_lines = self.ht.hough_lines
 
     def set_known_pairs(self, pix=(), wave=()):
         """
-- 
2.43.0


From 623c2032c097cc3481f8bcbe9a1f54243d7bba9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:39 +0000
Subject: [PATCH 20/48] fix: most common candidates were not the best supported
 lines

---
 src/rascal/calibrator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 22cdb96..3b646cc 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -204,14 +204,14 @@ class Calibrator:
                 )
 
                 unique_wavelengths = np.unique(wavelengths_matched)
-                aggregated_count = np.zeros_like(unique_wavelengths)
+                aggregated_count = np.zeros(len(unique_wavelengths))
                 for j, w in enumerate(unique_wavelengths):
                     idx_j = np.where(wavelengths_matched == w)
                     aggregated_count[j] = np.sum(counts[idx_j])
 
                 out_peaks.extend([peak] * n)
                 out_wavelengths.extend(
-                    wavelengths_matched[np.argsort(-aggregated_count)[:n]]
+                    unique_wavelengths[np.argsort(-aggregated_count)[:n]]
                 )
 
         return out_peaks, out_wavelengths
-- 
2.43.0


From b1ab2e03aeb63b1ad9590d6f2235b9b2befe5f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:39 +0000
Subject: [PATCH 21/48] fix: peaks on a bin edge got the density of the wrong,
 possibly empty, bin

---
 src/rascal/calibrator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 3b646cc..49b9057 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -519,7 +519,8 @@ class Calibrator:
             # weight the probability of choosing the sample by the inverse
             # line density
             h = np.histogram(peaks, bins=10)
-            prob = 1.0 / h[0][np.digitize(peaks, h[1], right=True) - 1]
+            bin_idx = np.clip(np.digitize(peaks, h[1]) - 1, 0, len(h[0]) - 1)
+            prob = 1.0 / h[0][bin_idx]
             prob = prob / np.sum(prob)
 
         for sample in sampler_list:
-- 
2.43.0


From 7d4ce96c049b0fc5c928601b098d1c331d0ebf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:59 +0000
Subject: [PATCH 22/48] fix: brute force fit failed on its first combination

---
 src/rascal/calibrator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 49b9057..784f68a 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -531,8 +531,8 @@ class Calibrator:
                 stop_n_candidateow = False
 
                 if brute_force:
-                    x_hat = x[[sample]]
-                    y_hat = y[[sample]]
+                    x_hat = x[list(sample)]
+                    y_hat = y[list(sample)]
 
                 else:
                     # Pick some random peaks
-- 
2.43.0


From 25ff3a1a33fbc2e75281a3a51a9378c4a993e9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:59 +0000
Subject: [PATCH 23/48] fix: fit tried all combinations when not asked to and
 overwrote the sample size and minimum matches set by the user

---
 src/rascal/calibrator.py | 44 ++++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 784f68a..fca8878 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -387,6 +387,8 @@ class Calibrator:
         candidate_tolerance,
         brute_force,
         progress,
+        sample_size,
+        minimum_matches,
     ):
         """
         Use RANSAC to sample the parameter space and give best guess
@@ -408,6 +410,10 @@ class Calibrator:
             Solve all pixel-wavelength combinations with set to True.
         progress: boolean
             Show the progress bar with tdqm if set to True.
+        sample_size: int
+            Number of points drawn for each trial.
+        minimum_matches: int
+            Minimum number of matches of an acceptable solution.
 
         Returns
         -------
@@ -468,13 +474,13 @@ class Calibrator:
         if len(np.unique(x)) <= self.fit_deg:
             return (best_p, best_err, sum(best_mask), 0, False)
 
-        # Brute force check all combinations. If the request sample_size is
-        # the same or larger than the available lines, it is essentially a
-        # brute force.
-        if brute_force or (self.sample_size >= len(np.unique(x))):
+        # A sample cannot have more points than there are peaks
+        sample_size = min(sample_size, len(np.unique(x)))
+
+        # Brute force check all combinations.
+        if brute_force:
             idx = range(len(x))
-            sampler = itertools.combinations(idx, self.sample_size)
-            self.sample_size = len(np.unique(x))
+            sampler = itertools.combinations(idx, sample_size)
 
         else:
             sampler = range(int(max_tries))
@@ -537,7 +543,7 @@ class Calibrator:
                 else:
                     # Pick some random peaks
                     x_hat = np.random.choice(
-                        peaks, self.sample_size, replace=False, p=prob
+                        peaks, sample_size, replace=False, p=prob
                     )
                     y_hat = []
 
@@ -682,10 +688,10 @@ class Calibrator:
                     # Check that we have enough inliers based on user specified
                     # constraints
 
-                    if n_inliers < self.minimum_matches:
+                    if n_inliers < minimum_matches:
                         self.logger.debug(
                             "Not enough matched peaks for valid solution, "
-                            "user specified {}.".format(self.minimum_matches)
+                            "user specified {}.".format(minimum_matches)
                         )
                         continue
 
@@ -1639,36 +1645,38 @@ class Calibrator:
             )
 
         # Reduce sample_size if it is larger than the number of atlas available
-        if self.sample_size > len(self.atlas):
+        sample_size = self.sample_size
+        if sample_size > len(self.atlas):
             self.logger.warning(
                 "Size of sample_size is larger than the size of atlas, "
                 + "the sample_size is set to match the size of atlas = "
                 + str(len(self.atlas))
                 + "."
             )
-            self.sample_size = len(self.atlas)
+            sample_size = len(self.atlas)
 
-        if self.sample_size <= fit_deg:
-            self.sample_size = fit_deg + 1
+        if sample_size <= self.fit_deg:
+            sample_size = self.fit_deg + 1
 
         if (self.hough_lines is None) or (self.hough_points is None):
             self.do_hough_transform()
 
-        if self.minimum_matches > len(self.atlas):
+        minimum_matches = self.minimum_matches
+        if minimum_matches > len(self.atlas):
             self.logger.warning(
                 "Requested minimum matches is greater than the atlas size"
                 "setting the minimum number of matches to equal the atlas"
                 "size = " + str(len(self.atlas)) + "."
             )
-            self.minimum_matches = len(self.atlas)
+            minimum_matches = len(self.atlas)
 
-        if self.minimum_matches > len(self.peaks):
+        if minimum_matches > len(self.peaks):
             self.logger.warning(
                 "Requested minimum matches is greater than the number of "
                 "peaks detected, which has a size of "
                 "size = " + str(len(self.peaks)) + "."
             )
-            self.minimum_matches = len(self.peaks)
+            minimum_matches = len(self.peaks)
 
         # TODO also check whether minimum peak utilisation is greater than
         # minimum matches.
@@ -1686,6 +1694,8 @@ class Calibrator:
             candidate_tolerance=candidate_tolerance,
             brute_force=self.brute_force,
             progress=self.progress,
+            sample_size=sample_size,
+            minimum_matches=minimum_matches,
         )
 
         peak_utilisation = n_inliers / len(self.peaks)
-- 
2.43.0


From e27cbebea97049146b21ef959916b10006f994c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:59 +0000
Subject: [PATCH 24/48] fix: fit retried unsuitable samples forever

---
 src/rascal/calibrator.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index fca8878..5879e1f 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -529,11 +529,17 @@ class Calibrator:
             prob = 1.0 / h[0][bin_idx]
             prob = prob / np.sum(prob)
 
+        # A combination is only tested once, a random draw that does not lead to
+        # a sensible solution is repeated, but not forever.
+        max_retries = 1 if brute_force else 1000
+
         for sample in sampler_list:
             keep_trying = True
+            n_retries = 0
             self.logger.debug(sample)
 
-            while keep_trying:
+            while keep_trying and n_retries < max_retries:
+                n_retries += 1
                 stop_n_candidateow = False
 
                 if brute_force:
-- 
2.43.0


From 71595ac2fe1306fefd3a7f9bf33ffd069903c1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:13 +0000
Subject: [PATCH 25/48] fix: match_peaks failed or paired lines repeatedly when
 a peak is close to several lines, and without refit

---
 src/rascal/calibrator.py | 105 ++++++++++-----------------------------
 1 file changed, 25 insertions(+), 80 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 5879e1f..8cba3cf 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -4,7 +4,7 @@ import logging
 
 import numpy as np
 from scipy.spatial import Delaunay
-from scipy.optimize import minimize
+from scipy.optimize import linear_sum_assignment, minimize
 from scipy import interpolate
 from tqdm.autonotebook import tqdm
 
@@ -1814,7 +1814,7 @@ class Calibrator:
             fit_deg = len(fit_coeff) - 1
 
         if refine:
-            fit_coeff_new = fit_coeff.copy()
+            fit_coeff_new = np.array(fit_coeff, dtype=float)
 
             if n_delta is None:
                 n_delta = len(fit_coeff_new) - 1
@@ -1839,91 +1839,36 @@ class Calibrator:
                 )
                 return fit_coeff, None, None, None, None, None, None
 
-        matched_peaks = []
-        matched_atlas = []
-        residuals = []
-
-        atlas_lines = self.atlas.get_lines()
+        peaks = np.asarray(self.peaks)
+        atlas_lines = np.unique(self.atlas.get_lines())
 
         # Find all Atlas peaks within tolerance
-        for p in self.peaks:
-            x = self.polyval(p, fit_coeff)
-            diff = atlas_lines - x
-            diff_abs = np.abs(diff) < tolerance
-
-            if diff_abs.any():
-                matched_peaks.append(p)
-                matched_atlas.append(list(np.asarray(atlas_lines)[diff_abs]))
-                residuals.append(diff_abs)
-
-        # Create permutations:
-        candidates = [[]]
-
-        # match is a list
-        for match in matched_atlas:
-            if len(match) == 0:
-                continue
-
-            self.logger.info("matched: {}".format(match))
-
-            new_candidates = []
-            # i is an int
-            # candidates is a list of list
-
-            for i in range(len(candidates)):
-                # c is a list
-                c = candidates[i]
-
-                if len(match) == 1:
-                    c.extend(match)
-
-                else:
-                    # rep is a list of tuple
-                    rep = ~np.in1d(match, c)
-
-                    if rep.any():
-                        for j in np.argwhere(rep):
-                            new_c = c + [match[j]]
-                            new_candidates.append(new_c)
-
-                # Only add if new_candidates is not an empty list
-                if new_candidates != []:
-                    if candidates[0] == []:
-                        candidates[0] = new_candidates
-
-                    else:
-                        candidates.append(new_candidates)
-
-        if len(candidates) > 1:
-            self.logger.info(
-                "More than one match solution found, checking permutations."
-            )
-
-        self.matched_peaks = np.array(copy.deepcopy(matched_peaks))
-
-        # Check all candidates
-        best_err = 1e9
-        self.matched_atlas = None
-        self.residuals = None
-
-        for candidate in candidates:
-            matched_atlas = np.array(candidate)
-
-            fit_coeff = self.polyfit(matched_peaks, matched_atlas, fit_deg)
+        diff_abs = np.abs(
+            self.polyval(peaks, fit_coeff)[:, None] - atlas_lines[None, :]
+        )
+        in_range = diff_abs < tolerance
 
-            x = self.polyval(matched_peaks, fit_coeff)
-            residuals = np.abs(matched_atlas - x)
-            err = np.sum(residuals)
+        # Pair as many peaks and lines as possible one-to-one, with the
+        # smallest total difference
+        penalty = tolerance * (len(peaks) + 1.0)
+        peak_idx, line_idx = linear_sum_assignment(
+            np.where(in_range, diff_abs, penalty)
+        )
+        matched = in_range[peak_idx, line_idx]
+        peak_idx = peak_idx[matched]
+        line_idx = line_idx[matched]
 
-            if err < best_err:
-                self.matched_atlas = matched_atlas
-                self.residuals = residuals
+        assert len(peak_idx) > 0, "No peak is within the tolerance of a line."
 
-                best_err = err
+        self.matched_peaks = peaks[peak_idx]
+        self.matched_atlas = atlas_lines[line_idx]
 
-        assert self.matched_atlas is not None
-        assert self.residuals is not None
+        if not refine:
+            fit_coeff_new = fit_coeff
 
+        self.residuals = self.matched_atlas - self.polyval(
+            self.matched_peaks, fit_coeff_new
+        )
         self.rms = np.sqrt(
             np.nansum(self.residuals**2.0) / len(self.residuals)
         )
-- 
2.43.0


From bcce6b8f5870b11b58dfbd7cb8336d8a35c496ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:13 +0000
Subject: [PATCH 26/48] fix: add_pix_wave_pair failed after fit and inserted
 pairs out of order

---
 src/rascal/calibrator.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 8cba3cf..f80fe12 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -1961,11 +1961,13 @@ class Calibrator:
 
         """
 
-        arg = np.argwhere(pix > self.matched_peaks)[0]
+        matched_peaks = np.asarray(self.matched_peaks, dtype=float)
+        matched_atlas = np.asarray(self.matched_atlas, dtype=float)
+        arg = np.searchsorted(matched_peaks, pix)
 
         # Only update the lists if both can be inserted
-        matched_peaks = np.insert(self.matched_peaks, arg, pix)
-        matched_atlas = np.insert(self.matched_atlas, arg, wave)
+        matched_peaks = np.insert(matched_peaks, arg, pix)
+        matched_atlas = np.insert(matched_atlas, arg, wave)
 
         self.matched_peaks = matched_peaks
         self.matched_atlas = matched_atlas
-- 
2.43.0


From 99162231ce427e71ffdef8675c04b1618b722136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:13 +0000
Subject: [PATCH 27/48] fix: a solution could not be used for matching,
 refitting and plotting before a fit

---
 src/rascal/calibrator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index f80fe12..8665ba2 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -79,6 +79,10 @@ class Calibrator:
         self.matched_atlas = []
         self.fit_coeff = None
 
+        # polynomial basis, chosen in fit()
+        self.polyfit = np.polynomial.polynomial.polyfit
+        self.polyval = np.polynomial.polynomial.polyval
+
         self.set_calibrator_properties()
         self.set_hough_properties()
         self.set_ransac_properties()
-- 
2.43.0


From a42007a78c4bb2ee107118c28d2e8afc497f0e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:13 +0000
Subject: [PATCH 28/48] fix: atlas lines removed through the calibrator could
 still be matched

---
 src/rascal/calibrator.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 8665ba2..d92d67d 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -109,7 +109,7 @@ class Calibrator:
             for pair in itertools.product(self.peaks, self.atlas.get_lines())
         ]
 
-        if self.constrain_poly:
+        if self.constrain_poly and len(pairs) > 0:
             # Remove pairs outside polygon
             valid_area = Delaunay(
                 [
@@ -131,10 +131,10 @@ class Calibrator:
             )
 
             mask = valid_area.find_simplex(pairs) >= 0
-            self.pairs = np.array(pairs)[mask]
+            self.pairs = np.array(pairs)[mask].reshape(-1, 2)
 
         else:
-            self.pairs = np.array(pairs)
+            self.pairs = np.array(pairs).reshape(-1, 2)
 
     def _merge_candidates(self, candidates):
         """
@@ -1363,6 +1363,7 @@ class Calibrator:
         """
 
         self.atlas.remove_atlas_lines_range(wavelength, tolerance)
+        self._generate_pairs()
 
     def list_atlas(self):
         """
@@ -1377,6 +1378,7 @@ class Calibrator:
         """
 
         self.atlas.clear()
+        self._generate_pairs()
 
     def add_user_atlas(
         self,
-- 
2.43.0


From 0e2ff54931799554dd2cf171a3d3903d120459f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:13 +0000
Subject: [PATCH 29/48] fix: pixel list, slope limits and pairs did not follow
 a change of num_pix or pixel_list

---
 src/rascal/calibrator.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index d92d67d..fbb9dc9 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -50,6 +50,7 @@ class Calibrator:
         # calibrator_properties
         self.num_pix = None
         self.pixel_list = None
+        self.pixel_list_supplied = False
         self.plotting_library = None
         self.constrain_poly = None
 
@@ -926,6 +927,10 @@ class Calibrator:
 
         # set the num_pix
         if num_pix is not None:
+            # the default pixel_list follows the number of pixels
+            if not self.pixel_list_supplied:
+                self.pixel_list = None
+
             self.num_pix = num_pix
 
         elif self.num_pix is None:
@@ -949,6 +954,7 @@ class Calibrator:
         # set the pixel_list
         if pixel_list is not None:
             self.pixel_list = np.asarray(pixel_list)
+            self.pixel_list_supplied = True
 
         elif self.pixel_list is None:
             self.pixel_list = np.arange(self.num_pix)
@@ -998,6 +1004,10 @@ class Calibrator:
                 "use_plotly() to manually select the library."
             )
 
+        # the limits of the slopes depend on the pixel_list
+        if self.min_wavelength is not None:
+            self.set_hough_properties()
+
     def set_hough_properties(
         self,
         num_slopes=None,
-- 
2.43.0


From 77f3d654c9ebdb554f3b5b609b63fca081508ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:19 +0000
Subject: [PATCH 30/48] fix: use_plotly and use_matplotlib were undone by the
 next property change

---
 src/rascal/calibrator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index fbb9dc9..ff4dc2b 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -862,6 +862,7 @@ class Calibrator:
 
         """
 
+        self.plotting_library = "matplotlib"
         self.plot_with_matplotlib = True
         self.plot_with_plotly = False
 
@@ -871,6 +872,7 @@ class Calibrator:
 
         """
 
+        self.plotting_library = "plotly"
         self.plot_with_plotly = True
         self.plot_with_matplotlib = False
 
-- 
2.43.0


From e41a26d32be3a5030365527e3a009b6028fa9f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:13 +0000
Subject: [PATCH 31/48] fix: slope limits did not cover the stated range
 tolerance at both ends

---
 src/rascal/calibrator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index ff4dc2b..6a0c75b 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -1125,7 +1125,7 @@ class Calibrator:
                 - self.linearity_tolerance
             )
             - (
-                self.min_intercept
+                self.min_wavelength
                 + self.range_tolerance
                 + self.linearity_tolerance
             )
@@ -1138,7 +1138,7 @@ class Calibrator:
                 + self.linearity_tolerance
             )
             - (
-                self.min_intercept
+                self.min_wavelength
                 - self.range_tolerance
                 - self.linearity_tolerance
             )
-- 
2.43.0


From ce36cbf57ccf17d3a0cb1f3befbf2dc6ac96f9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:16 +0000
Subject: [PATCH 32/48] fix: merged candidates in the search space plot swapped
 pixels and wavelengths

---
 src/rascal/calibrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 6a0c75b..02d8301 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -154,7 +154,7 @@ class Calibrator:
             for pair in np.array(pairs).T:
                 merged.append(pair)
 
-        return np.sort(np.array(merged))
+        return np.array(merged)
 
     def _get_most_common_candidates(
         self, candidates, top_n_candidate, weighted
-- 
2.43.0


From 6d4c479893bc87c353444e1621354b800c4f4458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:16 +0000
Subject: [PATCH 33/48] fix: non-linear candidates compared the n-th peak with
 the n-th atlas line only

---
 src/rascal/calibrator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 02d8301..47a0b7f 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -296,7 +296,7 @@ class Calibrator:
         self.candidates = []
 
         # actual wavelengths
-        actual = np.array(self.atlas.get_lines())
+        actual = self.pairs[:, 1]
 
         n = len(self.hough_lines)
 
@@ -307,7 +307,7 @@ class Calibrator:
 
         for d in delta:
             # predicted wavelength
-            predicted = self.polyval(self.peaks, self.fit_coeff) + d
+            predicted = self.polyval(self.pairs[:, 0], self.fit_coeff) + d
             diff = np.abs(actual - predicted)
             mask = diff < candidate_tolerance
 
@@ -316,7 +316,7 @@ class Calibrator:
                     actual[mask], 1.0, predicted[mask], self.range_tolerance
                 )
                 self.candidates.append(
-                    [self.peaks[mask], actual[mask], weight]
+                    [self.pairs[:, 0][mask], actual[mask], weight]
                 )
 
     def _match_bijective(self, candidates, peaks, fit_coeff):
-- 
2.43.0


From b60c560a0b3a089935a62a029aa1c2da61797f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:16 +0000
Subject: [PATCH 34/48] fix: Hough density weight was evaluated with swapped
 axes, and a supplied solution was compared on another scale and never used

---
 src/rascal/calibrator.py | 68 ++++++++++++++++++++++++++--------------
 1 file changed, 44 insertions(+), 24 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 47a0b7f..deb3643 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -519,11 +519,51 @@ class Calibrator:
         else:
             twoditp = None
 
+        def get_cost(err, coeffs):
+            # use the Hough space density as weights for the cost function
+            wave = self.polyval(self.pixel_list, coeffs)
+            gradient = self.polyval(self.pixel_list, _derivative(coeffs))
+            intercept = wave - gradient * self.pixel_list
+
+            # modified cost function weighted by the Hough space density
+            if (self.hough_weight is not None) & (twoditp is not None):
+                # the interpolation can undershoot between the bins
+                weight = self.hough_weight * np.sum(
+                    np.clip(twoditp(gradient, intercept, grid=False), 0, None)
+                )
+
+            else:
+                weight = 1.0
+
+            return sum(err) / (len(err) - len(coeffs) + 1) / (weight + 1e-9)
+
         # Calculate initial error given pre-existing fit
         if fit_coeff is not None:
-            err, _, _ = self._match_bijective(candidates, peaks, fit_coeff)
-            best_cost = sum(err)
-            best_err = np.sqrt(np.mean(err**2.0))
+            err, matched_x, matched_y = self._match_bijective(
+                candidates, peaks, fit_coeff
+            )
+            err[err > self.ransac_tolerance] = self.ransac_tolerance
+            mask = err < self.ransac_tolerance
+            rms_residual = np.sqrt(np.mean(err[mask] ** 2.0))
+
+            # It is the best fit unless it is outperformed, as long as it is
+            # an acceptable solution
+            if (
+                sum(mask) > self.fit_deg
+                and sum(mask) >= minimum_matches
+                and sum(mask)
+                >= self.minimum_peak_utilisation * len(self.peaks)
+                and rms_residual >= self.minimum_fit_error
+            ):
+                best_cost = get_cost(err, fit_coeff)
+                best_inliers = sum(mask)
+                best_p = np.array(fit_coeff, dtype=float)
+                best_err = rms_residual
+                self.matched_peaks = list(matched_x[mask])
+                self.matched_atlas = list(matched_y[mask])
+                best_residual = (
+                    self.polyval(matched_x[mask], fit_coeff) - matched_y[mask]
+                )
 
         # The histogram is fixed, so pre-computed outside the loop
         if not brute_force:
@@ -628,27 +668,7 @@ class Calibrator:
                 # M-SAC Estimator (Torr and Zisserman, 1996)
                 err[err > self.ransac_tolerance] = self.ransac_tolerance
 
-                # use the Hough space density as weights for the cost function
-                wave = self.polyval(self.pixel_list, fit_coeffs)
-                gradient = self.polyval(
-                    self.pixel_list, _derivative(fit_coeffs)
-                )
-                intercept = wave - gradient * self.pixel_list
-
-                # modified cost function weighted by the Hough space density
-                if (self.hough_weight is not None) & (twoditp is not None):
-                    weight = self.hough_weight * np.sum(
-                        twoditp(intercept, gradient, grid=False)
-                    )
-
-                else:
-                    weight = 1.0
-
-                cost = (
-                    sum(err)
-                    / (len(err) - len(fit_coeffs) + 1)
-                    / (weight + 1e-9)
-                )
+                cost = get_cost(err, fit_coeffs)
 
                 # If this is potentially a new best fit, then handle that first
                 if cost <= best_cost:
-- 
2.43.0


From 60162acdf0d57b4428f12e29272350764ba99e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:10 +0000
Subject: [PATCH 35/48] fix: plotting a solution in log scale modified the
 spectrum

---
 src/rascal/plotting.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rascal/plotting.py b/src/rascal/plotting.py
index fe5fd60..68e7d8d 100644
--- a/src/rascal/plotting.py
+++ b/src/rascal/plotting.py
@@ -740,6 +740,9 @@ def plot_fit(
             )
 
     if spectrum is not None:
+        # work on a copy
+        spectrum = np.array(spectrum, dtype="float64")
+
         if log_spectrum:
             spectrum[spectrum < 0] = 1e-100
             spectrum = np.log10(spectrum)
-- 
2.43.0


From 3d6397965b8f1f5e1941f54e30a9f402e94ee62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:28 +0000
Subject: [PATCH 36/48] fix: plotting the arc failed without a spectrum or with
 a list

---
 src/rascal/plotting.py | 43 +++++++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/src/rascal/plotting.py b/src/rascal/plotting.py
index 68e7d8d..8183f60 100644
--- a/src/rascal/plotting.py
+++ b/src/rascal/plotting.py
@@ -1205,19 +1205,24 @@ def plot_arc(
 
     """
 
-    if pixel_list is None:
-        pixel_list = np.arange(len(calibrator.spectrum))
+    spectrum = calibrator.spectrum
+
+    if spectrum is not None:
+        spectrum = np.asarray(spectrum)
+
+        if pixel_list is None:
+            pixel_list = np.arange(len(spectrum))
 
     if calibrator.plot_with_matplotlib:
         _import_matplotlib()
 
         fig = plt.figure(figsize=(18, 5))
 
-        if calibrator.spectrum is not None:
+        if spectrum is not None:
             if log_spectrum:
                 plt.plot(
                     pixel_list,
-                    np.log10(calibrator.spectrum / calibrator.spectrum.max()),
+                    np.log10(spectrum / spectrum.max()),
                     label="Arc Spectrum",
                 )
                 plt.vlines(
@@ -1228,7 +1233,7 @@ def plot_arc(
             else:
                 plt.plot(
                     pixel_list,
-                    calibrator.spectrum / calibrator.spectrum.max(),
+                    spectrum / spectrum.max(),
                     label="Arc Spectrum",
                 )
                 plt.ylabel("Normalised Count")
@@ -1239,8 +1244,8 @@ def plot_arc(
                     label="Detected Peaks",
                     color="C1",
                 )
-            plt.title("Number of pixels: " + str(calibrator.spectrum.shape[0]))
-            plt.xlim(0, calibrator.spectrum.shape[0])
+            plt.title("Number of pixels: " + str(spectrum.shape[0]))
+            plt.xlim(0, spectrum.shape[0])
             plt.legend()
 
         else:
@@ -1273,14 +1278,17 @@ def plot_arc(
 
         fig = go.Figure()
 
-        if log_spectrum:
+        if spectrum is None:
+            xmin, xmax = 0.0, 1.05
+
+        elif log_spectrum:
             # Plot all-pairs
             fig.add_trace(
                 go.Scatter(
                     x=list(pixel_list),
                     y=list(
                         np.log10(
-                            calibrator.spectrum / calibrator.spectrum.max()
+                            spectrum / spectrum.max()
                         )
                     ),
                     mode="lines",
@@ -1288,10 +1296,10 @@ def plot_arc(
                 )
             )
             xmin = min(
-                np.log10(calibrator.spectrum / calibrator.spectrum.max())
+                np.log10(spectrum / spectrum.max())
             )
             xmax = max(
-                np.log10(calibrator.spectrum / calibrator.spectrum.max())
+                np.log10(spectrum / spectrum.max())
             )
 
         else:
@@ -1299,13 +1307,13 @@ def plot_arc(
             fig.add_trace(
                 go.Scatter(
                     x=list(pixel_list),
-                    y=list(calibrator.spectrum / calibrator.spectrum.max()),
+                    y=list(spectrum / spectrum.max()),
                     mode="lines",
                     name="Arc",
                 )
             )
-            xmin = min(calibrator.spectrum / calibrator.spectrum.max())
-            xmax = max(calibrator.spectrum / calibrator.spectrum.max())
+            xmin = min(spectrum / spectrum.max())
+            xmax = max(spectrum / spectrum.max())
 
         # Add vlines
         for i in calibrator.peaks:
@@ -1330,7 +1338,12 @@ def plot_arc(
             xaxis=dict(
                 title="Pixel",
                 zeroline=False,
-                range=[0.0, len(calibrator.spectrum)],
+                range=[
+                    0.0,
+                    max(calibrator.peaks)
+                    if spectrum is None
+                    else len(spectrum),
+                ],
                 showgrid=True,
             ),
             hovermode="closest",
-- 
2.43.0


From 8130887fb9087df868a4d1657d44858af1332b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:28 +0000
Subject: [PATCH 37/48] fix: residuals in the matplotlib solution plot were
 always zero

---
 src/rascal/plotting.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rascal/plotting.py b/src/rascal/plotting.py
index 8183f60..3992d13 100644
--- a/src/rascal/plotting.py
+++ b/src/rascal/plotting.py
@@ -800,14 +800,14 @@ def plot_fit(
 
         first_one = True
         for p, x in zip(calibrator.matched_peaks, calibrator.matched_atlas):
-            diff = calibrator.atlas.get_lines() - x
-            idx = np.argmin(np.abs(diff))
-            all_diff.append(diff[idx])
+            idx = np.argmin(np.abs(np.array(calibrator.atlas.get_lines()) - x))
+            diff = x - calibrator.polyval(p, fit_coeff)
+            all_diff.append(diff)
 
             calibrator.logger.info("Peak at: {} A".format(x))
 
             fitted_peaks.append(p)
-            fitted_diff.append(diff[idx])
+            fitted_diff.append(diff)
             calibrator.logger.info(
                 "- matched to {} A".format(calibrator.atlas.get_lines()[idx])
             )
-- 
2.43.0


From 8aade3a3db9568733122855ee2180f0734ea6ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:28 +0000
Subject: [PATCH 38/48] fix: search space plots had pixel and wavelength axis
 titles swapped

---
 src/rascal/plotting.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rascal/plotting.py b/src/rascal/plotting.py
index 3992d13..de8e774 100644
--- a/src/rascal/plotting.py
+++ b/src/rascal/plotting.py
@@ -439,8 +439,8 @@ def plot_search_space(
             calibrator.max_wavelength + calibrator.range_tolerance,
         )
 
-        plt.xlabel("Wavelength / A")
-        plt.ylabel("Pixel")
+        plt.xlabel("Pixel")
+        plt.ylabel("Wavelength / A")
         plt.legend()
         plt.grid()
         plt.tight_layout()
@@ -624,7 +624,7 @@ def plot_search_space(
         fig.update_layout(
             autosize=True,
             yaxis=dict(
-                title="Pixel",
+                title="Wavelength / A",
                 range=[
                     calibrator.min_wavelength
                     - calibrator.range_tolerance * 1.1,
@@ -634,7 +634,7 @@ def plot_search_space(
                 showgrid=True,
             ),
             xaxis=dict(
-                title="Wavelength / A",
+                title="Pixel",
                 zeroline=False,
                 range=[0.0, calibrator.pixel_list.max()],
                 showgrid=True,
-- 
2.43.0


From 2b3dd2f3324021931a6f848b875db0b2991d65d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:28 +0000
Subject: [PATCH 39/48] fix: logarithmic spectrum was shown on a logarithmic
 axis by plotly

---
 src/rascal/plotting.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/rascal/plotting.py b/src/rascal/plotting.py
index de8e774..fb4223e 100644
--- a/src/rascal/plotting.py
+++ b/src/rascal/plotting.py
@@ -1073,12 +1073,11 @@ def plot_fit(
                     yaxis3=dict(
                         title="Electron Count / e-",
                         range=[
-                            np.log10(np.percentile(spectrum, 15)),
-                            np.log10(spec_max),
+                            np.percentile(spectrum, 15),
+                            spec_max,
                         ],
                         domain=[0.67, 1.0],
                         showgrid=True,
-                        type="log",
                     )
                 )
 
-- 
2.43.0


From 32d918c2f7f3f12aa396f839a76c52c5af907ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:28 +0000
Subject: [PATCH 40/48] fix: calibration line plot failed for a string, lines
 sharing a sample and unsorted line lists

---
 src/rascal/plotting.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/rascal/plotting.py b/src/rascal/plotting.py
index fb4223e..d362189 100644
--- a/src/rascal/plotting.py
+++ b/src/rascal/plotting.py
@@ -130,6 +130,9 @@ def plot_calibration_lines(
 
     _import_matplotlib()
 
+    if isinstance(elements, str):
+        elements = [elements]
+
     # the min_intensity and min_distance are set to 0.0 because the
     # simulated spectrum would contain them. These arguments only
     # affect the labelling.
@@ -162,9 +165,12 @@ def plot_calibration_lines(
 
     for e in elements:
         e_mask = np.char.lower(element_list) == e.lower()
-        i[
-            np.isin(w, np.around(wavelength_list[e_mask], decimals=3))
-        ] += intensity_list[e_mask]
+        # lines can share a sample, and they are not necessarily sorted
+        idx = np.searchsorted(
+            w, np.around(wavelength_list[e_mask], decimals=3)
+        )
+        np.add.at(i, np.minimum(idx, len(i) - 1), intensity_list[e_mask])
+
     # Convolve to simulate the arc spectrum
     model_spectrum = signal.convolve(i, gaussian, mode="same")
 
-- 
2.43.0


From 015a43e3b93ff62c1bb5927e0deaef6a0f6e9348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:46 +0000
Subject: [PATCH 41/48] fix: separation filter assumed a sorted line list

---
 src/rascal/util.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index b5a147e..dd88dd5 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -230,6 +230,10 @@ def filter_separation(wavelengths, min_separation=0):
     if len(wavelengths) < 2:
         return np.ones(len(wavelengths), dtype=bool)
 
+    # The neighbours are those in wavelength, not in the order of the list
+    order = np.argsort(wavelengths, kind="stable")
+    wavelengths = wavelengths[order]
+
     left_dists = np.zeros_like(wavelengths)
     left_dists[1:] = wavelengths[1:] - wavelengths[:-1]
 
@@ -239,7 +243,8 @@ def filter_separation(wavelengths, min_separation=0):
     distances[0] = right_dists[0]
     distances[-1] = left_dists[-1]
 
-    distance_mask = np.abs(distances) >= min_separation
+    distance_mask = np.zeros(len(wavelengths), dtype=bool)
+    distance_mask[order] = np.abs(distances) >= min_separation
 
     return distance_mask
 
-- 
2.43.0


From dcd1b27e5395ed54e47d3660e55ff0aa84c253d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:13 +0000
Subject: [PATCH 42/48] fix: an empty Hough transform lost its two columns when
 loaded from json

---
 src/rascal/houghtransform.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rascal/houghtransform.py b/src/rascal/houghtransform.py
index 03466c2..32da6ad 100644
--- a/src/rascal/houghtransform.py
+++ b/src/rascal/houghtransform.py
@@ -332,7 +332,9 @@ class HoughTransform:
 
             input_json = json.load(open(filename))
 
-            self.hough_points = np.array(input_json["hough_points"])
+            self.hough_points = np.array(input_json["hough_points"]).reshape(
+                -1, 2
+            )
             self.hist = np.array(input_json["hist"]).astype("float")
             self.xedges = np.array(input_json["xedges"]).astype("float")
             self.yedges = np.array(input_json["yedges"]).astype("float")
-- 
2.43.0


From f65e6b073b73f6f0005bd9f1d325fd0f98f78fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:33 +0000
Subject: [PATCH 43/48] fix: initial guess of the robust fit was applied in the
 wrong order and scale

---
 src/rascal/models.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/rascal/models.py b/src/rascal/models.py
index 6251722..e3fc606 100644
--- a/src/rascal/models.py
+++ b/src/rascal/models.py
@@ -1,4 +1,3 @@
-import copy
 import scipy.optimize
 import numpy as np
 
@@ -95,13 +94,16 @@ def robust_polyfit(x, y, degree=3, x0=None):
 
     x_n, y_n = normalise_input(x, y)
 
-    p_init = copy.copy(x0)
     # Need to normalise the fit function too
-    if p_init is not None:
-        for i in range(0, degree):
+    if x0 is not None:
+        p_init = np.array(x0, dtype=float)
+
+        for i in range(0, degree + 1):
             p_init[i] *= x.std() ** i
 
-        p_init /= y.std()
+        # lowest order first in x0, highest order first in the model
+        p_init = p_init[::-1] / y.std()
+
     else:
         p_init = np.ones(degree + 1)
 
-- 
2.43.0


From e548dfa582792798260ae0acfc23a2e6376836dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:25 +0000
Subject: [PATCH 44/48] fix: robust fit could stall far from the optimum, e.g.
 for two points

---
 src/rascal/models.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/rascal/models.py b/src/rascal/models.py
index e3fc606..c778214 100644
--- a/src/rascal/models.py
+++ b/src/rascal/models.py
@@ -1,4 +1,5 @@
 import scipy.optimize
+import scipy.special
 import numpy as np
 
 """
@@ -107,13 +108,29 @@ def robust_polyfit(x, y, degree=3, x0=None):
     else:
         p_init = np.ones(degree + 1)
 
-    res = scipy.optimize.least_squares(
-        poly_cost_function,
-        p_init,
-        args=(x_n, y_n, degree),
-        loss="huber",
-        diff_step=1e-5,
+    def minimise(p_init):
+        return scipy.optimize.least_squares(
+            poly_cost_function,
+            p_init,
+            args=(x_n, y_n, degree),
+            loss="huber",
+            diff_step=1e-5,
+        )
+
+    res = minimise(p_init)
+
+    # The optimiser can stall at the kink of the loss function, so start again
+    # from the ordinary least squares solution if that is clearly better
+    p_lsq = np.linalg.lstsq(np.vander(x_n, degree + 1), y_n, rcond=None)[0]
+    lsq_cost = np.sum(
+        scipy.special.huber(
+            1.0, poly_cost_function(p_lsq, x_n, y_n, degree)
+        )
     )
+
+    if res.cost > lsq_cost + 1e-6:
+        res = minimise(p_lsq)
+
     p = res.x
 
     p *= y.std()
-- 
2.43.0


From ef11c174c52f22579a2770848b16a028901ee925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:12 +0000
Subject: [PATCH 45/48] fix: plot_calibration_lines failed if an element had no
 line to show

---
 src/rascal/plotting.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rascal/plotting.py b/src/rascal/plotting.py
index d362189..78215d5 100644
--- a/src/rascal/plotting.py
+++ b/src/rascal/plotting.py
@@ -195,6 +195,11 @@ def plot_calibration_lines(
 
     for j, e in enumerate(elements):
         e_mask = np.char.lower(element_list) == e.lower()
+
+        # an element does not necessarily have a line to show
+        if not np.any(e_mask):
+            continue
+
         markerline, stemline, _ = plt.stem(
             wavelength_list[e_mask],
             intensity_list[e_mask],
-- 
2.43.0


From 71514d047da7c2a9b7e9214bb09dab0d88de1f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:24 +0000
Subject: [PATCH 46/48] fix: known pairs and pixel list followed later changes
 of the caller's arrays

---
 src/rascal/calibrator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index deb3643..3f4a704 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -975,7 +975,7 @@ class Calibrator:
 
         # set the pixel_list
         if pixel_list is not None:
-            self.pixel_list = np.asarray(pixel_list)
+            self.pixel_list = np.array(pixel_list)
             self.pixel_list_supplied = True
 
         elif self.pixel_list is None:
@@ -1581,8 +1581,8 @@ class Calibrator:
 
         """
 
-        pix = np.asarray(pix, dtype="float").reshape(-1)
-        wave = np.asarray(wave, dtype="float").reshape(-1)
+        pix = np.array(pix, dtype="float").reshape(-1)
+        wave = np.array(wave, dtype="float").reshape(-1)
 
         assert pix.size == wave.size, ValueError(
             "Please check the length of the input arrays. pix has size {} "
-- 
2.43.0


From a5afd548f1cbcb8de97f93262517309654dd74af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:26 +0000
Subject: [PATCH 47/48] fix: Legendre and Chebyshev fits returned a power
 series but evaluated it in their own basis

---
 src/rascal/calibrator.py | 12 +++++----
 src/rascal/models.py     | 54 ++++++++++++++++++++++++++++++++++++++++
 2 files changed, 61 insertions(+), 5 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 3f4a704..d19cd72 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -1630,7 +1630,9 @@ class Calibrator:
             Sets a tolerance on whether a fit found by RANSAC is considered
             acceptable
         fit_type: string (default: 'poly')
-            One of 'poly', 'legendre' or 'chebyshev'
+            One of 'poly', 'legendre' or 'chebyshev', the basis in which the
+            trial polynomials are fitted. All coefficients, given or returned,
+            are those of the power series, lowest order first.
         candidate_tolerance: float (default: 2.0)
             toleranceold  (Angstroms) for considering a point to be an inlier
         brute_force: boolean (default: False)
@@ -1676,12 +1678,12 @@ class Calibrator:
             self.polyval = np.polynomial.polynomial.polyval
 
         elif self.fit_type == "legendre":
-            self.polyfit = np.polynomial.legendre.legfit
-            self.polyval = np.polynomial.legendre.legval
+            self.polyfit = models.legendre_polyfit
+            self.polyval = np.polynomial.polynomial.polyval
 
         elif self.fit_type == "chebyshev":
-            self.polyfit = np.polynomial.chebyshev.chebfit
-            self.polyval = np.polynomial.chebyshev.chebval
+            self.polyfit = models.chebyshev_polyfit
+            self.polyval = np.polynomial.polynomial.polyval
 
         else:
             raise ValueError(
diff --git a/src/rascal/models.py b/src/rascal/models.py
index c778214..5f5c772 100644
--- a/src/rascal/models.py
+++ b/src/rascal/models.py
@@ -142,6 +142,60 @@ def robust_polyfit(x, y, degree=3, x0=None):
     return p[::-1]
 
 
+def legendre_polyfit(x, y, degree):
+    """
+    Least-squares fit of a series of Legendre polynomials.
+
+    Parameters
+    ----------
+    x: list or 1D numpy array
+        Data
+    y: list or 1D numpy array
+        Data to fit
+    degree: int
+        Polynomial degree
+
+    Returns
+    -------
+    p: 1D numpy array
+        Coefficients of the power series, lowest order first
+
+    """
+    p = np.polynomial.legendre.leg2poly(
+        np.polynomial.legendre.legfit(x, y, degree)
+    )
+
+    # the conversion drops trailing zeros
+    return np.append(p, np.zeros(degree + 1 - len(p)))
+
+
+def chebyshev_polyfit(x, y, degree):
+    """
+    Least-squares fit of a series of Chebyshev polynomials.
+
+    Parameters
+    ----------
+    x: list or 1D numpy array
+        Data
+    y: list or 1D numpy array
+        Data to fit
+    degree: int
+        Polynomial degree
+
+    Returns
+    -------
+    p: 1D numpy array
+        Coefficients of the power series, lowest order first
+
+    """
+    p = np.polynomial.chebyshev.cheb2poly(
+        np.polynomial.chebyshev.chebfit(x, y, degree)
+    )
+
+    # the conversion drops trailing zeros
+    return np.append(p, np.zeros(degree + 1 - len(p)))
+
+
 # What is this for?
 """
 def pprint_coefficients(coeffs):
-- 
2.43.0


From 381da977ed2c054bc95ba01d68177403ebf7d49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:30 +0000
Subject: [PATCH 48/48] fix: a faint line hid a brighter one listed at the same
 wavelength

---
 src/rascal/util.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index dd88dd5..115e0e6 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -404,20 +404,18 @@ def load_calibration_lines(
             relative_humidity,
         )
 
-    # Filter wavelengths
+    # Filter intensities
+    if isinstance(min_intensity, (float, int, np.number, list, np.ndarray)):
+        lines = lines[filter_intensity(elements, lines, min_intensity)]
+
+    # Filter wavelengths, lines at the same wavelength are only counted once
     lines = filter_wavelengths(
         lines, min_atlas_wavelength, max_atlas_wavelength
     )
 
-    # Filter intensities
-    if isinstance(min_intensity, (float, int, np.number, list, np.ndarray)):
-        intensity_mask = filter_intensity(elements, lines, min_intensity)
-    else:
-        intensity_mask = np.ones_like(lines[:, 0]).astype(bool)
-
-    element_list = lines[:, 0][intensity_mask]
-    wavelength_list = lines[:, 1][intensity_mask].astype("float64")
-    intensity_list = lines[:, 2][intensity_mask].astype("float64")
+    element_list = lines[:, 0]
+    wavelength_list = lines[:, 1].astype("float64")
+    intensity_list = lines[:, 2].astype("float64")
 
     if brightest_n_lines is not None:
         to_keep = np.argsort(np.array(intensity_list))[::-1][
-- 
2.43.0

