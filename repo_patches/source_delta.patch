From 602b13ed79ef9e8986453b48069a37032da613e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:53 +0000
Subject: [PATCH 01/43] fix: compute the saturation vapour pressure at the
 temperature in Kelvin

get_vapour_pressure is given Celsius but the IAPWS formula of the NIST
document takes Kelvin, so humid air was refracting with a vapour pressure
more than an order of magnitude too small.
---
 src/rascal/util.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index ac340b0..16635b9 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -8,6 +8,12 @@ import pkg_resources
 def get_vapour_pressure(temperature):
     """
     Appendix A.I of https://emtoolbox.nist.gov/Wavelength/Documentation.asp
+
+    Parameters
+    ----------
+    temperature: float
+        In unit of Celcius
+
     """
     K1 = 1.16705214528e03
     K2 = -7.24213167032e05
@@ -19,7 +25,9 @@ def get_vapour_pressure(temperature):
     K8 = 4.05113405421e05
     K9 = -2.38555575678e-01
     K10 = 6.50175348448e02
-    omega = temperature + K9 / (temperature - K10)
+    # The saturation vapour pressure formula takes temperature in Kelvin
+    T = temperature + 273.15
+    omega = T + K9 / (T - K10)
     A = omega**2.0 + K1 * omega + K2
     B = K3 * omega**2.0 + K4 * omega + K5
     C = K6 * omega**2.0 + K7 * omega + K8
-- 
2.43.0


From a647ae9397223415987ce335df8bd1825ffde050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:53 +0000
Subject: [PATCH 02/43] fix: filter the line separation in order of wavelength

Selecting the brightest lines left them in order of intensity, so the
separation was measured between lines that are not neighbours.
---
 src/rascal/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index 16635b9..cf9706c 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -408,6 +408,8 @@ def load_calibration_lines(
         to_keep = np.argsort(np.array(intensity_list))[::-1][
             :brightest_n_lines
         ]
+        # keep the lines sorted by wavelength for the separation filter
+        to_keep = np.sort(to_keep)
         element_list = element_list[to_keep]
         intensity_list = intensity_list[to_keep]
         wavelength_list = wavelength_list[to_keep]
-- 
2.43.0


From a7dd74af53fa8ea5091ff1bf03e0a07f5d791d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:53 +0000
Subject: [PATCH 03/43] fix: keep a lone line and accept an empty list in
 filter_separation

---
 src/rascal/util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index cf9706c..7a2e74c 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -223,6 +223,10 @@ def filter_separation(wavelengths, min_separation=0):
 
     """
 
+    # there is nothing to be too close to
+    if len(wavelengths) < 2:
+        return np.ones(len(wavelengths), dtype=bool)
+
     left_dists = np.zeros_like(wavelengths)
     left_dists[1:] = wavelengths[1:] - wavelengths[:-1]
 
-- 
2.43.0


From 065f2f1eb0997598fe51a4e088a9bd9cd2825262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:53 +0000
Subject: [PATCH 04/43] fix: remove all the atlas lines in a range

Removing from the list while iterating over it skipped the line after
each removed one.
---
 src/rascal/atlas.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/rascal/atlas.py b/src/rascal/atlas.py
index a352e8d..51745f9 100644
--- a/src/rascal/atlas.py
+++ b/src/rascal/atlas.py
@@ -324,9 +324,11 @@ class Atlas:
 
         """
 
-        for atlas_line in self.atlas_lines:
-            if abs(atlas_line.wavelength - wavelength) < tolerance:
-                self.atlas_lines.remove(atlas_line)
+        self.atlas_lines = [
+            atlas_line
+            for atlas_line in self.atlas_lines
+            if not abs(atlas_line.wavelength - wavelength) < tolerance
+        ]
 
     def list(self):
         """
-- 
2.43.0


From ca99d26ec2bf4a221131d48461c24b38c03eb3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:53 +0000
Subject: [PATCH 05/43] fix: accept a single line in add_user_atlas, as
 documented

---
 src/rascal/atlas.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/rascal/atlas.py b/src/rascal/atlas.py
index 51745f9..0a4b806 100644
--- a/src/rascal/atlas.py
+++ b/src/rascal/atlas.py
@@ -246,6 +246,16 @@ class Atlas:
 
         """
 
+        # a single line
+        if isinstance(elements, str):
+            elements = [elements]
+
+        if np.ndim(wavelengths) == 0:
+            wavelengths = [wavelengths]
+
+        if intensities is not None and np.ndim(intensities) == 0:
+            intensities = [intensities]
+
         if not isinstance(elements, list):
             elements = list(elements)
 
-- 
2.43.0


From 83b4c285d5e54041fbc20b12339fc64130e45a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:30 +0000
Subject: [PATCH 06/43] fix: report refined peaks in the coordinates of the
 spectrum

The fitted centre was offset when the window is cut at the left edge and
by the fraction of a fractional input peak. The windows were normalised in
place so that overlapping windows changed each other, integer spectra
could not be normalised at all, and a single not-finite sample spoilt the
initial guess.
---
 src/rascal/util.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index 7a2e74c..6113631 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -490,30 +490,32 @@ def refine_peaks(spectrum, peaks, window_width=10, distance=None):
 
     refined_peaks = []
 
-    spectrum = np.array(spectrum)
+    spectrum = np.array(spectrum, dtype=float)
     length = len(spectrum)
 
     for peak in peaks:
-        y = spectrum[
-            max(0, int(peak) - window_width) : min(
-                int(peak) + window_width, length
-            )
-        ]
-        y /= np.nanmax(y)
+        # the window is cut short at the edges of the spectrum
+        start = max(0, int(peak) - window_width)
+        y = spectrum[start : min(int(peak) + window_width, length)]
         x = np.arange(len(y))
 
-        mask = np.isfinite(y) & ~np.isnan(y)
+        mask = np.isfinite(y)
         n = np.sum(mask)
 
         if n == 0:
             continue
 
+        x = x[mask]
+        y = y[mask] / np.max(y[mask])
+
         mean = np.sum(x * y) / n
         sigma = np.sum(y * (x - mean) ** 2) / n
 
         try:
-            popt, _ = curve_fit(gauss, x[mask], y[mask], p0=[1, mean, sigma])
+            popt, _ = curve_fit(gauss, x, y, p0=[1, mean, sigma])
             height, centre, _ = popt
+            # from the position in the window to that in the spectrum
+            centre = start + centre
 
             if height < 0:
                 continue
@@ -521,7 +523,7 @@ def refine_peaks(spectrum, peaks, window_width=10, distance=None):
             if centre > len(spectrum) or centre < 0:
                 continue
 
-            refined_peaks.append(peak - window_width + centre)
+            refined_peaks.append(centre)
 
         except RuntimeError:
             continue
-- 
2.43.0


From db772e8127a9447fac47e696f56c2f0c149c5557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:30 +0000
Subject: [PATCH 07/43] fix: load the Hough points from json as an array

They stayed a nested list that can neither be binned nor extended.
---
 src/rascal/houghtransform.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rascal/houghtransform.py b/src/rascal/houghtransform.py
index 41a2699..68c68a9 100644
--- a/src/rascal/houghtransform.py
+++ b/src/rascal/houghtransform.py
@@ -324,7 +324,9 @@ class HoughTransform:
 
             input_json = json.load(open(filename))
 
-            self.hough_points = input_json["hough_points"]
+            self.hough_points = np.array(
+                input_json["hough_points"], dtype=float
+            ).reshape(-1, 2)
             self.hist = np.array(input_json["hist"]).astype("float")
             self.xedges = np.array(input_json["xedges"]).astype("float")
             self.yedges = np.array(input_json["yedges"]).astype("float")
-- 
2.43.0


From 61b3bf81c7b29e0ebd9935d44fa580d2a8f90d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:57 +0000
Subject: [PATCH 08/43] fix: return the Hough transform when it is not saved to
 disk

Calibrator.save_hough_transform dropped what HoughTransform.save returns.
---
 src/rascal/calibrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 0673c22..bc8e6f0 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -1480,7 +1480,7 @@ class Calibrator:
 
         """
 
-        self.ht.save(
+        return self.ht.save(
             filename=filename,
             fileformat=fileformat,
             delimiter=delimiter,
-- 
2.43.0


From 36509b2819c0663834e85a96dac2d7b2bfde9fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:57 +0000
Subject: [PATCH 09/43] fix: use a loaded Hough transform in the fit

The lines were not restored with the accumulator, so fit() either computed
a new transform over the loaded one or kept using the lines from before.
---
 src/rascal/calibrator.py     | 2 ++
 src/rascal/houghtransform.py | 9 +++++++++
 2 files changed, 11 insertions(+)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index bc8e6f0..22cdb96 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -1503,6 +1503,8 @@ class Calibrator:
         """
 
         self.ht.load(filename=filename, filetype=filetype)
+        self.hough_points = self.ht.hough_points
+        self.hough_lines = self.ht.hough_lines
 
     def set_known_pairs(self, pix=(), wave=()):
         """
diff --git a/src/rascal/houghtransform.py b/src/rascal/houghtransform.py
index 68c68a9..1d04e88 100644
--- a/src/rascal/houghtransform.py
+++ b/src/rascal/houghtransform.py
@@ -185,6 +185,13 @@ class HoughTransform:
             self.hough_points[:, 1],
             bins=(xbins, ybins),
         )
+        self._get_hough_lines()
+
+    def _get_hough_lines(self):
+        """
+        Get the lines at the centres of the bins, by decreasing bin count.
+
+        """
 
         # Get the line fit_coeffients from the promising bins in the
         # histogram
@@ -339,3 +346,5 @@ class HoughTransform:
             raise ValueError(
                 "Unknown filetype %s, it has to be npy or json" % filetype
             )
+
+        self._get_hough_lines()
-- 
2.43.0


From 81bc1ad808734a9e3a0f2311554f8970c32cd771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:57 +0000
Subject: [PATCH 10/43] fix: update the search limits when the pixel list
 changes

The slopes were derived from the pixel list only in set_hough_properties, so
calling set_calibrator_properties afterwards left limits for another
detector.
---
 src/rascal/calibrator.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 22cdb96..f53e291 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -981,6 +981,10 @@ class Calibrator:
                 "use_plotly() to manually select the library."
             )
 
+        # the slopes depend on the pixel list
+        if self.min_wavelength is not None:
+            self._set_search_limits()
+
     def set_hough_properties(
         self,
         num_slopes=None,
@@ -1085,6 +1089,15 @@ class Calibrator:
         else:
             pass
 
+        self._set_search_limits()
+
+    def _set_search_limits(self):
+        """
+        Set the limits of the intercept and slope from the wavelength range,
+        the tolerances and the pixel list.
+
+        """
+
         # Start wavelength in the spectrum, +/- some tolerance
         self.min_intercept = self.min_wavelength - self.range_tolerance
         self.max_intercept = self.min_wavelength + self.range_tolerance
-- 
2.43.0


From ce064d494821ac97609daade6cb96291348b7e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:19 +0000
Subject: [PATCH 11/43] fix: keep the pairs up to date with the atlas

Removing lines left their pairs behind, so fit() could match peaks to lines
that are no longer in the atlas.
---
 src/rascal/calibrator.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index f53e291..622a65f 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -126,11 +126,12 @@ class Calibrator:
                 ]
             )
 
+            pairs = np.array(pairs).reshape(-1, 2)
             mask = valid_area.find_simplex(pairs) >= 0
-            self.pairs = np.array(pairs)[mask]
+            self.pairs = pairs[mask]
 
         else:
-            self.pairs = np.array(pairs)
+            self.pairs = np.array(pairs).reshape(-1, 2)
 
     def _merge_candidates(self, candidates):
         """
@@ -1359,6 +1360,7 @@ class Calibrator:
         """
 
         self.atlas.remove_atlas_lines_range(wavelength, tolerance)
+        self._generate_pairs()
 
     def list_atlas(self):
         """
@@ -1373,6 +1375,7 @@ class Calibrator:
         """
 
         self.atlas.clear()
+        self._generate_pairs()
 
     def add_user_atlas(
         self,
@@ -1436,12 +1439,11 @@ class Calibrator:
         self._generate_pairs()
 
     def do_hough_transform(self, brute_force=False):
-        if self.pairs == []:
-            logging.warning("pairs list is empty. Try generating now.")
-            self._generate_pairs()
+        # The atlas may have been modified since the pairs were generated
+        self._generate_pairs()
 
-            if self.pairs == []:
-                logging.error("pairs list is still empty.")
+        if len(self.pairs) == 0:
+            logging.error("pairs list is empty.")
 
         # Generate the hough_points from the pairs
         self.ht.set_constraints(
@@ -1666,6 +1668,10 @@ class Calibrator:
         if (self.hough_lines is None) or (self.hough_points is None):
             self.do_hough_transform()
 
+        else:
+            # The atlas may have been modified since the transform
+            self._generate_pairs()
+
         if self.minimum_matches > len(self.atlas):
             self.logger.warning(
                 "Requested minimum matches is greater than the atlas size"
-- 
2.43.0


From f995fd90b668ca1a120aad752781b670ab613c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:19 +0000
Subject: [PATCH 12/43] fix: rank the candidates by their own weight

The order of the aggregated counts, which are per unique wavelength, was
applied to the list with duplicates, returning arbitrary wavelengths.
---
 src/rascal/calibrator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 622a65f..416abd7 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -205,14 +205,14 @@ class Calibrator:
                 )
 
                 unique_wavelengths = np.unique(wavelengths_matched)
-                aggregated_count = np.zeros_like(unique_wavelengths)
+                aggregated_count = np.zeros(len(unique_wavelengths))
                 for j, w in enumerate(unique_wavelengths):
                     idx_j = np.where(wavelengths_matched == w)
                     aggregated_count[j] = np.sum(counts[idx_j])
 
                 out_peaks.extend([peak] * n)
                 out_wavelengths.extend(
-                    wavelengths_matched[np.argsort(-aggregated_count)[:n]]
+                    unique_wavelengths[np.argsort(-aggregated_count)[:n]]
                 )
 
         return out_peaks, out_wavelengths
-- 
2.43.0


From 9b550f7afa4fe024fd02aeab9c5af5e686e78595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:57 +0000
Subject: [PATCH 13/43] fix: do not mix up the columns of the merged candidates

Sorting along the last axis swapped pixel, wavelength and weight of every
candidate, which plot_search_space then drew.
---
 src/rascal/calibrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 416abd7..22816c7 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -150,7 +150,7 @@ class Calibrator:
             for pair in np.array(pairs).T:
                 merged.append(pair)
 
-        return np.sort(np.array(merged))
+        return np.array(merged)
 
     def _get_most_common_candidates(
         self, candidates, top_n_candidate, weighted
-- 
2.43.0


From d8e54c8a99e67cd70789477f68da31957ef14284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:57 +0000
Subject: [PATCH 14/43] fix: compare every peak with every line in the
 polynomial candidates

Subtracting the list of lines from that of the peaks only worked when both
happened to have the same length, and then compared unrelated pairs.
---
 src/rascal/calibrator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 22816c7..878cb85 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -292,7 +292,7 @@ class Calibrator:
         self.candidates = []
 
         # actual wavelengths
-        actual = np.array(self.atlas.get_lines())
+        actual = self.pairs[:, 1]
 
         n = len(self.hough_lines)
 
@@ -303,7 +303,7 @@ class Calibrator:
 
         for d in delta:
             # predicted wavelength
-            predicted = self.polyval(self.peaks, self.fit_coeff) + d
+            predicted = self.polyval(self.pairs[:, 0], self.fit_coeff) + d
             diff = np.abs(actual - predicted)
             mask = diff < candidate_tolerance
 
@@ -312,7 +312,7 @@ class Calibrator:
                     actual[mask], 1.0, predicted[mask], self.range_tolerance
                 )
                 self.candidates.append(
-                    [self.peaks[mask], actual[mask], weight]
+                    [self.pairs[:, 0][mask], actual[mask], weight]
                 )
 
     def _match_bijective(self, candidates, peaks, fit_coeff):
-- 
2.43.0


From 3b0cea0b8c23b4b38a57c174ffab6cd13af6ef78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:57 +0000
Subject: [PATCH 15/43] fix: make brute force fits work

The samples were indexed into a 2D array that polyfit rejects, a rejected
combination was tried again forever, and there were no combinations at all
with fewer candidates than the sample size.
---
 src/rascal/calibrator.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 878cb85..f695c56 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -473,9 +473,9 @@ class Calibrator:
         # the same or larger than the available lines, it is essentially a
         # brute force.
         if brute_force or (self.sample_size >= len(np.unique(x))):
+            self.sample_size = min(self.sample_size, len(np.unique(x)))
             idx = range(len(x))
             sampler = itertools.combinations(idx, self.sample_size)
-            self.sample_size = len(np.unique(x))
 
         else:
             sampler = range(int(max_tries))
@@ -531,8 +531,10 @@ class Calibrator:
                 stop_n_candidateow = False
 
                 if brute_force:
-                    x_hat = x[[sample]]
-                    y_hat = y[[sample]]
+                    x_hat = x[list(sample)]
+                    y_hat = y[list(sample)]
+                    # every combination is only tried once
+                    keep_trying = False
 
                 else:
                     # Pick some random peaks
-- 
2.43.0


From 100cbec4adc4a2e65ee2c7325c24bba9cdc64086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:57 +0000
Subject: [PATCH 16/43] fix: sample enough points for the degree of the given
 fit_coeff

The sample size followed the fit_deg argument although the degree of
fit_coeff replaces it, leaving underdetermined sample fits.
---
 src/rascal/calibrator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index f695c56..3518a8a 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -1664,8 +1664,8 @@ class Calibrator:
             )
             self.sample_size = len(self.atlas)
 
-        if self.sample_size <= fit_deg:
-            self.sample_size = fit_deg + 1
+        if self.sample_size <= self.fit_deg:
+            self.sample_size = self.fit_deg + 1
 
         if (self.hough_lines is None) or (self.hough_points is None):
             self.do_hough_transform()
-- 
2.43.0


From 31c4ce01ee4acabd3819f498e270d9289e220c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:08 +0000
Subject: [PATCH 17/43] fix: forget the matches of an earlier fit when fitting
 again

A second fit which found nothing, or fewer lines, failed on an assertion
comparing its own result with the matches of the first.
---
 src/rascal/calibrator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 3518a8a..95444bd 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -449,6 +449,10 @@ class Calibrator:
         best_residual = None
         best_inliers = 0
 
+        # Forget the matches of any previous fit
+        self.matched_peaks = []
+        self.matched_atlas = []
+
         # Note that there may be multiple matches for
         # each peak, that is len(x) > len(np.unique(x))
         x = np.array(self.candidate_peak)
-- 
2.43.0


From 8785330c08d8c07f3f615348427921c182f0bfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:08 +0000
Subject: [PATCH 18/43] fix: return the given fit_coeff when no fit outperforms
 it

As documented. The fit failed instead, unless a sample happened to have a
lower cost than the given solution.
---
 src/rascal/calibrator.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 95444bd..e8d178c 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -515,10 +515,25 @@ class Calibrator:
 
         # Calculate initial error given pre-existing fit
         if fit_coeff is not None:
-            err, _, _ = self._match_bijective(candidates, peaks, fit_coeff)
+            err, matched_x, matched_y = self._match_bijective(
+                candidates, peaks, fit_coeff
+            )
             best_cost = sum(err)
             best_err = np.sqrt(np.mean(err**2.0))
 
+            # This is the solution if no other fit outperforms it
+            mask = err < self.ransac_tolerance
+            best_p = np.array(fit_coeff, dtype="float")
+            best_inliers = sum(mask)
+            self.matched_peaks = list(matched_x[mask])
+            self.matched_atlas = list(matched_y[mask])
+            best_residual = self.polyval(matched_x[mask], best_p) - np.array(
+                self.matched_atlas
+            )
+
+            if best_inliers > 0:
+                best_err = np.sqrt(np.mean(best_residual**2.0))
+
         # The histogram is fixed, so pre-computed outside the loop
         if not brute_force:
             # weight the probability of choosing the sample by the inverse
-- 
2.43.0


From 24dc0de2608f64418c75f8e3c387139e6725fdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:03 +0000
Subject: [PATCH 19/43] fix: do not draw samples forever when none is
 acceptable

A rejected sample was redrawn without limit, so a fit never returned when
all of them are rejected. With sample_size not below the number of peaks,
max_tries was ignored.
---
 src/rascal/calibrator.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index e8d178c..14944ae 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -481,6 +481,9 @@ class Calibrator:
             idx = range(len(x))
             sampler = itertools.combinations(idx, self.sample_size)
 
+            if not brute_force:
+                sampler = itertools.islice(sampler, int(max_tries))
+
         else:
             sampler = range(int(max_tries))
 
@@ -544,10 +547,12 @@ class Calibrator:
 
         for sample in sampler_list:
             keep_trying = True
+            n_redraw = 0
             self.logger.debug(sample)
 
-            while keep_trying:
+            while keep_trying and n_redraw < 100:
                 stop_n_candidateow = False
+                n_redraw += 1
 
                 if brute_force:
                     x_hat = x[list(sample)]
-- 
2.43.0


From a9d11289ce051dbc44c4dd03353ce86a3d394380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:25 +0000
Subject: [PATCH 20/43] fix: make match_peaks match what it reports

It failed when no refit was requested and whenever a peak had more than one
line within the tolerance, matched the lines before the refinement, reported
the residuals of another polynomial, and modified the given coefficients.
---
 src/rascal/calibrator.py | 110 +++++++++++----------------------------
 1 file changed, 29 insertions(+), 81 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 14944ae..f057854 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -4,7 +4,7 @@ import logging
 
 import numpy as np
 from scipy.spatial import Delaunay
-from scipy.optimize import minimize
+from scipy.optimize import linear_sum_assignment, minimize
 from scipy import interpolate
 from tqdm.autonotebook import tqdm
 
@@ -1836,14 +1836,16 @@ class Calibrator:
         """
 
         if fit_coeff is None:
-            fit_coeff = self.fit_coeff.copy()
+            fit_coeff = self.fit_coeff
+
+        # Do not modify the input
+        fit_coeff = np.array(fit_coeff, dtype="float")
+        fit_coeff_new = fit_coeff.copy()
 
         if fit_deg is None:
             fit_deg = len(fit_coeff) - 1
 
         if refine:
-            fit_coeff_new = fit_coeff.copy()
-
             if n_delta is None:
                 n_delta = len(fit_coeff_new) - 1
 
@@ -1868,90 +1870,35 @@ class Calibrator:
                 return fit_coeff, None, None, None, None, None, None
 
         matched_peaks = []
-        matched_atlas = []
-        residuals = []
+        errors = []
 
-        atlas_lines = self.atlas.get_lines()
+        atlas_lines = np.asarray(self.atlas.get_lines())
 
         # Find all Atlas peaks within tolerance
         for p in self.peaks:
-            x = self.polyval(p, fit_coeff)
-            diff = atlas_lines - x
-            diff_abs = np.abs(diff) < tolerance
+            x = self.polyval(p, fit_coeff_new)
+            diff_abs = np.abs(atlas_lines - x)
 
-            if diff_abs.any():
+            if (diff_abs < tolerance).any():
                 matched_peaks.append(p)
-                matched_atlas.append(list(np.asarray(atlas_lines)[diff_abs]))
-                residuals.append(diff_abs)
-
-        # Create permutations:
-        candidates = [[]]
-
-        # match is a list
-        for match in matched_atlas:
-            if len(match) == 0:
-                continue
-
-            self.logger.info("matched: {}".format(match))
-
-            new_candidates = []
-            # i is an int
-            # candidates is a list of list
-
-            for i in range(len(candidates)):
-                # c is a list
-                c = candidates[i]
-
-                if len(match) == 1:
-                    c.extend(match)
-
-                else:
-                    # rep is a list of tuple
-                    rep = ~np.in1d(match, c)
-
-                    if rep.any():
-                        for j in np.argwhere(rep):
-                            new_c = c + [match[j]]
-                            new_candidates.append(new_c)
+                errors.append(diff_abs)
 
-                # Only add if new_candidates is not an empty list
-                if new_candidates != []:
-                    if candidates[0] == []:
-                        candidates[0] = new_candidates
+        assert len(matched_peaks) > 0, "No peak matches any atlas line."
 
-                    else:
-                        candidates.append(new_candidates)
-
-        if len(candidates) > 1:
-            self.logger.info(
-                "More than one match solution found, checking permutations."
-            )
+        # Assign a distinct line to each peak with the smallest total error.
+        # A line is only shared if there are not enough lines to choose from.
+        errors = np.array(errors)
+        n = len(errors)
+        cost = np.where(errors < tolerance, errors, np.inf)
+        spare = np.full((n, n), tolerance * (n + 1.0))
+        _, idx = linear_sum_assignment(np.hstack((cost, spare)))
+        idx = np.where(idx < len(atlas_lines), idx, np.argmin(errors, axis=1))
 
         self.matched_peaks = np.array(copy.deepcopy(matched_peaks))
-
-        # Check all candidates
-        best_err = 1e9
-        self.matched_atlas = None
-        self.residuals = None
-
-        for candidate in candidates:
-            matched_atlas = np.array(candidate)
-
-            fit_coeff = self.polyfit(matched_peaks, matched_atlas, fit_deg)
-
-            x = self.polyval(matched_peaks, fit_coeff)
-            residuals = np.abs(matched_atlas - x)
-            err = np.sum(residuals)
-
-            if err < best_err:
-                self.matched_atlas = matched_atlas
-                self.residuals = residuals
-
-                best_err = err
-
-        assert self.matched_atlas is not None
-        assert self.residuals is not None
-
+        self.matched_atlas = atlas_lines[idx]
+        self.residuals = self.matched_atlas - self.polyval(
+            self.matched_peaks, fit_coeff_new
+        )
         self.rms = np.sqrt(
             np.nansum(self.residuals**2.0) / len(self.residuals)
         )
@@ -1960,19 +1907,19 @@ class Calibrator:
         self.atlas_utilisation = len(self.matched_atlas) / len(self.atlas)
 
         if robust_refit:
-            self.fit_coeff = models.robust_polyfit(
+            fit_coeff_robust = models.robust_polyfit(
                 np.asarray(self.matched_peaks),
                 np.asarray(self.matched_atlas),
                 fit_deg,
             )
 
-            if np.any(np.isnan(self.fit_coeff)):
+            if np.any(np.isnan(fit_coeff_robust)):
                 self.logger.warning(
                     "robust_polyfit() returns None. "
                     "Input solution is returned."
                 )
                 return (
-                    fit_coeff,
+                    fit_coeff_new,
                     self.matched_peaks,
                     self.matched_atlas,
                     self.rms,
@@ -1982,6 +1929,7 @@ class Calibrator:
                 )
 
             else:
+                self.fit_coeff = fit_coeff_robust
                 self.residuals = self.matched_atlas - self.polyval(
                     self.matched_peaks, self.fit_coeff
                 )
-- 
2.43.0


From 1b6179bc037598379741a689da024c3da06bc89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:25 +0000
Subject: [PATCH 21/43] fix: insert a pixel-wavelength pair at its place

The pair was put in the second position, or failed if its pixel was smaller
than the others or the matches are a list.
---
 src/rascal/calibrator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index f057854..ab49692 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -1992,7 +1992,8 @@ class Calibrator:
 
         """
 
-        arg = np.argwhere(pix > self.matched_peaks)[0]
+        # Insert in front of the next larger pixel
+        arg = np.sum(np.asarray(self.matched_peaks) <= pix)
 
         # Only update the lists if both can be inserted
         matched_peaks = np.insert(self.matched_peaks, arg, pix)
-- 
2.43.0


From b39fd5bb295efd2ecb848ad06b05147c1fd1191c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:25 +0000
Subject: [PATCH 22/43] fix: replace the coefficients with the model

get_pixels used those of the first linear model, or failed without.
---
 src/rascal/synthetic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rascal/synthetic.py b/src/rascal/synthetic.py
index 64c159d..4d7442e 100644
--- a/src/rascal/synthetic.py
+++ b/src/rascal/synthetic.py
@@ -23,8 +23,7 @@ class SyntheticSpectrum:
         self.set_wavelength_limit(min_wavelength, max_wavelength)
 
         if coefficients is not None:
-            self.coefficients = coefficients
-            self.set_model(self.coefficients)
+            self.set_model(coefficients)
 
         else:
             self.model = None
@@ -36,6 +35,7 @@ class SyntheticSpectrum:
         """
 
         if isinstance(coefficients, (list, np.ndarray)):
+            self.coefficients = coefficients
             self.degree = len(coefficients) - 1
             self.model = models.polynomial(a=coefficients, degree=self.degree)
 
-- 
2.43.0


From 35e8357029b1fed1cddff948d5864b600d56d3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:25 +0000
Subject: [PATCH 23/43] fix: start the robust fit at the given coefficients

They were used in the reverse order, with the highest order not normalised,
and a list failed.
---
 src/rascal/models.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/rascal/models.py b/src/rascal/models.py
index 68aff03..20f64a6 100644
--- a/src/rascal/models.py
+++ b/src/rascal/models.py
@@ -1,4 +1,3 @@
-import copy
 import scipy.optimize
 import numpy as np
 
@@ -93,15 +92,19 @@ def robust_polyfit(x, y, degree=3, x0=None):
 
     """
 
+    x = np.asarray(x)
+    y = np.asarray(y)
     x_n, y_n = normalise_input(x, y)
 
-    p_init = copy.copy(x0)
     # Need to normalise the fit function too
-    if p_init is not None:
-        for i in range(0, degree):
+    if x0 is not None:
+        p_init = np.array(x0, dtype="float")
+
+        for i in range(0, degree + 1):
             p_init[i] *= x.std() ** i
 
-        p_init /= y.std()
+        # highest order first
+        p_init = p_init[::-1] / y.std()
     else:
         p_init = np.ones(degree + 1)
 
-- 
2.43.0


From 5c699a236c775d9f1726708098c1a9fceca8de2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:43 +0000
Subject: [PATCH 24/43] fix: look up the Hough density at the gradient and
 intercept

The two were swapped, so the density was always that at the same corner of
the Hough space. The cubic interpolation also gave negative densities, with
which a bad solution had the lowest (negative) cost.
---
 src/rascal/calibrator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index ab49692..a1b0ec0 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -507,10 +507,13 @@ class Calibrator:
             ybin_size = (self.ht.yedges[1] - self.ht.yedges[0]) / 2.0
 
             if np.isfinite(self.hough_weight):
+                # A higher order would overshoot to negative densities
                 twoditp = interpolate.RectBivariateSpline(
                     self.ht.xedges[1:] - xbin_size,
                     self.ht.yedges[1:] - ybin_size,
                     self.ht.hist,
+                    kx=1,
+                    ky=1,
                 )
 
         else:
@@ -646,8 +649,9 @@ class Calibrator:
 
                 # modified cost function weighted by the Hough space density
                 if (self.hough_weight is not None) & (twoditp is not None):
+                    # The axes are the gradient and then the intercept
                     weight = self.hough_weight * np.sum(
-                        twoditp(intercept, gradient, grid=False)
+                        twoditp(gradient, intercept, grid=False)
                     )
 
                 else:
-- 
2.43.0


From 76721b77a4f36b3c345ce9c0773affb75811794e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:28 +0000
Subject: [PATCH 25/43] fix: evaluate Legendre and Chebyshev fits in their own
 basis

The robust fit is in the power basis, but was evaluated as a Legendre or
Chebyshev series, which gave meaningless residuals, limits and plots.
---
 src/rascal/calibrator.py | 10 +++++-----
 src/rascal/models.py     | 26 ++++++++++++++++++++++++++
 2 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index a1b0ec0..6807ec0 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -1665,17 +1665,17 @@ class Calibrator:
         self.brute_force = brute_force
         self.progress = progress
 
+        # The solution is always in the power basis, as in the robust fits
+        self.polyval = np.polynomial.polynomial.polyval
+
         if self.fit_type == "poly":
             self.polyfit = np.polynomial.polynomial.polyfit
-            self.polyval = np.polynomial.polynomial.polyval
 
         elif self.fit_type == "legendre":
-            self.polyfit = np.polynomial.legendre.legfit
-            self.polyval = np.polynomial.legendre.legval
+            self.polyfit = models.legendre_polyfit
 
         elif self.fit_type == "chebyshev":
-            self.polyfit = np.polynomial.chebyshev.chebfit
-            self.polyval = np.polynomial.chebyshev.chebval
+            self.polyfit = models.chebyshev_polyfit
 
         else:
             raise ValueError(
diff --git a/src/rascal/models.py b/src/rascal/models.py
index 20f64a6..73e47ab 100644
--- a/src/rascal/models.py
+++ b/src/rascal/models.py
@@ -26,6 +26,32 @@ def polynomial(a, degree=3):
     return poly
 
 
+def legendre_polyfit(x, y, degree):
+    """
+    Fit a Legendre series and return it as polynomial coefficients, lowest
+    order first
+    """
+
+    p = np.polynomial.legendre.leg2poly(
+        np.polynomial.legendre.legfit(x, y, degree)
+    )
+
+    return np.pad(p, (0, degree + 1 - len(p)))
+
+
+def chebyshev_polyfit(x, y, degree):
+    """
+    Fit a Chebyshev series and return it as polynomial coefficients, lowest
+    order first
+    """
+
+    p = np.polynomial.chebyshev.cheb2poly(
+        np.polynomial.chebyshev.chebfit(x, y, degree)
+    )
+
+    return np.pad(p, (0, degree + 1 - len(p)))
+
+
 def poly_cost_function(a, x, y, degree):
     """
     Polynomial cost function. Returns the absolute
-- 
2.43.0


From f529c76ba2f9bd79559b2b6692c668871876708a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:32 +0000
Subject: [PATCH 26/43] fix: leave the spectrum unchanged when plotting it in
 log-space

The negative values of the spectrum of the user or of the Calibrator were
replaced.
---
 src/rascal/plotting.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rascal/plotting.py b/src/rascal/plotting.py
index 96695d0..dac3e0d 100644
--- a/src/rascal/plotting.py
+++ b/src/rascal/plotting.py
@@ -742,6 +742,8 @@ def plot_fit(
 
     if spectrum is not None:
         if log_spectrum:
+            # Do not modify the input
+            spectrum = np.array(spectrum, dtype="float")
             spectrum[spectrum < 0] = 1e-100
             spectrum = np.log10(spectrum)
             vline_max = np.nanmax(spectrum) * 2.0
-- 
2.43.0


From a5dfd7aabccf5f24d4e9841c2bcbaba27ca4250c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:32 +0000
Subject: [PATCH 27/43] fix: plot the residuals of the solution

The difference between each matched line and itself was plotted, which is
always zero.
---
 src/rascal/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rascal/plotting.py b/src/rascal/plotting.py
index dac3e0d..6382317 100644
--- a/src/rascal/plotting.py
+++ b/src/rascal/plotting.py
@@ -807,7 +807,7 @@ def plot_fit(
             calibrator.logger.info("Peak at: {} A".format(x))
 
             fitted_peaks.append(p)
-            fitted_diff.append(diff[idx])
+            fitted_diff.append(x - calibrator.polyval(p, fit_coeff))
             calibrator.logger.info(
                 "- matched to {} A".format(calibrator.atlas.get_lines()[idx])
             )
-- 
2.43.0


From b12d2a00ffd8881dfcaea261dccdb0e763e7446d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:33 +0000
Subject: [PATCH 28/43] fix: load a line list that holds a single line

---
 src/rascal/util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index 6113631..aa7208b 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -372,7 +372,9 @@ def load_calibration_lines(
             )
             lines = np.loadtxt(file_path, delimiter=",", dtype=">U12")
         elif os.path.exists(linelist):
-            lines = np.loadtxt(linelist, delimiter=",", dtype=">U12")
+            lines = np.loadtxt(
+                linelist, delimiter=",", dtype=">U12", ndmin=2
+            )
         else:
             raise ValueError(
                 f"Unknown string is provided as linelist: {linelist}."
-- 
2.43.0


From a45419fbb0e679db809ed1109bbc1e2fbdffc81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:12 +0000
Subject: [PATCH 29/43] fix: weight each peak by the density of its own bin

Peaks on a bin edge were looked up in the bin below, which can be empty and
turned all probabilities into NaN; the first peak was looked up in the last
bin.
---
 src/rascal/calibrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 6807ec0..70a80f7 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -545,7 +545,7 @@ class Calibrator:
             # weight the probability of choosing the sample by the inverse
             # line density
             h = np.histogram(peaks, bins=10)
-            prob = 1.0 / h[0][np.digitize(peaks, h[1], right=True) - 1]
+            prob = 1.0 / h[0][np.digitize(peaks, h[1][1:-1])]
             prob = prob / np.sum(prob)
 
         for sample in sampler_list:
-- 
2.43.0


From 30fcb5d37fce57c7243efd734a92b5d13b1f6f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:11 +0000
Subject: [PATCH 30/43] fix: keep the fraction of a pixel or wavelength added
 to integer pairs

---
 src/rascal/calibrator.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 70a80f7..49d0b65 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -2000,8 +2000,13 @@ class Calibrator:
         arg = np.sum(np.asarray(self.matched_peaks) <= pix)
 
         # Only update the lists if both can be inserted
-        matched_peaks = np.insert(self.matched_peaks, arg, pix)
-        matched_atlas = np.insert(self.matched_atlas, arg, wave)
+        # (in floating point, not to truncate the pair in a list of integers)
+        matched_peaks = np.insert(
+            np.asarray(self.matched_peaks, dtype="float"), arg, pix
+        )
+        matched_atlas = np.insert(
+            np.asarray(self.matched_atlas, dtype="float"), arg, wave
+        )
 
         self.matched_peaks = matched_peaks
         self.matched_atlas = matched_atlas
-- 
2.43.0


From c982708c63254ee87b9718864cf0b70924fe4102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:35 +0000
Subject: [PATCH 31/43] fix: match_peaks, manual_refit and plot_fit with a
 given solution before fit()

---
 src/rascal/calibrator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 49d0b65..6afb0d4 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -79,6 +79,9 @@ class Calibrator:
         self.matched_atlas = []
         self.fit_coeff = None
 
+        # Solutions can be matched, refitted and plotted without fit()
+        self.polyval = np.polynomial.polynomial.polyval
+
         self.set_calibrator_properties()
         self.set_hough_properties()
         self.set_ransac_properties()
@@ -1666,8 +1669,6 @@ class Calibrator:
         self.progress = progress
 
         # The solution is always in the power basis, as in the robust fits
-        self.polyval = np.polynomial.polynomial.polyval
-
         if self.fit_type == "poly":
             self.polyfit = np.polynomial.polynomial.polyfit
 
-- 
2.43.0


From 58ed27931f2f697d823f5ad72bac29b586e95c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:02 +0000
Subject: [PATCH 32/43] fix: select elements case insensitively, as documented

---
 src/rascal/util.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index aa7208b..9e46382 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -261,13 +261,13 @@ def filter_intensity(elements, lines, min_intensity=None):
         min_intensity_dict = {}
 
         for i, e in enumerate(elements):
-            min_intensity_dict[e] = 0.0
+            min_intensity_dict[e.lower()] = 0.0
 
     elif isinstance(min_intensity, (int, float)):
         min_intensity_dict = {}
 
         for i, e in enumerate(elements):
-            min_intensity_dict[e] = float(min_intensity)
+            min_intensity_dict[e.lower()] = float(min_intensity)
 
     elif isinstance(min_intensity, (list, np.ndarray)):
         assert len(min_intensity) == len(elements), (
@@ -279,7 +279,7 @@ def filter_intensity(elements, lines, min_intensity=None):
         min_intensity_dict = {}
 
         for i, e in enumerate(elements):
-            min_intensity_dict[e] = min_intensity[i]
+            min_intensity_dict[e.lower()] = min_intensity[i]
 
     else:
         raise ValueError(
@@ -291,7 +291,7 @@ def filter_intensity(elements, lines, min_intensity=None):
     out = []
 
     for line in lines:
-        element = line[0]
+        element = line[0].lower()
         intensity = float(line[2])
 
         if intensity >= min_intensity_dict[element]:
@@ -383,7 +383,8 @@ def load_calibration_lines(
         raise ValueError("Please provide a valid format of line list.")
 
     # Mask elements
-    mask = [(li[0] in elements) for li in lines]
+    names = [e.lower() for e in elements]
+    mask = [(li[0].lower() in names) for li in lines]
     lines = lines[mask]
 
     # update the wavelength limit
-- 
2.43.0


From 94f4b2d2a79b5f7ed6dae5c74ea443c4af4fa40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:42 +0000
Subject: [PATCH 33/43] fix: plot_fit after a manual fit to plain numbers

---
 src/rascal/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rascal/plotting.py b/src/rascal/plotting.py
index 6382317..a96ef9e 100644
--- a/src/rascal/plotting.py
+++ b/src/rascal/plotting.py
@@ -800,7 +800,7 @@ def plot_fit(
 
         first_one = True
         for p, x in zip(calibrator.matched_peaks, calibrator.matched_atlas):
-            diff = calibrator.atlas.get_lines() - x
+            diff = np.array(calibrator.atlas.get_lines()) - x
             idx = np.argmin(np.abs(diff))
             all_diff.append(diff[idx])
 
-- 
2.43.0


From 2cc97d40fcc7d79bbe8854da4c31f479f292cb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:03 +0000
Subject: [PATCH 34/43] fix: plot_arc with a spectrum given as a list, or
 without one

---
 src/rascal/plotting.py | 60 +++++++++++++++++++-----------------------
 1 file changed, 27 insertions(+), 33 deletions(-)

diff --git a/src/rascal/plotting.py b/src/rascal/plotting.py
index a96ef9e..8632076 100644
--- a/src/rascal/plotting.py
+++ b/src/rascal/plotting.py
@@ -1205,19 +1205,25 @@ def plot_arc(
 
     """
 
-    if pixel_list is None:
-        pixel_list = np.arange(len(calibrator.spectrum))
+    if calibrator.spectrum is None:
+        spectrum = None
+
+    else:
+        spectrum = np.asarray(calibrator.spectrum)
+
+        if pixel_list is None:
+            pixel_list = np.arange(len(spectrum))
 
     if calibrator.plot_with_matplotlib:
         _import_matplotlib()
 
         fig = plt.figure(figsize=(18, 5))
 
-        if calibrator.spectrum is not None:
+        if spectrum is not None:
             if log_spectrum:
                 plt.plot(
                     pixel_list,
-                    np.log10(calibrator.spectrum / calibrator.spectrum.max()),
+                    np.log10(spectrum / spectrum.max()),
                     label="Arc Spectrum",
                 )
                 plt.vlines(
@@ -1228,7 +1234,7 @@ def plot_arc(
             else:
                 plt.plot(
                     pixel_list,
-                    calibrator.spectrum / calibrator.spectrum.max(),
+                    spectrum / spectrum.max(),
                     label="Arc Spectrum",
                 )
                 plt.ylabel("Normalised Count")
@@ -1239,8 +1245,8 @@ def plot_arc(
                     label="Detected Peaks",
                     color="C1",
                 )
-            plt.title("Number of pixels: " + str(calibrator.spectrum.shape[0]))
-            plt.xlim(0, calibrator.spectrum.shape[0])
+            plt.title("Number of pixels: " + str(spectrum.shape[0]))
+            plt.xlim(0, spectrum.shape[0])
             plt.legend()
 
         else:
@@ -1273,39 +1279,27 @@ def plot_arc(
 
         fig = go.Figure()
 
-        if log_spectrum:
-            # Plot all-pairs
+        if spectrum is not None:
+            if log_spectrum:
+                y = np.log10(spectrum / spectrum.max())
+
+            else:
+                y = spectrum / spectrum.max()
+
             fig.add_trace(
                 go.Scatter(
                     x=list(pixel_list),
-                    y=list(
-                        np.log10(
-                            calibrator.spectrum / calibrator.spectrum.max()
-                        )
-                    ),
+                    y=list(y),
                     mode="lines",
                     name="Arc",
                 )
             )
-            xmin = min(
-                np.log10(calibrator.spectrum / calibrator.spectrum.max())
-            )
-            xmax = max(
-                np.log10(calibrator.spectrum / calibrator.spectrum.max())
-            )
+            x_range = [0.0, len(spectrum)]
+            y_range = [min(y), max(y)]
 
         else:
-            # Plot all-pairs
-            fig.add_trace(
-                go.Scatter(
-                    x=list(pixel_list),
-                    y=list(calibrator.spectrum / calibrator.spectrum.max()),
-                    mode="lines",
-                    name="Arc",
-                )
-            )
-            xmin = min(calibrator.spectrum / calibrator.spectrum.max())
-            xmax = max(calibrator.spectrum / calibrator.spectrum.max())
+            x_range = [0.0, max(calibrator.peaks)]
+            y_range = [0.0, 1.05]
 
         # Add vlines
         for i in calibrator.peaks:
@@ -1325,12 +1319,12 @@ def plot_arc(
         fig.update_layout(
             autosize=True,
             yaxis=dict(
-                title="Normalised Count", range=[xmin, xmax], showgrid=True
+                title="Normalised Count", range=y_range, showgrid=True
             ),
             xaxis=dict(
                 title="Pixel",
                 zeroline=False,
-                range=[0.0, len(calibrator.spectrum)],
+                range=x_range,
                 showgrid=True,
             ),
             hovermode="closest",
-- 
2.43.0


From 600f876eba62798ae4d98996cc95b84f1c1a5e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:03 +0000
Subject: [PATCH 35/43] fix: plotly's plot_fit took the logarithm of the
 spectrum twice

---
 src/rascal/plotting.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/rascal/plotting.py b/src/rascal/plotting.py
index 8632076..fef0f37 100644
--- a/src/rascal/plotting.py
+++ b/src/rascal/plotting.py
@@ -1072,13 +1072,9 @@ def plot_fit(
                 fig.update_layout(
                     yaxis3=dict(
                         title="Electron Count / e-",
-                        range=[
-                            np.log10(np.percentile(spectrum, 15)),
-                            np.log10(spec_max),
-                        ],
+                        range=[np.percentile(spectrum, 15), spec_max],
                         domain=[0.67, 1.0],
                         showgrid=True,
-                        type="log",
                     )
                 )
 
-- 
2.43.0


From 79c25768327fe8e35445f819957ec688a5db56bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:27 +0000
Subject: [PATCH 36/43] fix: plot_calibration_lines with lines closer than its
 sampling, or elements in other case

---
 src/rascal/plotting.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/rascal/plotting.py b/src/rascal/plotting.py
index fef0f37..3c48400 100644
--- a/src/rascal/plotting.py
+++ b/src/rascal/plotting.py
@@ -130,6 +130,9 @@ def plot_calibration_lines(
 
     _import_matplotlib()
 
+    if isinstance(elements, str):
+        elements = [elements]
+
     # the min_intensity and min_distance are set to 0.0 because the
     # simulated spectrum would contain them. These arguments only
     # affect the labelling.
@@ -161,11 +164,13 @@ def plot_calibration_lines(
     i = np.zeros_like(w)
 
     for e in elements:
-        i[
-            np.isin(
-                w, np.around(wavelength_list[element_list == e], decimals=3)
-            )
-        ] += intensity_list[element_list == e]
+        e_mask = np.char.lower(element_list) == e.lower()
+        # Lines can share a sampling point
+        idx = np.searchsorted(
+            w, np.around(wavelength_list[e_mask], decimals=3)
+        )
+        np.add.at(i, np.minimum(idx, len(w) - 1), intensity_list[e_mask])
+
     # Convolve to simulate the arc spectrum
     model_spectrum = signal.convolve(i, gaussian, mode="same")
 
@@ -189,7 +194,7 @@ def plot_calibration_lines(
     fig = plt.figure(**fig_kwarg)
 
     for j, e in enumerate(elements):
-        e_mask = element_list == e
+        e_mask = np.char.lower(element_list) == e.lower()
         markerline, stemline, _ = plt.stem(
             wavelength_list[e_mask],
             intensity_list[e_mask],
-- 
2.43.0


From 16eddbe34b9e9dc5ca3aa64f581670ac91d5c5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:23 +0000
Subject: [PATCH 37/43] fix: apply min_intensity given as a tuple or a numpy
 number

---
 src/rascal/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index 9e46382..bf82bf3 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -263,13 +263,13 @@ def filter_intensity(elements, lines, min_intensity=None):
         for i, e in enumerate(elements):
             min_intensity_dict[e.lower()] = 0.0
 
-    elif isinstance(min_intensity, (int, float)):
+    elif isinstance(min_intensity, (int, float, np.integer, np.floating)):
         min_intensity_dict = {}
 
         for i, e in enumerate(elements):
             min_intensity_dict[e.lower()] = float(min_intensity)
 
-    elif isinstance(min_intensity, (list, np.ndarray)):
+    elif isinstance(min_intensity, (list, tuple, np.ndarray)):
         assert len(min_intensity) == len(elements), (
             "min_intensity has to be in, float of list/array "
             "the same size as the elements. min_intensity is {}"
@@ -402,7 +402,7 @@ def load_calibration_lines(
     )
 
     # Filter intensities
-    if isinstance(min_intensity, (float, int, list, np.ndarray)):
+    if min_intensity is not None:
         intensity_mask = filter_intensity(elements, lines, min_intensity)
     else:
         intensity_mask = np.ones_like(lines[:, 0]).astype(bool)
-- 
2.43.0


From 9d0fb19033251513568867a6e2b469595aea2504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:18 +0000
Subject: [PATCH 38/43] fix: a hough_weight that is not finite left the density
 undefined

---
 src/rascal/calibrator.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 6afb0d4..b435358 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -505,6 +505,8 @@ class Calibrator:
         for p in np.unique(x):
             candidates[p] = y[x == p]
 
+        twoditp = None
+
         if self.ht.xedges is not None:
             xbin_size = (self.ht.xedges[1] - self.ht.xedges[0]) / 2.0
             ybin_size = (self.ht.yedges[1] - self.ht.yedges[0]) / 2.0
@@ -519,9 +521,6 @@ class Calibrator:
                     ky=1,
                 )
 
-        else:
-            twoditp = None
-
         # Calculate initial error given pre-existing fit
         if fit_coeff is not None:
             err, matched_x, matched_y = self._match_bijective(
-- 
2.43.0


From 5ad63fe6bce55f33bc3b6870df7b4edb4b0e9b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:42 +0000
Subject: [PATCH 39/43] fix: compare the guess given to fit() with the samples
 by the same cost

---
 src/rascal/calibrator.py | 56 +++++++++++++++++++++++++++++-----------
 1 file changed, 41 insertions(+), 15 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index b435358..68c7b9d 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -383,6 +383,37 @@ class Calibrator:
 
         return err, matched_x, matched_y
 
+    def _get_hough_weight(self, fit_coeff, density):
+        """
+        Get the weight of a polynomial, from the density of the Hough space
+        along it.
+
+        Parameters
+        ----------
+        fit_coeff: list
+            List of best fit polynomial coefficients
+        density: callable or None
+            The interpolated density of the Hough space
+
+        Returns
+        -------
+        weight: float
+            The weight of the polynomial
+
+        """
+
+        if self.hough_weight is None or density is None:
+            return 1.0
+
+        wave = self.polyval(self.pixel_list, fit_coeff)
+        gradient = self.polyval(self.pixel_list, _derivative(fit_coeff))
+        intercept = wave - gradient * self.pixel_list
+
+        # The axes are the gradient and then the intercept
+        return self.hough_weight * np.sum(
+            density(gradient, intercept, grid=False)
+        )
+
     def _solve_candidate_ransac(
         self,
         fit_deg,
@@ -526,9 +557,17 @@ class Calibrator:
             err, matched_x, matched_y = self._match_bijective(
                 candidates, peaks, fit_coeff
             )
-            best_cost = sum(err)
             best_err = np.sqrt(np.mean(err**2.0))
 
+            # The samples are compared with this cost, so it is calculated in
+            # the same way as theirs
+            dof = len(err) - len(fit_coeff) + 1
+
+            if dof > 0:
+                clipped_err = np.minimum(err, self.ransac_tolerance)
+                weight = self._get_hough_weight(fit_coeff, twoditp)
+                best_cost = sum(clipped_err) / dof / (weight + 1e-9)
+
             # This is the solution if no other fit outperforms it
             mask = err < self.ransac_tolerance
             best_p = np.array(fit_coeff, dtype="float")
@@ -643,22 +682,9 @@ class Calibrator:
                 err[err > self.ransac_tolerance] = self.ransac_tolerance
 
                 # use the Hough space density as weights for the cost function
-                wave = self.polyval(self.pixel_list, fit_coeffs)
-                gradient = self.polyval(
-                    self.pixel_list, _derivative(fit_coeffs)
-                )
-                intercept = wave - gradient * self.pixel_list
+                weight = self._get_hough_weight(fit_coeffs, twoditp)
 
                 # modified cost function weighted by the Hough space density
-                if (self.hough_weight is not None) & (twoditp is not None):
-                    # The axes are the gradient and then the intercept
-                    weight = self.hough_weight * np.sum(
-                        twoditp(gradient, intercept, grid=False)
-                    )
-
-                else:
-                    weight = 1.0
-
                 cost = (
                     sum(err)
                     / (len(err) - len(fit_coeffs) + 1)
-- 
2.43.0


From 7db336eb09df0ab326994e5172b722357589826b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:51 +0000
Subject: [PATCH 40/43] fix: fit() changed the sample_size and minimum_matches
 asked for

---
 src/rascal/calibrator.py | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 68c7b9d..823fca2 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -1708,6 +1708,10 @@ class Calibrator:
                 "fit_type must be: (1) poly, (2) legendre or (3) chebyshev"
             )
 
+        # The sizes below are only adjusted for this fit
+        sample_size = self.sample_size
+        minimum_matches = self.minimum_matches
+
         # Reduce sample_size if it is larger than the number of atlas available
         if self.sample_size > len(self.atlas):
             self.logger.warning(
@@ -1747,20 +1751,25 @@ class Calibrator:
         # TODO also check whether minimum peak utilisation is greater than
         # minimum matches.
 
-        (
-            fit_coeff,
-            rms,
-            residual,
-            n_inliers,
-            valid,
-        ) = self._solve_candidate_ransac(
-            fit_deg=self.fit_deg,
-            fit_coeff=self.fit_coeff,
-            max_tries=self.max_tries,
-            candidate_tolerance=candidate_tolerance,
-            brute_force=self.brute_force,
-            progress=self.progress,
-        )
+        try:
+            (
+                fit_coeff,
+                rms,
+                residual,
+                n_inliers,
+                valid,
+            ) = self._solve_candidate_ransac(
+                fit_deg=self.fit_deg,
+                fit_coeff=self.fit_coeff,
+                max_tries=self.max_tries,
+                candidate_tolerance=candidate_tolerance,
+                brute_force=self.brute_force,
+                progress=self.progress,
+            )
+
+        finally:
+            self.sample_size = sample_size
+            self.minimum_matches = minimum_matches
 
         peak_utilisation = n_inliers / len(self.peaks)
         atlas_utilisation = n_inliers / len(self.atlas)
-- 
2.43.0


From f1a5bc12742f8708cdfdebeb6cd1309b9f58564f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:34 +0000
Subject: [PATCH 41/43] fix: the fields of a line list were cut to 12
 characters

A wavelength written with an exponent (as by np.savetxt) lost it.
---
 src/rascal/util.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index bf82bf3..8f21e64 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -370,11 +370,9 @@ def load_calibration_lines(
             file_path = pkg_resources.resource_filename(
                 "rascal", "arc_lines/nist_clean.csv"
             )
-            lines = np.loadtxt(file_path, delimiter=",", dtype=">U12")
+            lines = np.loadtxt(file_path, delimiter=",", dtype=str)
         elif os.path.exists(linelist):
-            lines = np.loadtxt(
-                linelist, delimiter=",", dtype=">U12", ndmin=2
-            )
+            lines = np.loadtxt(linelist, delimiter=",", dtype=str, ndmin=2)
         else:
             raise ValueError(
                 f"Unknown string is provided as linelist: {linelist}."
-- 
2.43.0


From f3dce71352d907f2616d11946832cfa93cfab866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:34 +0000
Subject: [PATCH 42/43] fix: the next set_calibrator_properties() undid
 use_plotly()

---
 src/rascal/calibrator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 823fca2..b6de9cb 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -903,6 +903,7 @@ class Calibrator:
 
         """
 
+        self.plotting_library = "matplotlib"
         self.plot_with_matplotlib = True
         self.plot_with_plotly = False
 
@@ -912,6 +913,7 @@ class Calibrator:
 
         """
 
+        self.plotting_library = "plotly"
         self.plot_with_plotly = True
         self.plot_with_matplotlib = False
 
-- 
2.43.0


From eefcda81a862b30ede8d58951658b9d142ce8027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:34 +0000
Subject: [PATCH 43/43] fix: minimum_matches could not be set to its documented
 default, 0

---
 src/rascal/calibrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index b6de9cb..bb56077 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -1322,7 +1322,7 @@ class Calibrator:
 
         # Set the minimum number of desired matches
         if minimum_matches is not None:
-            assert minimum_matches > 0
+            assert minimum_matches >= 0
             self.minimum_matches = minimum_matches
 
         elif self.minimum_matches is None:
-- 
2.43.0

