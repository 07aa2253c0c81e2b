From adb1c8ec88eb5e05d040f81fa3f8dd175141668a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:21 +0000
Subject: [PATCH 01/60] fix: copies of a MicropolImage no longer share data,
 header and Stokes with the original

---
 micropolarray/micropol_image.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index 483d9aa..4e79f4e 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -121,16 +121,17 @@ class MicropolImage(Image):
         self.demosaiced_images = None
 
     def _import_image_parameters(self, image: MicropolImage):
-        self.data = image.data
-        self.header = image.header
+        self.data = image.data.copy()
+        self.header = image.header.copy()
         self.angle_dic = image.angle_dic
-        self.Stokes_vec = image.Stokes_vec
+        self.Stokes_vec = np.array(image.Stokes_vec)
         self._is_demodulated = image._is_demodulated
         self._is_demosaiced = image._is_demosaiced
         self._binning = image._binning
         self._dark_subtracted = image._dark_subtracted
         self._flat_subtracted = image._flat_subtracted
-        self.demosaiced_images = image.demosaiced_images
+        if image.demosaiced_images is not None:
+            self.demosaiced_images = np.array(image.demosaiced_images)
 
     # ----------------------------------------------------------------
     # -------------------- POLARIZATION PROPERTIES -------------------
@@ -1010,7 +1011,7 @@ class MicropolImage(Image):
             newdata = self.data + second
             newimage = MicropolImage(newdata, angle_dic=self.angle_dic)
 
-        newimage.header = self.header
+        newimage.header = self.header.copy()
         return newimage
 
         # CHANGED 2024/12/21: keep the header of the first image
@@ -1032,7 +1033,7 @@ class MicropolImage(Image):
             newdata = self.data - second
             newimage = MicropolImage(newdata, angle_dic=self.angle_dic)
 
-        newimage.header = self.header
+        newimage.header = self.header.copy()
         return newimage
 
         # CHANGED 2024/12/21: keep the header of the first image
@@ -1054,7 +1055,7 @@ class MicropolImage(Image):
             newdata = self.data * second
             newimage = MicropolImage(newdata, angle_dic=self.angle_dic)
 
-        newimage.header = self.header
+        newimage.header = self.header.copy()
         return newimage
 
         # CHANGED 2024/12/21: keep the header of the first image
@@ -1076,7 +1077,7 @@ class MicropolImage(Image):
             newdata = np.divide(self.data, second, where=second != 0.0)
             newimage = MicropolImage(newdata, angle_dic=self.angle_dic)
 
-        newimage.header = self.header
+        newimage.header = self.header.copy()
         return newimage
 
         # CHANGED 2024/12/21: keep the header of the first image
-- 
2.43.0


From 7301b5a966189f19402ffc590d1d0962bf221b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:21 +0000
Subject: [PATCH 02/60] fix: rotate() no longer rotates the Stokes vector of
 the original image in place

---
 micropolarray/micropol_image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index 4e79f4e..027cecf 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -902,7 +902,7 @@ class MicropolImage(Image):
             single_pols[i] = np.asarray(image, dtype=float)
         data = merge_polarizations(single_pols)
 
-        Stokes_vec = self.Stokes_vec
+        Stokes_vec = np.array(self.Stokes_vec)
         for i in range(3):
             image = PILImage.fromarray(Stokes_vec[i])
             image = image.rotate(angle)
-- 
2.43.0


From e2311e778464d7b1cef9f09312e041f8605abb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:21 +0000
Subject: [PATCH 03/60] fix: dividing an image by zero pixels gives 0 instead
 of uninitialised memory

---
 micropolarray/image.py          | 10 +++++++---
 micropolarray/micropol_image.py | 14 ++++++++++++--
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/micropolarray/image.py b/micropolarray/image.py
index 052f85a..66d1d7b 100644
--- a/micropolarray/image.py
+++ b/micropolarray/image.py
@@ -297,7 +297,11 @@ class Image:
 
     def __truediv__(self, second) -> Image:
         if type(self) is type(second):
-            newdata = np.divide(self.data, second.data, where=second.data != 0)
-        else:
-            newdata = np.divide(self.data, second, where=second != 0)
+            second = second.data
+        newdata = np.divide(
+            self.data,
+            second,
+            out=np.zeros_like(self.data, dtype=float),
+            where=second != 0,
+        )
         return Image(newdata)
diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index 027cecf..3ec4de5 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -1070,11 +1070,21 @@ class MicropolImage(Image):
 
     def __truediv__(self, second) -> MicropolImage:
         if type(self) is type(second):
-            newdata = np.divide(self.data, second.data, where=second.data != 0.0)
+            newdata = np.divide(
+                self.data,
+                second.data,
+                out=np.zeros_like(self.data, dtype=float),
+                where=second.data != 0.0,
+            )
             newimage = MicropolImage(self)
             newimage._update_data_and_Stokes(newdata)
         else:
-            newdata = np.divide(self.data, second, where=second != 0.0)
+            newdata = np.divide(
+                self.data,
+                second,
+                out=np.zeros_like(self.data, dtype=float),
+                where=second != 0.0,
+            )
             newimage = MicropolImage(newdata, angle_dic=self.angle_dic)
 
         newimage.header = self.header.copy()
-- 
2.43.0


From e5090cebc5e684c03d51f92d7010ec4db06d5453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:21 +0000
Subject: [PATCH 04/60] fix: flat correction keeps pixels with a zero flat
 instead of filling them with uninitialised memory

---
 micropolarray/micropol_image.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index 3ec4de5..522a9c1 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -408,6 +408,7 @@ class MicropolImage(Image):
         self.data = np.divide(
             self.data,
             normalized_flat,
+            out=np.array(self.data, dtype=float),
             where=normalized_flat != 0.0,
         )
 
-- 
2.43.0


From e40892b01b4f8799c0a1105b5aa14378b8c9645e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:54 +0000
Subject: [PATCH 05/60] fix: demosaiced planes and Stokes follow the data when
 a demosaiced image is processed further

---
 micropolarray/micropol_image.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index 522a9c1..1de802f 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -119,6 +119,7 @@ class MicropolImage(Image):
         self._flat_subtracted = False
         self._dark_subtracted = False
         self.demosaiced_images = None
+        self._demosaic_mode = "adjacent"
 
     def _import_image_parameters(self, image: MicropolImage):
         self.data = image.data.copy()
@@ -132,6 +133,7 @@ class MicropolImage(Image):
         self._flat_subtracted = image._flat_subtracted
         if image.demosaiced_images is not None:
             self.demosaiced_images = np.array(image.demosaiced_images)
+        self._demosaic_mode = image._demosaic_mode
 
     # ----------------------------------------------------------------
     # -------------------- POLARIZATION PROPERTIES -------------------
@@ -234,6 +236,10 @@ class MicropolImage(Image):
     def _update_data_and_Stokes(self, newdata: np.ndarray = None):
         if newdata is not None:
             self.data = newdata
+            if self._is_demosaiced:  # keep demosaiced planes in step with data
+                self.demosaiced_images = demosaic(
+                    self.data, option=self._demosaic_mode
+                )
         self.Stokes_vec = self._get_theo_Stokes_vec_components()
 
     def demodulate(
@@ -388,9 +394,9 @@ class MicropolImage(Image):
         Returns:
             MicropolImage: copy of input image with dark subtracted
         """
-        self.data = self.data - dark.data
-        self.data = np.where(self.data >= 0, self.data, 0)  # Fix data
-        self.Stokes_vec = self._get_theo_Stokes_vec_components()
+        newdata = self.data - dark.data
+        newdata = np.where(newdata >= 0, newdata, 0)  # Fix data
+        self._update_data_and_Stokes(newdata)
         self._dark_subtracted = True
         return self
 
@@ -405,7 +411,7 @@ class MicropolImage(Image):
         """
         normalized_flat = flat.data / np.mean(flat.data)
 
-        self.data = np.divide(
+        newdata = np.divide(
             self.data,
             normalized_flat,
             out=np.array(self.data, dtype=float),
@@ -414,7 +420,7 @@ class MicropolImage(Image):
 
         # self.data = np.where(self.data >= 0, self.data, 0)
         # self.data = np.where(self.data < 4096, self.data, 4096)
-        self.Stokes_vec = self._get_theo_Stokes_vec_components()
+        self._update_data_and_Stokes(newdata)
         self._flat_subtracted = True
         return self
 
@@ -818,6 +824,7 @@ class MicropolImage(Image):
 
         self.demosaiced_images = demosaic(self.data, option=demosaic_mode)
         self._is_demosaiced = True
+        self._demosaic_mode = demosaic_mode
         self.Stokes_vec = self._get_theo_Stokes_vec_components()
 
         return self
-- 
2.43.0


From 7b829f6692cf3f23642e48a29d2a2e913bfd9927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:55 +0000
Subject: [PATCH 06/60] fix: congrid() keeps the Stokes vector in step with the
 resized data

---
 micropolarray/micropol_image.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index 1de802f..f3d930c 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -893,11 +893,14 @@ class MicropolImage(Image):
             congridded_pol_images[subimage_i] = congrid(pol_subimage, new_subdims)
         newdata = merge_polarizations(congridded_pol_images)
         newimage = MicropolImage(self)
-        newimage.data = newdata
-        newimage.Stokes_vec = [
-            congrid(stokes_component, [newdim_y, newdim_x])
-            for stokes_component in self.Stokes_vec
-        ]
+        newimage._update_data_and_Stokes(newdata)
+        if self._is_demodulated:
+            newimage.Stokes_vec = np.array(
+                [
+                    congrid(stokes_component, newimage.Stokes_vec[0].shape)
+                    for stokes_component in self.Stokes_vec
+                ]
+            )
         return newimage
 
     def rotate(self, angle: float) -> MicropolImage:
-- 
2.43.0


From 581588d72ecbe12c58ebacf3f7518067b4fc6f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:55 +0000
Subject: [PATCH 07/60] fix: get_hot_pixels() called a method that does not
 exist

---
 micropolarray/processing/image_cleaning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/processing/image_cleaning.py b/micropolarray/processing/image_cleaning.py
index 0d64869..8989a1a 100644
--- a/micropolarray/processing/image_cleaning.py
+++ b/micropolarray/processing/image_cleaning.py
@@ -17,7 +17,7 @@ def get_hot_pixels(image, threshold=100):
     # diff = np.where(diff > threshold, 1, 0)
 
     newimage = MicropolImage(image)
-    newimage._set_data_and_Stokes(merge_polarizations(diff))
+    newimage._update_data_and_Stokes(merge_polarizations(diff))
 
     return newimage
 
-- 
2.43.0


From 82b17a588a44ec446b416d52bcabcb90df7e5618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:55 +0000
Subject: [PATCH 08/60] fix: np.float is gone from numpy, spline demosaicing
 and flat-corrected calibration crashed

---
 micropolarray/processing/demodulation.py | 2 +-
 micropolarray/processing/demosaic.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index d97a0ff..bbada28 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -371,7 +371,7 @@ def calculate_demodulation_tensor(
     # Collect flat field, normalize it
     if flat_filename:
         with fits.open(flat_filename) as file:
-            flat = np.array(file[0].data, dtype=np.float)
+            flat = np.array(file[0].data, dtype=float)
         if correct_ifov:
             flat = _ifov_jitcorrect(flat, *flat.shape)
         flat = micropolarray_rebin(flat, binning)
diff --git a/micropolarray/processing/demosaic.py b/micropolarray/processing/demosaic.py
index 841699e..2232981 100644
--- a/micropolarray/processing/demosaic.py
+++ b/micropolarray/processing/demosaic.py
@@ -144,7 +144,7 @@ def demosaic(image_data, option="adjacent"):
     elif option == "spline":
         single_pol_subimages = np.array(
             [image_data[j::2, i::2] for j in range(2) for i in range(2)],
-            dtype=np.float,
+            dtype=float,
         )
         demo_images = [
             congrid(
-- 
2.43.0


From 5e8d502cfd38fc9a0f4f617737fc8287e3ad32af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:55 +0000
Subject: [PATCH 09/60] fix: converted raw files keep their name when the path
 contains dots

---
 micropolarray/processing/convert.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/micropolarray/processing/convert.py b/micropolarray/processing/convert.py
index 351bc3a..2168b09 100644
--- a/micropolarray/processing/convert.py
+++ b/micropolarray/processing/convert.py
@@ -197,14 +197,14 @@ def convert_rawfile_to_fits(
     Raises:
         ValueError: raised if the file does not end with ".raw"
     """
-    if not ".raw" in filename:
+    if not filename.endswith(".raw"):
         raise ValueError("Can't convert: not a row file")
     with open(filename, mode="rb") as file:
         buffer = file.read()
     data = np.ndarray(shape=(height, width), dtype="<u2", buffer=buffer)
     HDU = fits.PrimaryHDU(data=data)
     filename = os.path.abspath(filename)  # prevents bug when "../" is in filename
-    new_filename = os.path.pathsep.join(filename.split(".")[:-1]) + ".fits"
+    new_filename = os.path.splitext(filename)[0] + ".fits"
     HDU.writeto(new_filename, overwrite=True)
     info(f'Image successfully saved to "{new_filename}".')
 
-- 
2.43.0


From 46c1d54e98d906340c521ef416e2c4b53d4aa372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:55 +0000
Subject: [PATCH 10/60] fix: 12-bit files with null bytes at the end of a chunk
 could not be decoded

---
 micropolarray/processing/convert.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/micropolarray/processing/convert.py b/micropolarray/processing/convert.py
index 2168b09..3c6e9a9 100644
--- a/micropolarray/processing/convert.py
+++ b/micropolarray/processing/convert.py
@@ -54,9 +54,10 @@ def nparr_from_binary(filename):
     if chunk_size % 1 or (chunk_size / 3) % 1:
         raise ValueError("Indivisible by chunks")
     chunk_size = int(chunk_size)
-    splitted = np.array(
-        [filecontent[i * chunk_size : (i + 1) * chunk_size] for i in range(chunks_n)]
-    )
+    # keep a plain list: a numpy array of bytes strips trailing null bytes
+    splitted = [
+        filecontent[i * chunk_size : (i + 1) * chunk_size] for i in range(chunks_n)
+    ]
     with mp.Pool(processes=chunks_n) as p:
         result = p.map(three_bytes_to_two_ints, splitted)
     newarr = np.array(result).reshape((1952, 1952))
-- 
2.43.0


From 89e2dd38083b57c811e880f58f150e4672d1fac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:55 +0000
Subject: [PATCH 11/60] fix: a zero bound in fixto is a bound

---
 micropolarray/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/utils.py b/micropolarray/utils.py
index f9bdf34..c835433 100644
--- a/micropolarray/utils.py
+++ b/micropolarray/utils.py
@@ -53,7 +53,7 @@ def sigma_DN(pix_DN):
 
 
 def fix_data(data: np.array, min, max):
-    if not (min and max):
+    if min is None or max is None:
         return data
     fixed_data = data.copy()
     fixed_data = np.where(fixed_data > min, fixed_data, min)
-- 
2.43.0


From c442389bfdb83dea00fff8ab1519049c68f7d7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:55 +0000
Subject: [PATCH 12/60] fix: roi_from_polar() crashed with the default radii

---
 micropolarray/processing/nrgf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/processing/nrgf.py b/micropolarray/processing/nrgf.py
index 5bdf4e9..ecf247d 100644
--- a/micropolarray/processing/nrgf.py
+++ b/micropolarray/processing/nrgf.py
@@ -35,7 +35,6 @@ def roi_from_polar(
     """
     height, width = data.shape
     theta_min, theta_max = theta
-    rho_min, rho_max = rho
     if center is None:
         center = [int(height / 2), int(width / 2)]
     else:
@@ -44,6 +43,7 @@ def roi_from_polar(
     if rho is None:
         rho_max = np.min([height - center[0], width - center[1]])
         rho = [0.0, rho_max]
+    rho_min, rho_max = rho
 
     if include_superpixels:
         # make a map that is HALF THE SIZE, do condition, then resize to make all the superpixel outside selection
-- 
2.43.0


From 89cae1a990101bf8bb54400f39a750ce2a012ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:55 +0000
Subject: [PATCH 13/60] fix: demosaicing an odd-sided image read outside the
 array

---
 micropolarray/processing/demosaic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/micropolarray/processing/demosaic.py b/micropolarray/processing/demosaic.py
index 2232981..671ed55 100644
--- a/micropolarray/processing/demosaic.py
+++ b/micropolarray/processing/demosaic.py
@@ -121,6 +121,8 @@ def demosaic(image_data, option="adjacent"):
     micropolarizer image array [n, m].
     """
     data = image_data
+    if (data.shape[0] % 2) or (data.shape[1] % 2):
+        raise ValueError("Odd number of pixels, can't demosaic.")
     temp_data = data.copy()
     demo_images = np.empty([4, data.shape[0], data.shape[1]], dtype="d")
 
-- 
2.43.0


From fcb6dbd007519c2f50f95e72a148075d6fb8b4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:55 +0000
Subject: [PATCH 14/60] fix: error on AoLP is finite also where Q is zero

---
 micropolarray/processing/demodulation_errors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/micropolarray/processing/demodulation_errors.py b/micropolarray/processing/demodulation_errors.py
index 6df8ef3..adc4199 100644
--- a/micropolarray/processing/demodulation_errors.py
+++ b/micropolarray/processing/demodulation_errors.py
@@ -78,8 +78,8 @@ def get_error_on_AoLP(S: np.ndarray, sigma_S: np.ndarray) -> np.ndarray:
     I, Q, U = S
     sigma_I, sigma_Q, sigma_U = sigma_S
 
-    aolp_var = (sigma_U * sigma_U + sigma_Q * sigma_Q * U * U / (Q * Q)) / (
-        4 * Q * Q * (1 + (U * U / (Q * Q))) * (1 + (U * U / (Q * Q)))
+    aolp_var = (Q * Q * sigma_U * sigma_U + U * U * sigma_Q * sigma_Q) / (
+        4 * (Q * Q + U * U) * (Q * Q + U * U)
     )
 
     return np.sqrt(aolp_var)
-- 
2.43.0


From dc931e088c115fb09922b1fefd1eac9b0ce895b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:55 +0000
Subject: [PATCH 15/60] fix: linear selections end at the requested pixel
 instead of one step beyond it

---
 micropolarray/processing/linear_roi.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/micropolarray/processing/linear_roi.py b/micropolarray/processing/linear_roi.py
index d1bd77a..598b50c 100644
--- a/micropolarray/processing/linear_roi.py
+++ b/micropolarray/processing/linear_roi.py
@@ -128,10 +128,10 @@ def DDA(start: list, end: list) -> np.ndarray:
     ys = [int(y)]
 
     i = 0
-    while i <= step:
-        x = x + dx
-        y = y + dy
+    while i < step:
         i = i + 1
+        x = x1 + i * (x2 - x1) / step
+        y = y1 + i * (y2 - y1) / step
         # if (int(y) != ys[-1]) and (int(x) != xs[-1]):
         ys.append(int(y))
         xs.append(int(x))
-- 
2.43.0


From d34668a9587a30b09222ef3e69252258b8192f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:55 +0000
Subject: [PATCH 16/60] fix: demodulation with demosaicing works for tensors
 without a flag file

---
 micropolarray/micropol_image.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index f3d930c..c566cdd 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -327,9 +327,10 @@ class MicropolImage(Image):
                     mij[i, j, :, :] = merge_polarizations(
                         np.repeat(demo_component[np.newaxis, :, :], 4, axis=0)
                     )  # repeat necessary to avoid numba problems
-            fit_found_flags = merge_polarizations(
-                np.array(4 * [demodulator.fit_found_flags.astype(float)])
-            )  # idk why but fit_found_flags is >f8 as default
+            if fit_found_flags is not None:
+                fit_found_flags = merge_polarizations(
+                    np.array(4 * [demodulator.fit_found_flags.astype(float)])
+                )  # idk why but fit_found_flags is >f8 as default
         else:
             mij = demodulator.mij
             splitted_pols = self.single_pol_subimages
-- 
2.43.0


From 93b6fc1598113d3bcf4c31f7d2b670b30469bd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:55 +0000
Subject: [PATCH 17/60] fix: rotating or flipping a demodulator moves the fit
 flags with the matrices

---
 micropolarray/processing/demodulation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index bbada28..88b5608 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -259,11 +259,15 @@ class Demodulator:
         for i in range(self.n_malus_params):
             for j in range(self.n_pixels_in_superpix):
                 self.mij[i, j] = np.rot90(self.mij[i, j], k=k)
+        if self.fit_found_flags is not None:
+            self.fit_found_flags = np.rot90(self.fit_found_flags, k=k)
 
     def flip(self, axis):
         for i in range(self.n_malus_params):
             for j in range(self.n_pixels_in_superpix):
                 self.mij[i, j] = np.flip(self.mij[i, j], axis=axis)
+        if self.fit_found_flags is not None:
+            self.fit_found_flags = np.flip(self.fit_found_flags, axis=axis)
 
 
 def calculate_demodulation_tensor(
-- 
2.43.0


From 325b02d84440efff05b92f9109f11cde6a3663eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:55 +0000
Subject: [PATCH 18/60] fix: refuse processor grids that leave part of the
 frame uncalibrated

---
 micropolarray/processing/demodulation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index 88b5608..146a24e 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -500,6 +500,10 @@ def calculate_demodulation_tensor(
     chunks_n_y, chunks_n_x = procs_grid
     chunk_size_y = int(height / chunks_n_y)
     chunk_size_x = int(width / chunks_n_x)
+    if (height % chunks_n_y) or (width % chunks_n_x):
+        raise ValueError(
+            f"cant decompose {height}x{width} into a {procs_grid[0]}x{procs_grid[1]} grid without leaving pixels out. Try changing the number of processors."
+        )
     if (chunk_size_x % 2) or (chunk_size_y % 2):
         raise ValueError(
             f"cant decompose into a {procs_grid[0]}x{procs_grid[1]} grid (odd side grid {chunk_size_y}x{chunk_size_x}). Try changing the number of processors."
-- 
2.43.0


From 92cf1e663dfcf24cb734ee6d692b01dfacebcd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:55 +0000
Subject: [PATCH 19/60] fix: show_demo_images() crashed with explicit colour
 limits

---
 micropolarray/micropol_image.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index c566cdd..e7ecdd9 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -571,6 +571,7 @@ class MicropolImage(Image):
         ax = ax.ravel()
         demo_images_list = self.demosaiced_images
         for i, single_demo_ax in enumerate(ax):
+            this_vmin, this_vmax = vmin, vmax
             if vmin is None:
                 this_vmin = mean_minus_std(demo_images_list[i])
             if vmax is None:
-- 
2.43.0


From 2bdc80a0ad54220d84236e95dec9db2b8f3d7416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:55 +0000
Subject: [PATCH 20/60] fix: files with a date but no time of observation can
 be read

---
 micropolarray/image.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/micropolarray/image.py b/micropolarray/image.py
index 66d1d7b..c1a83a9 100644
--- a/micropolarray/image.py
+++ b/micropolarray/image.py
@@ -75,12 +75,13 @@ class Image:
                         "%Y-%m-%dT%H:%M:%S",
                     )
                 except ValueError:  # antarticor format
-                    datetimes[idx] = datetime.datetime.strptime(
-                        hul[0].header["DATE-OBS"]
-                        + "-"
-                        + hul[0].header["TIME-OBS"].split(".")[0],
-                        "%Y-%m-%d-%H:%M:%S",
-                    )
+                    if "TIME-OBS" in hul[0].header:
+                        datetimes[idx] = datetime.datetime.strptime(
+                            hul[0].header["DATE-OBS"]
+                            + "-"
+                            + hul[0].header["TIME-OBS"].split(".")[0],
+                            "%Y-%m-%d-%H:%M:%S",
+                        )
                 except KeyError:
                     pass
 
-- 
2.43.0


From 77b476eeecb505c9ffe27d2ec43da76ecba58818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:55 +0000
Subject: [PATCH 21/60] fix: normalize2pi() no longer changes the list it is
 given

---
 micropolarray/polarization_functions.py | 1 +
 micropolarray/utils.py                  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/micropolarray/polarization_functions.py b/micropolarray/polarization_functions.py
index 7bfcab4..9ba76dc 100644
--- a/micropolarray/polarization_functions.py
+++ b/micropolarray/polarization_functions.py
@@ -78,6 +78,7 @@ def normalize2pi(angles_list):
         angles_list = [
             angles_list,
         ]
+    angles_list = list(angles_list)  # do not modify the input list
     for i, angle in enumerate(angles_list):
         while angle > 90:
             angle -= 180
diff --git a/micropolarray/utils.py b/micropolarray/utils.py
index c835433..03b7b70 100644
--- a/micropolarray/utils.py
+++ b/micropolarray/utils.py
@@ -130,6 +130,7 @@ def normalize2pi(angles_list):
         angles_list = [
             angles_list,
         ]
+    angles_list = list(angles_list)  # do not modify the input list
     for i, angle in enumerate(angles_list):
         while angle > 90:
             angle -= 180
-- 
2.43.0


From 178c27276f42470063aa653f34e54ae140984879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:55 +0000
Subject: [PATCH 22/60] fix: Chen-Wan-Liang calibration runs without flat, with
 the occulter and on integer files

---
 .../processing/chen_wan_liang_calibration.py        | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/micropolarray/processing/chen_wan_liang_calibration.py b/micropolarray/processing/chen_wan_liang_calibration.py
index b601251..58f65d2 100644
--- a/micropolarray/processing/chen_wan_liang_calibration.py
+++ b/micropolarray/processing/chen_wan_liang_calibration.py
@@ -66,7 +66,7 @@ def calculate_chen_wan_lian_calibration(
         # Mean values from coronal observations 2022_12_03
         # (campagna_2022/mean_occulter_pos.py)
 
-        occulter_y, occulter_x, occulter_r = PolarCam().occulter_pos_nov2022
+        occulter_y, occulter_x, occulter_r = PolarCam().occulter_pos_last
         occulter_r += 10  # Better to overoccult
 
         occulter_flag = roi_from_polar(
@@ -87,24 +87,25 @@ def calculate_chen_wan_lian_calibration(
     # Collect dark
     if dark_filename:
         with fits.open(dark_filename) as file:
-            dark = file[0].data
+            dark = np.array(file[0].data, dtype=float)
     # Collect flat field, normalize it
     if flat_filename:
         with fits.open(flat_filename) as file:
-            flat = file[0].data
+            flat = np.array(file[0].data, dtype=float)
     if flat_filename and dark_filename:
         flat -= dark  # correct flat too
         flat = np.where(flat > 0, flat, 1.0)
         if occulter:
             flat = np.where(occulter_flag, 1.0, flat)
 
-    flat_max = np.max(flat, axis=(0, 1))
-    normalized_flat = np.where(occulter_flag, 1.0, flat / flat_max)
+    if flat_filename:
+        flat_max = np.max(flat, axis=(0, 1))
+        normalized_flat = np.where(occulter_flag, 1.0, flat / flat_max)
 
     all_data_arr = [0.0] * filenames_n
     for idx, filename in enumerate(filenames_list):
         with fits.open(filename) as file:
-            all_data_arr[idx] = file[0].data
+            all_data_arr[idx] = np.array(file[0].data, dtype=float)
             if dark_filename is not None:
                 all_data_arr[idx] -= dark
                 all_data_arr[idx] = np.where(
-- 
2.43.0


From 8106e9e362d6f86405b63f24052ea2e0b222b25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:55 +0000
Subject: [PATCH 23/60] fix: Chen-Wan-Liang correction of integer images is not
 truncated

---
 micropolarray/processing/chen_wan_liang_calibration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/micropolarray/processing/chen_wan_liang_calibration.py b/micropolarray/processing/chen_wan_liang_calibration.py
index 58f65d2..1d613db 100644
--- a/micropolarray/processing/chen_wan_liang_calibration.py
+++ b/micropolarray/processing/chen_wan_liang_calibration.py
@@ -272,8 +272,8 @@ def chen_wan_liang_calibration(data, calibration_matrices_dir: str):
     height, width = data.shape
     C_ij = np.zeros(shape=(4, 4, height, width))
     d_ij = np.zeros_like(data)
-    corrected_data = np.zeros_like(data)
-    ifov_corrected_data = np.zeros_like(data)
+    corrected_data = np.zeros_like(data, dtype=float)
+    ifov_corrected_data = np.zeros_like(data, dtype=float)
     correction_path = Path(calibration_matrices_dir)
     if not correction_path.is_absolute():  # suppose it is in cwd
         correction_path = correction_path.joinpath(
-- 
2.43.0


From b62e8c02355f6c74c050092313742daf42696f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:55 +0000
Subject: [PATCH 24/60] fix: rebinning odd-sided arrays never ended

---
 micropolarray/processing/rebin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/micropolarray/processing/rebin.py b/micropolarray/processing/rebin.py
index 3367153..35dc11f 100644
--- a/micropolarray/processing/rebin.py
+++ b/micropolarray/processing/rebin.py
@@ -129,10 +129,10 @@ def trim_to_match_2xbinning(height: int, width: int, binning: int):
     new_width = width
     new_height = height
     while new_width % (2 * binning):
-        new_width -= 2
+        new_width -= 1
         trimmed = True
     while new_height % (2 * binning):
-        new_height -= 2
+        new_height -= 1
         trimmed = True
     if trimmed:
         print_trimming_info(height, width, new_height, new_width)
-- 
2.43.0


From 615c77306cbbd3339ef590b06a431f4073c80046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:55 +0000
Subject: [PATCH 25/60] fix: a failing calibration worker is an error, not a
 successful exit

---
 micropolarray/processing/demodulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index 146a24e..7e339ef 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -627,7 +627,7 @@ def calculate_demodulation_tensor(
             ending_time = time.perf_counter()
 
             info(f"Elapsed : {(ending_time - starting_time)/60:3.2f} mins")
-            sys.exit()
+            raise
 
     else:
         arglist = [arg for arg in args]
-- 
2.43.0


From 1fab89b41a918d1aed21d20ce03b223e5f9faa0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:55 +0000
Subject: [PATCH 26/60] fix: a tensor folder with a missing matrix is refused
 even if another file makes up the number

---
 micropolarray/processing/demodulation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index 7e339ef..2304c0e 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -170,22 +170,22 @@ class Demodulator:
         )
         fit_found_flags = None
 
-        matches = 0
+        found_elements = set()
         for filename in filenames_list:
             pattern_query = re.search("[0-9]{2}", filename.split(os.path.sep)[-1])
             if pattern_query is not None:  # Exclude files not matching m/Mij
-                matches += 1
                 i, j = pattern_query.group()[
                     -2:
                 ]  # Searches for pattern ij as last string before .fits
                 i, j = int(i), int(j)
                 with fits.open(filename) as hul:
                     Mij[i, j] = hul[0].data
+                found_elements.add((i, j))
             if Path(filename).stem == "fit_found_flag":
                 with fits.open(filename) as hul:
                     fit_found_flags = hul[0].data
 
-        if matches != 12:
+        if len(found_elements) != 12:
             raise ValueError(
                 "Missing matrices in the selected folder. Check correct folder name and files pattern '*ij*.fits'."
             )
-- 
2.43.0


From be0a02b7188f282b0d0f2995abb30f271da35e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:55 +0000
Subject: [PATCH 27/60] fix: masking a demosaiced image masks the same pixels
 in data and Stokes

---
 micropolarray/micropol_image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index e7ecdd9..f146d10 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -970,7 +970,7 @@ class MicropolImage(Image):
                 self.Stokes_vec[i],
                 (y, x),
                 [r, 2 * np.max(self.Stokes_vec[i].shape)],
-                include_superpixels=False,
+                include_superpixels=self._is_demosaiced,
                 fill=fill,
             )
 
-- 
2.43.0


From b8cb15d908b2500a4840914c4dcd5eea4367ea40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:59 +0000
Subject: [PATCH 28/60] fix: resizing to a single superpixel gave not-a-number

---
 micropolarray/processing/congrid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/micropolarray/processing/congrid.py b/micropolarray/processing/congrid.py
index eca416e..b6aa8a4 100644
--- a/micropolarray/processing/congrid.py
+++ b/micropolarray/processing/congrid.py
@@ -51,7 +51,8 @@ def congrid(a, newdims, kind="linear") -> np.ndarray:
     # Linear method, default
     for i in range(ndims):
         base = np.arange(newdims[i])
-        dimlist.append((old[i] - m1) / (newdims[i] - m1) * base)
+        # a single output point (0/0 otherwise) is the first input one
+        dimlist.append((old[i] - m1) / max(newdims[i] - m1, 1) * base)
 
     olddims = [np.arange(i, dtype=float) for i in list(a.shape)]
     mint = scipy.interpolate.interp1d(
-- 
2.43.0


From f0417967106929e76cd06ca544c1f71c1cb10d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:59 +0000
Subject: [PATCH 29/60] fix: demosaiced images are only saved under .fits
 names, as every other image

---
 micropolarray/micropol_image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index f146d10..4943f38 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -789,7 +789,7 @@ class MicropolImage(Image):
             raise ValueError("Demosaiced images not yet calculated.")
         imageHdr = self.header.copy()
         filepath = Path(filename)
-        if not filepath.suffix:
+        if filepath.suffix != ".fits":
             raise ValueError("filename must be a valid file name, not folder.")
         filepath = Path(_make_abs_and_create_dir(filename))
         group_filename = str(filepath.joinpath(filepath.parent, filepath.stem))
-- 
2.43.0


From 6f6980d3e97c6aa284ef47c08ed2c87c7082ecb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:19 +0000
Subject: [PATCH 30/60] fix: rotating a demosaiced image rotates its demosaiced
 planes too

---
 micropolarray/micropol_image.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index 4943f38..57fe130 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -923,6 +923,13 @@ class MicropolImage(Image):
         newimage = MicropolImage(self)
         newimage.data = data
         newimage.Stokes_vec = Stokes_vec
+        if newimage._is_demosaiced:
+            newimage.demosaiced_images = np.array(
+                [
+                    np.asarray(PILImage.fromarray(plane).rotate(angle), dtype=float)
+                    for plane in newimage.demosaiced_images
+                ]
+            )
 
         return newimage
 
-- 
2.43.0


From 4c9850346da307d5bdb5974eb400dd2f61fe4156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:49 +0000
Subject: [PATCH 31/60] fix: dark subtraction from unsigned integer images
 wrapped around below zero

---
 micropolarray/micropol_image.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index 57fe130..c3bc1ab 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -395,7 +395,8 @@ class MicropolImage(Image):
         Returns:
             MicropolImage: copy of input image with dark subtracted
         """
-        newdata = self.data - dark.data
+        # float, as the difference of unsigned integers wraps instead of being negative
+        newdata = self.data - np.array(dark.data, dtype=float)
         newdata = np.where(newdata >= 0, newdata, 0)  # Fix data
         self._update_data_and_Stokes(newdata)
         self._dark_subtracted = True
-- 
2.43.0


From 0800c3c308391ca366e5454e24ceaac36ae07355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:10 +0000
Subject: [PATCH 32/60] fix: interpolating a single superpixel row or column
 gave not-a-number

---
 micropolarray/processing/congrid.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/micropolarray/processing/congrid.py b/micropolarray/processing/congrid.py
index b6aa8a4..4f1722c 100644
--- a/micropolarray/processing/congrid.py
+++ b/micropolarray/processing/congrid.py
@@ -54,6 +54,10 @@ def congrid(a, newdims, kind="linear") -> np.ndarray:
         # a single output point (0/0 otherwise) is the first input one
         dimlist.append((old[i] - m1) / max(newdims[i] - m1, 1) * base)
 
+    for i in range(ndims):
+        if a.shape[i] == 1:  # can not interpolate between less than two points
+            a = np.repeat(a, 2, axis=i)
+
     olddims = [np.arange(i, dtype=float) for i in list(a.shape)]
     mint = scipy.interpolate.interp1d(
         olddims[-1], a, kind=kind, fill_value="extrapolate"
-- 
2.43.0


From 7e59862df566ab4506c48f86f630247226f7bf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:27 +0000
Subject: [PATCH 33/60] fix: files of broadcastable but different shapes are
 not merged

---
 micropolarray/image.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/micropolarray/image.py b/micropolarray/image.py
index c1a83a9..2f25aa1 100644
--- a/micropolarray/image.py
+++ b/micropolarray/image.py
@@ -63,6 +63,10 @@ class Image:
                         else:
                             info(f"Summing {filenames_len} images...")
                         print_info_message = False
+                    if hul[0].data.shape != combined_data.shape:
+                        raise ValueError(
+                            f"{filename} has shape {hul[0].data.shape}, expected {combined_data.shape}"
+                        )
                     combined_data = combined_data + (
                         hul[0].data / (1 + int(averageimages) * (filenames_len - 1))
                     )  # divide by 1 if summing, either n if averaging
-- 
2.43.0


From 276860911bfd2dc56903f85750ded66cf492bc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:54 +0000
Subject: [PATCH 34/60] fix: the raw file is not removed when the converted
 file was cut short by a full disk

---
 micropolarray/processing/convert.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/micropolarray/processing/convert.py b/micropolarray/processing/convert.py
index 3c6e9a9..fd2c0d0 100644
--- a/micropolarray/processing/convert.py
+++ b/micropolarray/processing/convert.py
@@ -207,6 +207,10 @@ def convert_rawfile_to_fits(
     filename = os.path.abspath(filename)  # prevents bug when "../" is in filename
     new_filename = os.path.splitext(filename)[0] + ".fits"
     HDU.writeto(new_filename, overwrite=True)
+    # an incomplete write (e.g. full disk) does not always raise
+    with fits.open(new_filename, memmap=False) as hul:
+        if not np.array_equal(hul[0].data, data):
+            raise OSError(f"{new_filename} was not completely written")
     info(f'Image successfully saved to "{new_filename}".')
 
     if remove_old:
-- 
2.43.0


From bf3841a1f886e5c80ad1c8b3bc583274302877d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:28 +0000
Subject: [PATCH 35/60] fix: the superpixel at the occulter center was fitted
 instead of excluded

---
 micropolarray/processing/demodulation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index 2304c0e..22e5112 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -357,7 +357,9 @@ def calculate_demodulation_tensor(
         occulter_y, occulter_x, occulter_r = binned_occulter
 
         occulter_flag = roi_from_polar(
-            occulter_flag, [occulter_y, occulter_x], [0, occulter_r]
+            occulter_flag,
+            [occulter_y, occulter_x],
+            [-2, occulter_r],  # the center itself is occulted too
         )
         for super_y in range(0, occulter_flag.shape[0], 2):
             for super_x in range(0, occulter_flag.shape[1], 2):
-- 
2.43.0


From af2e7215dd3fcd637f08db6c8b56820559c1446e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:03 +0000
Subject: [PATCH 36/60] fix: a one-superpixel-wide tensor of another size was
 broadcast over the image

---
 micropolarray/micropol_image.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index c3bc1ab..70540a2 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -369,6 +369,11 @@ class MicropolImage(Image):
         U = T_ij[2, 0] + T_ij[2, 1] + T_ij[2, 2] + T_ij[2, 3]
         """
 
+        if mij.shape[2:] != splitted_pols[0].shape:
+            raise ValueError(
+                f"demodulation matrix {mij.shape[2:]} and images {splitted_pols[0].shape} have different shapes. Check that binning is correct."
+            )
+
         I, Q, U = np.matmul(
             mij,
             np.expand_dims(splitted_pols, axis=0),
-- 
2.43.0


From 98424be197c38f77c7ca7a49e6d06eb7b1355c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:03 +0000
Subject: [PATCH 37/60] fix: rotating a demodulator that is not square failed

---
 micropolarray/processing/demodulation.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index 22e5112..d632b5d 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -256,9 +256,7 @@ class Demodulator:
 
     def rot90(self, k=1):
         # NB: rotation could switch micropol positions inside superpixel, but for demo matrix all px in superpix are equal
-        for i in range(self.n_malus_params):
-            for j in range(self.n_pixels_in_superpix):
-                self.mij[i, j] = np.rot90(self.mij[i, j], k=k)
+        self.mij = np.rot90(self.mij, k=k, axes=(2, 3)).copy()
         if self.fit_found_flags is not None:
             self.fit_found_flags = np.rot90(self.fit_found_flags, k=k)
 
-- 
2.43.0


From 94030f924335f64438b637b291dd02fafec3752b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:03 +0000
Subject: [PATCH 38/60] fix: a killed calibration worker is an error instead of
 an endless wait

---
 micropolarray/processing/demodulation.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index d632b5d..0351365 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -1,10 +1,10 @@
 import glob
-import multiprocessing as mp
 import os
 import re
 import sys
 import time
 import traceback
+from concurrent.futures import ProcessPoolExecutor
 from logging import error, info, warning
 from pathlib import Path
 
@@ -616,11 +616,9 @@ def calculate_demodulation_tensor(
 
     if procs_grid != [1, 1]:
         try:
-            with mp.Pool(processes=chunks_n_y * chunks_n_x) as p:
-                result = p.starmap(
-                    compute_demodulation_by_chunk,
-                    args,
-                )
+            # unlike mp.Pool, raises if a worker is killed instead of waiting forever
+            with ProcessPoolExecutor(max_workers=chunks_n_y * chunks_n_x) as p:
+                result = list(p.map(compute_demodulation_by_chunk, *zip(*args)))
 
         except Exception as e:
             traceback.print_exc()
-- 
2.43.0


From 8b3f3ec6807308da5293ca8bf39d7c72d297c7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:38 +0000
Subject: [PATCH 39/60] fix: Hough occulter finder failed on 16-bit unsigned
 images

---
 micropolarray/processing/nrgf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/processing/nrgf.py b/micropolarray/processing/nrgf.py
index ecf247d..fc37ca1 100644
--- a/micropolarray/processing/nrgf.py
+++ b/micropolarray/processing/nrgf.py
@@ -190,7 +190,7 @@ def find_occulter_hough(
         maxr = np.max(data.shape)
     minDist = np.max(data.shape)  # minimum distance between circles
 
-    data = 255 * data / np.max(data)
+    data = 255.0 * data / np.max(data)  # float, 255 * uint16 wraps
     blurred = cv2.medianBlur(data.astype("uint8"), 5)
     accumulator = 10
     circles = cv2.HoughCircles(
-- 
2.43.0


From 0422360fc4433f285f1a3d343fa2da5f0bfd5b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:08 +0000
Subject: [PATCH 40/60] fix: field-of-view correction of an odd-sided array
 wrote outside it

---
 micropolarray/processing/chen_wan_liang_calibration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/micropolarray/processing/chen_wan_liang_calibration.py b/micropolarray/processing/chen_wan_liang_calibration.py
index 1d613db..4117330 100644
--- a/micropolarray/processing/chen_wan_liang_calibration.py
+++ b/micropolarray/processing/chen_wan_liang_calibration.py
@@ -310,8 +310,8 @@ def chen_wan_liang_calibration(data, calibration_matrices_dir: str):
 def _ifov_jitcorrect(data, height, width):
     corrected_data = np.zeros(shape=(height, width))
     # correct IFOV error, skip first rows/cols
-    for super_y in range(2, height, 2):
-        for super_x in range(2, width, 2):
+    for super_y in range(2, height - 1, 2):
+        for super_x in range(2, width - 1, 2):
             for i in range(2):
                 for j in range(2):
                     corrected_data[super_y + j, super_x + i] = 0.25 * (
-- 
2.43.0


From fc2d2f004ef17189d42d2a698e7a9ac97eefe463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:43 +0000
Subject: [PATCH 41/60] fix: Chen-Wan-Liang calibration could not write to
 nested folders or folders with dots in their name

---
 micropolarray/processing/chen_wan_liang_calibration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/micropolarray/processing/chen_wan_liang_calibration.py b/micropolarray/processing/chen_wan_liang_calibration.py
index 4117330..7585f72 100644
--- a/micropolarray/processing/chen_wan_liang_calibration.py
+++ b/micropolarray/processing/chen_wan_liang_calibration.py
@@ -9,7 +9,6 @@ from tqdm import tqdm
 
 from micropolarray.cameras import PolarCam
 from micropolarray.processing.nrgf import roi_from_polar
-from micropolarray.utils import _make_abs_and_create_dir
 
 
 def calculate_chen_wan_lian_calibration(
@@ -211,7 +210,8 @@ def calculate_chen_wan_lian_calibration(
     C_ij = np.mean(C_ij, axis=0)
     d_ij = np.mean(d_ij, axis=0)
 
-    output_dir = _make_abs_and_create_dir(output_dir)
+    output_dir = str(Path(output_dir).absolute())
+    Path(output_dir).mkdir(parents=True, exist_ok=True)
     for i in range(4):
         for j in range(4):
             hdu = fits.PrimaryHDU(data=C_ij[i, j])
-- 
2.43.0


From 752a12aa4363ddf70c438c8d2e0dac07be9bb77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:40 +0000
Subject: [PATCH 42/60] fix: Demodulator.show returned its last axes instead of
 the grid

---
 micropolarray/processing/demodulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index 0351365..88ef52d 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -219,8 +219,8 @@ class Demodulator:
                     self.mij[i, j], cmap=cmap, vmin=vmin, vmax=vmax
                 )
                 ax[i, j].set_title(rf"M$_{i}$$_{j}$")
-        for ax in fig.get_axes():
-            ax.label_outer()
+        for single_ax in fig.get_axes():
+            single_ax.label_outer()
 
         fig.subplots_adjust(right=0.8)
         cbar_ax = fig.add_axes([0.85, 0.15, 0.05, 0.7])
-- 
2.43.0


From 3ada068739b7bdff53e6a39bb24732ba82e26186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:12 +0000
Subject: [PATCH 43/60] fix: Otsu threshold was useless for data spanning less
 than a few units

---
 micropolarray/processing/image_cleaning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/processing/image_cleaning.py b/micropolarray/processing/image_cleaning.py
index 8989a1a..e97cf85 100644
--- a/micropolarray/processing/image_cleaning.py
+++ b/micropolarray/processing/image_cleaning.py
@@ -92,6 +92,6 @@ def auto_threshold(data: np.ndarray) -> float:
     print(np.max(data))
     print("a")
     return min(
-        np.linspace(np.min(data) + 1, np.max(data), np.min((data.size, 1000))),
+        np.linspace(np.min(data), np.max(data), np.min((data.size, 1000)) + 1)[1:],
         key=lambda th: otsu_intraclass_variance(data, th),
     )
-- 
2.43.0


From f123547d7c91ad1ad4d999d31dc773cd18199029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:08 +0000
Subject: [PATCH 44/60] fix: demodulate falls back to the theoretical Stokes
 parameters of the current pixels

---
 micropolarray/micropol_image.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index 70540a2..c281371 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -270,17 +270,18 @@ class MicropolImage(Image):
         info("Image correctly demodulated")
         return demodulated_image
 
-    def _get_theo_Stokes_vec_components(self) -> np.array:
+    def _get_theo_Stokes_vec_components(self, subimages=None) -> np.array:
         """
         Computes stokes vector components from four polarized images at four angles, angle_dic describes the coupling between
-        poled_images_array[i] <--> angle_dic[i]
+        poled_images_array[i] <--> angle_dic[i]. Images default to the demosaiced ones for a demosaiced image, to the pixel families otherwise.
         Return:
             stokes vector, shape=(3, poled_images.shape[1], poled_images.shape[0])
         """
-        if self._is_demosaiced:
-            subimages = self.demosaiced_images
-        else:
-            subimages = self.single_pol_subimages
+        if subimages is None:
+            if self._is_demosaiced:
+                subimages = self.demosaiced_images
+            else:
+                subimages = self.single_pol_subimages
         I = 0.5 * np.sum(subimages, axis=0)
         Q = subimages[self.angle_dic[0]] - subimages[self.angle_dic[90]]
         U = subimages[self.angle_dic[45]] - subimages[self.angle_dic[-45]]
@@ -386,7 +387,7 @@ class MicropolImage(Image):
 
         # use theo stokes where fit wasn't found
         if demodulator.fit_found_flags is not None:
-            theo_S = self.Stokes_vec
+            theo_S = self._get_theo_Stokes_vec_components(splitted_pols)
             S = np.where(fit_found_flags == 1.0, S, theo_S)
 
         return S
-- 
2.43.0


From b219a8f05a68edd34ed7f38a6a7bae8b2dfa70cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:05 +0000
Subject: [PATCH 45/60] fix: images made from big-endian arrays, as read from
 FITS files, failed in shift and in the field-of-view correction

---
 micropolarray/image.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/micropolarray/image.py b/micropolarray/image.py
index 2f25aa1..da13471 100644
--- a/micropolarray/image.py
+++ b/micropolarray/image.py
@@ -33,7 +33,8 @@ class Image:
             self._init_image_from_image(initializer)
 
     def _init_image_from_data(self, input_data: np.array) -> None:
-        self.data = np.array(input_data)
+        # native byte order (fits data is big-endian), needed by numba
+        self.data = np.array(input_data, dtype=input_data.dtype.newbyteorder("="))
         self.filename = "image.fits"
 
     def _init_image_from_file(self, filenames, averageimages) -> None:
-- 
2.43.0


From 120ff6578c038a59319136737b7ee0ac3f7a8b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:31 +0000
Subject: [PATCH 46/60] fix: raw files holding more pixels than the given shape
 lost them silently (and were removed when asked)

---
 micropolarray/processing/convert.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/micropolarray/processing/convert.py b/micropolarray/processing/convert.py
index fd2c0d0..5b0efac 100644
--- a/micropolarray/processing/convert.py
+++ b/micropolarray/processing/convert.py
@@ -169,6 +169,8 @@ def merge_rawfiles_to_fits(
     for filename in tqdm.tqdm(filenames):
         with open(filename, mode="rb") as file:
             buffer = file.read()
+        if len(buffer) != 2 * height * width:
+            raise ValueError(f"{filename} is not a {height}x{width} 16-bit raw file")
         data = np.ndarray(shape=(height, width), dtype="<u2", buffer=buffer)
         arr += data
 
@@ -202,6 +204,8 @@ def convert_rawfile_to_fits(
         raise ValueError("Can't convert: not a row file")
     with open(filename, mode="rb") as file:
         buffer = file.read()
+    if len(buffer) != 2 * height * width:  # pixels would be lost
+        raise ValueError(f"{filename} is not a {height}x{width} 16-bit raw file")
     data = np.ndarray(shape=(height, width), dtype="<u2", buffer=buffer)
     HDU = fits.PrimaryHDU(data=data)
     filename = os.path.abspath(filename)  # prevents bug when "../" is in filename
-- 
2.43.0


From 6c2c0b82b10ed772756008336e513377665a8b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:12 +0000
Subject: [PATCH 47/60] fix: rotating keeps the full precision of the pixels

---
 micropolarray/micropol_image.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index c281371..c4b7fdf 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -66,6 +66,14 @@ def set_default_angles(angles_dic: dict):
     DEFAULT_ANGLES_DIC = angles_dic
 
 
+def _rotate_plane(plane: np.ndarray, angle: float) -> np.ndarray:
+    """Rotates an array counter-clockwise by angle degrees, filling with 0."""
+    # PIL images are single precision: rotate the pixel positions (from 1), not the values
+    positions = np.arange(1, plane.size + 1, dtype="int32").reshape(plane.shape)
+    positions = np.asarray(PILImage.fromarray(positions).rotate(angle))
+    return np.where(positions > 0, plane.ravel()[positions - 1], 0.0)
+
+
 class MicropolImage(Image):
     """Micro-polarizer array image class. Can be initialized from a 2d array, a list of 1 or more file names (use the boolean keyword averageimages to select if sum or average is taken) or another MicropolImage. Dark and flat micropolarray images can also be provided to automatically correct the result."""
 
@@ -917,25 +925,18 @@ class MicropolImage(Image):
 
         single_pols = self.single_pol_subimages
         for i in range(4):
-            image = PILImage.fromarray(single_pols[i])
-            image = image.rotate(angle)
-            single_pols[i] = np.asarray(image, dtype=float)
+            single_pols[i] = _rotate_plane(single_pols[i], angle)
         data = merge_polarizations(single_pols)
 
         Stokes_vec = np.array(self.Stokes_vec)
         for i in range(3):
-            image = PILImage.fromarray(Stokes_vec[i])
-            image = image.rotate(angle)
-            Stokes_vec[i] = np.asarray(image, dtype=float)
+            Stokes_vec[i] = _rotate_plane(Stokes_vec[i], angle)
         newimage = MicropolImage(self)
         newimage.data = data
         newimage.Stokes_vec = Stokes_vec
         if newimage._is_demosaiced:
             newimage.demosaiced_images = np.array(
-                [
-                    np.asarray(PILImage.fromarray(plane).rotate(angle), dtype=float)
-                    for plane in newimage.demosaiced_images
-                ]
+                [_rotate_plane(plane, angle) for plane in newimage.demosaiced_images]
             )
 
         return newimage
-- 
2.43.0


From 65b052ceb2f36892d81923b4c5ffa281414c2404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:08 +0000
Subject: [PATCH 48/60] fix: read the tensor from its own folder when the name
 has pattern characters

---
 micropolarray/processing/demodulation.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index 88ef52d..82dea87 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -43,7 +43,9 @@ class Demodulator:
     @property
     def Cij(self) -> np.ndarray:
         covariance_tensor_fnames = glob.glob(
-            os.path.join(self.demo_matrices_path, "covariance_tensor", "*")
+            os.path.join(
+                glob.escape(self.demo_matrices_path), "covariance_tensor", "*"
+            )
         )
 
         if not covariance_tensor_fnames:
@@ -149,7 +151,9 @@ class Demodulator:
             raise FileNotFoundError("self.demo_matrices_path not found.")
 
         # look for first matrix file and get dimensions
-        filenames_list = glob.glob(self.demo_matrices_path + os.path.sep + "*.fits")
+        filenames_list = glob.glob(
+            glob.escape(self.demo_matrices_path) + os.path.sep + "*.fits"
+        )
         if not filenames_list:
             raise FileNotFoundError("No fits files in selected folder.")
 
-- 
2.43.0


From 7f9d1844dde0a9e038f478bf8da0e45bad0f6f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:40 +0000
Subject: [PATCH 49/60] fix: repeated orientations count once in the estimated
 normalization

---
 micropolarray/processing/demodulation.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index 82dea87..c5cf8e2 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -428,9 +428,13 @@ def calculate_demodulation_tensor(
         for chosen_norm in available_norms:
             if np.all(np.isin(chosen_norm, polarizer_orientations)):
                 norm_S_angle_list = chosen_norm
-        for pol, image in zip(polarizer_orientations, all_data_arr):
-            if pol in norm_S_angle_list:
-                S_max += 0.5 * image
+        for norm_pol in norm_S_angle_list:  # repeated orientations count once
+            same_pol_arr = [
+                image
+                for pol, image in zip(polarizer_orientations, all_data_arr)
+                if pol == norm_pol
+            ]
+            S_max += 0.5 * np.mean(same_pol_arr, axis=0)
         # Normalizing S, has a spike of which maximum is taken
         bins = 1000
         histo = np.histogram(S_max, bins=bins)
-- 
2.43.0


From 45f1306c9540bb84293117ae4bcf70f445ad1113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:11 +0000
Subject: [PATCH 50/60] fix: a series of normalizations is paired with the
 files it came with

---
 micropolarray/processing/demodulation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index c5cf8e2..9e5b304 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -329,6 +329,10 @@ def calculate_demodulation_tensor(
             f"Each one among (0, 45, 90, -45 / 135) polarizations must be included in the polarizer orientation array. Provided {polarizer_orientations}"
         )  # for calculating normalizing_S
 
+    if type(normalizing_S) is np.ndarray and len(normalizing_S.shape) == 3:
+        # series of images, one per file: sort it along with its files
+        pairs = zip(polarizer_orientations, filenames_list, range(len(normalizing_S)))
+        normalizing_S = normalizing_S[[index for _, _, index in sorted(pairs)]]
     polarizer_orientations, filenames_list = (
         list(t) for t in zip(*sorted(zip(polarizer_orientations, filenames_list)))
     )
-- 
2.43.0


From b84eaf4600f781886fd19806ae558aea758a55bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:17 +0000
Subject: [PATCH 51/60] fix: a dictionary given with an image to copy is used

---
 micropolarray/micropol_image.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index c4b7fdf..0ca4bf4 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -88,6 +88,7 @@ class MicropolImage(Image):
         averageimages: bool = True,
     ):
         self._initialize_internal_variables()
+        given_angle_dic = angle_dic
         if angle_dic is None:
             global DEFAULT_ANGLES_DIC
             if DEFAULT_ANGLES_DIC is None:
@@ -110,6 +111,10 @@ class MicropolImage(Image):
 
         if type(initializer) is MicropolImage:
             self._import_image_parameters(initializer)
+            if given_angle_dic is not None:
+                self.angle_dic = given_angle_dic
+                if not self._is_demodulated:  # the tensor knows its own orientations
+                    self.Stokes_vec = self._get_theo_Stokes_vec_components()
         else:
             self.Stokes_vec = self._get_theo_Stokes_vec_components()
 
-- 
2.43.0


From 53ae4ce6ceb5b11ba627e6f04bc94e402cc5c87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:42 +0000
Subject: [PATCH 52/60] fix: Stokes masked at its own size, also when a
 demosaiced image was demodulated by superpixel

---
 micropolarray/micropol_image.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index 0ca4bf4..15c153a 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -981,7 +981,9 @@ class MicropolImage(Image):
                 for data in self.demosaiced_images
             ]
 
-        if not self._is_demosaiced:
+        # a demosaiced image demodulated by superpixel has a Stokes vector of half size
+        full_size = self.Stokes_vec[0].shape == self.data.shape
+        if not full_size:
             y = int(y / 2)
             x = int(x / 2)
             r = int(r / 2)
@@ -990,7 +992,7 @@ class MicropolImage(Image):
                 self.Stokes_vec[i],
                 (y, x),
                 [r, 2 * np.max(self.Stokes_vec[i].shape)],
-                include_superpixels=self._is_demosaiced,
+                include_superpixels=full_size,
                 fill=fill,
             )
 
-- 
2.43.0


From 12419aac8d987c1c53ed4800355a9e3232705fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:42 +0000
Subject: [PATCH 53/60] fix: camera occulter mask reaches the image nearest
 border, whichever side it is on

---
 micropolarray/cameras.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/cameras.py b/micropolarray/cameras.py
index e80656d..e5e8838 100644
--- a/micropolarray/cameras.py
+++ b/micropolarray/cameras.py
@@ -40,7 +40,7 @@ class Camera:
         y, x, r = self.occulter_pos_last
         r = r + overoccult
         if rmax is None:
-            rmax = np.min([y, x])
+            rmax = np.min([y, x, self.h_image - y, self.w_image - x])
         occulter_mask = np.where(
             roi_from_polar(
                 np.ones(shape=(self.h_image, self.w_image)), [y, x], [r, rmax]
-- 
2.43.0


From 7d38be387c285ef662632e2a66e972694f1d1ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:42 +0000
Subject: [PATCH 54/60] fix: polar lines reach the first row and column and
 their border pixel

---
 micropolarray/processing/linear_roi.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/micropolarray/processing/linear_roi.py b/micropolarray/processing/linear_roi.py
index 598b50c..aee1e11 100644
--- a/micropolarray/processing/linear_roi.py
+++ b/micropolarray/processing/linear_roi.py
@@ -50,10 +50,10 @@ def linear_roi_from_polar(
     while (
         # (y2 < data.shape[0] - 1)
         (y2 < data.shape[0])
-        and (y2 > 1)
+        and (y2 > -1)
         # and (x2 < data.shape[1] - 1)
         and (x2 < data.shape[1])
-        and (x2 > 1)
+        and (x2 > -1)
         and (np.sqrt((x2 - center[1]) ** 2 + (y2 - center[0]) ** 2) < r[1] - 1)
     ):
         y2 = y2 - np.sin(theta_rad)
@@ -66,8 +66,8 @@ def linear_roi_from_polar(
         or (ys[-1] < 0)
         or (xs[-1] < 0)
     ):
-        ys = ys[:-2]
-        xs = xs[:-2]
+        ys = ys[:-1]
+        xs = xs[:-1]
 
     result = np.array([data[y, x] for y, x in zip(ys, xs)])
 
-- 
2.43.0


From 827e8ae577cbb750f610c9d3368ccf9385f53a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:42 +0000
Subject: [PATCH 55/60] fix: polar line with the minimum radius outside of the
 image is refused instead of wrapping around

---
 micropolarray/processing/linear_roi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/micropolarray/processing/linear_roi.py b/micropolarray/processing/linear_roi.py
index aee1e11..1553080 100644
--- a/micropolarray/processing/linear_roi.py
+++ b/micropolarray/processing/linear_roi.py
@@ -45,6 +45,8 @@ def linear_roi_from_polar(
     while np.sqrt((center[1] - x1) ** 2 + (center[0] - y1) ** 2) < r[0]:
         y1 = y1 - np.sin(theta_rad)
         x1 = x1 + np.cos(theta_rad)
+    if not (-1 < y1 < data.shape[0] and -1 < x1 < data.shape[1]):
+        raise ValueError(f"Minimum radius {r[0]} is outside of the image.")
 
     # keep running along theta from center until end of image is reached to get end of line
     while (
-- 
2.43.0


From be030cb25deb58717c45719c3599eeeacb829f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:38 +0000
Subject: [PATCH 56/60] fix: an image whose Stokes vector is recomputed from
 its pixels is no longer a demodulated one

---
 micropolarray/micropol_image.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index 15c153a..aedc7a5 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -254,6 +254,7 @@ class MicropolImage(Image):
                     self.data, option=self._demosaic_mode
                 )
         self.Stokes_vec = self._get_theo_Stokes_vec_components()
+        self._is_demodulated = False
 
     def demodulate(
         self,
@@ -848,6 +849,7 @@ class MicropolImage(Image):
         self._is_demosaiced = True
         self._demosaic_mode = demosaic_mode
         self.Stokes_vec = self._get_theo_Stokes_vec_components()
+        self._is_demodulated = False
 
         return self
 
@@ -923,6 +925,7 @@ class MicropolImage(Image):
                     for stokes_component in self.Stokes_vec
                 ]
             )
+            newimage._is_demodulated = True
         return newimage
 
     def rotate(self, angle: float) -> MicropolImage:
-- 
2.43.0


From ea3603048fa6dde13d3518c6b2c2547b15e1c46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:16 +0000
Subject: [PATCH 57/60] fix: nrgf filters the outermost ring too

---
 micropolarray/processing/nrgf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/processing/nrgf.py b/micropolarray/processing/nrgf.py
index fc37ca1..21974dd 100644
--- a/micropolarray/processing/nrgf.py
+++ b/micropolarray/processing/nrgf.py
@@ -151,7 +151,7 @@ def nrgf(
         phi_coords >= output_phi[0], phi_coords < output_phi[1]
     )  # Exclude angle from filter
 
-    rho_max = int(np.max(rho_coords))
+    rho_max = int(np.ceil(np.max(rho_coords)))
     rho_step = step
 
     print("Applying nrgf filter...")
-- 
2.43.0


From be810617d1fd7a3486e1f196dd6baf34fae52fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:49 +0000
Subject: [PATCH 58/60] fix: the circle finder accepts radius limits that are
 not integers

---
 micropolarray/processing/nrgf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/micropolarray/processing/nrgf.py b/micropolarray/processing/nrgf.py
index 21974dd..4350ce1 100644
--- a/micropolarray/processing/nrgf.py
+++ b/micropolarray/processing/nrgf.py
@@ -188,6 +188,7 @@ def find_occulter_hough(
     info("Searching occulter, this may take a while...")
     if maxr is None:
         maxr = np.max(data.shape)
+    minr, maxr = int(minr), int(np.ceil(maxr))  # cv2 takes integers only
     minDist = np.max(data.shape)  # minimum distance between circles
 
     data = 255.0 * data / np.max(data)  # float, 255 * uint16 wraps
-- 
2.43.0


From 061a06b31295a1b5777280cdc69a42dede73d5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:12 +0000
Subject: [PATCH 59/60] fix: names refused for their extension leave no folder
 behind

---
 micropolarray/micropol_image.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index aedc7a5..60f2427 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -690,9 +690,9 @@ class MicropolImage(Image):
             ValueError: an invalid file name is provided
         """
         polslist = [self.pol0, self.pol45, self.pol90, self.pol_45]
-        filepath = Path(_make_abs_and_create_dir(filename))
-        if filepath.suffix != ".fits":
+        if Path(filename).suffix != ".fits":
             raise ValueError("filename must be a valid file name, not folder.")
+        filepath = Path(_make_abs_and_create_dir(filename))
         group_filepath = filepath.joinpath(filepath.parent, filepath.stem)
         for single_pol in polslist:
             hdr = self.header.copy()
@@ -732,9 +732,9 @@ class MicropolImage(Image):
             ValueError: filename is not a valid .fits file
         """
         polparam = getattr(self, polparam)
-        filepath = Path(_make_abs_and_create_dir(filename))
-        if filepath.suffix != ".fits":
+        if Path(filename).suffix != ".fits":
             raise ValueError("filename must be a valid file name, not folder.")
+        filepath = Path(_make_abs_and_create_dir(filename))
         hdr = self.header.copy()
         hdr["PARAM"] = (str(polparam.title), "Polarization parameter")
         hdr["UNITS"] = (str(polparam.measure_unit), "Measure units")
-- 
2.43.0


From 5705a5c3b1fb7e779b65a56e035084835ce4ee07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:12 +0000
Subject: [PATCH 60/60] fix: saving does not fail when another process creates
 the folder meanwhile

---
 micropolarray/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/micropolarray/utils.py b/micropolarray/utils.py
index 03b7b70..6c07e35 100644
--- a/micropolarray/utils.py
+++ b/micropolarray/utils.py
@@ -39,10 +39,10 @@ def _make_abs_and_create_dir(filename: str):
 
     if path.suffix:
         if not path.parent.exists():
-            path.parent.mkdir(parents=True)
+            path.parent.mkdir(parents=True, exist_ok=True)
     else:
         if not path.exists():
-            path.mkdir()
+            path.mkdir(exist_ok=True)
     return str(path)
 
 
-- 
2.43.0

