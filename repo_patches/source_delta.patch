From 81022afc0726799bb29dcafcb723cb3eb766b3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:28 +0000
Subject: [PATCH 01/22] fix: use the 32.5 m database altitude when
 interpolating atmospheres

The database has records at 0.0325 km; the interpolation table said 32.55 m,
so every altitude strictly between 2 m and 75 m raised IndexError.
---
 src/pybsm/simulation/scenario.py | 2 +-
 src/pybsm/utils.py               | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pybsm/simulation/scenario.py b/src/pybsm/simulation/scenario.py
index b5c7617..f431802 100644
--- a/src/pybsm/simulation/scenario.py
+++ b/src/pybsm/simulation/scenario.py
@@ -35,7 +35,7 @@ class Scenario:
         with 5 km visibility)
     :parameter altitude:
         sensor height above ground level in meters; the database includes the
-        following altitude options: 2 32.55 75 150 225 500 meters, 1000 to
+        following altitude options: 2 32.5 75 150 225 500 meters, 1000 to
         12000 in 1000 meter steps, and 14000 to 20000 in 2000 meter steps,
         24500
     :parameter ground_range:
diff --git a/src/pybsm/utils.py b/src/pybsm/utils.py
index 3dfca4f..3169096 100644
--- a/src/pybsm/utils.py
+++ b/src/pybsm/utils.py
@@ -44,7 +44,7 @@ def load_database_atmosphere_no_interp(
 
     :param altitude:
         sensor height above ground level in meters.  The database includes the
-        following altitude options: 2 32.55 75 150 225 500 meters, 1000 to
+        following altitude options: 2 32.5 75 150 225 500 meters, 1000 to
         12000 in 1000 meter steps, and 14000 to 20000 in 2000 meter steps,
         24500 meters
     :param ground_range:
@@ -197,7 +197,7 @@ def load_database_atmosphere(
     altitude_array = np.array(
         [
             2,
-            32.55,
+            32.5,
             75,
             150,
             225,
-- 
2.43.0


From 2064133dd1cfb4b4295f9fd69891c009a5605eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:28 +0000
Subject: [PATCH 02/22] fix: nadir_angle returned nan when looking straight
 down

Rounding pushed the arccos argument past 1 for about half of all altitudes.
---
 src/pybsm/geospatial.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pybsm/geospatial.py b/src/pybsm/geospatial.py
index 82399cb..bc141b1 100755
--- a/src/pybsm/geospatial.py
+++ b/src/pybsm/geospatial.py
@@ -126,7 +126,9 @@ def nadir_angle(h_target: float, h_sensor: float, slant_range: float) -> float:
     a = r_earth + h_sensor
     b = slant_range
     c = r_earth + h_target
-    nadir = np.arccos(-1.0 * (c**2.0 - a**2.0 - b**2.0) / (2.0 * a * b))
+    cos_nadir = -1.0 * (c**2.0 - a**2.0 - b**2.0) / (2.0 * a * b)
+    # for a vertical path, rounding can push the cosine just beyond +/-1
+    nadir = np.arccos(np.clip(cos_nadir, -1.0, 1.0))
 
     return nadir
 
-- 
2.43.0


From b3d68f47ea4e46ee1292030b8dc7410080a1cc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:01 +0000
Subject: [PATCH 03/22] fix: remove jump in the obscured aperture OTF at the
 edge of the obscuration region

When rounding put a frequency on both sides of rho = (1-eta)*r0/2, neither or
both of the two region terms were applied and the OTF was off by up to 18.
---
 src/pybsm/otf/functional.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pybsm/otf/functional.py b/src/pybsm/otf/functional.py
index 0c0486d..56459fb 100755
--- a/src/pybsm/otf/functional.py
+++ b/src/pybsm/otf/functional.py
@@ -158,10 +158,12 @@ def circular_aperture_OTF(  # noqa: N802
     b = np.nan_to_num(b)  # noqa: N806
 
     # region where (rho < ((1.0-eta)*r0/2.0)):
-    c_1 = -2.0 * eta**2.0 * (rho < (1.0 - eta) * r0 / 2.0)  # noqa: N806
+    in_c_1 = rho < (1.0 - eta) * r0 / 2.0
+    c_1 = -2.0 * eta**2.0 * in_c_1  # noqa: N806
 
     # region where (rho <= ((1.0+eta)*r0/2.0)):
-    phi = np.arccos((1.0 + eta**2.0 - (2.0 * rho / r0) ** 2) / 2.0 / eta)
+    cos_phi = (1.0 + eta**2.0 - (2.0 * rho / r0) ** 2) / 2.0 / eta
+    phi = np.arccos(np.clip(cos_phi, -1.0, 1.0))
     c_2 = (  # noqa: N806
         2.0 * eta * np.sin(phi) / np.pi
         + (1.0 + eta**2.0) * phi / np.pi
@@ -171,7 +173,9 @@ def circular_aperture_OTF(  # noqa: N802
         (1.0 + eta) * np.tan(phi / 2.0) / (1.0 - eta)
     )
     c_2 = np.nan_to_num(c_2)  # noqa: N806
-    c_2 = c_2 * (rho <= ((1.0 + eta) * r0 / 2.0))  # noqa: N806
+    # the two regions must not overlap when rounding moves a frequency across
+    # their common boundary
+    c_2 = c_2 * (rho <= ((1.0 + eta) * r0 / 2.0)) * ~in_c_1  # noqa: N806
 
     # note that c_1+c_2 = C from the IBSM documentation
 
-- 
2.43.0


From cecfdedb5eeb9b1d2b8d07bcf966b418e7e4e12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:01 +0000
Subject: [PATCH 04/22] fix: noise_gain rejected kernels that sum to one up to
 rounding

---
 src/pybsm/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybsm/noise.py b/src/pybsm/noise.py
index 1c15e28..1cabcf2 100755
--- a/src/pybsm/noise.py
+++ b/src/pybsm/noise.py
@@ -53,7 +53,7 @@ def noise_gain(kernel: np.ndarray) -> float:
         ValueError:
             if values in kernel do not sum to 1
     """
-    if np.sum(kernel) != 1.0:
+    if not np.isclose(np.sum(kernel), 1.0):
         raise ValueError("Kernel does not sum to 1")
 
     ng = np.sqrt(np.sum(np.sum(kernel**2)))
-- 
2.43.0


From a6a2087edcb89ec67a2e11ae264f64e24d85e752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:01 +0000
Subject: [PATCH 05/22] fix: reflectance_to_photoelectrons ignored its
 target_temp argument

---
 src/pybsm/radiance/functional.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pybsm/radiance/functional.py b/src/pybsm/radiance/functional.py
index 98e7e93..03bec57 100755
--- a/src/pybsm/radiance/functional.py
+++ b/src/pybsm/radiance/functional.py
@@ -583,8 +583,8 @@ def reflectance_to_photoelectrons(
     for idx in np.arange(ref.size):
         # Calculate the total radiance from the target including both
         # reflection of the solar illumination and the radiative emission from
-        # the object assumed to be at 300 K.
-        target_radiance = total_radiance(atm, ref[idx], 300.0)
+        # the object at its assumed temperature.
+        target_radiance = total_radiance(atm, ref[idx], target_temp)
 
         wavelengths = atm[:, 0]
 
-- 
2.43.0


From 6d6ef35b35160c5a546d4d2451a7dd422a272f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:01 +0000
Subject: [PATCH 06/22] fix: emissive NIIRS bookkeeping set the target
 temperature twice

The second assignment is the background temperature (280 K).
---
 src/pybsm/metrics/functional.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pybsm/metrics/functional.py b/src/pybsm/metrics/functional.py
index 423e7ac..a699df1 100755
--- a/src/pybsm/metrics/functional.py
+++ b/src/pybsm/metrics/functional.py
@@ -314,7 +314,7 @@ def niirs(sensor: Sensor, scenario: Scenario, interp: Optional[bool] = False) ->
         nm.scenario.target_reflectance = 0.0
         nm.scenario.background_reflectance = 0.0
         nm.scenario.target_temperature = 282.0
-        nm.scenario.target_temperature = 280.0
+        nm.scenario.background_temperature = 280.0
 
     else:
         is_emissive = 0
@@ -475,7 +475,7 @@ def niirs5(sensor: Sensor, scenario: Scenario, interp: Optional[bool] = False) -
         nm.scenario.target_reflectance = 0.0
         nm.scenario.background_reflectance = 0.0
         nm.scenario.target_temperature = 282.0
-        nm.scenario.target_temperature = 280.0
+        nm.scenario.background_temperature = 280.0
 
     else:
         is_emissive = 0
-- 
2.43.0


From b20e17041d01f228147ded58c3872e44db88c66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:01 +0000
Subject: [PATCH 07/22] fix: niirs5 replaced the caller's sharpening kernel

---
 src/pybsm/metrics/functional.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pybsm/metrics/functional.py b/src/pybsm/metrics/functional.py
index a699df1..8e38687 100755
--- a/src/pybsm/metrics/functional.py
+++ b/src/pybsm/metrics/functional.py
@@ -15,6 +15,7 @@ Maintainer: Kitware, Inc. <nrtk@kitware.com>
 """
 
 # standard library imports
+import copy
 import inspect
 import os
 import warnings
@@ -551,9 +552,12 @@ def niirs5(sensor: Sensor, scenario: Scenario, interp: Optional[bool] = False) -
     nm.uu, nm.vv = np.meshgrid(u_rng, v_rng)  # meshgrid of spatial frequencies out to the optics cutoff
     nm.df = u_rng[1] - u_rng[0]  # spatial frequency step size
 
-    sensor.filter_kernel = np.array([1])  # ensures that sharpening is turned off.  Not valid for GIQE5
+    # ensures that sharpening is turned off (not valid for GIQE5) without
+    # changing the caller's sensor
+    unsharpened_sensor = copy.copy(sensor)
+    unsharpened_sensor.filter_kernel = np.array([1])
     nm.otf = otf.functional.common_OTFs(
-        sensor,
+        unsharpened_sensor,
         scenario,
         nm.uu,
         nm.vv,
-- 
2.43.0


From dd7a917eae1a831bea9ed957ad5f44a135f72ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:23 +0000
Subject: [PATCH 08/22] fix: default detector height used the inverse of the x
 fill factor

w_y = p_x/w_x*p_y gave detectors taller than their pitch for w_x < p_x; the
documented intent is the same fill factor as along x.
---
 src/pybsm/simulation/sensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybsm/simulation/sensor.py b/src/pybsm/simulation/sensor.py
index e54c823..2de5f18 100644
--- a/src/pybsm/simulation/sensor.py
+++ b/src/pybsm/simulation/sensor.py
@@ -191,7 +191,7 @@ class Sensor:
 
         if w_y is None:
             # Assume is same fill factor as along the x.
-            self.w_y = p_x / self.w_x * self.p_y
+            self.w_y = self.w_x / p_x * self.p_y
         else:
             self.w_y = w_y
 
-- 
2.43.0


From 226a79d97ba1d3c9507e445039021dbb88c17d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:23 +0000
Subject: [PATCH 09/22] fix: plot_common_MTFs always failed on misspelt
 annotate arguments

---
 src/pybsm/metrics/functional.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pybsm/metrics/functional.py b/src/pybsm/metrics/functional.py
index 8e38687..71b1b76 100755
--- a/src/pybsm/metrics/functional.py
+++ b/src/pybsm/metrics/functional.py
@@ -747,8 +747,8 @@ def plot_common_MTFs(metrics: Metrics, orientation_angle: float = 0.0) -> int:
     plt.annotate(
         "",
         xy=(nyquist, 0),
-        xy_text=(nyquist, 0.1),
-        arrow_props=dict(face_color="black", shrink=0.05),
+        xytext=(nyquist, 0.1),
+        arrowprops=dict(facecolor="black", shrink=0.05),
     )
     return 0
 
-- 
2.43.0


From 5ca816b3167268007e61deabf525c886a09f6dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:23 +0000
Subject: [PATCH 10/22] fix: common_OTFs ignored single-row filter kernels

---
 src/pybsm/otf/functional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybsm/otf/functional.py b/src/pybsm/otf/functional.py
index 56459fb..288a1d4 100755
--- a/src/pybsm/otf/functional.py
+++ b/src/pybsm/otf/functional.py
@@ -1403,7 +1403,7 @@ def common_OTFs(  # noqa: N802
     otf.wav_OTF = weighted_by_wavelength(mtf_wavelengths, mtf_weights, wav_function)
 
     # filter OTF (e.g. a sharpening filter but it could be anything)
-    if sensor.filter_kernel.shape[0] > 1:
+    if sensor.filter_kernel.size > 1:
         # note that we're assuming equal ifovs in the x and y directions
         otf.filter_OTF = filter_OTF(uu, vv, sensor.filter_kernel, sensor.p_x / sensor.f)
     else:
-- 
2.43.0


From 8f0a2ccf53f508f343022614d253fec4cc80209e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:23 +0000
Subject: [PATCH 11/22] fix: GIQE 4 noise coefficient is 0.344 (Leachtenauer et
 al. 1997)

---
 src/pybsm/metrics/functional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybsm/metrics/functional.py b/src/pybsm/metrics/functional.py
index 71b1b76..51e9386 100755
--- a/src/pybsm/metrics/functional.py
+++ b/src/pybsm/metrics/functional.py
@@ -117,7 +117,7 @@ def giqe4(rer: float, gsd: float, eho: float, ng: float, snr: float, elev_angle:
     # fact that only one direction in the gsd is distorted by projection into
     # the ground plane
 
-    niirs = 10.251 - c_1 * np.log10(gsd_gp / 0.0254) + c_2 * np.log10(rer) - 0.656 * eho - 0.334 * ng / snr
+    niirs = 10.251 - c_1 * np.log10(gsd_gp / 0.0254) + c_2 * np.log10(rer) - 0.656 * eho - 0.344 * ng / snr
     # note that, within the GIQE, gsd is defined in inches, hence the
     # conversion
     return niirs, gsd_gp
-- 
2.43.0


From ea4e134977726a9a1a2d25f5b655a20ae1c02e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:45 +0000
Subject: [PATCH 12/22] fix: misplaced parentheses in the defocused aperture
 OTF

The series of Hopkins (1955) multiplies sin(2n*beta) by the difference of
Bessel functions; the difference was inside the sine (and the prefactor halved
to compensate), so the MTF was off by up to 0.2 against the pupil
autocorrelation.
---
 src/pybsm/otf/functional.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/pybsm/otf/functional.py b/src/pybsm/otf/functional.py
index 288a1d4..949a723 100755
--- a/src/pybsm/otf/functional.py
+++ b/src/pybsm/otf/functional.py
@@ -238,16 +238,16 @@ def circular_aperture_OTF_with_defocus(  # noqa: N802
     beta = np.arccos(0.5 * s)
 
     if defocus:
-        defocus_otf = 2 / (np.pi * alpha) * np.cos(alpha * 0.5 * s) * (
+        defocus_otf = 4 / (np.pi * alpha) * np.cos(alpha * 0.5 * s) * (
             beta * jn(1, alpha)
-            + 1 / 2.0 * np.sin(2 * beta * (jn(1, alpha) - jn(3, alpha)))
-            - 1 / 4.0 * np.sin(4 * beta * (jn(3, alpha) - jn(5, alpha)))
-            + 1 / 6.0 * np.sin(6 * beta * (jn(5, alpha) - jn(7, alpha)))
-        ) - 2 / (np.pi * alpha) * np.sin(alpha * 0.5 * s) * (
-            np.sin(beta * (jn(0, alpha) - jn(2, alpha)))
-            - 1 / 3.0 * np.sin(3 * beta * (jn(2, alpha) - jn(4, alpha)))
-            + 1 / 5.0 * np.sin(5 * beta * (jn(4, alpha) - jn(6, alpha)))
-            - 1 / 7.0 * np.sin(7 * beta * (jn(6, alpha) - jn(8, alpha)))
+            + 1 / 2.0 * np.sin(2 * beta) * (jn(1, alpha) - jn(3, alpha))
+            - 1 / 4.0 * np.sin(4 * beta) * (jn(3, alpha) - jn(5, alpha))
+            + 1 / 6.0 * np.sin(6 * beta) * (jn(5, alpha) - jn(7, alpha))
+        ) - 4 / (np.pi * alpha) * np.sin(alpha * 0.5 * s) * (
+            np.sin(beta) * (jn(0, alpha) - jn(2, alpha))
+            - 1 / 3.0 * np.sin(3 * beta) * (jn(2, alpha) - jn(4, alpha))
+            + 1 / 5.0 * np.sin(5 * beta) * (jn(4, alpha) - jn(6, alpha))
+            - 1 / 7.0 * np.sin(7 * beta) * (jn(6, alpha) - jn(8, alpha))
         )
 
         defocus_otf[rho == 0] = 1
-- 
2.43.0


From fe02a7fa2dd787b4503fb034982b039b693407a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:06 +0000
Subject: [PATCH 13/22] fix: slice_otf returned scrambled values outside the
 first quadrant

interp2d sorts the requested coordinates, so for angles with a negative sine
or cosine the diagonal no longer followed the slice (its first sample was not
even zero frequency).  Interpolate at the slice points directly; this also
makes non-square OTFs work.
---
 src/pybsm/otf/functional.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/pybsm/otf/functional.py b/src/pybsm/otf/functional.py
index 949a723..254f990 100755
--- a/src/pybsm/otf/functional.py
+++ b/src/pybsm/otf/functional.py
@@ -1175,15 +1175,13 @@ def slice_otf(otf: np.ndarray, ang: float) -> np.ndarray:
             one-dimensional OTF in the direction of angle; the sample spacing
             of o_slice is the same as the original otf
     """
-    u = np.linspace(-1.0, 1.0, otf.shape[0])
-    v = np.linspace(1.0, -1.0, otf.shape[1])
+    # rows of otf run along v (decreasing) and columns run along u
+    u = np.linspace(-1.0, 1.0, otf.shape[1])
+    v = np.linspace(1.0, -1.0, otf.shape[0])
     r = np.arange(0.0, 1.0, u[1] - u[0])
 
-    f = interpolate.interp2d(u, v, otf)
-    o_slice = np.diag(f(r * np.cos(ang), r * np.sin(ang)))
-    # the interpolator, f, calculates a bunch of points that we don't really
-    # need since everything but the diagonal is thrown away.  It works but
-    # it's inefficient.
+    f = interpolate.RegularGridInterpolator((v[::-1], u), otf[::-1, :])
+    o_slice = f((r * np.sin(ang), r * np.cos(ang)))
 
     return o_slice
 
-- 
2.43.0


From d8c743506caf09fce1eab50afbcf54472a9ba2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:51 +0000
Subject: [PATCH 14/22] fix: otf_to_psf tapered the blur kernel of odd-sized
 OTFs

fftshift instead of ifftshift before the inverse transform put zero frequency
one sample off for odd sizes (image simulation uses 1501), multiplying the PSF
by a cosine.
---
 src/pybsm/otf/functional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybsm/otf/functional.py b/src/pybsm/otf/functional.py
index 254f990..74f9ca5 100755
--- a/src/pybsm/otf/functional.py
+++ b/src/pybsm/otf/functional.py
@@ -935,7 +935,7 @@ def otf_to_psf(otf: np.ndarray, df: float, dx_out: float) -> np.ndarray:
             "OpenCV not found. Please install 'pybsm[graphics]' or 'pybsm[headless]'."
         )
     # transform the psf
-    psf = np.real(np.fft.fftshift(np.fft.ifft2(np.fft.fftshift(otf))))
+    psf = np.real(np.fft.fftshift(np.fft.ifft2(np.fft.ifftshift(otf))))
 
     # determine image space sampling
     dx_in = 1 / (otf.shape[0] * df)
-- 
2.43.0


From b281554509d6c4db273ff70dab51793bb2ba17f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:51 +0000
Subject: [PATCH 15/22] fix: otf_to_psf cropped small kernels off centre

When the resampled PSF was smaller than the crop window the start of the slice
was negative and wrapped around; OTFs of 10 samples or fewer had no kernel at
all (UnboundLocalError).
---
 src/pybsm/otf/functional.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pybsm/otf/functional.py b/src/pybsm/otf/functional.py
index 74f9ca5..2a1617f 100755
--- a/src/pybsm/otf/functional.py
+++ b/src/pybsm/otf/functional.py
@@ -953,7 +953,7 @@ def otf_to_psf(otf: np.ndarray, df: float, dx_out: float) -> np.ndarray:
         tuple(
             [
                 slice(
-                    int(np.floor(d / 2 - k_size / 2)),
+                    max(0, int(np.floor(d / 2 - k_size / 2))),
                     int(np.ceil(d / 2 + k_size / 2)),
                 )
                 for d in x.shape
@@ -962,6 +962,7 @@ def otf_to_psf(otf: np.ndarray, df: float, dx_out: float) -> np.ndarray:
     ]
 
     # find the support region of the blur kernel
+    psf_out = psf
     for ii in np.arange(10, np.min(otf.shape), 5):
         psf_out = get_middle(psf, ii)
         if psf_out.sum() > 0.95:  # note the 0.95 is heuristic (but seems to work well)
-- 
2.43.0


From eb85eb548c0fd0d80f1bd0f0967aceb5d771ce4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:51 +0000
Subject: [PATCH 16/22] fix: simulate_image failed when sharpening undershoots
 zero photoelectrons

---
 src/pybsm/simulation/functional.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pybsm/simulation/functional.py b/src/pybsm/simulation/functional.py
index 089da12..8120fb2 100755
--- a/src/pybsm/simulation/functional.py
+++ b/src/pybsm/simulation/functional.py
@@ -252,7 +252,8 @@ def simulate_image(
     )
 
     # add photon noise (all sources) and dark current noise
-    poisson_noisy_img = np.random.poisson(lam=blur_img)
+    # (a sharpening filter can make the blurred image slightly negative)
+    poisson_noisy_img = np.random.poisson(lam=np.maximum(blur_img, 0.0))
     # add any noise from Gaussian sources, e.g. read_noise, quantizaiton
     noisy_img = np.random.normal(poisson_noisy_img, g_noise)
 
-- 
2.43.0


From f2bb19647079a90ef2a5cfa103f244d188ce28a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:25 +0000
Subject: [PATCH 17/22] fix: plot_noise_terms put labels under the wrong bars
 on small figures

---
 src/pybsm/metrics/functional.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/pybsm/metrics/functional.py b/src/pybsm/metrics/functional.py
index 51e9386..ed03e90 100755
--- a/src/pybsm/metrics/functional.py
+++ b/src/pybsm/metrics/functional.py
@@ -785,9 +785,9 @@ def plot_noise_terms(metrics: Any, max_val: int = 0) -> int:
     ind = np.arange(noise_terms.shape[0])
     ax.bar(ind, noise_terms, color="b")
     ax.set_ylabel("RMS Photoelectrons")
+    ax.set_xticks(ind)
     ax.set_xticklabels(
         (
-            " ",
             "Total",
             "Scene",
             "Path",
@@ -798,8 +798,6 @@ def plot_noise_terms(metrics: Any, max_val: int = 0) -> int:
         ),
         rotation=45,
     )
-    # NOTE: I'm not sure why the first label is ingnored in the previous line
-    # of code seems to be a new issue when I transitions to Python 3.6
     plt.title(
         "total photoelectrons per pixel: "
         + str(int(metrics.snr.tgt_n))
-- 
2.43.0


From 5f1a53b97ca5e406f31643e4efacadae2e2787f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:17 +0000
Subject: [PATCH 18/22] fix: filter_OTF cut kernels larger than 100 pixels

---
 src/pybsm/otf/functional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybsm/otf/functional.py b/src/pybsm/otf/functional.py
index 2a1617f..1ceee01 100755
--- a/src/pybsm/otf/functional.py
+++ b/src/pybsm/otf/functional.py
@@ -520,7 +520,7 @@ def filter_OTF(  # noqa: N802
     # most filter kernels are only a few pixels wide so we'll use zero-padding
     # to make the OTF larger.  The exact size doesn't matter too much
     # because the result is interpolated
-    n = 100  # array size for the transform
+    n = max(100, *kernel.shape)  # array size for the transform
 
     # transform of the kernel
     xfer_fcn = np.abs(np.fft.fftshift(np.fft.fft2(kernel, [n, n])))
-- 
2.43.0


From 510cc7bcb00c9c3bc7d73d4938e51dc5fac962c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:46 +0000
Subject: [PATCH 19/22] fix: diffusion OTF overflowed for 32-bit integer
 frequencies

---
 src/pybsm/otf/functional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybsm/otf/functional.py b/src/pybsm/otf/functional.py
index 1ceee01..aec8f4b 100755
--- a/src/pybsm/otf/functional.py
+++ b/src/pybsm/otf/functional.py
@@ -460,7 +460,7 @@ def diffusion_OTF(  # noqa: N802
     ) -> float:
         return 1.0 - np.exp(-alpha * ald) / (1.0 + alpha * al)
 
-    rho = np.sqrt(u**2 + v**2)
+    rho = np.sqrt(u**2.0 + v**2.0)
 
     al_rho = np.sqrt((1.0 / al0**2 + (2.0 * np.pi * rho / f) ** 2) ** (-1))
 
-- 
2.43.0


From 601f2e198cb2c166b133e736afecca5f3ff7e116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:16 +0000
Subject: [PATCH 20/22] fix: weighted_by_wavelength failed for repeated
 wavelengths

---
 src/pybsm/otf/functional.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pybsm/otf/functional.py b/src/pybsm/otf/functional.py
index aec8f4b..54a346e 100755
--- a/src/pybsm/otf/functional.py
+++ b/src/pybsm/otf/functional.py
@@ -1004,8 +1004,11 @@ def weighted_by_wavelength(
     weights = weights / weights.sum()
     weighted_fcn = weights[0] * my_function(wavelengths[0])
 
-    for wii in wavelengths[1:]:
-        weighted_fcn = weighted_fcn + weights[wavelengths == wii] * my_function(wii)
+    # select each weight by position so that a repeated wavelength is counted
+    # once per entry
+    for ii in range(1, len(wavelengths)):
+        in_place = np.arange(len(wavelengths)) == ii
+        weighted_fcn = weighted_fcn + weights[in_place] * my_function(wavelengths[ii])
 
     return weighted_fcn
 
-- 
2.43.0


From d53eff96555a2bb0c528354980235fe85d47d45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:25 +0000
Subject: [PATCH 21/22] fix: noise_gain overflowed for kernels of small
 integers

---
 src/pybsm/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybsm/noise.py b/src/pybsm/noise.py
index 1cabcf2..ac59c34 100755
--- a/src/pybsm/noise.py
+++ b/src/pybsm/noise.py
@@ -56,7 +56,7 @@ def noise_gain(kernel: np.ndarray) -> float:
     if not np.isclose(np.sum(kernel), 1.0):
         raise ValueError("Kernel does not sum to 1")
 
-    ng = np.sqrt(np.sum(np.sum(kernel**2)))
+    ng = np.sqrt(np.sum(np.sum(kernel.astype(float) ** 2)))
     return ng
 
 
-- 
2.43.0


From b1518a3c1ae50d22f3d8e1602368fa55572767ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:45 +0000
Subject: [PATCH 22/22] fix: apply_otf_to_image accepted flat images, which it
 documents to refuse

---
 src/pybsm/otf/functional.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pybsm/otf/functional.py b/src/pybsm/otf/functional.py
index 54a346e..9742fa9 100755
--- a/src/pybsm/otf/functional.py
+++ b/src/pybsm/otf/functional.py
@@ -1289,6 +1289,8 @@ def apply_otf_to_image(
             "OpenCV not found. Please install 'pybsm[graphics]' or 'pybsm[headless]'."
         )
     psf = otf_to_psf(otf, df, 2 * np.arctan(ref_gsd / 2 / ref_range))
+    if np.ndim(ref_img) < 2:
+        raise IndexError("ref_img must be a 2D array")
 
     # filter the image
     blur_img = cv2.filter2D(ref_img, -1, psf)
-- 
2.43.0

