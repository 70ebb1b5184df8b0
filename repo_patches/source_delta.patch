From fd93d6bbe6717c5c4ca803aa3ccbfbf65b12ded2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:03 +0000
Subject: [PATCH 1/9] fix: interpolate atmospheres between 2 and 75 m

The altitude grid of load_database_atmosphere listed 32.55 m, but the database
holds 32.5 m, so every interpolation that needed that row raised IndexError.
---
 src/pybsm/simulation/scenario.py | 2 +-
 src/pybsm/utils.py               | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pybsm/simulation/scenario.py b/src/pybsm/simulation/scenario.py
index b5c7617..f431802 100644
--- a/src/pybsm/simulation/scenario.py
+++ b/src/pybsm/simulation/scenario.py
@@ -35,7 +35,7 @@ class Scenario:
         with 5 km visibility)
     :parameter altitude:
         sensor height above ground level in meters; the database includes the
-        following altitude options: 2 32.55 75 150 225 500 meters, 1000 to
+        following altitude options: 2 32.5 75 150 225 500 meters, 1000 to
         12000 in 1000 meter steps, and 14000 to 20000 in 2000 meter steps,
         24500
     :parameter ground_range:
diff --git a/src/pybsm/utils.py b/src/pybsm/utils.py
index 3dfca4f..3169096 100644
--- a/src/pybsm/utils.py
+++ b/src/pybsm/utils.py
@@ -44,7 +44,7 @@ def load_database_atmosphere_no_interp(
 
     :param altitude:
         sensor height above ground level in meters.  The database includes the
-        following altitude options: 2 32.55 75 150 225 500 meters, 1000 to
+        following altitude options: 2 32.5 75 150 225 500 meters, 1000 to
         12000 in 1000 meter steps, and 14000 to 20000 in 2000 meter steps,
         24500 meters
     :param ground_range:
@@ -197,7 +197,7 @@ def load_database_atmosphere(
     altitude_array = np.array(
         [
             2,
-            32.55,
+            32.5,
             75,
             150,
             225,
-- 
2.43.0


From c59ceedcd36814398dee4756d65a97ece899dbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:15 +0000
Subject: [PATCH 2/9] fix: a scenario changed while its atmosphere is being
 read never stays stale

Scenario.atm tested the cache, loaded and returned it in separate steps, so a
concurrent parameter change made it return None, or cache the old parameters'
atmosphere for good. The parameters are now read once and cached along with
the atmosphere loaded for them.
---
 src/pybsm/simulation/scenario.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/pybsm/simulation/scenario.py b/src/pybsm/simulation/scenario.py
index f431802..5ccda3f 100644
--- a/src/pybsm/simulation/scenario.py
+++ b/src/pybsm/simulation/scenario.py
@@ -14,7 +14,7 @@ Public release approval for version 0.1: 88ABW-2018-5226
 Maintainer: Kitware, Inc. <nrtk@kitware.com>
 """
 # 3rd party imports
-from typing import Optional
+from typing import Optional, Tuple
 
 import numpy as np
 
@@ -94,7 +94,7 @@ class Scenario:
         self.cn2_at_1m = cn2_at_1m
 
         # Will be loaded on demand for a particular altitude.
-        self._atm: Optional[np.ndarray] = None
+        self._atm: Optional[Tuple[Tuple[float, float, int], np.ndarray]] = None
         self._interp = interp
 
     @property
@@ -151,15 +151,17 @@ class Scenario:
             NOTE: Units for columns 1 through 5 are in radiance W/(sr m^2 m).
 
         """
-        if self._atm is None:
+        # The parameters are read once and cached along with the atmosphere
+        # loaded for them, so that a change made by another thread while
+        # loading is noticed by the next access.
+        params = (self.altitude, self.ground_range, self.ihaze)
+        cached = self._atm
+        if cached is None or cached[0] != params:
             # Read in and cache results.
             if self._interp:
-                self._atm = utils.load_database_atmosphere(
-                    self.altitude, self.ground_range, self.ihaze
-                )
+                cached = (params, utils.load_database_atmosphere(*params))
             else:
-                self._atm = utils.load_database_atmosphere_no_interp(
-                    self.altitude, self.ground_range, self.ihaze
-                )
+                cached = (params, utils.load_database_atmosphere_no_interp(*params))
+            self._atm = cached
 
-        return self._atm
+        return cached[1]
-- 
2.43.0


From 49fbaac4ecadc4cc875b64cf9a7a8272b1289a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:38 +0000
Subject: [PATCH 3/9] fix: NIIRS evaluations record the background temperature
 they assume

For thermal bands the scenario's target temperature was set twice, to 282 and
then to 280 K, instead of the target's to 282 and the background's to 280 K.
---
 src/pybsm/metrics/functional.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pybsm/metrics/functional.py b/src/pybsm/metrics/functional.py
index 423e7ac..a699df1 100755
--- a/src/pybsm/metrics/functional.py
+++ b/src/pybsm/metrics/functional.py
@@ -314,7 +314,7 @@ def niirs(sensor: Sensor, scenario: Scenario, interp: Optional[bool] = False) ->
         nm.scenario.target_reflectance = 0.0
         nm.scenario.background_reflectance = 0.0
         nm.scenario.target_temperature = 282.0
-        nm.scenario.target_temperature = 280.0
+        nm.scenario.background_temperature = 280.0
 
     else:
         is_emissive = 0
@@ -475,7 +475,7 @@ def niirs5(sensor: Sensor, scenario: Scenario, interp: Optional[bool] = False) -
         nm.scenario.target_reflectance = 0.0
         nm.scenario.background_reflectance = 0.0
         nm.scenario.target_temperature = 282.0
-        nm.scenario.target_temperature = 280.0
+        nm.scenario.background_temperature = 280.0
 
     else:
         is_emissive = 0
-- 
2.43.0


From f1c2671e1c28604d1ea8055ba000271195a4fb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:38 +0000
Subject: [PATCH 4/9] fix: niirs5 no longer removes the caller's sharpening
 kernel

It replaced sensor.filter_kernel for good, so later evaluations of the same
sensor (niirs, simulate_image) silently ran without sharpening.
---
 src/pybsm/metrics/functional.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pybsm/metrics/functional.py b/src/pybsm/metrics/functional.py
index a699df1..0489d4d 100755
--- a/src/pybsm/metrics/functional.py
+++ b/src/pybsm/metrics/functional.py
@@ -15,6 +15,7 @@ Maintainer: Kitware, Inc. <nrtk@kitware.com>
 """
 
 # standard library imports
+import copy
 import inspect
 import os
 import warnings
@@ -551,9 +552,10 @@ def niirs5(sensor: Sensor, scenario: Scenario, interp: Optional[bool] = False) -
     nm.uu, nm.vv = np.meshgrid(u_rng, v_rng)  # meshgrid of spatial frequencies out to the optics cutoff
     nm.df = u_rng[1] - u_rng[0]  # spatial frequency step size
 
-    sensor.filter_kernel = np.array([1])  # ensures that sharpening is turned off.  Not valid for GIQE5
+    unsharpened = copy.copy(sensor)  # the caller's sensor keeps its kernel
+    unsharpened.filter_kernel = np.array([1])  # ensures that sharpening is turned off.  Not valid for GIQE5
     nm.otf = otf.functional.common_OTFs(
-        sensor,
+        unsharpened,
         scenario,
         nm.uu,
         nm.vv,
-- 
2.43.0


From edeefee2fd93d2c22d29ac140f501bf87e184e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:12 +0000
Subject: [PATCH 5/9] fix: advisory messages go to pyBSM's own loggers and
 leave the root logger alone

---
 src/pybsm/radiance/functional.py   | 4 +++-
 src/pybsm/simulation/functional.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pybsm/radiance/functional.py b/src/pybsm/radiance/functional.py
index 98e7e93..ff12f0f 100755
--- a/src/pybsm/radiance/functional.py
+++ b/src/pybsm/radiance/functional.py
@@ -35,6 +35,8 @@ from pybsm.simulation.sensor import Sensor
 
 from .snr_metrics import SNRMetrics
 
+logger = logging.getLogger(__name__)
+
 # new in version 0.2.  We filter warnings associated with calculations in the
 # function circularApertureOTF.  These invalid values are caught as NaNs and
 # appropriately replaced.
@@ -639,7 +641,7 @@ def reflectance_to_photoelectrons(
 
     sat = pe.max() / sensor.max_n
     if sat > 1:
-        logging.info(
+        logger.info(
             f"Reducing integration time from {int_time} to {int_time/sat}"
             " to avoid overexposure"
         )
diff --git a/src/pybsm/simulation/functional.py b/src/pybsm/simulation/functional.py
index 089da12..c707a63 100755
--- a/src/pybsm/simulation/functional.py
+++ b/src/pybsm/simulation/functional.py
@@ -33,6 +33,8 @@ from .ref_image import RefImage
 from .scenario import Scenario
 from .sensor import Sensor
 
+logger = logging.getLogger(__name__)
+
 # new in version 0.2.  We filter warnings associated with calculations in the
 # function circularApertureOTF.  These invalid values are caught as NaNs and
 # appropriately replaced.
@@ -257,7 +259,7 @@ def simulate_image(
     noisy_img = np.random.normal(poisson_noisy_img, g_noise)
 
     if noisy_img.shape[0] > ref_img.img.shape[0]:
-        logging.warn(
+        logger.warning(
             "The simulated image has oversampled the"
             " reference image!  This result should not be"
             " trusted!!"
-- 
2.43.0


From d418463b678f83e07786480de9fb464e11bdf9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:03 +0000
Subject: [PATCH 6/9] fix: plot_common_MTFs marks the Nyquist frequency instead
 of raising AttributeError

---
 src/pybsm/metrics/functional.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pybsm/metrics/functional.py b/src/pybsm/metrics/functional.py
index 0489d4d..3ca2bb4 100755
--- a/src/pybsm/metrics/functional.py
+++ b/src/pybsm/metrics/functional.py
@@ -745,8 +745,8 @@ def plot_common_MTFs(metrics: Metrics, orientation_angle: float = 0.0) -> int:
     plt.annotate(
         "",
         xy=(nyquist, 0),
-        xy_text=(nyquist, 0.1),
-        arrow_props=dict(face_color="black", shrink=0.05),
+        xytext=(nyquist, 0.1),
+        arrowprops=dict(facecolor="black", shrink=0.05),
     )
     return 0
 
-- 
2.43.0


From 089ebbacea6c0bf08f3d9f6dc9f4bb96e1599aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:49 +0000
Subject: [PATCH 7/9] fix: slice_otf follows the slice angle beyond the first
 quadrant

---
 src/pybsm/otf/functional.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/pybsm/otf/functional.py b/src/pybsm/otf/functional.py
index 0c0486d..0c30de8 100755
--- a/src/pybsm/otf/functional.py
+++ b/src/pybsm/otf/functional.py
@@ -1176,10 +1176,9 @@ def slice_otf(otf: np.ndarray, ang: float) -> np.ndarray:
     r = np.arange(0.0, 1.0, u[1] - u[0])
 
     f = interpolate.interp2d(u, v, otf)
-    o_slice = np.diag(f(r * np.cos(ang), r * np.sin(ang)))
-    # the interpolator, f, calculates a bunch of points that we don't really
-    # need since everything but the diagonal is thrown away.  It works but
-    # it's inefficient.
+    # evaluated point by point: given arrays, the interpolator sorts them, which
+    # pairs up the wrong coordinates where one of them decreases along the slice
+    o_slice = np.array([f(x, y)[0] for x, y in zip(r * np.cos(ang), r * np.sin(ang))])
 
     return o_slice
 
-- 
2.43.0


From 8b73485231c0864c5fa63bb2ea3449e9ce5293ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:49 +0000
Subject: [PATCH 8/9] fix: the bars of the noise plot carry their own names
 whatever the plotting defaults

---
 src/pybsm/metrics/functional.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/pybsm/metrics/functional.py b/src/pybsm/metrics/functional.py
index 3ca2bb4..ba4b754 100755
--- a/src/pybsm/metrics/functional.py
+++ b/src/pybsm/metrics/functional.py
@@ -783,9 +783,9 @@ def plot_noise_terms(metrics: Any, max_val: int = 0) -> int:
     ind = np.arange(noise_terms.shape[0])
     ax.bar(ind, noise_terms, color="b")
     ax.set_ylabel("RMS Photoelectrons")
+    ax.set_xticks(ind)  # one label for each bar, whatever ticks matplotlib would choose
     ax.set_xticklabels(
         (
-            " ",
             "Total",
             "Scene",
             "Path",
@@ -796,8 +796,6 @@ def plot_noise_terms(metrics: Any, max_val: int = 0) -> int:
         ),
         rotation=45,
     )
-    # NOTE: I'm not sure why the first label is ingnored in the previous line
-    # of code seems to be a new issue when I transitions to Python 3.6
     plt.title(
         "total photoelectrons per pixel: "
         + str(int(metrics.snr.tgt_n))
-- 
2.43.0


From 9690959021c681ec40ae6a1e4bdcc92369b7d726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:38 +0000
Subject: [PATCH 9/9] fix: importing pybsm.otf or pybsm.radiance no longer goes
 through pybsm.simulation, which imports them

When such an import was interrupted or failed, pybsm.simulation was left
holding the half-initialised module, and image simulations raised
AttributeError even after the import was repeated.
---
 src/pybsm/otf/functional.py      | 12 +++++++-----
 src/pybsm/radiance/functional.py | 10 ++++++----
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/pybsm/otf/functional.py b/src/pybsm/otf/functional.py
index 0c30de8..6a26419 100755
--- a/src/pybsm/otf/functional.py
+++ b/src/pybsm/otf/functional.py
@@ -63,7 +63,7 @@ the OTF response (unitless) for that those spatial frequencies.
 import inspect
 import os
 import warnings
-from typing import Callable, Tuple
+from typing import TYPE_CHECKING, Callable, Tuple
 
 try:
     import cv2
@@ -79,11 +79,13 @@ from scipy.special import jn
 
 # local imports
 from pybsm.geospatial import altitude_along_slant_path
-from pybsm.simulation.scenario import Scenario
-from pybsm.simulation.sensor import Sensor
 
 from .otf import OTF
 
+if TYPE_CHECKING:  # pybsm.simulation itself imports pybsm.otf
+    from pybsm.simulation.scenario import Scenario
+    from pybsm.simulation.sensor import Sensor
+
 # new in version 0.2.  We filter warnings associated with calculations in the
 # function circular_aperture_OTF.  These invalid values are caught as NaNs and
 # appropriately replaced.
@@ -1296,8 +1298,8 @@ def apply_otf_to_image(
 
 
 def common_OTFs(  # noqa: N802
-    sensor: Sensor,
-    scenario: Scenario,
+    sensor: "Sensor",
+    scenario: "Scenario",
     uu: np.ndarray,
     vv: np.ndarray,
     mtf_wavelengths: np.ndarray,
diff --git a/src/pybsm/radiance/functional.py b/src/pybsm/radiance/functional.py
index ff12f0f..cf88e40 100755
--- a/src/pybsm/radiance/functional.py
+++ b/src/pybsm/radiance/functional.py
@@ -24,17 +24,19 @@ import inspect
 import logging
 import os
 import warnings
-from typing import Tuple
+from typing import TYPE_CHECKING, Tuple
 
 # 3rd party imports
 import numpy as np
 
 # local imports
 from pybsm import noise
-from pybsm.simulation.sensor import Sensor
 
 from .snr_metrics import SNRMetrics
 
+if TYPE_CHECKING:  # pybsm.simulation itself imports pybsm.radiance
+    from pybsm.simulation.sensor import Sensor
+
 logger = logging.getLogger(__name__)
 
 # new in version 0.2.  We filter warnings associated with calculations in the
@@ -376,7 +378,7 @@ def photon_detection_rate(
 
 
 def photon_detector_SNR(  # noqa: N802
-    sensor: Sensor,
+    sensor: "Sensor",
     radiance_wavelengths: np.ndarray,
     target_radiance: np.ndarray,
     background_radiance: np.ndarray,
@@ -535,7 +537,7 @@ def photon_detector_SNR(  # noqa: N802
 
 
 def reflectance_to_photoelectrons(
-    atm: np.ndarray, sensor: Sensor, int_time: float, target_temp: int = 300
+    atm: np.ndarray, sensor: "Sensor", int_time: float, target_temp: int = 300
 ) -> Tuple[np.ndarray, np.ndarray, np.ndarray]:
     """Provides a mapping between reflectance on the ground and photoelectrons collected in the sensor well.
 
-- 
2.43.0

