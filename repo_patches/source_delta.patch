From 2f28e2f044a0f968f246f92fd61852dc4e4029c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:55 +0000
Subject: [PATCH 01/29] fix: DataSE.load dropped leading rows when given a
 file-like object (and in refresh)

---
 refellips/dataSE.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/refellips/dataSE.py b/refellips/dataSE.py
index 50f3ba8..091d11c 100644
--- a/refellips/dataSE.py
+++ b/refellips/dataSE.py
@@ -234,12 +234,15 @@ class DataSE(object):
 
         skip_lines = 0
         with possibly_open_file(f, "r") as text:
+            start = text.tell()
             for i in range(100):  # check the first 100 lines
                 try:
                     float(text.readline().split(self.delimiter)[0])
                     break
                 except ValueError:
                     skip_lines += 1
+            # rewind, a file-like `f` is also going to be read by loadtxt
+            text.seek(start)
 
         self._wavelength, self._aoi, self._psi, self._delta = np.loadtxt(
             f, skiprows=skip_lines, delimiter=self.delimiter, encoding="utf8"
-- 
2.43.0


From 6da14d135da2729a9de89e33b5715e22d3365b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:28 +0000
Subject: [PATCH 02/29] fix: DataSE ignored the mask constructor argument, and
 mask=None did not clear the mask

---
 refellips/dataSE.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/refellips/dataSE.py b/refellips/dataSE.py
index 091d11c..a114d48 100644
--- a/refellips/dataSE.py
+++ b/refellips/dataSE.py
@@ -58,7 +58,13 @@ class DataSE(object):
     """
 
     def __init__(
-        self, data=None, name=None, delimiter="\t", reflect_delta=False, **kwds
+        self,
+        data=None,
+        name=None,
+        delimiter="\t",
+        reflect_delta=False,
+        mask=None,
+        **kwds,
     ):
         self.filename = None
 
@@ -104,7 +110,7 @@ class DataSE(object):
             self._delta[dmask] = 360 - self._delta[dmask]
             self._delta_flipped = True
 
-        self.mask = np.ones_like(self._wavelength, dtype=bool)
+        self.mask = mask
 
     def __len__(self):
         """Number of unmasked points in the dataset."""
@@ -124,6 +130,19 @@ class DataSE(object):
         else:
             return "Data1D(data={data!r}," " mask={msk!r})".format(**d)
 
+    @property
+    def mask(self):
+        """mask, True for the points that are included."""
+        return self._mask
+
+    @mask.setter
+    def mask(self, mask):
+        if mask is None:
+            mask = True
+        self._mask = np.array(
+            np.broadcast_to(mask, np.shape(self._wavelength)), dtype=bool
+        )
+
     def unique_wavelength_data(self):
         """
         Generator yielding wavelength, AOI, psi, delta tuples for the unique
-- 
2.43.0


From 27db445f58ee15889d1e21b9efea93ec4f5ff379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:28 +0000
Subject: [PATCH 03/29] fix: DataSE(reflect_delta=True) overwrote the delta
 array owned by the caller

---
 refellips/dataSE.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/refellips/dataSE.py b/refellips/dataSE.py
index a114d48..f915a70 100644
--- a/refellips/dataSE.py
+++ b/refellips/dataSE.py
@@ -106,8 +106,10 @@ class DataSE(object):
 
         self._delta_flipped = False
         if reflect_delta:
-            dmask = self._delta > 180
-            self._delta[dmask] = 360 - self._delta[dmask]
+            # don't reflect in-place, the array may belong to the caller
+            self._delta = np.where(
+                self._delta > 180, 360 - self._delta, self._delta
+            )
             self._delta_flipped = True
 
         self.mask = mask
-- 
2.43.0


From 05fd0274a080d136d7592efafc5df0a08deeb848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:28 +0000
Subject: [PATCH 04/29] fix: DataSE.load/refresh/data left a stale mask, and
 dropped the delta reflection convention

---
 refellips/dataSE.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/refellips/dataSE.py b/refellips/dataSE.py
index f915a70..745110c 100644
--- a/refellips/dataSE.py
+++ b/refellips/dataSE.py
@@ -74,6 +74,7 @@ class DataSE(object):
         self._aoi = np.zeros(0)
         self._psi = np.zeros(0)
         self._delta = np.zeros(0)
+        self._delta_flipped = False
         # TODO when we come up with measurement uncertainties change this.
         self.weighted = False
         self.name = name
@@ -104,16 +105,18 @@ class DataSE(object):
             self._psi = data[2]
             self._delta = data[3]
 
-        self._delta_flipped = False
         if reflect_delta:
-            # don't reflect in-place, the array may belong to the caller
-            self._delta = np.where(
-                self._delta > 180, 360 - self._delta, self._delta
-            )
             self._delta_flipped = True
+            self._reflect_delta()
 
         self.mask = mask
 
+    def _reflect_delta(self):
+        # don't reflect in-place, the array may belong to the caller
+        self._delta = np.where(
+            self._delta > 180, 360 - self._delta, self._delta
+        )
+
     def __len__(self):
         """Number of unmasked points in the dataset."""
         return self.wavelength.size
@@ -218,8 +221,10 @@ class DataSE(object):
         self._aoi = np.array(data_tuple[1], dtype=float)
         self._psi = np.array(data_tuple[2], dtype=float)
         self._delta = np.array(data_tuple[3], dtype=float)
+        if self._delta_flipped:
+            self._reflect_delta()
 
-        self.mask = np.ones_like(self._wavelength, dtype=bool)
+        self.mask = None
 
     def save(self, f):
         """
@@ -265,8 +270,12 @@ class DataSE(object):
             # rewind, a file-like `f` is also going to be read by loadtxt
             text.seek(start)
 
-        self._wavelength, self._aoi, self._psi, self._delta = np.loadtxt(
-            f, skiprows=skip_lines, delimiter=self.delimiter, encoding="utf8"
+        self.data = np.loadtxt(
+            f,
+            skiprows=skip_lines,
+            delimiter=self.delimiter,
+            encoding="utf8",
+            ndmin=2,
         ).T
 
     def refresh(self):
-- 
2.43.0


From 87e077564772896c405dd5471c32078568425dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:28 +0000
Subject: [PATCH 05/29] fix: DataSE(DataSE) dropped the mask and the delta
 reflection convention of its source

---
 refellips/dataSE.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/refellips/dataSE.py b/refellips/dataSE.py
index 745110c..a66deaf 100644
--- a/refellips/dataSE.py
+++ b/refellips/dataSE.py
@@ -97,6 +97,9 @@ class DataSE(object):
             self._aoi = data._aoi
             self._psi = data._psi
             self._delta = data._delta
+            self._delta_flipped = data._delta_flipped
+            if mask is None:
+                mask = data.mask
 
         # If a list or tuple, then assume its in format wavelength, AOI, psi, delta.
         elif isinstance(data, (list, tuple, np.ndarray)):
-- 
2.43.0


From b0f7d523f44760c870844a9e36d531c13dbb6bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:54 +0000
Subject: [PATCH 06/29] fix: open_EP4file lost or mislabelled measurements in a
 time series with position data

---
 refellips/dataSE.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/refellips/dataSE.py b/refellips/dataSE.py
index a66deaf..7ed483e 100644
--- a/refellips/dataSE.py
+++ b/refellips/dataSE.py
@@ -334,8 +334,10 @@ def open_EP4file(fname, reflect_delta=False):
         output = []
         for t in df["Time"].drop_duplicates():
             tdf = df[df["Time"] == t]
-            output += _loadEP4(tdf)  # not sure if this will work
-            output[-1]["time"] = t
+            toutput = _loadEP4(tdf)
+            for op in toutput:
+                op["time"] = t
+            output += toutput
     else:
         output = _loadEP4(df)
         for op in output:
@@ -428,6 +430,8 @@ def _loadEP4(df):
         possible X pos and Y pos.
 
     """
+    # locations are sliced by label, so the labels need to be 0..len(df) - 1
+    df = df.reset_index(drop=True)
 
     try:
         df["X_pos"]
-- 
2.43.0


From 0a4bfb8d96e9ec1d49d80d2f077a13f71825a3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:54 +0000
Subject: [PATCH 07/29] fix: open_HORIBAfile only worked on Windows (ANSI
 codec), and made datasets from pandas Series

---
 refellips/dataSE.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/refellips/dataSE.py b/refellips/dataSE.py
index 7ed483e..ad361be 100644
--- a/refellips/dataSE.py
+++ b/refellips/dataSE.py
@@ -532,7 +532,7 @@ def open_HORIBAfile(
 
     """
 
-    name = fname[:-4]
+    name = str(fname)[:-4]
     metadata = {}
     linenodict = {}
     MDingest = False
@@ -570,7 +570,7 @@ def open_HORIBAfile(
         fname,
         skiprows=linenodict["DATA"] + 1,
         nrows=len(metadata["DATA"]) - 1,
-        encoding="ANSI",
+        encoding="latin-1",
         delimiter=" ",
         usecols=["nm", "Psi", "Delta"],
     )
@@ -580,7 +580,7 @@ def open_HORIBAfile(
     data_df = data_df[data_df["nm"] > lambda_cutoffs[0]]
     data_df = data_df[data_df["nm"] < lambda_cutoffs[1]]
 
-    data = [data_df["nm"], data_df["AOI"], data_df["Psi"], data_df["Delta"]]
+    data = [data_df[k].to_numpy() for k in ("nm", "AOI", "Psi", "Delta")]
 
     return DataSE(data, name=name, reflect_delta=reflect_delta, **metadata)
 
-- 
2.43.0


From ae77b080c0da7e5a197ed37dafa0a017b41a56c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:54 +0000
Subject: [PATCH 08/29] fix: RI rescaled the wavelength array owned by the
 caller, and corrupted list input

---
 refellips/dispersion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/refellips/dispersion.py b/refellips/dispersion.py
index d7170f6..b8cc300 100644
--- a/refellips/dispersion.py
+++ b/refellips/dispersion.py
@@ -92,7 +92,8 @@ class RI(ScattererSE):
                 # wavelength, RI, extinction coef.
                 # wavelength assumed to be in *nm*
                 self._wav, self._RI, self._EC = dispersion
-                self._wav *= 1000
+                # don't convert in-place, the array belongs to the caller
+                self._wav = np.asarray(self._wav, dtype=float) * 1000
             else:
                 raise TypeError("format not recognised")
 
-- 
2.43.0


From 9d062994123329c96d72c8562027273eeaceb6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:54 +0000
Subject: [PATCH 09/29] fix: RI loaded from a file without a name was not named
 after the file

---
 refellips/dispersion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refellips/dispersion.py b/refellips/dispersion.py
index b8cc300..258a69f 100644
--- a/refellips/dispersion.py
+++ b/refellips/dispersion.py
@@ -73,7 +73,7 @@ class RI(ScattererSE):
             if type(dispersion) is str or isinstance(dispersion, PurePath):
                 if not len(name):
                     # if there is no name get it from the path
-                    name = os.path.basename(dispersion).split(".")[0]
+                    self.name = os.path.basename(dispersion).split(".")[0]
 
                 vals = np.loadtxt(
                     dispersion, skiprows=1, delimiter=",", encoding="utf8"
-- 
2.43.0


From 042424e03c09e3b774c385068cc5dacddc5c4c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:54 +0000
Subject: [PATCH 10/29] fix: circular_distance was negative/wrong for angles
 more than one period apart

---
 refellips/objectiveSE.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refellips/objectiveSE.py b/refellips/objectiveSE.py
index ce76f7d..6da4ea4 100644
--- a/refellips/objectiveSE.py
+++ b/refellips/objectiveSE.py
@@ -36,7 +36,7 @@ def circular_distance(angle1, angle2, period=360):
     Returns:
         float or np.ndarray: The shortest circular distance between the angles.
     """
-    diff = np.abs(angle1 - angle2)
+    diff = np.abs(angle1 - angle2) % period
     return np.minimum(diff, period - diff)
 
 
-- 
2.43.0


From a2b1bc53606ed27274d0848d56aa73588d09a9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:54 +0000
Subject: [PATCH 11/29] fix: ObjectiveSE used the delta convention of another
 dataset when a model was shared

---
 refellips/objectiveSE.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/refellips/objectiveSE.py b/refellips/objectiveSE.py
index 6da4ea4..a506acd 100644
--- a/refellips/objectiveSE.py
+++ b/refellips/objectiveSE.py
@@ -180,6 +180,16 @@ class ObjectiveSE(BaseObjective):
         p.data = list(f_unique(p for p in flatten(self.parameters) if p.vary))
         return p
 
+    def _calc(self, wavelength_aoi):
+        # the model can be shared with other objectives whose datasets have a
+        # different delta convention, use the convention of *this* dataset.
+        flip_delta = self.model._flip_delta
+        self.model._flip_delta = self.data._delta_flipped
+        try:
+            return self.model(wavelength_aoi)
+        finally:
+            self.model._flip_delta = flip_delta
+
     def residuals(self, pvals=None):
         """
         Calculates the residuals for a given fitting system.
@@ -200,7 +210,7 @@ class ObjectiveSE(BaseObjective):
 
         wavelength, aoi, psi_d, delta_d = self.data.data
         wavelength_aoi = np.c_[wavelength, aoi]
-        psi, delta = self.model(wavelength_aoi)
+        psi, delta = self._calc(wavelength_aoi)
         delta_err = circular_distance(delta, delta_d, period=360)
         return np.r_[psi - psi_d, delta_err]
 
@@ -389,7 +399,7 @@ class ObjectiveSE(BaseObjective):
         wavelength, aoi, psi_d, delta_d = self.data.data
         wavelength_aoi = np.c_[wavelength, aoi]
 
-        psi, delta = self.model(wavelength_aoi)
+        psi, delta = self._calc(wavelength_aoi)
 
         logl = 0.0
 
@@ -572,7 +582,7 @@ class ObjectiveSE(BaseObjective):
         """
 
         data = self.data
-        model = self.model
+        model = self._calc
 
         if fig is None:
             import matplotlib.pyplot as plt
-- 
2.43.0


From 3f34c88b27efe0fa811fcca52dd3901db38c7d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:54 +0000
Subject: [PATCH 12/29] fix: ObjectiveSE.logl left out the documented
 model.logp and logp_extra terms

---
 refellips/objectiveSE.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/refellips/objectiveSE.py b/refellips/objectiveSE.py
index a506acd..00c8838 100644
--- a/refellips/objectiveSE.py
+++ b/refellips/objectiveSE.py
@@ -426,7 +426,13 @@ class ObjectiveSE(BaseObjective):
         if np.isnan(logl).any():
             raise RuntimeError("ObjectiveSE.logl encountered a NaN.")
 
-        return -0.5 * np.sum(logl)
+        # add on extra 'potential' terms from the model.
+        extra_potential = self.model.logp()
+
+        if self.logp_extra is not None:
+            extra_potential += self.logp_extra(self.model, self.data)
+
+        return -0.5 * np.sum(logl) + extra_potential
 
     def logpost(self, pvals=None):
         """
-- 
2.43.0


From 634e657ce839d18a6c3f67522e5f458bd89fa6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:54 +0000
Subject: [PATCH 13/29] fix: StructureSE.slabs ignored solvation when
 micro-slicing without an explicit solvent

---
 refellips/structureSE.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/refellips/structureSE.py b/refellips/structureSE.py
index 407b914..d71ffae 100644
--- a/refellips/structureSE.py
+++ b/refellips/structureSE.py
@@ -838,7 +838,9 @@ class StructureSE(Structure):
             solv = solvent.complex(self.wavelength)
 
         if solv is None:
-            return slabs
+            # micro-slicing, solvated by the backing medium
+            backing = self.data[0 if self.reverse_structure else -1]
+            solv = complex(*backing.slabs(self)[-1, 1:3])
 
         vf = slabs[..., 4]
         N = slabs[..., 1] + slabs[..., 2] * 1j
-- 
2.43.0


From e7891c9428ddeaff7ecfef69e6513cd373c44df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:54 +0000
Subject: [PATCH 14/29] fix: copying a StructureSE dropped its orientation,
 contraction, wavelength and EMA settings

---
 refellips/structureSE.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/refellips/structureSE.py b/refellips/structureSE.py
index d71ffae..af30635 100644
--- a/refellips/structureSE.py
+++ b/refellips/structureSE.py
@@ -475,7 +475,15 @@ class StructureSE(Structure):
     sld_profile = None
 
     def __copy__(self):
-        s = StructureSE(name=self.name, solvent=self._solvent)
+        s = StructureSE(
+            name=self.name,
+            solvent=self._solvent,
+            reverse_structure=self.reverse_structure,
+            contract=self.contract,
+            wavelength=self.wavelength,
+            ema=self.ema,
+            depolarisation_factor=self.depolarisation_factor,
+        )
         s.data = self.data.copy()
         return s
 
-- 
2.43.0


From 2b1683b77d4616e05e4b074d8faf2b9cfbdd307e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:07 +0000
Subject: [PATCH 15/29] fix: bruggeman EMA chose the unphysical (gain) root for
 strongly absorbing materials

---
 refellips/structureSE.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/refellips/structureSE.py b/refellips/structureSE.py
index af30635..cbaf339 100644
--- a/refellips/structureSE.py
+++ b/refellips/structureSE.py
@@ -915,15 +915,17 @@ def overall_ri(ri_A, ri_B, vf_B=0.0, ema="linear", depolarisation_factor=1 / 3):
 
         with warnings.catch_warnings():
             warnings.filterwarnings("ignore", category=RuntimeWarning)
-            v = (
-                b
-                + np.sqrt(
-                    b**2
-                    - 4
-                    * (depolarisation_factor - 1)
-                    * (E_a * E_b * depolarisation_factor)
-                )
-            ) / (2 * (1 - depolarisation_factor))
+            root = np.sqrt(
+                b**2
+                - 4
+                * (depolarisation_factor - 1)
+                * (E_a * E_b * depolarisation_factor)
+            )
+            v = (b + root) / (2 * (1 - depolarisation_factor))
+            w = (b - root) / (2 * (1 - depolarisation_factor))
+            # if the media absorb then the physical solution is the one that
+            # doesn't have gain, that isn't always the principal square root.
+            v = np.where(np.imag(w) > np.imag(v), w, v)
             E_avg = np.where(np.isfinite(v), v, 0)
     else:
         raise RuntimeError("No other method of mixing is known")
-- 
2.43.0


From bcda578bc93c7948e5bd03b6c06e14d352066bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:07 +0000
Subject: [PATCH 16/29] fix: delta had the wrong sign for total internal
 reflection

---
 refellips/reflect_modelSE.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/refellips/reflect_modelSE.py b/refellips/reflect_modelSE.py
index cb1593f..b26d4d5 100644
--- a/refellips/reflect_modelSE.py
+++ b/refellips/reflect_modelSE.py
@@ -142,6 +142,11 @@ def coh_tmm(n_list, d_list, th_0, lam_vac):
     # (NLAYERS, NUMPNTS)
     th_list = arcsin(n_list[0] * np.sin(th_0[None, :]) / n_list[:, None])
 
+    # For total internal reflection from a non-absorbing medium arcsin gives the
+    # wave that grows away from the interface, we need the one that decays.
+    growing = np.imag(n_list[:, None] * np.cos(th_list)) < -100 * EPSILON
+    th_list = np.where(growing, np.pi - th_list, th_list)
+
     # kz is the z-component of (complex) angular wavevector for forward-moving
     # wave. Positive imaginary part means decaying.
     # kz_list.shape = (NLAYERS, NUMPOINTS)
-- 
2.43.0


From 8cce8c53bfce62b0869fc820faa29323952a0de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:07 +0000
Subject: [PATCH 17/29] fix: plot_structure left the structure it plotted
 un-reversed

---
 tools/plottools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/plottools.py b/tools/plottools.py
index 23f8e5d..11778e3 100644
--- a/tools/plottools.py
+++ b/tools/plottools.py
@@ -202,6 +202,7 @@ def plot_structure(
         colors = ["k"]
         alpha = 1
 
+    saved = structure.reverse_structure, structure.wavelength
     structure.reverse_structure = reverse_structure
 
     for wav, col in zip(wavelengths, colors):
@@ -210,7 +211,7 @@ def plot_structure(
             *structure.ri_profile(), color=col, alpha=alpha, label=f"{wav} nm"
         )
 
-    structure.reverse_structure = False
+    structure.reverse_structure, structure.wavelength = saved
 
     if plot_labels:
         ax.set(ylabel="Refractive index", xlabel="Distance from substrate (Å)")
-- 
2.43.0


From 8c2061379fa563282dcd01d36f9069cc910cc33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:12 +0000
Subject: [PATCH 18/29] fix: Delta_Psi_TMM zeroed the fronting extinction
 coefficient in the caller's array

---
 refellips/reflect_modelSE.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/refellips/reflect_modelSE.py b/refellips/reflect_modelSE.py
index b26d4d5..1c33d3c 100644
--- a/refellips/reflect_modelSE.py
+++ b/refellips/reflect_modelSE.py
@@ -276,8 +276,10 @@ def Delta_Psi_TMM(AOI, layers, wavelength, delta_offset, reflect_delta=False):
     AOI = np.asarray(AOI, np.float64)
     AOI = AOI * (np.pi / 180)
 
-    layers[0, 2] = 0  # infinate medium cannot have an extinction coeff
     RIs = layers[:, 1] + layers[:, 2] * 1j
+    # infinate medium cannot have an extinction coeff. Don't alter `layers`,
+    # the array may belong to the caller
+    RIs[0] = layers[0, 1]
     thicks = layers[:, 0] / 10  # Ang to nm
     thicks[0] = np.inf
     thicks[-1] = np.inf
-- 
2.43.0


From 3d36765672d04f6b621a41cb0a284ccebd8a4f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:15 +0000
Subject: [PATCH 19/29] fix: bruggeman EMA gave a refractive index of 0 for a
 depolarisation factor of 1

---
 refellips/structureSE.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/refellips/structureSE.py b/refellips/structureSE.py
index cbaf339..c107376 100644
--- a/refellips/structureSE.py
+++ b/refellips/structureSE.py
@@ -926,6 +926,9 @@ def overall_ri(ri_A, ri_B, vf_B=0.0, ema="linear", depolarisation_factor=1 / 3):
             # if the media absorb then the physical solution is the one that
             # doesn't have gain, that isn't always the principal square root.
             v = np.where(np.imag(w) > np.imag(v), w, v)
+            if depolarisation_factor == 1:
+                # the quadratic degenerates to a linear equation
+                v = E_a * E_b / (vf_B * E_a + (1 - vf_B) * E_b)
             E_avg = np.where(np.isfinite(v), v, 0)
     else:
         raise RuntimeError("No other method of mixing is known")
-- 
2.43.0


From cee1f499414f2e6367de933e17020511510e0a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:39 +0000
Subject: [PATCH 20/29] fix: open_M2000file dropped leading measurements when
 given a file-handle

---
 refellips/dataSE.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/refellips/dataSE.py b/refellips/dataSE.py
index ad361be..df32547 100644
--- a/refellips/dataSE.py
+++ b/refellips/dataSE.py
@@ -625,9 +625,12 @@ def open_M2000file(fname, take_every=1, dropdatapoints=1):
     metadata = {}
 
     with possibly_open_file(fname, mode="r") as file:
+        start = file.tell()
         file.readline()  # Skip the blank first line
         firstline = file.readline()[:-1]
         secondline = file.readline()[:-1]
+        # rewind, a file-handle `fname` is going to be read again
+        file.seek(start)
 
         if secondline == "nm":
             mode = "single"
-- 
2.43.0


From 058ea4a00de15f675f9b7049dc782a530c70e190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:40 +0000
Subject: [PATCH 21/29] fix: open_HORIBAfile failed when given a file-handle

---
 refellips/dataSE.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/refellips/dataSE.py b/refellips/dataSE.py
index df32547..01514d6 100644
--- a/refellips/dataSE.py
+++ b/refellips/dataSE.py
@@ -5,6 +5,7 @@ A basic representation of a 1D dataset
 """
 
 import copy
+import io
 import numpy as np
 import pandas as pd
 from refnx._lib import possibly_open_file
@@ -567,10 +568,9 @@ def open_HORIBAfile(
                     )  # append line to metadata entry
 
     data_df = pd.read_csv(
-        fname,
+        io.StringIO("".join(lines)),
         skiprows=linenodict["DATA"] + 1,
         nrows=len(metadata["DATA"]) - 1,
-        encoding="latin-1",
         delimiter=" ",
         usecols=["nm", "Psi", "Delta"],
     )
-- 
2.43.0


From 6a5ae28220a96242605e7d3b5367a6da2757338a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:05 +0000
Subject: [PATCH 22/29] fix: Tauc-Lorentz was NaN for broadenings between
 sqrt(2)*En and 2*En

---
 refellips/dispersion.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/refellips/dispersion.py b/refellips/dispersion.py
index 258a69f..cb37879 100644
--- a/refellips/dispersion.py
+++ b/refellips/dispersion.py
@@ -564,8 +564,9 @@ class TaucLorentz(ScattererSE):
         )
         a_atan = (energies**2 - Ei**2) * (Ei**2 + Eg**2) + Eg**2 * C**2
         alpha = np.sqrt(4 * Ei**2 - C**2)
-        gamma = np.sqrt(Ei**2 - C**2 / 2)
-        zeta4 = (energies**2 - gamma**2) ** 2 + 0.25 * alpha**2 * C**2
+        # gamma**2, can be negative for C > sqrt(2) * Ei
+        gamma2 = Ei**2 - C**2 / 2
+        zeta4 = (energies**2 - gamma2) ** 2 + 0.25 * alpha**2 * C**2
 
         e1 = (
             A
@@ -597,11 +598,11 @@ class TaucLorentz(ScattererSE):
             * A
             * Ei
             * Eg
-            * (energies**2 - gamma**2)
+            * (energies**2 - gamma2)
             / np.pi
             / zeta4
             / alpha
-            * (np.pi + 2 * np.arctan(2 * (gamma**2 - Eg**2) / alpha / C))
+            * (np.pi + 2 * np.arctan(2 * (gamma2 - Eg**2) / alpha / C))
         )
         e1 -= (
             A
-- 
2.43.0


From d99695b6a479fbb2add0096e0ffa28f1a9e7e8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:27 +0000
Subject: [PATCH 23/29] fix: Tauc-Lorentz was NaN at the bandgap energy

---
 refellips/dispersion.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/refellips/dispersion.py b/refellips/dispersion.py
index cb37879..4dd3537 100644
--- a/refellips/dispersion.py
+++ b/refellips/dispersion.py
@@ -567,6 +567,8 @@ class TaucLorentz(ScattererSE):
         # gamma**2, can be negative for C > sqrt(2) * Ei
         gamma2 = Ei**2 - C**2 / 2
         zeta4 = (energies**2 - gamma2) ** 2 + 0.25 * alpha**2 * C**2
+        # the logarithmic singularities at the bandgap cancel each other
+        dE = np.maximum(np.abs(energies - Eg), np.finfo(float).tiny)
 
         e1 = (
             A
@@ -612,7 +614,7 @@ class TaucLorentz(ScattererSE):
             / np.pi
             / zeta4
             / energies
-            * np.log(np.abs(energies - Eg) / (energies + Eg))
+            * np.log(dE / (energies + Eg))
         )
         e1 += (
             2
@@ -623,7 +625,7 @@ class TaucLorentz(ScattererSE):
             / np.pi
             / zeta4
             * np.log(
-                np.abs(energies - Eg)
+                dE
                 * (energies + Eg)
                 / np.sqrt((Ei**2 - Eg**2) ** 2 + Eg**2 * C**2)
             )
-- 
2.43.0


From 9e9d7c7cdb1e6c64d3f026130581ac1d1224ba3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:13 +0000
Subject: [PATCH 24/29] fix: ReflectModelSE truncated psi and delta to whole
 degrees for integer wavelengths and angles

---
 refellips/reflect_modelSE.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/refellips/reflect_modelSE.py b/refellips/reflect_modelSE.py
index 1c33d3c..d922f0b 100644
--- a/refellips/reflect_modelSE.py
+++ b/refellips/reflect_modelSE.py
@@ -381,7 +381,8 @@ class ReflectModelSE:
         if p is not None:
             self.parameters.pvals = np.array(p)
 
-        wavelength, aois = wavelength_aoi.T
+        # integer input would truncate psi and delta
+        wavelength, aois = np.asarray(wavelength_aoi, np.float64).T
         psi = np.zeros_like(wavelength)
         delta = np.zeros_like(wavelength)
 
-- 
2.43.0


From 53a9daa12c5b3aae34aa37d20749b15deedee6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:25 +0000
Subject: [PATCH 25/29] fix: bruggeman EMA picked the wrong root when rounding
 gave a transparent medium a tiny gain

---
 refellips/structureSE.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/refellips/structureSE.py b/refellips/structureSE.py
index c107376..e3bfc8d 100644
--- a/refellips/structureSE.py
+++ b/refellips/structureSE.py
@@ -925,7 +925,9 @@ def overall_ri(ri_A, ri_B, vf_B=0.0, ema="linear", depolarisation_factor=1 / 3):
             w = (b - root) / (2 * (1 - depolarisation_factor))
             # if the media absorb then the physical solution is the one that
             # doesn't have gain, that isn't always the principal square root.
-            v = np.where(np.imag(w) > np.imag(v), w, v)
+            # (differences due to rounding error aren't significant)
+            tol = 1e-12 * (np.abs(v) + np.abs(w))
+            v = np.where(np.imag(w) - np.imag(v) > tol, w, v)
             if depolarisation_factor == 1:
                 # the quadratic degenerates to a linear equation
                 v = E_a * E_b / (vf_B * E_a + (1 - vf_B) * E_b)
-- 
2.43.0


From a9ac2f2ea48b2f656f6813c3aeed57f8987da83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:16 +0000
Subject: [PATCH 26/29] fix: plot_ellipsdata drew the model in another
 dataset's delta convention

---
 tools/plottools.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/tools/plottools.py b/tools/plottools.py
index 11778e3..7c91697 100644
--- a/tools/plottools.py
+++ b/tools/plottools.py
@@ -69,6 +69,16 @@ def plot_ellipsdata(
         xaxis == "aoi" or xaxis == "wavelength"
     ), "xaxis must be 'aoi' or 'wavelength"
 
+    def calc(wavelength_aoi):
+        # the model can be shared with other datasets that have a different
+        # delta convention, use the convention of the data being plotted.
+        flip_delta = model._flip_delta
+        model._flip_delta = data._delta_flipped
+        try:
+            return model(wavelength_aoi)
+        finally:
+            model._flip_delta = flip_delta
+
     axt = ax.twinx()
 
     if xaxis == "aoi":
@@ -79,7 +89,7 @@ def plot_ellipsdata(
 
         if model is not None:
             for wav in unique_wavs:
-                psis, deltas = model(np.c_[np.ones_like(aois) * wav, aois])
+                psis, deltas = calc(np.c_[np.ones_like(aois) * wav, aois])
                 ax.plot(aois, psis, color="r")
                 axt.plot(aois, deltas, color="b")
 
@@ -93,7 +103,7 @@ def plot_ellipsdata(
 
         if model is not None:
             wavelength_aois = np.c_[wavs, data.aoi[0] * np.ones_like(wavs)]
-            psi, delta = model(wavelength_aois)
+            psi, delta = calc(wavelength_aois)
             ax.plot(wavs, psi, color="r")
             axt.plot(wavs, delta, color="b")
     #             for idx, wav in enumerate(np.unique(data.wavelength)):
-- 
2.43.0


From 54bec25108466cd80cae76b7ff8477b08934f4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:11 +0000
Subject: [PATCH 27/29] fix: interpolate dispersion tables that are not sorted
 by wavelength

---
 refellips/dispersion.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/refellips/dispersion.py b/refellips/dispersion.py
index 4dd3537..7e53ad0 100644
--- a/refellips/dispersion.py
+++ b/refellips/dispersion.py
@@ -97,6 +97,13 @@ class RI(ScattererSE):
             else:
                 raise TypeError("format not recognised")
 
+            if self._wav is not None:
+                # np.interp requires increasing wavelengths
+                order = np.argsort(self._wav, kind="stable")
+                self._wav = self._wav[order]
+                self._RI = np.asarray(self._RI)[order]
+                self._EC = np.asarray(self._EC)[order]
+
     @property
     def parameters(self):
         return Parameters(name=self.name)
-- 
2.43.0


From e41f4006a85f2924f4bddca903296d9f5f13a3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:21 +0000
Subject: [PATCH 28/29] fix: predictions were NaN for more than 20 opaque
 layers

---
 refellips/reflect_modelSE.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/refellips/reflect_modelSE.py b/refellips/reflect_modelSE.py
index d922f0b..73b40be 100644
--- a/refellips/reflect_modelSE.py
+++ b/refellips/reflect_modelSE.py
@@ -207,6 +207,7 @@ def coh_tmm(n_list, d_list, th_0, lam_vac):
         Mtilde01 = r_list[0] / t_list[0]
         Mtilde10 = Mtilde01
         Mtilde11 = Mtilde00
+        scale = 1.0
 
         # propagate characteristic matrices
         for i in range(0, num_layers - 2):
@@ -216,14 +217,19 @@ def coh_tmm(n_list, d_list, th_0, lam_vac):
             p10 = Mtilde10 * M_list00[i, :] + Mtilde11 * M_list10[i, :]
             p11 = Mtilde10 * M_list01[i, :] + Mtilde11 * M_list11[i, :]
 
-            Mtilde00 = p00
-            Mtilde01 = p01
-            Mtilde10 = p10
-            Mtilde11 = p11
+            # many opaque layers would overflow, which is avoided by taking out
+            # a common factor
+            factor = np.where(np.abs(p00) > 1e100, 1e-100, 1.0)
+            scale = scale * factor
+
+            Mtilde00 = p00 * factor
+            Mtilde01 = p01 * factor
+            Mtilde10 = p10 * factor
+            Mtilde11 = p11 * factor
 
         # Net complex transmission and reflection amplitudes
         r = Mtilde10 / Mtilde00
-        t = 1 / Mtilde00
+        t = scale / Mtilde00
         results[f"r_{pol}"] = r
         results[f"t_{pol}"] = t
 
-- 
2.43.0


From 9663a36f417fc62b44c78e1fdd9ee220518aa5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:55 +0000
Subject: [PATCH 29/29] fix: dispersion files with a single row could not be
 used

---
 refellips/dispersion.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/refellips/dispersion.py b/refellips/dispersion.py
index 7e53ad0..4292874 100644
--- a/refellips/dispersion.py
+++ b/refellips/dispersion.py
@@ -76,7 +76,11 @@ class RI(ScattererSE):
                     self.name = os.path.basename(dispersion).split(".")[0]
 
                 vals = np.loadtxt(
-                    dispersion, skiprows=1, delimiter=",", encoding="utf8"
+                    dispersion,
+                    skiprows=1,
+                    delimiter=",",
+                    encoding="utf8",
+                    ndmin=2,
                 ).T
                 self._wav = vals[0]
                 self._RI = vals[1]
-- 
2.43.0

