From 8015d62e4a0fd6c1962c554af4714f46dda726f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:26 +0000
Subject: [PATCH 01/26] fix: avoid integer overflow in peters_g for 32-bit
 harmonics

---
 src/legwork/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/legwork/utils.py b/src/legwork/utils.py
index cd4dac9..9e50f7d 100644
--- a/src/legwork/utils.py
+++ b/src/legwork/utils.py
@@ -58,7 +58,8 @@ def peters_g(n, e):
     bracket_2 = jv(n-2, n*e) - 2*jv(n, n*e) + jv(n+2, n*e)
     bracket_3 = jv(n, n*e)
 
-    g = n**4/32 * (bracket_1**2 + (1 - e**2) * bracket_2**2 + 4 / (3 * n**2) * bracket_3**2)
+    # use a float power since n**4 overflows 32-bit integers for n > 215
+    g = n**4.0/32 * (bracket_1**2 + (1 - e**2) * bracket_2**2 + 4 / (3 * n**2) * bracket_3**2)
 
     return g
 
-- 
2.43.0


From 0f4ae8ae67d4ad2a555330c3d067d240573a82b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:13 +0000
Subject: [PATCH 02/26] fix: allow scalar frequencies in the Huang+20 confusion
 noise (and so TianQin)

---
 src/legwork/psd.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/legwork/psd.py b/src/legwork/psd.py
index 40e44d8..e6f3309 100644
--- a/src/legwork/psd.py
+++ b/src/legwork/psd.py
@@ -423,10 +423,9 @@ def get_confusion_noise_huang20(f, t_obs=5 * u.yr):
         xi = x**i
         ai = coefficients[i][ind]
         confusion_noise += ai * xi
-    confusion_noise = 10**(confusion_noise) * u.Hz**(-1/2)
 
     # remove confusion noise outside of TianQin regime (fit doesn't apply outside of regime)
-    confusion_noise[np.logical_or(f < 1e-4, f > 1e0)] = 0.0 * u.Hz**(-1/2)
+    confusion_noise = np.where(np.logical_or(f < 1e-4, f > 1e0), 0.0, 10**confusion_noise) * u.Hz**(-1/2)
 
     # square the result as Huang+20 given the sensitivity not psd
     return confusion_noise**2
-- 
2.43.0


From d67e72ec2e5180a8da596e65a3cfc03835aff4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:40 +0000
Subject: [PATCH 03/26] fix: accept numpy integers as the harmonic in
 Source.get_h_0_n and get_h_c_n

---
 src/legwork/source.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 991edcc..3ace50d 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -753,7 +753,7 @@ class Source():
             which_sources = np.repeat(True, self.n_sources)
 
         # by default set all strains to zero
-        n_harmonics = len(harmonics) if not isinstance(harmonics, int) else 1
+        n_harmonics = np.size(harmonics)
         h_0_n = np.zeros((self.n_sources, n_harmonics))
 
         # find a mask for the inspiraling sources (exclude merged)
@@ -802,7 +802,7 @@ class Source():
             which_sources = np.repeat(True, self.n_sources)
 
         # by default set all strains to zero
-        n_harmonics = len(harmonics) if not isinstance(harmonics, int) else 1
+        n_harmonics = np.size(harmonics)
         h_c_n = np.zeros((self.n_sources, n_harmonics))
 
         # find a mask for the inspiralling sources (exclude merged)
-- 
2.43.0


From 4b377713e416881e28405015128bafc9d6f60746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:04 +0000
Subject: [PATCH 04/26] fix: keep the circular merger time when small_e_tol is
 zero

---
 src/legwork/evol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/legwork/evol.py b/src/legwork/evol.py
index 759114a..8e1f6bd 100644
--- a/src/legwork/evol.py
+++ b/src/legwork/evol.py
@@ -566,7 +566,7 @@ def get_t_merge_ecc(ecc_i, a_i=None, f_orb_i=None, beta=None, m_1=None, m_2=None
         circular = ecc_i == 0.0
         small_e = np.logical_and(ecc_i > 0.0, ecc_i < small_e_tol)
         large_e = ecc_i > large_e_tol
-        other_e = np.logical_and(ecc_i >= small_e_tol, ecc_i <= large_e_tol)
+        other_e = np.logical_and(np.logical_and(ecc_i > 0.0, ecc_i >= small_e_tol), ecc_i <= large_e_tol)
 
         # calculate c0 from Peters Eq. 5.11 (avoid circular binaries)
         c0 = np.zeros_like(a_i)
-- 
2.43.0


From 709f7c6ae778fc2ea80b50342cfc1ce606a8cd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:56 +0000
Subject: [PATCH 05/26] fix: evol_ecc no longer changes the timesteps array of
 the caller

---
 src/legwork/evol.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/legwork/evol.py b/src/legwork/evol.py
index 8e1f6bd..1538b5f 100644
--- a/src/legwork/evol.py
+++ b/src/legwork/evol.py
@@ -356,6 +356,8 @@ def evol_ecc(ecc_i, t_evol=None, n_step=100, timesteps=None, beta=None, m_1=None
     c_0 = utils.c_0(a_i=a_i, ecc_i=ecc_i)
     timesteps = create_timesteps_array(a_i=a_i, beta=beta, ecc_i=ecc_i,
                                        t_evol=t_evol, n_step=n_step, timesteps=timesteps)
+    # these may be changed below so don't use the array that the user supplied
+    timesteps = timesteps.copy()
 
     # if avoiding the merger during integration
     if avoid_merger:
-- 
2.43.0


From d9ad1033f3a65761053aa6451b9c00db4582e06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:56 +0000
Subject: [PATCH 06/26] fix: accept a single merger time for a single source in
 evol_ecc

---
 src/legwork/evol.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/legwork/evol.py b/src/legwork/evol.py
index 1538b5f..3bb5b9d 100644
--- a/src/legwork/evol.py
+++ b/src/legwork/evol.py
@@ -365,6 +365,8 @@ def evol_ecc(ecc_i, t_evol=None, n_step=100, timesteps=None, beta=None, m_1=None
             # calculate the merger time
             t_merge = get_t_merge_ecc(ecc_i=ecc_i, a_i=a_i,
                                       beta=beta, exact=exact_t_merge).to(u.Gyr)
+        else:
+            t_merge = np.atleast_1d(t_merge)
 
         # warn the user if they are evolving past the merger
         if np.any(timesteps > t_merge[:, np.newaxis]):      # pragma: no cover
-- 
2.43.0


From 28b11ee203d10d942ce47dcf5e71a115a29041fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:42 +0000
Subject: [PATCH 07/26] fix: keep an automatic observation time as stored in
 SNR calculations, 4 years for DECIGO

---
 src/legwork/source.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 3ace50d..861fb75 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -720,8 +720,7 @@ class Source():
             stat_mask = np.repeat(True, self.n_sources)
         elif stationary is True or stationary is False:
             t_obs = self.sc_params["t_obs"] if t_obs is None else t_obs
-            if t_obs == "auto":
-                t_obs = 4 * u.yr if self.sc_params["instrument"] == "LISA" else 5 * u.yr
+            t_obs = _resolve_t_obs(t_obs, self.sc_params["instrument"])
             stat_mask = evol.determine_stationarity(m_c=self.m_c, f_orb_i=self.f_orb, t_evol=t_obs,
                                                     ecc_i=self.ecc, stat_tol=self.stat_tol)
             if stationary is False:
@@ -981,8 +980,6 @@ class Source():
 
         instrument = self.sc_params["instrument"] if instrument is None else instrument
         t_obs = self.sc_params["t_obs"] if t_obs is None else t_obs
-        if t_obs == "auto":
-            t_obs = 4 * u.yr if instrument == "LISA" else 5 * u.yr
         custom_psd = self.sc_params["custom_psd"] if custom_psd is None else custom_psd
         L = self.sc_params["L"] if L is None else L
         approximate_R = self.sc_params["approximate_R"] if approximate_R is None else approximate_R
@@ -992,6 +989,7 @@ class Source():
         self.sc_params.update({"t_obs": t_obs, "instrument": instrument, "custom_psd": custom_psd,
                                "L": L, "approximate_R": approximate_R,
                                "confusion_noise": confusion_noise})
+        t_obs = _resolve_t_obs(t_obs, instrument)
 
         insp_sources = np.logical_and(which_sources, np.logical_not(self.merged))
         snr = np.zeros(self.n_sources)
@@ -1111,8 +1109,6 @@ class Source():
 
         instrument = self.sc_params["instrument"] if instrument is None else instrument
         t_obs = self.sc_params["t_obs"] if t_obs is None else t_obs
-        if t_obs == "auto":
-            t_obs = 4 * u.yr if instrument == "LISA" else 5 * u.yr
         custom_psd = self.sc_params["custom_psd"] if custom_psd is None else custom_psd
         L = self.sc_params["L"] if L is None else L
         approximate_R = self.sc_params["approximate_R"] if approximate_R is None else approximate_R
@@ -1122,6 +1118,7 @@ class Source():
         self.sc_params.update({"t_obs": t_obs, "instrument": instrument, "custom_psd": custom_psd,
                                "L": L, "approximate_R": approximate_R,
                                "confusion_noise": confusion_noise})
+        t_obs = _resolve_t_obs(t_obs, instrument)
 
         insp_sources = np.logical_and(which_sources, np.logical_not(self.merged))
         e_mask = np.logical_and(self.ecc > self.ecc_tol, insp_sources)
@@ -1646,6 +1643,13 @@ class VerificationBinaries(Source):
         return "<VerificationBinaries | Kupfer+2018>"
 
 
+def _resolve_t_obs(t_obs, instrument):
+    """Convert an automatic observation time to the default for the instrument (same as in the PSDs)"""
+    if isinstance(t_obs, str) and t_obs == "auto":
+        return 4 * u.yr if instrument in ["LISA", "DECIGO"] else 5 * u.yr
+    return t_obs
+
+
 def _write_dataset(group, name, value):
     """Write ``value`` to ``group`` as a dataset called ``name``, recording any units as an attribute.
     Anything that is ``None`` is simply not written to the file."""
-- 
2.43.0


From 17a184bdec19199299f584ae26d4c81b8a0e5dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:14 +0000
Subject: [PATCH 08/26] fix: generate missing inclinations and polarisations
 for a single (scalar) source

---
 src/legwork/source.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 861fb75..02f6962 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -151,11 +151,11 @@ class Source():
             if inclination is None:
                 logger.info("Generating random values for source inclinations")
                 # inclination is sampled uniformly in cos(i) to get a range of [0, pi/2]
-                inclination = np.arccos(np.random.uniform(0, 1, len(m_1))) * u.rad
+                inclination = np.arccos(np.random.uniform(0, 1, np.size(m_1))) * u.rad
             if polarisation is None:
                 logger.info("Generating random values for source polarisations")
                 # polarisation is sampled from 0 to pi following Flanagan & Hughes 1998 (e.g. Eq. 2.34)
-                polarisation = np.random.uniform(0, np.pi, len(m_1)) * u.rad
+                polarisation = np.random.uniform(0, np.pi, np.size(m_1)) * u.rad
 
         # ensure position is in the correct coordinate frame
         if position is not None:
-- 
2.43.0


From 132f21bc25081b8947fd4df47f23c7a7f7e0e006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:14 +0000
Subject: [PATCH 09/26] fix: count eccentric (not circular) evolving sources in
 the second plotting warning

---
 src/legwork/source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 02f6962..ec0456c 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -1503,7 +1503,7 @@ class Source():
             logger.warning("{} circular and evolving sources detected, plotting not yet implemented "
                            "for evolving sources.".format(len(circ_evol[circ_evol])))
 
-        ecc_evol = self.get_source_mask(circular=True, stationary=False)
+        ecc_evol = self.get_source_mask(circular=False, stationary=False)
         ecc_evol = np.logical_and.reduce((ecc_evol, detectable, inspiraling))
         if ecc_evol.any():
             logger.warning("{} eccentric and evolving sources detected, plotting not yet implemented "
-- 
2.43.0


From f0eee0d811592878d6b7e22df031a70517e95b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:14 +0000
Subject: [PATCH 10/26] fix: keep the weights and interpolation choice when
 evolving sources into a new class

---
 src/legwork/source.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index ec0456c..07e7a56 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -1288,12 +1288,12 @@ class Source():
             evolved_sources = Source(m_1=self.m_1, m_2=self.m_2, ecc=ecc_evol, dist=self.dist,
                                      n_proc=self.n_proc, f_orb=f_orb_evol, position=self.position,
                                      polarisation=self.polarisation, inclination=self.inclination,
-                                     gw_lum_tol=self.gw_lum_tol, stat_tol=self.stat_tol,
+                                     weights=self.weights, gw_lum_tol=self.gw_lum_tol, stat_tol=self.stat_tol,
                                      interpolate_g=False, interpolate_sc=False, sc_params=self.sc_params)
 
             # copy over interpolated g and sc
             evolved_sources.g = self.g
-            evolved_sources.interpolate_sc = True
+            evolved_sources.interpolate_sc = self.interpolate_sc
             evolved_sources.sc = self.sc
             evolved_sources.t_merge = None
 
-- 
2.43.0


From b78b001d66a6111b39c7da0ad660d9ace1b0e055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:14 +0000
Subject: [PATCH 11/26] fix: undo a change of the sensitivity curve params when
 the curve can't be made

---
 src/legwork/source.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 07e7a56..63b34a6 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -683,7 +683,12 @@ class Source():
         changed = current_params is None or new_params != current_params
         self._sc_params = new_params
         if changed:
-            self.set_sc()
+            try:
+                self.set_sc()
+            except Exception:
+                # keep the previous params, since these still match the curve
+                self._sc_params = current_params
+                raise
 
     def get_source_mask(self, circular=None, stationary=None, t_obs=None):
         """Produce a mask of the sources.
@@ -1553,26 +1558,33 @@ class SensitivityCurveParams(dict):
                 ', '.join(["`{}`".format(key) for key in unknown_keys]),
                 ', '.join(["`{}`".format(key) for key in DEFAULT_SC_PARAMS])))
 
-    def _re_interpolate(self):
-        """Re-interpolate the sensitivity curve of the class that these parameters belong to"""
+    def _re_interpolate(self, old_params):
+        """Re-interpolate the sensitivity curve of the class that these parameters belong to. If that isn't
+        possible then the change is undone, so that the parameters still match the curve."""
         if self._source is not None:
-            self._source.set_sc()
+            try:
+                self._source.set_sc()
+            except Exception:
+                super().update(old_params)
+                raise
 
     def __setitem__(self, key, value):
         self._check_keys([key])
+        old_params = dict(self)
         changed = self.get(key) != value
         super().__setitem__(key, value)
         if changed:
-            self._re_interpolate()
+            self._re_interpolate(old_params)
 
     def update(self, *args, **kwargs):
         """Change several parameters at once, only re-interpolating the sensitivity curve once"""
         new_params = dict(*args, **kwargs)
         self._check_keys(new_params)
+        old_params = dict(self)
         changed = any(self.get(key) != value for key, value in new_params.items())
         super().update(new_params)
         if changed:
-            self._re_interpolate()
+            self._re_interpolate(old_params)
 
     def __copy__(self):
         """Copy the parameters without triggering any re-interpolation"""
-- 
2.43.0


From 7378a0058f6dead9a3abc7a816c4b6cf237bc181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:14 +0000
Subject: [PATCH 12/26] fix: check keys and re-interpolate for |= and
 setdefault on the sensitivity curve params

---
 src/legwork/source.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 63b34a6..ba39226 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -1586,6 +1586,15 @@ class SensitivityCurveParams(dict):
         if changed:
             self._re_interpolate(old_params)
 
+    def __ior__(self, other):
+        self.update(other)
+        return self
+
+    def setdefault(self, key, default=None):
+        """Get a parameter (they're always all present, so the default is never needed)"""
+        self._check_keys([key])
+        return self[key]
+
     def __copy__(self):
         """Copy the parameters without triggering any re-interpolation"""
         return SensitivityCurveParams(dict(self), source=self._source)
-- 
2.43.0


From 25aaaa0af5cd3334d0d3d427d7449f7fba08c8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:14 +0000
Subject: [PATCH 13/26] fix: load sources with an interpolated custom
 instrument

---
 src/legwork/source.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index ba39226..5cf2975 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -476,7 +476,12 @@ class Source():
 
             sources = klass(n_proc=int(n_proc), gw_lum_tol=float(file.attrs["gw_lum_tol"]),
                             stat_tol=float(file.attrs["stat_tol"]), interpolate_g=bool(interpolate_g),
-                            interpolate_sc=bool(interpolate_sc), sc_params=sc_params, **kwargs)
+                            interpolate_sc=False, sc_params=sc_params, **kwargs)
+
+            # interpolate the sensitivity curve (unless it needs a custom function that the user must supply)
+            sources.interpolate_sc = bool(interpolate_sc)
+            if not (sources.sc_params["instrument"] == "custom" and sources.sc_params["custom_psd"] is None):
+                sources.set_sc()
 
             # add back anything that had already been calculated when the sources were saved
             for name in _NOT_KWARG_ATTRS:
-- 
2.43.0


From 9a4ad044edc0e634ed987a6d50d174c8f1fbdd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:52 +0000
Subject: [PATCH 14/26] fix: don't share arrays between sources and the class
 they are evolved into

---
 src/legwork/source.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 5cf2975..a9f070d 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -1294,11 +1294,12 @@ class Source():
             f_orb_evol[e_mask] = evolution[1][:, -1]
 
         if create_new_class:
-            # create new source with same attributes (but evolved ecc/f_orb)
-            evolved_sources = Source(m_1=self.m_1, m_2=self.m_2, ecc=ecc_evol, dist=self.dist,
-                                     n_proc=self.n_proc, f_orb=f_orb_evol, position=self.position,
-                                     polarisation=self.polarisation, inclination=self.inclination,
-                                     weights=self.weights, gw_lum_tol=self.gw_lum_tol, stat_tol=self.stat_tol,
+            # create new source with copies of the same attributes (but evolved ecc/f_orb)
+            evolved_sources = Source(m_1=copy(self.m_1), m_2=copy(self.m_2), ecc=ecc_evol,
+                                     dist=copy(self.dist), n_proc=self.n_proc, f_orb=f_orb_evol,
+                                     position=self.position, polarisation=copy(self.polarisation),
+                                     inclination=copy(self.inclination), weights=copy(self.weights),
+                                     gw_lum_tol=self.gw_lum_tol, stat_tol=self.stat_tol,
                                      interpolate_g=False, interpolate_sc=False, sc_params=self.sc_params)
 
             # copy over interpolated g and sc
-- 
2.43.0


From d1bc17f9a0eaa5349e3ce4e151acab7ef9b32cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:52 +0000
Subject: [PATCH 15/26] fix: accept a single evolution time of any precision in
 evolve_sources

---
 src/legwork/source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index a9f070d..34d14dd 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -1261,7 +1261,7 @@ class Source():
         e_mask = np.logical_and(self.ecc != 0.0, np.logical_not(merged))
 
         # split up the evolution times if need be
-        if isinstance(t_evol.value, (int, float)):
+        if t_evol.isscalar:
             t_evol_circ = t_evol
             t_evol_ecc = t_evol
         else:
-- 
2.43.0


From ee10059e6038d725a743bfaa5c31097c4cc3546f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:24 +0000
Subject: [PATCH 16/26] fix: find the eccentric transition for large luminosity
 tolerances

---
 src/legwork/source.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 34d14dd..d436562 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -584,8 +584,8 @@ class Source():
         """Find the eccentricity at which we must treat binaries at eccentric. We define this as the maximum
         eccentricity at which the n=2 harmonic is the total GW luminosity given the tolerance
         ``self.gw_lum_tol``. Store the result in ``self._ecc_tol``"""
-        # only need to check lower eccentricities
-        e_range = np.linspace(0.0, 0.2, 10000)
+        # check lower eccentricities with a fine grid (higher ones are only needed for very large tolerances)
+        e_range = np.concatenate((np.linspace(0.0, 0.2, 10000), np.linspace(0.2, 1.0, 10000)[1:-1]))
 
         # find first e where n=2 harmonic is below tolerance
         circular_lum = utils.peters_g(2, e_range)
-- 
2.43.0


From 5a3c920c111eff1290fbb04697055466535b9de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:24 +0000
Subject: [PATCH 17/26] fix: check the lengths of the weights, positions,
 inclinations and polarisations

---
 src/legwork/source.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index d436562..83c2cae 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -189,6 +189,8 @@ class Source():
 
         # ensure all array arguments are the same length
         array_args = [m_1, m_2, dist, f_orb, ecc]
+        array_args += [arg for arg in (weights, position, inclination, polarisation)
+                       if arg is not None]
         length_check = np.array([len(arg) != len(array_args[0])
                                  for arg in array_args])
         if length_check.any():
-- 
2.43.0


From 0cc1636410bf45a14d9ca18dd9b3cabe0007dfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:52 +0000
Subject: [PATCH 18/26] fix: keep sensitivity curve params and curve consistent
 when quantities are changed in place

---
 src/legwork/source.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 83c2cae..9268ad4 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -1554,8 +1554,16 @@ class SensitivityCurveParams(dict):
         if params is not None:
             self._check_keys(params)
             filled_params.update(params)
-        super().__init__(filled_params)
+        super().__init__(self._own(filled_params))
         self._source = source
+        # the values that the curve is made for (since quantities can be changed in place, e.g. with `*=`)
+        self._made_for = self._own(self)
+
+    @staticmethod
+    def _own(params):
+        """Copy parameters, including any quantities such that they aren't shared with anything else"""
+        return {key: value.copy() if isinstance(value, u.Quantity) else value
+                for key, value in params.items()}
 
     @staticmethod
     def _check_keys(params):
@@ -1573,23 +1581,24 @@ class SensitivityCurveParams(dict):
             try:
                 self._source.set_sc()
             except Exception:
-                super().update(old_params)
+                super().update(self._own(old_params))
                 raise
+        self._made_for = self._own(self)
 
     def __setitem__(self, key, value):
         self._check_keys([key])
-        old_params = dict(self)
-        changed = self.get(key) != value
-        super().__setitem__(key, value)
+        old_params = dict(self._made_for)
+        changed = old_params[key] != value
+        super().__setitem__(key, self._own({key: value})[key])
         if changed:
             self._re_interpolate(old_params)
 
     def update(self, *args, **kwargs):
         """Change several parameters at once, only re-interpolating the sensitivity curve once"""
-        new_params = dict(*args, **kwargs)
+        new_params = self._own(dict(*args, **kwargs))
         self._check_keys(new_params)
-        old_params = dict(self)
-        changed = any(self.get(key) != value for key, value in new_params.items())
+        old_params = dict(self._made_for)
+        changed = any(old_params[key] != value for key, value in new_params.items())
         super().update(new_params)
         if changed:
             self._re_interpolate(old_params)
-- 
2.43.0


From 92cbec465a6ce6e18f410bc6ec905d64cf35ad79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:41 +0000
Subject: [PATCH 19/26] fix: give zero instead of NaN for the Robson+19
 confusion noise far above the knee

---
 src/legwork/psd.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/legwork/psd.py b/src/legwork/psd.py
index e6f3309..cba6de4 100644
--- a/src/legwork/psd.py
+++ b/src/legwork/psd.py
@@ -372,10 +372,12 @@ def get_confusion_noise_robson19(f, t_obs=4 * u.yr):
     # find index of the closest length to inputted observation time
     ind = np.abs(t_obs - lengths).argmin()
 
-    confusion_noise = 9e-45 * f**(-7 / 3.) * np.exp(-f**(alpha[ind]) + beta[ind]
-                                                    * f * np.sin(kappa[ind] * f))\
-        * (1 + np.tanh(gamma[ind] * (fk[ind] - f))) * u.Hz**(-1)
-    return confusion_noise
+    # the cutoff is exactly 0 far above the knee, where the exponential can overflow
+    cutoff = 1 + np.tanh(gamma[ind] * (fk[ind] - f))
+    with np.errstate(over="ignore", invalid="ignore"):
+        confusion_noise = 9e-45 * f**(-7 / 3.) * np.exp(-f**(alpha[ind]) + beta[ind]
+                                                        * f * np.sin(kappa[ind] * f)) * cutoff
+    return np.where(cutoff > 0, confusion_noise, 0.0) * u.Hz**(-1)
 
 
 def get_confusion_noise_huang20(f, t_obs=5 * u.yr):
-- 
2.43.0


From ff0bcdd365815c2249690166819f648036991efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:12 +0000
Subject: [PATCH 20/26] fix: missing units of a mass or separation raise
 AssertionError when constructing from a

---
 src/legwork/source.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 9268ad4..0c9d767 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -172,17 +172,17 @@ class Source():
                                                                 polarisation, inclination)
             position = SkyCoord(lon=lon, lat=lat, distance=dist, frame='barycentrictrueecliptic')
 
-        # calculate the orbital frequency if it wasn't supplied
-        f_orb = utils.get_f_orb_from_a(a, m_1, m_2) if f_orb is None else f_orb
-
         # define which arguments must have units
-        unit_args = [m_1, m_2, dist, f_orb]
-        unit_args_str = ['m_1', 'm_2', 'dist', 'f_orb']
+        unit_args = [m_1, m_2, dist, a if f_orb is None else f_orb]
+        unit_args_str = ['m_1', 'm_2', 'dist', 'a' if f_orb is None else 'f_orb']
 
         for i in range(len(unit_args)):
             assert (isinstance(unit_args[i], u.quantity.Quantity)), \
                 "`{}` must have units".format(unit_args_str[i])
 
+        # calculate the orbital frequency if it wasn't supplied
+        f_orb = utils.get_f_orb_from_a(a, m_1, m_2) if f_orb is None else f_orb
+
         # make sure the inputs are arrays
         fixed_args, _ = utils.ensure_array(m_1, m_2, dist, f_orb, ecc, weights)
         m_1, m_2, dist, f_orb, ecc, weights = fixed_args
-- 
2.43.0


From 7efc01af141e307542bb3c297a3a1af591224d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:39 +0000
Subject: [PATCH 21/26] fix: weighted histograms failed to choose their bins

---
 src/legwork/visualisation.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/legwork/visualisation.py b/src/legwork/visualisation.py
index 9b52cc4..66308e4 100644
--- a/src/legwork/visualisation.py
+++ b/src/legwork/visualisation.py
@@ -141,6 +141,13 @@ def plot_1D_dist(x, weights=None, disttype="hist", log_scale=False, fig=None, ax
 
                 # apply log to variable
                 x = np.log10(x)
+
+            # bins can't be chosen automatically for weighted data so use the unweighted values instead
+            if weights is not None and isinstance(plot_args["bins"], str):
+                has_units = isinstance(x, u.quantity.Quantity)
+                bins = np.histogram_bin_edges(x.value if has_units else x, bins=plot_args["bins"],
+                                              range=plot_args.get("range", None))
+                plot_args["bins"] = bins * x.unit if has_units else bins
             ax.hist(x, weights=weights, color=color, **plot_args)
         elif disttype == "kde":
             sns.kdeplot(x=x, weights=weights, ax=ax, color=color, log_scale=log_scale, **plot_args)
-- 
2.43.0


From e48035fe3523c8366905451f8042ded69970bbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:39 +0000
Subject: [PATCH 22/26] fix: sensitivity curve labelled in Hz was drawn in the
 unit of the frequency range

---
 src/legwork/visualisation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/legwork/visualisation.py b/src/legwork/visualisation.py
index 66308e4..46b9abc 100644
--- a/src/legwork/visualisation.py
+++ b/src/legwork/visualisation.py
@@ -366,6 +366,9 @@ def plot_sensitivity_curve(frequency_range=None, y_quantity="ASD", fig=None, ax=
     if frequency_range is None:
         frequency_range = np.logspace(-5, 0, 1000) * u.Hz
 
+    # the axes are labelled in Hz
+    frequency_range = frequency_range.to(u.Hz)
+
     if fig is None or ax is None:
         fig, ax = plt.subplots(figsize=figsize)
 
-- 
2.43.0


From 58df0e091335cc2c59fbb2e415257e1fd77b6461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:06 +0000
Subject: [PATCH 23/26] fix: use the approximate response when the response
 function file is missing

---
 src/legwork/psd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/legwork/psd.py b/src/legwork/psd.py
index cba6de4..582e0a0 100644
--- a/src/legwork/psd.py
+++ b/src/legwork/psd.py
@@ -38,7 +38,7 @@ def load_response_function(f, fstar=19.09e-3):
     # try to load the values for interpolating R
     try:
         f_R, R = np.load(os.path.join(resources.files("legwork"),"R.npy"), allow_pickle=True)
-    except FileExistsError:  # pragma: no cover
+    except FileNotFoundError:  # pragma: no cover
         logger.warning("Can't find response function file, using approximation instead")
         return approximate_response_function(f, fstar)
 
-- 
2.43.0


From 6ff84cd3f3ed27e389c7e1f264f3bae2e43a92d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:58 +0000
Subject: [PATCH 24/26] fix: peters_g and fn_dot overflowed for small and
 unsigned integer harmonics

---
 src/legwork/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/legwork/utils.py b/src/legwork/utils.py
index 9e50f7d..e0b7f4e 100644
--- a/src/legwork/utils.py
+++ b/src/legwork/utils.py
@@ -54,6 +54,8 @@ def peters_g(n, e):
         g(n, e) from Peters and Mathews (1963) Eq. 20
     """
 
+    # small or unsigned integers overflow below (e.g. n - 2 for n = 1, or 3 * n**2)
+    n = 1.0 * n
     bracket_1 = jv(n-2, n*e) - 2*e*jv(n-1, n*e) + 2/n*jv(n, n*e) + 2*e*jv(n+1, n*e) - jv(n+2, n*e)
     bracket_2 = jv(n-2, n*e) - 2*jv(n, n*e) + jv(n+2, n*e)
     bracket_3 = jv(n, n*e)
@@ -257,7 +259,7 @@ def fn_dot(m_c, f_orb, e, n):
     if np.any(n < 1):
         raise ValueError("All harmonics must be greater than or equal to 1")
 
-    fn_dot = (48 * n) / (5 * np.pi) * (c.G * m_c)**(5/3) / c.c**5 * (2 * np.pi * f_orb)**(11/3) * peters_f(e)
+    fn_dot = (48.0 * n) / (5 * np.pi) * (c.G * m_c)**(5/3) / c.c**5 * (2 * np.pi * f_orb)**(11/3) * peters_f(e)
 
     # simplify units if present
     if isinstance(fn_dot, u.quantity.Quantity):
-- 
2.43.0


From 997736948926d15cf56aaa31d5fd0dc26b97512b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:58 +0000
Subject: [PATCH 25/26] fix: chirp_mass overflowed for integer masses without
 units

---
 src/legwork/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/legwork/utils.py b/src/legwork/utils.py
index e0b7f4e..1cec256 100644
--- a/src/legwork/utils.py
+++ b/src/legwork/utils.py
@@ -26,6 +26,8 @@ def chirp_mass(m_1, m_2):
     m_c : `float/array`
         Chirp mass
     """
+    # products of integer masses without units can overflow
+    m_1, m_2 = 1.0 * m_1, 1.0 * m_2
     m_c = (m_1 * m_2)**(3/5) / (m_1 + m_2)**(1/5)
 
     # simplify units if present
-- 
2.43.0


From a3da0251e1bf2f43b61159034613da5be80e6fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:58 +0000
Subject: [PATCH 26/26] fix: get_t_merge_ecc raised TypeError for a list of
 eccentricities

---
 src/legwork/evol.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/legwork/evol.py b/src/legwork/evol.py
index 3bb5b9d..9e95f5f 100644
--- a/src/legwork/evol.py
+++ b/src/legwork/evol.py
@@ -555,6 +555,9 @@ def get_t_merge_ecc(ecc_i, a_i=None, f_orb_i=None, beta=None, m_1=None, m_2=None
     """
     beta, a_i = check_mass_freq_input(beta=beta, m_1=m_1, m_2=m_2, a_i=a_i, f_orb_i=f_orb_i)
 
+    # lists can't be compared elementwise
+    ecc_i = np.asarray(ecc_i) if isinstance(ecc_i, list) else ecc_i
+
     # shortcut if all binaries are circular
     if np.all(ecc_i == 0.0):
         return get_t_merge_circ(beta=beta, a_i=a_i)
-- 
2.43.0

