From 0275b2562154f6668d6689271e620d34a4aa78bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:52 +0000
Subject: [PATCH 01/32] fix: missing attributes of Scenario and Coefficients
 raise AttributeError

They raised KeyError, so hasattr() and getattr() with a default failed, and
copy.deepcopy() and pickle.loads() of a scenario (or a model) could not work.
---
 src/pygmm/model.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pygmm/model.py b/src/pygmm/model.py
index b1ac2c9..1e54738 100644
--- a/src/pygmm/model.py
+++ b/src/pygmm/model.py
@@ -126,6 +126,9 @@ class Scenario(collections.UserDict):
 
     def __getattr__(self, item):
         """Access the data with attributes."""
+        # "data" itself is missing while an instance is being copied or unpickled
+        if item == "data" or item not in self.data:
+            raise AttributeError(item)
         return self.data[item]
 
     def __repr__(self):
@@ -548,7 +551,10 @@ class Coefficients(collections.abc.Mapping):
         return self._data[key]
 
     def __getattr__(self, key):
-        return self.__getitem__(key)
+        # "_data" itself is missing while an instance is being copied or unpickled
+        if key == "_data" or key not in self._data:
+            raise AttributeError(key)
+        return self._data[key]
 
     def __len__(self):
         return len(self._data)
-- 
2.43.0


From a1d6c656ebf30e7af7482aedc250a2712cb2cdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:56 +0000
Subject: [PATCH 02/32] fix: report the recommended limit in the out-of-range
 warnings

The message read "limit ({self.min})" literally.
---
 src/pygmm/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pygmm/model.py b/src/pygmm/model.py
index 1e54738..371d84c 100644
--- a/src/pygmm/model.py
+++ b/src/pygmm/model.py
@@ -460,14 +460,14 @@ class NumericParameter(Parameter):
             if self.min is not None and value < self.min:
                 warnings.warn(
                     f"{self.name} ({value}) "
-                    "is less than the recommended limit ({self.min}).",
+                    f"is less than the recommended limit ({self.min}).",
                     UserWarning,
                     stacklevel=2,
                 )
             elif self.max is not None and self.max < value:
                 warnings.warn(
                     f"{self.name} ({value}) "
-                    "is greater than the recommended limit ({self.max}).",
+                    f"is greater than the recommended limit ({self.max}).",
                     UserWarning,
                     stacklevel=2,
                 )
-- 
2.43.0


From 88f3621dc9dac69083c94667c73d7d871214ea1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:59 +0000
Subject: [PATCH 03/32] fix: use the anelastic attenuation of China in CB14

The region was compared with a list, so "china" silently used California.
---
 src/pygmm/campbell_bozorgnia_2014.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygmm/campbell_bozorgnia_2014.py b/src/pygmm/campbell_bozorgnia_2014.py
index a2a5868..8caf34b 100644
--- a/src/pygmm/campbell_bozorgnia_2014.py
+++ b/src/pygmm/campbell_bozorgnia_2014.py
@@ -188,7 +188,7 @@ class CampbellBozorgnia2014(model.GroundMotionModel):
         # Anaelastic attenuation term
         if s.region in ["japan", "italy"]:
             dc_20 = c.dc_20jp
-        elif s.region == ["china"]:
+        elif s.region == "china":
             dc_20 = c.dc_20ch
         else:
             dc_20 = c.dc_20ca
-- 
2.43.0


From 8af6a058390d5ffc3d961b8b5097ed35e960444d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:03 +0000
Subject: [PATCH 04/32] fix: store the estimated CB14 parameters in the
 scenario

They were set as attributes, so model.scenario["depth_tor"] etc. stayed None
and a scenario copied from the model kept stale estimates.
---
 src/pygmm/campbell_bozorgnia_2014.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pygmm/campbell_bozorgnia_2014.py b/src/pygmm/campbell_bozorgnia_2014.py
index 8caf34b..a1a29bf 100644
--- a/src/pygmm/campbell_bozorgnia_2014.py
+++ b/src/pygmm/campbell_bozorgnia_2014.py
@@ -77,21 +77,21 @@ class CampbellBozorgnia2014(model.GroundMotionModel):
                     mech,
                 )
         if s.depth_2_5 is None:
-            s.depth_2_5 = self.calc_depth_2_5(s.v_s30, s.region, s.depth_1_0)
+            s["depth_2_5"] = self.calc_depth_2_5(s.v_s30, s.region, s.depth_1_0)
 
         if s.depth_tor is None:
-            s.depth_tor = CY14.calc_depth_tor(s.mag, s.mechanism)
+            s["depth_tor"] = CY14.calc_depth_tor(s.mag, s.mechanism)
 
         if s.width is None:
-            s.width = CampbellBozorgnia2014.calc_width(
+            s["width"] = CampbellBozorgnia2014.calc_width(
                 s.mag, s.dip, s.depth_tor, s.depth_bot
             )
 
         if s.depth_bor is None:
-            s.depth_bor = self.calc_depth_bor(s.depth_tor, s.dip, s.width)
+            s["depth_bor"] = self.calc_depth_bor(s.depth_tor, s.dip, s.width)
 
         if s.depth_hyp is None:
-            s.depth_hyp = CampbellBozorgnia2014.calc_depth_hyp(
+            s["depth_hyp"] = CampbellBozorgnia2014.calc_depth_hyp(
                 s.mag, s.dip, s.depth_tor, s.depth_bor
             )
 
-- 
2.43.0


From 59325b5e4fa013a8ec5256ee5a21f26999f3f790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 05/32] fix: use the basin model of the region in BSSA14

depth_1_0 was passed as the region, so the Japanese basin model was never used.
---
 src/pygmm/boore_stewart_seyhan_atkinson_2014.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/pygmm/boore_stewart_seyhan_atkinson_2014.py b/src/pygmm/boore_stewart_seyhan_atkinson_2014.py
index b98a311..d3e53ff 100644
--- a/src/pygmm/boore_stewart_seyhan_atkinson_2014.py
+++ b/src/pygmm/boore_stewart_seyhan_atkinson_2014.py
@@ -204,9 +204,7 @@ class BooreStewartSeyhanAtkinson2014(model.GroundMotionModel):
             site = 0
         else:
             # Compute the site term
-            site = self.calc_site_term(
-                pga_ref, s.v_s30, s.depth_1_0, s.get("depth_1_0", None)
-            )
+            site = self.calc_site_term(pga_ref, s.v_s30, s.depth_1_0, s.region)
 
         ln_resp = event + path + site
         return ln_resp
-- 
2.43.0


From 79b5f7cb8539ad878bd75df128190c17f226c6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:55 +0000
Subject: [PATCH 06/32] fix: apply the Arias intensity increment only once in
 AS96 interp

interp() added the increment of 0.75 on top of the requested one, so
interp(0.75) differed from duration and all values were 0.86% above the
reference.
---
 src/pygmm/abrahamson_silva_1996.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pygmm/abrahamson_silva_1996.py b/src/pygmm/abrahamson_silva_1996.py
index 30fcd7c..0ad1bef 100644
--- a/src/pygmm/abrahamson_silva_1996.py
+++ b/src/pygmm/abrahamson_silva_1996.py
@@ -39,12 +39,12 @@ class AbrahamsonSilva1996(model.Model):
             (stress_drop / moment) ** (-1 / 3) / (4.9e6 * 3.2)
             + 0.805 * (1 if s.site_cond == "soil" else 0)
             + 0.063 * max(s.dist_rup - 10, 0)
-        ) + self.calc_ln_dur_incr(0.75)
+        )
         self._std_err = 0.55
 
     @property
     def duration(self):
-        return np.exp(self._ln_dur)
+        return np.exp(self._ln_dur + self.calc_ln_dur_incr(0.75))
 
     @property
     def std_err(self):
-- 
2.43.0


From 717b11efe5cde9d56fe9ea47e915f54e13a17c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:59 +0000
Subject: [PATCH 07/32] fix: do not modify the array passed to AS96 interp

Out-of-range values of the caller's array were replaced by NaN.
---
 src/pygmm/abrahamson_silva_1996.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pygmm/abrahamson_silva_1996.py b/src/pygmm/abrahamson_silva_1996.py
index 0ad1bef..d14a782 100644
--- a/src/pygmm/abrahamson_silva_1996.py
+++ b/src/pygmm/abrahamson_silva_1996.py
@@ -53,7 +53,7 @@ class AbrahamsonSilva1996(model.Model):
     @staticmethod
     def calc_ln_dur_incr(nias):
         # Mask out inappropriate values
-        nias = np.asarray(nias)
+        nias = np.array(nias, dtype=float)
         mask = (nias < 0.10) | (0.95 < nias)
         nias[mask] = np.nan
 
@@ -66,7 +66,7 @@ class AbrahamsonSilva1996(model.Model):
 
     def interp(self, nias, stds=None):
         # Mask out inappropriate values
-        nias = np.asarray(nias)
+        nias = np.array(nias, dtype=float)
         mask = (nias < 0.10) | (0.95 < nias)
         nias[mask] = np.nan
 
-- 
2.43.0


From 34589dcc1bc9a5133af4fc3ddd246cb4e31c2c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:02 +0000
Subject: [PATCH 08/32] fix: use meters in the basin depth term of AS16

The depth difference was in km, whereas the slope and the limit of 200 are in m,
so depth_1_0 had practically no effect.
---
 src/pygmm/afshari_stewart_2016.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pygmm/afshari_stewart_2016.py b/src/pygmm/afshari_stewart_2016.py
index 6ba6720..afeffa1 100644
--- a/src/pygmm/afshari_stewart_2016.py
+++ b/src/pygmm/afshari_stewart_2016.py
@@ -86,7 +86,8 @@ class AfshariStewart2016(model.Model):
         dz_1ref = 200
         # depth to bedrock duration
         if s.depth_1_0 is not None:
-            dz_1 = s.depth_1_0 - self.calc_depth_1_0(s.v_s30, s.mechanism)
+            # Convert from (km) to (m)
+            dz_1 = 1000 * (s.depth_1_0 - self.calc_depth_1_0(s.v_s30))
             F_dz1 = c_5 * (dz_1 if dz_1 <= dz_1ref else dz_1ref)
         else:
             F_dz1 = 0
-- 
2.43.0


From 441ffadcc8e6561a5e1fe45385110e9fae46f983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:06 +0000
Subject: [PATCH 09/32] fix: return the logarithmic standard deviation from
 GA11 interp_ln_std

Its exponential was returned.
---
 src/pygmm/gulerce_abrahamson_2011.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/pygmm/gulerce_abrahamson_2011.py b/src/pygmm/gulerce_abrahamson_2011.py
index eaccece..6ff0003 100644
--- a/src/pygmm/gulerce_abrahamson_2011.py
+++ b/src/pygmm/gulerce_abrahamson_2011.py
@@ -106,12 +106,10 @@ class GulerceAbrahamson2011(model.Model):
 
         """
 
-        return np.exp(
-            np.interp(
-                np.log(periods),
-                np.log(self.PERIODS[self.INDICES_PSA]),
-                self._ln_std[self.INDICES_PSA],
-            )
+        return np.interp(
+            np.log(periods),
+            np.log(self.PERIODS[self.INDICES_PSA]),
+            self._ln_std[self.INDICES_PSA],
         )
 
     def _calc_ln_ratio(self):
-- 
2.43.0


From a359869c413b81c1b2a2fb9f229e0b6044f39c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:09 +0000
Subject: [PATCH 10/32] fix: interpolate the BA19 standard deviation over
 magnitude

The bounds passed to np.clip() were reversed wherever the value decreases with
magnitude, for which the value at M6 was used for all magnitudes.
---
 src/pygmm/bayless_abrahamson_2019.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygmm/bayless_abrahamson_2019.py b/src/pygmm/bayless_abrahamson_2019.py
index 595f878..c9bbc6d 100644
--- a/src/pygmm/bayless_abrahamson_2019.py
+++ b/src/pygmm/bayless_abrahamson_2019.py
@@ -171,7 +171,7 @@ class BaylessAbrahamson2019(model.Model):
         c = self.COEFF
 
         def interp(left, right):
-            return np.clip(left + (right - left) / 2 * (s.mag - 4), left, right)
+            return left + (right - left) * np.clip((s.mag - 4) / 2, 0, 1)
 
         tau = interp(c.s1, c.s2)
         phi_s2s = interp(c.s3, c.s4)
-- 
2.43.0


From 3144794532339973ac8dedf3d6c83baade720ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:12 +0000
Subject: [PATCH 11/32] fix: accept array_like frequencies in BA18

Lists raised an AttributeError.
---
 src/pygmm/bayless_abrahamson_2018.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pygmm/bayless_abrahamson_2018.py b/src/pygmm/bayless_abrahamson_2018.py
index f3db13f..f36796c 100644
--- a/src/pygmm/bayless_abrahamson_2018.py
+++ b/src/pygmm/bayless_abrahamson_2018.py
@@ -40,6 +40,7 @@ class BaylessAbrahamson2018:
         """
 
         # Create two matrices of frequencies
+        freqs = np.asarray(freqs)
         n = freqs.shape[0]
         freqs_row = np.full((n, n), freqs)
         freqs_col = freqs_row.T
-- 
2.43.0


From 7e74c468c4a1e09e3c6325e8e70d8e797bde3c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:16 +0000
Subject: [PATCH 12/32] fix: support conditioning on all periods in CMSV

A masked array without masked values has the scalar mask nomask.
---
 src/pygmm/kishida_2017.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygmm/kishida_2017.py b/src/pygmm/kishida_2017.py
index 7244613..2cf4971 100644
--- a/src/pygmm/kishida_2017.py
+++ b/src/pygmm/kishida_2017.py
@@ -55,7 +55,7 @@ def calc_cond_mean_spectrum_vector(
     if not np.all(np.diff(periods) > 0):
         raise ValueError("`periods` must be increasing")
 
-    mask = ln_psas_cond.mask
+    mask = np.ma.getmaskarray(ln_psas_cond)
 
     # Group the periods into those not being conditioned upon, and those used
     # for the conditioning. See Equations (14), (15), and (16)
-- 
2.43.0


From b02b62e8e88015494c417797837017cad0b44f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:58 +0000
Subject: [PATCH 13/32] fix: add the missing b_2 of the nonlinear site term in
 AB06

The slope between 180 and 300 m/s omitted the constant, so the ground motion
jumped at both ends of the interval.
---
 src/pygmm/atkinson_boore_2006.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pygmm/atkinson_boore_2006.py b/src/pygmm/atkinson_boore_2006.py
index d17e5ee..79cfe5d 100644
--- a/src/pygmm/atkinson_boore_2006.py
+++ b/src/pygmm/atkinson_boore_2006.py
@@ -153,7 +153,9 @@ class AtkinsonBoore2006(model.GroundMotionModel):
         if s.v_s30 <= VS_1:
             b_nl = c.b_1
         elif VS_1 < s.v_s30 <= VS_2:
-            b_nl = (c.b_1 - c.b_2) * np.log(s.v_s30 / VS_2) / np.log(VS_1 / VS_2)
+            b_nl = (c.b_1 - c.b_2) * np.log(s.v_s30 / VS_2) / np.log(
+                VS_1 / VS_2
+            ) + c.b_2
         elif VS_2 < s.v_s30 <= VS_REF:
             b_nl = c.b_2 * np.log(s.v_s30 / VS_REF) / np.log(VS_2 / VS_REF)
         else:
-- 
2.43.0


From 91a3427897fe24521db80aef35fdd87ff163cfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:02 +0000
Subject: [PATCH 14/32] fix: report PGV and PGD of AB06 in cm/sec and cm

They were divided by the acceleration of gravity.
---
 src/pygmm/atkinson_boore_2006.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pygmm/atkinson_boore_2006.py b/src/pygmm/atkinson_boore_2006.py
index 79cfe5d..dfaa466 100644
--- a/src/pygmm/atkinson_boore_2006.py
+++ b/src/pygmm/atkinson_boore_2006.py
@@ -93,8 +93,9 @@ class AtkinsonBoore2006(model.GroundMotionModel):
 
             log10_resp += log10_site
 
-        # Convert from cm/sec/sec to gravity
-        log10_resp -= np.log10(980.665)
+        # Convert accelerations from cm/sec/sec to gravity
+        log10_resp[self.INDEX_PGA] -= np.log10(980.665)
+        log10_resp[self.INDICES_PSA] -= np.log10(980.665)
 
         ln_resp = np.log(10**log10_resp)
         return ln_resp
-- 
2.43.0


From 963b9905d11d14dcf423cda4f3ae1ee6149524c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 15/32] fix: convert the AB06 standard deviation to natural log
 units

The published value of 0.30 is in log10 units.
---
 src/pygmm/atkinson_boore_2006.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pygmm/atkinson_boore_2006.py b/src/pygmm/atkinson_boore_2006.py
index dfaa466..8f0da8b 100644
--- a/src/pygmm/atkinson_boore_2006.py
+++ b/src/pygmm/atkinson_boore_2006.py
@@ -109,7 +109,8 @@ class AtkinsonBoore2006(model.GroundMotionModel):
             natural log standard deviation
 
         """
-        ln_std = np.ones_like(self.PERIODS) * 0.30
+        # Convert from log10 to natural log
+        ln_std = np.ones_like(self.PERIODS) * 0.30 * np.log(10)
         return ln_std
 
     def _calc_stress_factor(self) -> float:
-- 
2.43.0


From 8c985f8e08ea94e337cff1a3bd74ba79a0638333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:09 +0000
Subject: [PATCH 16/32] fix: scale the AB06 stress factor by the log ratio of
 the stress drops

The factor is per doubling of the stress drop. The plain ratio amplified the
motion for stress drops of 140 bars and less, for which no amplification and a
reduction is expected, respectively.
---
 src/pygmm/atkinson_boore_2006.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pygmm/atkinson_boore_2006.py b/src/pygmm/atkinson_boore_2006.py
index 8f0da8b..86441dd 100644
--- a/src/pygmm/atkinson_boore_2006.py
+++ b/src/pygmm/atkinson_boore_2006.py
@@ -129,7 +129,9 @@ class AtkinsonBoore2006(model.GroundMotionModel):
         v1 = c.delta + 0.05
         v2 = 0.05 + c.delta * np.maximum(s.mag - c.m_1, 0) / (c.m_h - c.m_1)
 
-        log10_stress_factor = np.minimum(2.0, stress_drop / 140.0) * np.minimum(v1, v2)
+        # Number of doublings relative to the reference stress drop of 140 bars
+        scale = np.minimum(2.0, np.log2(stress_drop / 140.0))
+        log10_stress_factor = scale * np.minimum(v1, v2)
 
         return np.interp(self.PERIODS, c.period, log10_stress_factor)
 
-- 
2.43.0


From 7a434005b978591ceee884909ec6eef609ce67a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:13 +0000
Subject: [PATCH 17/32] fix: convert the Pea11 standard deviation to natural
 log units

The published coefficients are in log10 units, as those of the median.
---
 src/pygmm/pezeshk_zandieh_tavakoli_2011.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pygmm/pezeshk_zandieh_tavakoli_2011.py b/src/pygmm/pezeshk_zandieh_tavakoli_2011.py
index cd0be56..cccdec5 100644
--- a/src/pygmm/pezeshk_zandieh_tavakoli_2011.py
+++ b/src/pygmm/pezeshk_zandieh_tavakoli_2011.py
@@ -89,6 +89,7 @@ class PezeshkZandiehTavakoli2011(model.GroundMotionModel):
         else:
             ln_std_mean = -6.95e-3 * s.mag + c.c_14
 
-        ln_std = np.sqrt(ln_std_mean**2 + c["sigma_reg"] ** 2)
+        # Convert from log10 to natural log
+        ln_std = np.sqrt(ln_std_mean**2 + c["sigma_reg"] ** 2) * np.log(10)
 
         return ln_std
-- 
2.43.0


From 8cd4faa5ea14d1713d0d4d260aec9ee5bf9ecabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 18/32] fix: correct the PR23 conditional model at the 75%
 threshold

The additive constant was one, so that energies near, but not equal to, 0.75
gave twice the duration of D5-75.
---
 src/pygmm/pinilla_ramos_et_al_2023.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygmm/pinilla_ramos_et_al_2023.py b/src/pygmm/pinilla_ramos_et_al_2023.py
index 2c223d6..b42ff42 100644
--- a/src/pygmm/pinilla_ramos_et_al_2023.py
+++ b/src/pygmm/pinilla_ramos_et_al_2023.py
@@ -105,7 +105,7 @@ class PinillaRamosEtAl2023(model.Model):
             0.092914,
             0.067803,
             0.034992,
-            1,
+            0,
             -0.044725,
             -0.112447,
             -0.209689,
-- 
2.43.0


From 9dd4b3bb383ba8ae48f350af87ce4212e04abb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:20 +0000
Subject: [PATCH 19/32] fix: evaluate all elements in the PR24 duration_model
 function

Only the first element of the array_like arguments was used.
---
 src/pygmm/pinilla_ramos_et_al_2024.py | 44 +++++++++++++++------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/src/pygmm/pinilla_ramos_et_al_2024.py b/src/pygmm/pinilla_ramos_et_al_2024.py
index 63f727b..792c447 100644
--- a/src/pygmm/pinilla_ramos_et_al_2024.py
+++ b/src/pygmm/pinilla_ramos_et_al_2024.py
@@ -789,31 +789,35 @@ def duration_model(
     from .model import Scenario
 
     # Convert inputs to arrays
-    mag_arr = np.atleast_1d(mag)
-    rrup_arr = np.atleast_1d(rrup)
-    vs30_arr = np.atleast_1d(vs30)
-
-    # Create scenario and model
-    scenario = Scenario(
-        mag=mag_arr[0],
-        dist_rup=rrup_arr[0],
-        v_s30=vs30_arr[0],
-        event_type=eq_type,
-        region=region,
+    mag_arr, rrup_arr, vs30_arr = np.broadcast_arrays(
+        np.atleast_1d(mag), np.atleast_1d(rrup), np.atleast_1d(vs30)
     )
-    model_inst = PinillaRamosEtAl2024(scenario)
 
-    if np.isclose(energy, 0.75):
-        duration, plus_sigma, minus_sigma = (
-            model_inst.duration,
-            model_inst.duration_plus_sigma,
-            model_inst.duration_minus_sigma,
+    durations = []
+    for _mag, _rrup, _vs30 in zip(mag_arr.flat, rrup_arr.flat, vs30_arr.flat):
+        # Create scenario and model
+        scenario = Scenario(
+            mag=_mag,
+            dist_rup=_rrup,
+            v_s30=_vs30,
+            event_type=eq_type,
+            region=region,
         )
-    else:
-        duration, plus_sigma, minus_sigma = model_inst.duration_for_energy(energy)
+        model_inst = PinillaRamosEtAl2024(scenario)
+
+        if np.isclose(energy, 0.75):
+            durations.append(
+                (
+                    model_inst.duration,
+                    model_inst.duration_plus_sigma,
+                    model_inst.duration_minus_sigma,
+                )
+            )
+        else:
+            durations.append(model_inst.duration_for_energy(energy))
 
     # Return as arrays to match expected return type
-    return np.array([duration]), np.array([plus_sigma]), np.array([minus_sigma])
+    return tuple(np.array(d).reshape(mag_arr.shape) for d in zip(*durations))
 
 
 if __name__ == "__main__":
-- 
2.43.0


From db541f505718626da21869b03ea24685f9768803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:25 +0000
Subject: [PATCH 20/32] fix: correct the correlations of Stafford (2017)

The within-event decay had the wrong sign, the between-event decay normalized
the frequency twice and was scaled with it, and the nugget term did not approach
one for equal frequencies. Correlations were as large as 200 and are now within
0.01 of the digitized values in tests/data/PJS2017_cor_M4pt5_fmin0pt06.csv.
---
 src/pygmm/stafford_2017.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pygmm/stafford_2017.py b/src/pygmm/stafford_2017.py
index 4768df4..01623a7 100644
--- a/src/pygmm/stafford_2017.py
+++ b/src/pygmm/stafford_2017.py
@@ -106,7 +106,7 @@ class Stafford2017:
         S_term = min_f / (min_f + cls.COEFF.gamma_A2 * (1 - min_f / f_ref))
         log_term = cls.COEFF.gamma_A3 * np.log(np.maximum(f_min, f_ref) / f_ref) ** 2
 
-        return cls.COEFF.gamma_A0 + S_term * cls.COEFF.gamma_A1 + log_term
+        return -cls.COEFF.gamma_A0 - S_term * cls.COEFF.gamma_A1 + log_term
 
     @classmethod
     def compute_eta_S(cls, f_min):
@@ -158,10 +158,10 @@ class Stafford2017:
         f_max_norm = f_max / fc
 
         # Compute gamma_E
-        gamma_E = cls.compute_gamma_E(f_min_norm, mag)
+        gamma_E = cls.compute_gamma_E(f_min, mag)
 
         # Apply equation 11
-        correlation = np.exp(gamma_E * f_min_norm * np.log(f_max_norm / f_min_norm))
+        correlation = np.exp(gamma_E * np.log(f_max_norm / f_min_norm))
 
         return correlation
 
@@ -185,7 +185,8 @@ class Stafford2017:
         if np.isclose(f_i, f_j):
             return 1.0
         else:
-            rho_A = rho_A0 * (1 - np.exp(-cls.COEFF.nugget_exp * np.log(f_max / f_min)))
+            nugget = np.exp(-cls.COEFF.nugget_exp * np.log(f_max / f_min))
+            rho_A = rho_A0 * (1 - nugget) + nugget
             return rho_A
 
     @classmethod
@@ -208,7 +209,8 @@ class Stafford2017:
         if np.isclose(f_i, f_j):
             return 1.0
         else:
-            rho_S = rho_S0 * (1 - np.exp(-cls.COEFF.nugget_exp * np.log(f_max / f_min)))
+            nugget = np.exp(-cls.COEFF.nugget_exp * np.log(f_max / f_min))
+            rho_S = rho_S0 * (1 - nugget) + nugget
             return rho_S
 
     @classmethod
-- 
2.43.0


From 12ef85b988079393c7ee99e6ee198fd9f1ddd59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:56 +0000
Subject: [PATCH 21/32] fix: keep the standard deviations provided to
 Stafford2017 when others are omitted

---
 src/pygmm/stafford_2017.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pygmm/stafford_2017.py b/src/pygmm/stafford_2017.py
index 01623a7..2aabd56 100644
--- a/src/pygmm/stafford_2017.py
+++ b/src/pygmm/stafford_2017.py
@@ -294,7 +294,10 @@ class Stafford2017:
         """
         if sigma_E is None or sigma_S is None or sigma_A is None:
             # Compute standard deviations if not provided
-            sigma_E, sigma_S, sigma_A = cls.compute_variances(freqs)
+            model_E, model_S, model_A = cls.compute_variances(freqs)
+            sigma_E = model_E if sigma_E is None else sigma_E
+            sigma_S = model_S if sigma_S is None else sigma_S
+            sigma_A = model_A if sigma_A is None else sigma_A
 
         # Check input dimensions
         n = len(freqs)
-- 
2.43.0


From 248995975437474ef5d695ac5fd2d78dc4af6840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:31 +0000
Subject: [PATCH 22/32] fix: hold the minimum of the BA19 nonlinear term at
 high frequencies

---
 src/pygmm/bayless_abrahamson_2019.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pygmm/bayless_abrahamson_2019.py b/src/pygmm/bayless_abrahamson_2019.py
index c9bbc6d..3972db6 100644
--- a/src/pygmm/bayless_abrahamson_2019.py
+++ b/src/pygmm/bayless_abrahamson_2019.py
@@ -154,12 +154,13 @@ class BaylessAbrahamson2019(model.Model):
         # Use the minimum value at higher frequencies as described in the text and
         # referenced to Bayless and Abrahamson (2018b)
         i = np.argmin(f_nl)
-        f_nl[(i + 1) :] = f_nl[i]
+        f_nl_min = f_nl[i]
+        f_nl[(i + 1) :] = f_nl_min
         width = 7
         kernel = np.ones(width) / width
         f_nl = np.convolve(f_nl, kernel, mode="same")
         # End needs to be forced down
-        f_nl[-width:] = f_nl[i]
+        f_nl[-width:] = f_nl_min
 
         f_s = f_sl + f_nl
 
-- 
2.43.0


From fcc346d7f7091a586b32b33d4cd9d46a21448e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:10 +0000
Subject: [PATCH 23/32] fix: return a copy of the BA19 frequencies

The frequencies are a view on the coefficients shared by all instances, so a
caller that modified them changed the results of every other model.
---
 src/pygmm/bayless_abrahamson_2019.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pygmm/bayless_abrahamson_2019.py b/src/pygmm/bayless_abrahamson_2019.py
index 3972db6..d9806c5 100644
--- a/src/pygmm/bayless_abrahamson_2019.py
+++ b/src/pygmm/bayless_abrahamson_2019.py
@@ -56,7 +56,8 @@ class BaylessAbrahamson2019(model.Model):
 
     @property
     def freqs(self):
-        return self.FREQS
+        # Copy such that changes do not modify the coefficients of the class
+        return self.FREQS.copy()
 
     @property
     def ln_eas(self):
-- 
2.43.0


From a93e4f0563c3406f68671460877ff01584fa0f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:06 +0000
Subject: [PATCH 24/32] fix: accept a mapping in the constructor of Scenario

UserDict operators such as scenario | {...}, and GA11 when the reference PGA is
missing, pass the data as a positional argument, which raised a TypeError.
---
 src/pygmm/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pygmm/model.py b/src/pygmm/model.py
index 371d84c..4dc555f 100644
--- a/src/pygmm/model.py
+++ b/src/pygmm/model.py
@@ -119,9 +119,9 @@ class Scenario(collections.UserDict):
         "width",
     ]
 
-    def __init__(self, **kwds):
+    def __init__(self, data=None, /, **kwds):
         """Initialize the scenario."""
-        super().__init__(kwds)
+        super().__init__(data, **kwds)
         self._check_keys(self.keys())
 
     def __getattr__(self, item):
-- 
2.43.0


From 4600ac22097ed9e7236c795a1a8b25816467e468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:34 +0000
Subject: [PATCH 25/32] fix: correct b_1 of D_20t80 for reverse events in AS16

The value of strike-slip events was repeated, such that the stress drop did not
match b_0 at magnitude M1 (0.7729 s).
---
 src/pygmm/afshari_stewart_2016.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygmm/afshari_stewart_2016.py b/src/pygmm/afshari_stewart_2016.py
index afeffa1..1688c50 100644
--- a/src/pygmm/afshari_stewart_2016.py
+++ b/src/pygmm/afshari_stewart_2016.py
@@ -46,7 +46,7 @@ class AfshariStewart2016(model.Model):
             b_1 = np.array([4.992, 3.170, 4.778])
         elif s.mechanism == "RS":
             b_0 = np.array([0.7806, 1.612, 0.7729])
-            b_1 = np.array([7.061, 4.536, 6.188])
+            b_1 = np.array([7.061, 4.536, 6.579])
         elif s.mechanism == "SS":
             b_0 = np.array([1.279, 2.302, 0.8804])
             b_1 = np.array([5.578, 3.467, 6.188])
-- 
2.43.0


From d0bebad34cbdfa686de8394c0e928e4289dc9ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:56 +0000
Subject: [PATCH 26/32] fix: evaluate the generic basin depth of integer
 velocities in floating point

---
 src/pygmm/abrahamson_silva_kamai_2014.py | 4 ++--
 src/pygmm/afshari_stewart_2016.py        | 4 ++--
 src/pygmm/bayless_abrahamson_2019.py     | 2 +-
 src/pygmm/chiou_youngs_2014.py           | 4 ++--
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/pygmm/abrahamson_silva_kamai_2014.py b/src/pygmm/abrahamson_silva_kamai_2014.py
index 8c873fd..5ea15ba 100644
--- a/src/pygmm/abrahamson_silva_kamai_2014.py
+++ b/src/pygmm/abrahamson_silva_kamai_2014.py
@@ -323,12 +323,12 @@ class AbrahamsonSilvaKamai2014(model.GroundMotionModel):
         """
         if region in ["japan"]:
             # Japan
-            power = 2
+            power = 2.0
             v_ref = 412
             slope = -5.23 / power
         else:
             # Global
-            power = 4
+            power = 4.0
             v_ref = 610
             slope = -7.67 / power
 
diff --git a/src/pygmm/afshari_stewart_2016.py b/src/pygmm/afshari_stewart_2016.py
index 1688c50..3da75fd 100644
--- a/src/pygmm/afshari_stewart_2016.py
+++ b/src/pygmm/afshari_stewart_2016.py
@@ -117,12 +117,12 @@ class AfshariStewart2016(model.Model):
     def calc_depth_1_0(v_s30: float, region: str = "california") -> float:
         if region in ["japan"]:
             # Japan
-            power = 2
+            power = 2.0
             v_ref = 412.39
             slope = -5.23 / power
         else:
             # Global
-            power = 4
+            power = 4.0
             v_ref = 570.94
             slope = -7.15 / power
 
diff --git a/src/pygmm/bayless_abrahamson_2019.py b/src/pygmm/bayless_abrahamson_2019.py
index d9806c5..6d49eea 100644
--- a/src/pygmm/bayless_abrahamson_2019.py
+++ b/src/pygmm/bayless_abrahamson_2019.py
@@ -198,7 +198,7 @@ class BaylessAbrahamson2019(model.Model):
             depth to a shear-wave velocity of 1,000 m/sec
             (:math:`Z_{1.0}`, km).
         """
-        power = 4
+        power = 4.0
         v_ref = 610
         slope = -7.67 / power
         return (
diff --git a/src/pygmm/chiou_youngs_2014.py b/src/pygmm/chiou_youngs_2014.py
index 55e81ac..a816a6b 100644
--- a/src/pygmm/chiou_youngs_2014.py
+++ b/src/pygmm/chiou_youngs_2014.py
@@ -307,12 +307,12 @@ class ChiouYoungs2014(model.GroundMotionModel):
         """
         if region in ["japan"]:
             # Japan
-            power = 2
+            power = 2.0
             v_ref = 412.39
             slope = -5.23 / power
         else:
             # Global
-            power = 4
+            power = 4.0
             v_ref = 570.94
             slope = -7.15 / power
 
-- 
2.43.0


From ab57d14940b65736f6afeb30f46910a6643d1657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:25 +0000
Subject: [PATCH 27/32] fix: represent scenarios without a magnitude or dist_jb

---
 src/pygmm/model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pygmm/model.py b/src/pygmm/model.py
index 4dc555f..58e0115 100644
--- a/src/pygmm/model.py
+++ b/src/pygmm/model.py
@@ -133,7 +133,9 @@ class Scenario(collections.UserDict):
 
     def __repr__(self):
         """Representation."""
-        return "<Scenario(mag={mag}, dist_jb={dist_jb})>".format(**self.data)
+        return "<Scenario(mag={}, dist_jb={})>".format(
+            self.data.get("mag"), self.data.get("dist_jb")
+        )
 
     def copy_with(self, **kwds):
         self._check_keys(kwds.keys())
-- 
2.43.0


From 2621af2598b25079d3dc623f262e4f6d79ee3f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:25 +0000
Subject: [PATCH 28/32] fix: apply the adjust_c4 of AGA16

---
 src/pygmm/abrahamson_gregor_addo_2016.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygmm/abrahamson_gregor_addo_2016.py b/src/pygmm/abrahamson_gregor_addo_2016.py
index 58505f4..9269176 100644
--- a/src/pygmm/abrahamson_gregor_addo_2016.py
+++ b/src/pygmm/abrahamson_gregor_addo_2016.py
@@ -120,7 +120,7 @@ class AbrahamsonGregorAddo2016(model.GroundMotionModel):
         dist = s.dist_hyp if s.event_type == "intraslab" else s.dist_rup
 
         path_atten = (c.t_2 + c.t_14 * f_event + c.t_3 * (s.mag - 7.8)) * np.log(
-            dist + c.c_4 * np.exp(c.t_9 * (s.mag - 6))
+            dist + (c.c_4 + self._adjust_c4) * np.exp(c.t_9 * (s.mag - 6))
         )
 
         ln_resp = (
-- 
2.43.0


From 84d7bc508407cba4b7ace1bf847296be038a620c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:43 +0000
Subject: [PATCH 29/32] fix: calculate with Python numbers where small NumPy
 types wrap around or lose precision

---
 src/pygmm/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pygmm/model.py b/src/pygmm/model.py
index 58e0115..356b03c 100644
--- a/src/pygmm/model.py
+++ b/src/pygmm/model.py
@@ -458,6 +458,9 @@ class NumericParameter(Parameter):
     def check(self, value) -> float:
         """Check the value against the limits."""
         value = super().check(value)
+        if isinstance(value, np.number):
+            # Small NumPy types wrap around or lose precision in the calculations
+            value = value.item()
         if value is not None:
             if self.min is not None and value < self.min:
                 warnings.warn(
-- 
2.43.0


From dfc37bb63cc1548a8e60765f55b8ac08e3248e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:31 +0000
Subject: [PATCH 30/32] fix: AGA16 keeps its own copy of adjust_c1

---
 src/pygmm/abrahamson_gregor_addo_2016.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygmm/abrahamson_gregor_addo_2016.py b/src/pygmm/abrahamson_gregor_addo_2016.py
index 9269176..3faff04 100644
--- a/src/pygmm/abrahamson_gregor_addo_2016.py
+++ b/src/pygmm/abrahamson_gregor_addo_2016.py
@@ -77,7 +77,7 @@ class AbrahamsonGregorAddo2016(model.GroundMotionModel):
             if isinstance(adjust_c1, float):
                 self._adjust_c1 = adjust_c1 * np.ones(n)
             else:
-                self._adjust_c1 = np.asarray(adjust_c1)
+                self._adjust_c1 = np.array(adjust_c1)
 
         self._adjust_c4 = adjust_c4
         self._scale_atten = scale_atten
-- 
2.43.0


From c9d1ded41e3a5a3cf5911f13973a30d6fb734e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:21 +0000
Subject: [PATCH 31/32] fix: PR24 duration function returned no results for
 empty arrays

---
 src/pygmm/pinilla_ramos_et_al_2024.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pygmm/pinilla_ramos_et_al_2024.py b/src/pygmm/pinilla_ramos_et_al_2024.py
index 792c447..7b6b02d 100644
--- a/src/pygmm/pinilla_ramos_et_al_2024.py
+++ b/src/pygmm/pinilla_ramos_et_al_2024.py
@@ -817,7 +817,8 @@ def duration_model(
             durations.append(model_inst.duration_for_energy(energy))
 
     # Return as arrays to match expected return type
-    return tuple(np.array(d).reshape(mag_arr.shape) for d in zip(*durations))
+    columns = zip(*durations) if durations else ((), (), ())
+    return tuple(np.array(d).reshape(mag_arr.shape) for d in columns)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 414a42024848fa4cadca667c861741cee3932b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:21 +0000
Subject: [PATCH 32/32] fix: coefficient files could not be read in locales
 other than UTF-8

---
 src/pygmm/model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pygmm/model.py b/src/pygmm/model.py
index 356b03c..718fd4c 100644
--- a/src/pygmm/model.py
+++ b/src/pygmm/model.py
@@ -542,7 +542,12 @@ def load_data_file(name, skip_header: int = 0) -> np.recarray:
     """
     fname = os.path.join(os.path.dirname(__file__), "data", name)
     return np.genfromtxt(
-        fname, skip_header=skip_header, delimiter=",", names=True, case_sensitive=True
+        fname,
+        skip_header=skip_header,
+        delimiter=",",
+        names=True,
+        case_sensitive=True,
+        encoding="utf-8",
     ).view(np.recarray)
 
 
-- 
2.43.0

