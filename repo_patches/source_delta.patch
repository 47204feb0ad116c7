From c682b16db4793614ed2eea556a5acf76c24439f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:57 +0000
Subject: [PATCH 01/70] fix: XieAndLeo2004 effective and total stress use the
 object's surcharge qu (was an undefined name)

---
 geotecha/consolidation/xieandleo2004.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geotecha/consolidation/xieandleo2004.py b/geotecha/consolidation/xieandleo2004.py
index b6faeec..e17064c 100644
--- a/geotecha/consolidation/xieandleo2004.py
+++ b/geotecha/consolidation/xieandleo2004.py
@@ -495,7 +495,7 @@ class XieAndLeo2004(object):
         u = self.u_PTIB(a,t)
         sig_0 = self.initial_effective_stress(a)[:, None]
 
-        sig_ = sig_0 + qu - u
+        sig_ = sig_0 + self.qu - u
 
         return sig_
 
@@ -519,7 +519,7 @@ class XieAndLeo2004(object):
         u = self.u_PTPB(a,t)
         sig_0 = self.initial_effective_stress(a)[:, None]
 
-        sig_ = sig_0 + qu - u
+        sig_ = sig_0 + self.qu - u
 
         return sig_
 
@@ -546,7 +546,7 @@ class XieAndLeo2004(object):
         sig_0 = self.initial_effective_stress(a)[:, None]
         a = a[:, None]
 
-        sig = sig_0 + qu + gamw * (Hw + a + S)
+        sig = sig_0 + self.qu + gamw * (Hw + a + S)
 
         return sig
 
@@ -573,7 +573,7 @@ class XieAndLeo2004(object):
         sig_0 = self.initial_effective_stress(a)[:, None]
         a = a[:, None]
 
-        sig = sig_0 + qu + gamw * (Hw + a + S)
+        sig = sig_0 + self.qu + gamw * (Hw + a + S)
 
         return sig
 
-- 
2.43.0


From 353b9b6789b9c46aa5d9a80db5e5146515cb4b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:57 +0000
Subject: [PATCH 02/70] fix: XieAndLeo2004 fluid velocities satisfy continuity
 with the particle velocities

---
 geotecha/consolidation/xieandleo2004.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotecha/consolidation/xieandleo2004.py b/geotecha/consolidation/xieandleo2004.py
index e17064c..1941e1d 100644
--- a/geotecha/consolidation/xieandleo2004.py
+++ b/geotecha/consolidation/xieandleo2004.py
@@ -792,7 +792,7 @@ class XieAndLeo2004(object):
         f = np.cos(M * a) * np.exp(-M**2 * Tv)
         f = np.sum(f, axis=2)
         f *= 1 - np.exp(-mvl * qu)
-        f *= 2 * cv0 / H
+        f *= -2 * cv0 / H
         f /=e
 
         return f
@@ -837,7 +837,7 @@ class XieAndLeo2004(object):
         f2 = (1 + np.cos(2 * M * a)) * np.exp(-4 * M**2 * Tv)
         f2 = np.sum(f2, axis=2)
         f2 *= 1 - np.exp(-mvl * qu)
-        f2 *= 2 * cv0/H
+        f2 *= 4 * cv0/H
         f2 /=e
 
         return f1-f2
-- 
2.43.0


From 9c004902865a2d521192297bf379da2380779cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:48 +0000
Subject: [PATCH 03/70] fix: dengetal2013 gave nan at z=0 when the drain
 permeability decays with time

---
 geotecha/consolidation/dengetal2013and2014.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/geotecha/consolidation/dengetal2013and2014.py b/geotecha/consolidation/dengetal2013and2014.py
index 0f5107c..4e6a484 100644
--- a/geotecha/consolidation/dengetal2013and2014.py
+++ b/geotecha/consolidation/dengetal2013and2014.py
@@ -141,18 +141,20 @@ def dengetal2013(z, t, rw, re, A1=1, A2=0, A3=0, H=1, rs=None, ks=None,
     if A3 > 0 and A2 == 0:
         # qw varies with time
         a3 = A3 * 4 * re**2 / ch
-        alp0 = qw0 * A1 * mu0 / (np.pi * kh * (2*H*z - z**2))
-        por = (ui * ((1+alp0[:, None] * np.exp(-a3 * Th[None, :])) /
-              (1+alp0[:, None])) ** (8/(a3 * mu0)))
+        # work with 1/alpha, which is zero (not infinite) at z=0
+        ralp0 = np.pi * kh * (2*H*z - z**2) / (qw0 * A1 * mu0)
+        por = (ui * ((ralp0[:, None] + np.exp(-a3 * Th[None, :])) /
+              (ralp0[:, None] + 1)) ** (8/(a3 * mu0)))
         return por
 
     if A3 > 0 and A2 > 0:
         # qw varies with depth and time:
         a3 = A3 * 4 * re**2 / ch
-        alp = mu0 * qw0 * A2**2 / (2 * np.pi * H**2 * kh)
-        alp /= A2* z / H + (A1 - A2) * np.log(1 - A2 / A1 * z / H)
-        por = (ui * ((1+alp[:, None] * np.exp(-a3 * Th[None, :])) /
-              (1+alp[:, None])) ** (8/(a3 * mu0)))
+        # work with 1/alpha, which is zero (not infinite) at z=0
+        ralp = A2* z / H + (A1 - A2) * np.log(1 - A2 / A1 * z / H)
+        ralp *= 2 * np.pi * H**2 * kh / (mu0 * qw0 * A2**2)
+        por = (ui * ((ralp[:, None] + np.exp(-a3 * Th[None, :])) /
+              (ralp[:, None] + 1)) ** (8/(a3 * mu0)))
         return por
 
 
-- 
2.43.0


From 6059d42a634803ef9a418e935c502152aeaab04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:48 +0000
Subject: [PATCH 04/70] fix: dengetal2013 returned None for drain permeability
 increasing with depth (A2<0)

---
 geotecha/consolidation/dengetal2013and2014.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotecha/consolidation/dengetal2013and2014.py b/geotecha/consolidation/dengetal2013and2014.py
index 4e6a484..83c32df 100644
--- a/geotecha/consolidation/dengetal2013and2014.py
+++ b/geotecha/consolidation/dengetal2013and2014.py
@@ -130,7 +130,7 @@ def dengetal2013(z, t, rw, re, A1=1, A2=0, A3=0, H=1, rs=None, ks=None,
         por = ui * np.exp(-8 * Th[None, :] / mus[:, None])
         return por
 
-    if A3 == 0 and A2 > 0:
+    if A3 == 0 and A2 != 0:
         # qw varies with depth
         mu1 = A2 * z / H + (A1 - A2)*np.log(1 - A2 / A1 * z / H)
         mu1 *= 2 * np.pi * kh * H**2 / (qw0 * A2**2)
@@ -147,7 +147,7 @@ def dengetal2013(z, t, rw, re, A1=1, A2=0, A3=0, H=1, rs=None, ks=None,
               (ralp0[:, None] + 1)) ** (8/(a3 * mu0)))
         return por
 
-    if A3 > 0 and A2 > 0:
+    if A3 > 0 and A2 != 0:
         # qw varies with depth and time:
         a3 = A3 * 4 * re**2 / ch
         # work with 1/alpha, which is zero (not infinite) at z=0
-- 
2.43.0


From e83f4829e90c7b9438db953b8ba83298e78cf7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:48 +0000
Subject: [PATCH 05/70] fix: dengetal2013 accepted A1=0 although A1 must be
 greater than 0

---
 geotecha/consolidation/dengetal2013and2014.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/consolidation/dengetal2013and2014.py b/geotecha/consolidation/dengetal2013and2014.py
index 83c32df..1d0f4f4 100644
--- a/geotecha/consolidation/dengetal2013and2014.py
+++ b/geotecha/consolidation/dengetal2013and2014.py
@@ -98,7 +98,7 @@ def dengetal2013(z, t, rw, re, A1=1, A2=0, A3=0, H=1, rs=None, ks=None,
     """
 
 
-    if A1 < 0:
+    if A1 <= 0:
         raise ValueError("A1 must be greater than 0.  "
                          "You have A1={}".format(A1))
     if A2 > A1:
-- 
2.43.0


From 196f34ce442d0a8ccc0fb77b682a10b7caffb4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:06 +0000
Subject: [PATCH 06/70] fix: dengetal2014 gave no dissipation (1**inf) for its
 default A3=0

---
 geotecha/consolidation/dengetal2013and2014.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/geotecha/consolidation/dengetal2013and2014.py b/geotecha/consolidation/dengetal2013and2014.py
index 1d0f4f4..e63fc59 100644
--- a/geotecha/consolidation/dengetal2013and2014.py
+++ b/geotecha/consolidation/dengetal2013and2014.py
@@ -262,8 +262,13 @@ def dengetal2014(z, t, rw, re, A3=0, H=1, rs=None, ks=None,
     C0 = C0[np.newaxis, np.newaxis, :]
     Z = (z / H)[:, np.newaxis, np.newaxis]
 
-    por = (2 / M * np.sin(M * Z) * ((1+C0 * np.exp(-a3 * Th))/
-          (1 + C0))**(8 / (a3 * mu0)))
+    if A3 == 0:
+        # limit for well resistance constant with time
+        Tm = np.exp(-8 * Th / mu0 * C0 / (1 + C0))
+    else:
+        Tm = ((1+C0 * np.exp(-a3 * Th))/(1 + C0))**(8 / (a3 * mu0))
+
+    por = 2 / M * np.sin(M * Z) * Tm
     por = ui * np.sum(por, axis=2)
 
     return por
-- 
2.43.0


From 2f6b3e538d5a733860ce46dd1c2746525f6db52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:07 +0000
Subject: [PATCH 07/70] fix: cosenzaandkorosak2014 ignored tpor

---
 geotecha/consolidation/cosenzaandkorosak2014.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geotecha/consolidation/cosenzaandkorosak2014.py b/geotecha/consolidation/cosenzaandkorosak2014.py
index 8065f0c..9a58a84 100644
--- a/geotecha/consolidation/cosenzaandkorosak2014.py
+++ b/geotecha/consolidation/cosenzaandkorosak2014.py
@@ -165,7 +165,7 @@ def cosenzaandkorosak2014(z, t, theta, v, tpor=None, L = 1, kv = 1, mv = 0.1, ga
     if tpor is None:
         tpor=t
     else:
-        tpor = np.atleast_1d(t)
+        tpor = np.atleast_1d(tpor)
 
 
     M = ((2 * np.arange(nterms) + 1) * np.pi)
@@ -187,7 +187,7 @@ def cosenzaandkorosak2014(z, t, theta, v, tpor=None, L = 1, kv = 1, mv = 0.1, ga
     for j, lam in enumerate(M):
         Bn[:, j] = np.array(a(tpor, args=(v, theta, M[j])), dtype=float)
 
-    if np.allclose(tpor, t): #reuse Bn for Doc
+    if np.array_equal(tpor, t): #reuse Bn for Doc
         Bn_ = Bn.copy()
 
     Bn = Bn[np.newaxis, :, :]
@@ -197,7 +197,7 @@ def cosenzaandkorosak2014(z, t, theta, v, tpor=None, L = 1, kv = 1, mv = 0.1, ga
 
     #degree of consolidation
     An = 2*2**2/M[np.newaxis, :]**2
-    if np.allclose(tpor, t):
+    if np.array_equal(tpor, t):
         Bn = Bn_
     else:
         Bn = np.zeros((len(t), nterms), dtype=float)
-- 
2.43.0


From f912dfdf196b8cd4c9fa753889eb5c076ed9ba46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:07 +0000
Subject: [PATCH 08/70] fix: cosenzaandkorosak2014 eigenvalues ignored kv, mv,
 gamw and L

---
 geotecha/consolidation/cosenzaandkorosak2014.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geotecha/consolidation/cosenzaandkorosak2014.py b/geotecha/consolidation/cosenzaandkorosak2014.py
index 9a58a84..10600ba 100644
--- a/geotecha/consolidation/cosenzaandkorosak2014.py
+++ b/geotecha/consolidation/cosenzaandkorosak2014.py
@@ -184,8 +184,8 @@ def cosenzaandkorosak2014(z, t, theta, v, tpor=None, L = 1, kv = 1, mv = 0.1, ga
     a = Talbot(F, n=24, shift=0.0)
 
     Bn = np.zeros((len(tpor), nterms), dtype=float)
-    for j, lam in enumerate(M):
-        Bn[:, j] = np.array(a(tpor, args=(v, theta, M[j])), dtype=float)
+    for j, lam in enumerate(lamda_n):
+        Bn[:, j] = np.array(a(tpor, args=(v, theta, lam)), dtype=float)
 
     if np.array_equal(tpor, t): #reuse Bn for Doc
         Bn_ = Bn.copy()
@@ -201,8 +201,8 @@ def cosenzaandkorosak2014(z, t, theta, v, tpor=None, L = 1, kv = 1, mv = 0.1, ga
         Bn = Bn_
     else:
         Bn = np.zeros((len(t), nterms), dtype=float)
-        for j, lam in enumerate(M):
-            Bn[:, j] = np.array(a(t, args=(v, theta, M[j])), dtype=float)
+        for j, lam in enumerate(lamda_n):
+            Bn[:, j] = np.array(a(t, args=(v, theta, lam)), dtype=float)
 
     doc = 1 - np.sum(An*Bn, axis = 1)
 
-- 
2.43.0


From fe1ae33fe522589b8f45b466f98a254cf2e9a9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:07 +0000
Subject: [PATCH 09/70] fix: cosenzaandkorosak2014 initial pore pressure was
 half of ui

---
 geotecha/consolidation/cosenzaandkorosak2014.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/consolidation/cosenzaandkorosak2014.py b/geotecha/consolidation/cosenzaandkorosak2014.py
index 10600ba..0f34509 100644
--- a/geotecha/consolidation/cosenzaandkorosak2014.py
+++ b/geotecha/consolidation/cosenzaandkorosak2014.py
@@ -191,7 +191,7 @@ def cosenzaandkorosak2014(z, t, theta, v, tpor=None, L = 1, kv = 1, mv = 0.1, ga
         Bn_ = Bn.copy()
 
     Bn = Bn[np.newaxis, :, :]
-    An = 2/M[np.newaxis, :] * np.sin(M[np.newaxis, :] * Z[:, np.newaxis])
+    An = 4/M[np.newaxis, :] * np.sin(M[np.newaxis, :] * Z[:, np.newaxis])
     An = An[:, np.newaxis, :]
     por = np.sum(An*Bn, axis=2)*ui
 
-- 
2.43.0


From 3d038dbbf78b081e9fa8df9b64b9185700b1ebf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:18 +0000
Subject: [PATCH 10/70] fix: tangandonitsuka2000 truncated mirrored depths when
 z was given as integers

---
 geotecha/consolidation/tangandonitsuka2000.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/consolidation/tangandonitsuka2000.py b/geotecha/consolidation/tangandonitsuka2000.py
index d478aae..0f83d95 100644
--- a/geotecha/consolidation/tangandonitsuka2000.py
+++ b/geotecha/consolidation/tangandonitsuka2000.py
@@ -176,7 +176,7 @@ def tangandonitsuka2000(z, t, kv, kh, ks, kw, mv, gamw, rw, rs, re, H,
         H_ = H/2
 #        z = z / 2
 
-        z = z.copy()
+        z = z.astype(float) # always copies, depths need not be integers
         i, = np.where(z>H_)
 
         z[i]= (H - z[i])
-- 
2.43.0


From 5da50b7f2cd02a1cc27f6d9341dc3c23f0e803c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:18 +0000
Subject: [PATCH 11/70] fix: tangandonitsuka2000 failed for the documented
 scalar z, t and tpor

---
 geotecha/consolidation/tangandonitsuka2000.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geotecha/consolidation/tangandonitsuka2000.py b/geotecha/consolidation/tangandonitsuka2000.py
index 0f83d95..3ec756a 100644
--- a/geotecha/consolidation/tangandonitsuka2000.py
+++ b/geotecha/consolidation/tangandonitsuka2000.py
@@ -161,13 +161,13 @@ def tangandonitsuka2000(z, t, kv, kh, ks, kw, mv, gamw, rw, rs, re, H,
 
 
 
-    z= np.asarray(z)
-    t = np.asarray(t)
+    z= np.atleast_1d(z)
+    t = np.atleast_1d(t)
 
     if tpor is None:
         tpor = t
     else:
-        tpor = np.asarray(tpor)
+        tpor = np.atleast_1d(tpor)
 
 
 
-- 
2.43.0


From ca2244ddb7a7868be1d1789472a6f29d7d92372a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:18 +0000
Subject: [PATCH 12/70] fix: YinAndGrahamSoilModel creep at constant stress
 ignored dt and the stress exponent

---
 .../constitutive_models/void_ratio_stress.py  | 23 ++++---------------
 1 file changed, 4 insertions(+), 19 deletions(-)

diff --git a/geotecha/constitutive_models/void_ratio_stress.py b/geotecha/constitutive_models/void_ratio_stress.py
index a914f02..6d1e292 100644
--- a/geotecha/constitutive_models/void_ratio_stress.py
+++ b/geotecha/constitutive_models/void_ratio_stress.py
@@ -1641,25 +1641,10 @@ class YinAndGrahamSoilModel(OneDimensionalVoidRatioEffectiveStress):
 
         nans = np.isnan(self._inc)
 
-        # Following expression gives errors when t0, estress0 or _estress are
-        # not arrays so I did it differently (may be slower):
-        # self._inc[nans] = dt / self.t0[nans] * (self._estress[nans] / self.estress0[nans]) ** (self._alpha + 1)
-        if np.isscalar(self._estress):
-            self._inc[nans] = self._estress
-        else:
-            self._inc[nans] = self._estress[nans]
-
-        if np.isscalar(self.estress0):
-            self._inc[nans] /= self.estress0
-        else:
-            self._inc[nans] /= self.estress0[nans]
-
-        np.power(self._inc[nans],(self._alpha + 1),out=self._inc[nans])
-
-        if np.isscalar(self.t0):
-            self._inc[nans] /= self.t0
-        else:
-            self._inc[nans] /= self.t0[nans]
+        # nans are where stress is constant over the time increment
+        constant = (dt / self.t0
+                    * (self._estress / self.estress0) ** self._alpha)
+        self._inc[nans] = (np.ones_like(self._inc) * constant)[nans]
 
         return self._inc
 
-- 
2.43.0


From 6d5141398688e932969fd3477e613ea5055fe22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:43 +0000
Subject: [PATCH 13/70] fix: YinAndGrahamSoilModel.stress_from_e returned an
 internal buffer overwritten by the next call

---
 geotecha/constitutive_models/void_ratio_stress.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/constitutive_models/void_ratio_stress.py b/geotecha/constitutive_models/void_ratio_stress.py
index 6d1e292..b2db0c2 100644
--- a/geotecha/constitutive_models/void_ratio_stress.py
+++ b/geotecha/constitutive_models/void_ratio_stress.py
@@ -1713,7 +1713,7 @@ class YinAndGrahamSoilModel(OneDimensionalVoidRatioEffectiveStress):
         self._igral += self._inc
         self._estress[:] = self._es
 
-        return  self._es
+        return self._es.copy()
 
 
 #    def e_and_stress_for_plotting(self, **kwargs):
-- 
2.43.0


From 4362580de9c0389928a6377e0ffed86b651ab55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:43 +0000
Subject: [PATCH 14/70] fix: YinAndGrahamSoilModel CRSN/CRSS left the stress
 state (and _igral) changed after a simulation

---
 .../constitutive_models/void_ratio_stress.py     | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/geotecha/constitutive_models/void_ratio_stress.py b/geotecha/constitutive_models/void_ratio_stress.py
index b2db0c2..265007b 100644
--- a/geotecha/constitutive_models/void_ratio_stress.py
+++ b/geotecha/constitutive_models/void_ratio_stress.py
@@ -1854,7 +1854,9 @@ class YinAndGrahamSoilModel(OneDimensionalVoidRatioEffectiveStress):
 
         """
 
-        igral0 = self._igral # remember _igral value before CRSN simulation
+        # remember _igral and _estress values before CRSN simulation
+        igral0 = self._igral + 0
+        estress_start = self._estress.copy()
 
         method = kwargs.pop('method', 'step').lower()
         kwargs['dx']= kwargs.get('dx', (tvals[-1]  -tvals[0]) / 200)
@@ -1912,7 +1914,9 @@ class YinAndGrahamSoilModel(OneDimensionalVoidRatioEffectiveStress):
             for i, dt_ in enumerate(dt):
                 estress[i + 1] = self.stress_from_e(e[i+1], dt=dt_)
 
-        self._igral = igral0 # reset _igral to value before CRSN
+        # reset _igral and _estress to value before CRSN
+        self._igral = igral0
+        self._estress[:] = estress_start
 
         return tvals_, estress, e, edot_
 
@@ -1966,7 +1970,9 @@ class YinAndGrahamSoilModel(OneDimensionalVoidRatioEffectiveStress):
 
         """
 
-        igral0 = self._igral # remember _igral value before CRSS simulation
+        # remember _igral and _estress values before CRSS simulation
+        igral0 = self._igral + 0
+        estress_start = self._estress.copy()
 
         method = kwargs.pop('method', 'step').lower()
         kwargs['dx']= kwargs.get('dx', (tvals[-1]  -tvals[0]) / 200)
@@ -2022,7 +2028,9 @@ class YinAndGrahamSoilModel(OneDimensionalVoidRatioEffectiveStress):
             for i, dt_ in enumerate(dt):
                 e[i + 1] = self.e_from_stress(estress[i+1], dt=dt_)
 
-        self._igral = igral0 # reset _igral to value before CRSS
+        # reset _igral and _estress to value before CRSS
+        self._igral = igral0
+        self._estress[:] = estress_start
 
         return tvals_, estress, e, estressdot_
 
-- 
2.43.0


From 52431f8577ecfcee12e0a604c18602b2b291ac56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:20 +0000
Subject: [PATCH 15/70] fix: HansboNonDarcianFlowModel(kstar, n, iL) failed for
 the Darcy cases n=1 and iL=0 (misspelt attribute)

---
 geotecha/constitutive_models/velocity_hydraulic_gradient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/constitutive_models/velocity_hydraulic_gradient.py b/geotecha/constitutive_models/velocity_hydraulic_gradient.py
index a641235..c504124 100644
--- a/geotecha/constitutive_models/velocity_hydraulic_gradient.py
+++ b/geotecha/constitutive_models/velocity_hydraulic_gradient.py
@@ -418,7 +418,7 @@ class HansboNonDarcianFlowModel(OneDimensionalFlowRelationship):
                 self.n = 1
                 self.iL = 0
                 self.i0 = 0
-                self.k_linear = kstar
+                self.klinear = kstar
             else:
                 self.kstar = kstar
                 self.n = n
-- 
2.43.0


From b9bd2772bfb361cb51565c497f183bdf6a0ca828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:52 +0000
Subject: [PATCH 16/70] fix: SyntaxChecker.allow_ast rejected every number and
 string literal on Python 3.8+ (ast.Constant), so no input file could be read

---
 geotecha/inputoutput/inputoutput.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geotecha/inputoutput/inputoutput.py b/geotecha/inputoutput/inputoutput.py
index 3d4fc92..1ca590b 100644
--- a/geotecha/inputoutput/inputoutput.py
+++ b/geotecha/inputoutput/inputoutput.py
@@ -280,6 +280,9 @@ class SyntaxChecker(ast.NodeVisitor):
             #py34_addtional
             Bytes NameConstant #Nonlocal Starred Try YieldFrom arg
             withitem
+
+            #py38_additional
+            Constant
             """)
 
         for v in [a for a in s.split() if not a.startswith('#')]:
-- 
2.43.0


From be558e05d1f33708d0ff80d4b2167aed4507e24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:18 +0000
Subject: [PATCH 17/70] fix: Speccon1dVRW drain pore pressure used the
 un-normalised bottom gradient (drn=1)

---
 geotecha/speccon/speccon1d_vrw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/speccon/speccon1d_vrw.py b/geotecha/speccon/speccon1d_vrw.py
index 6025bd2..82107ef 100644
--- a/geotecha/speccon/speccon1d_vrw.py
+++ b/geotecha/speccon/speccon1d_vrw.py
@@ -1094,7 +1094,7 @@ class Speccon1dVRW(speccon1d.Speccon1d):
                             self.v_E_Igamv_the[:, self.ppress_z_tval_indexes])
         self.porwell = speccon1d.dim1sin_f(self.m, self.ppress_z, tvals,
                                v_E_Igamv_the, self.drn,
-                               self.top_vs_time, self.bot_vs_time,
+                               self.top_vs_time, bot_vs_time,
                                self.top_omega_phase, self.bot_omega_phase)
 
 
-- 
2.43.0


From f2e1195edc4c1a27681de75d76042a8bbef7e909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:18 +0000
Subject: [PATCH 18/70] fix: Speccon1dVRW drain pore pressure depended on the
 time normaliser dT

---
 geotecha/speccon/speccon1d_vrw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/speccon/speccon1d_vrw.py b/geotecha/speccon/speccon1d_vrw.py
index 82107ef..f299e33 100644
--- a/geotecha/speccon/speccon1d_vrw.py
+++ b/geotecha/speccon/speccon1d_vrw.py
@@ -1106,7 +1106,7 @@ class Speccon1dVRW(speccon1d.Speccon1d):
 
         #TODO: not entirely sure about dTw.  I think it is needed for the
         # theta cv part.
-        self.porwell += self.dTw * speccon1d.dim1sin_f(self.m, self.ppress_z,
+        self.porwell += self.dTw / self.dT * speccon1d.dim1sin_f(self.m, self.ppress_z,
                                             tvals, v_E_Igamv_the, self.drn)
         return
 
-- 
2.43.0


From 2cc42dd407b937594826e0039a775fa6e4a7915d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:56 +0000
Subject: [PATCH 19/70] fix: Speccon1dVRC boundary term of the column vertical
 flow used the soil share (I-G) instead of G

---
 geotecha/speccon/speccon1d_vrc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/speccon/speccon1d_vrc.py b/geotecha/speccon/speccon1d_vrc.py
index acd25b2..60893ed 100644
--- a/geotecha/speccon/speccon1d_vrc.py
+++ b/geotecha/speccon/speccon1d_vrc.py
@@ -1035,7 +1035,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
                 self.E_Igamv_the_BC += (self.dTvc *
                     speccon1d.dim1sin_E_Igamv_the_BC_D_aDf_linear(
                         self.drn, self.m, self.eigs, self.tvals,
-                        self.Igamv.dot(np.identity(self.neig, dtype=float)-G),
+                        self.Igamv.dot(G),
                         self.kvc, self.top_vs_time,
                         bot_vs_time, self.top_omega_phase,
                         self.bot_omega_phase, self.dT,
-- 
2.43.0


From 50913ab7cf55e65636c385b1aeaa25e9b2e38cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:56 +0000
Subject: [PATCH 20/70] fix: Speccon1dVRC soil and column pore pressures added
 the column boundary flow term instead of subtracting it

---
 geotecha/speccon/speccon1d_vrc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geotecha/speccon/speccon1d_vrc.py b/geotecha/speccon/speccon1d_vrc.py
index 60893ed..dc9128b 100644
--- a/geotecha/speccon/speccon1d_vrc.py
+++ b/geotecha/speccon/speccon1d_vrc.py
@@ -1090,7 +1090,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
                     self.kvc, self.top_vs_time, bot_vs_time,
                     self.top_omega_phase, self.bot_omega_phase)
             self.pors += speccon1d.dim1sin_f(self.m, self.ppress_z,
-                                             tvals, a+b, self.drn)
+                                             tvals, a-b, self.drn)
 
         #column pore pressure at depth
         self.porc = speccon1d.dim1sin_f(self.m, self.ppress_z,
@@ -1112,7 +1112,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
                     self.kvc, self.top_vs_time, bot_vs_time,
                     self.top_omega_phase, self.bot_omega_phase)
             self.porc += speccon1d.dim1sin_f(self.m, self.ppress_z,
-                                             tvals, a+b, self.drn)
+                                             tvals, a-b, self.drn)
         return
 
 
@@ -1163,7 +1163,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
                     self.kvc, self.top_vs_time, bot_vs_time,
                     self.top_omega_phase, self.bot_omega_phase)
             self.avps += speccon1d.dim1sin_avgf(self.m, self.avg_ppress_z_pairs,
-                                             tvals, a+b, self.drn)
+                                             tvals, a-b, self.drn)
 
         #column pore pressure at depth
         self.avpc = speccon1d.dim1sin_avgf(self.m, self.avg_ppress_z_pairs,
@@ -1185,7 +1185,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
                     self.kvc, self.top_vs_time, bot_vs_time,
                     self.top_omega_phase, self.bot_omega_phase)
             self.avpc += speccon1d.dim1sin_avgf(self.m, self.avg_ppress_z_pairs,
-                                             tvals, a+b, self.drn)
+                                             tvals, a-b, self.drn)
 
 
         return
-- 
2.43.0


From 34747799f9acf213b6c80cd34a85808716c1f471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:56 +0000
Subject: [PATCH 21/70] fix: Speccon1dVRC soil and column pore pressures
 depended on the time normaliser dT

---
 geotecha/speccon/speccon1d_vrc.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/geotecha/speccon/speccon1d_vrc.py b/geotecha/speccon/speccon1d_vrc.py
index dc9128b..e65a3a7 100644
--- a/geotecha/speccon/speccon1d_vrc.py
+++ b/geotecha/speccon/speccon1d_vrc.py
@@ -1077,13 +1077,13 @@ class Speccon1dVRC(speccon1d.Speccon1d):
             self.drn, self.top_vs_time, bot_vs_time,
             self.top_omega_phase, self.bot_omega_phase)
         if not self.top_vs_time is None or not self.bot_vs_time is None:
-            a = self.dTv * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
+            a = self.dTv / self.dT * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
                     self.drn, self.m, self.eigs,
                     tvals,
                     (self.bet01 + self.alp * self.bet02),
                     self.kv, self.top_vs_time, bot_vs_time,
                     self.top_omega_phase, self.bot_omega_phase)
-            b = self.dTvc * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
+            b = self.dTvc / self.dT * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
                     self.drn, self.m, self.eigs,
                     tvals,
                     (self.bet01 + self.alp * self.bet02),
@@ -1099,13 +1099,13 @@ class Speccon1dVRC(speccon1d.Speccon1d):
             self.drn, self.top_vs_time, bot_vs_time,
             self.top_omega_phase, self.bot_omega_phase)
         if not self.top_vs_time is None or not self.bot_vs_time is None:
-            a = self.dTv * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
+            a = self.dTv / self.dT * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
                     self.drn, self.m, self.eigs,
                     tvals,
                     (self.bet11 + self.alp * self.bet12),
                     self.kv, self.top_vs_time, bot_vs_time,
                     self.top_omega_phase, self.bot_omega_phase)
-            b = self.dTvc * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
+            b = self.dTvc / self.dT * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
                     self.drn, self.m, self.eigs,
                     tvals,
                     (self.bet11 + self.alp * self.bet12),
@@ -1150,13 +1150,13 @@ class Speccon1dVRC(speccon1d.Speccon1d):
             self.drn, self.top_vs_time, bot_vs_time,
             self.top_omega_phase, self.bot_omega_phase)
         if not self.top_vs_time is None or not self.bot_vs_time is None:
-            a = self.dTv * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
+            a = self.dTv / self.dT * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
                     self.drn, self.m, self.eigs,
                     tvals,
                     (self.bet01 + self.alp * self.bet02),
                     self.kv, self.top_vs_time, bot_vs_time,
                     self.top_omega_phase, self.bot_omega_phase)
-            b = self.dTvc * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
+            b = self.dTvc / self.dT * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
                     self.drn, self.m, self.eigs,
                     tvals,
                     (self.bet01 + self.alp * self.bet02),
@@ -1172,13 +1172,13 @@ class Speccon1dVRC(speccon1d.Speccon1d):
             self.drn, self.top_vs_time, bot_vs_time,
             self.top_omega_phase, self.bot_omega_phase)
         if not self.top_vs_time is None or not self.bot_vs_time is None:
-            a = self.dTv * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
+            a = self.dTv / self.dT * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
                     self.drn, self.m, self.eigs,
                     tvals,
                     (self.bet11 + self.alp * self.bet12),
                     self.kv, self.top_vs_time, bot_vs_time,
                     self.top_omega_phase, self.bot_omega_phase)
-            b = self.dTvc * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
+            b = self.dTvc / self.dT * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
                     self.drn, self.m, self.eigs,
                     tvals,
                     (self.bet11 + self.alp * self.bet12),
-- 
2.43.0


From a902e40bb31271cb33b2c1b249e53b5d4fe1e1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:42 +0000
Subject: [PATCH 22/70] fix: Speccon1dUnsat ignored the boundary pressures when
 all four of them were given

---
 geotecha/speccon/speccon1d_unsat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/speccon/speccon1d_unsat.py b/geotecha/speccon/speccon1d_unsat.py
index 9e4caab..be4cfb1 100644
--- a/geotecha/speccon/speccon1d_unsat.py
+++ b/geotecha/speccon/speccon1d_unsat.py
@@ -917,7 +917,7 @@ class Speccon1dUnsat(speccon1d.Speccon1d):
         if sum(v is None for v in[self.atop_vs_time,
                                   self.abot_vs_time,
                                   self.wtop_vs_time,
-                                  self.wbot_vs_time])!=0:
+                                  self.wbot_vs_time])<4:
             self._make_E_Igamv_the_BC()
             self.E_Igamv_the += self.E_Igamv_the_BC
 
-- 
2.43.0


From 9d1e49e81ab4fb476eb5b9ebbb3ee91c39144483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:42 +0000
Subject: [PATCH 23/70] fix: Speccon1dUnsat dropped the air flow boundary term
 when dTw was zero

---
 geotecha/speccon/speccon1d_unsat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/speccon/speccon1d_unsat.py b/geotecha/speccon/speccon1d_unsat.py
index be4cfb1..d62fead 100644
--- a/geotecha/speccon/speccon1d_unsat.py
+++ b/geotecha/speccon/speccon1d_unsat.py
@@ -1107,7 +1107,7 @@ class Speccon1dUnsat(speccon1d.Speccon1d):
                 theta_zero_indexes=topzero,
                 implementation=self.implementation))/ (self.mvref * self.ua_)
         #dTa * d/dZ(Da * du/dZ) component
-        if self.dTw!=0:
+        if self.dTa!=0:
             self.E_Igamv_the_BC -= (self.dTa *
                 speccon1d.dim1sin_E_Igamv_the_BC_D_aDf_linear(self.drn,
                     self.m_block, self.eigs, self.tvals, self.Igamv, self.Da,
-- 
2.43.0


From 18613fb9159da35c2114a96e8cf17a0cf788b538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:42 +0000
Subject: [PATCH 24/70] fix: Speccon1dUnsat water part of the air settlement
 was taken from the water settlement

---
 geotecha/speccon/speccon1d_unsat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/speccon/speccon1d_unsat.py b/geotecha/speccon/speccon1d_unsat.py
index d62fead..023b9fe 100644
--- a/geotecha/speccon/speccon1d_unsat.py
+++ b/geotecha/speccon/speccon1d_unsat.py
@@ -1244,7 +1244,7 @@ class Speccon1dUnsat(speccon1d.Speccon1d):
                      self.atop_vs_time, abot_vs_time,
                      self.atop_omega_phase, self.abot_omega_phase)
         # seta uw part
-        self.setw -= speccon1d.dim1sin_integrate_af(self.m,
+        self.seta -= speccon1d.dim1sin_integrate_af(self.m,
                      self.settlement_z_pairs,
                      self.tvals[self.settlement_z_pairs_tval_indexes],
                      self.v_E_Igamv_the[:self.neig ,self.settlement_z_pairs_tval_indexes],
-- 
2.43.0


From bd249ec898206c7cc41e8e94cb1a74563acb5798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:52 +0000
Subject: [PATCH 25/70] fix: drain and column flow boundary terms took the
 value before a step at the step itself, unlike the boundary pressure they
 accompany

---
 geotecha/speccon/speccon1d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotecha/speccon/speccon1d.py b/geotecha/speccon/speccon1d.py
index 9cf48ea..6032fec 100644
--- a/geotecha/speccon/speccon1d.py
+++ b/geotecha/speccon/speccon1d.py
@@ -2134,7 +2134,7 @@ def dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(drn,
             if not theta_zero_indexes is None:
                 theta[theta_zero_indexes] = 0.0
             for top_vs_t, om_ph in zip(top_vs_time, top_omega_phase):
-                E = pwise.pinterp_x_y(top_vs_t, tvals)
+                E = pwise.pinterp_x_y(top_vs_t, tvals, choose_max=True)
                 if not om_ph is None:
                     omega, phase = om_ph
                     E*= np.cos(omega * tvals + phase)
@@ -2148,7 +2148,7 @@ def dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(drn,
             if not theta_zero_indexes is None:
                 theta[theta_zero_indexes] = 0.0
             for bot_vs_t, om_ph in zip(bot_vs_time, bot_omega_phase):
-                E = pwise.pinterp_x_y(bot_vs_t, tvals)
+                E = pwise.pinterp_x_y(bot_vs_t, tvals, choose_max=True)
                 if not om_ph is None:
                     omega, phase = om_ph
                     E*= np.cos(omega * tvals + phase)
-- 
2.43.0


From e5c6d42db6dece286d29542720d02e95b8b8f233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:17 +0000
Subject: [PATCH 26/70] fix: start_index_of_constants/steps removed repeated
 points by position, dropping other segments

---
 geotecha/piecewise/piecewise_linear_1d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotecha/piecewise/piecewise_linear_1d.py b/geotecha/piecewise/piecewise_linear_1d.py
index 7a2e869..e2c8bc5 100644
--- a/geotecha/piecewise/piecewise_linear_1d.py
+++ b/geotecha/piecewise/piecewise_linear_1d.py
@@ -369,7 +369,7 @@ def start_index_of_constants(x, y):
     y = np.asarray(y)
 
 
-    return np.delete(np.where(np.diff(y)==0)[0], np.where((np.diff(x)==0) & (np.diff(y)==0))[0])
+    return np.where((np.diff(x)!=0) & (np.diff(y)==0))[0]
 
 
 def start_index_of_steps(x, y):
@@ -397,7 +397,7 @@ def start_index_of_steps(x, y):
     y = np.asarray(y)
 
 
-    return np.delete(np.where(np.diff(x)==0)[0], np.where((np.diff(x)==0) & (np.diff(y)==0))[0])
+    return np.where((np.diff(x)==0) & (np.diff(y)!=0))[0]
 
 
 def segment_containing_xi(x, xi, subset=None, choose_max=False):
-- 
2.43.0


From 077348cc57cfaf41f6becd8a5a925f9109c00ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:17 +0000
Subject: [PATCH 27/70] fix: is_initially_increasing returned True for
 decreasing data that begins with a step

---
 geotecha/piecewise/piecewise_linear_1d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geotecha/piecewise/piecewise_linear_1d.py b/geotecha/piecewise/piecewise_linear_1d.py
index e2c8bc5..46de3f3 100644
--- a/geotecha/piecewise/piecewise_linear_1d.py
+++ b/geotecha/piecewise/piecewise_linear_1d.py
@@ -73,7 +73,8 @@ def is_initially_increasing(x):
     if x[1] != x[0]:
         return x[1] > x[0]
     x = np.asarray(x)
-    return np.where(np.diff(x) != 0)[0][0] > 0
+    dx = np.diff(x)
+    return dx[dx != 0][0] > 0
 
 
 #used info from http://stackoverflow.com/questions/4983258/python-how-to-check-list-monotonicity
-- 
2.43.0


From f6a9ae79afc7083ae0b180d85bd065021b24c9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:17 +0000
Subject: [PATCH 28/70] fix: adding a scalar to a PolyLine changed the PolyLine
 itself

---
 geotecha/piecewise/piecewise_linear_1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/piecewise/piecewise_linear_1d.py b/geotecha/piecewise/piecewise_linear_1d.py
index 46de3f3..bf0ae9c 100644
--- a/geotecha/piecewise/piecewise_linear_1d.py
+++ b/geotecha/piecewise/piecewise_linear_1d.py
@@ -2553,7 +2553,7 @@ class PolyLine(object):
 
 
         try:
-            return PolyLine(self.x, iop(self.y, other))
+            return PolyLine(self.x, op(self.y, other))
 #            a = copy.deepcopy(self)
 #            #a._xy[:,1] += other
 #
-- 
2.43.0


From 1fc69cd2eb9fb8432387b392dfff82bf52064e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:17 +0000
Subject: [PATCH 29/70] fix: combining PolyLines with different break points
 built a ragged point list (ValueError with current numpy)

---
 geotecha/piecewise/piecewise_linear_1d.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geotecha/piecewise/piecewise_linear_1d.py b/geotecha/piecewise/piecewise_linear_1d.py
index bf0ae9c..242cae0 100644
--- a/geotecha/piecewise/piecewise_linear_1d.py
+++ b/geotecha/piecewise/piecewise_linear_1d.py
@@ -2529,7 +2529,7 @@ class PolyLine(object):
                     y1 = data[j[0], 1]
                     y1_= data[j[-1],1]
                 else: #interpolate
-                    y1 = interp_x_y(xa, ya, x, choose_max=False)
+                    y1 = interp_x_y(xa, ya, x, choose_max=False)[0]
                     y1_= y1
 
                 j = np.where((ind) & (data[:, 2] == 1))[0]
@@ -2538,7 +2538,7 @@ class PolyLine(object):
                     y2 = data[j[0], 1]
                     y2_= data[j[-1],1]
                 else: #interpolate
-                    y2 = interp_x_y(xb, yb, x, choose_max=False)
+                    y2 = interp_x_y(xb, yb, x, choose_max=False)[0]
                     y2_= y2
 
                 y = op(y1, y2)
@@ -2637,7 +2637,7 @@ def polyline_make_x_common(*p_lines):
                 y1 = data[j[0], 1]
                 y1_= data[j[-1],1]
             else: #interpolate
-                y1 = interp_x_y(xa[k], ya[k], x, choose_max=False)
+                y1 = interp_x_y(xa[k], ya[k], x, choose_max=False)[0]
                 y1_= y1
             pnts[k].append([x,y1])
             if abs(y1 - y1_)> (atol + rtol * abs(y1_)):
-- 
2.43.0


From 9cbb08551b89c9e0d638b16046c02f0aeb59ce98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:30 +0000
Subject: [PATCH 30/70] fix: subdivide_x(_y)_into_segments overwrote the
 caller's zeros on log axes, and failed to build the message for negative
 values

---
 geotecha/piecewise/piecewise_linear_1d.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/geotecha/piecewise/piecewise_linear_1d.py b/geotecha/piecewise/piecewise_linear_1d.py
index 242cae0..04ff1cc 100644
--- a/geotecha/piecewise/piecewise_linear_1d.py
+++ b/geotecha/piecewise/piecewise_linear_1d.py
@@ -2712,8 +2712,8 @@ def subdivide_x_y_into_segments(x, y, dx=None, min_segments = 2,
     """
 
 
-    x = np.asarray(x, dtype=float)
-    y = np.asarray(y, dtype=float)
+    x = np.array(x, dtype=float)
+    y = np.array(y, dtype=float)
 
 
     if len(x)!=len(y):
@@ -2723,13 +2723,13 @@ def subdivide_x_y_into_segments(x, y, dx=None, min_segments = 2,
         x[np.abs(x) <= (atol + rtol * np.abs(x))] = logxzero
         if np.any(x<0):
             raise ValueError('When logx=True cannot have negative '
-                                'x values, x=' + x)
+                                'x values, x=' + str(x))
         x = np.log10(x)
     if logy:
         y[np.abs(y) <= (atol + rtol * np.abs(y))] = logyzero
         if np.any(y<0):
             raise ValueError('When logy=True cannot have negative '
-                                'y values, y=' + x)
+                                'y values, y=' + str(y))
         y = np.log10(y)
 
 
@@ -2834,7 +2834,7 @@ def subdivide_x_into_segments(x, dx=None, min_segments=2,
     """
 
 
-    x = np.asarray(x, dtype=float)
+    x = np.array(x, dtype=float)
 
 
 
@@ -2842,7 +2842,7 @@ def subdivide_x_into_segments(x, dx=None, min_segments=2,
         x[np.abs(x) <= (atol + rtol * np.abs(x))] = logxzero
         if np.any(x<0):
             raise ValueError('When logx=True cannot have negative '
-                                'x values, x=' + x)
+                                'x values, x=' + str(x))
         x = np.log10(x)
 
 
-- 
2.43.0


From a61f891ad7d69e5fba9e40f9c71cf5742c4d1575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:30 +0000
Subject: [PATCH 31/70] fix: force_strictly_increasing changed the caller's
 array (and had no effect on integer data)

---
 geotecha/piecewise/piecewise_linear_1d.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geotecha/piecewise/piecewise_linear_1d.py b/geotecha/piecewise/piecewise_linear_1d.py
index 04ff1cc..29b20bc 100644
--- a/geotecha/piecewise/piecewise_linear_1d.py
+++ b/geotecha/piecewise/piecewise_linear_1d.py
@@ -286,6 +286,7 @@ def force_strictly_increasing(x, y = None, keep_end_points = True, eps = 1e-15):
         d = 1
         dx = np.arange(1, len(steps) + 1) * f
 
+    x = np.array(x, dtype=float)
     x[steps + d] = x[steps + d] + dx
     return x, y
 
-- 
2.43.0


From cc17aa13331c526273992e4beaad34592581cafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:23 +0000
Subject: [PATCH 32/70] fix: layer_coords passed a float number of points to
 linspace (TypeError with current numpy)

---
 geotecha/piecewise/piecewise_linear_1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/piecewise/piecewise_linear_1d.py b/geotecha/piecewise/piecewise_linear_1d.py
index 29b20bc..c80657e 100644
--- a/geotecha/piecewise/piecewise_linear_1d.py
+++ b/geotecha/piecewise/piecewise_linear_1d.py
@@ -2921,7 +2921,7 @@ def layer_coords(h, segs, min_segs=1):
     z2 = np.cumsum(h)
     z1 = z2 - h
     dx = np.sum(h) / segs
-    num = [max(height//dx, min_segs) for height in h]
+    num = [int(max(height//dx, min_segs)) for height in h]
 
     zlist = [np.linspace(z1_, z2_, num_, endpoint=False) for (z1_, z2_, num_) in zip(z1, z2, num)]
     zlist.append([z2[-1]])
-- 
2.43.0


From 6e4ea1172dd4529857c9e442d8d87a8d46ed1a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:37 +0000
Subject: [PATCH 33/70] fix: gl_quad and gk_quad indexed arrays with a list of
 slices (IndexError with current numpy)

---
 geotecha/mathematics/quadrature.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotecha/mathematics/quadrature.py b/geotecha/mathematics/quadrature.py
index 0f56169..06d0424 100644
--- a/geotecha/mathematics/quadrature.py
+++ b/geotecha/mathematics/quadrature.py
@@ -1248,7 +1248,7 @@ def gk_quad(f, a, b, args=(), n=10, sum_intervals=False):
     #get shape of output with scalar argument and form a slice that will ensure
     #any extra dims are appended to the args.
     extra = np.array(f(xij.flat[0], *args))
-    gen_slice = [slice(None)] * xij.ndim + [None] * extra.ndim
+    gen_slice = tuple([slice(None)] * xij.ndim + [None] * extra.ndim)
 
     fij = f(xij[gen_slice], *args)
 
@@ -1332,7 +1332,7 @@ def gl_quad(f, a, b, args=(), n=10, shanks_ind=False, sum_intervals=False):
     #get shape of output with scalar argument and form a slice that will ensure
     #any extra dims are appended to the args.
     extra = np.array(f(xij.flat[0], *args))
-    gen_slice = [slice(None)] * xij.ndim + [None] * extra.ndim
+    gen_slice = tuple([slice(None)] * xij.ndim + [None] * extra.ndim)
 
     fij = f(xij[gen_slice], *args)
 
-- 
2.43.0


From e5b0543cc5b4f9db8364305185b9df7817a1826d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:37 +0000
Subject: [PATCH 34/70] fix: n_integral_transform used collections.Callable,
 which current Python does not have

---
 geotecha/mathematics/multi_transform.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/geotecha/mathematics/multi_transform.py b/geotecha/mathematics/multi_transform.py
index 5afff1e..873838e 100644
--- a/geotecha/mathematics/multi_transform.py
+++ b/geotecha/mathematics/multi_transform.py
@@ -29,7 +29,6 @@ from numpy.testing import assert_allclose
 from geotecha.mathematics.laplace import Talbot
 from geotecha.mathematics.hankel import HankelTransform
 from geotecha.mathematics.fourier import FourierTransform
-import collections
 
 
 
@@ -148,7 +147,7 @@ def ntransform(func, transforms, transvars, args=None, opts=None):
     if isinstance(opts, dict):
         opts = [opts] * depth
     else:
-        opts = [opt if isinstance(opt, collections.Callable) else
+        opts = [opt if callable(opt) else
                 _OptFunc(opt) for opt in opts]
 
     return _NTransform(func, transforms,
-- 
2.43.0


From ed14c3b9c0cde97184f04caba223f953e3cc9ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:46 +0000
Subject: [PATCH 35/70] fix: Legend.draggable no longer exists in matplotlib;
 use set_draggable

---
 geotecha/beam_on_foundation/dingetal2012.py   |  2 +-
 geotecha/beam_on_foundation/specbeam.py       | 56 +++++++++----------
 geotecha/consolidation/dengetal2013and2014.py |  8 +--
 geotecha/consolidation/luetal2010.py          |  2 +-
 geotecha/consolidation/shanetal2012.py        |  4 +-
 geotecha/consolidation/xieandleo2004.py       | 10 ++--
 geotecha/constitutive_models/swcc.py          |  4 +-
 .../constitutive_models/void_ratio_stress.py  |  2 +-
 geotecha/plotting/one_d.py                    |  6 +-
 .../speccon/speccon1d_unsat_interactive.py    |  6 +-
 10 files changed, 50 insertions(+), 50 deletions(-)

diff --git a/geotecha/beam_on_foundation/dingetal2012.py b/geotecha/beam_on_foundation/dingetal2012.py
index 09a7b20..8eebbd7 100644
--- a/geotecha/beam_on_foundation/dingetal2012.py
+++ b/geotecha/beam_on_foundation/dingetal2012.py
@@ -481,7 +481,7 @@ def dingetal_figure_8():
             f.write("Run time={}".format(str(timedelta(seconds=elapsed_time))) + os.linesep)
         
         leg = ax.legend()
-        leg.draggable()
+        leg.set_draggable(True)
           
         end_time0 = time.time()
         elapsed_time = (end_time0 - start_time0); print("Total run time={}".format(str(timedelta(seconds=elapsed_time))))
diff --git a/geotecha/beam_on_foundation/specbeam.py b/geotecha/beam_on_foundation/specbeam.py
index 6c155bc..36b84f6 100644
--- a/geotecha/beam_on_foundation/specbeam.py
+++ b/geotecha/beam_on_foundation/specbeam.py
@@ -1256,7 +1256,7 @@ class SpecBeam(object):
             ax.set_ylabel("w")
 
         leg = ax.legend()
-        leg.draggable()
+        leg.set_draggable(True)
 
 
         return ax
@@ -1842,7 +1842,7 @@ class MovingPointLoads(object):
         ax.set_ylabel("magnitude")
         leg = ax.legend(title ="$i,\\omega,\\phi$",
                         labelspacing=0)
-        leg.draggable(0)
+        leg.set_draggable(0)
 
         return ax
 
@@ -2353,7 +2353,7 @@ def dingetal_figure_8(v_nterms=(50,75,150,200)):
             f.write("Run time={}".format(str(timedelta(seconds=elapsed_time))) + os.linesep)
 
         leg = ax.legend()
-        leg.draggable()
+        leg.set_draggable(True)
 
         end_time0 = time.time()
         elapsed_time = (end_time0 - start_time0); print("Total run time={}".format(str(timedelta(seconds=elapsed_time))))
@@ -2544,7 +2544,7 @@ def SpecBeam_const_mat_midpoint_defl_runme_analytical_play():
                 color='red', marker='s', ms=4, ls=':')
 
         leg = ax.legend(loc='upper left')
-        leg.draggable()
+        leg.set_draggable(True)
 
         plt.show()
 
@@ -3154,7 +3154,7 @@ def FIGURE_defl_envelope_vary_velocity(velocities_norm=(0.01165,),saveas=None,nt
                         handlelength=2,
                         fontsize=8
                         )
-        leg.draggable()
+        leg.set_draggable(True)
 
         ax.xaxis.labelpad = -1
         ax.yaxis.labelpad = 0
@@ -3367,7 +3367,7 @@ def FIGURE_DAF_constant_prop(saveas=None,nterms=100,force_calc=True,prefix="",
                         handlelength=2,
                         fontsize=8
                         )
-        leg.draggable()
+        leg.set_draggable(True)
 
         ax.xaxis.labelpad = -1
         ax.yaxis.labelpad = 0
@@ -3703,7 +3703,7 @@ def FIGURE_DAF_transition_length_esveld(saveas=None,k_ratio=4,beta=0.1,nterms=10
                         handlelength=2,
                         fontsize=8
                         )
-        leg.draggable()
+        leg.set_draggable(True)
 
         ax.xaxis.labelpad = -1
         ax.yaxis.labelpad = 0
@@ -3883,7 +3883,7 @@ def FIGURE_DAFwrtinf_transition_length(saveas=None,k_ratio=4,beta=0.1,nterms=100
                         handlelength=2,
                         fontsize=8
                         )
-        leg.draggable()
+        leg.set_draggable(True)
         ax2.xaxis.labelpad = -1
         ax2.yaxis.labelpad = 0
         fig2.subplots_adjust(**adjust)
@@ -3910,7 +3910,7 @@ def FIGURE_DAFwrtinf_transition_length(saveas=None,k_ratio=4,beta=0.1,nterms=100
                         handlelength=2,
                         fontsize=8
                         )
-        leg.draggable()
+        leg.set_draggable(True)
 
         ax.xaxis.labelpad = -1
         ax.yaxis.labelpad = 0
@@ -4092,7 +4092,7 @@ def FIGURE_DAFwrtinf_transition_lengthrev(saveas=None,k_ratio=4,beta=0.1,nterms=
                         handlelength=2,
                         fontsize=8
                         )
-        leg.draggable()
+        leg.set_draggable(True)
         ax2.xaxis.labelpad = -1
         ax2.yaxis.labelpad = 0
         fig2.subplots_adjust(**adjust)
@@ -4119,7 +4119,7 @@ def FIGURE_DAFwrtinf_transition_lengthrev(saveas=None,k_ratio=4,beta=0.1,nterms=
                         handlelength=2,
                         fontsize=8
                         )
-        leg.draggable()
+        leg.set_draggable(True)
 
         ax.xaxis.labelpad = -1
         ax.yaxis.labelpad = 0
@@ -4320,7 +4320,7 @@ def FIGURE_DAFwrtinf_transition_length_betaconst(saveas=None,k_ratio=4,beta=0.1,
                         handlelength=2,
                         fontsize=8
                         )
-        leg.draggable()
+        leg.set_draggable(True)
         ax2.xaxis.labelpad = -1
         ax2.yaxis.labelpad = 0
         fig2.subplots_adjust(**adjust)
@@ -4347,7 +4347,7 @@ def FIGURE_DAFwrtinf_transition_length_betaconst(saveas=None,k_ratio=4,beta=0.1,
                         handlelength=2,
                         fontsize=8
                         )
-        leg.draggable()
+        leg.set_draggable(True)
 
         ax.xaxis.labelpad = -1
         ax.yaxis.labelpad = 0
@@ -4498,7 +4498,7 @@ def esveld_fig6p18():
             DAF[i] = mx
         ax.plot(alpha, DAF, label="$\\beta=" + str(bet) + "$")
     leg = ax.legend()
-    leg.draggable()
+    leg.set_draggable(True)
     ax.set_ylim([0,4])
     ax.set_xlim([0,3])
     ax.grid()
@@ -7030,7 +7030,7 @@ def case_study_PaixaoEtAl2014(
         ax.set_xlim(50, -5)
         leg = ax.legend(fontsize=8,
                         loc='upper left')
-        leg.draggable()
+        leg.set_draggable(True)
         fig.subplots_adjust(top=0.95, bottom=0.13, left=0.19, right=0.9)
         ####################
         #Kplot
@@ -7048,12 +7048,12 @@ def case_study_PaixaoEtAl2014(
 
             leg = axs[i].legend(fontsize=8,
                     loc='lower left')
-            leg.draggable()
+            leg.set_draggable(True)
 
         leg = ax2.legend(fontsize=8,
                         loc='upper left',
                         numpoints=1)
-        leg.draggable()
+        leg.set_draggable(True)
 
         #displacemetn vs tiem at points plot
         ###################
@@ -7340,7 +7340,7 @@ def transition_DAF1_at_specific_alp(saveas=None,
         elapsed_time = (end_time1 - start_time1); print("Run time={}".format(str(timedelta(seconds=elapsed_time))))
 
     leg = ax.legend()
-    leg.draggable()
+    leg.set_draggable(True)
     leg = ax.legend(
 #                    title="$\\beta$",
 #                    loc="upper center",
@@ -7937,7 +7937,7 @@ def transition_zones1(
                     fontsize=8,
                     numpoints=1,
                         )
-    leg.draggable()
+    leg.set_draggable(True)
 
     ax2.xaxis.labelpad = -1
     ax2.yaxis.labelpad = 0
@@ -7960,7 +7960,7 @@ def transition_zones1(
                     fontsize=8,
                     numpoints=1,
                     loc="center left",)
-        leg.draggable()
+        leg.set_draggable(True)
 
     ax5.set_xlabel('$Time (s)$')
     ax5.set_ylabel('$w/w_{static1}$')
@@ -7972,7 +7972,7 @@ def transition_zones1(
                 numpoints=1,
                 loc="lower right",)
 
-    leg.draggable()
+    leg.set_draggable(True)
     fig5.subplots_adjust(top=0.95, bottom=0.13, left=0.15, right=0.95)
     if not saveas is None:
 
@@ -8407,7 +8407,7 @@ def transition_zones2(animateme=False,
                     fontsize=8,
                     numpoints=1,
                         )
-    leg.draggable()
+    leg.set_draggable(True)
 
     ax2.xaxis.labelpad = -1
     ax2.yaxis.labelpad = 0
@@ -8427,7 +8427,7 @@ def transition_zones2(animateme=False,
                     handlelength=2,
                     fontsize=8,
                     numpoints=1)
-        leg.draggable()
+        leg.set_draggable(True)
 
     ax5.set_xlabel('$time$')
     ax5.set_ylabel('$w/w_{static1}$')
@@ -8438,7 +8438,7 @@ def transition_zones2(animateme=False,
                 fontsize=8,
                 numpoints=1)
 
-    leg.draggable()
+    leg.set_draggable(True)
 
 
     for i, alp in enumerate(alphas):
@@ -8501,7 +8501,7 @@ def transition_zones2(animateme=False,
                      handletextpad=0.1,
                      borderpad=0.2,
                      columnspacing=0.2)
-    leg.draggable()
+    leg.set_draggable(True)
 #        for k, Lt_Lcs in enumerate(Lt_Lcs):
     fig6.subplots_adjust(top=0.98, bottom=0.15, left=0.18, right=0.98)
 
@@ -8817,7 +8817,7 @@ def FIG_DAF_envelope_vary_beta(ax=None, betas=None, alphas=None,
                     fontsize=8,
                     numpoints=1,
                         )
-    leg.draggable()
+    leg.set_draggable(True)
 
     ax.xaxis.labelpad = -1
     ax.yaxis.labelpad = 0
@@ -8975,7 +8975,7 @@ def specbeam_vs_analytical_single_static_load():
     ax.set_title('Single static load at beam midpoint')
 
     leg = ax.legend()
-    leg.draggable()
+    leg.set_draggable(True)
 
     mytimer.finish(0)
     plt.show()
@@ -9600,7 +9600,7 @@ if __name__ == "__main__":
                 f.write("Run time={}".format(str(timedelta(seconds=elapsed_time))) + os.linesep)
 
             leg = ax.legend()
-            leg.draggable()
+            leg.set_draggable(True)
 
             end_time0 = time.time()
             elapsed_time = (end_time0 - start_time0); print("Total run time={}".format(str(timedelta(seconds=elapsed_time))))
diff --git a/geotecha/consolidation/dengetal2013and2014.py b/geotecha/consolidation/dengetal2013and2014.py
index e63fc59..857e418 100644
--- a/geotecha/consolidation/dengetal2013and2014.py
+++ b/geotecha/consolidation/dengetal2013and2014.py
@@ -378,7 +378,7 @@ if __name__ == "__main__":
             plt.plot(x,y, label=key, marker='s', linestyle='None')
 
         leg = plt.legend(loc=3 )
-        leg.draggable()
+        leg.set_draggable(True)
         plt.gca().set_xlabel('Pore pressure')
         plt.gca().set_ylabel('Depth')
         plt.gca().invert_yaxis()
@@ -463,7 +463,7 @@ if __name__ == "__main__":
             plt.plot(x,y, label=key, marker='s', linestyle='None')
 
         leg = plt.legend(loc=3 )
-        leg.draggable()
+        leg.set_draggable(True)
         plt.gca().set_xlabel('Pore pressure')
         plt.gca().set_ylabel('Depth')
         plt.gca().invert_yaxis()
@@ -526,7 +526,7 @@ if __name__ == "__main__":
             plt.plot(x,y, label=key, marker='s', linestyle='None')
 
         leg = plt.legend(loc=3 )
-        leg.draggable()
+        leg.set_draggable(True)
         plt.gca().set_xlabel('Pore pressure')
         plt.gca().set_ylabel('Depth')
         plt.gca().invert_yaxis()
@@ -678,7 +678,7 @@ if __name__ == "__main__":
             plt.plot(x,y, label=key, marker='s', linestyle='None', markersize=7)
 
         leg = plt.legend(loc=3 )
-        leg.draggable()
+        leg.set_draggable(True)
         plt.gca().set_xlabel('Pore pressure')
         plt.gca().set_ylabel('Depth')
         plt.gca().invert_yaxis()
diff --git a/geotecha/consolidation/luetal2010.py b/geotecha/consolidation/luetal2010.py
index ec9215e..6515481 100644
--- a/geotecha/consolidation/luetal2010.py
+++ b/geotecha/consolidation/luetal2010.py
@@ -238,7 +238,7 @@ if __name__ == '__main__':
         ax.set_xlim(0,1)
         ax.grid()
         leg = plt.legend(loc=3 )
-        leg.draggable()
+        leg.set_draggable(True)
 
     fig=plt.figure()
     ax = fig.add_subplot(1,1,1)
diff --git a/geotecha/consolidation/shanetal2012.py b/geotecha/consolidation/shanetal2012.py
index 9733f67..e3e5cc1 100644
--- a/geotecha/consolidation/shanetal2012.py
+++ b/geotecha/consolidation/shanetal2012.py
@@ -566,7 +566,7 @@ if __name__ == '__main__':
         ax.grid()
         ax.set_title(title)
         leg = plt.legend(loc=3 )
-        leg.draggable()
+        leg.set_draggable(True)
 
 
 
@@ -581,7 +581,7 @@ if __name__ == '__main__':
     ax.grid()
     ax.set_title(title)
     leg = plt.legend(loc=3 )
-    leg.draggable()
+    leg.set_draggable(True)
 
 
 
diff --git a/geotecha/consolidation/xieandleo2004.py b/geotecha/consolidation/xieandleo2004.py
index 1941e1d..ff551cb 100644
--- a/geotecha/consolidation/xieandleo2004.py
+++ b/geotecha/consolidation/xieandleo2004.py
@@ -978,7 +978,7 @@ class XieAndLeo2004(object):
         ax.set_xscale('log')
         ax.grid()
         leg = plt.legend(loc=3 )
-        leg.draggable()
+        leg.set_draggable(True)
 
         #u vs depth
         ax = fig.add_subplot(2,4,2)
@@ -1005,7 +1005,7 @@ class XieAndLeo2004(object):
                          ncol=len(t))
 
 
-        leg.draggable()
+        leg.set_draggable(True)
 
         #total pore pressure vs depth
         ax = fig.add_subplot(2,4,6)
@@ -1191,7 +1191,7 @@ def xie_and_leo_2004_figure_4(ax=None):
         label='$U_s={Us:6.3g},\hspace{{0.5}}T_v={Tv:6.3g},\hspace{{0.5}}'
          't={t:6.3g}$'.format(Tv=obj.dTv*t_, t=t_, Us=Us_))
     leg = ax.legend(loc=1, labelspacing=0.0, fontsize=11)
-    leg.draggable()
+    leg.set_draggable(True)
     return
 
 
@@ -1248,7 +1248,7 @@ def xie_and_leo_2004_figure_5(ax=None):
         label='$U_s={Us:6.3g},\hspace{{0.5}}T_v={Tv:6.3g},\hspace{{0.5}}'
          't={t:6.3g}$'.format(Tv=obj.dTv*t_, t=t_, Us=Us_))
     leg = ax.legend(loc=1, labelspacing=0.0, fontsize=11)
-    leg.draggable()
+    leg.set_draggable(True)
     return
 
 
@@ -1344,7 +1344,7 @@ def xie_and_leo_2004_figure_6(ax=None):
 
 
     leg = ax.legend(lines, labels,loc=1, labelspacing=0.0, fontsize=12)
-    leg.draggable()
+    leg.set_draggable(True)
 
 
 
diff --git a/geotecha/constitutive_models/swcc.py b/geotecha/constitutive_models/swcc.py
index ed8d9d6..56ab512 100644
--- a/geotecha/constitutive_models/swcc.py
+++ b/geotecha/constitutive_models/swcc.py
@@ -223,7 +223,7 @@ class SWCC_FredlundAndXing1994(SWCC):
             ax.set_xlabel('$\\psi$')
             ax.set_ylabel('$dw/d\\psi$')
         leg = ax.legend(loc=4)
-        leg.draggable()
+        leg.set_draggable(True)
 #            print(np.isclose(slope_a, slope_n))
 #            print(slope_a-slope_n)
         plt.show()
@@ -595,7 +595,7 @@ class SWCC_PhamAndFredlund2008(SWCC):
             ax.set_xlabel('$\\psi$')
             ax.set_ylabel('$dw/d\\psi$')
         leg = ax.legend(loc=4)
-        leg.draggable()
+        leg.set_draggable(True)
 #            print(np.isclose(slope_a, slope_n))
 #            print(slope_a-slope_n)
         plt.show()
diff --git a/geotecha/constitutive_models/void_ratio_stress.py b/geotecha/constitutive_models/void_ratio_stress.py
index 265007b..3b255d9 100644
--- a/geotecha/constitutive_models/void_ratio_stress.py
+++ b/geotecha/constitutive_models/void_ratio_stress.py
@@ -2076,5 +2076,5 @@ if __name__ == '__main__':
         plt.plot(estress, e, label='step', marker='o', ms=2)
         plt.gca().set_xscale('log')
         leg = plt.gca().legend()
-        leg.draggable()
+        leg.set_draggable(True)
         plt.show()
\ No newline at end of file
diff --git a/geotecha/plotting/one_d.py b/geotecha/plotting/one_d.py
index aeb02c2..e2278c5 100644
--- a/geotecha/plotting/one_d.py
+++ b/geotecha/plotting/one_d.py
@@ -1443,7 +1443,7 @@ def plot_generic_loads(load_triples, load_names, ylabels=None,
 
         if has_legend:
             leg = ax1[-1].legend(**legend_prop)
-            leg.draggable(True)
+            leg.set_draggable(True)
             plt.setp(leg.get_title(),fontsize=legend_prop['fontsize'])
         #load_vs_depth plot stuff
 
@@ -1586,7 +1586,7 @@ def plot_vs_time(t, y, line_labels=None, prop_dict={}):
 
     if has_legend:
         leg = fig.gca().legend(**legend_prop)
-        leg.draggable(True)
+        leg.set_draggable(True)
         plt.setp(leg.get_title(),fontsize=legend_prop['fontsize'])
     return fig
 
@@ -1962,7 +1962,7 @@ def plot_vs_depth(x, z, line_labels=None, H = 1.0, RLzero=None,
 
     if has_legend:
         leg = fig.gca().legend(**legend_prop)
-        leg.draggable(True)
+        leg.set_draggable(True)
         plt.setp(leg.get_title(),fontsize=legend_prop['fontsize'])
     return fig
 
diff --git a/geotecha/speccon/speccon1d_unsat_interactive.py b/geotecha/speccon/speccon1d_unsat_interactive.py
index 141d476..cce28d5 100644
--- a/geotecha/speccon/speccon1d_unsat_interactive.py
+++ b/geotecha/speccon/speccon1d_unsat_interactive.py
@@ -222,7 +222,7 @@ figure_ext='.png'
         ax.set_xlim(0)
         ax.grid()
         leg = plt.legend(loc=3 )
-        leg.draggable()
+        leg.set_draggable(True)
 
         fig = plt.figure()
         ax=fig.add_subplot('111')
@@ -234,7 +234,7 @@ figure_ext='.png'
         ax.set_xlim(0)
         ax.grid()
         leg = plt.legend(loc=3 )
-        leg.draggable()
+        leg.set_draggable(True)
 
 
         fig = plt.figure()
@@ -247,7 +247,7 @@ figure_ext='.png'
         ax.set_xlim(0)
         ax.grid()
         leg = plt.legend(loc=3 )
-        leg.draggable()
+        leg.set_draggable(True)
         plt.show()
 
 
-- 
2.43.0


From 44c857700db7dcc315a3f9b31c77ea99477f02df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:46 +0000
Subject: [PATCH 36/70] fix: row_major_order_reverse_map indexed an array with
 a list of slices

---
 geotecha/plotting/one_d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/plotting/one_d.py b/geotecha/plotting/one_d.py
index e2278c5..88ac59a 100644
--- a/geotecha/plotting/one_d.py
+++ b/geotecha/plotting/one_d.py
@@ -979,7 +979,7 @@ def row_major_order_reverse_map(shape, index_steps=None, transpose=False):
 
     pos=np.arange(np.product(shape)).reshape(shape)
     a=[slice(None,None,i) for i in index_steps]
-    pos[...]=pos[a]
+    pos[...]=pos[tuple(a)]
 
     if transpose:
         return pos.T.flatten()
-- 
2.43.0


From 6c800428f9eec4bb751adb058c2590d92485ab11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:42 +0000
Subject: [PATCH 37/70] fix: pxa_ya_cos_multiply_integrate...super rejected a
 single (omega, phase) tuple

---
 geotecha/piecewise/piecewise_linear_1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/piecewise/piecewise_linear_1d.py b/geotecha/piecewise/piecewise_linear_1d.py
index c80657e..217c5b8 100644
--- a/geotecha/piecewise/piecewise_linear_1d.py
+++ b/geotecha/piecewise/piecewise_linear_1d.py
@@ -2073,7 +2073,7 @@ def pxa_ya_cos_multiply_integrate_x1b_x2b_y1b_y2b_multiply_x1c_x2c_y1c_y2c_betwe
         b = [b]
     if omega_phase is None:
         omega_phase = [None] * len(a)
-    if not isinstance(b, list):
+    if not isinstance(omega_phase, list):
         omega_phase = [omega_phase]
 
     if len(a)!=len(b):
-- 
2.43.0


From f782ae03f44fca435328a9e8aed118d74d8100a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:19 +0000
Subject: [PATCH 38/70] fix: PolyLine arithmetic with an unsupported operand
 exited silently (status 0) or raised NameError; raise TypeError

---
 geotecha/piecewise/piecewise_linear_1d.py | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/geotecha/piecewise/piecewise_linear_1d.py b/geotecha/piecewise/piecewise_linear_1d.py
index 217c5b8..f11d027 100644
--- a/geotecha/piecewise/piecewise_linear_1d.py
+++ b/geotecha/piecewise/piecewise_linear_1d.py
@@ -2423,9 +2423,8 @@ class PolyLine(object):
 #            a.xy #ensure xy has been initialized
 #            a._xy[:,1] *= other
         except TypeError:
-            print("unsupported operand type(s) for *: 'PolyLine' and "
-                "'{}'".format(other.__class__.__name__))
-            sys.exit(0)
+            raise TypeError("unsupported operand type(s) for *: 'PolyLine' "
+                "and '{}'".format(other.__class__.__name__))
 #        return a
     def __rmul__(self,other):
         return self.__mul__(other)
@@ -2440,9 +2439,8 @@ class PolyLine(object):
 #            a.xy #ensure xy has been initialized
 #            a._xy[:,1] /= other
         except TypeError:
-            print("Unsupported operand type(s) for /: 'PolyLine' and "
-                "'{}'".format(other.__class__.__name__))
-            sys.exit(0)
+            raise TypeError("unsupported operand type(s) for /: 'PolyLine' "
+                "and '{}'".format(other.__class__.__name__))
 #        return a
     def __rtruediv__(self, other):
         if isinstance(other, PolyLine):
@@ -2454,9 +2452,8 @@ class PolyLine(object):
 #            a.xy #ensure xy has been initialized
 #            a._xy[:,1] = other/a._xy[:,1]
         except TypeError:
-            print("unsupported operand type(s) for /: 'PolyLine' and "
-                "'{}'".format(other.__class__.__name__))
-            sys.exit(0)
+            raise TypeError("unsupported operand type(s) for /: '{}' and "
+                "'PolyLine'".format(other.__class__.__name__))
 #        return a
         return self.__mul__(other)
     def __eq__(self, other):
@@ -2561,10 +2558,8 @@ class PolyLine(object):
 #            a.xy #ensure xy has been initialized
 #            iop(a._xy[:,1], other)
         except TypeError:
-            print("Unsupported operand type(s) for +: 'PolyLine' and "
-                "'{}'".format(other.__class__.__name__))
-#            sys.exit(0)
-        return a
+            raise TypeError("unsupported operand type(s) for + or -: "
+                "'PolyLine' and '{}'".format(other.__class__.__name__))
 
 
 def polyline_make_x_common(*p_lines):
-- 
2.43.0


From 47272620e623a9577b95e92e7f8a9612f15c4fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:19 +0000
Subject: [PATCH 39/70] fix: comparing a PolyLine with something that is not a
 PolyLine raised AttributeError

---
 geotecha/piecewise/piecewise_linear_1d.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/geotecha/piecewise/piecewise_linear_1d.py b/geotecha/piecewise/piecewise_linear_1d.py
index f11d027..23a50cd 100644
--- a/geotecha/piecewise/piecewise_linear_1d.py
+++ b/geotecha/piecewise/piecewise_linear_1d.py
@@ -2457,12 +2457,15 @@ class PolyLine(object):
 #        return a
         return self.__mul__(other)
     def __eq__(self, other):
+        if not isinstance(other, PolyLine):
+            return NotImplemented
         if len(self.xy)!=len(other.xy):
             return False
         else:
             return np.allclose(self.xy, other.xy, rtol=self.rtol, atol=self.atol)
     def __ne__(self, other):
-        return not self.__eq__(other)
+        eq = self.__eq__(other)
+        return eq if eq is NotImplemented else not eq
 
     def _add_substract(self, other, op = operator.add):
         """Addition or subtraction of PolyLine objects"""
-- 
2.43.0


From 4d20f825d03f9acefdcbfcf82e0606be0cb1558d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:27 +0000
Subject: [PATCH 40/70] fix: polygon_area divided by zero for clockwise
 polygons and was negative when the normal is along y

---
 geotecha/mathematics/geometry.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/geotecha/mathematics/geometry.py b/geotecha/mathematics/geometry.py
index 2627763..96c2009 100644
--- a/geotecha/mathematics/geometry.py
+++ b/geotecha/mathematics/geometry.py
@@ -236,10 +236,9 @@ def polygon_area(pts):
     x, y, z = xyz_from_pts(pts,True)
     n, d = eqn_of_plane(pts)
 
-    i = np.argmax(n) #project polygon onto plane that is perpendicular to this direction, then integrate the area
+    i = np.argmax(np.abs(n)) #project polygon onto plane that is perpendicular to this direction, then integrate the area
 
-    j = list(range(3))
-    j.pop(i) #remaining directions
+    j = [(i + 1) % 3, (i + 2) % 3] #remaining directions, right handed with i
     e = (x, y, z)
     def if1dxdy(x, y):
         """integrate f=1 over polygon of x,y points"""
-- 
2.43.0


From 1501cb06906ea67a7aac8c59c0378a5d779cb6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:27 +0000
Subject: [PATCH 41/70] fix: polygon_centroid was zero along the normal for
 polygons in a plane of constant x, y or z

---
 geotecha/mathematics/geometry.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/geotecha/mathematics/geometry.py b/geotecha/mathematics/geometry.py
index 96c2009..430962e 100644
--- a/geotecha/mathematics/geometry.py
+++ b/geotecha/mathematics/geometry.py
@@ -281,9 +281,10 @@ def polygon_centroid(pts):
     a = polygon_area(pts)
 
 
-    xc=0.0
-    yc=0.0
-    zc=0.0
+    #coordinates not calculated below are constant over the polygon
+    xc=x[0]
+    yc=y[0]
+    zc=z[0]
 
     calcd = [False,False,False]
 
-- 
2.43.0


From cf825ab6187af43d4ff893dee89f6b41d681107e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:06 +0000
Subject: [PATCH 42/70] fix: FourierTransform of an imaginary function without
 symmetry had the sign of its real part reversed

---
 geotecha/mathematics/fourier.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotecha/mathematics/fourier.py b/geotecha/mathematics/fourier.py
index aa91207..b1b00e7 100644
--- a/geotecha/mathematics/fourier.py
+++ b/geotecha/mathematics/fourier.py
@@ -463,11 +463,11 @@ class FourierTransform(object):
                 # real transform result [-inf, 0]
                 ig, er = [self.inv_const * self.inv_sign * v for v in
                         sine_transform(self.mfo, s, a=self.a, b=self.b)]
-                igral -= ig; err += er
+                igral += ig; err += er
                 # real transform result [0, inf]
                 ig, er = [self.inv_const * self.inv_sign * v for v in
                         sine_transform(self.func, s, self.args, a=self.a, b=self.b)]
-                igral -= ig; err += er
+                igral += ig; err += er
 
                 return igral, err
 
-- 
2.43.0


From 53de75bf6339d2091b67102b96d07b04562136a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:22 +0000
Subject: [PATCH 43/70] fix: FourierTransform of a complex function with an
 even or odd imaginary part transformed the wrong function and dropped the
 real part

---
 geotecha/mathematics/fourier.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/geotecha/mathematics/fourier.py b/geotecha/mathematics/fourier.py
index b1b00e7..cb5328e 100644
--- a/geotecha/mathematics/fourier.py
+++ b/geotecha/mathematics/fourier.py
@@ -505,12 +505,12 @@ class FourierTransform(object):
 
 
         if self.imag_part_even:
-            igral, err = [2.j * self.inv_const * v for v in
-                        cosine_transform(self.func, s, self.args, a=self.a, b=self.b)]
+            ig, er = [2.j * self.inv_const * v for v in
+                        cosine_transform(self.imag_func, s, a=self.a, b=self.b)]
             igral += ig; err += er
-        elif self.real_part_odd:
-            igral, err = [2 * self.inv_const * self.inv_sign * v for v in
-                        sine_transform(self.func, s, self.args, a=self.a, b=self.b)]
+        elif self.imag_part_odd:
+            ig, er = [2 * self.inv_const * self.inv_sign * v for v in
+                        sine_transform(self.imag_func, s, a=self.a, b=self.b)]
             igral += ig; err += er
         else:
             #imag part of function exhibits no symmetry
-- 
2.43.0


From 2a28b6cbed3408b04c6c92b4a7af23abf9bffba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:22 +0000
Subject: [PATCH 44/70] fix: ntransform without opts, or with a single dict of
 opts, raised TypeError ('dict' object is not callable)

---
 geotecha/mathematics/multi_transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotecha/mathematics/multi_transform.py b/geotecha/mathematics/multi_transform.py
index 873838e..ae4222e 100644
--- a/geotecha/mathematics/multi_transform.py
+++ b/geotecha/mathematics/multi_transform.py
@@ -142,10 +142,10 @@ def ntransform(func, transforms, transvars, args=None, opts=None):
     if args is None:
         args = ()
     if opts is None:
-        opts = [dict([])] * depth
+        opts = dict([])
 
     if isinstance(opts, dict):
-        opts = [opts] * depth
+        opts = [_OptFunc(opts)] * depth
     else:
         opts = [opt if callable(opt) else
                 _OptFunc(opt) for opt in opts]
-- 
2.43.0


From ac75f45504eb8bf18bcf9f37af390b2382ef5d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:56 +0000
Subject: [PATCH 45/70] fix: SchiffmanAndStein1970 with impeding layers (bctop
 or bcbot = 3) or an invalid bctop raised NameError/AttributeError

---
 geotecha/consolidation/schiffmanandstein1970.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/geotecha/consolidation/schiffmanandstein1970.py b/geotecha/consolidation/schiffmanandstein1970.py
index 13f3c4a..fe368b1 100644
--- a/geotecha/consolidation/schiffmanandstein1970.py
+++ b/geotecha/consolidation/schiffmanandstein1970.py
@@ -246,10 +246,10 @@ class SchiffmanAndStein1970(inputoutput.InputFileLoaderCheckerSaver):
             self.atop = 1
             self.btop = 0
         elif self.bctop == 3:
-            self.atop = h[0]
-            self.btop = ktop * h[0] / (kv[0] * htop)
+            self.atop = self.h[0]
+            self.btop = self.ktop * self.h[0] / (self.kv[0] * self.htop)
         else:
-            raise ValueError('bctop must be 0, 1, or 2. you have bctop = {}'.foramt(self.bctop))
+            raise ValueError('bctop must be 0, 1, or 3. you have bctop = {}'.format(self.bctop))
 
         if self.bcbot == 0:
             self.abot = 0
@@ -258,10 +258,10 @@ class SchiffmanAndStein1970(inputoutput.InputFileLoaderCheckerSaver):
             self.abot = 1
             self.bbot = 0
         elif self.bcbot == 3:
-            self.abot = h[-1]
-            self.bbot = kbot * h[-1] / (kv[-1] * hbot)
+            self.abot = self.h[-1]
+            self.bbot = self.kbot * self.h[-1] / (self.kv[-1] * self.hbot)
         else:
-            raise ValueError('bctop must be 0, 1, or 2. you have bctop = {}'.format(self.bctop))
+            raise ValueError('bcbot must be 0, 1, or 3. you have bcbot = {}'.format(self.bcbot))
 
         self.BC = np.zeros((2 * self.nlayers, 2* self.nlayers), dtype=float)
 
-- 
2.43.0


From 6776e5a4378eccf853279776df08bc2067c940b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:12 +0000
Subject: [PATCH 46/70] fix: article_figure_06 called trans2, a name that does
 not exist (the function is transition_zones2)

---
 geotecha/beam_on_foundation/specbeam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/beam_on_foundation/specbeam.py b/geotecha/beam_on_foundation/specbeam.py
index 36b84f6..91ab37d 100644
--- a/geotecha/beam_on_foundation/specbeam.py
+++ b/geotecha/beam_on_foundation/specbeam.py
@@ -9232,7 +9232,7 @@ def article_figure_06():
     # Figure 6 Additional deflection for transition effects,  bet=0.1,  alp=10, (dashed=stiff to soft, solid=soft to stiff)
     #################################
     #this is for generating DAF* vs Lt_Lc
-    trans2(xlim = (-10,10),
+    transition_zones2(xlim = (-10,10),
        ntrans = 50, # number of points to sample analytical trasnstion zone
         kratio = 10,
         beta = 0.1,
-- 
2.43.0


From 9c7065c9758c735359e2386c6764f21d1cace67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:07 +0000
Subject: [PATCH 47/70] fix: plotting functions raised TypeError: add_subplot
 takes 111, not the string '111'

---
 geotecha/beam_on_foundation/dingetal2012.py   |  2 +-
 geotecha/beam_on_foundation/specbeam.py       | 48 +++++++++----------
 geotecha/consolidation/nogamiandli2003.py     |  2 +-
 .../consolidation/schiffmanandstein1970.py    |  2 +-
 geotecha/consolidation/shanetal2012.py        |  2 +-
 geotecha/consolidation/zhuandyin2012.py       |  6 +--
 geotecha/constitutive_models/swcc.py          |  8 ++--
 geotecha/mathematics/hankel.py                |  2 +-
 .../speccon/speccon1d_unsat_interactive.py    |  6 +--
 9 files changed, 39 insertions(+), 39 deletions(-)

diff --git a/geotecha/beam_on_foundation/dingetal2012.py b/geotecha/beam_on_foundation/dingetal2012.py
index 8eebbd7..b0cce9d 100644
--- a/geotecha/beam_on_foundation/dingetal2012.py
+++ b/geotecha/beam_on_foundation/dingetal2012.py
@@ -432,7 +432,7 @@ def dingetal_figure_8():
         f.write(ftime + os.linesep)                
 
         fig=plt.figure()
-        ax = fig.add_subplot("111")
+        ax = fig.add_subplot(111)
         ax.set_xlabel("time, s")
         ax.set_ylabel("w, m")
         ax.set_xlim(3.5, 4.5)
diff --git a/geotecha/beam_on_foundation/specbeam.py b/geotecha/beam_on_foundation/specbeam.py
index 91ab37d..d7cf990 100644
--- a/geotecha/beam_on_foundation/specbeam.py
+++ b/geotecha/beam_on_foundation/specbeam.py
@@ -2298,7 +2298,7 @@ def dingetal_figure_8(v_nterms=(50,75,150,200)):
         f.write(ftime + os.linesep)
 
         fig=plt.figure()
-        ax = fig.add_subplot("111")
+        ax = fig.add_subplot(111)
         ax.set_xlabel("time, s")
         ax.set_ylabel("w, m")
         ax.set_xlim(3.5, 4.5)
@@ -2527,7 +2527,7 @@ def SpecBeam_const_mat_midpoint_defl_runme_analytical_play():
 
 
         fig = plt.figure(figsize=(10,6))
-        ax = fig.add_subplot("111")
+        ax = fig.add_subplot(111)
         ax.set_xlabel("time, s")
         ax.set_ylabel("w, m")
         ax.set_xlim(3.5, 4.5)
@@ -2810,7 +2810,7 @@ def FIGURE_verify_against_DingEtAl2012_fig8(v_nterms=(50,75,150,200), saveas=Non
         fig = plt.figure(figsize=(3.54,3.54))
         matplotlib.rcParams.update({'font.size': 11})
 
-        ax = fig.add_subplot("111")
+        ax = fig.add_subplot(111)
 
 
         for v in v_nterms:
@@ -2932,7 +2932,7 @@ def FIGURE_convergence_step_change(v_nterms=(50,75,150,200),saveas=None):
         fig = plt.figure(figsize=(3.54,3.54))
         matplotlib.rcParams.update({'font.size': 11})
 
-        ax = fig.add_subplot("111")
+        ax = fig.add_subplot(111)
 
 
         for v in v_nterms:
@@ -3045,7 +3045,7 @@ def FIGURE_defl_envelope_vary_velocity(velocities_norm=(0.01165,),saveas=None,nt
         fig = plt.figure(figsize=(3.54,3.54))
         matplotlib.rcParams.update({'font.size': 11})
 
-        ax = fig.add_subplot("111")
+        ax = fig.add_subplot(111)
 
 
         for v in velocities_norm:
@@ -3194,7 +3194,7 @@ def FIGURE_DAF_constant_prop(saveas=None,nterms=100,force_calc=True,prefix="",
         fig = plt.figure(figsize=(3.54,3.54))
         matplotlib.rcParams.update({'font.size': 11})
 
-        ax = fig.add_subplot("111")
+        ax = fig.add_subplot(111)
 
         if alphas is None:
             alphas = np.linspace(1e-5, 3, 100)
@@ -3400,7 +3400,7 @@ def FIGURE_DAF_transition_length(saveas=None,k_ratio=4,beta=0.1,nterms=100,force
         fig = plt.figure(figsize=(3.54,3.54))
         matplotlib.rcParams.update({'font.size': 11})
 
-        ax = fig.add_subplot("111")
+        ax = fig.add_subplot(111)
 
 
         alphas = np.linspace(1e-5, 3, 10)
@@ -3553,10 +3553,10 @@ def FIGURE_DAF_transition_length_esveld(saveas=None,k_ratio=4,beta=0.1,nterms=10
         fig = plt.figure(figsize=(3.54,3.54))
         matplotlib.rcParams.update({'font.size': 11})
 
-        ax = fig.add_subplot("111")
+        ax = fig.add_subplot(111)
 
         fig2 = plt.figure(figsize=(3.54,3.54))
-        ax2 = fig2.add_subplot("111")
+        ax2 = fig2.add_subplot(111)
 
         alphas = [0.0001, 0.4, 0.9]
         t_lengths = np.linspace(0,25.0,6)
@@ -3735,13 +3735,13 @@ def FIGURE_DAFwrtinf_transition_length(saveas=None,k_ratio=4,beta=0.1,nterms=100
 
         matplotlib.rcParams.update({'font.size': 11})
         fig = plt.figure(figsize=(3.54,3.54))
-        ax = fig.add_subplot("111")
+        ax = fig.add_subplot(111)
 
         fig2 = plt.figure(figsize=(3.54,3.54))
-        ax2 = fig2.add_subplot("111")
+        ax2 = fig2.add_subplot(111)
 
         fig3 = plt.figure(figsize=(3.54,3.54))
-        ax3 = fig3.add_subplot("111")
+        ax3 = fig3.add_subplot(111)
 
         alphas = [0.0001, 0.1, 0.3, 0.4, 0.5, 0.9, 1.1, 1.3]
         t_lengths = np.linspace(25,0,6)
@@ -3944,13 +3944,13 @@ def FIGURE_DAFwrtinf_transition_lengthrev(saveas=None,k_ratio=4,beta=0.1,nterms=
 
         matplotlib.rcParams.update({'font.size': 11})
         fig = plt.figure(figsize=(3.54,3.54))
-        ax = fig.add_subplot("111")
+        ax = fig.add_subplot(111)
 
         fig2 = plt.figure(figsize=(3.54,3.54))
-        ax2 = fig2.add_subplot("111")
+        ax2 = fig2.add_subplot(111)
 
         fig3 = plt.figure(figsize=(3.54,3.54))
-        ax3 = fig3.add_subplot("111")
+        ax3 = fig3.add_subplot(111)
 
         alphas = [0.0001, 0.1, 0.3, 0.4, 0.5, 0.9, 1.1, 1.3]
         t_lengths = np.linspace(25,0,6)
@@ -4155,13 +4155,13 @@ def FIGURE_DAFwrtinf_transition_length_betaconst(saveas=None,k_ratio=4,beta=0.1,
 
         matplotlib.rcParams.update({'font.size': 11})
         fig = plt.figure(figsize=(3.54,3.54))
-        ax = fig.add_subplot("111")
+        ax = fig.add_subplot(111)
 
         fig2 = plt.figure(figsize=(3.54,3.54))
-        ax2 = fig2.add_subplot("111")
+        ax2 = fig2.add_subplot(111)
 
         fig3 = plt.figure(figsize=(3.54,3.54))
-        ax3 = fig3.add_subplot("111")
+        ax3 = fig3.add_subplot(111)
 
         alphas = [0.0001, 0.1, 0.3, 0.4, 0.5, 0.9, 1.1, 1.3]
         t_lengths = np.linspace(25,0,6)
@@ -6750,12 +6750,12 @@ def case_study_PaixaoEtAl2014(
 
 
         fig2 = plt.figure(figsize=(8,8))
-        ax3 = fig2.add_subplot("111")
+        ax3 = fig2.add_subplot(111)
         #fig2 = plt.figure(figsize=(3.54,3.54))
-        #ax2 = fig2.add_subplot("111")
+        #ax2 = fig2.add_subplot(111)
 
         #fig3 = plt.figure(figsize=(3.54,3.54))
-        #ax3 = fig3.add_subplot("111")
+        #ax3 = fig3.add_subplot(111)
 
 
         #t_lengths = np.linspace(25,0,6)
@@ -7645,7 +7645,7 @@ def transition_zones1(
         fig4, ax4 = plt.subplots() # deflection vs time at point
 
     fig5 = plt.figure(figsize=(3.54, 3.54))
-    ax5 = fig5.add_subplot('111')
+    ax5 = fig5.add_subplot(111)
 
 
     pdict = OrderedDict(
@@ -8099,7 +8099,7 @@ def transition_zones2(animateme=False,
 
 
     fig6 = plt.figure(figsize=(3.54,3.54))
-    ax6 = fig6.add_subplot('111')
+    ax6 = fig6.add_subplot(111)
 
     pdict = OrderedDict(
                 E = 6.998*1e9, #Pa
@@ -9550,7 +9550,7 @@ if __name__ == "__main__":
             f.write(ftime + os.linesep)
 
             fig=plt.figure()
-            ax = fig.add_subplot("111")
+            ax = fig.add_subplot(111)
             ax.set_xlabel("time, s")
             ax.set_ylabel("w, m")
             ax.set_xlim(3.5, 4.5)
diff --git a/geotecha/consolidation/nogamiandli2003.py b/geotecha/consolidation/nogamiandli2003.py
index 327ee9d..01cd4bb 100644
--- a/geotecha/consolidation/nogamiandli2003.py
+++ b/geotecha/consolidation/nogamiandli2003.py
@@ -1012,7 +1012,7 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
         """
 
         fig = plt.figure(figsize=(40, 8))
-        ax = fig.add_subplot('111')
+        ax = fig.add_subplot(111)
         for i in range(self.nh):
             s = self._sn[i]
 #            amin=self._alp_min()[i]
diff --git a/geotecha/consolidation/schiffmanandstein1970.py b/geotecha/consolidation/schiffmanandstein1970.py
index fe368b1..d695be5 100644
--- a/geotecha/consolidation/schiffmanandstein1970.py
+++ b/geotecha/consolidation/schiffmanandstein1970.py
@@ -534,7 +534,7 @@ class SchiffmanAndStein1970(inputoutput.InputFileLoaderCheckerSaver):
             y[i]=self._characteristic_eqn(x[i])
 #        plt.gcf().clear()
         fig = plt.figure(figsize=(30,5))
-        ax = fig.add_subplot('111')
+        ax = fig.add_subplot(111)
         ax.plot(x ,y,'-', marker='.', markersize=3)
         ax.plot(self._beta0, np.zeros_like(self._beta0),'ro', markersize=6)
         ax.set_ylabel('det(A)')
diff --git a/geotecha/consolidation/shanetal2012.py b/geotecha/consolidation/shanetal2012.py
index e3e5cc1..6d53f06 100644
--- a/geotecha/consolidation/shanetal2012.py
+++ b/geotecha/consolidation/shanetal2012.py
@@ -571,7 +571,7 @@ if __name__ == '__main__':
 
 
     fig = plt.figure()
-    ax=fig.add_subplot('111')
+    ax=fig.add_subplot(111)
     ax.plot(t, porw[len(z)//2], 'bs', ls='-', ms=3,label='water')
     ax.plot(t, pora[len(z)//2], 'g*', ls='-', ms=3,label='air')
     ax.set_xlabel('Time')
diff --git a/geotecha/consolidation/zhuandyin2012.py b/geotecha/consolidation/zhuandyin2012.py
index 04f2b37..c379670 100644
--- a/geotecha/consolidation/zhuandyin2012.py
+++ b/geotecha/consolidation/zhuandyin2012.py
@@ -170,7 +170,7 @@ def zhuandyin2012(z, t, alpha, p, q, drn=0, tpor=None, H = 1, kv0 = 1, mv0 = 0.1
         etam = find_n_roots(Zmu, args=(nu, nu, b), n = nterms, p=1.01)
         if plot_eigs:
             fig=plt.figure(figsize=(20,5))
-            ax = fig.add_subplot('111')
+            ax = fig.add_subplot(111)
             x = np.linspace(0.01,etam[-1],1000)
             y = Zmu(x, nu, nu, b)
             ax.plot(x, y, marker='.', markersize=3, ls='-')
@@ -185,7 +185,7 @@ def zhuandyin2012(z, t, alpha, p, q, drn=0, tpor=None, H = 1, kv0 = 1, mv0 = 0.1
         etam = find_n_roots(drn1root, args=(nu, nu, b, p, n), n = nterms, p=1.01)
         if plot_eigs:
             fig=plt.figure(figsize=(20,5))
-            ax = fig.add_subplot('111')
+            ax = fig.add_subplot(111)
             x = np.linspace(0.01,etam[-1],1000)
             y = drn1root(x, nu, nu, b, p, n)
             ax.plot(x, y, marker='.', markersize=3, ls='-')
@@ -346,7 +346,7 @@ if __name__ == '__main__':
 #        print('kv', repr(kv))
 #        print('mv', repr(mv))
         fig=plt.figure()
-        ax= fig.add_subplot('111')
+        ax= fig.add_subplot(111)
         ax.plot(kv, x, label='kv', ls='-')
         ax.plot(mv, x, label='mv', ls='-')
         ax.legend()
diff --git a/geotecha/constitutive_models/swcc.py b/geotecha/constitutive_models/swcc.py
index 56ab512..6e491cc 100644
--- a/geotecha/constitutive_models/swcc.py
+++ b/geotecha/constitutive_models/swcc.py
@@ -961,7 +961,7 @@ if __name__ == "__main__":
         k = b.k_from_psi(x, aev=1)
 
         fig = plt.figure()
-        ax = fig.add_subplot('211')
+        ax = fig.add_subplot(211)
         ax.plot(x, y)
         ax.set_xlabel('$psi$')
         ax.set_ylabel('w')
@@ -969,7 +969,7 @@ if __name__ == "__main__":
         ax.grid(which='major', linestyle='-')
         ax.grid(which='minor', linestyle='--')
 
-        ax = fig.add_subplot('212', sharex=ax)
+        ax = fig.add_subplot(212, sharex=ax)
         ax.plot(x, k)
         ax.set_xlabel('$psi$')
         ax.set_ylabel('$k/k_{sat}$')
@@ -1020,7 +1020,7 @@ if __name__ == "__main__":
         k = b.k_from_psi(x, aev=1)
 
         fig = plt.figure()
-        ax = fig.add_subplot('211')
+        ax = fig.add_subplot(211)
         ax.plot(x, y)
         ax.set_xlabel('$psi$')
         ax.set_ylabel('w')
@@ -1028,7 +1028,7 @@ if __name__ == "__main__":
         ax.grid(which='major', linestyle='-')
         ax.grid(which='minor', linestyle='--')
 
-        ax = fig.add_subplot('212', sharex=ax)
+        ax = fig.add_subplot(212, sharex=ax)
         ax.plot(x, k)
         ax.set_xlabel('$psi$')
         ax.set_ylabel('$k/k_{sat}$')
diff --git a/geotecha/mathematics/hankel.py b/geotecha/mathematics/hankel.py
index 63f36f6..68c3de5 100644
--- a/geotecha/mathematics/hankel.py
+++ b/geotecha/mathematics/hankel.py
@@ -239,7 +239,7 @@ class HankelTransform(object):
         y = integrand(x, *self.args)
 
         fig = plt.figure()
-        ax = fig.add_subplot('111')
+        ax = fig.add_subplot(111)
         ax.plot(x,y, '-')
         ax.plot(zeros, np.zeros_like(zeros), 'ro', ms=5)
 #        ax.plot(x, x*jn(self.order, r*x), label='rJn(r*s)')
diff --git a/geotecha/speccon/speccon1d_unsat_interactive.py b/geotecha/speccon/speccon1d_unsat_interactive.py
index cce28d5..1459f87 100644
--- a/geotecha/speccon/speccon1d_unsat_interactive.py
+++ b/geotecha/speccon/speccon1d_unsat_interactive.py
@@ -211,7 +211,7 @@ figure_ext='.png'
     if 1:
         #only use this if there is one z interval
         fig = plt.figure()
-        ax=fig.add_subplot('111')
+        ax=fig.add_subplot(111)
         ax.plot(a.tvals, a.set[0], 'ro', ls='-', label='combined')
         ax.plot(a.tvals, a.setw[0], 'bs', ls='-', label='water')
         ax.plot(a.tvals, a.seta[0], 'g*', ls='-', label='air')
@@ -225,7 +225,7 @@ figure_ext='.png'
         leg.set_draggable(True)
 
         fig = plt.figure()
-        ax=fig.add_subplot('111')
+        ax=fig.add_subplot(111)
         ax.plot(a.tvals, a.avpw[0], 'bs', ls='-', label='water')
         ax.plot(a.tvals, a.avpa[0], 'g*', ls='-', label='air')
         ax.set_xlabel('Time')
@@ -238,7 +238,7 @@ figure_ext='.png'
 
 
         fig = plt.figure()
-        ax=fig.add_subplot('111')
+        ax=fig.add_subplot(111)
         ax.plot(a.tvals, a.porw[len(a.ppress_z)//2], 'bs', ls='-', label='water')
         ax.plot(a.tvals, a.pora[len(a.ppress_z)//2], 'g*', ls='-', label='air')
         ax.set_xlabel('Time')
-- 
2.43.0


From ba4af73d8af1458df8d125e9f300914f4ac48841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:11 +0000
Subject: [PATCH 48/70] fix: find_n_roots raised UnboundLocalError when the
 first root is zero and never noticed repeated roots

---
 geotecha/mathematics/root_finding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/mathematics/root_finding.py b/geotecha/mathematics/root_finding.py
index c74598e..8ec4ecf 100644
--- a/geotecha/mathematics/root_finding.py
+++ b/geotecha/mathematics/root_finding.py
@@ -164,7 +164,7 @@ def find_n_roots(func, args=(), n=1, x0=0.001, dx=0.001, p=1.0, max_iter=2000,
 
             xr, = scipy.optimize.fsolve(func, xguess, args, **fsolve_kwargs)
 
-            if root_number==0:
+            if root_number>0:
                 if np.allclose(xr, roots[root_number-1], atol=atol, rtol=rtol):
                     #found same root
                     if debug:
-- 
2.43.0


From 82511b3ec51c04d9562e946a2147aff48808fbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:19 +0000
Subject: [PATCH 49/70] fix: specbeam figure functions used fig (given ax) or
 fig4 (xi_Lc None) that had not been created

---
 geotecha/beam_on_foundation/specbeam.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/geotecha/beam_on_foundation/specbeam.py b/geotecha/beam_on_foundation/specbeam.py
index d7cf990..f47eb81 100644
--- a/geotecha/beam_on_foundation/specbeam.py
+++ b/geotecha/beam_on_foundation/specbeam.py
@@ -7160,6 +7160,8 @@ def transition_DAF1(saveas=None,
 
     if ax is None:
         fig,ax = plt.subplots(figsize=(3.54,3.54))
+    else:
+        fig = ax.figure
     matplotlib.rcParams.update({'font.size': 11})
 
     if kratios is None:
@@ -7288,6 +7290,8 @@ def transition_DAF1_at_specific_alp(saveas=None,
     if ax is None:
         fig,ax = plt.subplots(figsize=(3.54,3.54))
         matplotlib.rcParams.update({'font.size': 11})
+    else:
+        fig = ax.figure
 
     if kratios is None:
         kratios=np.logspace(np.log10(0.1), np.log10(100), 100)
@@ -7977,7 +7981,8 @@ def transition_zones1(
     if not saveas is None:
 
         save_figure(fig=fig, fname=saveas + "_fig1")
-        save_figure(fig=fig4, fname=saveas + "_fig4")
+        if not xi_Lc is None:
+            save_figure(fig=fig4, fname=saveas + "_fig4")
         save_figure(fig=fig5, fname=saveas + "_fig5")
 
 
@@ -8691,6 +8696,8 @@ def FIG_DAF_envelope_vary_beta(ax=None, betas=None, alphas=None,
 
     if ax is None:
         fig,ax = plt.subplots(figsize=(3.54,3.54))
+    else:
+        fig = ax.figure
 
     matplotlib.rcParams.update({'font.size': 11})
 
-- 
2.43.0


From 7301febf04b8407d1b69cf9a82664ae997cb4751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:41 +0000
Subject: [PATCH 50/70] fix: the settlement table of SchiffmanAndStein1970 and
 NogamiAndLi2003 held the average pore pressure

---
 geotecha/consolidation/nogamiandli2003.py       | 2 +-
 geotecha/consolidation/schiffmanandstein1970.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotecha/consolidation/nogamiandli2003.py b/geotecha/consolidation/nogamiandli2003.py
index 01cd4bb..2010415 100644
--- a/geotecha/consolidation/nogamiandli2003.py
+++ b/geotecha/consolidation/nogamiandli2003.py
@@ -743,7 +743,7 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
 
             labels = ['{:.3g} to {:.3g}'.format(0, sum(self.h))]
             d = {'name': '_data_set',
-                 'data': self.avp.T,
+                 'data': self.set.T,
                  'row_labels': self.t,
                  'row_labels_label': 'Time',
                  'column_labels': labels,
diff --git a/geotecha/consolidation/schiffmanandstein1970.py b/geotecha/consolidation/schiffmanandstein1970.py
index d695be5..2778e7e 100644
--- a/geotecha/consolidation/schiffmanandstein1970.py
+++ b/geotecha/consolidation/schiffmanandstein1970.py
@@ -419,7 +419,7 @@ class SchiffmanAndStein1970(inputoutput.InputFileLoaderCheckerSaver):
 
             labels = ['{:.3g} to {:.3g}'.format(0, sum(self.h))]
             d = {'name': '_data_set',
-                 'data': self.avp.T,
+                 'data': self.set.T,
                  'row_labels': self.t,
                  'row_labels_label': 'Time',
                  'column_labels': labels,
-- 
2.43.0


From 969a6c8a9c7701647ee6aaf8cb45bfc0ffbed265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:41 +0000
Subject: [PATCH 51/70] fix: data files of speccon1d_vrw named speccon1d_vr as
 their program

---
 geotecha/speccon/speccon1d_vrw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/speccon/speccon1d_vrw.py b/geotecha/speccon/speccon1d_vrw.py
index f299e33..677e786 100644
--- a/geotecha/speccon/speccon1d_vrw.py
+++ b/geotecha/speccon/speccon1d_vrw.py
@@ -675,7 +675,7 @@ class Speccon1dVRW(speccon1d.Speccon1d):
     def make_output(self):
         """make all output"""
 
-        header1 = "program: speccon1d_vr; geotecha version: {}; author: {}; date: {}\n".format(self.version, self.author, time.strftime('%Y/%m/%d %H:%M:%S'))
+        header1 = "program: speccon1d_vrw; geotecha version: {}; author: {}; date: {}\n".format(self.version, self.author, time.strftime('%Y/%m/%d %H:%M:%S'))
         if not self.title is None:
             header1+= "{}\n".format(self.title)
 
-- 
2.43.0


From c6cd1c000f2b8fcff08089e250424e0849a740f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:53 +0000
Subject: [PATCH 52/70] fix: the material figure of speccon1d_unsat showed the
 reference Da as that of kw

---
 geotecha/speccon/speccon1d_unsat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/speccon/speccon1d_unsat.py b/geotecha/speccon/speccon1d_unsat.py
index 023b9fe..f1d1e33 100644
--- a/geotecha/speccon/speccon1d_unsat.py
+++ b/geotecha/speccon/speccon1d_unsat.py
@@ -1512,7 +1512,7 @@ class Speccon1dUnsat(speccon1d.Speccon1d):
             '(\\overline{{k}}_w={:g}\\right)$'.format(self.kwref))
         z_x.append(self.Da)
         xlabels.append('$D_a^\\ast/\\overline{{D}}_a^\\ast$, $\\left'
-            '(\\overline{{k}}_w={:g}\\right)$'.format(self.Daref))
+            '(\\overline{{D}}_a^\\ast={:g}\\right)$'.format(self.Daref))
         z_x.append(self.S)
         xlabels.append('Saturation, $S_r$')
         z_x.append(self.n)
-- 
2.43.0


From c1e6878d3d62e0799f2c59b50569efd27ef1cb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:26 +0000
Subject: [PATCH 53/70] fix: nogamiandli2003 had no default for nv and nh
 (documented as 5)

---
 geotecha/consolidation/nogamiandli2003.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/geotecha/consolidation/nogamiandli2003.py b/geotecha/consolidation/nogamiandli2003.py
index 2010415..9c03dad 100644
--- a/geotecha/consolidation/nogamiandli2003.py
+++ b/geotecha/consolidation/nogamiandli2003.py
@@ -258,7 +258,8 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
 
         """
 
-        self._attribute_defaults = {'bctop': 0, 'bcbot': 0,
+        self._attribute_defaults = {'nv': 5, 'nh': 5,
+                                    'bctop': 0, 'bcbot': 0,
                                     'radial_roots_x0': 1e-3,
                                     'radial_roots_dx': 1e-3,
                                     'radial_roots_p': 1.05,
@@ -319,10 +320,9 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
             ['surcharge_vs_time'],
             'kv kh'.split(),
             'tpor t'.split(),]
-        self._one_implies_others = ['r0 r1 kh nh'.split(),
-                                    'r1 r0 kh nh'.split(),
-                                    'kh r0 r1 nh'.split(),
-                                    'nh kh r0 r1'.split()]
+        self._one_implies_others = ['r0 r1 kh'.split(),
+                                    'r1 r0 kh'.split(),
+                                    'kh r0 r1'.split()]
 
     def _calc_derived_properties(self):
         """Calculate properties/ratios derived from input"""
-- 
2.43.0


From f0aa56453f90838c65e1cf59a6f62c682301eb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:35 +0000
Subject: [PATCH 54/70] fix: names assigned in input text did become allowed
 attributes, which let the text reach __class__, __subclasses__ and the like

---
 geotecha/inputoutput/inputoutput.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geotecha/inputoutput/inputoutput.py b/geotecha/inputoutput/inputoutput.py
index 1ca590b..1d38a2d 100644
--- a/geotecha/inputoutput/inputoutput.py
+++ b/geotecha/inputoutput/inputoutput.py
@@ -159,6 +159,7 @@ class SyntaxChecker(ast.NodeVisitor):
         self.allowed_functions = dict()
         self.allowed_node_types = dict()
         self.allowed_attributes = set()
+        self.assigned_names = set()
         self.safe_names = {'True': True, 'False': False, 'None': None}#dict()
         self.print_each_node = False
         for v in allow:
@@ -192,9 +193,9 @@ class SyntaxChecker(ast.NodeVisitor):
             print('NAME: ', ast.dump(node))
 
         if type(node.ctx).__name__=='Store':
-            self.allowed_attributes.add(node.id)
+            self.assigned_names.add(node.id)
         elif type(node.ctx).__name__=='Load':
-            if node.id not in self.safe_names and node.id not in self.allowed_functions and node.id not in self.allowed_attributes:
+            if node.id not in self.safe_names and node.id not in self.allowed_functions and node.id not in self.allowed_attributes and node.id not in self.assigned_names:
                 raise SyntaxError("cannot use {} as name, function, or attribute!".format(node.id))
                 sys.exit(0)
         ast.NodeVisitor.generic_visit(self, node)#
-- 
2.43.0


From 2bd19708e0747d771c4f4ecc0e243c2f4d7296cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:35 +0000
Subject: [PATCH 55/70] fix: next_output_stem used the prefix as a regular
 expression

---
 geotecha/inputoutput/inputoutput.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/inputoutput/inputoutput.py b/geotecha/inputoutput/inputoutput.py
index 1d38a2d..b1831a7 100644
--- a/geotecha/inputoutput/inputoutput.py
+++ b/geotecha/inputoutput/inputoutput.py
@@ -1690,7 +1690,7 @@ def next_output_stem(prefix, path=None, start=1, inc=1, zfill=3,
         cwd = path
 
 
-    pattern = re.compile(prefix + "(?P<x>\d+).*")
+    pattern = re.compile(re.escape(prefix) + "(?P<x>\d+).*")
 
     nums = []
     for nm in os.listdir(cwd):
-- 
2.43.0


From ee6463483ba603297c0399a84bdbbeff12d57cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:35 +0000
Subject: [PATCH 56/70] fix: save_grid_data_to_file emptied the tables it was
 given

---
 geotecha/inputoutput/inputoutput.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geotecha/inputoutput/inputoutput.py b/geotecha/inputoutput/inputoutput.py
index b1831a7..f38635b 100644
--- a/geotecha/inputoutput/inputoutput.py
+++ b/geotecha/inputoutput/inputoutput.py
@@ -1835,13 +1835,14 @@ def save_grid_data_to_file(data_dicts, directory=None, file_stem='out_000',
 
 
     for d in data_dicts:
+        d = dict(d) # leave the caller's dict as it is
         data = d.pop('data', None)
         name = d.pop('name',"")
         row_labels = d.pop('row_labels', None)
         row_labels_label = d.pop('row_labels_label', 'item')
         column_labels = d.pop('column_labels', None)
         header = d.pop('header', None)
-        df_kwargs = d.pop('df_kwargs',{})
+        df_kwargs = dict(d.pop('df_kwargs',{}))
 
         if data is None:
             continue
-- 
2.43.0


From f6c2ab385678d9eda0dbe5515c467a532ae82963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:35 +0000
Subject: [PATCH 57/70] fix: _save_figures failed on a single figure

---
 geotecha/inputoutput/inputoutput.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/inputoutput/inputoutput.py b/geotecha/inputoutput/inputoutput.py
index f38635b..a8c2bba 100644
--- a/geotecha/inputoutput/inputoutput.py
+++ b/geotecha/inputoutput/inputoutput.py
@@ -1405,7 +1405,7 @@ class InputFileLoaderCheckerSaver(object):
 #        create_directory = getattr(self, 'create_directory', True)
 
 
-        for i,fig in enumerate(self._figures):
+        for i,fig in enumerate(figures):
             if len(fig.get_label()) > 0:
                 figname = fig.get_label()
             else:
-- 
2.43.0


From 5c813f708ca5a2d57684a7774e3419543bf9661e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:35 +0000
Subject: [PATCH 58/70] fix: parsed input with quotes, backslashes or newlines
 in strings could not be read back

---
 geotecha/inputoutput/inputoutput.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/geotecha/inputoutput/inputoutput.py b/geotecha/inputoutput/inputoutput.py
index a8c2bba..872c867 100644
--- a/geotecha/inputoutput/inputoutput.py
+++ b/geotecha/inputoutput/inputoutput.py
@@ -1562,9 +1562,9 @@ def string_of_object_attributes(obj, attributes=[], none_at_bottom=True,
 
     def f(v):
         if isinstance(v, str):
-            return "'"
+            return repr(v)
         else:
-            return ""
+            return v
 
     if not numpy_array_prefix is None:
         a = PrefixNumpyArrayString(numpy_array_prefix)
@@ -1576,16 +1576,13 @@ def string_of_object_attributes(obj, attributes=[], none_at_bottom=True,
 
     writer = ""
     if none_at_bottom:
-        writer+='\n'.join(['{0} = {1}{2}{1}'.format(v, f(getattr(obj, v, None)),
-            getattr(obj, v, None))
+        writer+='\n'.join(['{0} = {1}'.format(v, f(getattr(obj, v, None)))
             for v in attributes if not getattr(obj, v, None) is None])
         writer+='\n\n\n'
-        writer+='\n'.join(['{0} = {1}{2}{1}'.format(v, f(getattr(obj, v, None)),
-            getattr(obj, v, None))
+        writer+='\n'.join(['{0} = {1}'.format(v, f(getattr(obj, v, None)))
             for v in attributes if getattr(obj, v, None) is None])
     else:
-        writer+='\n'.join(['{0} = {1}{2}{1}'.format(v, f(getattr(obj, v, None)),
-            getattr(obj, v, None))
+        writer+='\n'.join(['{0} = {1}'.format(v, f(getattr(obj, v, None)))
             for v in attributes])
 
     writer+='\n'
-- 
2.43.0


From da858096aec92b187b897559fb86381f9014b507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:37 +0000
Subject: [PATCH 59/70] fix: plotting used up plot_properties, a second plot
 had another style

---
 geotecha/consolidation/nogamiandli2003.py      |  6 +++---
 .../consolidation/schiffmanandstein1970.py     |  6 +++---
 geotecha/speccon/speccon1d_unsat.py            | 18 +++++++++---------
 geotecha/speccon/speccon1d_vr.py               | 10 +++++-----
 geotecha/speccon/speccon1d_vrc.py              | 18 +++++++++---------
 geotecha/speccon/speccon1d_vrw.py              | 12 ++++++------
 6 files changed, 35 insertions(+), 35 deletions(-)

diff --git a/geotecha/consolidation/nogamiandli2003.py b/geotecha/consolidation/nogamiandli2003.py
index 9c03dad..a69a7d3 100644
--- a/geotecha/consolidation/nogamiandli2003.py
+++ b/geotecha/consolidation/nogamiandli2003.py
@@ -805,7 +805,7 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
 
         t = self.tpor
         line_labels = ['{:.3g}'.format(v) for v in t]
-        por_prop = self.plot_properties.pop('por', dict())
+        por_prop = dict(self.plot_properties.get('por', dict()))
         if not 'xlabel' in por_prop:
             por_prop['xlabel'] = 'Pore pressure'+extra
 
@@ -826,7 +826,7 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
         t = self.t
         line_labels = ['{:.3g} to {:.3g}'.format(0, sum(self.h))]
 
-        avp_prop = self.plot_properties.pop('avp', dict())
+        avp_prop = dict(self.plot_properties.get('avp', dict()))
         if not 'ylabel' in avp_prop:
             avp_prop['ylabel'] = 'Average pore pressure'+extra
         fig_avp = geotecha.plotting.one_d.plot_vs_time(t, self.avp.T,
@@ -845,7 +845,7 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
         t = self.t
         line_labels = ['{:.3g} to {:.3g}'.format(0, sum(self.h))]
 
-        set_prop = self.plot_properties.pop('set', dict())
+        set_prop = dict(self.plot_properties.get('set', dict()))
         if not 'ylabel' in set_prop:
             set_prop['ylabel'] = 'surface settlement'+extra
         fig_set = geotecha.plotting.one_d.plot_vs_time(t, self.set.T,
diff --git a/geotecha/consolidation/schiffmanandstein1970.py b/geotecha/consolidation/schiffmanandstein1970.py
index 2778e7e..5779f84 100644
--- a/geotecha/consolidation/schiffmanandstein1970.py
+++ b/geotecha/consolidation/schiffmanandstein1970.py
@@ -313,7 +313,7 @@ class SchiffmanAndStein1970(inputoutput.InputFileLoaderCheckerSaver):
 
         t = self.tpor
         line_labels = ['{:.3g}'.format(v) for v in t]
-        por_prop = self.plot_properties.pop('por', dict())
+        por_prop = dict(self.plot_properties.get('por', dict()))
         if not 'xlabel' in por_prop:
             por_prop['xlabel'] = 'Pore pressure'
 
@@ -330,7 +330,7 @@ class SchiffmanAndStein1970(inputoutput.InputFileLoaderCheckerSaver):
         t = self.t
         line_labels = ['{:.3g} to {:.3g}'.format(0, sum(self.h))]
 
-        avp_prop = self.plot_properties.pop('avp', dict())
+        avp_prop = dict(self.plot_properties.get('avp', dict()))
         if not 'ylabel' in avp_prop:
             avp_prop['ylabel'] = 'Average pore pressure'
         fig_avp = geotecha.plotting.one_d.plot_vs_time(t, self.avp.T,
@@ -346,7 +346,7 @@ class SchiffmanAndStein1970(inputoutput.InputFileLoaderCheckerSaver):
         t = self.t
         line_labels = ['{:.3g} to {:.3g}'.format(0, sum(self.h))]
 
-        set_prop = self.plot_properties.pop('set', dict())
+        set_prop = dict(self.plot_properties.get('set', dict()))
         if not 'ylabel' in set_prop:
             set_prop['ylabel'] = 'surface settlement'
         fig_set = geotecha.plotting.one_d.plot_vs_time(t, self.set.T,
diff --git a/geotecha/speccon/speccon1d_unsat.py b/geotecha/speccon/speccon1d_unsat.py
index f1d1e33..0145705 100644
--- a/geotecha/speccon/speccon1d_unsat.py
+++ b/geotecha/speccon/speccon1d_unsat.py
@@ -1285,7 +1285,7 @@ class Speccon1dUnsat(speccon1d.Speccon1d):
         """
         t = self.tvals[self.ppress_z_tval_indexes]
         line_labels = ['{:.3g}'.format(v) for v in t]
-        porw_prop = self.plot_properties.pop('porw', dict())
+        porw_prop = dict(self.plot_properties.get('porw', dict()))
         if not 'xlabel' in porw_prop:
             porw_prop['xlabel'] = 'Pore water pressure'
 
@@ -1302,7 +1302,7 @@ class Speccon1dUnsat(speccon1d.Speccon1d):
         """
         t = self.tvals[self.ppress_z_tval_indexes]
         line_labels = ['{:.3g}'.format(v) for v in t]
-        pora_prop = self.plot_properties.pop('pora', dict())
+        pora_prop = dict(self.plot_properties.get('pora', dict()))
         if not 'xlabel' in pora_prop:
             pora_prop['xlabel'] = 'Pore air pressure'
 
@@ -1325,7 +1325,7 @@ class Speccon1dUnsat(speccon1d.Speccon1d):
             np.asarray(self.avg_ppress_z_pairs), self.H, self.RLzero)
         line_labels = ['{:.3g} to {:.3g}'.format(z1, z2) for z1, z2 in z_pairs]
 
-        avpw_prop = self.plot_properties.pop('avpw', dict())
+        avpw_prop = dict(self.plot_properties.get('avpw', dict()))
         if not 'ylabel' in avpw_prop:
             avpw_prop['ylabel'] = 'Average pore water pressure'
         fig_avpw = geotecha.plotting.one_d.plot_vs_time(t, self.avpw.T,
@@ -1344,7 +1344,7 @@ class Speccon1dUnsat(speccon1d.Speccon1d):
             np.asarray(self.avg_ppress_z_pairs), self.H, self.RLzero)
         line_labels = ['{:.3g} to {:.3g}'.format(z1, z2) for z1, z2 in z_pairs]
 
-        avpa_prop = self.plot_properties.pop('avpa', dict())
+        avpa_prop = dict(self.plot_properties.get('avpa', dict()))
         if not 'ylabel' in avpa_prop:
             avpa_prop['ylabel'] = 'Average pore air pressure'
         fig_avpa = geotecha.plotting.one_d.plot_vs_time(t, self.avpa.T,
@@ -1363,7 +1363,7 @@ class Speccon1dUnsat(speccon1d.Speccon1d):
             np.asarray(self.settlement_z_pairs), self.H, self.RLzero)
         line_labels = ['{:.3g} to {:.3g}'.format(z1, z2) for z1, z2 in z_pairs]
 
-        set_prop = self.plot_properties.pop('set', dict())
+        set_prop = dict(self.plot_properties.get('set', dict()))
         if not 'ylabel' in set_prop:
             set_prop['ylabel'] = 'Settlement'
         fig_set = geotecha.plotting.one_d.plot_vs_time(t, self.set.T,
@@ -1383,7 +1383,7 @@ class Speccon1dUnsat(speccon1d.Speccon1d):
             np.asarray(self.settlement_z_pairs), self.H, self.RLzero)
         line_labels = ['{:.3g} to {:.3g}'.format(z1, z2) for z1, z2 in z_pairs]
 
-        set_prop = self.plot_properties.pop('setw', dict())
+        set_prop = dict(self.plot_properties.get('setw', dict()))
         if not 'ylabel' in set_prop:
             set_prop['ylabel'] = 'Water settlement'
         fig_set = geotecha.plotting.one_d.plot_vs_time(t, self.setw.T,
@@ -1403,7 +1403,7 @@ class Speccon1dUnsat(speccon1d.Speccon1d):
             np.asarray(self.settlement_z_pairs), self.H, self.RLzero)
         line_labels = ['{:.3g} to {:.3g}'.format(z1, z2) for z1, z2 in z_pairs]
 
-        set_prop = self.plot_properties.pop('seta', dict())
+        set_prop = dict(self.plot_properties.get('seta', dict()))
         if not 'ylabel' in set_prop:
             set_prop['ylabel'] = 'Air settlement'
         fig_set = geotecha.plotting.one_d.plot_vs_time(t, self.seta.T,
@@ -1489,7 +1489,7 @@ class Speccon1dUnsat(speccon1d.Speccon1d):
 
     def _plot_materials(self):
 
-        material_prop = self.plot_properties.pop('material', dict())
+        material_prop = dict(self.plot_properties.get('material', dict()))
 
         z_x=[]
         xlabels=[]
@@ -1526,7 +1526,7 @@ class Speccon1dUnsat(speccon1d.Speccon1d):
 
         """
 
-        load_prop = self.plot_properties.pop('load', dict())
+        load_prop = dict(self.plot_properties.get('load', dict()))
         load_triples=[]
         load_names = []
         ylabels=[]
diff --git a/geotecha/speccon/speccon1d_vr.py b/geotecha/speccon/speccon1d_vr.py
index 207475b..5b52a45 100644
--- a/geotecha/speccon/speccon1d_vr.py
+++ b/geotecha/speccon/speccon1d_vr.py
@@ -1207,7 +1207,7 @@ class Speccon1dVR(speccon1d.Speccon1d):
         """
         t = self.tvals[self.ppress_z_tval_indexes]
         line_labels = ['{:.3g}'.format(v) for v in t]
-        por_prop = self.plot_properties.pop('por', dict())
+        por_prop = dict(self.plot_properties.get('por', dict()))
         if not 'xlabel' in por_prop:
             por_prop['xlabel'] = 'Pore pressure'
 
@@ -1229,7 +1229,7 @@ class Speccon1dVR(speccon1d.Speccon1d):
             np.asarray(self.avg_ppress_z_pairs), self.H, self.RLzero)
         line_labels = ['{:.3g} to {:.3g}'.format(z1, z2) for z1, z2 in z_pairs]
 
-        avp_prop = self.plot_properties.pop('avp', dict())
+        avp_prop = dict(self.plot_properties.get('avp', dict()))
         if not 'ylabel' in avp_prop:
             avp_prop['ylabel'] = 'Average pore pressure'
         fig_avp = geotecha.plotting.one_d.plot_vs_time(t, self.avp.T,
@@ -1247,7 +1247,7 @@ class Speccon1dVR(speccon1d.Speccon1d):
             np.asarray(self.settlement_z_pairs), self.H, self.RLzero)
         line_labels = ['{:.3g} to {:.3g}'.format(z1, z2) for z1, z2 in z_pairs]
 
-        set_prop = self.plot_properties.pop('set', dict())
+        set_prop = dict(self.plot_properties.get('set', dict()))
         if not 'ylabel' in set_prop:
             set_prop['ylabel'] = 'Settlement'
         fig_set = geotecha.plotting.one_d.plot_vs_time(t, self.set.T,
@@ -1307,7 +1307,7 @@ class Speccon1dVR(speccon1d.Speccon1d):
 
     def _plot_materials(self):
         """Prepare material property plots"""
-        material_prop = self.plot_properties.pop('material', dict())
+        material_prop = dict(self.plot_properties.get('material', dict()))
 
         z_x=[]
         xlabels=[]
@@ -1333,7 +1333,7 @@ class Speccon1dVR(speccon1d.Speccon1d):
     def _plot_loads(self):
         """Prepare plots of loading."""
 
-        load_prop = self.plot_properties.pop('load', dict())
+        load_prop = dict(self.plot_properties.get('load', dict()))
         load_triples=[]
         load_names = []
         ylabels=[]
diff --git a/geotecha/speccon/speccon1d_vrc.py b/geotecha/speccon/speccon1d_vrc.py
index e65a3a7..d7d55da 100644
--- a/geotecha/speccon/speccon1d_vrc.py
+++ b/geotecha/speccon/speccon1d_vrc.py
@@ -1239,7 +1239,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
         """
         t = self.tvals[self.ppress_z_tval_indexes]
         line_labels = ['{:.3g}'.format(v) for v in t]
-        por_prop = self.plot_properties.pop('pors', dict())
+        por_prop = dict(self.plot_properties.get('pors', dict()))
         if not 'xlabel' in por_prop:
             por_prop['xlabel'] = 'Soil pore pressure'
 
@@ -1256,7 +1256,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
         """
         t = self.tvals[self.ppress_z_tval_indexes]
         line_labels = ['{:.3g}'.format(v) for v in t]
-        porc_prop = self.plot_properties.pop('porc', dict())
+        porc_prop = dict(self.plot_properties.get('porc', dict()))
         if not 'xlabel' in porc_prop:
             porc_prop['xlabel'] = 'Column pore pressure'
 
@@ -1274,7 +1274,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
         """
         t = self.tvals[self.ppress_z_tval_indexes]
         line_labels = ['{:.3g}'.format(v) for v in t]
-        por_prop = self.plot_properties.pop('por', dict())
+        por_prop = dict(self.plot_properties.get('por', dict()))
         if not 'xlabel' in por_prop:
             por_prop['xlabel'] = 'Pore pressure'
 
@@ -1296,7 +1296,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
             np.asarray(self.avg_ppress_z_pairs), self.H, self.RLzero)
         line_labels = ['{:.3g} to {:.3g}'.format(z1, z2) for z1, z2 in z_pairs]
 
-        avp_prop = self.plot_properties.pop('avp', dict())
+        avp_prop = dict(self.plot_properties.get('avp', dict()))
         if not 'ylabel' in avp_prop:
             avp_prop['ylabel'] = 'Average pore pressure'
         fig_avp = geotecha.plotting.one_d.plot_vs_time(t, self.avp.T,
@@ -1314,7 +1314,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
             np.asarray(self.avg_ppress_z_pairs), self.H, self.RLzero)
         line_labels = ['{:.3g} to {:.3g}'.format(z1, z2) for z1, z2 in z_pairs]
 
-        avp_prop = self.plot_properties.pop('avps', dict())
+        avp_prop = dict(self.plot_properties.get('avps', dict()))
         if not 'ylabel' in avp_prop:
             avp_prop['ylabel'] = 'Average soil pore pressure'
         fig_avp = geotecha.plotting.one_d.plot_vs_time(t, self.avps.T,
@@ -1332,7 +1332,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
             np.asarray(self.avg_ppress_z_pairs), self.H, self.RLzero)
         line_labels = ['{:.3g} to {:.3g}'.format(z1, z2) for z1, z2 in z_pairs]
 
-        avp_prop = self.plot_properties.pop('avpc', dict())
+        avp_prop = dict(self.plot_properties.get('avpc', dict()))
         if not 'ylabel' in avp_prop:
             avp_prop['ylabel'] = 'Average column pore pressure'
         fig_avp = geotecha.plotting.one_d.plot_vs_time(t, self.avpc.T,
@@ -1350,7 +1350,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
             np.asarray(self.settlement_z_pairs), self.H, self.RLzero)
         line_labels = ['{:.3g} to {:.3g}'.format(z1, z2) for z1, z2 in z_pairs]
 
-        set_prop = self.plot_properties.pop('set', dict())
+        set_prop = dict(self.plot_properties.get('set', dict()))
         if not 'ylabel' in set_prop:
             set_prop['ylabel'] = 'Settlement'
         fig_set = geotecha.plotting.one_d.plot_vs_time(t, self.set.T,
@@ -1434,7 +1434,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
 
     def _plot_materials(self):
 
-        material_prop = self.plot_properties.pop('material', dict())
+        material_prop = dict(self.plot_properties.get('material', dict()))
 
         z_x=[]
         xlabels=[]
@@ -1467,7 +1467,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
 
         """
 
-        load_prop = self.plot_properties.pop('load', dict())
+        load_prop = dict(self.plot_properties.get('load', dict()))
         load_triples=[]
         load_names = []
         ylabels=[]
diff --git a/geotecha/speccon/speccon1d_vrw.py b/geotecha/speccon/speccon1d_vrw.py
index 677e786..b3753fe 100644
--- a/geotecha/speccon/speccon1d_vrw.py
+++ b/geotecha/speccon/speccon1d_vrw.py
@@ -1176,7 +1176,7 @@ class Speccon1dVRW(speccon1d.Speccon1d):
         """
         t = self.tvals[self.ppress_z_tval_indexes]
         line_labels = ['{:.3g}'.format(v) for v in t]
-        por_prop = self.plot_properties.pop('porwell', dict())
+        por_prop = dict(self.plot_properties.get('porwell', dict()))
         if not 'xlabel' in por_prop:
             por_prop['xlabel'] = 'Drain Pore pressure'
 
@@ -1195,7 +1195,7 @@ class Speccon1dVRW(speccon1d.Speccon1d):
         """
         t = self.tvals[self.ppress_z_tval_indexes]
         line_labels = ['{:.3g}'.format(v) for v in t]
-        por_prop = self.plot_properties.pop('por', dict())
+        por_prop = dict(self.plot_properties.get('por', dict()))
         if not 'xlabel' in por_prop:
             por_prop['xlabel'] = 'Pore pressure'
 
@@ -1217,7 +1217,7 @@ class Speccon1dVRW(speccon1d.Speccon1d):
             np.asarray(self.avg_ppress_z_pairs), self.H, self.RLzero)
         line_labels = ['{:.3g} to {:.3g}'.format(z1, z2) for z1, z2 in z_pairs]
 
-        avp_prop = self.plot_properties.pop('avp', dict())
+        avp_prop = dict(self.plot_properties.get('avp', dict()))
         if not 'ylabel' in avp_prop:
             avp_prop['ylabel'] = 'Average pore pressure'
         fig_avp = geotecha.plotting.one_d.plot_vs_time(t, self.avp.T,
@@ -1235,7 +1235,7 @@ class Speccon1dVRW(speccon1d.Speccon1d):
             np.asarray(self.settlement_z_pairs), self.H, self.RLzero)
         line_labels = ['{:.3g} to {:.3g}'.format(z1, z2) for z1, z2 in z_pairs]
 
-        set_prop = self.plot_properties.pop('set', dict())
+        set_prop = dict(self.plot_properties.get('set', dict()))
         if not 'ylabel' in set_prop:
             set_prop['ylabel'] = 'Settlement'
         fig_set = geotecha.plotting.one_d.plot_vs_time(t, self.set.T,
@@ -1301,7 +1301,7 @@ class Speccon1dVRW(speccon1d.Speccon1d):
 
     def _plot_materials(self):
 
-        material_prop = self.plot_properties.pop('material', dict())
+        material_prop = dict(self.plot_properties.get('material', dict()))
 
         z_x=[]
         xlabels=[]
@@ -1331,7 +1331,7 @@ class Speccon1dVRW(speccon1d.Speccon1d):
 
         """
 
-        load_prop = self.plot_properties.pop('load', dict())
+        load_prop = dict(self.plot_properties.get('load', dict()))
         load_triples=[]
         load_names = []
         ylabels=[]
-- 
2.43.0


From a405b2f25805a2d5ab2761990dcce505e2cf284d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:37 +0000
Subject: [PATCH 60/70] fix: FIG_DAF_envelope_vary_beta inserted a velocity
 ratio in the caller's list

---
 geotecha/beam_on_foundation/specbeam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/beam_on_foundation/specbeam.py b/geotecha/beam_on_foundation/specbeam.py
index f47eb81..f341676 100644
--- a/geotecha/beam_on_foundation/specbeam.py
+++ b/geotecha/beam_on_foundation/specbeam.py
@@ -8734,7 +8734,7 @@ def FIG_DAF_envelope_vary_beta(ax=None, betas=None, alphas=None,
 
 
     if numerical_DAF:
-        alphas.insert(0,0.00001)
+        alphas = [0.00001] + list(alphas)
 
     for i,alp in enumerate(alphas):
         for j,bet in enumerate(betas):
-- 
2.43.0


From 180aadafa58a1c00bc82dbda687cacf0ebc13744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:39 +0000
Subject: [PATCH 61/70] fix: docstrings name the arguments and default values
 the functions have

---
 geotecha/beam_on_foundation/specbeam.py   | 14 ++++++--------
 geotecha/constitutive_models/epus.py      |  4 ++--
 geotecha/constitutive_models/swcc.py      |  4 ++--
 geotecha/mathematics/multi_transform.py   |  2 +-
 geotecha/piecewise/piecewise_linear_1d.py | 12 +++++-------
 geotecha/speccon/speccon1d.py             | 16 ----------------
 6 files changed, 16 insertions(+), 36 deletions(-)

diff --git a/geotecha/beam_on_foundation/specbeam.py b/geotecha/beam_on_foundation/specbeam.py
index f341676..eb9cb90 100644
--- a/geotecha/beam_on_foundation/specbeam.py
+++ b/geotecha/beam_on_foundation/specbeam.py
@@ -1720,7 +1720,8 @@ class MovingPointLoads(object):
             Length of beam.  Default L=None in which case the L used
             during object initialization will be uses
         t0 : float, optional
-            time when vehicle reference point begins entering the beam. Default t0=0.
+            time when vehicle reference point begins entering the beam. Default
+            t0=None, i.e. value used during initialization will be used.
             If v>0 vehicle will enter from the right.  If v<0 vehicle
             will enter from the right. v=0 will result in an error.
         x0 : float, optional
@@ -2021,9 +2022,6 @@ class MovingPointLoads(object):
             Time when vehicle starts moving at velocity v0. Default t0=0
         x0 : float, optional
             Start postion of vehicle
-        L : float, optional
-            Length of beam.  Default L=None in which case the L used
-            during object initialization will be uses.
 
         Returns
         -------
@@ -2236,7 +2234,7 @@ def point_load_static_defl_shape_function(x, L, xc=0.0):
         x value
     L : float
         Characteristc length (1/lam)
-    x0 : float, optional
+    xc : float, optional
         position of load.
 
     Returns
@@ -7507,15 +7505,15 @@ def transition_zones1(
         Shape of goal transition deflection distrribution.
         "linear" isself explanatory and simplest.
         "tanh" is a hyperbolic tangent, with steepness of transtion
-        controlled by `tanend`. Not well tested.
+        controlled by `tanhend`. Not well tested.
         "reverse" is a compund reverse curve of two curclar arcs tangent to
         the end points and tangent at the arc join. Not well tested
         Default DAF_distribution = "linear".
-    tanend : float, optional
+    tanhend : float, optional
         value controling the steepness of a "tanh" `DAF_distribution`.
         Say transitioning between points (-0.5, -1) and (0.5, 1).  Tanh
         curve will never actually hit valus of -1 and +1, it will approach
-        those values as x goes to += infinity. Using tanend=0.01 will control
+        those values as x goes to += infinity. Using tanhend=0.01 will control
         transtion such that the tanh curve evalutes to y=1+0.01 and y=1-0.01
         at the start/end points.  This evaluated value is vever actually used
         because we have given start and end points but it does control the
diff --git a/geotecha/constitutive_models/epus.py b/geotecha/constitutive_models/epus.py
index b1a5900..00ce65d 100644
--- a/geotecha/constitutive_models/epus.py
+++ b/geotecha/constitutive_models/epus.py
@@ -793,7 +793,7 @@ class EPUS(object):
         """
         Parameters
         ----------
-        Curvetype : int
+        curvetype : int
             curvetype=1: drying; = 2: scanning; =3: wetting
         ssvalue : double
             Don't know
@@ -2040,7 +2040,7 @@ class EpusProfile(object):
             saturated permeability with value one.
         qfit : float, optional
             fitting parameter.  Generally between between 0 and 1. 
-            Default qfit=1
+            Default qfit=0.5
         
                     
         See Also
diff --git a/geotecha/constitutive_models/swcc.py b/geotecha/constitutive_models/swcc.py
index 6e491cc..a077c31 100644
--- a/geotecha/constitutive_models/swcc.py
+++ b/geotecha/constitutive_models/swcc.py
@@ -420,7 +420,7 @@ class SWCC_PhamAndFredlund2008(SWCC):
     s1 : float
         Initial slope of SWCC (i.e. Cc/Gs)
     ws : float
-        Saturated water content. Default ws=1.0 i.e. basically a degree of
+        Saturated water content. Using ws=1.0 gives basically a degree of
         saturation.
     psir : float, optional
         Residual suction. Default psir=None, i.e. psir = (2.7*a) **(1/b).
@@ -879,7 +879,7 @@ def karel_air_from_saturation(Sr, qfit=0.5):
         Degree of saturation at which to calc relative permeability of air.
     qfit : float, optional
         Fitting parameter.  Generally between between 0 and 1.
-        Default qfit=1
+        Default qfit=0.5
 
     References
     ----------
diff --git a/geotecha/mathematics/multi_transform.py b/geotecha/mathematics/multi_transform.py
index ae4222e..4353045 100644
--- a/geotecha/mathematics/multi_transform.py
+++ b/geotecha/mathematics/multi_transform.py
@@ -48,7 +48,7 @@ def ntransform(func, transforms, transvars, args=None, opts=None):
         ``func(x0, x1, ..., xn, t0, t1, ..., tm)``. Integral transforms are
         carried out in order. That is, integration over ``x0`` is the
         innermost integral/transform, and ``xn`` is the outermost.
-    transform : iterable object of string
+    transforms : iterable object of string
         Each elmement of transforms is a string corresponding to one of the
         available transforms.  Current options are:
 
diff --git a/geotecha/piecewise/piecewise_linear_1d.py b/geotecha/piecewise/piecewise_linear_1d.py
index 23a50cd..aae71ec 100644
--- a/geotecha/piecewise/piecewise_linear_1d.py
+++ b/geotecha/piecewise/piecewise_linear_1d.py
@@ -880,10 +880,8 @@ def convert_x_y_to_x1_x2_y1_y2(x, y):
 
     Parameters
     ----------
-    x1, y1 : array_like, float
-        x and y values at start of each segment.
-    x2, y2 : array_like, float
-        x and y values at end of each segment (note x1[1:]==x2[:-1]).
+    x, y : array_like, float
+        x and y values of the line.
 
     Returns
     -------
@@ -2693,7 +2691,7 @@ def subdivide_x_y_into_segments(x, y, dx=None, min_segments = 2,
     logxzero, logyzero : float, optional
         If log scale is used, force zero value to be given number.
         Useful when 1st point is zero but you really want to start from close
-        to zero. Default logxzero=logyzero=0.01.
+        to zero. Default logxzero=logyzero=0.1.
     rtol, atol : float, optional
         For determining equal to zero when using log scale with numpy.
         Default atol=1e-8, rtol = 1e-5.
@@ -2814,7 +2812,7 @@ def subdivide_x_into_segments(x, dx=None, min_segments=2,
     logxzero : float, optional
         If log scale is used, force zero value to be given number.
         Useful when 1st point is zero but you really want to start from close
-        to zero. Default logxzero=0.01.
+        to zero. Default logxzero=0.1.
     rtol, atol : float, optional
         For determining equal to zero when using log scale with numpy.
         Default atol=1e-8, rtol = 1e-5.
@@ -2891,7 +2889,7 @@ def layer_coords(h, segs, min_segs=1):
         Approximate number of segments to subdivide the whole profile into.
     min_segs : int, optional
         Minimum number of segments to subdivide a layer into. Default
-        min_segs=2.
+        min_segs=1.
 
     Returns
     -------
diff --git a/geotecha/speccon/speccon1d.py b/geotecha/speccon/speccon1d.py
index 6032fec..e0fd960 100644
--- a/geotecha/speccon/speccon1d.py
+++ b/geotecha/speccon/speccon1d.py
@@ -116,9 +116,6 @@ def dim1sin_f(m,
         Depths to evaluate at.
     tvals : 1d numpy.ndarray
         Time values to evaluate at
-    eigs : 1d numpy.ndarray
-        List of eigenvalues of the spectral matrix i.e. Eigenvalues of the
-        square Igam_psi matrix.
     tvals : 1d numpy.ndarray`
         List of time values to evaluate E matrix at.
     v_E_Igamv_the : ndarray of size (neig, len(tvals))
@@ -325,9 +322,6 @@ def dim1sin_integrate_af(m,
         Depths to evaluate integral between.
     tvals : 1d numpy.ndarray
         Time values to evaluate at.
-    eigs : 1d numpy.ndarray
-        List of eigenvalues of the spectral matrix i.e. Eigenvalues of the
-        square Igam_psi matrix.
     tvals : 1d numpy.ndarray`
         List of time values to evaluate E matrix at.
     v_E_Igamv_the : ndarray of size (neig, len(tvals))
@@ -1537,10 +1531,6 @@ def dim1sin_E_Igamv_the_deltamag_linear(m,
 
     Parameters
     ----------
-    drn : [0,1]
-        Drainage condition,
-        drn=0 for Pervious top pervious bottom (PTPB).
-        drn=1 for Pervious top impoervious bottom (PTIB).
     m : ``list`` of ``float``
         Eigenvalues of BVP, the m in sin(m*Z). Generate with
         geotecha.speccon.m_from_sin_mx.
@@ -1683,10 +1673,6 @@ def dim1sin_E_Igamv_the_aDmagDt_bilinear(m,
 
     Parameters
     ----------
-    drn : [0,1]
-        Drainage condition,
-        drn=0 for Pervious top pervious bottom (PTPB).
-        drn=1 for Pervious top impoervious bottom (PTIB).
     m : ``list`` of ``float``
         Eigenvalues of BVP, the m in sin(m*Z). Generate with
         geotecha.speccon.m_from_sin_mx.
@@ -2007,8 +1993,6 @@ def dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(drn,
         if omega_phase is None then mag_vs_time will not be multiplied by a
         cosine.  If any element of omega_phase is None then in that particular
         loading combo, mag_vs_time will not be multiplied by a cosine.
-    dT : ``float``, optional
-        Time factor multiple for numerical convieniece. Default dT=1.0.
     theta_zero_indexes : slice/list etc., optional
         A slice object, list, etc that can be used for numpy fancy indexing.
         Any specified index of the theta vector will be set to zero.  This is
-- 
2.43.0


From 6c0976eb6c74dc48ac727831e2181ebffb229ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:09 +0000
Subject: [PATCH 62/70] fix: shanetal2012 accepts a number or list for z and t,
 as documented

---
 geotecha/consolidation/shanetal2012.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geotecha/consolidation/shanetal2012.py b/geotecha/consolidation/shanetal2012.py
index 6d53f06..3eaf8ff 100644
--- a/geotecha/consolidation/shanetal2012.py
+++ b/geotecha/consolidation/shanetal2012.py
@@ -230,6 +230,9 @@ def shanetal2012(z, t, H, Cw, Cvw, Ca, Cva, drn=1, Csw=0, Csa=0,
         return (-(q0*(-omega*exp(eigs*M**2*t)+eigs*M**2*sin(omega*t)+
                 omega*cos(omega*t)))/(eigs**2*M**4+omega**2))
 
+    z = np.atleast_1d(z)
+    t = np.atleast_1d(t)
+
     permitted_loads = ['exp', 'sin']
     permitted_parameters={'exp': ['q0','b'],
                           'sin': ['q0', 'omega']}
-- 
2.43.0


From 6888353cfb5e664f71e2421e008c9475ecd3f43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:10 +0000
Subject: [PATCH 63/70] fix: SpecBeam non-linear stiffness varies with k3bar,
 not k1bar

---
 geotecha/beam_on_foundation/specbeam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/beam_on_foundation/specbeam.py b/geotecha/beam_on_foundation/specbeam.py
index eb9cb90..943ef32 100644
--- a/geotecha/beam_on_foundation/specbeam.py
+++ b/geotecha/beam_on_foundation/specbeam.py
@@ -856,7 +856,7 @@ class SpecBeam(object):
                                             a=self.mubar,
                                             implementation=self.implementation)
 
-        self.k3barj = pwise.pinterp_x_y(self.k1bar, self.xj)
+        self.k3barj = pwise.pinterp_x_y(self.k3bar, self.xj)
 
 
     def wofx(self, x=None, x_norm=None, tslice=slice(None, None, None), normalise_w=True):
-- 
2.43.0


From ae6e4fdc6f83bfbc98cdad4f616f1713f80e8367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:10 +0000
Subject: [PATCH 64/70] fix: SpecBeam keeps the phase angle of cyclic
 stationary loads when normalising

---
 geotecha/beam_on_foundation/specbeam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/beam_on_foundation/specbeam.py b/geotecha/beam_on_foundation/specbeam.py
index 943ef32..1158ee4 100644
--- a/geotecha/beam_on_foundation/specbeam.py
+++ b/geotecha/beam_on_foundation/specbeam.py
@@ -598,7 +598,7 @@ class SpecBeam(object):
                 else:
                     #only omega is effected, phase remains unchanged
                     self.stationary_loads_omega_phase_norm = (
-                        [(v[0] * self.L / np.sqrt(self.E / self.rho),v[1]/ (self.E * self.A))
+                        [(v[0] * self.L / np.sqrt(self.E / self.rho), v[1])
                             if not v is None else None for v in self.stationary_loads_omega_phase])
 
 
-- 
2.43.0


From 9c8ac380ec31b3fa66167dac05c017b826fcc728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:10 +0000
Subject: [PATCH 65/70] fix: MovingPointLoads.point_loads_on_beam positions
 axles relative to t0 and x0

---
 geotecha/beam_on_foundation/specbeam.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotecha/beam_on_foundation/specbeam.py b/geotecha/beam_on_foundation/specbeam.py
index 1158ee4..1cda05a 100644
--- a/geotecha/beam_on_foundation/specbeam.py
+++ b/geotecha/beam_on_foundation/specbeam.py
@@ -1696,9 +1696,9 @@ class MovingPointLoads(object):
         """
 
         if self.v >= 0:
-            self.xnow[:] = self.axle_positions(t=t, v0=self.v, x0=self.x0)
+            self.xnow[:] = self.axle_positions(t=t, v0=self.v, t0=self.t0, x0=self.x0)
         else:
-            self.xnow[:] = self.axle_positions(t=t, v0=self.v, x0=self.L)
+            self.xnow[:] = self.axle_positions(t=t, v0=self.v, t0=self.t0, x0=self.x0 + self.L)
 
         self.pnow[:] = self.p
 
-- 
2.43.0


From ea2add6aad589939cdc502ff8e24e8017e07daef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:10 +0000
Subject: [PATCH 66/70] fix: tanhtran transition is at the position asked for

---
 geotecha/beam_on_foundation/specbeam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/beam_on_foundation/specbeam.py b/geotecha/beam_on_foundation/specbeam.py
index 1cda05a..b308483 100644
--- a/geotecha/beam_on_foundation/specbeam.py
+++ b/geotecha/beam_on_foundation/specbeam.py
@@ -8543,7 +8543,7 @@ def tanhtran(x, a, b):
     tanhtranib : get smoothing factor from speccific x,y
 
     """
-    return 0.5+0.5*np.tanh((x-0.5)/b)
+    return 0.5+0.5*np.tanh((x-a)/b)
 
 
 def tanhtrani(y, a, b):
-- 
2.43.0


From 6926450a8c7874263baae2e9272d70b712f947c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:10 +0000
Subject: [PATCH 67/70] fix: DingEtAl2012.wofx scales by L only when
 non-normalised deflection is asked for

---
 geotecha/beam_on_foundation/dingetal2012.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/beam_on_foundation/dingetal2012.py b/geotecha/beam_on_foundation/dingetal2012.py
index b0cce9d..ceed3a8 100644
--- a/geotecha/beam_on_foundation/dingetal2012.py
+++ b/geotecha/beam_on_foundation/dingetal2012.py
@@ -412,7 +412,7 @@ class DingEtAl2012(object):
             for j, qq in enumerate(self.qsol[tslice, :self.nterms]):
                 v[i, j] = self.w(qq, xx)
         
-        if not normalise_w is None:
+        if not normalise_w:
             v *= self.L
             
         if len(x_norm)==1:
-- 
2.43.0


From 76f49be5adb2a6b22af0d852e9b62f41c8ce8441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:10 +0000
Subject: [PATCH 68/70] fix: DingEtAl2012 with nquad=None integrates with
 scipy, as documented

---
 geotecha/beam_on_foundation/dingetal2012.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/beam_on_foundation/dingetal2012.py b/geotecha/beam_on_foundation/dingetal2012.py
index ceed3a8..e9a277c 100644
--- a/geotecha/beam_on_foundation/dingetal2012.py
+++ b/geotecha/beam_on_foundation/dingetal2012.py
@@ -319,7 +319,7 @@ class DingEtAl2012(object):
             self.vsvdot[self.nterms + i] += self.BC_coeff * self.Fz_norm * self.phi(self.v_norm * tnow, self.beta[i])
 
 
-            if 1:
+            if not self.nquad is None:
                 # DIY quadrature
                 Fj = np.sum(q[:,None] * self.phi(self.xj[None, :], self.beta[:,None]), axis=0)**3
                 y = np.sum(self.Ij * Fj * self.phi(self.xj, self.beta[i]))
-- 
2.43.0


From 92e7d384815478ecde12c39d3f6c83662f64fe4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:10 +0000
Subject: [PATCH 69/70] fix: DingEtAl2012 quadrature points for clamped and
 free ends span the beam

---
 geotecha/beam_on_foundation/dingetal2012.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geotecha/beam_on_foundation/dingetal2012.py b/geotecha/beam_on_foundation/dingetal2012.py
index e9a277c..8f31330 100644
--- a/geotecha/beam_on_foundation/dingetal2012.py
+++ b/geotecha/beam_on_foundation/dingetal2012.py
@@ -211,11 +211,11 @@ class DingEtAl2012(object):
             self.beta = find_n_roots(_f, n=self.nterms, x0=0.001, dx=3.14159 / 10, p=1.1)
             
             if not self.nquad is None:
-                self.xj = 0.5*(1 - np.cos(np.pi * np.arange(self.nquad)/(self.nquad - 3)))
+                self.xj = 0.5*(1 - np.cos(np.pi * (np.arange(self.nquad) - 1)/(self.nquad - 3)))
                 self.xj[0] = 0
                 self.xj[1] = 0.0001
-                self.xj[-2] = 0.0001
-                self.xj[-1] = 0
+                self.xj[-2] = 1 - 0.0001
+                self.xj[-1] = 1
             
             self.BC_coeff = 1 # Coefficeint to multiply Fz(vt) and k3*Integral terms by
             if self.BC == "CC":
-- 
2.43.0


From 911ebb0e6aaa11b9b701d923ea1def7672da890f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:54 +0000
Subject: [PATCH 70/70] fix: SpecBeam.moving_loads have the start position and
 travel length asked for

---
 geotecha/beam_on_foundation/specbeam.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/geotecha/beam_on_foundation/specbeam.py b/geotecha/beam_on_foundation/specbeam.py
index b308483..a7b2c9b 100644
--- a/geotecha/beam_on_foundation/specbeam.py
+++ b/geotecha/beam_on_foundation/specbeam.py
@@ -545,13 +545,16 @@ class SpecBeam(object):
                                                        offset=offv,
                                                        v=vv,
                                                        t0=t0v,
-                                                       L=self.L)
-                                        for xv,pv,offv,vv,t0v in
+                                                       L=Lv,
+                                                       x0=x0v)
+                                        for xv,pv,offv,vv,t0v,Lv,x0v in
                                         zip(self.moving_loads_x,
                                             self.moving_loads_Fz,
                                             self.moving_loads_offset,
                                             self.moving_loads_v,
-                                            self.moving_loads_t0)]
+                                            self.moving_loads_t0,
+                                            self.moving_loads_L,
+                                            self.moving_loads_x0)]
 
 
 
-- 
2.43.0

