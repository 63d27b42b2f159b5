From 7cc6aecd8d1ba26f50fff770efdb95ce67e7d4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:37 +0000
Subject: [PATCH 01/21] fix: set inclination before computing the collapse
 height

set_touchdown_attributes computed tc from the normal load at the inclination
of the previous calc_segments call, so results depended on call history.
---
 weac/mixins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index b83f9dc..112ebda 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -776,8 +776,8 @@ class SlabContactMixin:
         """Set class attributes for touchdown consideration"""
         self.set_columnlength(L)
         self.set_cracklength(a)
-        self.set_tc(cf)
         self.set_phi(phi)
+        self.set_tc(cf)
         self.set_stiffness_ratio(ratio)
 
     def calc_touchdown_mode(self):
-- 
2.43.0


From a01d8e0caafab49bb0d52b9fe5abb8af4bb28d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:37 +0000
Subject: [PATCH 02/21] fix: add bending-extension coupling to surface load in
 free segments

The particular integral of unsupported segments violated moment equilibrium
for surface loads on inclined, asymmetrically layered slabs.
---
 weac/eigensystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weac/eigensystem.py b/weac/eigensystem.py
index e94a682..f50653b 100644
--- a/weac/eigensystem.py
+++ b/weac/eigensystem.py
@@ -579,7 +579,7 @@ class Eigensystem:
                 [-A11*(qn + pn)*x**4/(24*K0)],
                 [-A11*(qn + pn)*x**3/(6*K0)],
                 [A11*(qn + pn)*x**3/(6*K0)
-                 + ((zs - B11/A11)*qt - h*pt/2 - (qn + pn)*x)/kA55],
+                 + ((zs - B11/A11)*qt - (h/2 + B11/A11)*pt - (qn + pn)*x)/kA55],
                 [(qn + pn)*(A11*x**2/(2*K0) - 1/kA55)]])
 
         return zp
-- 
2.43.0


From 553a667503f5461efe524aa069f4ce47c01925df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:37 +0000
Subject: [PATCH 03/21] fix: correct sign of weak-layer shear strain

tau and gamma had opposite signs, which made the mode II incremental energy
release rate negative and falsified the total.
---
 weac/mixins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index 112ebda..b58faff 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -267,7 +267,7 @@ class FieldQuantitiesMixin:
         float
             Weak-layer shear strain gamma.
         """
-        return self.dw_dx(Z) / 2 - self.u(Z, z0=self.h / 2) / self.t
+        return self.u(Z, z0=self.h / 2) / self.t - self.dw_dx(Z) / 2
 
     def Gi(self, Ztip, unit="kJ/m^2"):
         """
-- 
2.43.0


From 537522206955ab2facdc921b587b32c5bdd896cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:37 +0000
Subject: [PATCH 04/21] fix: compute centroid of vertical-face slab wedge

The wedge has width (H/2 - z)*tan(phi), its centroid is at half that width,
which is not (H/2 - z)*tan(phi/2).
---
 weac/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weac/tools.py b/weac/tools.py
index 1092959..7ef33f4 100644
--- a/weac/tools.py
+++ b/weac/tools.py
@@ -158,7 +158,7 @@ def calc_vertical_bc_center_of_gravity(slab, phi):
         # Center of gravity in vertical direction
         zs = sum(zsi * rho * Ai) / sum(rho * Ai)
         # Center of gravity in horizontal direction
-        xs = (H / 2 - zs) * np.tan(phi / 2)
+        xs = (H / 2 - zs) * np.tan(phi) / 2
         # Weight of added or cut off slab segments (t)
         w = sum(Ai * rho)
 
-- 
2.43.0


From 19f821d338582a48f0145bbd5c5180c93c5b6e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:37 +0000
Subject: [PATCH 05/21] fix: solve single-segment systems given as arrays

calc_segments returns arrays, which have no append. Do not modify the lists
of the caller and return one column of constants per segment.
---
 weac/mixins.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index b58faff..a8ba671 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -1144,15 +1144,13 @@ class SolutionMixin:
         # --- PREPROCESSING ---------------------------------------------------
 
         # Determine size of linear system of equations
-        nS = len(li)  # Number of beam segments
+        nS = nSeg = len(li)  # Number of beam segments
 
         nDOF = 6  # Number of free constants per segment
 
         # Add dummy segment if only one segment provided
         if nS == 1:
-            li.append(0)
-            ki.append(True)
-            mi.append(0)
+            li, ki, mi = [*li, 0], [*ki, True], [*mi, 0]
             nS = 2
 
         # Assemble position vector
@@ -1246,7 +1244,8 @@ class SolutionMixin:
         # Solve z0 = zh0*C + zp0 = rhs for constants, i.e. zh0*C = rhs - zp0
         C = np.linalg.solve(zh0, rhs - zp0)
         # Sort (nDOF = 6) constants for each segment into columns of a matrix
-        return C.reshape([-1, nDOF]).T
+        # and drop constants of the dummy segment
+        return C.reshape([-1, nDOF]).T[:, :nSeg]
 
 
 class AnalysisMixin:
-- 
2.43.0


From efe71b2ced8c82e640291773a718338871b17877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:37 +0000
Subject: [PATCH 06/21] fix: accept layering given as array

The truth value of an array is ambiguous, Layered(layers=ndarray) and
touchdown_distance(layers=ndarray) raised.
---
 weac/layered.py | 3 ++-
 weac/tools.py   | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/weac/layered.py b/weac/layered.py
index 9f4076f..8356408 100755
--- a/weac/layered.py
+++ b/weac/layered.py
@@ -44,6 +44,7 @@ class Layered(FieldQuantitiesMixin, SlabContactMixin, SolutionMixin,
         super().__init__(system=system, touchdown=touchdown)
 
         # Set material properties and set up model
-        self.set_beam_properties(layers if layers else [[240, 200], ])
+        self.set_beam_properties(
+            [[240, 200], ] if layers is None or len(layers) == 0 else layers)
         self.set_foundation_properties()
         self.calc_fundamental_system()
diff --git a/weac/tools.py b/weac/tools.py
index 7ef33f4..4673091 100644
--- a/weac/tools.py
+++ b/weac/tools.py
@@ -300,11 +300,11 @@ def touchdown_distance(
     """
     # Check if layering is defined
     layers = (
-        layers
-        if layers
-        else [
+        [
             [240, 200],
         ]
+        if layers is None or len(layers) == 0
+        else layers
     )
 
     # Initialize model with user input
-- 
2.43.0


From 075dc6ef338a4bbc4f81e817f81e961f14ccfbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:37 +0000
Subject: [PATCH 07/21] fix: make calc_segments available for Inverse

calc_segments uses SlabContactMixin, which Inverse did not inherit.
---
 weac/inverse.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/weac/inverse.py b/weac/inverse.py
index 3542c3c..40ccd5f 100644
--- a/weac/inverse.py
+++ b/weac/inverse.py
@@ -3,14 +3,15 @@
 
 # Project imports
 from weac.mixins import FieldQuantitiesMixin
+from weac.mixins import SlabContactMixin
 from weac.mixins import SolutionMixin
 from weac.mixins import AnalysisMixin
 from weac.mixins import OutputMixin
 from weac.eigensystem import Eigensystem
 
 
-class Inverse(FieldQuantitiesMixin, SolutionMixin, AnalysisMixin,
-              OutputMixin, Eigensystem):
+class Inverse(FieldQuantitiesMixin, SlabContactMixin, SolutionMixin,
+              AnalysisMixin, OutputMixin, Eigensystem):
     """
     Fit the elastic properties of the layers of a snowpack.
 
-- 
2.43.0


From b304d8a06f5e758787fe27e8e5e611b81806a028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:37 +0000
Subject: [PATCH 08/21] fix: set touchdown loads only for systems with
 touchdown boundary conditions

The collapse height was written into the shear-force equation of PSTs with
vertical faces.
---
 weac/mixins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index a8ba671..0a620de 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -1212,7 +1212,7 @@ class SolutionMixin:
             rhs[-3:] = np.vstack([N, M, V])  # right end
 
         # Loop through segments to set touchdown conditions at rhs
-        for i in range(nS):
+        for i in range(nS) if self.system in ["pst-", "-pst"] else []:
             # Length, foundation and position of segment i
             l, k, pos = li[i], ki[i], pi[i]
             # Set displacement BC in stage B
-- 
2.43.0


From d73aa408d3ed6282c8d4ef1b22904fe5838af876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:37 +0000
Subject: [PATCH 09/21] fix: include surface load in slab stresses

Shear and transverse normal stresses did not match the traction on the top
surface of the slab.
---
 weac/mixins.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/weac/mixins.py b/weac/mixins.py
index 0a620de..eea2c74 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -1588,6 +1588,8 @@ class AnalysisMixin:
         # to obtain shear stress Txz in MPa
         Txz = cumulative_trapezoid(dsxx_dx, zi, axis=0, initial=0)
         Txz += cumulative_trapezoid(qt, zi, initial=0)[:, None]
+        # Add surface load
+        Txz += self.get_surface_load(phi)[1]
 
         # Return shear stress Txz in specified unit
         return convert[unit] * Txz
@@ -1645,6 +1647,8 @@ class AnalysisMixin:
         integrand = cumulative_trapezoid(dsxx_dxdx, zi, axis=0, initial=0)
         Szz = cumulative_trapezoid(integrand, zi, axis=0, initial=0)
         Szz += cumulative_trapezoid(-qn, zi, initial=0)[:, None]
+        # Add surface load
+        Szz -= self.get_surface_load(phi)[0]
 
         # Return shear stress txz in specified unit
         return convert[unit] * Szz
-- 
2.43.0


From 3dfaed08c8e4851cfb718cd27d67eda371045a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:37 +0000
Subject: [PATCH 10/21] fix: exclude weight load from translational substitute
 stiffness

The deflection at the loaded end contained the uniform deflection under the
slab weight so that the spring stiffness depended on the load.
---
 weac/mixins.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index eea2c74..bf527fd 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -622,7 +622,9 @@ class SlabContactMixin:
         if dof in ["rot"]:
             k = abs(1 / self.psi(z_pst)[0])
         if dof in ["trans"]:
-            k = abs(1 / self.w(z_pst)[0])
+            # Do not account for uniform deflection under weight loads
+            w0 = self.zp(x=0, phi=0, bed=True)[2]
+            k = abs(1 / (self.w(z_pst) - w0)[0])
 
         # Reset to previous system and eigensystem
         self.system = tempsys
-- 
2.43.0


From 7fb14391b3d6b767186ccb86f6b90488407660cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:37 +0000
Subject: [PATCH 11/21] fix: find touchdown length right after the transition
 to stage C

For cracks up to about 1% longer than a2 the contact-free length exceeds
0.999*a and calc_segments raised because the root was not bracketed.
---
 weac/mixins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index bf527fd..f27a154 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -770,7 +770,7 @@ class SlabContactMixin:
             )
 
         # Find root
-        lC = brentq(polynomial, a / 1000, 999 / 1000 * a)
+        lC = brentq(polynomial, a / 1000, (1 - 1e-6) * a)
 
         return lC
 
-- 
2.43.0


From 092a024bf600c0fdc46fedaf206f2d13982c59ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:59 +0000
Subject: [PATCH 12/21] fix: restore model when the substitute stiffness cannot
 be computed

The temporary system type and weak-layer stiffness stayed in place when the
solution failed, e.g. with a singular matrix for zero length.
---
 weac/mixins.py | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index f27a154..c8f045d 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -593,11 +593,10 @@ class SlabContactMixin:
         k : stiffness of substitute spring.
         """
         # adjust system to substitute system
+        tempsys = self.system
         if dof in ["rot"]:
-            tempsys = self.system
             self.system = "rot"
         if dof in ["trans"]:
-            tempsys = self.system
             self.system = "trans"
 
         # Change eigensystem for rested segment
@@ -615,24 +614,25 @@ class SlabContactMixin:
             "mi": np.array([0]),
             "ki": np.array([True, True]),
         }
-        # solve system of equations
-        constants = self.assemble_and_solve(phi=0, **segments)
-        # calculate stiffness
-        _, z_pst, _ = self.rasterize_solution(C=constants, phi=0, num=1, **segments)
-        if dof in ["rot"]:
-            k = abs(1 / self.psi(z_pst)[0])
-        if dof in ["trans"]:
-            # Do not account for uniform deflection under weight loads
-            w0 = self.zp(x=0, phi=0, bed=True)[2]
-            k = abs(1 / (self.w(z_pst) - w0)[0])
-
-        # Reset to previous system and eigensystem
-        self.system = tempsys
-        if support in ["rested"]:
-            self.kn = tempkn
-            self.kt = tempkt
-            self.calc_system_matrix()
-            self.calc_eigensystem()
+        try:
+            # solve system of equations
+            constants = self.assemble_and_solve(phi=0, **segments)
+            # calculate stiffness
+            _, z_pst, _ = self.rasterize_solution(C=constants, phi=0, num=1, **segments)
+            if dof in ["rot"]:
+                k = abs(1 / self.psi(z_pst)[0])
+            if dof in ["trans"]:
+                # Do not account for uniform deflection under weight loads
+                w0 = self.zp(x=0, phi=0, bed=True)[2]
+                k = abs(1 / (self.w(z_pst) - w0)[0])
+        finally:
+            # Reset to previous system and eigensystem
+            self.system = tempsys
+            if support in ["rested"]:
+                self.kn = tempkn
+                self.kt = tempkt
+                self.calc_system_matrix()
+                self.calc_eigensystem()
 
         return k
 
-- 
2.43.0


From 949a6498bd778eddbd68201a16d1faf32c06705b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:52 +0000
Subject: [PATCH 13/21] fix: find touchdown length of a very short rested
 segment

The bracket ended 1e-6*a before the crack tip, where the rested segment is
too short for its stiffness to be computed, so that calc_segments raised
LinAlgError for some cracks slightly longer than a2.
---
 weac/mixins.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index c8f045d..4499a76 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -7,7 +7,7 @@ from functools import partial
 # Third party imports
 import numpy as np
 from scipy.integrate import cumulative_trapezoid, quad
-from scipy.optimize import brentq
+from scipy.optimize import bisect, brentq
 
 # Module imports
 from weac.tools import calc_vertical_bc_center_of_gravity, tensile_strength_slab
@@ -738,8 +738,8 @@ class SlabContactMixin:
             # Spring stiffness supported segment
             kRl = self.substitute_stiffness(L - a, "supported", "rot")
             kNl = self.substitute_stiffness(L - a, "supported", "trans")
-            # Spring stiffness rested segment
-            kRr = self.substitute_stiffness(a - x, "rested", "rot")
+            # Spring stiffness rested segment (none without rested segment)
+            kRr = self.substitute_stiffness(a - x, "rested", "rot") if x < a else 0
             # define constants
             c1 = ss**2 * kRl * kNl * qn
             c2 = 6 * ss * kNl * qn * (bs * ss + kRl * kRr)
@@ -770,7 +770,12 @@ class SlabContactMixin:
             )
 
         # Find root
-        lC = brentq(polynomial, a / 1000, (1 - 1e-6) * a)
+        if polynomial(999 / 1000 * a) > 0:
+            lC = brentq(polynomial, a / 1000, 999 / 1000 * a)
+        else:
+            # Short rested segment right after the transition. Bisect because
+            # its stiffness cannot be computed arbitrarily close to zero length
+            lC = bisect(polynomial, 999 / 1000 * a, a)
 
         return lC
 
-- 
2.43.0


From 608c707efa6cfd4f58ebc68bea2a621d84eb7769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:52 +0000
Subject: [PATCH 14/21] fix: plot curves without segments

plot_data iterated over its default ki=False and mi=False, so that
fea_disp, fea_stress and stress_criteria, and displacements,
section_forces and stresses without segments, raised a TypeError.
---
 weac/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weac/plot.py b/weac/plot.py
index 7c753d3..c8f566f 100644
--- a/weac/plot.py
+++ b/weac/plot.py
@@ -434,11 +434,11 @@ def plot_data(
     # Plot vertical separators
     if vlines:
         ax1.axvline(0, linewidth=0.5, color='gray')
-        for i, f in enumerate(ki):
+        for i, f in enumerate(ki if ki is not False else []):
             if not f:
                 ax1.axvspan(sum(li[:i])/10, sum(li[:i+1])/10,
                             facecolor='gray', alpha=0.05, zorder=100)
-        for i, m in enumerate(mi, start=1):
+        for i, m in enumerate(mi if mi is not False else [], start=1):
             if m > 0:
                 ax1.axvline(sum(li[:i])/10, linewidth=0.5, color='gray')
     else:
-- 
2.43.0


From 1c3253d6ab45f5f91bafbe51bbcd90af3b1769f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:46 +0000
Subject: [PATCH 15/21] fix: colour range of a field that vanishes everywhere

---
 weac/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weac/plot.py b/weac/plot.py
index c8f566f..ea8e642 100644
--- a/weac/plot.py
+++ b/weac/plot.py
@@ -336,7 +336,7 @@ def deformed(instance, xsl, xwl, z, phi, dz=2, scale=100,
 
     # Normalize colormap
     absmax = np.nanmax(np.abs([slab.min(), slab.max(), weak.min(), weak.max()]))
-    clim = np.round(absmax, significant_digits(absmax))
+    clim = np.round(absmax, significant_digits(absmax)) if absmax > 0 else 1
     levels = np.linspace(-clim, clim, num=levels+1, endpoint=True)
     # nanmax = np.nanmax([slab.max(), weak.max()])
     # nanmin = np.nanmin([slab.min(), weak.min()])
-- 
2.43.0


From c22e841a04545b12970b681cce287b43d1e57ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:41 +0000
Subject: [PATCH 16/21] fix: integrate stored energy over slab and supported
 lengths

---
 weac/mixins.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index 4499a76..dcd4149 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -1876,20 +1876,24 @@ class OutputMixin:
         wweak = self.w(zweak)
         uweak = self.u(zweak, z0=self.h / 2)
 
+        # Get lengths of the slab and of its supported parts
+        li, ki = np.asarray(segments["li"]), np.asarray(segments["ki"])
+        Lslab, Lweak = np.sum(li), np.sum(li[ki])
+
         # Compute stored energy of the slab (monte-carlo integration)
         n = len(xq)
         nweak = len(xweak)
         # energy share from moment, shear force, wl normal and tangential springs
         Pi_int = (
-            L / 2 / n / self.A11 * np.sum([Ni**2 for Ni in N])
-            + L
+            Lslab / 2 / n / self.A11 * np.sum([Ni**2 for Ni in N])
+            + Lslab
             / 2
             / n
             / (self.D11 - self.B11**2 / self.A11)
             * np.sum([Mi**2 for Mi in M])
-            + L / 2 / n / self.kA55 * np.sum([Vi**2 for Vi in V])
-            + L * self.kn / 2 / nweak * np.sum([wi**2 for wi in wweak])
-            + L * self.kt / 2 / nweak * np.sum([ui**2 for ui in uweak])
+            + Lslab / 2 / n / self.kA55 * np.sum([Vi**2 for Vi in V])
+            + Lweak * self.kn / 2 / nweak * np.sum([wi**2 for wi in wweak])
+            + Lweak * self.kt / 2 / nweak * np.sum([ui**2 for ui in uweak])
         )
         # energy share from substitute rotation spring
         if self.system in ["pst-"]:
-- 
2.43.0


From df1478feac95ee1eaeb40492eb32dcfb28b82450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:41 +0000
Subject: [PATCH 17/21] fix: bending-extension coupling in stored energy of the
 slab

---
 weac/mixins.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index dcd4149..e9b0d2a 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -1867,6 +1867,8 @@ class OutputMixin:
 
         # Compute section forces
         N, M, V = self.N(zq), self.M(zq), self.V(zq)
+        # Moment about the neutral axis (bending-extension coupling)
+        Mc = M - self.B11 / self.A11 * N
 
         # Drop parts of the solution that are not a foundation
         zweak = zq[:, ~np.isnan(xb)]
@@ -1890,7 +1892,7 @@ class OutputMixin:
             / 2
             / n
             / (self.D11 - self.B11**2 / self.A11)
-            * np.sum([Mi**2 for Mi in M])
+            * np.sum([Mi**2 for Mi in Mc])
             + Lslab / 2 / n / self.kA55 * np.sum([Vi**2 for Vi in V])
             + Lweak * self.kn / 2 / nweak * np.sum([wi**2 for wi in wweak])
             + Lweak * self.kt / 2 / nweak * np.sum([ui**2 for ui in uweak])
-- 
2.43.0


From c247e68b6ad465c982a4718fcc76183f2b7f10a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:41 +0000
Subject: [PATCH 18/21] fix: shear deformation of the weak layer in its stored
 energy

---
 weac/mixins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index e9b0d2a..c77d383 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -1876,7 +1876,7 @@ class OutputMixin:
 
         # Compute weak layer displacements
         wweak = self.w(zweak)
-        uweak = self.u(zweak, z0=self.h / 2)
+        uweak = self.u(zweak, z0=self.h / 2) - self.dw_dx(zweak) * self.t / 2
 
         # Get lengths of the slab and of its supported parts
         li, ki = np.asarray(segments["li"]), np.asarray(segments["ki"])
-- 
2.43.0


From e0bb7ec7df6c909eb8590dc7f0ff19eb5cf9f67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:41 +0000
Subject: [PATCH 19/21] fix: energy stored in the substitute rotational spring

---
 weac/mixins.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index c77d383..7294c6f 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -1899,9 +1899,9 @@ class OutputMixin:
         )
         # energy share from substitute rotation spring
         if self.system in ["pst-"]:
-            Pi_int += 1 / 2 * M[-1] * (self.psi(zq)[-1]) ** 2
+            Pi_int -= 1 / 2 * M[-1] * self.psi(zq)[-1]
         elif self.system in ["-pst"]:
-            Pi_int += 1 / 2 * M[0] * (self.psi(zq)[0]) ** 2
+            Pi_int += 1 / 2 * M[0] * self.psi(zq)[0]
         else:
             print("Input error: Only pst-setup implemented at the moment.")
 
-- 
2.43.0


From a4e69054bdf2b639f80913c9af6fc27e1eeee3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:41 +0000
Subject: [PATCH 20/21] fix: surface load works at the top face in external
 potential

---
 weac/mixins.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index 7294c6f..b84adc9 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -1816,9 +1816,11 @@ class OutputMixin:
         # Compute displacements where weight loads are applied
         w0 = self.w(zq)
         us = self.u(zq, z0=self.zs)
-        # Get weight loads
+        up = self.u(zq, z0=-self.h / 2)
+        # Get weight loads (surface load acts on the top face)
         qn = self.calc_qn()
-        qt = self.calc_qt()
+        _, qt = self.get_weight_load(phi)
+        _, pt = self.get_surface_load(phi)
         # use +/- and us[0]/us[-1] according to system and phi
         # compute total external potential
         Pi_ext = (
@@ -1827,12 +1829,14 @@ class OutputMixin:
         )
         # Ensure
         if self.system in ["pst-"]:
-            ub = us[-1]
+            ub, ubp = us[-1], up[-1]
         elif self.system in ["-pst"]:
-            ub = us[0]
+            ub, ubp = us[0], up[0]
         Pi_ext += (
             -qt * (segments["li"][0] + segments["li"][1]) * np.average(us)
             - qt * (L - (segments["li"][0] + segments["li"][1])) * ub
+            - pt * (segments["li"][0] + segments["li"][1]) * np.average(up)
+            - pt * (L - (segments["li"][0] + segments["li"][1])) * ubp
         )
         if self.system not in ["pst-", "-pst"]:
             print("Input error: Only pst-setup implemented at the moment.")
-- 
2.43.0


From a8fad4eb2f9bd6617f8f493b407bf52727986fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:00 +0000
Subject: [PATCH 21/21] fix: deformed() changed matplotlib's own colour map

---
 weac/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weac/plot.py b/weac/plot.py
index ea8e642..bdc44a6 100644
--- a/weac/plot.py
+++ b/weac/plot.py
@@ -359,7 +359,7 @@ def deformed(instance, xsl, xwl, z, phi, dz=2, scale=100,
                  'k', linewidth=1)
 
     # Colormap
-    cmap = plt.cm.RdBu_r
+    cmap = plt.cm.RdBu_r.copy()
     cmap.set_over(adjust_lightness(cmap(1.0), 0.9))
     cmap.set_under(adjust_lightness(cmap(0.0), 0.9))
 
-- 
2.43.0

