From 300d76d7f53461260f01a43ff977ff782c7acc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:15 +0000
Subject: [PATCH 01/32] fix: y-edge constraints of v and w were taken from
 those of u

With constraints given as lists, the shape functions of v and w along y were
selected from the translations/rotations prescribed for u (TX/RX) instead of
their own (TY/RY, TZ/RZ).
---
 composipy/core/structure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/composipy/core/structure.py b/composipy/core/structure.py
index af29633..61900bc 100644
--- a/composipy/core/structure.py
+++ b/composipy/core/structure.py
@@ -251,8 +251,8 @@ class PlateStructure(Structure):
             wn.remove(3)
         
         um, un = um[0:self.m], un[0:self.n]
-        vm, vn = vm[0:self.m], un[0:self.n]
-        wm, wn = wm[0:self.m], un[0:self.n]
+        vm, vn = vm[0:self.m], vn[0:self.n]
+        wm, wn = wm[0:self.m], wn[0:self.n]
 
         uidx = list(product(um, un, um, un))
         vidx = list(product(vm, vn, vm, vn))
-- 
2.43.0


From 2473e066d0b177554bace08d82f1f4b9e3ebe81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:15 +0000
Subject: [PATCH 02/32] fix: aspect ratio of the A66 term of K11

u,y*u,y scales with (2/b)**2 * a*b/4 = a/b.
---
 composipy/pre_integrated_component/build_k.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/composipy/pre_integrated_component/build_k.py b/composipy/pre_integrated_component/build_k.py
index 6a95f43..8cbbca4 100644
--- a/composipy/pre_integrated_component/build_k.py
+++ b/composipy/pre_integrated_component/build_k.py
@@ -14,7 +14,7 @@ def calc_K11_ijkl(a, b, ui, uj, uk, ul, A11, A16, A66):
     k11 = (
         A11 * (b/a) *  uxi_ij_uxi_kl
         + A16 * (uxi_ij_ueta_kl+ueta_ij_uxi_kl)
-        + A66 * (b/a) * ueta_ij_ueta_kl)
+        + A66 * (a/b) * ueta_ij_ueta_kl)
     return k11
 
 
-- 
2.43.0


From 656e95c053fc2e3ca5376d8b404252fdee5272b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:15 +0000
Subject: [PATCH 03/32] fix: aspect ratio of the A16 term of K21

K21 must be the transpose of K12, whose A16 term scales with b/a.
---
 composipy/pre_integrated_component/build_k.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/composipy/pre_integrated_component/build_k.py b/composipy/pre_integrated_component/build_k.py
index 8cbbca4..ab7508d 100644
--- a/composipy/pre_integrated_component/build_k.py
+++ b/composipy/pre_integrated_component/build_k.py
@@ -68,7 +68,7 @@ def calc_k21_ijkl(a, b, vi, vj, uk, ul, A12, A16, A26, A66):
 
     k21 = (
         A12 * veta_ij_uxi_kl
-        + A16 * (a/b) * vxi_ij_uxi_kl
+        + A16 * (b/a) * vxi_ij_uxi_kl
         + A26 * (a/b) * veta_ij_ueta_ij
         + A66 * vxi_ij_ueta_kl
     )
-- 
2.43.0


From 2e5055bb118bc87506ce1324370babd4eda13aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:15 +0000
Subject: [PATCH 04/32] fix: geometric factors of the B11 and B26 terms of K13

K13 must be the transpose of K31, where both factors are right.
---
 composipy/pre_integrated_component/build_k.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/composipy/pre_integrated_component/build_k.py b/composipy/pre_integrated_component/build_k.py
index ab7508d..de0d4b7 100644
--- a/composipy/pre_integrated_component/build_k.py
+++ b/composipy/pre_integrated_component/build_k.py
@@ -48,10 +48,10 @@ def calc_k13_ijkl(a, b, ui, uj, wk, wl, B11, B12, B16, B26, B66):
     ueta_w = ii_ff(uiwk) * ii_fxi_f(ujwl)
 
     k13 = (
-        -(2*b/a) * B11 * uxi_ij_wxixi_kl
+        -(2*b/a**2) * B11 * uxi_ij_wxixi_kl
         -(2/b) * B12 * uxi_wetaeta
         -(2/a) * B16 * (2*uxi_wxieta + ueta_wxixi)
-        -(2/b**2) * B26 * ueta_wetaeta
+        -(2*a/b**2) * B26 * ueta_wetaeta
         -(4/b) * B66 * ueta_wxieta
     )
 
-- 
2.43.0


From 68901f756b4d90ef6d56493df36caaef0991183a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:15 +0000
Subject: [PATCH 05/32] fix: K31 was placed where K23 belongs in the full
 stiffness matrix

---
 composipy/core/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/composipy/core/structure.py b/composipy/core/structure.py
index 61900bc..9d9a90b 100644
--- a/composipy/core/structure.py
+++ b/composipy/core/structure.py
@@ -318,7 +318,7 @@ class PlateStructure(Structure):
 
         K = np.vstack([
         np.hstack([k11, k12, k13]),
-        np.hstack([k21, k22, k31]),
+        np.hstack([k21, k22, k23]),
         np.hstack([k31, k32, k33])
         ])
 
-- 
2.43.0


From 955efcbad1c9157f87c35267a3e120a703d145d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:20 +0000
Subject: [PATCH 06/32] fix: minimize_panel_weight diverged from its default
 starting point

The buckling constraint grows with the cube of the thickness, so its
linearisation at the default (thin) start led SLSQP to incompatible steps.
Constrain the cube root of the load ratio, which is proportional to the
thickness; the feasible set is the same.
---
 composipy/optimize/_minimize_panel_weight.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/composipy/optimize/_minimize_panel_weight.py b/composipy/optimize/_minimize_panel_weight.py
index c85dbe5..5d583de 100644
--- a/composipy/optimize/_minimize_panel_weight.py
+++ b/composipy/optimize/_minimize_panel_weight.py
@@ -77,10 +77,10 @@ def minimize_panel_weight(a, b,
             eig = Ncr_from_lp(a, b, T, m, n, xi1, xi3, E1, E2, v12, G12, Nxx_norm, Nyy_norm, Nxy_norm, constraints=panel_constraint)
         except ArpackError: #cause if xi1 and xi3 chosen by optimizer is out of the bounds, it may crash
             eig = -1
-        return eig
+        return np.cbrt(eig / max_load) #proportional to T, so the solver deals with a well scaled constraint
     
     # Constraints and boundaries
-    c1 = NonlinearConstraint(critical_load, max_load, np.inf)
+    c1 = NonlinearConstraint(critical_load, 1, np.inf)
     c2 = NonlinearConstraint(penalty_g1, -0.0001, 10000)
     c3 = NonlinearConstraint(penalty_g2, -0.0001, 10000)
     b1 = ([0.001, 1000000], [-1.0, 1.0], [-1.0, 1.0])
-- 
2.43.0


From efb1337e0f8e2475a50bbfa125a65778cfd6fb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:15 +0000
Subject: [PATCH 07/32] fix: buckling_analysis missed the critical load when it
 is below the applied load

The shift-invert search around factor 1 returned the factors closest to 1 (in
ratio), so a plate loaded beyond its buckling load got the wrong factors, with
the lowest ones left out. It also failed for bases of one or two terms. Solve
the generalized symmetric problem for its lowest eigenvalues instead.
---
 composipy/core/structure.py                  | 12 ++++--------
 composipy/optimize/_maximize_buckling.py     |  4 ++--
 composipy/optimize/_minimize_panel_weight.py |  4 ++--
 3 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/composipy/core/structure.py b/composipy/core/structure.py
index 9d9a90b..0c51a1b 100644
--- a/composipy/core/structure.py
+++ b/composipy/core/structure.py
@@ -3,8 +3,7 @@ import matplotlib.pyplot as plt
 
 from matplotlib import cm
 from time import time
-from scipy.sparse import csr_matrix
-from scipy.sparse.linalg import eigsh
+from scipy.linalg import eigh
 from itertools import product
 
 from composipy.core.property import Property
@@ -383,19 +382,16 @@ class PlateStructure(Structure):
             ti = time()       
             print('calculating K and KG')
         K, KG = self.calc_K_KG_D()
-        K, KG = csr_matrix(K), csr_matrix(KG)
         if not silent:
             print(f'K and KG calculated in {time()-ti} seconds')
-        tol = 0
     
         if not silent:
             ti = time()
             print('Calculating eigenvalues')
-        k = min(num_eigvalues, KG.shape[0]-2)
-        mode = 'cayley'
+        k = min(num_eigvalues, KG.shape[0])
 
-        eigvals, eigvecs = eigsh(A=KG, k=k,
-              which='SM', M=K, tol=tol, sigma=1., mode=mode)
+        # KG x = -1/factor K x: the lowest load factors are the lowest eigenvalues.
+        eigvals, eigvecs = eigh(KG, K, subset_by_index=[0, k-1])
         
         eigvals = -1./eigvals
     
diff --git a/composipy/optimize/_maximize_buckling.py b/composipy/optimize/_maximize_buckling.py
index c45e516..909f24e 100644
--- a/composipy/optimize/_maximize_buckling.py
+++ b/composipy/optimize/_maximize_buckling.py
@@ -2,7 +2,7 @@ import numpy as np
 import matplotlib.pyplot as plt
 
 from scipy.optimize import NonlinearConstraint, Bounds, minimize, LinearConstraint
-from scipy.sparse.linalg import ArpackError
+from scipy.linalg import LinAlgError
 
 from .utils import Ncr_from_lp, normalize_critical_load, penalty_g1, penalty_g2, check_loads, natural_constraint_g, plot_optimization
 
@@ -74,7 +74,7 @@ def maximize_buckling_load(a, b, T,
         xi1, xi3 = y0
         try:
             eig = Ncr_from_lp(a, b, T, m, n, xi1, xi3, E1, E2, v12, G12, Nxx_norm, Nyy_norm, Nxy_norm, constraints=panel_constraint)
-        except ArpackError: #cause if xi1 and xi3 chosen by optimizer is out of the bounds, it may crash
+        except LinAlgError: #cause if xi1 and xi3 chosen by optimizer is out of the bounds, it may crash
             eig = -1
         return (-1) * eig #negative so the solver can maximize instead of minimize
     
diff --git a/composipy/optimize/_minimize_panel_weight.py b/composipy/optimize/_minimize_panel_weight.py
index 5d583de..378955c 100644
--- a/composipy/optimize/_minimize_panel_weight.py
+++ b/composipy/optimize/_minimize_panel_weight.py
@@ -2,7 +2,7 @@ import numpy as np
 
 from composipy import OrthotropicMaterial, LaminateProperty, PlateStructure
 from scipy.optimize import NonlinearConstraint, Bounds, minimize, LinearConstraint
-from scipy.sparse.linalg import ArpackError
+from scipy.linalg import LinAlgError
 
 from .utils import Ncr_from_lp, normalize_critical_load, penalty_g1, penalty_g2, check_loads
 
@@ -75,7 +75,7 @@ def minimize_panel_weight(a, b,
         T, xi1, xi3 = y0
         try:
             eig = Ncr_from_lp(a, b, T, m, n, xi1, xi3, E1, E2, v12, G12, Nxx_norm, Nyy_norm, Nxy_norm, constraints=panel_constraint)
-        except ArpackError: #cause if xi1 and xi3 chosen by optimizer is out of the bounds, it may crash
+        except LinAlgError: #cause if xi1 and xi3 chosen by optimizer is out of the bounds, it may crash
             eig = -1
         return np.cbrt(eig / max_load) #proportional to T, so the solver deals with a well scaled constraint
     
-- 
2.43.0


From 8c50aee88ad544582af5dfaa1cd08625518be4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:15 +0000
Subject: [PATCH 08/32] fix: top and bottom were swapped in the margins table

The rows follow the stress table, which lists the bottom of each ply first.
---
 composipy/core/strength.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/composipy/core/strength.py b/composipy/core/strength.py
index 051af70..8801e35 100644
--- a/composipy/core/strength.py
+++ b/composipy/core/strength.py
@@ -370,8 +370,8 @@ class LaminateStrength():
         for allowable123, theta in zip(allowablek_123, stacking):
             data['ply'].append(cur_ply)
             data['ply'].append(cur_ply)
-            data['position'].append('top')
             data['position'].append('bot')
+            data['position'].append('top')
             data['angle'].append(theta)
             data['angle'].append(theta)
             data['t1'].append(allowable123[0])
-- 
2.43.0


From 8cc7ab90cd5e9cfa9c816041bf71bb666113e8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:15 +0000
Subject: [PATCH 09/32] fix: IsotropicMaterial could not be created without
 allowables

The None defaults were rejected by the validation; use 0 as OrthotropicMaterial.
---
 composipy/core/material.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/composipy/core/material.py b/composipy/core/material.py
index a86e994..e29b782 100644
--- a/composipy/core/material.py
+++ b/composipy/core/material.py
@@ -225,9 +225,9 @@ class IsotropicMaterial(Material):
             v, 
             g, 
             thickness, 
-            t=None, 
-            c=None, 
-            s=None, 
+            t=0, 
+            c=0, 
+            s=0, 
             name=None):
         self.__e = self._float_number(e, n_min=0, name='e')
         self.__v = self._float_number(v, n_min=-0.5, n_max=0.5, name='v')
-- 
2.43.0


From 746d25b4fdb707d47261fc2c0d511dc1ed0c68ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:13 +0000
Subject: [PATCH 10/32] fix: lamination parameters could not be used with an
 IsotropicMaterial

LaminateProperty takes A and D from the invariants of its material, which
IsotropicMaterial did not have.
---
 composipy/core/material.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/composipy/core/material.py b/composipy/core/material.py
index e29b782..5c01bf8 100644
--- a/composipy/core/material.py
+++ b/composipy/core/material.py
@@ -295,6 +295,8 @@ class IsotropicMaterial(Material):
                                    [0, 0, Q66]])
         return self.__Q_0
 
+    Invariants = OrthotropicMaterial.Invariants
+
     def __repr__(self):
         return (
             f'IsotropicMaterial({self.name}, E = {self.e}, \n\
-- 
2.43.0


From fd40746fa02a6db653a16a897933e8410bbc7bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:13 +0000
Subject: [PATCH 11/32] fix: margins of safety could not be calculated for an
 IsotropicMaterial

LaminateStrength reads the allowables of each direction (t1, c1, t2, c2).
---
 composipy/core/material.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/composipy/core/material.py b/composipy/core/material.py
index 5c01bf8..c12f4d5 100644
--- a/composipy/core/material.py
+++ b/composipy/core/material.py
@@ -260,6 +260,9 @@ class IsotropicMaterial(Material):
     @property 
     def c(self):
         return self.__c
+    # an isotropic ply has the same allowables in directions 1 and 2
+    t1 = t2 = t
+    c1 = c2 = c
     @property
     def s(self):
         return self.__s
-- 
2.43.0


From f0e4c125e10764de5b801eacbfef67bb3256627b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:13 +0000
Subject: [PATCH 12/32] fix: xiA and xiD failed for a laminate defined by
 lamination parameters

The getters iterated over plies the laminate does not have; return the given
parameters.
---
 composipy/core/property.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/composipy/core/property.py b/composipy/core/property.py
index 3ad2ae3..b60a3ce 100644
--- a/composipy/core/property.py
+++ b/composipy/core/property.py
@@ -273,6 +273,8 @@ class LaminateProperty(Property):
     @property
     def xiA(self):
         '''Lamination parameter xiA'''
+        if not self._xiA is None:
+            return np.array(self._xiA, dtype=float)
         xiA = np.zeros(4)
         T = sum([ply.thickness for ply in self.plies])        
         for i, angle in enumerate(self.stacking):
@@ -290,6 +292,8 @@ class LaminateProperty(Property):
     @property
     def xiD(self):
         '''Lamination parameter xiD'''
+        if not self._xiD is None:
+            return np.array(self._xiD, dtype=float)
         xiD = np.zeros(4)
         T = sum([ply.thickness for ply in self.plies])        
         for i, angle in enumerate(self.stacking):
-- 
2.43.0


From 98c5d749f931d10c344a46ed289701383fa3f1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:13 +0000
Subject: [PATCH 13/32] fix: a missing xiD or T key was not reported

The KeyError was created but not raised, and an UnboundLocalError came instead.
---
 composipy/core/property.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/composipy/core/property.py b/composipy/core/property.py
index b60a3ce..c72d8a0 100644
--- a/composipy/core/property.py
+++ b/composipy/core/property.py
@@ -83,11 +83,11 @@ class LaminateProperty(Property):
             try: 
                 xiD = stacking['xiD']
             except KeyError:
-                KeyError('xiD must be a key')
+                raise KeyError('xiD must be a key')
             try:
                 total_thickness = stacking['T']
             except KeyError:
-                KeyError('T must be a key')
+                raise KeyError('T must be a key')
             layup = []
 
         self.stacking = stacking
-- 
2.43.0


From 7742d11a882f9b5c6944a7a0ff25f473702527b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:13 +0000
Subject: [PATCH 14/32] fix: B of a laminate defined by lamination parameters
 overwrote A

---
 composipy/core/property.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/composipy/core/property.py b/composipy/core/property.py
index c72d8a0..2b27282 100644
--- a/composipy/core/property.py
+++ b/composipy/core/property.py
@@ -215,7 +215,7 @@ class LaminateProperty(Property):
         '''
         if (not self._xiA is None
                 and not self._xiD is None):
-            self._A = np.array([[0., 0., 0.],
+            self._B = np.array([[0., 0., 0.],
                                 [0., 0., 0.],
                                 [0., 0., 0.]])
 
-- 
2.43.0


From 6dfa8b30cf6433d585656f50c18a6d11ad9de6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:13 +0000
Subject: [PATCH 15/32] fix: any two laminates defined by lamination parameters
 were equal

Only the layup was compared, which is empty for these laminates.
---
 composipy/core/property.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/composipy/core/property.py b/composipy/core/property.py
index 2b27282..631ce2c 100644
--- a/composipy/core/property.py
+++ b/composipy/core/property.py
@@ -317,6 +317,13 @@ class LaminateProperty(Property):
 #Comparisons
     def __eq__(self, other):
         if isinstance(other, LaminateProperty):
+            if isinstance(self.stacking, dict) or isinstance(other.stacking, dict):
+                # defined by lamination parameters: there is no layup to compare
+                return (type(self.stacking) == type(other.stacking)
+                        and self._total_thickness == other._total_thickness
+                        and np.array_equal(self._xiA, other._xiA)
+                        and np.array_equal(self._xiD, other._xiD)
+                        and self.plies == other.plies)
             return (self.layup == other.layup)
         return NotImplemented
 
-- 
2.43.0


From a5ab391be8b2929b615012be688e60caec9651b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:13 +0000
Subject: [PATCH 16/32] fix: comparing materials of different kinds raised an
 error

That made laminates that mix or differ in material kind impossible to compare.
---
 composipy/core/material.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/composipy/core/material.py b/composipy/core/material.py
index c12f4d5..835b2f7 100644
--- a/composipy/core/material.py
+++ b/composipy/core/material.py
@@ -191,6 +191,8 @@ class OrthotropicMaterial(Material):
                     and self.t2 == other.t2
                     and self.c2 == other.c2
                     and self.s == other.s)
+        elif isinstance(other, Material):
+            return False
         else:
             raise ValueError(f'Not a instance of Material')
 
@@ -316,5 +318,7 @@ class IsotropicMaterial(Material):
                     and self.t == other.t
                     and self.c == other.c
                     and self.s == other.s)
+        elif isinstance(other, Material):
+            return False
         else:
             raise ValueError(f'Not a instance of Material')
\ No newline at end of file
-- 
2.43.0


From c63c093f89575875983e4df92e96fecd96598667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:45 +0000
Subject: [PATCH 17/32] fix: laminates and plates followed later changes of
 their input lists

The stacking, plies and constraints containers (also the mutable default of
constraints) were kept by reference, so changing them afterwards changed part
of an object already built (e.g. ply angles of the stresses, not of ABD).
---
 composipy/core/property.py  | 5 +++++
 composipy/core/structure.py | 3 ++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/composipy/core/property.py b/composipy/core/property.py
index 631ce2c..f0b15e4 100644
--- a/composipy/core/property.py
+++ b/composipy/core/property.py
@@ -1,5 +1,7 @@
 import numbers
 
+from copy import copy, deepcopy
+
 import numpy as np
 import scipy as sp
 
@@ -59,6 +61,7 @@ class LaminateProperty(Property):
     '''
 
     def __init__(self, stacking, plies):
+        stacking = deepcopy(stacking) # the laminate must not follow later changes of the inputs
         # Checking layup
         if not isinstance(stacking, dict): # implements angle stacking sequence
             if isinstance(plies, Material):
@@ -66,6 +69,8 @@ class LaminateProperty(Property):
                 plies = [plies for s in range(n_plies)]
             elif len(plies) != len(stacking):
                 raise ValueError('Number of plies and number of stacking must match')
+            else:
+                plies = copy(plies)
             xiA = None
             xiB = None
             xiD = None
diff --git a/composipy/core/structure.py b/composipy/core/structure.py
index 0c51a1b..a8d963c 100644
--- a/composipy/core/structure.py
+++ b/composipy/core/structure.py
@@ -2,6 +2,7 @@ import numpy as np
 import matplotlib.pyplot as plt
 
 from matplotlib import cm
+from copy import deepcopy
 from time import time
 from scipy.linalg import eigh
 from itertools import product
@@ -96,7 +97,7 @@ class PlateStructure(Structure):
         self.__dproperty = self._is_instance(dproperty, Property, 'dproperty')
         self.__a = self._float_number(a, n_min=0, name='a')
         self.__b = self._float_number(b, n_min=0, name='b')
-        self.__constraints = constraints
+        self.__constraints = deepcopy(constraints)
         self.__Nxx = self._float_number(Nxx, name='Nxx')
         self.__Nyy = self._float_number(Nyy, name='Nyy')
         self.__Nxy = self._float_number(Nxy, name='Nxy')
-- 
2.43.0


From 28b3c326c40b47982d5af5ed608952545f44b6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:45 +0000
Subject: [PATCH 18/32] fix: threads sharing a laminate could read half-built
 matrices

Q_layup, T_layup, A, B and D were stored before being filled, so a second
thread found them and used (or took a view of) an unfinished value.
---
 composipy/core/property.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/composipy/core/property.py b/composipy/core/property.py
index f0b15e4..5a8a49a 100644
--- a/composipy/core/property.py
+++ b/composipy/core/property.py
@@ -131,7 +131,7 @@ class LaminateProperty(Property):
     def Q_layup(self):    
         if self._Q_layup is None:
             
-            self._Q_layup = []
+            Q_layup = []
             for theta, ply in self.layup:
                 c = np.cos(theta*np.pi/180)
                 s = np.sin(theta*np.pi/180)
@@ -147,18 +147,19 @@ class LaminateProperty(Property):
                     [-2*c*s, 2*c*s, c**2-s**2]
                     ])
 
-                self._Q_layup.append(
+                Q_layup.append(
                     (np.linalg.inv(T_real))
                     @ ply.Q_0 
                     @ T_engineering
                     )
+            self._Q_layup = Q_layup
         return self._Q_layup
      
     @property
     def T_layup(self):
         if self._T_layup is None:
             
-            self._T_layup = []
+            T_layup = []
             for theta in self.layup:
                 c = np.cos(theta[0]*np.pi/180)
                 s = np.sin(theta[0]*np.pi/180)
@@ -175,7 +176,8 @@ class LaminateProperty(Property):
                     [-2*c*s, 2*c*s, c**2-s**2]
                     ])
 
-                self._T_layup.append([T_real,T_engineering])
+                T_layup.append([T_real,T_engineering])
+            self._T_layup = T_layup
         return self._T_layup
 
     @property
@@ -202,12 +204,13 @@ class LaminateProperty(Property):
                                 [A31, A32, A33]])
 
         if self._A is None:
-            self._A = np.zeros(9).reshape(3,3)
+            A = np.zeros(9).reshape(3,3)
 
             for i in enumerate(self.Q_layup):
                 zk1 = self.z_position[i[0]+1]
                 zk0 = self.z_position[i[0]]
-                self._A += (zk1-zk0) * i[1]
+                A += (zk1-zk0) * i[1]
+            self._A = A
         return self._A
     
     @property
@@ -225,12 +228,13 @@ class LaminateProperty(Property):
                                 [0., 0., 0.]])
 
         if self._B is None:
-            self._B = np.zeros(9).reshape(3,3)
+            B = np.zeros(9).reshape(3,3)
 
             for i in enumerate(self.Q_layup):
                 zk1 = self.z_position[i[0]+1]
                 zk0 = self.z_position[i[0]]
-                self._B += (1/2) * (zk1**2-zk0**2) * i[1]
+                B += (1/2) * (zk1**2-zk0**2) * i[1]
+            self._B = B
         return self._B
     
     @property
@@ -258,12 +262,13 @@ class LaminateProperty(Property):
                                 [D31, D32, D33]])
 
         if self._D is None:
-            self._D = np.zeros(9).reshape(3,3)
+            D = np.zeros(9).reshape(3,3)
 
             for i in enumerate(self.Q_layup):
                 zk1 = self.z_position[i[0]+1]
                 zk0 = self.z_position[i[0]]
-                self._D += (1/3) * (zk1**3-zk0**3) * i[1]
+                D += (1/3) * (zk1**3-zk0**3) * i[1]
+            self._D = D
         return self._D
 
     @property
-- 
2.43.0


From 677ecc00f866939dc3ec02acb084b3303a734c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:45 +0000
Subject: [PATCH 19/32] fix: nan was accepted as a real number within limits

---
 composipy/utils/validators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/composipy/utils/validators.py b/composipy/utils/validators.py
index 139df7b..e11a55b 100644
--- a/composipy/utils/validators.py
+++ b/composipy/utils/validators.py
@@ -8,6 +8,8 @@ class ComposipyValidator:
             value = float(value)
         except:
             raise ValueError(f'{name} Must be a real number')
+        if value != value: # nan passes any comparison with the limits
+            raise ValueError(f'{name} Must be a real number')
         if n_min is not None and value < n_min:
             raise ValueError(f'{name} must be at least {n_min}')
         if n_max is not None and value > n_max:
-- 
2.43.0


From bd5607d0bc669701cb646b26b69f4ed380298fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:45 +0000
Subject: [PATCH 20/32] fix: plot_eigenvalue failed unless ngridx equals ngridy

meshgrid returns arrays of shape (ngridy, ngridx).
---
 composipy/core/structure.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/composipy/core/structure.py b/composipy/core/structure.py
index a8d963c..bf62927 100644
--- a/composipy/core/structure.py
+++ b/composipy/core/structure.py
@@ -416,10 +416,10 @@ class PlateStructure(Structure):
         xi_arr = np.linspace(-1, 1, ngridx)
         eta_arr = np.linspace(-1, 1, ngridy)
         xi_mesh, eta_mesh = np.meshgrid(xi_arr, eta_arr)
-        z = np.zeros(ngridx*ngridy).reshape(ngridx, ngridy)
+        z = np.zeros(ngridx*ngridy).reshape(ngridy, ngridx)
 
-        for i in range(ngridx):
-            for j in range(ngridy):
+        for i in range(ngridy):
+            for j in range(ngridx):
                 sw = sxieta(self.sw_idx, xi_mesh[i, j], eta_mesh[i, j])
                 wij = float((sw @ cw_values))
                 z[i, j] = wij
-- 
2.43.0


From e883bf717143f9810a4dc5dd39d7087fd4400e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:40 +0000
Subject: [PATCH 21/32] fix: a plus-minus unit gave half of its plies

The documented result of \pm45_{1} is 45, -45.
---
 composipy/nastranapi/pcomp_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/composipy/nastranapi/pcomp_generator.py b/composipy/nastranapi/pcomp_generator.py
index 249dfb1..31009c0 100644
--- a/composipy/nastranapi/pcomp_generator.py
+++ b/composipy/nastranapi/pcomp_generator.py
@@ -5,7 +5,7 @@ def _build_pm_unit(angle, times):
     '''Returns a list when there is the plus minus sign '''
     stacking_values = list()
     
-    for i in range(times):
+    for i in range(2*times):
         current_angle = (-1)**i*angle
         stacking_values += [current_angle]
     return stacking_values
-- 
2.43.0


From 1c7a97a41766b469a7d498884357840e198ee857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:40 +0000
Subject: [PATCH 22/32] fix: a stacking string ending in an uppercase S could
 not be read

The S was recognised as the symmetry mark but not removed.
---
 composipy/nastranapi/pcomp_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/composipy/nastranapi/pcomp_generator.py b/composipy/nastranapi/pcomp_generator.py
index 31009c0..8c8bd9f 100644
--- a/composipy/nastranapi/pcomp_generator.py
+++ b/composipy/nastranapi/pcomp_generator.py
@@ -58,7 +58,7 @@ def build_sequence(stacking):
     '''
     stacking = stacking.strip()
     is_symmetric = stacking[-1].lower() == 's'
-    stacking = stacking.replace('s', '')
+    stacking = stacking.replace('s', '').replace('S', '')
     is_stacking = (stacking[0] == '['
                    and stacking[-1] == ']')
     stacking = stacking.replace('[', '').replace(']', '')
-- 
2.43.0


From 7932cf8e150cd50e4581b0a6e716c15b387dd373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:40 +0000
Subject: [PATCH 23/32] fix: fields of the PCOMP card

The continuation mark goes in field 10: in the header it was read as GE, and
in the body it was glued to the output request (YES+).
---
 composipy/nastranapi/pcomp_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/composipy/nastranapi/pcomp_generator.py b/composipy/nastranapi/pcomp_generator.py
index 8c8bd9f..9cd63e9 100644
--- a/composipy/nastranapi/pcomp_generator.py
+++ b/composipy/nastranapi/pcomp_generator.py
@@ -188,7 +188,7 @@ def build_pcomp(sequence, midi, ti, pid=1, z0='',sout='FIBER'):
     midi = _convert_to_list(midi, size)
     sout = _convert_sout(sout, size)
     
-    header = f'PCOMP,{pid},{z0},,,,,+\n'
+    header = f'PCOMP,{pid},{z0},,,,,,,+\n'
     body = ''
     
     for i in range(0, size, 2):
@@ -196,7 +196,7 @@ def build_pcomp(sequence, midi, ti, pid=1, z0='',sout='FIBER'):
         i1 = i + 1
         body += f'+,{midi[i0]},{ti[i0]},{sequence[i0]},{sout[i0]},'
         try:
-            body += f'{midi[i1]},{ti[i1]},{sequence[i1]},{sout[i1]}+\n'
+            body += f'{midi[i1]},{ti[i1]},{sequence[i1]},{sout[i1]},+\n'
         except IndexError:
             body = body[0:-1] # removes last comma
     
-- 
2.43.0


From 2df029f652c556acaa48e80e8606fba1eac1daae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:14 +0000
Subject: [PATCH 24/32] fix: derivative order of the B11 term of K31

w is derived twice and u once; K31 must be the transpose of K13.
---
 composipy/pre_integrated_component/build_k.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/composipy/pre_integrated_component/build_k.py b/composipy/pre_integrated_component/build_k.py
index de0d4b7..74ec3a8 100644
--- a/composipy/pre_integrated_component/build_k.py
+++ b/composipy/pre_integrated_component/build_k.py
@@ -115,7 +115,7 @@ def calc_k23_ijkl(a, b, vi, vj, wk, wl, B12, B16, B22, B26, B66):
 def calc_k31_ijkl(a, b, wi, wj, uk, ul, B11, B12, B16, B26, B66):
     wiuk = (wi, uk)
     wjul = (wj, ul)
-    wxixi_uxi = ii_fxi_fxixi(wiuk) * ii_ff(wjul)
+    wxixi_uxi = ii_fxixi_fxi(wiuk) * ii_ff(wjul)
     wetaeta_uxi = ii_f_fxi(wiuk) * ii_fxixi_f(wjul)
     wetaeta_ueta = ii_ff(wiuk) * ii_fxixi_fxi(wjul)
     wxieta_ueta = ii_fxi_f(wiuk) * ii_fxi_fxi(wjul)
-- 
2.43.0


From 0593223befd7437ff7fe733f0559e7c90dceafe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:22 +0000
Subject: [PATCH 25/32] fix: maximize_buckling_load stopped early or diverged
 depending on the units

The tolerance of SLSQP is absolute, so small critical loads were taken as
converged at the start and large ones gave points out of the feasible region.
The solver now works with the load relative to the one of its starting point.
---
 composipy/optimize/_maximize_buckling.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/composipy/optimize/_maximize_buckling.py b/composipy/optimize/_maximize_buckling.py
index 909f24e..e59160d 100644
--- a/composipy/optimize/_maximize_buckling.py
+++ b/composipy/optimize/_maximize_buckling.py
@@ -81,14 +81,19 @@ def maximize_buckling_load(a, b, T,
     # Constraints and boundaries   
     b1 = ([-1.0, 1.0], [-1.0, 1.0])
     x0 = [0.0, 0.0]
+    # The tolerance of the solver is absolute, so it is given a function of magnitude 1 whatever the units are
+    scale = abs(critical_load(x0))
+    def scaled_critical_load(y0):
+        return critical_load(y0) / scale
+
     if penalty:
         c2 = NonlinearConstraint(penalty_g1, -0.0001, 10000)
         c3 = NonlinearConstraint(penalty_g2, -0.0001, 10000)
-        res = minimize(critical_load, x0, method='SLSQP', constraints=[c2, c3], bounds=b1, options=options, tol=tol)
+        res = minimize(scaled_critical_load, x0, method='SLSQP', constraints=[c2, c3], bounds=b1, options=options, tol=tol)
     elif not penalty:
         c = NonlinearConstraint(natural_constraint_g, -0.0001, 10000)
-        res = minimize(critical_load, x0, method='SLSQP', constraints=[c], bounds=b1, options=options, tol=tol)
- 
+        res = minimize(scaled_critical_load, x0, method='SLSQP', constraints=[c], bounds=b1, options=options, tol=tol)
+    res.fun, res.jac = res.fun * scale, res.jac * scale
 
     if plot:
         plot_optimization(a, b, T, m, n, E1, E2, v12,
-- 
2.43.0


From 0140ae52af884830fbe489c9646b8a35fcd6eb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:43 +0000
Subject: [PATCH 26/32] fix: minimize_panel_weight stopped early or diverged
 depending on the units

The tolerance of SLSQP is absolute: with thicknesses well below 1 it accepted
panels several percent too thick. The solver now works with the thickness
relative to the one a quasi-isotropic panel needs.
---
 composipy/optimize/_minimize_panel_weight.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/composipy/optimize/_minimize_panel_weight.py b/composipy/optimize/_minimize_panel_weight.py
index 378955c..3adfeaf 100644
--- a/composipy/optimize/_minimize_panel_weight.py
+++ b/composipy/optimize/_minimize_panel_weight.py
@@ -79,13 +79,23 @@ def minimize_panel_weight(a, b,
             eig = -1
         return np.cbrt(eig / max_load) #proportional to T, so the solver deals with a well scaled constraint
     
+    # The tolerance of the solver is absolute, so it is given a thickness of magnitude 1 whatever the units are
+    scale = 1 / abs(critical_load([1.0, 0.0, 0.0])) #thickness of a quasi-isotropic panel that carries the load
+    def scaled_critical_load(y0):
+        T, xi1, xi3 = y0
+        return critical_load([T*scale, xi1, xi3])
+    x0 = [x0[0]/scale, x0[1], x0[2]]
+
     # Constraints and boundaries
-    c1 = NonlinearConstraint(critical_load, 1, np.inf)
+    c1 = NonlinearConstraint(scaled_critical_load, 1, np.inf)
     c2 = NonlinearConstraint(penalty_g1, -0.0001, 10000)
     c3 = NonlinearConstraint(penalty_g2, -0.0001, 10000)
-    b1 = ([0.001, 1000000], [-1.0, 1.0], [-1.0, 1.0])
+    b1 = ([0.001/scale, 1000000/scale], [-1.0, 1.0], [-1.0, 1.0])
    
     res = minimize(_objective_function, x0, method='SLSQP',
                    constraints=[c1, c2, c3], bounds=b1, options=options, tol=tol)
+    res.x[0] *= scale
+    res.fun = _objective_function(res.x)
+    res.jac[0] *= scale**2
 
     return res
-- 
2.43.0


From c27ae72b8053509cdea1d0e6cfc7fe65af6f6887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:07 +0000
Subject: [PATCH 27/32] fix: margins were not-a-number, or not given at all,
 without an allowable

A mode without stress has an infinite margin; with an allowable of zero (the
default) the division gave nan, and a ply with no other margin raised.
---
 composipy/core/strength.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/composipy/core/strength.py b/composipy/core/strength.py
index 8801e35..f5b229b 100644
--- a/composipy/core/strength.py
+++ b/composipy/core/strength.py
@@ -405,11 +405,12 @@ class LaminateStrength():
         df_allowable = self._calculate_maxstressallowable()
         df_stress = self.calculate_stress()
 
-        margin_t1 = df_allowable['t1'] / df_stress['sigma1'].mask(df_stress['sigma1'] < 0, 0) - 1 # replace negative stress with zero to yield infinite margins in tension
-        margin_c1 = df_allowable['c1'] / df_stress['sigma1'].mask(df_stress['sigma1'] > 0, 0).abs() - 1 # replace positive stress with zero to yield infinite margins in compression. Also flip stress sign since allowables are all positive
-        margin_t2 = df_allowable['t2'] / df_stress['sigma2'].mask(df_stress['sigma2'] < 0, 0) - 1
-        margin_c2 = df_allowable['c2'] / df_stress['sigma2'].mask(df_stress['sigma2'] > 0, 0).abs() - 1
-        margin_s = df_allowable['s'] / df_stress['tau12'].abs() - 1
+        # a mode without stress (stress of the other sign, or zero) has an infinite margin, also when its allowable is zero
+        margin_t1 = (df_allowable['t1'] / df_stress['sigma1'] - 1).mask(df_stress['sigma1'] <= 0, np.inf)
+        margin_c1 = (df_allowable['c1'] / -df_stress['sigma1'] - 1).mask(df_stress['sigma1'] >= 0, np.inf) # flip stress sign since allowables are all positive
+        margin_t2 = (df_allowable['t2'] / df_stress['sigma2'] - 1).mask(df_stress['sigma2'] <= 0, np.inf)
+        margin_c2 = (df_allowable['c2'] / -df_stress['sigma2'] - 1).mask(df_stress['sigma2'] >= 0, np.inf)
+        margin_s = (df_allowable['s'] / df_stress['tau12'].abs() - 1).mask(df_stress['tau12'] == 0, np.inf)
 
         df_margin = pd.DataFrame({})
         df_margin['ply'] = df_allowable['ply']
-- 
2.43.0


From 3a8124a8a1f9d97aa0f2632f9288258da3a15eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:28 +0000
Subject: [PATCH 28/32] fix: an edge given by name next to an edge given by its
 freedoms was taken as free

---
 composipy/core/structure.py | 31 +++++++++----------------------
 1 file changed, 9 insertions(+), 22 deletions(-)

diff --git a/composipy/core/structure.py b/composipy/core/structure.py
index bf62927..4d62088 100644
--- a/composipy/core/structure.py
+++ b/composipy/core/structure.py
@@ -157,12 +157,7 @@ class PlateStructure(Structure):
             y0 = ['TX', 'TY', 'TZ', 'RX', 'RY', 'RZ']
             yb = ['TX', 'TY', 'TZ', 'RX', 'RY', 'RZ']
 
-        elif (
-            isinstance(self.constraints['x0'], str)
-            and isinstance(self.constraints['xa'], str)
-            and isinstance(self.constraints['y0'], str)
-            and isinstance(self.constraints['yb'], str)
-        ):
+        else:
             boundary_conditions = {
                  'free': [],
                  'pinned': ['TX', 'TY', 'TZ'],
@@ -170,23 +165,15 @@ class PlateStructure(Structure):
                  'fixed': ['TX', 'TY', 'TZ', 'RX', 'RY', 'RZ'],
                  'clamped': ['TX', 'TY', 'TZ', 'RX', 'RY', 'RZ']
             }
-            x0 = boundary_conditions[
-                 self.constraints['x0'].lower()
-            ]
-            xa = boundary_conditions[
-                 self.constraints['xa'].lower()
-            ]
-            y0 = boundary_conditions[
-                 self.constraints['y0'].lower()
+            x0, xa, y0, yb = [
+                 boundary_conditions[edge.lower()] if isinstance(edge, str) else edge
+                 for edge in (
+                     self.constraints['x0'],
+                     self.constraints['xa'],
+                     self.constraints['y0'],
+                     self.constraints['yb'],
+                 )
             ]
-            yb = boundary_conditions[
-                 self.constraints['yb'].lower()
-            ]
-        else:
-            x0 = self.constraints['x0']
-            xa = self.constraints['xa']
-            y0 = self.constraints['y0']
-            yb = self.constraints['yb']
 
         sm = [i for i in range(self.m+4)]
         sn = [i for i in range(self.n+4)]
-- 
2.43.0


From 03b2d8975a3e3160018ac8300d8dbced47b5b058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:25 +0000
Subject: [PATCH 29/32] fix: minimize_panel_weight never went below a thickness
 of 0.001 in whatever unit, and gave up far from the optimum

---
 composipy/optimize/_minimize_panel_weight.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/composipy/optimize/_minimize_panel_weight.py b/composipy/optimize/_minimize_panel_weight.py
index 3adfeaf..2978ac4 100644
--- a/composipy/optimize/_minimize_panel_weight.py
+++ b/composipy/optimize/_minimize_panel_weight.py
@@ -90,7 +90,7 @@ def minimize_panel_weight(a, b,
     c1 = NonlinearConstraint(scaled_critical_load, 1, np.inf)
     c2 = NonlinearConstraint(penalty_g1, -0.0001, 10000)
     c3 = NonlinearConstraint(penalty_g2, -0.0001, 10000)
-    b1 = ([0.001/scale, 1000000/scale], [-1.0, 1.0], [-1.0, 1.0])
+    b1 = ([0.1, 10], [-1.0, 1.0], [-1.0, 1.0]) #the thickness lies near that of the quasi-isotropic panel
    
     res = minimize(_objective_function, x0, method='SLSQP',
                    constraints=[c1, c2, c3], bounds=b1, options=options, tol=tol)
-- 
2.43.0


From 18afd55157e86137bb90304508d243073f8919ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:27 +0000
Subject: [PATCH 30/32] fix: buckling_analysis raised LinAlgError for some
 plates (the partial eigenvalue solver did not converge on repeated zero
 eigenvalues)

---
 composipy/core/structure.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/composipy/core/structure.py b/composipy/core/structure.py
index 4d62088..2df738a 100644
--- a/composipy/core/structure.py
+++ b/composipy/core/structure.py
@@ -379,7 +379,10 @@ class PlateStructure(Structure):
         k = min(num_eigvalues, KG.shape[0])
 
         # KG x = -1/factor K x: the lowest load factors are the lowest eigenvalues.
-        eigvals, eigvecs = eigh(KG, K, subset_by_index=[0, k-1])
+        # All are calculated, since the solver for a part of them may fail on the repeated
+        # eigenvalues of a load that does no work on some of the functions.
+        eigvals, eigvecs = eigh(KG, K)
+        eigvals, eigvecs = eigvals[:k], eigvecs[:, :k]
         
         eigvals = -1./eigvals
     
-- 
2.43.0


From 0b330261b770cb4d5ca90e6687fea4b091274eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:28 +0000
Subject: [PATCH 31/32] fix: writing into a stiffness, transformation or mode
 array that was handed out changed the material, laminate or plate it came
 from

---
 composipy/core/material.py  |  4 ++--
 composipy/core/property.py  | 10 +++++-----
 composipy/core/structure.py |  2 +-
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/composipy/core/material.py b/composipy/core/material.py
index 835b2f7..aefb4cf 100644
--- a/composipy/core/material.py
+++ b/composipy/core/material.py
@@ -145,7 +145,7 @@ class OrthotropicMaterial(Material):
             self.__Q_0 = np.array([[Q11, Q12, 0],
                                    [Q12, Q22, 0],
                                    [0, 0, Q66]])
-        return self.__Q_0
+        return self.__Q_0.copy() # writing into it must not change the material
 
     def Invariants(self):
         '''
@@ -298,7 +298,7 @@ class IsotropicMaterial(Material):
             self.__Q_0 = np.array([[Q11, Q12, 0],
                                    [Q12, Q22, 0],
                                    [0, 0, Q66]])
-        return self.__Q_0
+        return self.__Q_0.copy() # writing into it must not change the material
 
     Invariants = OrthotropicMaterial.Invariants
 
diff --git a/composipy/core/property.py b/composipy/core/property.py
index 5a8a49a..44458df 100644
--- a/composipy/core/property.py
+++ b/composipy/core/property.py
@@ -153,7 +153,7 @@ class LaminateProperty(Property):
                     @ T_engineering
                     )
             self._Q_layup = Q_layup
-        return self._Q_layup
+        return [Q.copy() for Q in self._Q_layup] # writing into them must not change the laminate
      
     @property
     def T_layup(self):
@@ -178,7 +178,7 @@ class LaminateProperty(Property):
 
                 T_layup.append([T_real,T_engineering])
             self._T_layup = T_layup
-        return self._T_layup
+        return [[T.copy() for T in Ts] for Ts in self._T_layup]
 
     @property
     def A(self):
@@ -211,7 +211,7 @@ class LaminateProperty(Property):
                 zk0 = self.z_position[i[0]]
                 A += (zk1-zk0) * i[1]
             self._A = A
-        return self._A
+        return self._A.copy()
     
     @property
     def B(self):
@@ -235,7 +235,7 @@ class LaminateProperty(Property):
                 zk0 = self.z_position[i[0]]
                 B += (1/2) * (zk1**2-zk0**2) * i[1]
             self._B = B
-        return self._B
+        return self._B.copy()
     
     @property
     def D(self):
@@ -269,7 +269,7 @@ class LaminateProperty(Property):
                 zk0 = self.z_position[i[0]]
                 D += (1/3) * (zk1**3-zk0**3) * i[1]
             self._D = D
-        return self._D
+        return self._D.copy()
 
     @property
     def ABD(self):
diff --git a/composipy/core/structure.py b/composipy/core/structure.py
index 2df738a..d5c7ae9 100644
--- a/composipy/core/structure.py
+++ b/composipy/core/structure.py
@@ -391,7 +391,7 @@ class PlateStructure(Structure):
         if not silent:
              print(f'eigenvalues calculated in {time()-ti} seconds')
 
-        self.eigenvalue, self.eigenvector = eigvals, eigvecs
+        self.eigenvalue, self.eigenvector = eigvals.copy(), eigvecs.copy()
         return eigvals, eigvecs
     
     def plot_eigenvalue(self, nth=0, ngridx=20, ngridy=20):
-- 
2.43.0


From ba80424bd6bd31071e8b6cc870d2987eafccb18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:28 +0000
Subject: [PATCH 32/32] fix: plot_eigenvalue raised IndexError for a mode
 beyond those of the analysis made before (or beyond the fifth)

---
 composipy/core/structure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/composipy/core/structure.py b/composipy/core/structure.py
index d5c7ae9..7164828 100644
--- a/composipy/core/structure.py
+++ b/composipy/core/structure.py
@@ -398,6 +398,8 @@ class PlateStructure(Structure):
         if (not isinstance(self.eigenvalue, np.ndarray) 
                 and not isinstance(self.eigenvector, np.ndarray)):
             self.buckling_analysis()
+        if nth >= self.eigenvector.shape[1]: # a mode that was not asked for before
+            self.buckling_analysis(num_eigvalues=nth+1)
         
         c_values = self.eigenvector[:, nth] # ritz coefficients
         len_c_values = len(c_values)
-- 
2.43.0

